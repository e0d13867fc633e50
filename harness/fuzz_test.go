package boocheck

import (
	"encoding/binary"
	"math/rand/v2"
	"os"
	"testing"

	"pgregory.net/rapid"
)

// Coverage-guided search (thorough tier): the fuzzing engine of the Go
// toolchain chooses the bytes from which the same generators draw, guided by
// the code of the library they reach. The property and its oracle are those
// of the test named by BOOCHECK_FUZZ.

var (
	capturing bool
	captured  func(*rapid.T)
)

var fuzzable = map[string]func(*testing.T){
	"TestC01_exactGreedySplits":  TestC01_exactGreedySplits,
	"TestC02_partitionAndValues": TestC02_partitionAndValues,
	"TestC03_stagewise":          TestC03_stagewise,
	"TestC04_syntheticModels":    TestC04_syntheticModels,
	"TestC05_earlyStopping":      TestC05_earlyStopping,
	"TestC06_rowsOfTrees":        TestC06_rowsOfTrees,
	"TestC06_columnsOfTrees":     TestC06_columnsOfTrees,
	"TestC07_syntheticRoundTrip": TestC07_syntheticRoundTrip,
	"TestC07_treeSerializer":     TestC07_treeSerializer,
	"TestC08_edits":              TestC08_edits,
	"TestC08_anything":           TestC08_anything,
	"TestC08_mustReject":         TestC08_mustReject,
	"TestC09_exactReading":       TestC09_exactReading,
	"TestC09_malformed":          TestC09_malformed,
	"TestC09_anything":           TestC09_anything,
	"TestC10_exactReading":       TestC10_exactReading,
	"TestC10_malformed":          TestC10_malformed,
	"TestC10_anything":           TestC10_anything,
	"TestC11_partition":          TestC11_partition,
	"TestC12_score":              TestC12_score,
	"TestC13_grid":               TestC13_grid,
	"TestC14_searchKnown":        TestC14_searchKnown,
	"TestC15_optionsCloneEqual":  TestC15_optionsCloneEqual,
	"TestC15_check":              TestC15_check,
	"TestC16_confusions":         TestC16_confusions,
	"TestC17_trees":              TestC17_trees,
	"TestC17_addMerge":           TestC17_addMerge,
	"TestC18_softmaxVector":      TestC18_softmaxVector,
	"TestC18_oneHot":             TestC18_oneHot,
	"TestC19_sampleMatrix":       TestC19_sampleMatrix,
	"TestC19_argsort":            TestC19_argsort,
	"TestC20_histories":          TestC20_histories,
	"TestC21_symmetries":         TestC21_symmetries,
	"TestC22_read":               TestC22_read,
	"TestC22_malformed":          TestC22_malformed,
	"TestC22_anything":           TestC22_anything,
	"TestC23_trees":              TestC23_trees,
	"TestC23_dataAndMatrices":    TestC23_dataAndMatrices,
	"TestC24_step":               TestC24_step,
	"TestC24_dial":               TestC24_dial,
	"TestC25_training":           TestC25_training,
}

func FuzzCase(f *testing.F) {
	fn := fuzzable[os.Getenv("BOOCHECK_FUZZ")]
	if fn == nil {
		f.Skip("no property named")
	}
	capturing, captured = true, nil
	fn(nil)
	capturing = false
	prop := captured
	if prop == nil {
		f.Fatal("HARNESS-ERROR no property")
	}
	if devNull != nil {
		os.Stdout = devNull
		f.Cleanup(func() { os.Stdout = realStdout })
	}
	src := rand.New(rand.NewPCG(baseSeed, 77))
	for i := 0; i < 12; i++ {
		var b []byte
		for k := 0; k < 64<<(i%6); k++ {
			v := src.Uint64()
			if i%2 == 1 {
				v >>= src.IntN(64)
			}
			b = binary.LittleEndian.AppendUint64(b, v)
		}
		f.Add(b)
	}
	f.Fuzz(rapid.MakeFuzz(func(rt *rapid.T) {
		stats.mu.Lock()
		stats.Evals++
		stats.mu.Unlock()
		caseCount.Add(1)
		prop(rt)
	}))
}
