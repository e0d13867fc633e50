package boocheck

import (
	"math/rand/v2"
	"testing"

	"github.com/rmera/boo"
	"pgregory.net/rapid"
)

func stagewise(t *rapid.T, ds *dataSet, o *boo.Options) {
	m, ref, _ := trainModel(t, ds.D, o)
	if err := checkLabels(ref, m, ds.D); err != nil {
		t.Fatalf("%v", err)
	}
	if ref.LearningRate != o.LearningRate || ref.BaseScore != o.BaseScore {
		t.Fatalf("the model has learning rate %v and base score %v, options %s", ref.LearningRate, ref.BaseScore, optString(o))
	}
	rounds := o.Rounds
	if len(ds.D.Data) < o.MinSample {
		rounds = 0
	}
	if len(ref.rounds) != rounds {
		t.Fatalf("%d rounds for %s and %d rows", len(ref.rounds), optString(o), len(ds.D.Data))
	}
	b := newBooster(ds.D, o)
	rows := allRows(len(ds.D.Data))
	for r := range ref.rounds {
		for k := range b.labels {
			n := ref.rounds[r][k]
			if n == nil {
				t.Fatalf("no tree for class %d in round %d", k, r)
			}
			if err := b.tree(n, k, rows); err != nil {
				t.Fatalf("round %d, class %d: %v\n%s %s", r, k, err, optString(o), dataString(ds.D))
			}
			b.add(n, k)
		}
	}
	classIf(o.XGB, "xgb")
	classIf(!o.XGB, "plain")
	class("loss " + o.Loss.Name()[:3])
	classIf(len(b.labels) > 4, "more than 4 classes")
	classIf(len(ref.rounds) > 10, "more than 10 rounds")
	classIf(b.unver > 0, "some leaf values beyond precision")
	if len(b.labels) > 1 && len(ref.rounds) > 1 && b.splits > 0 {
		nontrivial("%s %s", optString(o), dataString(ds.D))
	}
	for i, row := range ds.D.Data {
		want := refSoftmax(b.raw[i])
		got := m.PredictSingle(row)
		if !near(got, want, ref.tol(row)) {
			t.Fatalf("row %d: predicted %v, the accumulated scores %v give %v", i, got, b.raw[i], want)
		}
		for _, p := range got {
			if !finite(p) {
				t.Fatalf("row %d: predicted %v", i, got)
			}
		}
	}
	for i := rapid.IntRange(0, 4).Draw(t, "queries"); i > 0; i-- {
		if err := samePrediction(m, ref, genQuery(t, ds.D.Data)); err != nil {
			t.Fatalf("%v", err)
		}
	}
}

func maybeOdd(t *rapid.T, o *boo.Options) {
	if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
		o.Loss = &oddLoss{scale: rapid.SampledFrom([]float64{1, 1, 1, 0x1p-70, 0x1p-300}).Draw(t, "scale"), a: rapid.SampledFrom([]float64{1, 2, 0.5, 3}).Draw(t, "a"), b: rapid.SampledFrom([]float64{0.5, 1, 2}).Draw(t, "b")}
	}
}

func TestC03_stagewise(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		ds := genData(t, 1, 14, 50, 4, 4, colKinds)
		o := genOptions(t, optSpec{maxRounds: 8, noSub: true})
		maybeOdd(t, o)
		stagewise(t, ds, o)
	})
}

// Many rounds, many classes, large steps: scores grow large.
func TestC03_longRuns(t *testing.T) {
	check(t, 2000, func(t *rapid.T) {
		ds := genData(t, 4, 20, 60, 14, 3, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 60, noSub: true})
		if rapid.Bool().Draw(t, "steep") {
			o.LearningRate = rapid.SampledFrom([]float64{1, 2, 5, 20, 100}).Draw(t, "steeplr")
			o.BaseScore = rapid.SampledFrom([]float64{0, 0.5, 800, -800}).Draw(t, "bigbase")
		}
		maybeOdd(t, o)
		if seldom(t, 3, "very long") {
			ds = genData(t, 4, 10, 10, 3, 2, tameKinds)
			o.Rounds = rapid.IntRange(61, 300).Draw(t, "rounds")
			o.MaxDepth = min(o.MaxDepth, 3)
			classIf(true, "more than 60 rounds")
		}
		stagewise(t, ds, o)
	})
}

// No options, or nil, means the defaults.
func TestC03_defaultOptions(t *testing.T) {
	check(t, 250, func(t *rapid.T) {
		ds := genData(t, 6, 20, 40, 3, 3, tameKinds)
		_, _, want := trainModel(t, ds.D, boo.DefaultXOptions())
		seed := rapid.Uint64().Draw(t, "seed")
		rand.VerifSeed(seed)
		want, _ = modelText(boo.NewMultiClass(ds.D, boo.DefaultXOptions()))
		rand.VerifSeed(seed)
		a, _ := modelText(boo.NewMultiClass(ds.D))
		rand.VerifSeed(seed)
		b, _ := modelText(boo.NewMultiClass(ds.D, nil))
		nontrivial("%s", dataString(ds.D))
		if a != want || b != want {
			t.Fatalf("training without options differs from training with the default options")
		}
	})
}
