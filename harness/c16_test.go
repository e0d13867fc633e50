package boocheck

import (
	"bufio"
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

func sameIntMatrix(a, b [][]int) bool {
	return slices.EqualFunc(a, b, func(x, y []int) bool { return slices.Equal(x, y) })
}

// topN says what is wrong with a ranking of a row of the matrix.
func topN(row []int, n int, idx, counts []int) error {
	want := min(n, len(row))
	if len(idx) != want || len(counts) != want {
		return fmt.Errorf("%d positions and %d counts instead of %d", len(idx), len(counts), want)
	}
	seen := map[int]bool{}
	for i, p := range idx {
		if p < 0 || p >= len(row) || seen[p] {
			return fmt.Errorf("position %d (of %v)", p, idx)
		}
		seen[p] = true
		if row[p] != counts[i] {
			return fmt.Errorf("position %d has count %d, not %d", p, row[p], counts[i])
		}
		if i > 0 && counts[i] > counts[i-1] {
			return fmt.Errorf("counts %v are not ordered", counts)
		}
	}
	if want > 0 {
		for p, v := range row {
			if !seen[p] && v > counts[want-1] {
				return fmt.Errorf("position %d with count %d is missing from %v %v", p, v, idx, counts)
			}
		}
	}
	return nil
}

func printedTopN(s string, n int, M [][]int, labels []int, names map[int]string) error {
	byName := map[string]int{}
	for i, l := range labels {
		byName[names[l]] = i
	}
	lines := strings.Split(s, "\n")
	seen := map[int]bool{}
	for _, l := range lines[1:] {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		if len(f) < 2 || f[0] != "Label" {
			return fmt.Errorf("line %q", l)
		}
		row, ok := byName[f[1]]
		if !ok || seen[row] {
			return fmt.Errorf("label %q in line %q", f[1], l)
		}
		seen[row] = true
		var idx, counts []int
		for _, e := range f[2:] {
			c := strings.LastIndex(e, ":")
			if c < 0 {
				return fmt.Errorf("entry %q in line %q", e, l)
			}
			p, ok := byName[e[:c]]
			v, err := strconv.Atoi(e[c+1:])
			if !ok || err != nil || v == 0 {
				return fmt.Errorf("entry %q in line %q", e, l)
			}
			idx, counts = append(idx, p), append(counts, v)
		}
		nz := 0
		for _, v := range M[row] {
			if v > 0 {
				nz++
			}
		}
		if err := topN(M[row], min(n, nz), idx, counts); err != nil {
			return fmt.Errorf("line %q: %v", l, err)
		}
	}
	for i, r := range M {
		sum := 0
		for _, v := range r {
			sum += v
		}
		if sum > 0 && n > 0 && !seen[i] {
			return fmt.Errorf("no line for label %d (%q)", labels[i], names[labels[i]])
		}
		if sum == 0 && seen[i] {
			return fmt.Errorf("a line for label %d (%q), which has no vectors", labels[i], names[labels[i]])
		}
	}
	return nil
}

type kept struct {
	n, row      int
	idx, counts []int
}

// confuModel draws a model (trained, or written by hand with many classes) and
// vectors of the right width.
func confuModel(t *rapid.T) (*boo.MultiClass, [][]float64, string) {
	if rapid.Bool().Draw(t, "trained") {
		ds := genData(t, 2, 20, 40, 5, 3, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 4, earlyStop: true})
		m, _, _ := trainModel(t, ds.D, o)
		class("trained model")
		return m, ds.D.Data, optString(o) + dataString(ds.D)
	}
	_, text := genModelText(t, genModelSpec{maxClasses: 8, maxRounds: 3, maxDepth: 3, features: 3, values: "small"})
	m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
	if err != nil {
		t.Fatalf("a well-formed model is rejected: %v\n%s", err, text)
	}
	class("model from text")
	X := genMatrix(t, rapid.IntRange(1, 30).Draw(t, "rows"), 3, tameKinds)
	return m, X, fmt.Sprintf("%s", text)
}

func TestC16_confusions(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		m, X, desc := confuModel(t)
		for i := rapid.IntRange(0, 10).Draw(t, "more"); i > 0; i-- {
			X = append(X, genQuery(t, X))
		}
		if seldom(t, 5, "norows") {
			X = nil
		}
		labels := m.ClassLabels()
		unknown := []int{123456, -777}
		known := rapid.IntRange(0, 2).Draw(t, "known") > 0
		// labels the model never predicts and labels with few samples are wanted
		pool := labels
		if rapid.Bool().Draw(t, "few") {
			pool = labels[:1+rapid.IntRange(0, len(labels)-1).Draw(t, "pool")]
		}
		D := &utils.DataBunch{Data: X, Labels: make([]int, len(X))}
		for i := range X {
			D.Labels[i] = rapid.SampledFrom(pool).Draw(t, "actual")
			if rapid.Bool().Draw(t, "right") {
				D.Labels[i] = labels[m.PredictSingleClass(X[i])]
			}
			if !known && rapid.IntRange(0, 3).Draw(t, "unknown") == 3 {
				D.Labels[i] = rapid.SampledFrom(unknown).Draw(t, "unk")
			}
		}
		keep := copyBunch(D)
		M := make([][]int, len(labels))
		for i := range M {
			M[i] = make([]int, len(labels))
		}
		right, inKnown := 0, 0
		for i, v := range X {
			p := m.PredictSingleClass(v)
			if a := slices.Index(labels, D.Labels[i]); a >= 0 {
				M[a][p]++
				inKnown++
			}
			if labels[p] == D.Labels[i] {
				right++
			}
		}
		names := map[int]string{}
		for i, l := range labels {
			names[l] = fmt.Sprintf("%s%d", rapid.SampledFrom([]string{"ala", "x", "Leu-", "n_"}).Draw(t, "name"), i)
		}
		noteCase("%s\n%s", desc, dataString(D))
		where := func() string { return fmt.Sprintf("labels %v matrix %v\n%s\n%s", labels, M, desc, dataString(D)) }
		usedAccuracy(m, D)
		C := confu.MCConfusions(m, D)
		if !equalInts(C.Labels, labels) {
			t.Fatalf("labels %v, the model has %v", C.Labels, labels)
		}
		var old []kept
		maxOps := 8
		ops := ""
		for op := rapid.IntRange(1, maxOps).Draw(t, "ops"); op > 0; op-- {
			n := rapid.IntRange(0, len(labels)+2).Draw(t, "n")
			kind := rapid.SampledFrom([]string{"matrix", "one", "one", "copy", "all", "print", "unknown"}).Draw(t, "op")
			ops += fmt.Sprintf("%s(%d) ", kind, n)
			switch kind {
			case "matrix":
				if got := C.Matrix(); !sameIntMatrix(got, M) {
					t.Fatalf("after %s: matrix %v\n%s", ops, got, where())
				}
			case "one", "copy":
				row := rapid.IntRange(0, len(labels)-1).Draw(t, "row")
				var idx, counts []int
				if kind == "copy" {
					idx, counts = C.TopNForLabelM(n, labels[row], true)
					old = append(old, kept{n, row, idx, counts})
				} else if rapid.Bool().Draw(t, "explicit") {
					idx, counts = C.TopNForLabelM(n, labels[row], false)
				} else {
					idx, counts = C.TopNForLabelM(n, labels[row])
				}
				if err := topN(M[row], n, idx, counts); err != nil {
					t.Fatalf("after %s: top %d of label %d: %v\n%s", ops, n, labels[row], err, where())
				}
			case "all":
				idx, counts := C.TopNPerLabel(n)
				if len(idx) != len(labels) || len(counts) != len(labels) {
					t.Fatalf("after %s: %d and %d lists\n%s", ops, len(idx), len(counts), where())
				}
				for row := range labels {
					if err := topN(M[row], n, idx[row], counts[row]); err != nil {
						t.Fatalf("after %s: top %d of label %d: %v\n%s", ops, n, labels[row], err, where())
					}
					old = append(old, kept{n, row, idx[row], counts[row]})
				}
			case "print":
				if seldom(t, 2, "rename") {
					for i, l := range labels {
						names[l] = fmt.Sprintf("%s.%d", rapid.SampledFrom([]string{"other", "y", "%d"}).Draw(t, "name"), i)
					}
				}
				s := C.PrintTopN(n, names)
				if err := printedTopN(s, n, M, labels, names); err != nil {
					t.Fatalf("after %s: the report of the top %d: %v\n%s\n%s", ops, n, err, s, where())
				}
			case "unknown":
				idx, counts := C.TopNForLabelM(n, rapid.SampledFrom(unknown).Draw(t, "unk"))
				if len(idx) != 0 || len(counts) != 0 {
					t.Fatalf("after %s: an unknown label has %v %v\n%s", ops, idx, counts, where())
				}
			}
		}
		for _, k := range old {
			if err := topN(M[k.row], k.n, k.idx, k.counts); err != nil {
				t.Fatalf("after %s: a list returned before changed: %v\n%s", ops, err, where())
			}
		}
		got := C.Matrix()
		if !sameIntMatrix(got, M) {
			t.Fatalf("after %s: matrix %v\n%s", ops, got, where())
		}
		sum, diag := 0, 0
		for i := range got {
			diag += got[i][i]
			for _, v := range got[i] {
				sum += v
			}
		}
		if sum != inKnown || diag != right {
			t.Fatalf("the matrix has %d vectors, %d right; the data %d and %d", sum, diag, inKnown, right)
		}
		if len(X) > 0 {
			if acc := m.Accuracy(D); math.Abs(acc-100*float64(diag)/float64(len(X))) > 1e-9 {
				t.Fatalf("accuracy %v with %d of %d right\n%s", acc, diag, len(X), where())
			}
		}
		if !sameBunch(D, keep) {
			t.Fatalf("the data changed")
		}
		offdiag := sum > diag
		classIf(!known, "labels unknown to the model")
		classIf(offdiag, "wrong predictions")
		if len(labels) > 1 && len(X) > 2 {
			nontrivial("%v %v %s", labels, M, ops)
		}
	})
}
