package boocheck

import (
	"bufio"
	"math"
	"strings"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// checkVector checks everything C04 says about one vector.
func checkVector(t *rapid.T, m *boo.MultiClass, ref *refModel, q []float64) int {
	keep := append([]float64(nil), q...)
	K := len(ref.ClassLabels)
	usedVector(m, q)
	p := append([]float64(nil), m.PredictSingle(q)...)
	if len(p) != K {
		t.Fatalf("%d probabilities for %d classes", len(p), K)
	}
	sum := 0.0
	for _, v := range p {
		if math.IsNaN(v) || v < 0 || v > 1+1e-12 {
			t.Fatalf("probability %v for %v", p, q)
		}
		sum += v
	}
	if math.Abs(sum-1) > 1e-9 {
		t.Fatalf("probabilities %v add up to %v", p, sum)
	}
	if !near(p, ref.probs(q), ref.tol(q)) {
		t.Fatalf("probabilities %v, the trees of the model give %v (raw %v)", p, ref.probs(q), ref.raw(q))
	}
	// scratch slices of all lengths, with rubbish in them
	for _, l := range []int{0, K - 1, K, K + 1, 3 * K} {
		room := make([]float64, l+rapid.SampledFrom([]int{0, 0, 1, 3*K + 2}).Draw(t, "room"))
		for i := range room {
			room[i] = 4.25
		}
		for i := range room[:l] {
			room[i] = rapid.SampledFrom([]float64{0, 7, -3, math.NaN(), math.Inf(1), 1e300}).Draw(t, "rubbish")
		}
		behind := append([]float64(nil), room[l:]...)
		s := room[:l]
		r := m.PredictSingle(q, s)
		if !sameBits(r, p) {
			t.Fatalf("with a scratch slice of length %d: %v, without: %v", l, r, p)
		}
		if l == K && !sameBits(s, p) {
			t.Fatalf("the slice of the right length holds %v, not the prediction %v", s, p)
		}
		if c := m.PredictSingleClass(q, s); c != argmax(p) {
			t.Fatalf("class %d with a scratch slice of length %d, probabilities %v", c, l, p)
		}
		if l == K && !sameBits(s, p) {
			t.Fatalf("the slice of the right length holds %v, not the prediction %v", s, p)
		}
		if !sameBits(room[l:], behind) {
			t.Fatalf("what lies behind the scratch slice was changed")
		}
	}
	c := m.PredictSingleClass(q)
	if c != argmax(p) {
		t.Fatalf("class %d for probabilities %v", c, p)
	}
	if !sameBits(q, keep) {
		t.Fatalf("prediction changed its vector")
	}
	return c
}

func checkAccuracy(t *rapid.T, m *boo.MultiClass, D *utils.DataBunch) {
	right := 0
	labels := m.ClassLabels()
	usedAccuracy(m, D)
	for i, q := range D.Data {
		if labels[argmax(m.PredictSingle(q))] == D.Labels[i] {
			right++
		}
	}
	want := 100 * float64(right) / float64(len(D.Data))
	k := len(labels)
	got := []float64{m.Accuracy(D), m.Accuracy(D, k), m.Accuracy(D, 0), m.Accuracy(D, -1), m.Accuracy(D, k+3), m.Accuracy(D, 1), m.Accuracy(D)}
	for i, g := range got {
		if math.Abs(g-want) > 1e-9 {
			t.Fatalf("accuracy %v (call %d), %d of %d are right", g, i, right, len(D.Data))
		}
	}
	classIf(right > 0 && right < len(D.Data), "accuracy strictly between 0 and 100")
}

func TestC04_trainedModels(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		ds := genData(t, 2, 14, 40, 5, 4, colKinds)
		o := genOptions(t, optSpec{maxRounds: 6, earlyStop: true})
		if rapid.IntRange(0, 4).Draw(t, "steep") == 0 {
			o.LearningRate = rapid.SampledFrom([]float64{3, 50, 1000, 1e6}).Draw(t, "steeplr")
			o.BaseScore = rapid.SampledFrom([]float64{0, -2000, 2000}).Draw(t, "bigbase")
		}
		m, ref, text := trainModel(t, ds.D, o)
		if rapid.Bool().Draw(t, "reload") {
			r, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
			if err != nil {
				t.Fatalf("reading back: %v", err)
			}
			m = r
			class("reloaded")
		}
		test := &utils.DataBunch{}
		for i := rapid.IntRange(1, 8).Draw(t, "queries"); i > 0; i-- {
			q := genQuery(t, ds.D.Data)
			c := checkVector(t, m, ref, q)
			lab := m.ClassLabels()[c]
			if rapid.Bool().Draw(t, "wrong") {
				lab = rapid.SampledFrom(append([]int{12345678}, m.ClassLabels()...)).Draw(t, "lab")
			}
			test.Data = append(test.Data, q)
			test.Labels = append(test.Labels, lab)
		}
		checkAccuracy(t, m, test)
		checkAccuracy(t, m, ds.D)
		if len(ref.ClassLabels) > 1 && len(ref.rounds) > 0 {
			nontrivial("%s %s %v", optString(o), dataString(ds.D), test.Data)
		}
		classIf(len(ref.rounds) == 0, "no rounds")
		big := 0.0
		for _, q := range test.Data {
			for _, v := range ref.raw(q) {
				big = math.Max(big, math.Abs(v))
			}
		}
		classIf(big > 709, "raw scores over 709")
	})
}

// Ensembles written by hand, with any leaf values: ties and enormous scores.
func TestC04_syntheticModels(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		ref, text := genModelText(t, genModelSpec{maxClasses: 6, maxRounds: 4, maxDepth: 3, features: 3, values: "any"})
		m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
		if err != nil {
			t.Fatalf("a well-formed model is rejected: %v\n%s", err, text)
		}
		noteCase("%s", text)
		test := &utils.DataBunch{}
		X := [][]float64{{0, 0, 0}, {1, -1, 0.5}, {-2, 3, 7}}
		ties := false
		for i := rapid.IntRange(1, 6).Draw(t, "queries"); i > 0; i-- {
			q := genQuery(t, X)
			checkVector(t, m, ref, q)
			r := ref.raw(q)
			for a := range r {
				for b := range r[:a] {
					ties = ties || (r[a] == r[b] && r[a] == r[argmax(r)])
				}
			}
			test.Data = append(test.Data, q)
			test.Labels = append(test.Labels, rapid.SampledFrom(ref.ClassLabels).Draw(t, "lab"))
		}
		checkAccuracy(t, m, test)
		classIf(ties, "tie for the largest probability")
		if len(ref.ClassLabels) > 1 && len(ref.rounds) > 0 {
			nontrivial("%s %v", text, test.Data)
		}
	})
}
