package boocheck

import (
	"bufio"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/rmera/boo"
	"pgregory.net/rapid"
)

// totals collects score sums per feature and the sum of their magnitudes.
type totals struct {
	sum, abs map[int]float64
}

func newTotals() *totals { return &totals{map[int]float64{}, map[int]float64{}} }

func (s *totals) add(f int, v float64) {
	s.sum[f] += v
	s.abs[f] += math.Abs(v)
}

func (s *totals) tree(n *node) {
	n.walk(func(x *node) {
		if !x.leaf {
			s.add(x.feature, x.score)
		}
	})
}

// feats compares a set of importances with the totals; ordered says whether
// it must be ranked already.
func (s *totals) feats(f *boo.Feats, xgb, ordered bool) error {
	title, fs, err := parseFeats(f.String())
	if err != nil {
		return err
	}
	if f.XGB() != xgb || strings.Contains(title, "xgboost") != xgb {
		return fmt.Errorf("kind %v, title %q, expected xgboost %v", f.XGB(), title, xgb)
	}
	if len(fs) != len(s.sum) || f.Len() != len(fs) {
		return fmt.Errorf("%d features (Len %d), expected %d", len(fs), f.Len(), len(s.sum))
	}
	seen := map[int]bool{}
	for i, x := range fs {
		want, ok := s.sum[x.feat]
		if !ok || seen[x.feat] {
			return fmt.Errorf("feature %d unused or twice", x.feat)
		}
		seen[x.feat] = true
		if !(math.Abs(x.score-want) <= 0.000501+1e-9*s.abs[x.feat]) {
			return fmt.Errorf("feature %d has score %v, its splits add up to %v", x.feat, x.score, want)
		}
		if i == 0 || !ordered {
			continue
		}
		if xgb && x.score > fs[i-1].score || !xgb && x.score < fs[i-1].score {
			return fmt.Errorf("feature %d with %v comes after %d with %v", x.feat, x.score, fs[i-1].feat, fs[i-1].score)
		}
		if f.Less(i, i-1) {
			return fmt.Errorf("places %d and %d are in the wrong order", i-1, i)
		}
	}
	return nil
}

func TestC17_models(t *testing.T) {
	check(t, 5000, func(t *rapid.T) {
		var m *boo.MultiClass
		var ref *refModel
		var desc string
		xgb := false
		if rapid.Bool().Draw(t, "trained") {
			ds := genData(t, 2, 20, 60, 5, 5, colKinds)
			o := genOptions(t, optSpec{maxRounds: 6, earlyStop: true})
			var text string
			m, ref, text = trainModel(t, ds.D, o)
			desc, xgb = text, o.XGB
			class("trained model")
		} else {
			r, text := genModelText(t, genModelSpec{maxClasses: 5, maxRounds: 4, maxDepth: 4, features: 6, values: "small"})
			if len(r.rounds) == 0 {
				t.Skip("no trees")
			}
			got, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
			if err != nil {
				t.Fatalf("a well-formed model is rejected: %v\n%s", err, text)
			}
			m, ref, desc = got, r, text
			xgb = r.rounds[0][0].xgb
			class("model from text")
		}
		noteCase("%s", desc)
		want := newTotals()
		for _, round := range ref.rounds {
			for _, n := range round {
				want.tree(n)
			}
		}
		for rep := 0; rep < 3; rep++ {
			f, err := m.FeatureImportance()
			if err != nil || f == nil {
				t.Fatalf("feature importance: %v\n%s", err, desc)
			}
			if err := want.feats(f, xgb, true); err != nil {
				t.Fatalf("%v (time %d)\n%s\n%s", err, rep+1, f, desc)
			}
			// the set is the caller's
			more := boo.NewFeats(xgb)
			more.Add(3, 1000)
			more.Add(97, -5)
			f.Merge(more)
			f.Swap(0, f.Len()-1)
		}
		text, _ := modelText(m)
		if again, err := parseModel(text); err != nil || sameRefModel(ref, again) != nil {
			t.Fatalf("asking for the importances changed the model")
		}
		classIf(xgb, "xgb")
		classIf(!xgb, "plain")
		classIf(len(want.sum) > 1, "several features used")
		if len(want.sum) > 1 {
			nontrivial("%s", desc)
		}
	})
}

func TestC17_trees(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		tc := genTreeCase(t, 14, 40)
		tr := boo.NewTree(tc.X, tc.o)
		n := observe(tr)
		want := newTotals()
		want.tree(n)
		if n.leaf {
			class("single leaf")
			// nothing to rank: whatever comes back must hold no feature
			if f, err := tr.FeatureImportance(tc.o.XGB); err == nil && f != nil && f.Len() != 0 {
				t.Fatalf("a leaf has importances: %v", f)
			}
			return
		}
		f, err := tr.FeatureImportance(tc.o.XGB)
		if err != nil || f == nil {
			t.Fatalf("feature importance: %v\n%s", err, tc)
		}
		if err := want.feats(f, tc.o.XGB, true); err != nil {
			t.Fatalf("%v\n%s\n%s", err, f, tc)
		}
		f.Add(97, 1000)
		f.Swap(0, f.Len()-1)
		if f, err = tr.FeatureImportance(tc.o.XGB); err != nil || f == nil {
			t.Fatalf("feature importance: %v\n%s", err, tc)
		}
		if err := want.feats(f, tc.o.XGB, true); err != nil {
			t.Fatalf("asked again: %v\n%s\n%s", err, f, tc)
		}
		// collecting several trees into one set
		all := boo.NewFeats(tc.o.XGB)
		sum := newTotals()
		for i := rapid.IntRange(1, 3).Draw(t, "times"); i > 0; i-- {
			if _, err := tr.FeatureImportance(tc.o.XGB, all); err != nil {
				t.Fatalf("collecting: %v", err)
			}
			sum.tree(n)
		}
		if err := sum.feats(all, tc.o.XGB, true); err != nil {
			t.Fatalf("collected into one set: %v\n%s\n%s", err, all, tc)
		}
		if len(want.sum) > 0 {
			nontrivial("%s", tc)
		}
	})
}

type featOp struct {
	merge bool
	fs    []featScore
}

func genFeatOps(t *rapid.T, maxOps int) []featOp {
	ops := make([]featOp, rapid.IntRange(1, maxOps).Draw(t, "ops"))
	one := func() featScore {
		return featScore{rapid.IntRange(0, 7).Draw(t, "feat"), float64(rapid.IntRange(-4000, 4000).Draw(t, "score")) / 8}
	}
	for i := range ops {
		ops[i].merge = rapid.Bool().Draw(t, "merge")
		k := 1
		if ops[i].merge {
			k = rapid.IntRange(0, 5).Draw(t, "size")
		}
		for ; k > 0; k-- {
			ops[i].fs = append(ops[i].fs, one())
		}
	}
	return ops
}

func (o featOp) apply(f *boo.Feats, xgb bool) {
	if !o.merge {
		f.Add(o.fs[0].feat, o.fs[0].score)
		return
	}
	g := boo.NewFeats(xgb)
	for _, x := range o.fs {
		g.Add(x.feat, x.score)
	}
	f.Merge(g)
}

func (s *totals) ops(ops []featOp) {
	for _, o := range ops {
		for _, x := range o.fs {
			s.add(x.feat, x.score)
		}
	}
}

func TestC17_addMerge(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		xgb := rapid.Bool().Draw(t, "xgb")
		ops := genFeatOps(t, 12)
		f := boo.NewFeats(xgb)
		want := newTotals()
		for i, o := range ops {
			before := ""
			var g *boo.Feats
			if o.merge {
				g = boo.NewFeats(xgb)
				for _, x := range o.fs {
					g.Add(x.feat, x.score)
				}
				before = g.String()
				f.Merge(g)
				if g.String() != before {
					t.Fatalf("merging changed the set merged: %s, was %s", g, before)
				}
			} else {
				o.apply(f, xgb)
			}
			want.ops(ops[i : i+1])
			if err := want.feats(f, xgb, false); err != nil {
				t.Fatalf("after %v: %v\n%s", ops[:i+1], err, f)
			}
			if g != nil && g.Len() > 0 { // the merged set stays apart
				now := f.String()
				g.Add(3, 1)
				g.Add(99, 1)
				if f.String() != now {
					t.Fatalf("a set changes when one merged into it before does")
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "sort") == 0 {
				sort.Sort(f)
				if err := want.feats(f, xgb, true); err != nil {
					t.Fatalf("sorted after %v: %v\n%s", ops[:i+1], err, f)
				}
			}
		}
		nontrivial("%v", ops)
	})
}

// Many goroutines collect into one set.
func concurrentFeats(t *rapid.T, maxOps int) {
	xgb := rapid.Bool().Draw(t, "xgb")
	n := rapid.IntRange(2, 6).Draw(t, "goroutines")
	work := make([][]featOp, n)
	want := newTotals()
	for i := range work {
		work[i] = genFeatOps(t, maxOps)
		want.ops(work[i])
	}
	f := boo.NewFeats(xgb)
	var wg sync.WaitGroup
	start := make(chan struct{})
	dead := runToEnd(func() {
		for _, w := range work {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, o := range w {
					o.apply(f, xgb)
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	if dead != "" {
		t.Fatalf("deadlock:\n%s", dead)
	}
	sort.Sort(f)
	if err := want.feats(f, xgb, true); err != nil {
		t.Fatalf("%v\n%s\n%v", err, f, work)
	}
	class("concurrent collection")
	nontrivial("%v", work)
}

func TestC17_concurrent(t *testing.T) {
	check(t, 3000, func(t *rapid.T) { concurrentFeats(t, 12) })
}

func TestRaceC17_concurrent(t *testing.T) {
	check(t, 2500, func(t *rapid.T) { concurrentFeats(t, 8) })
}

// Trees and models summarised into one set at once.
func TestRaceC17_trees(t *testing.T) {
	check(t, 300, func(t *rapid.T) {
		tc := genTreeCase(t, 14, 40)
		tr := boo.NewTree(tc.X, tc.o)
		n := observe(tr)
		f := boo.NewFeats(tc.o.XGB)
		want := newTotals()
		var wg sync.WaitGroup
		sets := make([]*boo.Feats, 3)
		for g := range sets {
			wg.Add(1)
			want.tree(n)
			go func() {
				defer wg.Done()
				sets[g], _ = tr.FeatureImportance(tc.o.XGB)
				if sets[g] != nil {
					f.Merge(sets[g])
				}
			}()
		}
		wg.Wait()
		if err := want.feats(f, tc.o.XGB, false); err != nil {
			t.Fatalf("%v\n%s\n%s", err, f, tc)
		}
		nontrivial("%s", tc)
	})
}
