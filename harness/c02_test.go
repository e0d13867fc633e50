package boocheck

import (
	"math"
	"testing"

	"github.com/rmera/boo"
	"pgregory.net/rapid"
)

func sameTree(a, b *node) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.leaf == b.leaf && a.xgb == b.xgb && a.nsamples == b.nsamples && a.branches == b.branches &&
		math.Float64bits(a.value) == math.Float64bits(b.value) &&
		(a.leaf || (a.feature == b.feature && a.threshold == b.threshold && a.score == b.score)) &&
		sameTree(a.left, b.left) && sameTree(a.right, b.right)
}

func checkPredictions(t *rapid.T, tr *boo.Tree, n *node, X [][]float64) {
	batch := copyMatrix(X)
	for i := rapid.IntRange(0, 8).Draw(t, "queries"); i > 0; i-- {
		batch = append(batch, genQuery(t, X))
	}
	keep := copyMatrix(batch)
	var buf []float64
	if rapid.Bool().Draw(t, "ownbuffer") {
		buf = make([]float64, len(batch)+rapid.SampledFrom([]int{0, 0, 1, 5}).Draw(t, "spare"))
		classIf(len(buf) > len(batch), "longer result slice")
		for i := range buf {
			buf[i] = 1e9
		}
	}
	all := tr.Predict(batch, buf)
	if len(all) != len(batch) && (len(all) < len(batch) || len(all) != len(buf)) {
		t.Fatalf("%d predictions for %d vectors", len(all), len(batch))
	}
	if buf != nil && len(buf) > 0 && &buf[0] != &all[0] {
		for i := range batch {
			if buf[i] != all[i] {
				t.Fatalf("the given slice was not filled")
			}
		}
	}
	for i, q := range batch {
		want := n.eval(q)
		if got := tr.PredictSingle(q); got != want {
			t.Fatalf("vector %v: predicted %v, its leaf has %v", q, got, want)
		}
		if all[i] != want {
			t.Fatalf("vector %v: batch predicted %v, its leaf has %v", q, all[i], want)
		}
	}
	if !sameMatrix(batch, keep) {
		t.Fatalf("prediction changed the vectors")
	}
}

// Structure, leaf values and predictions of single trees.
func TestC02_partitionAndValues(t *testing.T) {
	check(t, 30000, func(t *rapid.T) {
		c := genTreeCase(t, 14, 70)
		noteCase("%v", c)
		tr := boo.NewTree(c.X, c.o)
		n := observe(tr)
		treeClasses(c, n)
		if !n.leaf {
			nontrivial("%v", c)
		}
		c.s.structure, c.s.values = true, true
		n.walk(func(m *node) {
			if m.nsamples > 0 && m.samples == nil {
				t.Fatalf("a node does not list its %d samples when asked to\n%v", m.nsamples, c)
			}
		})
		if err := c.s.verify(n, c.rows); err != nil {
			t.Fatalf("%v\n%v", err, c)
		}
		if tr.Branches() != n.branches || tr.Leaf() != n.leaf {
			t.Fatalf("Branches() %d, Leaf() %v for %+v", tr.Branches(), tr.Leaf(), n)
		}
		if !sameMatrix(c.X, c.s.X) {
			t.Fatalf("growing the tree changed the data")
		}
		checkPredictions(t, tr, n, c.X)
	})
}

// The same options value used again for other data, other targets or the same
// ones gives the tree that a fresh options value gives, and leaves the earlier
// trees alone.
func TestC02_optionsReused(t *testing.T) {
	check(t, 12000, func(t *rapid.T) {
		c := genTreeCase(t, 10, 30)
		o := *c.o
		first := boo.NewTree(c.X, &o)
		n1 := observe(first)
		c.s.structure, c.s.values = true, true
		if err := c.s.verify(n1, c.rows); err != nil {
			t.Fatalf("first tree: %v\n%v", err, c)
		}
		d := genTreeCase(t, 10, 30)
		noteCase("first %v\nthen %v", c, d)
		if d.o.XGB != o.XGB {
			d.o.XGB = o.XGB
			if o.XGB {
				d.o.Gradients = genTargets(t, len(d.X), "g2")
				d.o.Hessian = make([]float64, len(d.X))
				for i := range d.o.Hessian {
					d.o.Hessian[i] = 1
				}
			} else {
				d.o.Y = genTargets(t, len(d.X), "y2")
				d.o.Gradients, d.o.Hessian = nil, nil
			}
		}
		// what a caller would set for the second tree
		o.Gradients, o.Hessian, o.Y = d.o.Gradients, d.o.Hessian, d.o.Y
		if len(c.o.Indexes) > 0 || len(d.o.Indexes) > 0 {
			o.Indexes = d.o.Indexes
		}
		o.AllowedColumns = d.o.AllowedColumns
		second := boo.NewTree(d.X, &o)
		s := *d.s
		s.xgb, s.g, s.h, s.y = o.XGB, o.Gradients, o.Hessian, o.Y
		s.lambda, s.gamma, s.mcw, s.depth = o.Lambda, o.Gamma, o.MinChildWeight, o.MaxDepth
		s.structure, s.values, s.splits = true, true, true
		n2 := observe(second)
		classIf(len(d.X) > len(c.X), "second data set larger")
		if !n1.leaf && !n2.leaf {
			nontrivial("%v then %v", c, d)
		}
		if err := s.verify(n2, d.rows); err != nil {
			t.Fatalf("tree from reused options: %v\nfirst %v\nthen %v", err, c, d)
		}
		if !sameTree(observe(first), n1) {
			t.Fatalf("the first tree changed")
		}
		checkPredictions(t, first, n1, c.X)
	})
}
