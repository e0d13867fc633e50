package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"pgregory.net/rapid"
)

type treeCase struct {
	X    [][]float64
	o    *boo.TreeOptions
	rows []int
	s    *spec
}

func (c *treeCase) String() string {
	return fmt.Sprintf("xgb=%v depth=%d mcw=%v lambda=%v gamma=%v cols=%v rows=%v X=%v g=%v h=%v y=%v",
		c.o.XGB, c.o.MaxDepth, c.o.MinChildWeight, c.o.Lambda, c.o.Gamma, c.o.AllowedColumns, c.rows, c.X, c.o.Gradients, c.o.Hessian, c.o.Y)
}

func genTargets(t *rapid.T, n int, name string) []float64 {
	v := make([]float64, n)
	style := rapid.IntRange(0, 3).Draw(t, name+"style")
	for i := range v {
		switch style {
		case 0:
			v[i] = float64(rapid.IntRange(-2, 2).Draw(t, name))
		case 1:
			v[i] = float64(rapid.IntRange(-64, 64).Draw(t, name)) / 16
		case 2:
			v[i] = rapid.Float64Range(-1, 1).Draw(t, name)
		default:
			v[i] = float64(rapid.IntRange(0, 1).Draw(t, name)) - 0.5
		}
	}
	return v
}

// genTreeCase draws data and options for one tree.
func genTreeCase(t *rapid.T, usual, tail int) *treeCase {
	n := genRows(t, 1, usual, tail)
	cols := rapid.IntRange(1, 5).Draw(t, "cols")
	if seldom(t, 7, "wide") {
		cols = rapid.IntRange(9, 70).Draw(t, "cols")
	} else if seldom(t, 7, "long") {
		n = rapid.IntRange(64, 270).Draw(t, "rows")
	}
	c := &treeCase{X: genMatrix(t, n, cols, colKinds)}
	xgb := rapid.Bool().Draw(t, "xgb")
	if xgb {
		c.o = boo.DefaultXTreeOptions()
		c.o.Gradients = genTargets(t, n, "g")
		c.o.Hessian = make([]float64, n)
		hs := rapid.IntRange(0, 2).Draw(t, "hstyle")
		for i := range c.o.Hessian {
			switch hs {
			case 0:
				c.o.Hessian[i] = 1
			case 1:
				c.o.Hessian[i] = float64(rapid.IntRange(1, 16).Draw(t, "h")) / 16
			default:
				c.o.Hessian[i] = rapid.Float64Range(0.01, 0.25).Draw(t, "h")
			}
		}
		if rapid.Bool().Draw(t, "hasy") {
			c.o.Y = genTargets(t, n, "y")
		}
		c.o.Lambda = genPos(0, 5, 0, 1, 0.5, 2).Draw(t, "lambda")
		c.o.Gamma = genPos(0, 3, 0, 0, 1, 0.25).Draw(t, "gamma")
	} else {
		c.o = boo.DefaultGTreeOptions()
		c.o.Y = genTargets(t, n, "y")
	}
	c.o.MaxDepth = rapid.IntRange(0, 6).Draw(t, "depth")
	if seldom(t, 4, "deep") {
		c.o.MaxDepth = rapid.IntRange(7, 40).Draw(t, "depth")
	}
	c.o.MinChildWeight = float64(rapid.IntRange(0, 5).Draw(t, "mcw"))
	if rapid.Bool().Draw(t, "mcw1") {
		c.o.MinChildWeight = 1
	}
	if n >= 12 && seldom(t, 3, "large mcw") {
		c.o.MinChildWeight = float64(rapid.IntRange(5, n/2).Draw(t, "mcw"))
		classIf(true, "5 or more samples required")
	}
	c.rows = allRows(n)
	switch rapid.IntRange(0, 2).Draw(t, "rowsmode") {
	case 1: // increasing subset
		k := rapid.IntRange(1, n).Draw(t, "nrows")
		perm := rapid.Permutation(allRows(n)).Draw(t, "rows")[:k]
		c.rows = sortedInts(perm)
		c.o.Indexes = append([]int(nil), c.rows...)
	case 2: // in any order
		k := rapid.IntRange(1, n).Draw(t, "nrows")
		c.rows = append([]int(nil), rapid.Permutation(allRows(n)).Draw(t, "rows")[:k]...)
		c.o.Indexes = append([]int(nil), c.rows...)
	}
	switch rapid.IntRange(0, 3).Draw(t, "colsmode") {
	case 1:
		c.o.AllowedColumns = []int{}
	case 2, 3:
		k := rapid.IntRange(1, cols).Draw(t, "ncols")
		c.o.AllowedColumns = append([]int(nil), rapid.Permutation(allRows(cols)).Draw(t, "allowed")[:k]...)
	}
	c.o.Debug = seldom(t, 5, "debug")                                                      // only logs
	c.o.ColSampleByNode = rapid.SampledFrom([]float64{1, 1, 1, 0, 0.5}).Draw(t, "by node") // documented as not used
	c.s = &spec{X: copyMatrix(c.X), cols: append([]int(nil), c.o.AllowedColumns...), xgb: xgb,
		g: append([]float64(nil), c.o.Gradients...), h: append([]float64(nil), c.o.Hessian...), y: append([]float64(nil), c.o.Y...),
		lambda: c.o.Lambda, gamma: c.o.Gamma, mcw: c.o.MinChildWeight, depth: c.o.MaxDepth}
	usedTree(t, c)
	return c
}

func treeClasses(c *treeCase, n *node) {
	classIf(c.o.XGB, "xgb")
	classIf(!c.o.XGB, "plain")
	classIf(len(c.o.AllowedColumns) > 0 && len(c.o.AllowedColumns) < len(c.X[0]), "some columns allowed")
	classIf(len(c.rows) < len(c.X), "subset of the rows")
	classIf(n.depth() >= 2, "depth 2 or more")
	classIf(n.depth() == c.o.MaxDepth && c.o.MaxDepth > 0, "depth limit reached")
	classIf(len(c.rows) > 20, "more than 20 rows")
	ties := false
	for j := range c.X[0] {
		seen := map[float64]bool{}
		for _, i := range c.rows {
			ties = ties || seen[c.X[i][j]]
			seen[c.X[i][j]] = true
		}
	}
	classIf(ties, "tied values")
}

// Every split of every generated tree is compared with a brute-force search.
func TestC01_exactGreedySplits(t *testing.T) {
	check(t, 80000, func(t *rapid.T) {
		c := genTreeCase(t, 14, 70)
		noteCase("%v", c)
		n := observe(boo.NewTree(c.X, c.o))
		treeClasses(c, n)
		if !n.leaf {
			nontrivial("%v", c)
		}
		c.s.splits = true
		if err := c.s.verify(n, c.rows); err != nil {
			t.Fatalf("%v\n%v", err, c)
		}
	})
}

// Data in which one cut is better than any other by a wide margin, hidden
// between columns of noise: the root has to find it exactly.
func TestC01_plantedSplit(t *testing.T) {
	check(t, 8000, func(t *rapid.T) {
		n := rapid.IntRange(4, 40).Draw(t, "n")
		cols := rapid.IntRange(1, 8).Draw(t, "cols")
		X := genMatrix(t, n, cols, tameKinds)
		target := rapid.IntRange(0, cols-1).Draw(t, "target")
		cut := rapid.IntRange(1, n-1).Draw(t, "cut")
		perm := rapid.Permutation(allRows(n)).Draw(t, "perm")
		scaleE := rapid.IntRange(-30, 30).Draw(t, "scale")
		gap := rapid.IntRange(1, 50).Draw(t, "gap")
		y := make([]float64, n)
		at := func(rank int) float64 {
			v := rank
			if rank >= cut {
				v += gap
			}
			return math.Ldexp(float64(v), scaleE)
		}
		for rank, row := range perm {
			X[row][target] = at(rank)
			y[row] = -1
			if rank >= cut {
				y[row] = 1
			}
		}
		xgb := rapid.Bool().Draw(t, "xgb")
		var o *boo.TreeOptions
		if xgb {
			o = boo.DefaultXTreeOptions()
			o.Gamma, o.Lambda = 0, 0
			o.Gradients = y
			o.Hessian = make([]float64, n)
			for i := range o.Hessian {
				o.Hessian[i] = 1
			}
		} else {
			o = boo.DefaultGTreeOptions()
			o.Y = y
		}
		o.MaxDepth = 1
		noteCase("xgb=%v X=%v y=%v", xgb, X, y)
		tr := observe(boo.NewTree(X, o))
		nontrivial("planted xgb=%v X=%v y=%v", xgb, X, y)
		// another column may separate the targets just as well
		want := 0.5 * float64(n)
		want -= 0.5 * math.Pow(float64(n-2*cut), 2) / float64(n)
		if !xgb {
			want *= -2
		}
		if tr.leaf || math.Abs(tr.score-want) > 1e-9*float64(n) {
			t.Fatalf("the perfect split has objective %v, found %+v", want, tr)
		}
		for i := range X {
			left := X[i][tr.feature] <= tr.threshold
			if left != (y[i] < 0) && left != (y[i] > 0) || math.Abs(tr.eval(X[i])) != 1 {
				t.Fatalf("row %d of the perfect split on the wrong side: %+v", i, tr)
			}
		}
		if tr.feature == target {
			mid := at(cut-1)/2 + at(cut)/2
			if tr.threshold != mid {
				t.Fatalf("cut at %v, the midpoint is %v", tr.threshold, mid)
			}
		}
	})
}
