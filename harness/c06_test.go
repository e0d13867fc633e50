package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// ------------------------------------------------------------------ statistics

// binomTail returns P(Bin(n,p) >= k) (upper) or P(Bin(n,p) <= k) (lower).
func binomTail(n int, p float64, k int, upper bool) float64 {
	lg := func(x float64) float64 { v, _ := math.Lgamma(x); return v }
	pm := func(i int) float64 {
		if p <= 0 {
			if i == 0 {
				return 1
			}
			return 0
		}
		if p >= 1 {
			if i == n {
				return 1
			}
			return 0
		}
		return math.Exp(lg(float64(n+1)) - lg(float64(i+1)) - lg(float64(n-i+1)) + float64(i)*math.Log(p) + float64(n-i)*math.Log1p(-p))
	}
	s := 0.0
	if upper {
		for i := max(k, 0); i <= n; i++ {
			s += pm(i)
		}
	} else {
		for i := 0; i <= min(k, n); i++ {
			s += pm(i)
		}
	}
	return s
}

const rare = 1e-13

// plausible says whether k successes of n are compatible with probability p.
func plausible(n int, p float64, k int) bool {
	return binomTail(n, p, k, true) > rare && binomTail(n, p, k, false) > rare
}

// ---------------------------------------------------------------- the function

func TestC06_subSampleFunction(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		n := rapid.IntRange(0, 300).Draw(t, "n")
		f := genPos(0, 1.2, 0, 1, 0.5, 0.8, 1e-3, 0.999, 1.5).Draw(t, "f")
		seedLibrary(t)
		s := boo.SubSample(n, f)
		last := -1
		for _, v := range s {
			if v <= last || v >= n {
				t.Fatalf("SubSample(%d, %v) = %v", n, f, s)
			}
			last = v
		}
		if f >= 1 && len(s) != n {
			t.Fatalf("SubSample(%d, %v) has %d elements", n, f, len(s))
		}
		if n > 1 && f > 0 && f < 1 {
			nontrivial("SubSample(%d,%v)=%v", n, f, s)
			if !plausible(n, f, len(s)) {
				t.Fatalf("SubSample(%d, %v) has %d elements", n, f, len(s))
			}
		}
	})
}

func TestC06_subSampleFrequencies(t *testing.T) {
	check(t, 250, func(t *rapid.T) {
		n := rapid.IntRange(1, 24).Draw(t, "n")
		f := genPos(0.02, 0.98, 0.5, 0.8, 0.9, 0.1).Draw(t, "f")
		seedLibrary(t)
		const reps = 3000
		cnt := make([]int, n)
		pair := make([]int, n) // index i together with the next one
		for r := 0; r < reps; r++ {
			in := make([]bool, n+1)
			for _, v := range boo.SubSample(n, f) {
				cnt[v]++
				in[v] = true
			}
			for i := 0; i < n-1; i++ {
				if in[i] && in[i+1] {
					pair[i]++
				}
			}
		}
		nontrivial("frequencies n=%d f=%v %v", n, f, cnt)
		for i := range cnt {
			if !plausible(reps, f, cnt[i]) {
				t.Fatalf("index %d of %d drawn %d times of %d with fraction %v", i, n, cnt[i], reps, f)
			}
			if i < n-1 && !plausible(reps, f*f, pair[i]) {
				t.Fatalf("indexes %d and %d of %d drawn together %d times of %d with fraction %v", i, i+1, n, pair[i], reps, f)
			}
		}
	})
}

// ------------------------------------------------------------- inside training

// bitLoss gives row i the gradient 2^i and the hessian 1, so that a node's
// value and sample count tell exactly which rows reached it.
type bitLoss struct{ sign []float64 }

func (l *bitLoss) Name() string                      { return "bits" }
func (l *bitLoss) Loss(y, p, tmp *mat.Dense) float64 { return 1 }
func (l *bitLoss) grads(y *mat.Dense, f float64) *mat.Dense {
	r, c := y.Dims()
	out := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			k := i*c + j
			if l.sign != nil {
				out.Set(i, j, f*l.sign[k])
			} else {
				out.Set(i, j, f*math.Ldexp(1, k))
			}
		}
	}
	return out
}
func (l *bitLoss) Gradients(y, p, res *mat.Dense) *mat.Dense    { return l.grads(y, 1) }
func (l *bitLoss) NegGradients(y, p, res *mat.Dense) *mat.Dense { return l.grads(y, -1) }
func (l *bitLoss) Hessian(p, h *mat.Dense) *mat.Dense {
	r, c := p.Dims()
	out := mat.NewDense(r, c, nil)
	utils.ToOnes(out)
	return out
}

// decode recovers the rows of an xgboost node with lambda 0 under bitLoss.
func decode(n *node, total int) ([]int, error) {
	s := math.Round(-n.value * float64(n.nsamples))
	if s < 0 || s >= math.Ldexp(1, total) {
		return nil, fmt.Errorf("value %v with %d samples is no sum of distinct rows", n.value, n.nsamples)
	}
	u := uint64(s)
	var rows []int
	for i := 0; i < total; i++ {
		if u&(1<<uint(i)) != 0 {
			rows = append(rows, i)
		}
	}
	if len(rows) != n.nsamples {
		return nil, fmt.Errorf("the node reports %d samples, its value %v needs rows %v", n.nsamples, n.value, rows)
	}
	return rows, nil
}

func TestC06_rowsOfTrees(t *testing.T) {
	check(t, 4000, func(t *rapid.T) {
		n := rapid.IntRange(2, 40).Draw(t, "n")
		cols := rapid.IntRange(1, 4).Draw(t, "cols")
		k := rapid.IntRange(1, 4).Draw(t, "k")
		if seldom(t, 5, "more") {
			k = rapid.IntRange(5, 20).Draw(t, "k")
		}
		D := &utils.DataBunch{Data: genMatrix(t, n, cols, tameKinds)}
		for i := 0; i < n; i++ {
			D.Labels = append(D.Labels, i%k)
		}
		o := boo.DefaultXOptions()
		o.Loss = &bitLoss{}
		o.EarlyStop = 0
		o.Lambda = 0
		o.Gamma = 0
		o.MinChildWeight = float64(rapid.IntRange(1, 3).Draw(t, "mcw"))
		o.MaxDepth = rapid.IntRange(1, 4).Draw(t, "depth")
		o.SubSample = genPos(0.05, 1, 0.8, 0.5, 0.3, 1).Draw(t, "ss")
		o.ColSubSample = 1
		if rapid.Bool().Draw(t, "colsub") {
			o.ColSubSample = 0.6
		}
		o.Rounds = rapid.IntRange(1, 60).Draw(t, "rounds")
		o.MinSample = rapid.IntRange(1, 6).Draw(t, "minsample")
		if rapid.IntRange(0, 2).Draw(t, "tight") == 0 {
			o.MinSample = max(1, int(math.Round(float64(n)*o.SubSample)))
		}
		_, ref, _ := trainModel(t, D, o)
		desc := func() string { return fmt.Sprintf("n=%d k=%d %s", n, len(distinct(D.Labels)), optString(o)) }
		all := true
		cnt := make([]int, n)
		for r, round := range ref.rounds {
			var rows []int
			for c := range ref.ClassLabels {
				tr := round[c]
				if tr == nil {
					t.Fatalf("round %d has no tree for class %d: %s", r, c, desc())
				}
				got, err := decode(tr, n)
				if err != nil {
					t.Fatalf("round %d class %d: %v: %s", r, c, err, desc())
				}
				if c > 0 && !equalInts(rows, got) {
					t.Fatalf("round %d: rows %v for class 0 and %v for class %d: %s", r, rows, got, c, desc())
				}
				rows = got
				g, h := make([]float64, n), make([]float64, n)
				for i := range g {
					g[i], h[i] = math.Ldexp(1, i), 1
				}
				s := &spec{X: D.Data, xgb: true, g: g, h: h, mcw: o.MinChildWeight, depth: o.MaxDepth, structure: true, values: true, splits: o.ColSubSample == 1}
				if err := s.verify(tr, rows); err != nil {
					t.Fatalf("round %d class %d: %v: %s", r, c, err, desc())
				}
			}
			if len(rows) < o.MinSample {
				t.Fatalf("round %d uses %d rows, the minimum is %d: %s", r, len(rows), o.MinSample, desc())
			}
			if o.SubSample >= 1 && len(rows) != n {
				t.Fatalf("round %d uses %d of %d rows without subsampling: %s", r, len(rows), n, desc())
			}
			all = all && len(rows) == n
			for _, i := range rows {
				cnt[i]++
			}
		}
		pskip := binomTail(n, o.SubSample, o.MinSample-1, false)
		if o.SubSample >= 1 {
			pskip = 0
			if n < o.MinSample {
				pskip = 1
			}
		}
		skipped := o.Rounds - len(ref.rounds)
		if skipped < 0 || !plausible(o.Rounds, pskip, skipped) {
			t.Fatalf("%d of %d rounds skipped, the chance of each is %v: %s", skipped, o.Rounds, pskip, desc())
		}
		if pskip < 1e-6 {
			for i, c := range cnt {
				if !plausible(len(ref.rounds), o.SubSample, c) {
					t.Fatalf("row %d drawn in %d of %d rounds: %s", i, c, len(ref.rounds), desc())
				}
			}
		}
		classIf(skipped > 0, "rounds skipped")
		classIf(skipped == 0, "no round skipped")
		classIf(!all, "proper subsets of the rows")
		if !all {
			nontrivial("%s %s", desc(), dataString(D))
		}
	})
}

// Column j agrees with the sign of the gradient but for j rows, so the best
// root is the lowest drawn column, and inside the children the columns before
// it would be better still.
func TestC06_columnsOfTrees(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		n := rapid.SampledFrom([]int{24, 32, 48}).Draw(t, "n")
		cols := rapid.IntRange(2, 10).Draw(t, "cols")
		if seldom(t, 4, "wide") {
			n, cols = 96, rapid.IntRange(11, 40).Draw(t, "cols")
			classIf(true, "more than 10 columns")
		}
		k := rapid.IntRange(1, 3).Draw(t, "k")
		if seldom(t, 3, "more") {
			k = rapid.IntRange(4, 12).Draw(t, "k")
		}
		perm := rapid.Permutation(allRows(n)).Draw(t, "perm")
		place := rapid.Permutation(allRows(cols)).Draw(t, "place") // rank -> column
		rank := make([]int, cols)
		for r, c := range place {
			rank[c] = r
		}
		sign := make([]float64, n)
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			sign[i] = float64(2*(i%2) - 1)
			D.Data = append(D.Data, make([]float64, cols))
			D.Labels = append(D.Labels, (i/2)%k)
		}
		for r, c := range place {
			for i := range sign {
				D.Data[i][c] = sign[i]
			}
			for _, i := range perm[:r] {
				D.Data[i][c] = -sign[i]
			}
		}
		o := boo.DefaultXOptions()
		o.Loss = &bitLoss{sign: sign}
		o.EarlyStop, o.Lambda, o.Gamma, o.MinChildWeight, o.SubSample = 0, 0.25, 0, 1, 1
		o.MaxDepth = rapid.IntRange(1, 5).Draw(t, "depth")
		o.ColSubSample = genPos(0.05, 1, 0.8, 0.5, 0.3, 1).Draw(t, "css")
		o.Rounds = rapid.IntRange(1, 60).Draw(t, "rounds")
		o.MinSample = 1
		_, ref, _ := trainModel(t, D, o)
		desc := func() string { return fmt.Sprintf("n=%d cols=%d %s ranks=%v", n, cols, optString(o), rank) }
		if len(ref.rounds) != o.Rounds {
			t.Fatalf("%d rounds: %s", len(ref.rounds), desc())
		}
		roots := make([]int, cols)
		deeper := false
		for r, round := range ref.rounds {
			first := -1
			for c := range ref.ClassLabels {
				tr := round[c]
				if tr == nil || tr.leaf {
					t.Fatalf("round %d class %d: no split at the root: %s", r, c, desc())
				}
				if c == 0 {
					first = rank[tr.feature]
					roots[first]++
				}
				if rank[tr.feature] != first {
					t.Fatalf("round %d: best drawn column has rank %d for class 0 and %d for class %d: %s", r, first, rank[tr.feature], c, desc())
				}
				tr.walk(func(x *node) {
					if !x.leaf && rank[x.feature] < first {
						t.Fatalf("round %d class %d: a node below the root splits on a column the root did not have: %s", r, c, desc())
					}
				})
				deeper = deeper || (first > 0 && o.MaxDepth > 1 && !(tr.left.leaf && tr.left.nsamples < 2))
			}
		}
		classIf(deeper, "children could use a better column that was left out")
		if deeper {
			nontrivial("%s", desc())
		}
		// the best column is at the root if it is drawn, or if nothing is
		css := math.Min(1, o.ColSubSample)
		rest := 1.0
		for r, c := range roots {
			p := css * rest
			if r == 0 {
				p += math.Pow(1-css, float64(cols))
			}
			rest *= 1 - css
			if !plausible(o.Rounds, p, c) {
				t.Fatalf("column of rank %d is the best drawn one in %d of %d rounds, expected with probability %v: %s", r, c, o.Rounds, p, desc())
			}
		}
	})
}

// Regular boosting ignores the fractions.
func TestC06_regularNeverSubsamples(t *testing.T) {
	check(t, 4000, func(t *rapid.T) {
		ds := genData(t, 2, 20, 40, 3, 4, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 6, noSub: true})
		o.XGB = false
		if _, mse := o.Loss.(*utils.MSELoss); !mse {
			o.Loss = &utils.MSELoss{}
		}
		_, _, want := trainModel(t, ds.D, o)
		o2 := o.Clone()
		o2.SubSample = genPos(0, 1, 0, 0.5, 0.1).Draw(t, "ss")
		o2.ColSubSample = genPos(0, 1, 0, 0.5, 0.1).Draw(t, "css")
		_, ref, got := trainModel(t, ds.D, o2)
		if got != want {
			t.Fatalf("regular boosting depends on the subsampling fractions: %s %s", optString(o2), dataString(ds.D))
		}
		for r, round := range ref.rounds {
			for c, tr := range round {
				if tr.nsamples != len(ds.D.Data) {
					t.Fatalf("round %d class %d: %d of %d rows", r, c, tr.nsamples, len(ds.D.Data))
				}
			}
		}
		if len(ref.rounds) > 0 {
			nontrivial("%s %s", optString(o2), dataString(ds.D))
		}
	})
}

// Columns and rows given to a single tree.
func TestC06_singleTrees(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		c := genTreeCase(t, 16, 40)
		if len(c.o.AllowedColumns) == 0 {
			c.o.AllowedColumns = []int{rapid.IntRange(0, len(c.X[0])-1).Draw(t, "only")}
			c.s.cols = c.o.AllowedColumns
		}
		noteCase("%v", c)
		n := observe(boo.NewTree(c.X, c.o))
		c.s.structure, c.s.splits = true, true
		if err := c.s.verify(n, c.rows); err != nil {
			t.Fatalf("%v\n%v", err, c)
		}
		if n.depth() > 1 && len(c.o.AllowedColumns) < len(c.X[0]) {
			nontrivial("%v", c)
		}
	})
}
