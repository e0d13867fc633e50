package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// transformed data and the same change for query vectors
type symmetry struct {
	name  string
	D     *utils.DataBunch
	query func([]float64) []float64
	label func(int) int
}

func identity(q []float64) []float64 { return append([]float64(nil), q...) }

func genSymmetry(t *rapid.T, D *utils.DataBunch) *symmetry {
	s := &symmetry{D: copyBunch(D), query: identity, label: func(l int) int { return l }}
	// scaling by a power of two is exact only away from the subnormals
	safe := true
	for _, r := range D.Data {
		for _, v := range r {
			if v != 0 && (math.Abs(v) < 1e-200 || math.Abs(v) > 1e200) {
				safe = false
			}
		}
	}
	names := []string{"repeat", "verbose", "relabel", "relabel", "constant", "duplicate"}
	if safe {
		names = append(names, "scale", "scale")
	}
	s.name = rapid.SampledFrom(names).Draw(t, "symmetry")
	switch s.name {
	case "relabel":
		d := distinct(D.Labels)
		to := genLabelNames(t, len(d))
		m := map[int]int{}
		for i, l := range d {
			m[l] = to[i]
		}
		s.label = func(l int) int { return m[l] }
		for i, l := range D.Labels {
			s.D.Labels[i] = m[l]
		}
	case "scale":
		f := make([]float64, len(D.Data[0]))
		for j := range f {
			f[j] = math.Ldexp(1, rapid.IntRange(-40, 40).Draw(t, "exp"))
		}
		s.query = func(q []float64) []float64 {
			r := identity(q)
			for j := range r {
				r[j] *= f[j]
			}
			return r
		}
	case "constant":
		c := rapid.SampledFrom([]float64{0, 1, -3.5, 1e300}).Draw(t, "c")
		n := rapid.IntRange(1, 3).Draw(t, "extra")
		s.query = func(q []float64) []float64 {
			r := identity(q)
			for k := 0; k < n; k++ {
				r = append(r, c)
			}
			return r
		}
	case "duplicate":
		j := rapid.IntRange(0, len(D.Data[0])-1).Draw(t, "j")
		// beside the original: the order of the other columns among
		// themselves, which may settle ties between splits, stays as it is
		s.query = func(q []float64) []float64 {
			r := append(identity(q[:j+1]), q[j])
			return append(r, q[j+1:]...)
		}
	}
	for i, r := range D.Data {
		s.D.Data[i] = s.query(r)
	}
	if len(D.Keys) > 0 {
		for len(s.D.Keys) < len(s.D.Data[0]) {
			s.D.Keys = append(s.D.Keys, fmt.Sprintf("extra%d", len(s.D.Keys)))
		}
	}
	return s
}

func TestC21_symmetries(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		ds := genData(t, 3, 20, 50, 4, 4, colKinds)
		o := genOptions(t, optSpec{maxRounds: 6, earlyStop: true, noSub: true})
		noteCase("%s %s", optString(o), dataString(ds.D))
		seedLibrary(t)
		a := boo.NewMultiClass(ds.D, cloneOpts(o))
		s := genSymmetry(t, ds.D)
		seedLibrary(t)
		o2 := cloneOpts(o)
		if s.name == "verbose" {
			o2.Verbose = !o2.Verbose
		}
		b := boo.NewMultiClass(s.D, o2)
		desc := func() string {
			return fmt.Sprintf("%s: %s\n%s\n%s", s.name, optString(o), dataString(ds.D), dataString(s.D))
		}
		la, lb := a.ClassLabels(), b.ClassLabels()
		if len(la) != len(lb) {
			t.Fatalf("labels %v and %v\n%s", la, lb, desc())
		}
		for i := range la {
			if s.label(la[i]) != lb[i] {
				t.Fatalf("labels %v and %v\n%s", la, lb, desc())
			}
		}
		Q := copyMatrix(ds.D.Data)
		for i := rapid.IntRange(0, 6).Draw(t, "queries"); i > 0; i-- {
			Q = append(Q, genQuery(t, ds.D.Data))
		}
		for _, q := range Q {
			if s.name == "scale" { // the queries have to scale exactly, too
				skip := false
				for _, v := range q {
					skip = skip || v != 0 && (math.Abs(v) < 1e-200 || math.Abs(v) > 1e200) && !math.IsInf(v, 0)
				}
				if skip {
					continue
				}
			}
			pa, pb := a.PredictSingle(q), b.PredictSingle(s.query(q))
			if !near(pa, pb, 1e-9) {
				t.Fatalf("vector %v: probabilities %v and %v\n%s", q, pa, pb, desc())
			}
		}
		if aa, ab := a.Accuracy(ds.D), b.Accuracy(s.D); math.Abs(aa-ab) > 1e-9 {
			t.Fatalf("accuracies %v and %v\n%s", aa, ab, desc())
		}
		class(s.name)
		if ds.k > 1 && a.Rounds() > 0 {
			nontrivial("%s %s %s", s.name, optString(o), dataString(ds.D))
		}
	})
}

// Classes well separated along one column, with columns of noise around it.
func TestC21_separable(t *testing.T) {
	check(t, 1500, func(t *rapid.T) {
		k := rapid.IntRange(2, 4).Draw(t, "classes")
		cols := rapid.IntRange(1, 4).Draw(t, "cols")
		sep := rapid.IntRange(0, cols-1).Draw(t, "sep")
		defaults := rapid.IntRange(0, 3).Draw(t, "defaults") == 0
		names := genLabelNames(t, k)
		off := rapid.SampledFrom([]float64{0, -15, 1000, 0.3}).Draw(t, "offset")
		unit := rapid.SampledFrom([]float64{1, 0.01, 50}).Draw(t, "unit")
		var rows [][]float64
		var labels []int
		for c := 0; c < k; c++ {
			for n := rapid.IntRange(15, 25).Draw(t, "n"); n > 0; n-- {
				r := make([]float64, cols)
				for j := range r {
					r[j] = rapid.Float64Range(-10, 10).Draw(t, "noise")
					if defaults { // they subsample the columns
						r[j] = 20*float64(c) + r[j]/2
					}
				}
				r[sep] = off + unit*(10*float64(c)+rapid.Float64Range(0, 3).Draw(t, "x"))
				rows = append(rows, r)
				labels = append(labels, names[c])
			}
		}
		D := &utils.DataBunch{Data: rows, Labels: labels}
		if rapid.Bool().Draw(t, "shuffled") {
			p := rapid.Permutation(allRows(len(rows))).Draw(t, "perm")
			E := &utils.DataBunch{}
			for _, i := range p {
				E.Data, E.Labels = append(E.Data, rows[i]), append(E.Labels, labels[i])
			}
			D = E
		}
		var o *boo.Options
		if rapid.Bool().Draw(t, "xgb") {
			o = boo.DefaultXOptions()
			o.ColSubSample = 1
			o.SubSample = rapid.SampledFrom([]float64{0.8, 1, 0.7, 0.9}).Draw(t, "ss")
			o.Gamma = rapid.SampledFrom([]float64{0.2, 0}).Draw(t, "gamma")
			o.MinSample = rapid.IntRange(1, 5).Draw(t, "minsample")
		} else {
			o = boo.DefaultGOptions()
		}
		if rapid.Bool().Draw(t, "otherloss") {
			o.Loss = &utils.SQErrLoss{}
		}
		o.MaxDepth = rapid.IntRange(4, 6).Draw(t, "depth")
		o.MinChildWeight = float64(rapid.IntRange(1, 3).Draw(t, "mcw"))
		o.Rounds = rapid.IntRange(10, 25).Draw(t, "rounds")
		if defaults {
			switch rapid.IntRange(0, 2).Draw(t, "which defaults") {
			case 0:
				o = boo.DefaultXOptions()
			case 1:
				o = boo.DefaultGOptions()
			default:
				o = boo.DefaultOptions()
			}
		}
		noteCase("%s %s", optString(o), dataString(D))
		seedLibrary(t)
		m := boo.NewMultiClass(D, o)
		if acc := m.Accuracy(D); math.Abs(acc-100) > 1e-9 {
			t.Fatalf("accuracy %v on separable classes (column %d)\n%s\n%s", acc, sep, optString(o), dataString(D))
		}
		classIf(defaults, "separable, default settings")
		classIf(o.XGB, "separable, xgb")
		classIf(!o.XGB, "separable, plain")
		classIf(o.SubSample < 1 && o.XGB, "separable, subsampled rows")
		nontrivial("%s %s", optString(o), dataString(D))
	})
}
