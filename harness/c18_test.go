package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

var trash = []float64{0, 1, -1, 1e300, -5, 0.25, math.Inf(1), math.Inf(-1), math.NaN()}

// dense copies rows into a matrix: its own, or a part of a larger one.
type dense struct {
	M     *mat.Dense
	whole *mat.Dense
	r0, c0,
	r, c int
	keep *mat.Dense
}

func genDense(t *rapid.T, r, c int, g *rapid.Generator[float64]) *dense {
	d := &dense{r: r, c: c}
	if rapid.IntRange(0, 3).Draw(t, "part") == 3 {
		d.r0, d.c0 = rapid.IntRange(0, 2).Draw(t, "r0"), rapid.IntRange(0, 2).Draw(t, "c0")
		d.whole = mat.NewDense(d.r0+r+rapid.IntRange(0, 2).Draw(t, "r1"), d.c0+c+rapid.IntRange(0, 2).Draw(t, "c1"), nil)
		R, C := d.whole.Dims()
		for i := 0; i < R; i++ {
			for j := 0; j < C; j++ {
				d.whole.Set(i, j, 7.5+float64(i*C+j))
			}
		}
		d.M = d.whole.Slice(d.r0, d.r0+r, d.c0, d.c0+c).(*mat.Dense)
		class("part of a larger matrix")
	} else {
		d.M = mat.NewDense(r, c, nil)
		d.whole = d.M
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.M.Set(i, j, g.Draw(t, "x"))
		}
	}
	d.save()
	return d
}

func (d *dense) save() { d.keep = mat.DenseCopyOf(d.whole) }

func bits(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// untouched says that nothing at all changed in the matrix or around it;
// aroundOnly looks just at what lies around it.
func (d *dense) untouched(aroundOnly bool) bool {
	R, C := d.whole.Dims()
	for i := 0; i < R; i++ {
		for j := 0; j < C; j++ {
			in := i >= d.r0 && i < d.r0+d.r && j >= d.c0 && j < d.c0+d.c
			if in && aroundOnly {
				continue
			}
			if !bits(d.whole.At(i, j), d.keep.At(i, j)) {
				return false
			}
		}
	}
	return true
}

func (d *dense) String() string { return fmt.Sprintf("%v", matRows(d.M)) }

func matRows(m *mat.Dense) [][]float64 {
	r, c := m.Dims()
	out := make([][]float64, r)
	for i := range out {
		out[i] = make([]float64, c)
		for j := range out[i] {
			out[i][j] = m.At(i, j)
		}
	}
	return out
}

// genDest is nil or a matrix full of old values.
func genDest(t *rapid.T, r, c int) *dense {
	if rapid.IntRange(0, 2).Draw(t, "dest") == 0 {
		class("fresh destination")
		return nil
	}
	class("reused destination")
	return genDense(t, r, c, rapid.SampledFrom(trash))
}

func (d *dense) mat() *mat.Dense {
	if d == nil {
		return nil
	}
	return d.M
}

// result checks that the returned matrix is the destination, where one was
// given, has the right shape, and nothing around it was written.
func (d *dense) result(t *rapid.T, what string, got *mat.Dense, r, c int) {
	if got == nil {
		t.Fatalf("%s returns nil", what)
	}
	if gr, gc := got.Dims(); gr != r || gc != c {
		t.Fatalf("%s: the result is %dx%d, not %dx%d", what, gr, gc, r, c)
	}
	if d == nil {
		return
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if !bits(got.At(i, j), d.M.At(i, j)) {
				t.Fatalf("%s: the given matrix is not filled with the result", what)
			}
		}
	}
	if !d.untouched(true) {
		t.Fatalf("%s: written outside the given matrix", what)
	}
}

var wildFloats = rapid.OneOf(
	rapid.Float64Range(-5, 5),
	rapid.Float64Range(-1000, 1000),
	rapid.SampledFrom([]float64{0, 1, -1, 709, 710, 745, -745, -746, 800, -800, 1e4, -1e4, 1e6, 1e15, 1e16, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 5e-324, 0.1}))

var mildFloats = rapid.OneOf(rapid.Float64Range(-5, 5), rapid.Map(rapid.IntRange(-4, 4), func(i int) float64 { return float64(i) / 2 }))

// softmax row by row, and how far rounding may be off
func softmaxRow(got, in []float64) error {
	if len(got) != len(in) {
		return fmt.Errorf("%d probabilities for %d inputs", len(got), len(in))
	}
	want := refSoftmax(in)
	m := 0.0
	for _, v := range in {
		m = math.Max(m, math.Abs(v))
	}
	rel := 1e-9 + 1e-15*math.Min(m, 1e15)
	sum := 0.0
	for i, g := range got {
		if !finite(g) || g < 0 || g > 1+1e-12 {
			return fmt.Errorf("probability %v", g)
		}
		if math.Abs(g-want[i]) > rel*want[i]+1e-300 {
			return fmt.Errorf("probability %d is %v, should be %v", i, g, want[i])
		}
		sum += g
	}
	if len(in) > 0 && math.Abs(sum-1) > 1e-9 {
		return fmt.Errorf("the probabilities add up to %v", sum)
	}
	return nil
}

func normalRow(got, in []float64) error {
	if len(got) != len(in) {
		return fmt.Errorf("%d values for %d inputs", len(got), len(in))
	}
	sum, abs := 0.0, 0.0
	for _, v := range in {
		sum += v
		abs += math.Abs(v)
	}
	for i, g := range got {
		want := in[i] / sum
		if !(math.Abs(g-want) <= 1e-9*math.Abs(want)*(1+abs/math.Abs(sum))) {
			return fmt.Errorf("value %d is %v, should be %v", i, g, want)
		}
	}
	return nil
}

func genVector(t *rapid.T, n int, g *rapid.Generator[float64]) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = g.Draw(t, "v")
	}
	return v
}

// away makes sure that the sum is not close to 0, where dividing by it is
// not well defined.
func away(v []float64) {
	if len(v) == 0 {
		return
	}
	sum, abs := 0.0, 0.0
	for _, x := range v {
		sum += x
		abs += math.Abs(x)
	}
	if math.Abs(sum) < 1e-6*abs || abs == 0 {
		v[0] += 1 + abs
	}
}

func genSpan(t *rapid.T, n int) []float64 {
	if rapid.IntRange(0, 3).Draw(t, "span") > 0 {
		return genVector(t, n, wildFloats)
	}
	// large, close together
	base := rapid.SampledFrom([]float64{700, 1e3, 1e6, -1e6, 1e12, -745, 1e-3}).Draw(t, "base")
	v := genVector(t, n, mildFloats)
	for i := range v {
		v[i] += base
	}
	return v
}

func TestC18_softmaxVector(t *testing.T) {
	check(t, 40000, func(t *rapid.T) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		if seldom(t, 6, "many") {
			n = rapid.IntRange(9, 70).Draw(t, "n")
		}
		in := genSpan(t, n)
		norm := rapid.Bool().Draw(t, "norm")
		f, verify := utils.SoftMax, softmaxRow
		if norm {
			f, verify = utils.Normalization, normalRow
			in = genVector(t, len(in), rapid.OneOf(mildFloats, rapid.Float64Range(0, 1e6), rapid.Float64Range(0, 1)))
			away(in)
		}
		keep := append([]float64(nil), in...)
		noteCase("%v", in)
		var dest []float64
		if rapid.Bool().Draw(t, "reuse") {
			dest = genVector(t, len(in), rapid.SampledFrom(trash))
		}
		if len(in) > 0 && seldom(t, 3, "longer") { // the result is in the first elements
			long := genVector(t, len(in)+rapid.IntRange(1, 4).Draw(t, "more"), rapid.SampledFrom(trash))
			got := f(in, long)
			if len(got) < len(in) || verify(got[:len(in)], keep) != nil || !sameBits(got[:len(in)], long[:len(in)]) {
				t.Fatalf("%v into a longer slice, which has %v (input %v, normalization %v)", got, long, keep, norm)
			}
			class("longer destination")
		}
		got := f(in, dest)
		if err := verify(got, keep); err != nil {
			t.Fatalf("%v for %v: %v (normalization %v)", got, keep, err, norm)
		}
		if len(dest) > 0 && !sameBits(got, dest) {
			t.Fatalf("the given slice has %v, %v is returned", dest, got)
		}
		if !sameBits(in, keep) {
			t.Fatalf("the input %v became %v", keep, in)
		}
		fresh := f(in, nil)
		if !sameBits(fresh, got) {
			t.Fatalf("%v into a new slice, %v into a used one", fresh, got)
		}
		if len(in) > 1 {
			nontrivial("%v %v", norm, in)
		}
		classIf(norm, "normalization")
		classIf(!norm, "softmax")
		big := false
		for _, v := range in {
			big = big || math.Abs(v) > 709
		}
		classIf(big, "inputs whose exponential overflows")
	})
}

func TestC18_activationMatrices(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 5).Draw(t, "r"), rapid.IntRange(1, 6).Draw(t, "c")
		norm := rapid.Bool().Draw(t, "norm")
		g := wildFloats
		f, verify := utils.SoftMaxDense, softmaxRow
		if norm {
			g, f, verify = mildFloats, utils.NormalizationDense, normalRow
		}
		in := genDense(t, r, c, g)
		if norm {
			for i := 0; i < r; i++ {
				row := matRows(in.M)[i]
				away(row)
				in.M.SetRow(i, row)
			}
			in.save()
		}
		dest := genDest(t, r, c)
		noteCase("%v %v", norm, in)
		rows := matRows(in.M)
		got := f(in.M, dest.mat())
		dest.result(t, "activation", got, r, c)
		if !in.untouched(false) {
			t.Fatalf("the input changed")
		}
		for i, row := range matRows(got) {
			if err := verify(row, rows[i]); err != nil {
				t.Fatalf("row %d of %v: %v", i, rows, err)
			}
		}
		nontrivial("%v %v", norm, in)
	})
}

func TestC18_losses(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 8).Draw(t, "r"), rapid.IntRange(1, 5).Draw(t, "c")
		var L utils.LossFunc = &utils.SQErrLoss{}
		mse := rapid.Bool().Draw(t, "mse")
		if mse {
			L = &utils.MSELoss{}
		}
		g := rapid.OneOf(rapid.Float64Range(0, 1), rapid.Float64Range(0, 1), mildFloats, rapid.SampledFrom([]float64{0, 1, 1e-300, 1e100, 1 - 1e-16, 0.5}))
		y, p := genDense(t, r, c, g), genDense(t, r, c, g)
		noteCase("%v %v %v", L.Name(), y, p)
		Y, P := matRows(y.M), matRows(p.M)
		where := fmt.Sprintf("%s y=%v p=%v", L.Name(), Y, P)
		unchanged := func(what string) {
			if !y.untouched(false) || !p.untouched(false) {
				t.Fatalf("%s changed its input: %s", what, where)
			}
		}
		want := 0.0
		for i := range Y {
			for j := range Y[i] {
				want += (Y[i][j] - P[i][j]) * (Y[i][j] - P[i][j])
			}
		}
		want /= float64(r * c)
		for _, d := range []*dense{nil, genDest(t, r, c)} {
			got := L.Loss(y.M, p.M, d.mat())
			if !(math.Abs(got-want) <= 1e-12*want) {
				t.Fatalf("loss %v, should be %v: %s", got, want, where)
			}
			if d != nil && !d.untouched(true) {
				t.Fatalf("the loss writes outside its scratch matrix")
			}
		}
		unchanged("the loss")
		d := genDest(t, r, c)
		ng := L.NegGradients(y.M, p.M, d.mat())
		d.result(t, "negative gradients", ng, r, c)
		NG := matRows(ng)
		d = genDest(t, r, c)
		gr := L.Gradients(y.M, p.M, d.mat())
		d.result(t, "gradients", gr, r, c)
		d = genDest(t, r, c)
		h := L.Hessian(p.M, d.mat())
		d.result(t, "hessian", h, r, c)
		unchanged("a derivative")
		for i := range Y {
			for j := range Y[i] {
				if gr.At(i, j) != P[i][j]-Y[i][j] {
					t.Fatalf("gradient %d,%d is %v: %s", i, j, gr.At(i, j), where)
				}
				if NG[i][j] != Y[i][j]-P[i][j] {
					t.Fatalf("negative gradient %d,%d is %v: %s", i, j, NG[i][j], where)
				}
				wh, tol := 1.0, 0.0
				if mse {
					v := P[i][j]
					wh, tol = v*(1-v), 1e-15*(math.Abs(v)+v*v)
				}
				if !(math.Abs(h.At(i, j)-wh) <= tol) {
					t.Fatalf("hessian %d,%d is %v, should be %v: %s", i, j, h.At(i, j), wh, where)
				}
			}
		}
		classIf(mse, "mse")
		classIf(!mse, "sqerr")
		nontrivial("%s", where)
	})
}

func TestC18_oneHot(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		n := rapid.IntRange(1, 20).Draw(t, "n")
		k := rapid.IntRange(1, 8).Draw(t, "k")
		if seldom(t, 4, "many") {
			n, k = rapid.IntRange(20, 150).Draw(t, "n"), rapid.IntRange(9, 60).Draw(t, "k")
		}
		names := genLabelNames(t, k)
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			v := rapid.IntRange(0, k-1).Draw(t, "l")
			D.Labels = append(D.Labels, names[v])
		}
		nk := rapid.IntRange(1, 10).Draw(t, "nk")
		manykeys := seldom(t, 4, "manykeys")
		if manykeys {
			nk = rapid.IntRange(20, 100).Draw(t, "nk")
		}
		for i := 0; i < nk; i++ {
			if manykeys {
				D.Keys = append(D.Keys, fmt.Sprint("k", rapid.IntRange(0, 99).Draw(t, "key")))
				continue
			}
			D.Keys = append(D.Keys, rapid.SampledFrom([]string{"", "a", "A", "ab", "a ", "0", "1"}).Draw(t, "key"))
		}
		keep := copyBunch(D)
		M, labels := D.OHELabels()
		if !equalInts(labels, distinct(D.Labels)) {
			t.Fatalf("columns %v for labels %v", labels, D.Labels)
		}
		if err := oneHot(M, n, len(labels), func(i, j int) bool { return D.Labels[i] == labels[j] }); err != nil {
			t.Fatalf("labels %v: %v", D.Labels, err)
		}
		K, keys := D.OHEKeys()
		var want []string
		seen := map[string]bool{}
		for _, s := range D.Keys {
			if !seen[s] {
				want = append(want, s)
			}
			seen[s] = true
		}
		if !sameStrings(keys, want) {
			t.Fatalf("columns %q for keys %q", keys, D.Keys)
		}
		if err := oneHot(K, nk, len(keys), func(i, j int) bool { return D.Keys[i] == keys[j] }); err != nil {
			t.Fatalf("keys %q: %v", D.Keys, err)
		}
		if !sameBunch(D, keep) {
			t.Fatalf("encoding changed the data")
		}
		// the column lists are the caller's
		labels[0]++
		keys[0] += "x"
		if !sameBunch(D, keep) {
			t.Fatalf("changing the columns returned changed the data")
		}
		if len(labels) > 1 {
			nontrivial("%v %q", D.Labels, D.Keys)
		}
	})
}

func oneHot(M *mat.Dense, r, c int, one func(i, j int) bool) error {
	if gr, gc := M.Dims(); gr != r || gc != c {
		return fmt.Errorf("the encoding is %dx%d, not %dx%d", gr, gc, r, c)
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			want := 0.0
			if one(i, j) {
				want = 1
			}
			if M.At(i, j) != want {
				return fmt.Errorf("element %d,%d is %v, not %v", i, j, M.At(i, j), want)
			}
		}
	}
	return nil
}

func TestC18_probabilities(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 8).Draw(t, "r"), rapid.IntRange(2, 6).Draw(t, "c")
		g := rapid.OneOf(rapid.Float64Range(0, 1), rapid.SampledFrom([]float64{0, 0.25, 0.5, 1, 1e-9}), mildFloats, rapid.Just(math.Inf(-1)))
		p := genDense(t, r, c, g)
		noteCase("%v", p)
		P := matRows(p.M)
		cl := boo.ClassesFromProbs(p.M)
		if gr, gc := cl.Dims(); gr != r || gc != 1 {
			t.Fatalf("classes are %dx%d", gr, gc)
		}
		for i, row := range P {
			mx := 0
			for j, v := range row {
				if v > row[mx] {
					mx = j
				}
			}
			if k := cl.At(i, 0); k != float64(mx) {
				t.Fatalf("class %v for %v", k, row)
			}
		}
		if !p.untouched(false) {
			t.Fatalf("finding the classes changed the probabilities")
		}
		q := genDense(t, r, c, rapid.OneOf(rapid.Float64Range(0.001, 1), rapid.SampledFrom([]float64{0.25, 0.5, 1e-9, 3})))
		if rapid.Bool().Draw(t, "normal") {
			for i, row := range matRows(q.M) {
				s := 0.0
				for _, v := range row {
					s += v
				}
				for j, v := range row {
					q.M.Set(i, j, v/s)
				}
			}
			q.save()
		}
		lo := boo.LogOddsFromProbs(q.M)
		if gr, gc := lo.Dims(); gr != r || gc != c {
			t.Fatalf("log-odds are %dx%d", gr, gc)
		}
		for i, row := range matRows(q.M) {
			sum := 0.0
			for _, v := range row {
				sum += v
			}
			for j, v := range row {
				rest := 0.0
				for l, w := range row {
					if l != j {
						rest += w
					}
				}
				want := math.Log(v / rest)
				// total-p loses digits when p is almost everything
				tol := 1e-9 + 1e-14*sum/rest
				if got := lo.At(i, j); !(math.Abs(got-want) <= tol) {
					t.Fatalf("log-odds %d of %v: %v, should be %v", j, row, got, want)
				}
			}
		}
		if !q.untouched(false) {
			t.Fatalf("the log-odds changed the probabilities")
		}
		nontrivial("%v %v", p, q)
	})
}
