package boocheck

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

func genFloats(t *rapid.T, n int) []float64 {
	v := make([]float64, n)
	kind := rapid.IntRange(0, 4).Draw(t, "floats")
	for i := range v {
		switch kind {
		case 0:
			v[i] = float64(rapid.IntRange(-3, 3).Draw(t, "x"))
		case 1:
			v[i] = rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), 1, -1, 5e-324, math.MaxFloat64}).Draw(t, "x")
		case 2:
			v[i] = float64(i) // ordered already
		case 3:
			v[i] = float64(-i / 2)
		default:
			v[i] = rapid.Float64Range(-100, 100).Draw(t, "x")
		}
	}
	return v
}

// genIndexes draws indexes (repetitions allowed), sometimes one that does not
// exist; bad says so.
func genIndexes(t *rapid.T, n, maxLen int) (idx []int, bad bool) {
	k := rapid.IntRange(0, maxLen).Draw(t, "k")
	for i := 0; i < k; i++ {
		idx = append(idx, rapid.IntRange(0, n-1).Draw(t, "i"))
	}
	if k > 0 && rapid.IntRange(0, 4).Draw(t, "bad") == 4 {
		idx[rapid.IntRange(0, k-1).Draw(t, "where")] = rapid.SampledFrom([]int{n, n + 1, -1, -n, n + 100}).Draw(t, "outside")
		return idx, true
	}
	return idx, false
}

func TestC19_sample(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		n := rapid.IntRange(1, 12).Draw(t, "n")
		s := genFloats(t, n)
		// room behind the slice: an index just outside must not read it
		full := append(append(make([]float64, 0, n+8), s...), 777, 778, 779)
		s = full[:n]
		keep := append([]float64(nil), full...)
		idx, bad := genIndexes(t, n, n)
		kidx := append([]int(nil), idx...)
		noteCase("%v %v", s, idx)
		var got []float64
		p := mustPanic(func() { got = utils.SampleSlice(s, idx) })
		if bad != p {
			t.Fatalf("indexes %v of %d elements: panic %v (result %v)", idx, n, p, got)
		}
		if !sameBits(full, keep) || !equalInts(idx, kidx) {
			t.Fatalf("sampling changed its input")
		}
		if !bad {
			if len(got) != len(idx) {
				t.Fatalf("%d elements for %d indexes", len(got), len(idx))
			}
			for i, v := range idx {
				if !bits(got[i], s[v]) {
					t.Fatalf("indexes %v of %v give %v", idx, s, got)
				}
			}
			for i := range got { // the result is the caller's
				got[i] = -1234
			}
			if !sameBits(full, keep) {
				t.Fatalf("the result shares memory with the input")
			}
		}
		classIf(bad, "index outside")
		if len(idx) > 1 {
			nontrivial("%v %v", s, idx)
		}
	})
}

func TestC19_sampleMatrix(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 7).Draw(t, "r"), rapid.IntRange(1, 6).Draw(t, "c")
		m := make([][]float64, r)
		for i := range m {
			m[i] = genFloats(t, c)
		}
		keep := copyMatrix(m)
		ri, rbad := genIndexes(t, r, 2*r)
		ci, cbad := genIndexes(t, c, c)
		if cbad && len(ri) == 0 {
			t.Skip("no row is looked at")
		}
		kr, kc := append([]int(nil), ri...), append([]int(nil), ci...)
		noteCase("%v %v %v", m, ri, ci)
		var got [][]float64
		p := mustPanic(func() { got = utils.SampleMatrix(m, ri, ci) })
		if p != (rbad || cbad) {
			t.Fatalf("rows %v and columns %v of a %dx%d matrix: panic %v (result %v)", ri, ci, r, c, p, got)
		}
		if !sameMatrix(m, keep) || !equalInts(ri, kr) || !equalInts(ci, kc) {
			t.Fatalf("sampling changed its input")
		}
		if p {
			class("index outside")
			return
		}
		if len(got) != len(ri) {
			t.Fatalf("%d rows for %d indexes", len(got), len(ri))
		}
		for i := range got {
			if len(got[i]) != len(ci) {
				t.Fatalf("%d columns for %d indexes", len(got[i]), len(ci))
			}
			for j := range got[i] {
				if !bits(got[i][j], m[ri[i]][ci[j]]) {
					t.Fatalf("rows %v and columns %v of %v give %v", ri, ci, m, got)
				}
			}
		}
		for i := range got {
			for j := range got[i] {
				got[i][j] = -1234
			}
			if i > 0 && len(ci) > 0 {
				got[0][0] = 5
				if got[i][0] == 5 {
					t.Fatalf("rows of the result share memory")
				}
			}
		}
		if !sameMatrix(m, keep) {
			t.Fatalf("the result shares memory with the input")
		}
		if len(ri) > 0 && len(ci) > 0 {
			nontrivial("%v %v %v", m, ri, ci)
		}
	})
}

func argsorted(in []float64, idx []int, vals []float64) error {
	if len(idx) != len(in) || len(vals) != len(in) {
		return fmt.Errorf("%d indexes and %d values for %d elements", len(idx), len(vals), len(in))
	}
	seen := make([]bool, len(in))
	for i, k := range idx {
		if k < 0 || k >= len(in) || seen[k] {
			return fmt.Errorf("%v is not a permutation", idx)
		}
		seen[k] = true
		if !bits(vals[i], in[k]) {
			return fmt.Errorf("place %d has the value %v and the index of %v", i, vals[i], in[k])
		}
		if i > 0 && vals[i] < vals[i-1] {
			return fmt.Errorf("%v is not sorted", vals)
		}
	}
	return nil
}

func TestC19_argsort(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		n := genRows(t, 0, 14, 200)
		in := genFloats(t, n)
		keep := append([]float64(nil), in...)
		noteCase("%v", in)
		idx, vals := utils.ArgSort(in)
		if err := argsorted(keep, idx, vals); err != nil {
			t.Fatalf("ArgSort of %v: %v", in, err)
		}
		if !sameBits(in, keep) {
			t.Fatalf("ArgSort changed its input")
		}
		ti, tv := make([]int, n), make([]float64, n)
		for i := range ti {
			ti[i] = rapid.SampledFrom([]int{0, 0, -1, 1, n, 1 << 40}).Draw(t, "oldi")
			tv[i] = rapid.SampledFrom(trash).Draw(t, "oldv")
		}
		for rep := 0; rep < 2; rep++ {
			i2, v2 := utils.MemArgSort(in, ti, tv)
			if err := argsorted(keep, i2, v2); err != nil {
				t.Fatalf("MemArgSort of %v: %v", in, err)
			}
			if !sameBits(in, keep) {
				t.Fatalf("MemArgSort changed its input")
			}
		}
		s := utils.NewSlice(append([]float64(nil), in...))
		sort.Sort(s)
		if err := argsorted(keep, s.Idx, s.Float64Slice); err != nil {
			t.Fatalf("Slice of %v: %v", in, err)
		}
		classIf(n > 14, "over 14 elements")
		if n > 1 {
			nontrivial("%v", in)
		}
	})
}

func TestC19_transpose(t *testing.T) {
	check(t, 8000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 7).Draw(t, "r"), rapid.IntRange(0, 6).Draw(t, "c")
		m := make([][]float64, r)
		for i := range m {
			m[i] = genFloats(t, c)
		}
		keep := copyMatrix(m)
		got := utils.TransposeFloats(m)
		if len(got) != c {
			t.Fatalf("%d rows out of %d columns", len(got), c)
		}
		for j := range got {
			if len(got[j]) != r {
				t.Fatalf("%d columns out of %d rows", len(got[j]), r)
			}
			for i := range got[j] {
				if !bits(got[j][i], m[i][j]) {
					t.Fatalf("%v becomes %v", m, got)
				}
			}
		}
		for j := range got {
			for i := range got[j] {
				got[j][i] = -99
			}
		}
		if !sameMatrix(m, keep) {
			t.Fatalf("transposing changed its input")
		}
		nontrivial("%v", m)
	})
}

func genColumnNumber(t *rapid.T, c int) (col int, bad bool) {
	if rapid.IntRange(0, 4).Draw(t, "badcol") == 4 {
		return rapid.SampledFrom([]int{c, c + 1, -1, c + 5}).Draw(t, "col"), true
	}
	return rapid.IntRange(0, c-1).Draw(t, "col"), false
}

func TestC19_columns(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		r, c := rapid.IntRange(1, 7).Draw(t, "r"), rapid.IntRange(1, 6).Draw(t, "c")
		d := genDense(t, r, c, mildFloats)
		rows := matRows(d.M)
		col, bad := genColumnNumber(t, c)
		noteCase("%v %d", d, col)
		var got *mat.Dense
		if p := mustPanic(func() { got = utils.DenseCol(d.M, col) }); p != bad {
			t.Fatalf("column %d of %d: panic %v", col, c, p)
		}
		if !d.untouched(false) {
			t.Fatalf("taking a column changed the matrix")
		}
		if !bad {
			if gr, gc := got.Dims(); gr != 1 || gc != r {
				t.Fatalf("a column of %d elements is %dx%d", r, gr, gc)
			}
			for i := 0; i < r; i++ {
				if !bits(got.At(0, i), rows[i][col]) {
					t.Fatalf("column %d of %v is %v", col, rows, matRows(got))
				}
			}
			for i := 0; i < r; i++ {
				got.Set(0, i, 4321)
			}
			if !d.untouched(false) {
				t.Fatalf("the column shares memory with the matrix")
			}
		}
		// adding
		col, bad = genColumnNumber(t, c)
		n := r
		if rapid.IntRange(0, 5).Draw(t, "badlen") == 5 {
			n = max(0, r+rapid.SampledFrom([]int{-1, 1, 2}).Draw(t, "off"))
		}
		s := genVector(t, n, mildFloats)
		ks := append([]float64(nil), s...)
		p := mustPanic(func() { utils.AddToCol(d.M, s, col) })
		if p != (bad || n != r) {
			t.Fatalf("adding %d numbers to column %d of a %dx%d matrix: panic %v", n, col, r, c, p)
		}
		if !sameBits(s, ks) {
			t.Fatalf("adding changed the numbers added")
		}
		if p {
			class("refused")
			if !d.untouched(false) {
				t.Fatalf("a refused addition changed the matrix")
			}
		} else {
			if !d.untouched(true) {
				t.Fatalf("adding changed something outside the matrix")
			}
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					want := rows[i][j]
					if j == col {
						want += s[i]
					}
					if d.M.At(i, j) != want {
						t.Fatalf("adding %v to column %d of %v gives %v", s, col, rows, d)
					}
				}
			}
		}
		nontrivial("%v %v %d", rows, s, col)
		utils.ToOnes(d.M)
		if !d.untouched(true) {
			t.Fatalf("ToOnes changed something outside the matrix")
		}
		for _, row := range matRows(d.M) {
			for _, v := range row {
				if v != 1 {
					t.Fatalf("ToOnes gives %v", d)
				}
			}
		}
	})
}
