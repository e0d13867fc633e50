package boocheck

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// Large inputs. Their elements come from a generator of the harness' own with
// a drawn seed, and not one by one, so that thousands of them are cheap; the
// sizes are what shrinks.

func genSource(t *rapid.T) *rand.Rand {
	s := rapid.Uint64().Draw(t, "source")
	return rand.New(rand.NewPCG(s, 77))
}

// genSize is anything from lo to hi, evenly (rapid's ranges favour small
// numbers).
func genSize(t *rapid.T, lo, hi int, name string) int {
	k := 0
	for i := 0; i < 10; i++ {
		k *= 2
		if rapid.Bool().Draw(t, name) {
			k++
		}
	}
	return lo + (hi-lo)*k/1023
}

func bulkMatrix(r *rand.Rand, n, c int) [][]float64 {
	X := make([][]float64, n)
	for i := range X {
		X[i] = make([]float64, c)
	}
	for j := 0; j < c; j++ {
		kind := r.IntN(4)
		for i := range X {
			switch kind {
			case 0:
				X[i][j] = float64(r.IntN(7) - 3)
			case 1:
				X[i][j] = float64(r.IntN(4001)-2000) / 16
			case 2:
				X[i][j] = r.NormFloat64()
			default:
				X[i][j] = float64((i*7919 + j) % n) // all different
			}
		}
	}
	return X
}

func bulkData(r *rand.Rand, n, c, k int) *utils.DataBunch {
	D := &utils.DataBunch{Data: bulkMatrix(r, n, c)}
	for i := 0; i < n; i++ {
		l := r.IntN(k)
		if r.IntN(3) > 0 {
			l = int(math.Abs(D.Data[i][0])) % k
		}
		D.Labels = append(D.Labels, 5*l-7)
	}
	return D
}

func largeTree(t *rapid.T, splits bool) {
	r := genSource(t)
	n := genSize(t, 100, 2000, "rows")
	c := rapid.IntRange(1, 3).Draw(t, "cols")
	X := bulkMatrix(r, n, c)
	s := &spec{X: X, lambda: 1, mcw: 1, depth: rapid.IntRange(1, 4).Draw(t, "depth"), xgb: rapid.Bool().Draw(t, "xgb"), structure: true, values: true, splits: splits}
	if !splits {
		s.depth = rapid.IntRange(1, 12).Draw(t, "depth")
	}
	if rapid.Bool().Draw(t, "mcw") {
		s.mcw = float64(genSize(t, 1, n/3, "mcw"))
	}
	var o *boo.TreeOptions
	tv := make([]float64, n)
	for i := range tv {
		tv[i] = float64(r.IntN(65)-32) / 32
	}
	if s.xgb {
		o = boo.DefaultXTreeOptions()
		s.g, s.h = tv, make([]float64, n)
		for i := range s.h {
			s.h[i] = float64(1+r.IntN(16)) / 16
		}
		s.lambda, s.gamma = float64(r.IntN(3)), float64(r.IntN(3))/4
		o.Gradients, o.Hessian, o.Lambda, o.Gamma = s.g, s.h, s.lambda, s.gamma
	} else {
		o = boo.DefaultGTreeOptions()
		s.y = tv
		o.Y = s.y
	}
	o.MaxDepth, o.MinChildWeight = s.depth, s.mcw
	noteCase("%d rows %d columns %+v", n, c, o)
	tr := boo.NewTree(X, o)
	nd := observe(tr)
	if err := s.verify(nd, allRows(n)); err != nil {
		t.Fatalf("%d rows: %v", n, err)
	}
	for i, p := range tr.Predict(X, nil) {
		if p != nd.eval(X[i]) {
			t.Fatalf("%d rows: row %d is predicted %v, its leaf has %v", n, i, p, nd.eval(X[i]))
		}
	}
	class("large tree")
	if !nd.leaf {
		nontrivial("large tree xgb=%v %dx%d depth %d mcw %v root %d<=%v", s.xgb, n, c, s.depth, s.mcw, nd.feature, nd.threshold)
	}
}

func TestC01_large(t *testing.T) {
	check(t, 800, func(t *rapid.T) { largeTree(t, true) })
}

func TestC02_large(t *testing.T) {
	check(t, 800, func(t *rapid.T) { largeTree(t, false) })
}

func TestC03_large(t *testing.T) {
	check(t, 250, func(t *rapid.T) {
		r := genSource(t)
		D := bulkData(r, genSize(t, 60, 600, "rows"), rapid.IntRange(1, 3).Draw(t, "cols"), rapid.IntRange(2, 4).Draw(t, "classes"))
		o := genOptions(t, optSpec{maxRounds: 3, noSub: true})
		o.MaxDepth = min(o.MaxDepth, 4)
		stagewise(t, &dataSet{D: D, k: len(distinct(D.Labels))}, o)
		class("large data")
	})
}

// bulkTable is a data set to be written and read.
func bulkTable(t *rapid.T, r *rand.Rand) *utils.DataBunch {
	n, c := genSize(t, 1, 2500, "rows"), rapid.IntRange(1, 4).Draw(t, "cols")
	if rapid.Bool().Draw(t, "wide") {
		n, c = rapid.IntRange(1, 3).Draw(t, "rows"), genSize(t, 1, 3000, "cols")
	}
	D := bulkData(r, n, c, 1+r.IntN(40))
	if rapid.Bool().Draw(t, "named") {
		for j := 0; j < c; j++ {
			D.Keys = append(D.Keys, fmt.Sprintf("name-%d", j))
		}
	}
	return D
}

func TestC09_large(t *testing.T) {
	check(t, 600, func(t *rapid.T) {
		r := genSource(t)
		D := bulkTable(t, r)
		got, err := utils.ParseCSVFromReader(genStream(t, D.CSV()), D.Keys != nil, true, ',')
		if err != nil {
			t.Fatalf("%d rows: %v", len(D.Data), err)
		}
		if err := closeTable(got, D); err != nil {
			t.Fatalf("%d rows: %v", len(D.Data), err)
		}
		lines := strings.Split(D.CSV(), "\n")
		first := len(lines) - len(D.Data)
		at := first + r.IntN(len(D.Data))
		lines[at] = rapid.SampledFrom([]string{"1,", "x,1", "1,1,", lines[at] + ",7", lines[at] + "z"}).Draw(t, "bad")
		if got, err := utils.ParseCSVFromReader(strings.NewReader(strings.Join(lines, "\n")), D.Keys != nil, true, ','); err == nil && (len(lines) > 1 || !strings.HasSuffix(lines[at], ",7")) {
			t.Fatalf("line %d of %d is %q: accepted as %d rows", at+1, len(lines), lines[at], len(got.Data))
		}
		class("large table")
		nontrivial("large %dx%d %v", len(D.Data), len(D.Data[0]), D.Labels)
	})
}

func TestC10_large(t *testing.T) {
	check(t, 600, func(t *rapid.T) {
		r := genSource(t)
		D := bulkTable(t, r)
		got, err := utils.ParseLibSVMFromReader(genStream(t, D.LibSVM()), D.Keys != nil)
		if err != nil {
			t.Fatalf("%d rows: %v", len(D.Data), err)
		}
		if err := closeTable(got, D); err != nil {
			t.Fatalf("%d rows: %v", len(D.Data), err)
		}
		lines := strings.Split(D.LibSVM(), "\n")
		first := len(lines) - len(D.Data)
		at := first + r.IntN(len(D.Data))
		lines[at] = rapid.SampledFrom([]string{"1 1:", "x 1:1", "1 1:1:1", lines[at] + " 7", lines[at] + "z", "1.5 1:2"}).Draw(t, "bad")
		if got, err := utils.ParseLibSVMFromReader(strings.NewReader(strings.Join(lines, "\n")), D.Keys != nil); err == nil {
			t.Fatalf("line %d of %d is %q: accepted as %d rows", at+1, len(lines), lines[at], len(got.Data))
		}
		class("large table")
		nontrivial("large %dx%d %v", len(D.Data), len(D.Data[0]), D.Labels)
	})
}

func TestC11_large(t *testing.T) {
	check(t, 250, func(t *rapid.T) {
		n := genSize(t, 50, 900, "rows")
		nf := rapid.IntRange(2, 12).Draw(t, "nfold")
		if rapid.Bool().Draw(t, "many folds") {
			nf = genSize(t, 2, n/2, "nfold")
		}
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			D.Data = append(D.Data, []float64{float64(i), float64(i % 3)})
			D.Labels = append(D.Labels, i*i%17)
		}
		seedLibrary(t)
		got, next, err := utils.CrossValidationSamples(D, nf, rapid.Bool().Draw(t, "copies"))
		if err != nil || got != nf {
			t.Fatalf("%d samples: %d folds instead of %d, %v", n, got, nf, err)
		}
		seen := make([]int, n)
		for f := 0; f < nf; f++ {
			train, test := next()
			tr, err1 := part(train, D)
			te, err2 := part(test, D)
			if err1 != nil || err2 != nil {
				t.Fatalf("%d samples, fold %d of %d: %v %v", n, f, nf, err1, err2)
			}
			in := make([]int, n)
			for _, k := range te {
				in[k]++
				seen[k]++
			}
			for _, k := range tr {
				in[k] += 2
			}
			for k, v := range in {
				if v != 1 && v != 2 {
					t.Fatalf("%d samples, fold %d of %d: sample %d is not exactly once in either part", n, f, nf, k)
				}
			}
			if len(te) < n/nf {
				t.Fatalf("%d samples, fold %d of %d has %d", n, f, nf, len(te))
			}
		}
		for k, v := range seen {
			if v != 1 {
				t.Fatalf("%d samples, %d folds: sample %d tested %d times", n, nf, k, v)
			}
		}
		if a, b := next(); a != nil || b != nil {
			t.Fatalf("%d samples: more than %d folds", n, nf)
		}
		class("large data")
		nontrivial("large %d samples %d folds", n, nf)
	})
}

// One row per class and feature value: a model that predicts exactly what the
// first feature says, on data that are labelled otherwise.
func TestC16_large(t *testing.T) {
	check(t, 400, func(t *rapid.T) {
		r := genSource(t)
		K := genSize(t, 2, 80, "classes")
		train := &utils.DataBunch{}
		for k := 0; k < K; k++ {
			for i := 0; i < 2; i++ {
				train.Data = append(train.Data, []float64{float64(k)})
				train.Labels = append(train.Labels, 100-3*k)
			}
		}
		o := boo.DefaultXOptions()
		o.Rounds, o.SubSample, o.ColSubSample, o.MinSample, o.MinChildWeight, o.Lambda, o.Gamma, o.MaxDepth, o.LearningRate, o.EarlyStop = 1, 1, 1, 1, 1, 0, 0, 6, 1, 0
		m := boo.NewMultiClass(train, o)
		n := genSize(t, 1, 3000, "rows")
		D := &utils.DataBunch{}
		want := make([][]int, K)
		for i := range want {
			want[i] = make([]int, K)
		}
		for i := 0; i < n; i++ {
			p, a := r.IntN(K), r.IntN(K)
			if r.IntN(2) == 0 {
				a = p
			}
			D.Data = append(D.Data, []float64{float64(p)})
			D.Labels = append(D.Labels, 100-3*a)
			want[a][m.PredictSingleClass(D.Data[i])]++
		}
		C := confu.MCConfusions(m, D)
		got := C.Matrix()
		for i := range want {
			if !equalInts(got[i], want[i]) {
				t.Fatalf("%d vectors: row %d of the matrix is %v, should be %v", n, i, got[i], want[i])
			}
		}
		N := rapid.IntRange(1, K+2).Draw(t, "N")
		for a := 0; a < K; a++ {
			idx, cnt := C.TopNForLabelM(N, 100-3*a)
			s := append([]int(nil), want[a]...)
			sort.Sort(sort.Reverse(sort.IntSlice(s)))
			if len(idx) != min(N, K) || !equalInts(cnt, s[:min(N, K)]) {
				t.Fatalf("%d vectors: the first %d of label %d have counts %v, should be %v", n, N, 100-3*a, cnt, s[:min(N, K)])
			}
			for i, v := range idx {
				if want[a][v] != cnt[i] {
					t.Fatalf("%d vectors: label %d: place %d is class %d with %d, it has %d", n, 100-3*a, i, v, cnt[i], want[a][v])
				}
			}
		}
		names := map[int]string{}
		for k, l := range m.ClassLabels() {
			names[l] = fmt.Sprintf("n%d", k)
		}
		if s := C.PrintTopN(N, names); true {
			if err := printedTopN(s, N, want, m.ClassLabels(), names); err != nil {
				t.Fatalf("%d vectors, first %d of each: %v\n%s", n, N, err, s)
			}
		}
		class("large data")
		nontrivial("large %d vectors %d classes %v", n, K, want[0])
	})
}

func TestC17_large(t *testing.T) {
	check(t, 800, func(t *rapid.T) {
		r := genSource(t)
		xgb := rapid.Bool().Draw(t, "xgb")
		F := genSize(t, 1, 400, "features")
		f, want := boo.NewFeats(xgb), newTotals()
		for rep := rapid.IntRange(1, 3).Draw(t, "rounds"); rep > 0; rep-- {
			g := boo.NewFeats(xgb)
			for i := 0; i < F; i++ {
				x, v := r.IntN(F), float64(r.IntN(8001)-4000)/8
				want.add(x, v)
				if r.IntN(2) == 0 {
					f.Add(x, v)
				} else {
					g.Add(x, v)
				}
			}
			f.Merge(g)
		}
		if err := want.feats(f, xgb, false); err != nil {
			t.Fatalf("%d features: %v", F, err)
		}
		sort.Sort(f)
		if err := want.feats(f, xgb, true); err != nil {
			t.Fatalf("%d features, sorted: %v", F, err)
		}
		class("many features")
		nontrivial("large %v", f)
	})
}

func bulkDense(r *rand.Rand, n, c int) *mat.Dense {
	m := mat.NewDense(n, c, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			m.Set(i, j, r.Float64())
		}
	}
	return m
}

func TestC18_large(t *testing.T) {
	check(t, 800, func(t *rapid.T) {
		r := genSource(t)
		n, c := genSize(t, 1, 900, "r"), rapid.IntRange(1, 5).Draw(t, "c")
		if rapid.Bool().Draw(t, "flat") {
			n, c = c, n
		}
		y, p := bulkDense(r, n, c), bulkDense(r, n, c)
		Y, P := matRows(y), matRows(p)
		var dest *mat.Dense
		if rapid.Bool().Draw(t, "dest") {
			dest = bulkDense(r, n, c)
		}
		sm := matRows(utils.SoftMaxDense(p, dest))
		nm := matRows(utils.NormalizationDense(p, dest))
		for i := range P {
			if err := softmaxRow(sm[i], P[i]); err != nil {
				t.Fatalf("softmax of row %d of %dx%d: %v", i, n, c, err)
			}
			if err := normalRow(nm[i], P[i]); err != nil {
				t.Fatalf("normalization of row %d of %dx%d: %v", i, n, c, err)
			}
		}
		for _, L := range []utils.LossFunc{&utils.SQErrLoss{}, &utils.MSELoss{}} {
			loss := L.Loss(y, p, dest)
			g := matRows(L.Gradients(y, p, dest))
			ng := matRows(L.NegGradients(y, p, dest))
			h := matRows(L.Hessian(p, dest))
			want := 0.0
			for i := range Y {
				for j, v := range Y[i] {
					q := P[i][j]
					want += (v - q) * (v - q)
					wh := 1.0
					if L.Name() == "mse" {
						wh = q * (1 - q)
					}
					if g[i][j] != q-v || ng[i][j] != v-q || math.Abs(h[i][j]-wh) > 1e-15 {
						t.Fatalf("%s: element %d,%d of %dx%d has gradient %v, opposite %v, hessian %v; target %v, prediction %v", L.Name(), i, j, n, c, g[i][j], ng[i][j], h[i][j], v, q)
					}
				}
			}
			if want /= float64(n * c); math.Abs(loss-want) > 1e-10*want {
				t.Fatalf("%s: loss of %dx%d is %v, should be %v", L.Name(), n, c, loss, want)
			}
		}
		if c > 1 {
			cl, lo := boo.ClassesFromProbs(p), boo.LogOddsFromProbs(p)
			for i, row := range P {
				mx, sum := 0, 0.0
				for j, v := range row {
					sum += v
					if v > row[mx] {
						mx = j
					}
				}
				if cl.At(i, 0) != float64(mx) {
					t.Fatalf("class of row %d of %dx%d is %v, should be %d", i, n, c, cl.At(i, 0), mx)
				}
				for j, v := range row {
					if w := math.Log(v / (sum - v)); math.Abs(lo.At(i, j)-w) > 1e-6*(1+math.Abs(w)) && sum-v > 1e-6 {
						t.Fatalf("log-odds %d,%d of %dx%d are %v, should be %v", i, j, n, c, lo.At(i, j), w)
					}
				}
			}
		}
		D := &utils.DataBunch{}
		K := genSize(t, 1, 200, "labels")
		for i := 0; i < max(n, c); i++ {
			D.Labels = append(D.Labels, 3*r.IntN(K)-K)
		}
		M, labels := D.OHELabels()
		if !equalInts(labels, distinct(D.Labels)) {
			t.Fatalf("columns %v for labels %v", labels, D.Labels)
		}
		if err := oneHot(M, len(D.Labels), len(labels), func(i, j int) bool { return D.Labels[i] == labels[j] }); err != nil {
			t.Fatalf("%d labels: %v", len(D.Labels), err)
		}
		class("large matrices")
		nontrivial("large %dx%d %v", n, c, P[0][0])
	})
}

func TestC19_large(t *testing.T) {
	check(t, 1200, func(t *rapid.T) {
		r := genSource(t)
		n, c := genSize(t, 1, 1500, "r"), rapid.IntRange(1, 5).Draw(t, "c")
		if rapid.Bool().Draw(t, "flat") {
			n, c = c, n
		}
		X := bulkMatrix(r, n, c)
		keep := copyMatrix(X)
		T := utils.TransposeFloats(X)
		if len(T) != c {
			t.Fatalf("transposing %dx%d gives %d rows", n, c, len(T))
		}
		col := make([]float64, n)
		for j := range T {
			if len(T[j]) != n {
				t.Fatalf("transposing %dx%d gives %d columns", n, c, len(T[j]))
			}
			for i := range T[j] {
				if !bits(T[j][i], X[i][j]) {
					t.Fatalf("transposing %dx%d: element %d,%d", n, c, i, j)
				}
			}
		}
		for i := range col {
			col[i] = X[i][r.IntN(c)]
		}
		idx, vals := utils.ArgSort(col)
		if err := argsorted(col, idx, vals); err != nil {
			t.Fatalf("ArgSort of %d: %v", n, err)
		}
		idx, vals = utils.MemArgSort(col, make([]int, n), make([]float64, n))
		if err := argsorted(col, idx, vals); err != nil {
			t.Fatalf("MemArgSort of %d: %v", n, err)
		}
		ri, ci := r.Perm(n), r.Perm(c)
		ri = ri[:r.IntN(n+1)]
		ci = ci[:r.IntN(c+1)]
		S := utils.SampleMatrix(X, ri, ci)
		if len(S) != len(ri) {
			t.Fatalf("%d rows for %d indexes", len(S), len(ri))
		}
		for i := range S {
			for j, k := range ci {
				if len(S[i]) != len(ci) || !bits(S[i][j], X[ri[i]][k]) {
					t.Fatalf("sampling %dx%d from %dx%d: element %d,%d", len(ri), len(ci), n, c, i, j)
				}
			}
		}
		if n > 1 {
			bad := append([]int(nil), ri...)
			if len(bad) > 0 {
				bad[r.IntN(len(bad))] = n
				if !mustPanic(func() { utils.SampleMatrix(X, bad, ci) }) || !mustPanic(func() { utils.SampleSlice(col, bad) }) {
					t.Fatalf("row %d of %d is served", n, n)
				}
			}
		}
		D := bulkDense(r, n, c)
		before := matRows(D)
		k := r.IntN(c)
		dc := utils.DenseCol(D, k)
		utils.AddToCol(D, col, k)
		for i := range before {
			for j, v := range before[i] {
				if j == k {
					if dc.At(0, i) != v {
						t.Fatalf("column %d of %dx%d: element %d", k, n, c, i)
					}
					v += col[i]
				}
				if D.At(i, j) != v {
					t.Fatalf("adding to column %d of %dx%d: element %d,%d", k, n, c, i, j)
				}
			}
		}
		if !sameMatrix(X, keep) {
			t.Fatalf("%dx%d: the input changed", n, c)
		}
		class("large")
		nontrivial("large %dx%d %v", n, c, X[0][0])
	})
}

func TestC22_large(t *testing.T) {
	check(t, 500, func(t *rapid.T) {
		r := genSource(t)
		n := genSize(t, 1, 3000, "lines")
		sep := rapid.SampledFrom([]string{"", ",", "::"}).Draw(t, "sep")
		real := sep
		if sep == "" {
			real = " "
		}
		want := map[int]string{}
		var lines []string
		for i := 0; i < n; i++ {
			l, name := r.IntN(2*n)-n, "n"+strconv.Itoa(i)
			if r.IntN(300) == 0 {
				name += strings.Repeat("y", r.IntN(9000))
			}
			want[l] = name
			lines = append(lines, strconv.Itoa(l)+real+name)
		}
		path := scratchFile(strings.Join(lines, "\n"))
		defer os.Remove(path)
		m, err, bad := readNames(path, sep)
		if err != nil || bad != "" || !sameNames(m, want) {
			t.Fatalf("separator %q: %d lines with %d names give %d (%v %s)", sep, n, len(want), len(m), err, bad)
		}
		lines[r.IntN(n)] = "7"
		path2 := scratchFile(strings.Join(lines, "\n"))
		defer os.Remove(path2)
		if m, err, bad = readNames(path2, sep); err == nil || bad != "" {
			t.Fatalf("separator %q: a line of %d without a name gives %d names (%s)", sep, n, len(m), bad)
		}
		class("many lines")
		nontrivial("large %d %v", n, lines[0])
	})
}
