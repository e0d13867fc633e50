package boocheck

import (
	"fmt"
	"io"
	"math"
	"reflect"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

var colKinds = []string{"int", "int", "dyadic", "real", "real", "binary", "const", "adjacent", "huge", "tiny", "any"}

// tame kinds leave out the extreme magnitudes
var tameKinds = []string{"int", "int", "dyadic", "real", "real", "binary", "const", "adjacent"}

func genColumn(t *rapid.T, n int, kinds []string) []float64 {
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	col := make([]float64, n)
	var g *rapid.Generator[float64]
	switch kind {
	case "int":
		g = rapid.Map(rapid.IntRange(-4, 4), func(i int) float64 { return float64(i) })
	case "dyadic":
		g = rapid.Map(rapid.IntRange(-200, 200), func(i int) float64 { return float64(i) / 8 })
	case "real":
		g = rapid.Float64Range(-10, 10)
	case "binary":
		g = rapid.Map(rapid.Bool(), func(b bool) float64 {
			if b {
				return 1
			}
			return 0
		})
	case "const":
		g = rapid.Just(rapid.SampledFrom([]float64{0, 1, -2.5}).Draw(t, "const"))
	case "adjacent":
		base := rapid.SampledFrom([]float64{1, 0.1, -1, 3.3, 1e17, -0.7, 1024, 0}).Draw(t, "base")
		g = rapid.Map(rapid.IntRange(0, 6), func(k int) float64 {
			x := base
			for i := 0; i < k; i++ {
				x = math.Nextafter(x, math.Inf(1))
			}
			return x
		})
	case "huge":
		g = rapid.SampledFrom([]float64{1e308, -1e308, math.MaxFloat64, -math.MaxFloat64, 1.5e308, -1.5e308, 1.2e308, 1e300, 0, 1, -1})
	case "tiny":
		g = rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-323, 1.5e-323, 1e-310, -1e-310, 2.2250738585072014e-308})
	case "any":
		g = rapid.Float64()
	}
	for i := range col {
		col[i] = g.Draw(t, "x")
	}
	return col
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

// genRows draws a number of rows: mostly small, sometimes larger.
func genRows(t *rapid.T, minN, usual, tail int) int {
	if tail > usual && rapid.IntRange(0, 19).Draw(t, "big") == 19 {
		return rapid.IntRange(usual, tail).Draw(t, "rows")
	}
	return rapid.IntRange(minN, usual).Draw(t, "rows")
}

func genMatrix(t *rapid.T, n, cols int, kinds []string) [][]float64 {
	X := make([][]float64, n)
	for i := range X {
		X[i] = make([]float64, cols)
	}
	for c := 0; c < cols; c++ {
		col := genColumn(t, n, kinds)
		for i := range X {
			if !finite(col[i]) {
				col[i] = 0
			}
			X[i][c] = col[i]
		}
	}
	return X
}

func genLabelNames(t *rapid.T, k int) []int {
	style := rapid.IntRange(0, 3).Draw(t, "labelstyle")
	if seldom(t, 3, "far labels") {
		style = 4
		classIf(true, "labels beyond 32 bits")
	}
	return rapid.Permutation(func() []int {
		l := make([]int, k)
		for i := range l {
			switch style {
			case 0:
				l[i] = i
			case 1:
				l[i] = i + 1
			case 2:
				l[i] = (i - k/2) * 7
			case 4:
				l[i] = []int{1 << 31, -1 << 31, 1<<32 + 1, 1, 1<<53 + 1, 1 << 53, math.MaxInt64, math.MinInt64, -1<<31 - 1, 0}[i%10]
				if i >= 10 {
					l[i] = i<<32 + 1
				}
			default:
				l[i] = []int{1000000, -5, 0, 300, -128, 77, 12}[i%7] + 1000*(i/7)
			}
		}
		return l
	}()).Draw(t, "labelnames")
}

type dataSet struct {
	D *utils.DataBunch
	k int // distinct labels
}

// genData makes a labelled data set. About half of the time the labels depend
// on the features, so that there is something to learn.
func genData(t *rapid.T, minN, usualN, tailN, maxK, maxCols int, kinds []string) *dataSet {
	n := genRows(t, minN, usualN, tailN)
	c := rapid.IntRange(1, maxCols).Draw(t, "cols")
	k := rapid.IntRange(1, maxK).Draw(t, "classes")
	if seldom(t, 6, "large") { // large in one way
		switch rapid.IntRange(0, 2).Draw(t, "way") {
		case 0:
			n = rapid.IntRange(64, 270).Draw(t, "rows")
			classIf(true, "64 or more rows")
		case 1:
			c = rapid.IntRange(9, 70).Draw(t, "cols")
			classIf(true, "9 or more columns")
		default:
			k = rapid.IntRange(9, 40).Draw(t, "classes")
			n = max(n, k)
			classIf(true, "9 or more classes")
		}
	}
	X := genMatrix(t, n, c, kinds)
	names := genLabelNames(t, k)
	lab := make([]int, n)
	mode := rapid.IntRange(0, 2).Draw(t, "labelmode")
	for i := range lab {
		switch mode {
		case 0:
			lab[i] = names[rapid.IntRange(0, k-1).Draw(t, "lab")]
		case 1: // by the first column, with some noise
			v := int(math.Abs(math.Mod(math.Floor(X[i][0]), float64(k))))
			if v >= k {
				v = 0
			}
			if rapid.IntRange(0, 9).Draw(t, "noise") == 9 {
				v = rapid.IntRange(0, k-1).Draw(t, "lab")
			}
			lab[i] = names[v]
		default:
			lab[i] = names[i%k]
		}
	}
	D := &utils.DataBunch{Data: X, Labels: lab}
	if rapid.Bool().Draw(t, "keys") {
		for i := 0; i < c; i++ {
			D.Keys = append(D.Keys, fmt.Sprintf("f%d", i))
		}
	}
	usedBunch(t, D)
	return &dataSet{D: D, k: len(distinct(lab))}
}

func genPos(lo, hi float64, common ...float64) *rapid.Generator[float64] {
	return rapid.OneOf(rapid.SampledFrom(common), rapid.SampledFrom(common), rapid.Float64Range(lo, hi))
}

type optSpec struct {
	maxRounds int
	noSub     bool // no subsampling
	earlyStop bool
}

// genOptions draws valid boosting options of either kind.
func genOptions(t *rapid.T, s optSpec) *boo.Options {
	var o *boo.Options
	if rapid.Bool().Draw(t, "xgb") {
		o = boo.DefaultXOptions()
	} else {
		o = boo.DefaultGOptions()
		o.SubSample, o.ColSubSample = 1, 1
		o.MinSample = rapid.IntRange(0, 3).Draw(t, "minsample")
	}
	o.Rounds = rapid.IntRange(1, s.maxRounds).Draw(t, "rounds")
	o.MaxDepth = rapid.IntRange(1, 5).Draw(t, "maxdepth")
	if seldom(t, 4, "deep") {
		o.MaxDepth = rapid.IntRange(6, 40).Draw(t, "maxdepth")
	}
	o.LearningRate = genPos(0.01, 1.5, 0.1, 0.3, 0.5, 1).Draw(t, "lr")
	o.BaseScore = rapid.SampledFrom([]float64{0.5, 0, -1, 2.25, 0.3}).Draw(t, "base")
	if seldom(t, 5, "odd lr") {
		o.LearningRate = rapid.SampledFrom([]float64{1e-4, 1e-9, 1e-15, 1e-300, 12, 300}).Draw(t, "lr")
	}
	if seldom(t, 5, "odd base") {
		o.BaseScore = rapid.SampledFrom([]float64{1e-9, -1e-4, 700, -1000, 12345.678, 1e6}).Draw(t, "base")
	}
	o.MinChildWeight = genPos(1, 6, 1, 2, 3, 2.5).Draw(t, "mcw")
	if seldom(t, 5, "large mcw") {
		o.MinChildWeight = float64(rapid.IntRange(7, 60).Draw(t, "mcw"))
	}
	if o.XGB {
		o.Lambda = genPos(0, 5, 0, 1, 1.5, 0.25).Draw(t, "lambda")
		o.Gamma = genPos(0, 2, 0, 0, 0.2, 1).Draw(t, "gamma")
		if seldom(t, 5, "odd lambda") {
			o.Lambda = rapid.SampledFrom([]float64{1e-9, 1e-3, 20, 100, 1e6, 1e12}).Draw(t, "lambda")
		}
		if seldom(t, 5, "odd gamma") {
			o.Gamma = rapid.SampledFrom([]float64{1e-12, 1e-6, 1e-3, 5, 50}).Draw(t, "gamma")
		}
		o.MinSample = rapid.IntRange(1, 5).Draw(t, "minsample")
		if s.noSub {
			o.SubSample, o.ColSubSample = 1, 1
		} else {
			o.SubSample = genPos(0.3, 1, 1, 0.8, 0.5).Draw(t, "ss")
			o.ColSubSample = genPos(0.3, 1, 1, 0.8, 0.5).Draw(t, "css")
		}
	}
	if rapid.Bool().Draw(t, "otherloss") {
		if o.XGB {
			o.Loss = &utils.MSELoss{}
			if o.Lambda < 0.1 {
				o.Lambda = 0.1
			}
		} else {
			o.Loss = &utils.SQErrLoss{}
		}
	}
	o.EarlyStop = 0
	if s.earlyStop {
		o.EarlyStop = rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, -1}).Draw(t, "earlystop")
	}
	o.Verbose = seldom(t, 3, "verbose")
	if seldom(t, 4, "method") { // there are only exact trees
		o.TreeMethod = rapid.SampledFrom([]string{"", "exact", "hist"}).Draw(t, "method")
	}
	return o
}

// genQuery draws a vector to predict: a training row, a perturbed one, or new.
func genQuery(t *rapid.T, X [][]float64) []float64 {
	c := len(X[0])
	q := append([]float64(nil), X[rapid.IntRange(0, len(X)-1).Draw(t, "qrow")]...)
	for i := 0; i < c; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "qmode") {
		case 0:
			q[i] = rapid.Float64Range(-12, 12).Draw(t, "q")
		case 1:
			q[i] = X[rapid.IntRange(0, len(X)-1).Draw(t, "qr")][i]
		case 2:
			a, b := q[i], X[rapid.IntRange(0, len(X)-1).Draw(t, "qr")][i]
			q[i] = a/2 + b/2
		case 3:
			q[i] = rapid.SampledFrom([]float64{math.Inf(1), math.Inf(-1), 0, math.MaxFloat64, -math.MaxFloat64}).Draw(t, "qx")
		}
	}
	return q
}

func optString(o *boo.Options) string {
	loss := "nil"
	if o.Loss != nil {
		loss = o.Loss.Name()
	}
	return fmt.Sprintf("{xgb:%v rounds:%d depth:%d early:%d lr:%v lambda:%v mcw:%v gamma:%v ss:%v css:%v base:%v minsample:%d loss:%s}",
		o.XGB, o.Rounds, o.MaxDepth, o.EarlyStop, o.LearningRate, o.Lambda, o.MinChildWeight, o.Gamma, o.SubSample, o.ColSubSample, o.BaseScore, o.MinSample, loss)
}

// cloneOpts and sameOpts do not rely on the library's own copying and comparing.
func cloneOpts(o *boo.Options) *boo.Options {
	c := *o
	return &c
}

func sameOpts(a, b *boo.Options) bool { return reflect.DeepEqual(a, b) }

func dataString(D *utils.DataBunch) string {
	return fmt.Sprintf("X=%v y=%v", D.Data, D.Labels)
}

// faultyReader delivers text and fails with err after at bytes, for good or
// (once) only the first time it gets there.
type faultyReader struct {
	text     string
	at       int
	pos      int
	err      error
	once     bool
	fails    int
	together bool // the error comes with the bytes before it
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.pos == r.at && (r.fails == 0 || !r.once) {
		r.fails++
		return 0, r.err
	}
	end := len(r.text)
	if r.pos < r.at {
		end = r.at
	}
	if r.pos == end {
		return 0, io.EOF
	}
	n := copy(p, r.text[r.pos:end])
	r.pos += n
	if r.together && r.pos == r.at && r.fails == 0 {
		r.fails++
		return n, r.err
	}
	return n, nil
}

func genFaultyReader(t *rapid.T, text string, at int, err error) *faultyReader {
	once := rapid.Bool().Draw(t, "failsOnce")
	classIf(once, "reader fails once")
	return &faultyReader{text: text, at: at, err: err, once: once, together: rapid.Bool().Draw(t, "together")}
}
