package boocheck

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strconv"
	"sync"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// A dial is a loss function that makes the accuracy of a model a known
// function of one of its hyperparameters: it watches the probabilities it is
// shown while a model is trained, finds the parameter out from them, and then
// gives gradients that lead to a model that is always right or always wrong.
// Only the scores of the class boosted first ever change.
type dial struct {
	kind     string  // parameter
	cut      float64 // at most this: good
	flip     bool    // at most this: bad
	lr, lam  float64 // known values of the others
	watch    int     // rounds watched (fractions)
	mu       sync.Mutex
	training map[int64]*dialState
}

type dialState struct {
	y0      []float64 // labels of the class boosted first
	round   int       // of that class
	before  float64   // score of a member before the tree in progress
	push    float64   // gradient given for it
	seen    float64
	counted int
	uniform bool
}

func goid() int64 {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.ParseInt(string(f[1]), 10, 64)
	return n
}

func (d *dial) Name() string { return "dial" }

func (d *dial) Loss(y, p, l *mat.Dense) float64 { return 1 }

func (d *dial) Hessian(p, h *mat.Dense) *mat.Dense {
	r, c := p.Dims()
	h = mat.NewDense(r, c, nil)
	utils.ToOnes(h)
	return h
}

func (d *dial) Gradients(y, p, g *mat.Dense) *mat.Dense {
	r := d.NegGradients(y, p, g)
	r.Scale(-1, r)
	return r
}

func (d *dial) NegGradients(ym, pm, g *mat.Dense) *mat.Dense {
	y, p := ym.RawRowView(0), pm.RawRowView(0)
	res := mat.NewDense(1, len(y), nil)
	out := res.RawRowView(0)
	d.mu.Lock()
	id := goid()
	st := d.training[id]
	uniform := true
	for _, v := range p {
		uniform = uniform && math.Abs(v-0.5) < 1e-15
	}
	if st == nil || uniform && !st.uniform { // a model begins
		st = &dialState{y0: append([]float64(nil), y...), uniform: true}
		d.training[id] = st
	}
	d.mu.Unlock()
	st.uniform = uniform
	first := len(y) == len(st.y0)
	for i := range y {
		first = first && y[i] == st.y0[i]
	}
	// the score of the members of the first class over the others
	score := 0.0
	for i, v := range st.y0 {
		if v == 1 {
			score = math.Log(p[i] / (1 - p[i]))
			if !first {
				score = -score
			}
			break
		}
	}
	if !first {
		// what the tree before did
		st.seen = d.decode(st, score-st.before)
		st.counted++
		return res
	}
	st.round++
	m := d.magnitude(st, score)
	st.before, st.push = score, m
	n := st.members() // all gradients together are zero, so a tree without splits does nothing
	for i, v := range y {
		if v == 1 {
			out[i] = m
		} else {
			out[i] = -m * n / (float64(len(y)) - n)
		}
	}
	return res
}

// members counts the members of the first class.
func (s *dialState) members() (n float64) {
	for _, v := range s.y0 {
		n += v
	}
	return
}

// decode returns the value of the parameter, given the change in the score.
func (d *dial) decode(s *dialState, change float64) float64 {
	n := s.members()
	switch d.kind {
	case "LearningRate": // change = rate*push*n/(n+lambda)
		if s.round == 1 {
			return change * (n + d.lam) / n / s.push
		}
	case "Lambda":
		if s.round == 1 {
			return d.lr*s.push*n/change - n
		}
	case "ColSubSample": // the share of rounds with a split
		if s.counted < d.watch && math.Abs(change) > 1e-9 {
			return s.seen + 1/float64(d.watch)
		}
	case "SubSample": // the members drawn: change = rate*push*k/(k+lambda)
		if s.counted < d.watch && change/s.push > 1e-9 {
			k := d.lam * change / (d.lr*s.push - change)
			return s.seen + k/n/float64(d.watch)
		}
	}
	return s.seen
}

// magnitude is the negative gradient for the members of the first class.
func (d *dial) magnitude(s *dialState, score float64) float64 {
	good := 1.0
	switch d.kind {
	case "Rounds":
		if float64(s.round) > d.cut {
			good = -(d.cut + 3)
		}
	case "LearningRate", "Lambda":
		if s.round == 1 {
			return 1 + d.lam
		}
		if s.seen > d.cut {
			good = -1
		}
		good *= 10
	default:
		if s.counted < d.watch {
			m := 1 / (1 + float64(s.round)*1e-3)
			if score > 0 {
				m = -m
			}
			return m
		}
		if s.seen > d.cut {
			good = -1
		}
	}
	if d.flip {
		good = -good
	}
	return good
}

// score is the accuracy with the options.
func (d *dial) score(o *boo.Options) float64 {
	if o.Rounds < 1 || !(o.LearningRate > 0) || !(o.Lambda >= 0) || o.Gamma != 0 && o.XGB {
		return unknown
	}
	v := paramValue(o, d.kind)
	fractions := o.XGB && (o.SubSample < 1 || o.ColSubSample < 1)
	switch d.kind {
	case "Rounds":
		if fractions {
			return unknown
		}
	case "LearningRate", "Lambda":
		if fractions || o.Rounds < 2 || d.kind == "Lambda" && o.LearningRate != d.lr || d.kind == "LearningRate" && o.XGB && o.Lambda != d.lam {
			return unknown
		}
		if math.Abs(v-d.cut) < 1e-6*(v+d.cut) {
			return unknown
		}
	case "ColSubSample", "SubSample":
		if o.Rounds != d.watch+100 || o.LearningRate != d.lr || o.Lambda != d.lam {
			return unknown
		}
		if d.kind == "ColSubSample" && o.SubSample < 1 || d.kind == "SubSample" && o.ColSubSample < 1 {
			return unknown
		}
		if v < 0.3 || math.Abs(v-d.cut) < 0.18 {
			return unknown
		}
	}
	if (v <= d.cut) != d.flip {
		return 100
	}
	return 0
}

// Gradient steps for parameters with a known slope of the accuracy.
func TestC24_dial(t *testing.T) {
	check(t, 500, func(t *rapid.T) {
		d := &dial{training: map[int64]*dialState{}, flip: rapid.Bool().Draw(t, "flip")}
		xgb := rapid.IntRange(0, 3).Draw(t, "xgb") > 0
		kinds := []string{"LearningRate", "Rounds"}
		if xgb {
			kinds = []string{"LearningRate", "Lambda", "Rounds"}
			if seldom(t, 3, "fraction") {
				kinds = []string{"ColSubSample", "SubSample"}
			}
		}
		d.kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		g := &cv.GridOptions{XGB: xgb, Central: rapid.Bool().Draw(t, "central"), MaxDepth: [3]int{2, 2, 1}, MinChildWeight: [3]float64{1, 1, 1},
			Gamma: [3]float64{0, 0.5, 0.1}, SubSample: [3]float64{0.1, 1, 0.01}, ColSubSample: [3]float64{0.1, 1, 0.01}}
		o := boo.DefaultXOptions()
		if !xgb {
			o = boo.DefaultGOptions()
		}
		o.MaxDepth, o.MinChildWeight, o.EarlyStop, o.Gamma, o.SubSample, o.ColSubSample, o.MinSample = 2, 1, 0, 0, 1, 1, 1
		o.LearningRate = rapid.Float64Range(0.05, 0.9).Draw(t, "lr")
		o.Lambda = rapid.Float64Range(0.1, 3).Draw(t, "lambda")
		o.Rounds = rapid.IntRange(2, 12).Draw(t, "rounds")
		g.DeltaFraction = rapid.SampledFrom([]float64{0.05, 0.1, 0.3, 0.5, 0.9}).Draw(t, "delta")
		fraction := d.kind == "ColSubSample" || d.kind == "SubSample"
		if fraction {
			d.watch = 400
			o.Rounds, o.LearningRate, o.Lambda = d.watch+100, 0.5, 1
			v := 0.0
			if rapid.IntRange(0, 2).Draw(t, "small") == 0 { // nothing changes that near
				v = rapid.Float64Range(0.35, 0.7).Draw(t, "v")
				g.DeltaFraction = rapid.SampledFrom([]float64{0.03, 0.05, 0.1}).Draw(t, "spread")
				d.cut = v*(1+g.DeltaFraction) + rapid.Float64Range(0.19, 0.25).Draw(t, "cut")
			} else if g.Central {
				v = rapid.Float64Range(0.6, 0.7).Draw(t, "v")
				g.DeltaFraction = rapid.Float64Range(0.4, 0.5).Draw(t, "spread")
				d.cut = v + rapid.Float64Range(-0.05, 0.05).Draw(t, "cut")
			} else {
				v = rapid.Float64Range(0.35, 0.45).Draw(t, "v")
				g.DeltaFraction = rapid.Float64Range(1, 1.4).Draw(t, "spread")
				d.cut = v * (1 + g.DeltaFraction/2)
			}
			if d.kind == "ColSubSample" {
				o.ColSubSample = v
			} else {
				o.SubSample = v
			}
		}
		d.lr, d.lam = o.LearningRate, o.Lambda
		if !xgb {
			d.lam = 0
		}
		x := paramValue(o, d.kind)
		if !fraction {
			h := x * g.DeltaFraction
			near := rapid.SampledFrom([]float64{x + h, x - h, x, x + h/2, x - h/2, h}).Draw(t, "near")
			d.cut = near * (1 + rapid.SampledFrom([]float64{-1, 1}).Draw(t, "side")*rapid.Float64Range(0.002, 0.1).Draw(t, "by"))
			if d.kind == "Rounds" {
				d.cut = math.Floor(near) + float64(rapid.IntRange(-1, 1).Draw(t, "by"))
			}
		}
		o.Loss = d
		g.Step = rapid.Float64Range(0.05, 2).Draw(t, "step")
		// the step of the parameter moves it by a part of its range
		wide := rapid.Float64Range(0.05, 2).Draw(t, "wide")
		r := [3]float64{max(0, x-wide*x), x + wide*x, rapid.Float64Range(0.1, 2).Draw(t, "far") * wide * x * x * g.DeltaFraction / 100 / g.Step}
		g.LearningRate, g.Lambda, g.Rounds = [3]float64{0.01, 1, 0.01}, [3]float64{0, 3, 0.1}, [3]int{1, max(20, o.Rounds), 1}
		switch d.kind {
		case "LearningRate":
			g.LearningRate = r
		case "Lambda":
			g.Lambda = r
		case "Rounds":
			g.Rounds = [3]int{rapid.IntRange(1, o.Rounds).Draw(t, "lo"), rapid.IntRange(o.Rounds, 2*o.Rounds).Draw(t, "hi"), rapid.IntRange(1, 5).Draw(t, "rstep")}
		case "ColSubSample":
			g.ColSubSample = r
		case "SubSample":
			g.SubSample = r
		}
		// two classes told apart by one column
		fs := rapid.SampledFrom([][2]int{{3, 4}, {4, 3}, {5, 2}}).Draw(t, "folds")
		small := fs[1] + 1 + rapid.IntRange(0, 1).Draw(t, "small")
		if d.kind == "SubSample" { // never far from 8 of each class
			fs, small = [2]int{4, 8}, 16
		}
		nfold, n := fs[0], fs[0]*fs[1]
		cols := rapid.IntRange(1, 3).Draw(t, "cols")
		if d.kind == "ColSubSample" {
			cols = 70
		}
		at := rapid.IntRange(0, cols-1).Draw(t, "at")
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			row := make([]float64, cols)
			l := 3
			if i < small {
				row[at], l = 1+float64(i)/100, 8
			}
			D.Data, D.Labels = append(D.Data, row), append(D.Labels, l)
		}
		single := fraction || rapid.Bool().Draw(t, "single")
		curr := d.score(o)
		keep := cloneOpts(o)
		what := fmt.Sprintf("accuracy %v up to %s %v, %v after, from %s in %s, %d folds of %d samples", map[bool]int{false: 100, true: 0}[d.flip], d.kind, d.cut, map[bool]int{true: 100, false: 0}[d.flip], optString(o), gridString(g), nfold, n)
		noteCase("%s", what)
		seedLibrary(t)
		var got *boo.Options
		params := searched
		if single {
			params = []string{d.kind}
			if curr == unknown {
				curr = 50
			}
			out := make(chan *boo.Options, 8)
			if dead := runToEnd(func() {
				cv.ParamaterGradStep(D, o, g, d.kind, g.Step, g.DeltaFraction, curr, nfold, g.Central, out)
			}); dead != "" {
				t.Fatalf("%s never ends:\n%s", what, dead)
			}
			if len(out) != 1 {
				t.Fatalf("%s: %d results", what, len(out))
			}
			got = <-out
		} else if dead := runToEnd(func() { got = cv.GradStep(o, g, D, g.Step, g.DeltaFraction, nfold, g.Central, nil) }); dead != "" {
			t.Fatalf("%s never ends:\n%s", what, dead)
		}
		any := false
		for _, p := range params {
			may, der := afterStep(d.score, keep, g, p, curr)
			if may == nil {
				continue
			}
			any = true
			v := paramValue(got, p)
			if !oneOf(v, may) {
				t.Fatalf("%s: the slope along %s is %v, the step ended at %v instead of %v", what, p, der, v, may)
			}
			way := map[bool]string{true: "central", false: "forward"}[g.Central]
			classIf(der > 0 && v > x, "dial, "+way+", went up: "+p)
			classIf(der < 0 && v < x, "dial, "+way+", went down: "+p)
			classIf(der != 0 && v == x, "dial, "+way+", no room: "+p)
			classIf(der == 0 && p == d.kind, "dial, "+way+", flat: "+p)
		}
		if any {
			nontrivial("%s %v", what, params)
		}
	})
}
