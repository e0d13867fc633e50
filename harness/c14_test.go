package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

func within(x float64, r [3]float64) bool {
	tol := 1e-9 * (1 + math.Abs(r[0]) + math.Abs(r[1]))
	return x >= r[0]-tol && x <= r[1]+tol // false for NaN
}

// inSpace checks the six options the gradients move against the search space.
func inSpace(o *boo.Options, g *cv.GridOptions) error {
	bad := ""
	if o.Rounds < g.Rounds[0] || o.Rounds > g.Rounds[1] {
		bad += fmt.Sprintf(" Rounds %d", o.Rounds)
	}
	for _, p := range []struct {
		n string
		v float64
		r [3]float64
	}{{"LearningRate", o.LearningRate, g.LearningRate}, {"Gamma", o.Gamma, g.Gamma}, {"Lambda", o.Lambda, g.Lambda}, {"SubSample", o.SubSample, g.SubSample}, {"ColSubSample", o.ColSubSample, g.ColSubSample}} {
		if !within(p.v, p.r) {
			bad += fmt.Sprintf(" %s %v", p.n, p.v)
		}
	}
	if bad != "" {
		return fmt.Errorf("outside the search space:%s", bad)
	}
	return nil
}

func onGrid(o *boo.Options, g *cv.GridOptions) error {
	d, c := false, false
	for _, x := range intPoints(g.MaxDepth) {
		d = d || x == o.MaxDepth
	}
	for _, x := range floatPoints(g.MinChildWeight) {
		c = c || x == o.MinChildWeight
	}
	if !d || !c {
		return fmt.Errorf("depth %d and minimum child weight %v are not on the grid", o.MaxDepth, o.MinChildWeight)
	}
	return nil
}

// genRange draws a range inside [lo,hi], sometimes a single value.
func genRange(t *rapid.T, name string, lo, hi float64) [3]float64 {
	grain := 64.0
	a := rapid.IntRange(int(lo*grain), int(hi*grain)).Draw(t, name+"lo")
	b := a
	if rapid.IntRange(0, 3).Draw(t, name+"point") != 3 {
		b = rapid.IntRange(a, int(hi*grain)).Draw(t, name+"hi")
	}
	st := rapid.SampledFrom([]float64{0.0625, 0.25, 0.5, 1}).Draw(t, name+"step")
	return [3]float64{float64(a) / grain, float64(b) / grain, st}
}

// genSpace draws a search space of valid options.
func genSpace(t *rapid.T, n int) *cv.GridOptions {
	o := &cv.GridOptions{XGB: rapid.IntRange(0, 3).Draw(t, "plain") != 3, EarlyStop: rapid.SampledFrom([]int{0, 3, 10}).Draw(t, "early"), Verbose: seldom(t, 3, "verbose")}
	r := rapid.IntRange(1, 6).Draw(t, "roundslo")
	o.Rounds = [3]int{r, rapid.IntRange(r, 9).Draw(t, "roundshi"), rapid.IntRange(1, 4).Draw(t, "roundsstep")}
	d := rapid.IntRange(1, 3).Draw(t, "depthlo")
	o.MaxDepth = [3]int{d, rapid.IntRange(d, 3).Draw(t, "depthhi"), rapid.IntRange(1, 2).Draw(t, "depthstep")}
	w := float64(rapid.IntRange(1, 3).Draw(t, "cwlo"))
	o.MinChildWeight = rapid.SampledFrom([][3]float64{{w, w, 1}, {w, w + 1, 1}, {w, w + 0.75, 0.5}, {1, float64(n) + 1, float64(n)}}).Draw(t, "cw")
	o.LearningRate = genRange(t, "lr", 0.125, 0.75)
	o.Gamma = genRange(t, "gamma", 0, 0.5)
	o.Lambda = genRange(t, "lambda", 0.25, 2)
	if rapid.Bool().Draw(t, "sub") {
		o.SubSample = genRange(t, "ss", 0.6, 1)
		o.ColSubSample = genRange(t, "css", 0.5, 1)
	} else {
		o.SubSample, o.ColSubSample = [3]float64{1, 1, 2}, [3]float64{1, 1, 0.25}
	}
	o.Step = rapid.SampledFrom([]float64{0.1, 0.01, 0.5, 1, 10, 1000, 1e-6, 0}).Draw(t, "step")
	o.DeltaFraction = rapid.SampledFrom([]float64{0.05, 0.1, 0.25, 0.5, 0.9, 1.5}).Draw(t, "delta")
	o.Central = rapid.Bool().Draw(t, "central")
	o.NSteps = rapid.IntRange(0, 3).Draw(t, "nsteps")
	o.NCPUs = rapid.IntRange(0, 4).Draw(t, "ncpus")
	return o
}

func checkSearch(t *rapid.T, o *cv.GridOptions, D *utils.DataBunch, nfold int, r gridResult) {
	what := fmt.Sprintf("%s nfold %d", gridString(o), nfold)
	if r.err != nil {
		t.Fatalf("%s: %v", what, r.err)
	}
	if r.opts == nil || len(r.accs) == 0 {
		t.Fatalf("%s: options %v, accuracies %v", what, r.opts, r.accs)
	}
	for i, a := range r.accs {
		if !(a >= 0 && a <= 100+1e-9) || i > 0 && !(a > r.accs[i-1]) {
			t.Fatalf("%s: accuracies %v are not increasing percentages", what, r.accs)
		}
	}
	if r.best != r.accs[len(r.accs)-1] {
		t.Fatalf("%s: best accuracy %v, the last of the accuracies is %v", what, r.best, r.accs)
	}
	if err := inSpace(r.opts, o); err != nil {
		t.Fatalf("%s: the options returned are %v: %s", what, err, optString(r.opts))
	}
	if err := onGrid(r.opts, o); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
	if r.opts.XGB != o.XGB || r.opts.EarlyStop != o.EarlyStop {
		t.Fatalf("%s: the returned options are of another kind: %s", what, optString(r.opts))
	}
	if err := bestFile(o.WriteBest, D, r.opts, r.best); err != nil {
		t.Fatalf("%s: %v", what, err)
	}
}

func search(t *rapid.T) (string, searchFunc) {
	if rapid.Bool().Draw(t, "hybrid") {
		return "hybrid", cv.HybridGradientGrid
	}
	return "gradient", cv.GradientGrid
}

// Data where the accuracy of options is known whatever the folds.
func TestC14_searchKnown(t *testing.T) {
	check(t, 700, func(t *rapid.T) {
		name, f := search(t)
		s := genSplitData(t)
		o := genSpace(t, len(s.D.Data))
		n := float64(len(s.D.Data))
		if name == "hybrid" { // a smaller outer grid
			o.Rounds[2] = max(o.Rounds[2], (o.Rounds[1]-o.Rounds[0]+1)/2)
			o.Lambda[2] = max(o.Lambda[2], 0.5)
		}
		switch rapid.IntRange(0, 4).Draw(t, "hard") {
		case 0:
			o.MaxDepth = [3]int{0, 2, rapid.IntRange(1, 2).Draw(t, "dstep")}
		case 1:
			o.MinChildWeight = [3]float64{2, n + 2, n}
		case 2:
			o.MaxDepth = [3]int{0, 0, 1}
		case 3:
			o.MinChildWeight = [3]float64{n, n, 1}
		}
		o.WriteBest = rapid.Bool().Draw(t, "write")
		keep, keepD := *o, copyBunch(s.D)
		seedLibrary(t)
		cleanModels()
		r := runSearch(t, f, s.D, s.nfold, o)
		checkSearch(t, o, s.D, s.nfold, r)
		cleanModels()
		if *o != keep || !sameBunch(s.D, keepD) {
			t.Fatalf("the search options or the data changed")
		}
		what := fmt.Sprintf("%s %s nfold %d", name, gridString(o), s.nfold)
		for _, a := range r.accs { // all folds have the same size
			if k := a * n / 100; math.Abs(k-math.Round(k)) > 1e-6 {
				t.Fatalf("%s: accuracy %v is not possible with %d folds of %v samples", what, a, s.nfold, n)
			}
		}
		full := !o.XGB || o.SubSample[0] == 1 && o.ColSubSample[0] == 1
		if full {
			// every evaluation is of one of the known kinds
			can := false
			for _, d := range intPoints(o.MaxDepth) {
				for _, w := range floatPoints(o.MinChildWeight) {
					can = can || d > 0 && w < n
				}
			}
			want := s.base
			if can {
				want = 100
			}
			if math.Abs(r.best-want) > 1e-9 {
				t.Fatalf("%s: best accuracy %v, options with %v are in the space", what, r.best, want)
			}
			if e := s.expected(pointOf(r.opts), o.XGB); math.Abs(e-r.best) > 1e-9 {
				t.Fatalf("%s: best accuracy %v, but the returned options give %v: %s", what, r.best, e, optString(r.opts))
			}
			class("all accuracies known")
		}
		class(name)
		classIf(r.best < 100, "best is not perfect")
		nontrivial("%s", what)
	})
}

func TestC14_searchOrdinary(t *testing.T) {
	check(t, 900, func(t *rapid.T) {
		name, f := search(t)
		D := cvData(t)
		o := genSpace(t, len(D.Data))
		if name == "hybrid" {
			o.Rounds[2] = max(o.Rounds[2], (o.Rounds[1]-o.Rounds[0]+1)/2)
			o.Lambda[2] = max(o.Lambda[2], 0.5)
		}
		o.WriteBest = rapid.Bool().Draw(t, "write")
		if o.WriteBest && seldom(t, 2, "many rounds") { // so that early stopping matters
			o.Rounds = [3]int{14, 16, 2}
			class("written after many rounds")
		}
		nfold := rapid.IntRange(2, 4).Draw(t, "nfold")
		seedLibrary(t)
		cleanModels()
		r := runSearch(t, f, D, nfold, o)
		checkSearch(t, o, D, nfold, r)
		cleanModels()
		class(name)
		classIf(len(r.accs) > 1, "several improvements")
		nontrivial("%s %s %s %d", name, gridString(o), dataString(D), nfold)
	})
}

func TestC14_searchErrors(t *testing.T) {
	check(t, 400, func(t *rapid.T) {
		name, f := search(t)
		s := genSplitData(t)
		o := genSpace(t, len(s.D.Data))
		n := rapid.IntRange(0, 3).Draw(t, "n")
		D := &utils.DataBunch{Data: s.D.Data[:n], Labels: s.D.Labels[:n]}
		seedLibrary(t)
		if r := runSearch(t, f, D, s.nfold, o); r.err == nil {
			t.Fatalf("%s search: no error with %d samples", name, n)
		}
		nontrivial("%s %s %d", name, gridString(o), n)
	})
}

// genStart draws options inside the search space.
func genStart(t *rapid.T, g *cv.GridOptions) *boo.Options {
	o := boo.DefaultXOptions()
	if !g.XGB {
		o = boo.DefaultGOptions()
	}
	f := func(name string, r [3]float64) float64 {
		switch rapid.IntRange(0, 3).Draw(t, name) {
		case 0:
			return r[0]
		case 1:
			return r[1]
		}
		return rapid.Float64Range(r[0], r[1]).Draw(t, name)
	}
	o.Rounds = rapid.IntRange(g.Rounds[0], g.Rounds[1]).Draw(t, "startrounds")
	o.LearningRate, o.Gamma, o.Lambda = f("startlr", g.LearningRate), f("startgamma", g.Gamma), f("startlambda", g.Lambda)
	o.SubSample, o.ColSubSample = f("startss", g.SubSample), f("startcss", g.ColSubSample)
	o.MaxDepth, o.MinChildWeight = g.MaxDepth[0], g.MinChildWeight[0]
	o.EarlyStop = g.EarlyStop
	o.MinSample = rapid.IntRange(1, 3).Draw(t, "startminsample")
	o.BaseScore = rapid.SampledFrom([]float64{0.5, 0, 0.25}).Draw(t, "startbase")
	o.TreeMethod = rapid.SampledFrom([]string{"exact", "", "other"}).Draw(t, "startmethod")
	return o
}

func onlySearched(before, after *boo.Options, params ...string) error {
	c := cloneOpts(after)
	for _, p := range params {
		switch p {
		case "Gamma":
			c.Gamma = before.Gamma
		case "Lambda":
			c.Lambda = before.Lambda
		case "SubSample":
			c.SubSample = before.SubSample
		case "ColSubSample":
			c.ColSubSample = before.ColSubSample
		case "LearningRate":
			c.LearningRate = before.LearningRate
		case "Rounds":
			c.Rounds = before.Rounds
		}
	}
	if !sameOpts(c, before) {
		return fmt.Errorf("something else than %v changed: %+v, now %+v", params, *before, *after)
	}
	return nil
}

var searched = []string{"Gamma", "Lambda", "SubSample", "ColSubSample", "LearningRate", "Rounds"}

func oneStep(t *rapid.T, D *utils.DataBunch) {
	g := genSpace(t, len(D.Data))
	o := genStart(t, g)
	nfold := rapid.IntRange(2, 4).Draw(t, "nfold")
	keep, keepG, keepD := cloneOpts(o), *g, copyBunch(D)
	param := ""
	if rapid.Bool().Draw(t, "single") {
		param = rapid.SampledFrom(searched).Draw(t, "param")
	}
	chan_ := param != "" || rapid.Bool().Draw(t, "channel")
	what := fmt.Sprintf("step %q from %s in %s, %d samples", param, optString(o), gridString(g), len(D.Data))
	noteCase("%s %s", what, dataString(D))
	var out chan *boo.Options
	if chan_ {
		out = make(chan *boo.Options, 8)
	}
	var ret *boo.Options
	curr := rapid.SampledFrom([]float64{0, 50, 100}).Draw(t, "curracc")
	dead := runToEnd(func() {
		if param != "" {
			cv.ParamaterGradStep(D, o, g, param, g.Step, g.DeltaFraction, curr, nfold, g.Central, out)
		} else {
			ret = cv.GradStep(o, g, D, g.Step, g.DeltaFraction, nfold, g.Central, out)
		}
	})
	if dead != "" {
		t.Fatalf("%s never ends:\n%s", what, dead)
	}
	if l := leaked(); l != "" {
		t.Fatalf("%s: left behind:\n%s", what, l)
	}
	var res []*boo.Options
	if chan_ {
		if len(out) != 1 {
			t.Fatalf("%s: %d results delivered", what, len(out))
		}
		res = append(res, <-out)
		if !sameOpts(o, keep) {
			t.Fatalf("%s: the options given changed to %s", what, optString(o))
		}
	}
	if param == "" && (!chan_ || len(D.Data) >= 4) {
		res = append(res, ret)
	}
	moved := false
	for _, r := range res {
		if r == nil {
			t.Fatalf("%s: no options", what)
		}
		if err := inSpace(r, g); err != nil {
			t.Fatalf("%s ended %v: %s", what, err, optString(r))
		}
		ps := searched
		if param != "" {
			ps = []string{param}
		}
		if err := onlySearched(keep, r, ps...); err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		moved = moved || !sameOpts(r, keep)
	}
	if len(res) == 2 && !sameOpts(res[0], res[1]) {
		t.Fatalf("%s: delivered %s, returned %s", what, optString(res[0]), optString(res[1]))
	}
	if *g != keepG || !sameBunch(D, keepD) {
		t.Fatalf("%s: the search options or the data changed", what)
	}
	classIf(moved, "moved")
	classIf(!moved, "stayed")
	classIf(g.Central, "central differences")
	classIf(param != "", "one parameter")
	nontrivial("%s %s", what, dataString(D))
}

func TestC14_step(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		D := cvData(t)
		seedLibrary(t)
		oneStep(t, D)
	})
}

// Too few samples: the evaluations fail, the step still ends with one result.
func TestC14_stepErrors(t *testing.T) {
	check(t, 1500, func(t *rapid.T) {
		n := rapid.IntRange(0, 3).Draw(t, "n")
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			D.Data = append(D.Data, []float64{float64(i)})
			D.Labels = append(D.Labels, i%2)
		}
		seedLibrary(t)
		oneStep(t, D)
	})
}

func TestRaceC14_step(t *testing.T) {
	check(t, 250, func(t *rapid.T) { oneStep(t, cvData(t)) })
}

func TestRaceC14_search(t *testing.T) {
	check(t, 60, func(t *rapid.T) {
		name, f := search(t)
		s := genSplitData(t)
		o := genSpace(t, len(s.D.Data))
		if name == "hybrid" {
			o.Rounds[2] = max(o.Rounds[2], (o.Rounds[1]-o.Rounds[0]+1)/2)
			o.Lambda[2] = max(o.Lambda[2], 0.5)
		}
		o.WriteBest = rapid.Bool().Draw(t, "write")
		cleanModels()
		r := runSearch(t, f, s.D, s.nfold, o)
		checkSearch(t, o, s.D, s.nfold, r)
		cleanModels()
		nontrivial("%s %s", name, gridString(o))
	})
}
