package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"pgregory.net/rapid"
)

// score is the accuracy of the options on the split data, unknown if it could
// depend on the folds or the draws.
func (s *splitData) score(o *boo.Options) float64 {
	if o.Rounds < 1 || o.MaxDepth < 1 || o.MinChildWeight > 3 || !(o.LearningRate > 0 && o.LearningRate <= 1) {
		return unknown
	}
	if !o.XGB {
		return 100
	}
	if o.LearningRate/(40+math.Abs(o.Lambda)) < 1e-12 { // too small a change of the scores
		return unknown
	}
	switch {
	case o.SubSample < 0.002:
		return 0
	case o.SubSample < 1-1e-12:
		return unknown
	case o.Gamma >= 512 || o.Lambda >= 1<<20 && o.Gamma > 0.01:
		return s.base
	case o.Gamma >= 0 && o.Gamma <= 0.5 && o.Lambda >= 0 && o.Lambda <= 2:
		return 100
	}
	return unknown
}

func paramValue(o *boo.Options, p string) float64 {
	switch p {
	case "Gamma":
		return o.Gamma
	case "Lambda":
		return o.Lambda
	case "SubSample":
		return o.SubSample
	case "ColSubSample":
		return o.ColSubSample
	case "LearningRate":
		return o.LearningRate
	}
	return float64(o.Rounds)
}

func withParam(o *boo.Options, p string, v float64) *boo.Options {
	c := cloneOpts(o)
	switch p {
	case "Gamma":
		c.Gamma = v
	case "Lambda":
		c.Lambda = v
	case "SubSample":
		c.SubSample = v
	case "ColSubSample":
		c.ColSubSample = v
	case "LearningRate":
		c.LearningRate = v
	case "Rounds":
		c.Rounds = int(v)
	}
	return c
}

func paramRange(g *cv.GridOptions, p string) [3]float64 {
	switch p {
	case "Gamma":
		return g.Gamma
	case "Lambda":
		return g.Lambda
	case "SubSample":
		return g.SubSample
	case "ColSubSample":
		return g.ColSubSample
	case "LearningRate":
		return g.LearningRate
	}
	return [3]float64{float64(g.Rounds[0]), float64(g.Rounds[1]), float64(g.Rounds[2])}
}

// place is a value up to the rounding of the accuracies behind it.
type place struct{ v, tol float64 }

// afterStep gives the values a parameter may have after a gradient step (more
// than one where rounding could decide), nil if the accuracies are not known.
func afterStep(score func(*boo.Options) float64, o *boo.Options, g *cv.GridOptions, p string, curr float64) (may []place, der float64) {
	x, fd := paramValue(o, p), g.DeltaFraction
	h := x * fd
	if !(h > 0) {
		return []place{{x, 0}}, 0
	}
	d := h
	if p == "Rounds" {
		d = math.Trunc(h)
		if math.Abs(h-math.Round(h)) < 1e-9*(1+h) && h != math.Round(h) {
			return nil, 0
		}
	}
	if g.Central {
		if lo := withParam(o, p, x-d); lo.Check() != nil {
			return []place{{x, 0}}, 0
		}
		a, b := score(withParam(o, p, x+d)), score(withParam(o, p, x-d))
		if a == unknown || b == unknown {
			return nil, 0
		}
		der = (a - b) / (2 * h)
	} else {
		a := score(withParam(o, p, x+d))
		if a == unknown || curr == unknown {
			return nil, 0
		}
		der = (a - curr) / h
	}
	r := paramRange(g, p)
	for st := g.Step; st > 0.1*g.Step; st *= 0.8 {
		mv := der * r[2] * st
		// the mean over the folds is exact to a few ulps of 100
		slack := 1e-11 / h * r[2] * st
		tol := 1e-9*(math.Abs(r[0])+math.Abs(r[1])+math.Abs(x)+math.Abs(mv)) + slack
		ys := []float64{x + mv}
		if p == "Rounds" {
			ys = []float64{x + math.Trunc(mv-tol)}
			if y := x + math.Trunc(mv+tol); y != ys[0] {
				ys = append(ys, y)
			}
			tol = 0
		}
		sure := true
		for _, y := range ys {
			in := y >= r[0] && y <= r[1]
			near := p != "Rounds" && (math.Abs(y-r[0]) < tol || math.Abs(y-r[1]) < tol)
			if in || near {
				may = append(may, place{y, tol})
			}
			sure = sure && in && !near
		}
		if sure {
			return may, der
		}
	}
	return append(may, place{x, 0}), der
}

func oneOf(v float64, may []place) bool {
	for _, m := range may {
		if math.Abs(v-m.v) <= 1e-9*(math.Abs(m.v)+math.Abs(v))+m.tol {
			return true
		}
	}
	return false
}

// genSlope draws a search space and a start in it; in most of them one of the
// parameters has a known slope.
func genSlope(t *rapid.T) (*cv.GridOptions, *boo.Options, string) {
	g := &cv.GridOptions{XGB: rapid.IntRange(0, 5).Draw(t, "plain") != 5, EarlyStop: rapid.SampledFrom([]int{0, 3, 10}).Draw(t, "early")}
	g.Central = rapid.Bool().Draw(t, "central")
	g.MaxDepth = [3]int{2, 2, 1}
	cw := float64(rapid.IntRange(1, 2).Draw(t, "cw"))
	g.MinChildWeight = [3]float64{cw, cw, 1}
	lo := rapid.IntRange(1, 3).Draw(t, "roundslo")
	g.Rounds = [3]int{lo, lo + rapid.IntRange(0, 6).Draw(t, "roundshi"), rapid.IntRange(1, 50).Draw(t, "roundsstep")}
	f := func(name string, v ...[3]float64) [3]float64 {
		r := rapid.SampledFrom(v).Draw(t, name)
		r[2] *= rapid.SampledFrom([]float64{1, 0.1, 0.01, 0.001, 4}).Draw(t, name+"scale") * rapid.Float64Range(0.5, 1).Draw(t, name+"step")
		return r
	}
	g.LearningRate = f("lr", [3]float64{0.125, 0.5, 0.05}, [3]float64{0.001, 0.01, 0.001}, [3]float64{0.25, 0.25, 1})
	g.Gamma = f("gamma", [3]float64{0, 0.25, 0.05}, [3]float64{0.125, 0.125, 1}, [3]float64{0, 0.25, 0.01})
	g.Lambda = f("lambda", [3]float64{0.25, 1, 0.1}, [3]float64{0.5, 0.5, 1}, [3]float64{0, 1, 0.02})
	g.SubSample = f("ss", [3]float64{1, 1, 0.5}, [3]float64{0.5, 1, 0.1})
	g.ColSubSample = f("css", [3]float64{1, 1, 0.5}, [3]float64{0.5, 1, 0.1}, [3]float64{0.1, 1, 0.01})
	g.DeltaFraction = rapid.SampledFrom([]float64{0.05, 0.1, 0.5, 0.9, 1.5}).Draw(t, "delta")
	g.Step = rapid.SampledFrom([]float64{0.1, 0.02, 0.5, 1, 3}).Draw(t, "step")
	g.Step *= rapid.Float64Range(0.5, 1).Draw(t, "stepf")
	if rapid.IntRange(0, 19).Draw(t, "nostep") == 19 {
		g.Step = 0
	}
	o := boo.DefaultXOptions()
	if !g.XGB {
		o = boo.DefaultGOptions()
	}
	u := func(name string, r [3]float64) float64 {
		if rapid.IntRange(0, 4).Draw(t, name+"end") == 0 {
			return r[rapid.IntRange(0, 1).Draw(t, name+"which")]
		}
		return rapid.Float64Range(r[0], r[1]).Draw(t, name+"at")
	}
	o.Rounds = rapid.IntRange(g.Rounds[0], g.Rounds[1]).Draw(t, "atrounds")
	o.LearningRate, o.Gamma, o.Lambda, o.ColSubSample = u("atlr", g.LearningRate), u("atgamma", g.Gamma), u("atlambda", g.Lambda), u("atcss", g.ColSubSample)
	o.SubSample = g.SubSample[1]
	o.MaxDepth, o.MinChildWeight, o.EarlyStop = 2, cw, g.EarlyStop
	steep := "flat"
	if g.XGB {
		steep = rapid.SampledFrom([]string{"flat", "Gamma", "Lambda", "SubSample", "Gamma", "Lambda"}).Draw(t, "steep")
	}
	hi := rapid.Float64Range(1, 3).Draw(t, "hi")
	sc := rapid.SampledFrom([]float64{1, 0.25, 4, 32, 0.01}).Draw(t, "steepstep") // how far a step leads
	if g.Central {
		switch steep { // from a bad value, halfway between a good one and a worse one
		case "Gamma":
			v := 600 * hi
			g.Gamma = [3]float64{0, 1300 * hi, 0}
			o.Gamma = v
			g.DeltaFraction = 1 - rapid.Float64Range(0.0001, 0.0002).Draw(t, "near")
			g.Gamma[2] = sc * v * v / 10
		case "Lambda":
			v := hi * (1 << 20)
			g.Gamma, o.Gamma = [3]float64{0.125, 0.125, 1}, 0.125
			g.Lambda = [3]float64{0, 3 * v, 0}
			o.Lambda = v
			g.DeltaFraction = 1 - rapid.Float64Range(1e-7, 5e-7).Draw(t, "near")
			g.Lambda[2] = sc * v * v / 10
		case "SubSample":
			g.SubSample = [3]float64{0.001, 1, 0}
			o.SubSample = rapid.Float64Range(0.5005, 0.7).Draw(t, "half")
			g.DeltaFraction = 1 - 0.001/o.SubSample
			g.SubSample[2] = sc / 30
		}
	} else {
		switch steep { // from a good value to a bad one, or from a bad one to a good one
		case "Gamma":
			g.Gamma = [3]float64{0, 2000, 0}
			o.Gamma = rapid.Float64Range(0.1, 0.5).Draw(t, "good")
			g.DeltaFraction = 600 / o.Gamma * hi
			g.Gamma[2] = sc * 50 * hi
		case "Lambda":
			g.Lambda = [3]float64{0, 1 << 23, 0}
			g.Gamma, o.Gamma = [3]float64{0.125, 0.125, 1}, 0.125
			o.Lambda = rapid.Float64Range(0.1, 1).Draw(t, "good")
			g.DeltaFraction = hi * (1 << 20) / o.Lambda
			g.Lambda[2] = sc * hi * (1 << 18)
		case "SubSample":
			g.SubSample = [3]float64{0.001, 1, 0}
			o.SubSample = 0.001
			g.DeltaFraction = 999 * hi
			g.SubSample[2] = sc / 30
		}
		if steep != "flat" {
			o.Rounds, g.Rounds[0] = 1, 1 // the probe has thousands of them
			g.Rounds[1] = max(g.Rounds[1], 1)
		}
	}
	return g, o, steep
}

func slopeString(g *cv.GridOptions, o *boo.Options, s *splitData) string {
	return fmt.Sprintf("from %s in %s, %d folds of %d samples", optString(o), gridString(g), s.nfold, len(s.D.Data))
}

// One gradient step for all or one of the parameters, where the accuracies the
// slopes come from are known.
func TestC24_step(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		s := genSplitData(t)
		g, o, steep := genSlope(t)
		params := searched
		single := g.DeltaFraction > 10 || rapid.Bool().Draw(t, "single")
		curr := s.score(o)
		var got *boo.Options
		what := slopeString(g, o, s)
		keep := cloneOpts(o)
		seedLibrary(t)
		if single {
			ps := append([]string{steep, steep}, searched...)
			if steep == "flat" && !g.Central {
				ps = []string{"Rounds", "LearningRate", "ColSubSample", "Lambda", "Gamma", "Rounds"}
			}
			p := rapid.SampledFrom(ps).Draw(t, "param")
			if p == "flat" || g.DeltaFraction > 10 && p == "Rounds" {
				p = "ColSubSample"
			}
			params = []string{p}
			if !g.Central && (steep == "flat" || rapid.Bool().Draw(t, "othercurr")) {
				curr = rapid.SampledFrom([]float64{99, 50, 98, 99.9, 90, 0, 100, 12.5}).Draw(t, "curr")
			} else if curr == unknown {
				curr = 50
			}
			what = fmt.Sprintf("%s, accuracy %v, %s", p, curr, what)
			noteCase("%s", what)
			out := make(chan *boo.Options, 8)
			if dead := runToEnd(func() {
				cv.ParamaterGradStep(s.D, o, g, p, g.Step, g.DeltaFraction, curr, s.nfold, g.Central, out)
			}); dead != "" {
				t.Fatalf("%s never ends:\n%s", what, dead)
			}
			if len(out) != 1 {
				t.Fatalf("%s: %d results", what, len(out))
			}
			got = <-out
		} else {
			noteCase("%s", what)
			if dead := runToEnd(func() { got = cv.GradStep(o, g, s.D, g.Step, g.DeltaFraction, s.nfold, g.Central, nil) }); dead != "" {
				t.Fatalf("%s never ends:\n%s", what, dead)
			}
		}
		any := false
		for _, p := range params {
			may, der := afterStep(s.score, keep, g, p, curr)
			if may == nil {
				continue
			}
			any = true
			v := paramValue(got, p)
			if !oneOf(v, may) {
				t.Fatalf("%s: the slope along %s is %v, the step ended at %v instead of %v", what, p, der, v, may)
			}
			class("slope known")
			classIf(der > 0 && v > paramValue(keep, p), "went up: "+p)
			classIf(der < 0 && v < paramValue(keep, p), "went down: "+p)
			classIf(der != 0 && v == paramValue(keep, p), "no room: "+p)
			classIf(der == 0, "flat: "+p)
		}
		classIf(g.Central, "central differences")
		if any {
			nontrivial("%s %v", what, params)
		}
	})
}

// Whole searches where all accuracies are known. Without steps they answer
// with the middle of the ranges, with one step with the place it leads to if
// it is better.
func TestC24_search(t *testing.T) {
	check(t, 1000, func(t *rapid.T) {
		name, f := search(t)
		s := genSplitData(t)
		g, o, steep := genSlope(t)
		if g.DeltaFraction > 10 {
			t.Skip("only for single steps")
		}
		// the start becomes the middle
		around := func(x float64, r [3]float64) [3]float64 {
			w := max(0, min(x-r[0], r[1]-x))
			return [3]float64{x - w, x + w, r[2]}
		}
		w := max(0, min(o.Rounds-g.Rounds[0], g.Rounds[1]-o.Rounds))
		g.Rounds[0], g.Rounds[1] = o.Rounds-w, o.Rounds+w
		g.LearningRate, g.Gamma, g.Lambda = around(o.LearningRate, g.LearningRate), around(o.Gamma, g.Gamma), around(o.Lambda, g.Lambda)
		g.SubSample, g.ColSubSample = around(o.SubSample, g.SubSample), around(o.ColSubSample, g.ColSubSample)
		g.NSteps = min(1, rapid.IntRange(0, 3).Draw(t, "nsteps"))
		if (steep == "Gamma" || steep == "Lambda") && g.Central && g.Step > 0 && rapid.IntRange(0, 3).Draw(t, "aim") > 0 {
			// the step leads from the middle to a good value
			x := paramValue(o, steep)
			r2 := (x - rapid.Float64Range(0.1, 0.5).Draw(t, "target")) * 2 * x * g.DeltaFraction / (100 - s.base) / g.Step
			if steep == "Gamma" {
				g.Gamma[2] = r2
			} else {
				g.Lambda[2] = r2
			}
		}
		if name == "hybrid" { // walks over the rounds and lambda
			o.Rounds, o.Lambda = g.Rounds[0], g.Lambda[0]
			g.Rounds[2] = max(g.Rounds[2], g.Rounds[1]-g.Rounds[0]+1)
			g.Lambda[2] = max(g.Lambda[2], g.Lambda[1]-g.Lambda[0]+1)
		}
		start := boo.DefaultXOptions()
		if !g.XGB {
			start = boo.DefaultGOptions()
		}
		start.Rounds, start.LearningRate, start.Gamma, start.Lambda, start.SubSample, start.ColSubSample = o.Rounds, (g.LearningRate[0]+g.LearningRate[1])/2, (g.Gamma[0]+g.Gamma[1])/2, o.Lambda, (g.SubSample[0]+g.SubSample[1])/2, (g.ColSubSample[0]+g.ColSubSample[1])/2
		start.MaxDepth, start.MinChildWeight, start.EarlyStop = 2, g.MinChildWeight[0], g.EarlyStop
		what := fmt.Sprintf("%s %s nfold %d, %d samples", name, gridString(g), s.nfold, len(s.D.Data))
		seedLibrary(t)
		r := runSearch(t, f, s.D, s.nfold, g)
		checkSearch(t, g, s.D, s.nfold, r)
		a0 := s.score(start)
		same := func(x *boo.Options, may map[string][]place) error {
			c := cloneOpts(x)
			for _, p := range searched {
				if !oneOf(paramValue(x, p), may[p]) {
					return fmt.Errorf("%s is %v, not %v", p, paramValue(x, p), may[p])
				}
				c = withParam(c, p, paramValue(start, p))
			}
			if !sameOpts(c, start) {
				return fmt.Errorf("other settings differ from %s", optString(start))
			}
			return nil
		}
		first := map[string][]place{}
		for _, p := range searched {
			first[p] = []place{{paramValue(start, p), 1e-9}}
		}
		stayed := same(r.opts, first)
		if g.NSteps == 0 {
			if len(r.accs) != 1 || stayed != nil {
				t.Fatalf("%s: a search without steps ended away from the middle of the ranges: %v: %s, accuracies %v", what, stayed, optString(r.opts), r.accs)
			}
			if a0 != unknown && math.Abs(a0-r.best) > 1e-9 {
				t.Fatalf("%s: the middle of the ranges has accuracy %v, got %v", what, a0, r.best)
			}
			class("without steps")
			nontrivial("%s", what)
			return
		}
		then := map[string][]place{}
		for _, p := range searched {
			may, _ := afterStep(s.score, start, g, p, a0)
			if may == nil {
				return // not known
			}
			then[p] = may
		}
		if moved := same(r.opts, then); moved != nil && stayed != nil {
			t.Fatalf("%s: the options returned are neither the middle of the ranges (%v) nor where the step leads (%v): %s", what, stayed, moved, optString(r.opts))
		}
		if a0 != unknown && math.Abs(r.accs[0]-a0) > 1e-9 {
			t.Fatalf("%s: the first accuracy is %v, the middle of the ranges has %v", what, r.accs[0], a0)
		}
		// if the target is unique and better, it is the answer
		to := cloneOpts(start)
		for _, p := range searched {
			for _, m := range then[p][1:] {
				if math.Abs(m.v-then[p][0].v) > 1e-6 {
					return
				}
			}
			to = withParam(to, p, then[p][0].v)
		}
		a1 := s.score(to)
		if a0 != unknown && a1 != unknown {
			if math.Abs(r.best-max(a0, a1)) > 1e-9 {
				t.Fatalf("%s: the middle has accuracy %v, the step leads to %v, the search returned %v", what, a0, a1, r.best)
			}
			classIf(a1 > a0, "the step is an improvement")
			classIf(a1 < a0, "the step is not an improvement")
		}
		class("one step, " + steep)
		nontrivial("%s", what)
	})
}
