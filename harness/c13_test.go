package boocheck

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// splitData is a data set where what a grid point gives is known beforehand,
// whatever the folds: two far-apart classes, the first one twice as large as
// the second, every fold of the same size, and two columns that say the same.
type splitData struct {
	D     *utils.DataBunch
	nfold int
	base  float64 // accuracy of always answering the larger class
}

func genSplitData(t *rapid.T) *splitData {
	fs := rapid.SampledFrom([][2]int{{5, 5}, {6, 3}, {6, 4}, {7, 3}, {4, 9}, {8, 3}}).Draw(t, "folds")
	nfold, per := fs[0], fs[1]
	n := nfold * per
	// at least 4 of the smaller class are in every training set, and fewer of
	// them than of the larger class
	small := per + 4
	names := genLabelNames(t, 2)
	s := &splitData{D: &utils.DataBunch{}, nfold: nfold, base: 100 * float64(n-small) / float64(n)}
	for i := 0; i < n; i++ {
		x := float64(i%5) / 4
		l := names[0]
		if i >= n-small {
			x += 10
			l = names[1]
		}
		s.D.Data = append(s.D.Data, []float64{x, -2 * x})
		s.D.Labels = append(s.D.Labels, l)
	}
	usedBunch(t, s.D)
	return s
}

type gridPoint struct {
	rounds, depth             int
	cw, css, lr, lam, gam, ss float64
}

func floatPoints(r [3]float64) (p []float64) {
	for x := r[0]; x <= r[1]; x += r[2] {
		p = append(p, x)
	}
	return
}

func intPoints(r [3]int) (p []int) {
	for x := r[0]; x <= r[1]; x += r[2] {
		p = append(p, x)
	}
	return
}

func gridPoints(o *cv.GridOptions) (ps []gridPoint) {
	for _, rounds := range intPoints(o.Rounds) {
		for _, depth := range intPoints(o.MaxDepth) {
			for _, cw := range floatPoints(o.MinChildWeight) {
				for _, css := range floatPoints(o.ColSubSample) {
					for _, lr := range floatPoints(o.LearningRate) {
						for _, lam := range floatPoints(o.Lambda) {
							for _, gam := range floatPoints(o.Gamma) {
								for _, ss := range floatPoints(o.SubSample) {
									ps = append(ps, gridPoint{rounds, depth, cw, css, lr, lam, gam, ss})
								}
							}
						}
					}
				}
			}
		}
	}
	return
}

func pointOf(o *boo.Options) gridPoint {
	return gridPoint{o.Rounds, o.MaxDepth, o.MinChildWeight, o.ColSubSample, o.LearningRate, o.Lambda, o.Gamma, o.SubSample}
}

const unknown = -1

// expected accuracy of a point on splitData; unknown if it depends on the folds.
func (s *splitData) expected(p gridPoint, xgb bool) float64 {
	switch {
	case p.rounds == 0, xgb && p.ss < 0.01:
		return 0
	case p.lr == 0:
		return unknown
	case p.depth == 0, p.cw >= float64(len(s.D.Data)), xgb && (p.gam >= 512 || p.lam >= 1<<20):
		return s.base
	}
	return 100
}

// genSplitGrid draws a grid of dyadic ranges; the points of a range are good or
// bad ones for splitData.
func genSplitGrid(t *rapid.T, s *splitData) *cv.GridOptions {
	n := float64(len(s.D.Data))
	pick := func(name string, rs ...[3]float64) [3]float64 {
		return rs[rapid.IntRange(0, len(rs)-1).Draw(t, name)]
	}
	o := &cv.GridOptions{XGB: rapid.Bool().Draw(t, "xgb"), EarlyStop: rapid.SampledFrom([]int{0, 0, 4, 10}).Draw(t, "early"), Verbose: seldom(t, 3, "verbose")}
	r := pick("rounds", [3]float64{1, 1, 1}, [3]float64{0, 1, 1}, [3]float64{1, 3, 1}, [3]float64{0, 4, 2}, [3]float64{0, 3, 3}, [3]float64{2, 3, 5}, [3]float64{0, 2, 1}, [3]float64{20, 20, 1})
	o.Rounds = [3]int{int(r[0]), int(r[1]), int(r[2])}
	d := pick("depth", [3]float64{2, 2, 1}, [3]float64{0, 1, 1}, [3]float64{0, 2, 1}, [3]float64{0, 3, 3}, [3]float64{1, 3, 1}, [3]float64{0, 2, 2}, [3]float64{2, 4, 7})
	o.MaxDepth = [3]int{int(d[0]), int(d[1]), int(d[2])}
	o.MinChildWeight = pick("cw", [3]float64{1, 1, 1}, [3]float64{1, 2, 1}, [3]float64{2, 2.5, 0.5}, [3]float64{1, 1 + 2*n, n}, [3]float64{2, n + 2, n}, [3]float64{3, 4, 8})
	o.LearningRate = pick("lr", [3]float64{0.25, 0.25, 1}, [3]float64{0, 0.5, 0.5}, [3]float64{0.25, 0.5, 0.25}, [3]float64{0, 0.25, 0.125}, [3]float64{0.5, 0.5, 0.125}, [3]float64{0.125, 0.25, 0.0625})
	o.Lambda = pick("lambda", [3]float64{1, 1, 1}, [3]float64{0.5, 1, 0.5}, [3]float64{1, 1 + 1<<20, 1 << 20}, [3]float64{0.25, 1, 2}, [3]float64{0.5, 0.5 + 1<<20, 1 << 20})
	o.Gamma = pick("gamma", [3]float64{0.25, 0.25, 1}, [3]float64{0.25, 512.25, 512}, [3]float64{0.125, 0.25, 0.125}, [3]float64{0.25, 1024.25, 512}, [3]float64{0.25, 0.5, 0.5})
	o.SubSample = pick("ss", [3]float64{1, 1, 1}, [3]float64{1.0 / 1024, 1, 1023.0 / 1024}, [3]float64{1, 1, 2})
	o.ColSubSample = pick("css", [3]float64{1, 1, 1}, [3]float64{0.5, 1, 0.5}, [3]float64{0.25, 1, 0.25}, [3]float64{0.75, 1, 1})
	two := func(name string, good, bad float64) [3]float64 {
		switch {
		case !rapid.Bool().Draw(t, name):
			return [3]float64{good, good, 1}
		case bad > good:
			return [3]float64{good, bad, bad - good}
		}
		return [3]float64{bad, good, good - bad}
	}
	ints := func(r [3]float64) [3]int { return [3]int{int(r[0]), int(r[1]), int(r[2])} }
	switch rapid.IntRange(0, 7).Draw(t, "style") {
	case 3, 4, 5, 6: // a single point of the grid can learn anything
		o.Rounds = ints(two("rounds2", 2, 0))
		o.MaxDepth = ints(two("depth2", 2, 0))
		o.MinChildWeight = two("cw2", 2, n+1)
		o.LearningRate = two("lr2", 0.5, 0)
		o.ColSubSample = [3]float64{0.75, 0.75, 1}
		o.Lambda = two("lambda2", 0.5, 1<<20)
		o.Gamma = two("gamma2", 0.25, 1024)
		o.SubSample = two("ss2", 1, 1.0/1024)
	case 7: // none can
		switch rapid.IntRange(0, 4).Draw(t, "doom") {
		case 0:
			o.Rounds = [3]int{0, 0, 1}
		case 1:
			o.MaxDepth = [3]int{0, 0, 1}
		case 2:
			o.MinChildWeight = [3]float64{n, 2 * n, n}
		case 3:
			o.Gamma = [3]float64{512, 1024, 512}
		default:
			o.SubSample = [3]float64{1.0 / 1024, 1.0 / 1024, 1}
		}
	}
	o.NCPUs = rapid.SampledFrom([]int{-3, 0, 1, 2, 2, 3, 3, 4, 5, 7, 8, 16, 100}).Draw(t, "ncpus")
	return o
}

func gridString(o *cv.GridOptions) string { return fmt.Sprintf("%+v", *o) }

type gridResult struct {
	best float64
	accs []float64
	opts *boo.Options
	err  error
}

type searchFunc func(*utils.DataBunch, int, ...*cv.GridOptions) (float64, []float64, *boo.Options, error)

func runSearch(t *rapid.T, f searchFunc, D *utils.DataBunch, nfold int, o *cv.GridOptions) gridResult {
	usedSearch(t, f, D, nfold, o)
	var r gridResult
	what := fmt.Sprintf("%s nfold %d, %s", gridString(o), nfold, dataString(D))
	noteCase("%s", what)
	if dead := runToEnd(func() { r.best, r.accs, r.opts, r.err = f(D, nfold, o) }); dead != "" {
		t.Fatalf("the search never ends: %s\n%s", what, dead)
	}
	if l := leaked(); l != "" {
		t.Fatalf("left behind after the search: %s\n%s", what, l)
	}
	return r
}

// usedSearch sometimes lets the search run before, in a space of one point and
// with other labels.
func usedSearch(t *rapid.T, f searchFunc, D *utils.DataBunch, nfold int, o *cv.GridOptions) {
	if len(D.Data) > 60 || !seldom(t, 3, "searched before") {
		return
	}
	was := *o
	l := append([]int(nil), D.Labels...)
	for i := range l {
		D.Labels[i] = l[(i+1)%len(l)]
	}
	o.Rounds[1], o.MaxDepth[1] = o.Rounds[0], o.MaxDepth[0]
	for _, p := range []*[3]float64{&o.LearningRate, &o.Gamma, &o.Lambda, &o.SubSample, &o.ColSubSample, &o.MinChildWeight} {
		p[1] = p[0]
	}
	o.WriteBest, o.Verbose, o.NSteps = false, false, min(o.NSteps, 1)
	_ = runToEnd(func() { _, _, _, _ = f(D, nfold, o) })
	*o = was
	copy(D.Labels, l)
	class("searched before with other content")
}

func cleanModels() {
	fs, _ := filepath.Glob("xgbmodel*.json")
	for _, f := range fs {
		_ = os.Remove(f)
	}
}

// bestFile looks, if one is wanted, for a readable model file that was trained with the returned
// options on the data, and reports on what is there.
func bestFile(wanted bool, D *utils.DataBunch, o *boo.Options, best float64) error {
	fs, _ := filepath.Glob("xgbmodel*.json")
	if !wanted {
		if len(fs) > 0 {
			return fmt.Errorf("%v was written, which was not requested", fs)
		}
		return nil
	}
	if len(fs) == 0 {
		return fmt.Errorf("no model was written")
	}
	seen := ""
	for _, name := range fs {
		b, err := os.ReadFile(name)
		if err != nil {
			return err
		}
		ref, err := parseModel(string(b))
		if err != nil {
			return fmt.Errorf("%s is not a complete model: %v", name, err)
		}
		f, err := os.Open(name)
		if err != nil {
			return err
		}
		m, err := boo.UnJSONMultiClass(bufio.NewReader(f))
		_ = f.Close()
		if err != nil {
			return fmt.Errorf("%s cannot be read: %v", name, err)
		}
		if !equalInts(m.ClassLabels(), distinct(D.Labels)) {
			return fmt.Errorf("%s has labels %v", name, m.ClassLabels())
		}
		depth, rounds := 0, len(ref.rounds)
		xgb := o.XGB
		for _, r := range ref.rounds {
			for _, n := range r {
				depth = max(depth, n.depth())
				xgb = n.xgb
			}
		}
		seen += fmt.Sprintf("%s: learning rate %v, base score %v, %d rounds, depth %d, xgb %v\n", name, ref.LearningRate, ref.BaseScore, rounds, depth, xgb)
		if name != fmt.Sprintf("xgbmodel%d.json", int(best)) && len(fs) > 1 {
			continue
		}
		if !o.XGB || o.SubSample >= 1 && o.ColSubSample >= 1 {
			// training draws nothing: the file can be made again
			again, err := modelText(boo.NewMultiClass(D, cloneOpts(o)))
			if err != nil {
				return err
			}
			ref2, err := parseModel(again)
			if err != nil {
				return err
			}
			if err := sameRefModel(ref, ref2); err == nil {
				return nil
			}
			continue
		}
		if ref.LearningRate == o.LearningRate && ref.BaseScore == o.BaseScore && rounds <= o.Rounds && depth <= o.MaxDepth && xgb == o.XGB {
			return nil
		}
	}
	return fmt.Errorf("no written model was made with the best options %s:\n%s", optString(o), seen)
}

func checkGrid(t *rapid.T, s *splitData, o *cv.GridOptions, r gridResult) {
	what := fmt.Sprintf("%s nfold %d", gridString(o), s.nfold)
	if r.err != nil {
		t.Fatalf("%s: %v", what, r.err)
	}
	points := gridPoints(o)
	if len(r.accs) != len(points) {
		t.Fatalf("%s: %d accuracies for %d grid points", what, len(r.accs), len(points))
	}
	if r.opts == nil {
		t.Fatalf("%s: no options returned", what)
	}
	got := append([]float64(nil), r.accs...)
	sort.Float64s(got)
	if len(got) > 0 && r.best != got[len(got)-1] {
		t.Fatalf("%s: best accuracy %v, the largest is %v", what, r.best, got[len(got)-1])
	}
	// every point's known accuracy must be there, once per point
	free := 0
	var want []float64
	for _, p := range points {
		if e := s.expected(p, o.XGB); e == unknown {
			free++
		} else {
			want = append(want, e)
		}
	}
	rest := got
	for _, e := range want {
		hit := -1
		for i, a := range rest {
			if math.Abs(a-e) < 1e-9 {
				hit = i
				break
			}
		}
		if hit < 0 {
			sort.Float64s(want)
			t.Fatalf("%s: accuracies %v, the grid points give %v and %d unknown ones", what, got, want, free)
		}
		rest = append(append([]float64(nil), rest[:hit]...), rest[hit+1:]...)
	}
	in := false
	for _, p := range points {
		in = in || p == pointOf(r.opts)
	}
	if !in {
		t.Fatalf("%s: the returned options are not a point of the grid: %s", what, optString(r.opts))
	}
	if e := s.expected(pointOf(r.opts), o.XGB); e != unknown && math.Abs(e-r.best) > 1e-9 {
		t.Fatalf("%s: best accuracy %v, but the returned options give %v: %s", what, r.best, e, optString(r.opts))
	}
	if r.opts.XGB != o.XGB || r.opts.EarlyStop != o.EarlyStop {
		t.Fatalf("%s: the returned options are of another kind: %s", what, optString(r.opts))
	}
}

func TestC13_grid(t *testing.T) {
	check(t, 2200, func(t *rapid.T) {
		s := genSplitData(t)
		o := genSplitGrid(t, s)
		points := gridPoints(o)
		if len(points) > 150 {
			return
		}
		o.WriteBest = rapid.IntRange(0, 3).Draw(t, "write") == 0
		keep, keepD := *o, copyBunch(s.D)
		seedLibrary(t)
		cleanModels()
		r := runSearch(t, cv.Grid, s.D, s.nfold, o)
		checkGrid(t, s, o, r)
		if err := bestFile(o.WriteBest, s.D, r.opts, r.best); err != nil {
			t.Fatalf("%s: %v", gridString(o), err)
		}
		classIf(o.WriteBest, "model written")
		cleanModels()
		if *o != keep || !sameBunch(s.D, keepD) {
			t.Fatalf("the grid options or the data changed")
		}
		n100 := 0
		for _, p := range points {
			if s.expected(p, o.XGB) == 100 {
				n100++
			}
		}
		classIf(n100 == 1 && len(points) > 1, "unique winner")
		classIf(n100 == 0, "no point splits")
		cp := max(o.NCPUs, 1)
		classIf(len(points)%cp != 0 && len(points) > cp, "incomplete last batch")
		classIf(len(points) < cp, "more workers than points")
		classIf(r.best == 0, "nothing learned")
		if len(points) > 1 {
			nontrivial("%s %d %d", gridString(o), s.nfold, len(s.D.Data))
		}
	})
}

// Ordinary data: the accuracies cannot be foretold, the rest can.
func TestC13_ordinary(t *testing.T) {
	check(t, 2500, func(t *rapid.T) {
		D := cvData(t)
		o := &cv.GridOptions{XGB: rapid.Bool().Draw(t, "xgb"), EarlyStop: rapid.IntRange(0, 3).Draw(t, "early"), Verbose: seldom(t, 3, "verbose"), Rounds: [3]int{1, rapid.IntRange(1, 3).Draw(t, "r"), 1},
			MaxDepth: [3]int{1, rapid.IntRange(1, 2).Draw(t, "d"), 1}, LearningRate: [3]float64{0.25, rapid.SampledFrom([]float64{0.25, 0.5}).Draw(t, "lr"), 0.25},
			Gamma: [3]float64{0, 0.25, 0.25}, Lambda: [3]float64{1, 1, 1}, SubSample: [3]float64{0.75, rapid.SampledFrom([]float64{0.75, 1}).Draw(t, "ss"), 0.25},
			ColSubSample: [3]float64{1, 1, 1}, MinChildWeight: [3]float64{1, 2, 1}, NCPUs: rapid.IntRange(0, 9).Draw(t, "ncpus")}
		o.WriteBest = rapid.IntRange(0, 3).Draw(t, "write") == 0
		if o.WriteBest && rapid.Bool().Draw(t, "many rounds") { // so that early stopping matters
			o.Rounds = [3]int{16, 16, 1}
			if rapid.Bool().Draw(t, "full") {
				o.SubSample = [3]float64{1, 1, 1}
			}
		}
		nfold := rapid.IntRange(2, 5).Draw(t, "nfold")
		seedLibrary(t)
		cleanModels()
		r := runSearch(t, cv.Grid, D, nfold, o)
		what := gridString(o)
		if r.err != nil {
			t.Fatalf("%s: %v", what, r.err)
		}
		points := gridPoints(o)
		if len(r.accs) != len(points) || r.opts == nil {
			t.Fatalf("%s: %d accuracies for %d points, options %v", what, len(r.accs), len(points), r.opts)
		}
		mx := r.accs[0]
		for _, a := range r.accs {
			if !(a >= 0 && a <= 100+1e-9) {
				t.Fatalf("%s: accuracy %v", what, a)
			}
			mx = max(mx, a)
		}
		if r.best != mx {
			t.Fatalf("%s: best accuracy %v, the largest is %v", what, r.best, mx)
		}
		in := false
		for _, p := range points {
			in = in || p == pointOf(r.opts)
		}
		if !in {
			t.Fatalf("%s: the returned options are not a point of the grid: %s", what, optString(r.opts))
		}
		if err := bestFile(o.WriteBest, D, r.opts, r.best); err != nil {
			t.Fatalf("%s: %v", what, err)
		}
		cleanModels()
		nontrivial("%s %s %d", what, dataString(D), nfold)
	})
}

// An error in the evaluations is returned, and nothing stays blocked.
func TestC13_errors(t *testing.T) {
	check(t, 2500, func(t *rapid.T) {
		s := genSplitData(t)
		o := genSplitGrid(t, s)
		if len(gridPoints(o)) > 100 {
			return
		}
		n := rapid.IntRange(0, 3).Draw(t, "n")
		D := &utils.DataBunch{Data: s.D.Data[:n], Labels: s.D.Labels[:n]}
		o.WriteBest = rapid.Bool().Draw(t, "write")
		seedLibrary(t)
		cleanModels()
		r := runSearch(t, cv.Grid, D, s.nfold, o)
		cleanModels()
		if r.err == nil {
			t.Fatalf("%s: no error with %d samples", gridString(o), n)
		}
		nontrivial("%s %d", gridString(o), n)
	})
}

func TestRaceC13_grid(t *testing.T) {
	check(t, 500, func(t *rapid.T) {
		s := genSplitData(t)
		o := genSplitGrid(t, s)
		if len(gridPoints(o)) > 40 {
			return
		}
		o.NCPUs = rapid.IntRange(2, 8).Draw(t, "workers")
		o.WriteBest = rapid.IntRange(0, 3).Draw(t, "write") == 0
		cleanModels()
		r := runSearch(t, cv.Grid, s.D, s.nfold, o)
		checkGrid(t, s, o, r)
		if err := bestFile(o.WriteBest, s.D, r.opts, r.best); err != nil {
			t.Fatalf("%s: %v", gridString(o), err)
		}
		cleanModels()
		nontrivial("%s %d %d", gridString(o), s.nfold, len(s.D.Data))
	})
}
