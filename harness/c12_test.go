package boocheck

import (
	"math"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// ownAccuracy is the percentage of vectors whose most probable class (any of
// them, if several tie) is their label; lo and hi differ only through ties.
func ownAccuracy(m *boo.MultiClass, D *utils.DataBunch) (lo, hi float64) {
	labels := m.ClassLabels()
	l, h := 0, 0
	for i, v := range D.Data {
		p := m.PredictSingle(v)
		best := p[argmax(p)]
		hit, miss := false, false
		for k := range p {
			if p[k] >= best-1e-12 {
				if labels[k] == D.Labels[i] {
					hit = true
				} else {
					miss = true
				}
			}
		}
		if hit {
			h++
			if !miss {
				l++
			}
		}
	}
	n := float64(len(D.Data))
	return 100 * float64(l) / n, 100 * float64(h) / n
}

// ownScore repeats a cross-validation by its definition, on the folds that
// the same random draws give.
func ownScore(seed uint64, D *utils.DataBunch, nfold int, o *boo.Options) (lo, hi float64, folds, empty int) {
	rand.VerifSeed(seed)
	n, next, _ := utils.CrossValidationSamples(D, nfold, true)
	for i := 0; i < n; i++ {
		train, test := next()
		m := boo.NewMultiClass(train, o)
		if m.Rounds() <= 0 {
			empty++
			continue
		}
		l, h := ownAccuracy(m, test)
		lo += l
		hi += h
	}
	return lo / float64(n), hi / float64(n), n, empty
}

type delivered struct {
	err        error
	acc        float64
	opts       *boo.Options
	okE, ok, o bool
}

// crossValidate runs a cross-validation directly or through channels.
func crossValidate(D *utils.DataBunch, nfold int, o *boo.Options, conc bool) (acc float64, err error, d *delivered, dead string) {
	if !conc {
		dead = runToEnd(func() { acc, err = cv.MultiClassCrossValidation(D, nfold, &cv.Options{O: o}) })
		return acc, err, nil, dead
	}
	c := &cv.Options{O: o, Conc: true, Acc: make(chan float64), Ochan: make(chan *boo.Options), Err: make(chan error)}
	d = &delivered{}
	done := make(chan bool)
	go func() {
		d.err, d.okE = <-c.Err
		d.acc, d.ok = <-c.Acc
		d.opts, d.o = <-c.Ochan
		close(done)
	}()
	dead = runToEnd(func() { acc, err = cv.MultiClassCrossValidation(D, nfold, c) })
	if dead != "" {
		return
	}
	close(c.Err)
	close(c.Acc)
	close(c.Ochan)
	<-done
	return
}

func cvData(t *rapid.T) *utils.DataBunch {
	ds := genData(t, 4, 16, 40, 3, 3, tameKinds)
	return ds.D
}

func TestC12_score(t *testing.T) {
	check(t, 10000, func(t *rapid.T) {
		D := cvData(t)
		many := seldom(t, 5, "many folds")
		if many {
			D = bulkData(genSource(t), genSize(t, 20, 90, "rows"), 2, 3)
		}
		o := genOptions(t, optSpec{maxRounds: 4, noSub: true, earlyStop: true})
		empty := rapid.IntRange(0, 9).Draw(t, "empty") == 9
		if empty { // no fold has enough samples to be boosted
			o.XGB, o.SubSample, o.MinSample = true, 0.5, 1000
		}
		nfold := rapid.IntRange(-1, 7).Draw(t, "nfold")
		if many {
			class("8 or more folds")
			nfold = max(2, genSize(t, 8, len(D.Data)/2, "nfold"))
		}
		if nfold == 1 {
			nfold = 2
		}
		conc := rapid.Bool().Draw(t, "conc")
		if !many && seldom(t, 3, "asked before") { // with other content
			l := append([]int(nil), D.Labels...)
			for i := range l {
				D.Labels[i] = l[(i+1)%len(l)]
			}
			was := *o
			if rapid.Bool().Draw(t, "other options") {
				o.Rounds, o.MaxDepth, o.LearningRate = o.Rounds+1, o.MaxDepth+1, o.LearningRate/2
			}
			seedLibrary(t)
			if _, _, _, dead := crossValidate(D, nfold, o, rapid.Bool().Draw(t, "conc before")); dead != "" {
				t.Fatalf("cross-validation never ends:\n%s", dead)
			}
			copy(D.Labels, l)
			*o = was
			class("asked before with other content")
		}
		keepD, keepO := copyBunch(D), cloneOpts(o)
		seed := seedLibrary(t)
		noteCase("%s %s nfold %d conc %v", optString(o), dataString(D), nfold, conc)
		acc, err, d, dead := crossValidate(D, nfold, o, conc)
		if dead != "" {
			t.Fatalf("cross-validation never ends:\n%s", dead)
		}
		if err != nil {
			t.Fatalf("%d samples, %d folds: %v", len(D.Data), nfold, err)
		}
		if l := leaked(); l != "" {
			t.Fatalf("left behind:\n%s", l)
		}
		lo, hi, n, none := ownScore(seed, D, nfold, o)
		if !(acc >= lo-1e-9 && acc <= hi+1e-9) {
			t.Fatalf("score %v, the mean over the %d folds is %v (to %v)\n%s %s", acc, n, lo, hi, optString(o), dataString(D))
		}
		if acc < 0 || acc > 100+1e-9 {
			t.Fatalf("score %v", acc)
		}
		if conc {
			if !d.okE || !d.ok || !d.o {
				t.Fatalf("delivered: error %v, accuracy %v, options %v", d.okE, d.ok, d.o)
			}
			if d.err != nil || math.Abs(d.acc-acc) > 1e-9 || d.opts == nil || !sameOpts(d.opts, o) {
				t.Fatalf("delivered %v, %v, %v; returned %v", d.err, d.acc, d.opts, acc)
			}
			class("channels")
		}
		if !sameBunch(D, keepD) || !sameOpts(o, keepO) {
			t.Fatalf("the data or the options changed")
		}
		classIf(none > 0, "folds without a model")
		classIf(lo != hi, "ties")
		if hi > 0 && hi < 100 {
			nontrivial("%s %s %d", optString(o), dataString(D), nfold)
		}
	})
}

// No options means the defaults.
func TestC12_defaults(t *testing.T) {
	check(t, 600, func(t *rapid.T) {
		D := cvData(t)
		nfold := rapid.IntRange(2, 4).Draw(t, "nfold")
		conc := rapid.Bool().Draw(t, "conc")
		seed := seedLibrary(t)
		a1, err1, d, dead := crossValidate(D, nfold, nil, conc)
		if dead != "" {
			t.Fatalf("cross-validation never ends:\n%s", dead)
		}
		rand.VerifSeed(seed)
		a2, err2, _, _ := crossValidate(D, nfold, boo.DefaultOptions(), false)
		if err1 != nil || err2 != nil || math.Abs(a1-a2) > 1e-9 {
			t.Fatalf("without options %v (%v), with the default ones %v (%v)", a1, err1, a2, err2)
		}
		if conc && (!d.okE || !d.ok || !d.o || d.err != nil || d.acc != a1) {
			t.Fatalf("delivered %+v, returned %v", d, a1)
		}
		nontrivial("%s %d", dataString(D), nfold)
	})
}

func TestC12_tooFew(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		n := rapid.IntRange(0, 3).Draw(t, "n")
		D := &utils.DataBunch{}
		for i := 0; i < n; i++ {
			D.Data = append(D.Data, []float64{float64(i)})
			D.Labels = append(D.Labels, i%2)
		}
		nfold := rapid.IntRange(-2, 9).Draw(t, "nfold")
		conc := rapid.Bool().Draw(t, "conc")
		o := genOptions(t, optSpec{maxRounds: 2, noSub: true})
		seedLibrary(t)
		noteCase("%d samples, nfold %d conc %v", n, nfold, conc)
		_, err, d, dead := crossValidate(D, nfold, o, conc)
		if dead != "" {
			t.Fatalf("cross-validation of %d samples never ends:\n%s", n, dead)
		}
		if err == nil {
			t.Fatalf("%d samples, %d folds: no error", n, nfold)
		}
		if conc && (!d.okE || !d.ok || !d.o || d.err == nil) {
			t.Fatalf("%d samples, %d folds: delivered %+v", n, nfold, d)
		}
		if l := leaked(); l != "" {
			t.Fatalf("left behind:\n%s", l)
		}
		nontrivial("%d %d %v %s", n, nfold, conc, optString(o))
	})
}

// With subsampling the draws are part of the procedure; the score is still one.
func TestC12_subsampled(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		D := cvData(t)
		o := genOptions(t, optSpec{maxRounds: 4})
		nfold := rapid.IntRange(2, 5).Draw(t, "nfold")
		seedLibrary(t)
		noteCase("%s %s nfold %d", optString(o), dataString(D), nfold)
		acc, err, d, dead := crossValidate(D, nfold, o, true)
		if dead != "" || err != nil || !d.okE || !d.ok || !d.o || d.err != nil || d.acc != acc || !(acc >= 0 && acc <= 100+1e-9) {
			t.Fatalf("score %v, error %v, delivered %+v %s", acc, err, d, dead)
		}
		nontrivial("%s %s %d", optString(o), dataString(D), nfold)
	})
}

func TestRaceC12_concurrent(t *testing.T) {
	check(t, 600, func(t *rapid.T) {
		D := cvData(t)
		keep := copyBunch(D)
		o := genOptions(t, optSpec{maxRounds: 3, earlyStop: true})
		nfold := rapid.IntRange(2, 4).Draw(t, "nfold")
		seedLibrary(t)
		noteCase("%s %s nfold %d", optString(o), dataString(D), nfold)
		var wg sync.WaitGroup
		accs, errs := make([]float64, 4), make([]error, 4)
		for g := range accs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				op := o
				if g%2 == 1 {
					op = cloneOpts(o)
				}
				accs[g], errs[g] = cv.MultiClassCrossValidation(D, nfold, &cv.Options{O: op})
			}()
		}
		wg.Wait()
		for g := range accs {
			if errs[g] != nil || !(accs[g] >= 0 && accs[g] <= 100+1e-9) {
				t.Fatalf("score %v, error %v", accs[g], errs[g])
			}
		}
		if !sameBunch(D, keep) {
			t.Fatalf("the data changed")
		}
		nontrivial("%s %s %d", optString(o), dataString(D), nfold)
	})
}
