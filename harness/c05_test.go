package boocheck

import (
	"fmt"
	"math"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// stopState is the set of states a class may be in: rounding can make the
// comparison of two losses undecidable, and then both outcomes are kept.
type stopState struct {
	prev    float64
	counts  map[int]bool // rounds without progress, not stopped
	stopped bool         // may have stopped
}

// advance computes the states after one more boosted round.
func (s *stopState) advance(loss float64, n int) {
	const amb = 1e-12
	next := map[int]bool{}
	s.stopped = false
	if loss <= 1e-6+amb {
		s.stopped = true
	}
	if !(loss <= 1e-6-amb) {
		noprog := s.prev <= loss+amb
		prog := s.prev > loss-amb
		for c := range s.counts {
			if prog {
				next[0] = true
			}
			if noprog {
				if c+1 >= n {
					s.stopped = true
				} else {
					next[c+1] = true
				}
			}
		}
	}
	s.counts = next
	s.prev = loss
}

func earlyStop(t *rapid.T, ds *dataSet, o *boo.Options) {
	m, ref, _ := trainModel(t, ds.D, o)
	if err := checkLabels(ref, m, ds.D); err != nil {
		t.Fatalf("%v", err)
	}
	desc := func() string { return optString(o) + " " + dataString(ds.D) }
	b := newBooster(ds.D, o)
	K := len(b.labels)
	sub := o.XGB && (o.SubSample < 1 || o.ColSubSample < 1)
	rows := allRows(len(ds.D.Data))
	st := make([]*stopState, K)
	for k := range st {
		st[k] = &stopState{prev: math.Inf(1), counts: map[int]bool{0: true}}
	}
	boosted := make([]int, K)
	stoppedEarly, frozen := 0, make([]bool, K)
	if len(ref.rounds) > o.Rounds {
		t.Fatalf("%d rounds in the model, %d requested", len(ref.rounds), o.Rounds)
	}
	for r := 0; r < o.Rounds; r++ {
		if r >= len(ref.rounds) && sub && o.SubSample < 1 {
			break // rounds may have been skipped for too few samples
		}
		if r >= len(ref.rounds) && len(rows) < o.MinSample {
			break
		}
		for k := 0; k < K; k++ {
			is := r < len(ref.rounds) && ref.boosted(r, k)
			if is {
				if frozen[k] {
					t.Fatalf("class %d is boosted again in round %d after it had stopped\n%s", k, r, desc())
				}
				if o.EarlyStop > 0 && len(st[k].counts) == 0 {
					t.Fatalf("class %d is boosted in round %d, it had to stop before\n%s", k, r, desc())
				}
				n := ref.rounds[r][k]
				if !sub {
					if err := b.tree(n, k, rows); err != nil {
						t.Fatalf("round %d, class %d: %v\n%s", r, k, err, desc())
					}
				}
				b.add(n, k)
				boosted[k]++
				if o.EarlyStop > 0 {
					st[k].advance(b.loss(k), o.EarlyStop)
				}
			} else {
				if !frozen[k] {
					if o.EarlyStop <= 0 {
						t.Fatalf("class %d is not boosted in round %d, without early stopping\n%s", k, r, desc())
					}
					if !st[k].stopped {
						t.Fatalf("class %d is not boosted in round %d though it had not stalled (after %d boosted rounds)\n%s", k, r, boosted[k], desc())
					}
					stoppedEarly++
				}
				frozen[k] = true
			}
		}
	}
	for k := 0; k < K; k++ {
		if got := m.Rounds(k); got != boosted[k] {
			t.Fatalf("Rounds(%d) is %d, the class was boosted %d times\n%s", k, got, boosted[k], desc())
		}
	}
	if got := m.Rounds(); got != boosted[0] {
		t.Fatalf("Rounds() is %d, the first class was boosted %d times", got, boosted[0])
	}
	for _, k := range []int{K, K + 1, K + 1000} {
		if got := m.Rounds(k); got != -1 {
			t.Fatalf("Rounds(%d) is %d with %d classes", k, got, K)
		}
	}
	for i, row := range ds.D.Data {
		got, want := m.PredictSingle(row), refSoftmax(b.raw[i])
		if !near(got, want, ref.tol(row)) {
			t.Fatalf("row %d: predicted %v, its trees give %v (boosted %v)\n%s", i, got, want, boosted, desc())
		}
	}
	classIf(o.EarlyStop == 0, "no early stopping")
	classIf(stoppedEarly > 0, "some class stopped early")
	classIf(stoppedEarly > 0 && stoppedEarly < K, "only some classes stopped early")
	first := true
	for k := 1; k < K; k++ {
		if frozen[k-1] && boosted[k] > boosted[k-1] {
			first = false
		}
	}
	classIf(!first, "a class stopped before a later class")
	classIf(sub, "with subsampling")
	if stoppedEarly > 0 {
		nontrivial("%s", desc())
		class(fmt.Sprintf("early stop N=%d took effect", o.EarlyStop))
	}
}

func TestC05_earlyStopping(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		ds := genData(t, 2, 12, 30, 5, 3, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 16, noSub: rapid.Bool().Draw(t, "nosub"), earlyStop: true})
		if rapid.Bool().Draw(t, "steep") {
			o.LearningRate = rapid.SampledFrom([]float64{1.5, 2, 3, 8}).Draw(t, "steeplr")
		}
		if rapid.Bool().Draw(t, "weak") {
			o.MaxDepth = 1
		}
		earlyStop(t, ds, o)
	})
}

// Larger runs: classes that differ in how hard they are, many rounds.
func TestC05_unevenClasses(t *testing.T) {
	check(t, 5000, func(t *rapid.T) {
		ds := genData(t, 6, 24, 40, 4, 2, []string{"int", "real"})
		// the first classes are given away by a column of their own
		easy := rapid.IntRange(1, ds.k).Draw(t, "easy")
		d := distinct(ds.D.Labels)
		for i := range ds.D.Data {
			v := 0.0
			for e := 0; e < easy; e++ {
				if ds.D.Labels[i] == d[e] {
					v = float64(e+1) * 10
				}
			}
			ds.D.Data[i] = append(ds.D.Data[i], v)
		}
		ds.D.Keys = nil
		o := genOptions(t, optSpec{maxRounds: 40, noSub: true, earlyStop: true})
		o.Rounds += 10
		o.LearningRate = rapid.SampledFrom([]float64{0.5, 1, 2, 4}).Draw(t, "lr2")
		earlyStop(t, ds, o)
	})
}

// scriptLoss raises the score of class k by speed[k] in every boosted round, so
// that the class's probabilities never come back, and gives to the n-th
// probabilities of a class that it sees the n-th loss of the class's script.
type scriptLoss struct {
	speed  []float64
	script [][]float64
	class  []int // of each row
	seen   [][]float64
}

func (l *scriptLoss) Name() string { return "script" }

func (l *scriptLoss) of(y *mat.Dense) int {
	for i := range l.class {
		if y.At(0, i) == 1 {
			return l.class[i]
		}
	}
	return -1
}
func (l *scriptLoss) Loss(y, p, tmp *mat.Dense) float64 {
	k := l.of(y)
	at := -1
	for i, v := range l.seen[k] {
		if v == p.At(0, 0) {
			at = i
		}
	}
	if at < 0 {
		at = len(l.seen[k])
		l.seen[k] = append(l.seen[k], p.At(0, 0))
	}
	if at >= len(l.script[k]) {
		return 1 // a class that has stopped already
	}
	return l.script[k][at]
}
func (l *scriptLoss) NegGradients(y, p, res *mat.Dense) *mat.Dense {
	r, c := y.Dims()
	out := mat.NewDense(r, c, nil)
	utils.ToOnes(out)
	out.Scale(l.speed[l.of(y)], out)
	return out
}
func (l *scriptLoss) Gradients(y, p, res *mat.Dense) *mat.Dense {
	out := l.NegGradients(y, p, res)
	out.Scale(-1, out)
	return out
}
func (l *scriptLoss) Hessian(p, h *mat.Dense) *mat.Dense {
	r, c := p.Dims()
	out := mat.NewDense(r, c, nil)
	utils.ToOnes(out)
	return out
}

// The losses are scripted, so the round in which each class stops is known
// exactly, for stalls of any length.
func TestC05_scriptedLosses(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		K := rapid.IntRange(2, 5).Draw(t, "classes")
		n := rapid.IntRange(K, K+4).Draw(t, "rows")
		D := &utils.DataBunch{Data: genMatrix(t, n, 1, []string{"int", "real", "const"})}
		l := &scriptLoss{seen: make([][]float64, K)}
		for i := 0; i < n; i++ {
			k := min(i, rapid.IntRange(0, K-1).Draw(t, "class"))
			if i < K {
				k = i
			}
			l.class = append(l.class, k)
			D.Labels = append(D.Labels, 10-3*k)
		}
		var o *boo.Options
		if rapid.Bool().Draw(t, "xgb") {
			o = boo.DefaultXOptions()
			o.SubSample, o.ColSubSample, o.Lambda, o.Gamma, o.MinSample = 1, 1, 0, 0.5, 1
		} else {
			o = boo.DefaultGOptions()
		}
		o.MinChildWeight, o.MaxDepth, o.LearningRate = 1, 2, 0.5
		o.Loss = l
		o.EarlyStop = rapid.IntRange(1, 6).Draw(t, "earlystop")
		o.Rounds = rapid.IntRange(1, 24).Draw(t, "rounds")
		if seldom(t, 3, "long") {
			o.EarlyStop = rapid.IntRange(7, 60).Draw(t, "earlystop")
			o.Rounds = rapid.IntRange(20, 150).Draw(t, "rounds")
		}
		o.Verbose = seldom(t, 3, "verbose")
		want := make([]int, K)
		for k := 0; k < K; k++ {
			l.speed = append(l.speed, []float64{0.011, 0.0173, 0.0237, 0.0293, 0.0371}[k])
			var s []float64
			odds := rapid.IntRange(0, 12).Draw(t, "odds") // how often there is progress
			cur, stall := 1.0, 0
			want[k] = o.Rounds
			for r := 0; r < o.Rounds; r++ {
				prev := cur
				switch {
				case seldom(t, 6, "tiny"):
					cur = rapid.SampledFrom([]float64{1e-6, math.Nextafter(1e-6, 1), 2e-6, 1e-7, 0, 5e-324}).Draw(t, "loss")
				case rapid.IntRange(0, 11).Draw(t, "progress") < odds:
					cur = rapid.SampledFrom([]float64{math.Nextafter(prev, 0), prev * 0.75}).Draw(t, "loss")
				default:
					cur = rapid.SampledFrom([]float64{prev, math.Nextafter(prev, 2), prev + 0.25}).Draw(t, "loss")
				}
				s = append(s, cur)
				if r == 0 || cur < prev {
					stall = 0
				} else {
					stall++
				}
				if want[k] == o.Rounds && (cur <= 1e-6 || stall >= o.EarlyStop) {
					want[k] = r + 1
				}
			}
			l.script = append(l.script, s)
		}
		desc := func() string {
			return fmt.Sprintf("%s classes %v scripts %v", optString(o), l.class, l.script)
		}
		m, ref, _ := trainModel(t, D, o)
		stopped := 0
		for k := 0; k < K; k++ {
			got := 0
			for r := range ref.rounds {
				if ref.boosted(r, k) {
					got++
				}
			}
			if got != want[k] || m.Rounds(k) != want[k] {
				t.Fatalf("class %d is boosted in %d rounds (says %d), its losses stop it after %d\n%s", k, got, m.Rounds(k), want[k], desc())
			}
			if want[k] < o.Rounds {
				stopped++
			}
		}
		for i, row := range D.Data {
			raw := make([]float64, K)
			for k := range raw {
				raw[k] = o.BaseScore + float64(want[k])*l.speed[k]*o.LearningRate
			}
			if got, w := m.PredictSingle(row), refSoftmax(raw); !near(got, w, ref.tol(row)) {
				t.Fatalf("row %d: predicted %v, %v rounds give %v\n%s", i, got, want, w, desc())
			}
		}
		classIf(stopped > 0 && stopped < K, "scripted: only some classes stop")
		classIf(stopped == K, "scripted: all classes stop")
		classIf(stopped > 0 && o.EarlyStop > 10, "scripted: more than 10 rounds of patience")
		if stopped > 0 {
			nontrivial("%s", desc())
		}
	})
}
