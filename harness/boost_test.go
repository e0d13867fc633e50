package boocheck

import (
	"fmt"
	"math"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// oddLoss is a loss of the harness' own: the library must take gradients and
// hessians from the loss it is given, with labels and probabilities the right
// way around.
// A small scale makes gradients and hessians small, and their quotients not.
type oddLoss struct{ a, b, scale float64 }

func (l *oddLoss) Name() string { return fmt.Sprintf("odd(%v,%v,%v)", l.a, l.b, l.scale) }
func (l *oddLoss) Loss(y, p, tmp *mat.Dense) float64 {
	s := 0.0
	r, c := y.Dims()
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d := y.At(i, j) - p.At(i, j)
			s += l.a * d * d
		}
	}
	return s / float64(r*c)
}
func (l *oddLoss) NegGradients(y, p, res *mat.Dense) *mat.Dense {
	r, c := y.Dims()
	out := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			out.Set(i, j, l.scale*l.a*(y.At(i, j)-p.At(i, j)))
		}
	}
	return out
}
func (l *oddLoss) Gradients(y, p, res *mat.Dense) *mat.Dense {
	out := l.NegGradients(y, p, res)
	out.Scale(-1, out)
	return out
}
func (l *oddLoss) Hessian(p, h *mat.Dense) *mat.Dense {
	r, c := p.Dims()
	out := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			out.Set(i, j, l.scale*(l.b+p.At(i, j)))
		}
	}
	return out
}

// grad and hess are the harness' definitions for each loss.
func lossGrad(l utils.LossFunc, y, p float64) float64 {
	if o, ok := l.(*oddLoss); ok {
		return o.scale * o.a * (p - y)
	}
	return p - y
}

func lossHess(l utils.LossFunc, p float64) float64 {
	switch o := l.(type) {
	case *oddLoss:
		return o.scale * (o.b + p)
	case *utils.MSELoss:
		return p * (1 - p)
	}
	return 1
}

func lossMean(l utils.LossFunc, y, p []float64) float64 {
	s := 0.0
	for i := range y {
		s += (y[i] - p[i]) * (y[i] - p[i])
	}
	if o, ok := l.(*oddLoss); ok {
		s *= o.a
	}
	return s / float64(len(y))
}

// booster replays the stagewise procedure along an observed model.
type booster struct {
	X      [][]float64
	labels []int // distinct, in order of appearance
	Y      [][]float64
	raw    [][]float64
	o      *boo.Options
	unver  int
	splits int
}

func newBooster(D *utils.DataBunch, o *boo.Options) *booster {
	b := &booster{X: D.Data, labels: distinct(D.Labels), o: o}
	for i := range D.Data {
		y := make([]float64, len(b.labels))
		r := make([]float64, len(b.labels))
		for k, l := range b.labels {
			r[k] = o.BaseScore
			if D.Labels[i] == l {
				y[k] = 1
			}
		}
		b.Y = append(b.Y, y)
		b.raw = append(b.raw, r)
	}
	return b
}

func (b *booster) noise() float64 {
	m := 10.0
	for _, r := range b.raw {
		for _, v := range r {
			m = math.Max(m, math.Abs(v))
		}
	}
	return 1e-15 * m
}

// tree checks the tree of class k against the gradients at the current scores.
func (b *booster) tree(n *node, k int, rows []int) error {
	s := &spec{X: b.X, xgb: b.o.XGB, lambda: b.o.Lambda, gamma: b.o.Gamma, mcw: b.o.MinChildWeight, depth: b.o.MaxDepth,
		splits: true, structure: true, values: true, noise: b.noise()}
	if odd, ok := b.o.Loss.(*oddLoss); ok {
		s.scale = odd.scale
		s.noise *= odd.scale
	}
	if b.o.XGB {
		s.g, s.h = make([]float64, len(b.X)), make([]float64, len(b.X))
	} else {
		s.newton = true
		s.y, s.nh, s.sureZero = make([]float64, len(b.X)), make([]float64, len(b.X)), make([]bool, len(b.X))
	}
	_, mse := b.o.Loss.(*utils.MSELoss)
	for i := range b.X {
		p := refSoftmax(b.raw[i])[k]
		g, h := lossGrad(b.o.Loss, b.Y[i][k], p), lossHess(b.o.Loss, p)
		if b.o.XGB {
			s.g[i], s.h[i] = g, h
			continue
		}
		s.y[i], s.nh[i] = -g, h
		others := math.Inf(-1)
		for j, v := range b.raw[i] {
			if j != k {
				others = math.Max(others, v)
			}
		}
		d := b.raw[i][k] - others
		s.sureZero[i] = mse && (d > 60 || d < -900)
	}
	err := s.verify(n, rows)
	b.unver += s.unverified
	if !n.leaf {
		b.splits++
	}
	return err
}

func (b *booster) add(n *node, k int) {
	for i := range b.X {
		b.raw[i][k] += n.eval(b.X[i]) * b.o.LearningRate
	}
}

func (b *booster) loss(k int) float64 {
	y, p := make([]float64, len(b.X)), make([]float64, len(b.X))
	for i := range b.X {
		y[i] = b.Y[i][k]
		p[i] = refSoftmax(b.raw[i])[k]
	}
	return lossMean(b.o.Loss, y, p)
}

// trainModel trains with a generated stream of draws and returns the model and
// its independent reading.
func trainModel(t *rapid.T, D *utils.DataBunch, o *boo.Options) (*boo.MultiClass, *refModel, string) {
	seedLibrary(t)
	noteCase("%s %s", optString(o), dataString(D))
	m := boo.NewMultiClass(D, o)
	text, err := modelText(m)
	if err != nil {
		t.Fatalf("the trained model cannot be written: %v\n%s %s", err, optString(o), dataString(D))
	}
	ref, err := parseModel(text)
	if err != nil {
		t.Fatalf("the written model is not well formed: %v\n%s", err, text)
	}
	return m, ref, text
}

// samePrediction compares the library's probabilities with the independent
// evaluation of the model's text.
func samePrediction(m *boo.MultiClass, ref *refModel, q []float64) error {
	usedVector(m, q)
	got := m.PredictSingle(q)
	want := ref.probs(q)
	if !near(got, want, ref.tol(q)) {
		return fmt.Errorf("vector %v: predicted %v, the model's trees give %v", q, got, want)
	}
	return nil
}

func checkLabels(ref *refModel, m *boo.MultiClass, D *utils.DataBunch) error {
	d := distinct(D.Labels)
	if !equalInts(m.ClassLabels(), d) || !equalInts(ref.ClassLabels, d) {
		return fmt.Errorf("class labels %v and %v (written), the data has %v", m.ClassLabels(), ref.ClassLabels, d)
	}
	if m.Classes() != len(d) {
		return fmt.Errorf("Classes() is %d for labels %v", m.Classes(), d)
	}
	return nil
}
