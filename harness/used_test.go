package boocheck

import (
	"math/rand/v2"
	"os"
	"slices"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// Things that were used before with another content: what the library computes
// must follow from what its arguments hold now, not from what the same slices,
// structures or files held in an earlier call.

// usedBunch sometimes puts D through the library with other content, which is
// taken back afterwards.
func usedBunch(t *rapid.T, D *utils.DataBunch) {
	if len(D.Data) == 0 || !seldom(t, 3, "used before") {
		return
	}
	keep := copyBunch(D)
	n := len(D.Data)
	for i := range D.Data {
		copy(D.Data[i], keep.Data[n-1-i])
	}
	slices.Reverse(D.Labels)
	slices.Reverse(D.Keys)
	rand.VerifSeed(1)
	_, _, _ = D.CSV(), D.LibSVM(), D.String()
	if _, next, err := utils.CrossValidationSamples(D, 2); err == nil {
		next()
	}
	if len(D.Labels) == n {
		D.OHELabels()
		o := boo.DefaultXOptions()
		o.Rounds, o.SubSample, o.ColSubSample, o.MinSample, o.MinChildWeight = 2, 1, 1, 1, 1
		m := boo.NewMultiClass(D, o)
		m.Accuracy(D)
		confu.MCConfusions(m, D).Matrix()
		if n >= 4 && n < 50 {
			_, _ = cv.MultiClassCrossValidation(D, 2, &cv.Options{O: o})
		}
	}
	for i := range D.Data {
		copy(D.Data[i], keep.Data[i])
	}
	copy(D.Labels, keep.Labels)
	copy(D.Keys, keep.Keys)
	class("data used before with other content")
}

// usedTree does the same for the data of a tree and its options.
func usedTree(t *rapid.T, c *treeCase) {
	if !seldom(t, 3, "used before") {
		return
	}
	X := copyMatrix(c.X)
	n := len(X)
	for i := range c.X {
		copy(c.X[i], X[n-1-i])
	}
	s := [][]float64{c.o.Gradients, c.o.Hessian, c.o.Y}
	for _, v := range s {
		slices.Reverse(v)
	}
	depth := c.o.MaxDepth
	c.o.MaxDepth = 2
	tr := boo.NewTree(c.X, c.o)
	tr.Predict(c.X, nil)
	_ = tr.Print("")
	c.o.MaxDepth = depth
	for _, v := range s {
		slices.Reverse(v)
	}
	for i := range c.X {
		copy(c.X[i], X[i])
	}
	class("data used before with other content")
}

// usedVector asks the model about q with other content.
func usedVector(m *boo.MultiClass, q []float64) {
	keep := append([]float64(nil), q...)
	for i := range q {
		q[i] = 1 - 2*keep[i]
	}
	m.PredictSingle(q)
	m.PredictSingleClass(q)
	copy(q, keep)
}

// usedAccuracy asks the model about D with other content.
func usedAccuracy(m *boo.MultiClass, D *utils.DataBunch) {
	keep := copyBunch(D)
	n := len(D.Data)
	for i := range D.Data {
		copy(D.Data[i], keep.Data[n-1-i])
		D.Labels[i] = keep.Labels[(i+1)%n]
	}
	m.Accuracy(D)
	m.Accuracy(D, m.Classes())
	confu.MCConfusions(m, D).Matrix()
	for i := range D.Data {
		copy(D.Data[i], keep.Data[i])
	}
	copy(D.Labels, keep.Labels)
}

// usedFile is scratchFile, but the file was there before, with other digits, and
// was read, as it is now, before; read may spoil what it gets.
func usedFile(t *rapid.T, text string, read func(name string)) string {
	if !rapid.Bool().Draw(t, "file used before") {
		return scratchFile(text)
	}
	other := []byte(text)
	for i, c := range other {
		if c >= '0' && c <= '9' {
			other[i] = '0' + (c-'0'+1)%10
		}
	}
	name := scratchFile(string(other))
	read(name)
	if err := os.WriteFile(name, []byte(text), 0o600); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	read(name)
	class("file used before with other content")
	return name
}

// spoil changes all that a reader returned.
func spoil(D *utils.DataBunch, err error) {
	if D == nil || err != nil {
		return
	}
	for i := range D.Data {
		for j := range D.Data[i] {
			D.Data[i][j] = -77
		}
	}
	for i := range D.Labels {
		D.Labels[i] = -77
	}
	for i := range D.Keys {
		D.Keys[i] = "spoiled"
	}
}
