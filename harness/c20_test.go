package boocheck

import (
	"bufio"
	"fmt"
	"math/rand/v2"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/confu"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// roomy gives every slice of the data spare capacity, so that an append in the
// library would write into the caller's memory; around checks that it did not.
type roomy struct {
	D        *utils.DataBunch
	data     [][]float64
	rows     [][]float64
	labels   []int
	keys     []string
	original *utils.DataBunch
}

func makeRoomy(D *utils.DataBunch) *roomy {
	r := &roomy{original: copyBunch(D)}
	n := len(D.Data)
	r.data = make([][]float64, n+4)
	r.rows = make([][]float64, n)
	for i, v := range D.Data {
		r.rows[i] = append(append(make([]float64, 0, len(v)+3), v...), 901, 902, 903)
		r.data[i] = r.rows[i][:len(v)]
	}
	for i := n; i < len(r.data); i++ {
		r.data[i] = []float64{900}
	}
	r.labels = append(append([]int(nil), D.Labels...), 9001, 9002, 9003)
	r.keys = append(append([]string(nil), D.Keys...), "k1", "k2", "k3")
	r.D = &utils.DataBunch{Data: r.data[:n], Labels: r.labels[:len(D.Labels)]}
	if D.Keys != nil {
		r.D.Keys = r.keys[:len(D.Keys)]
	}
	return r
}

func (r *roomy) unchanged() error {
	if !sameBunch(r.D, r.original) {
		return fmt.Errorf("the data became %s, was %s", dataString(r.D), dataString(r.original))
	}
	n := len(r.rows)
	for i, v := range r.rows {
		c := len(r.original.Data[i])
		if !sameBits(v[c:], []float64{901, 902, 903}) {
			return fmt.Errorf("written behind row %d", i)
		}
		if c > 0 && &r.data[i][0] != &v[0] {
			return fmt.Errorf("row %d is another slice now", i)
		}
	}
	for i := n; i < len(r.data); i++ {
		if !sameBits(r.data[i], []float64{900}) {
			return fmt.Errorf("written behind the rows")
		}
	}
	if !equalInts(r.labels[len(r.original.Labels):], []int{9001, 9002, 9003}) {
		return fmt.Errorf("written behind the labels")
	}
	if !sameStrings(r.keys[len(r.original.Keys):], []string{"k1", "k2", "k3"}) {
		return fmt.Errorf("written behind the keys")
	}
	return nil
}

// answers are everything a model says about some vectors.
func answers(m *boo.MultiClass, Q [][]float64, D *utils.DataBunch) (string, error) {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d", m.ClassLabels(), m.Classes())
	for k := -1; k <= m.Classes(); k++ {
		fmt.Fprintf(&b, " %d", m.Rounds(k))
	}
	for i, q := range Q {
		var p []float64
		switch i % 3 {
		case 0:
			p = m.PredictSingle(q)
		case 1:
			p = m.PredictSingle(q, make([]float64, m.Classes()))
		default:
			p = m.PredictSingle(q, nil)
		}
		fmt.Fprintf(&b, "\n%x %d", p, m.PredictSingleClass(q))
	}
	fmt.Fprintf(&b, "\n%x %x", m.Accuracy(D), m.Accuracy(D, m.Classes()))
	f, err := m.FeatureImportance()
	if err != nil {
		return "", err
	}
	fs := f.String()
	_, l, err := parseFeats(fs)
	if err != nil {
		return "", err
	}
	fmt.Fprintf(&b, "\n%v", sortFeats(l))
	fmt.Fprintf(&b, "\n%v", confu.MCConfusions(m, D).Matrix())
	t, err := modelText(m)
	if err != nil {
		return "", err
	}
	b.WriteString(t)
	return b.String(), nil
}

// smallWeight sometimes asks for less than one sample per leaf, which training
// takes as one.
func smallWeight(t *rapid.T, o *boo.Options) {
	if seldom(t, 3, "small weight") {
		o.MinChildWeight = rapid.SampledFrom([]float64{0, 0.5, -1}).Draw(t, "mcw")
		class("less than one sample per leaf")
	}
	if seldom(t, 3, "beyond") {
		// settings that training takes as they are, though the validity check would not
		switch rapid.IntRange(0, 5).Draw(t, "what") {
		case 0:
			o.SubSample = rapid.SampledFrom([]float64{1.5, 1.0000001, 7}).Draw(t, "ss")
		case 1:
			o.ColSubSample = rapid.SampledFrom([]float64{1.5, 1.0000001, 7}).Draw(t, "css")
		case 2:
			if !o.XGB { // with row subsampling an empty draw would be taken for a sample
				o.MinSample = rapid.SampledFrom([]int{0, -1}).Draw(t, "ms")
			}
		case 3:
			o.EarlyStop = -1
		case 4:
			o.MaxDepth = rapid.SampledFrom([]int{0, 1, -1}).Draw(t, "md")
		case 5:
			o.TreeMethod = rapid.SampledFrom([]string{"", "hist"}).Draw(t, "tm")
		}
		class("settings beyond the valid ones")
	}
}

func TestC20_histories(t *testing.T) {
	check(t, 10000, func(t *rapid.T) {
		ds := genData(t, 2, 16, 40, 4, 4, colKinds)
		R := makeRoomy(ds.D)
		D := R.D
		o := genOptions(t, optSpec{maxRounds: 5, earlyStop: true})
		smallWeight(t, o)
		keepO := cloneOpts(o)
		seedLibrary(t)
		desc := optString(o) + " " + dataString(D)
		noteCase("%s", desc)
		m := boo.NewMultiClass(D, o)
		ok := func(what string) {
			if err := R.unchanged(); err != nil {
				t.Fatalf("%s: %v\n%s", what, err, desc)
			}
			if !sameOpts(o, keepO) {
				t.Fatalf("%s: the options became %s\n%s", what, optString(o), desc)
			}
		}
		ok("training")
		Q := copyMatrix(D.Data)
		for i := rapid.IntRange(0, 5).Draw(t, "queries"); i > 0; i-- {
			Q = append(Q, genQuery(t, D.Data))
		}
		keepQ := copyMatrix(Q)
		E := copyBunch(D)
		first, err := answers(m, Q, E)
		if err != nil {
			t.Fatalf("%v\n%s", err, desc)
		}
		ok("asking")
		hist := "train"
		for op := rapid.IntRange(1, 7).Draw(t, "ops"); op > 0; op-- {
			kind := rapid.SampledFrom([]string{"ask", "labels", "data", "datalabels", "options", "train", "trainother", "read", "importance", "vector", "test"}).Draw(t, "op")
			hist += ", " + kind
			switch kind {
			case "labels":
				l := m.ClassLabels()
				for i := range l {
					l[i] += 100
				}
				_ = append(l, 5)
			case "data":
				i := rapid.IntRange(0, len(D.Data)-1).Draw(t, "i")
				j := rapid.IntRange(0, len(D.Data[0])-1).Draw(t, "j")
				D.Data[i][j] = rapid.Float64Range(-10, 10).Draw(t, "new")
				R.original = copyBunch(D)
				if len(D.Keys) > 0 {
					D.Keys[j] = "changed"
					R.original.Keys[j] = "changed"
				}
			case "datalabels":
				i := rapid.IntRange(0, len(D.Data)-1).Draw(t, "i")
				D.Labels[i] = rapid.IntRange(-3, 3).Draw(t, "new")
				R.original = copyBunch(D)
			case "options":
				n := genOptions(t, optSpec{maxRounds: 4, earlyStop: true})
				*o = *n
				keepO = cloneOpts(o)
			case "train":
				// the same as with copies that were never used before
				s := seedLibrary(t)
				a, err := modelText(boo.NewMultiClass(D, o))
				rand.VerifSeed(s)
				b, err2 := modelText(boo.NewMultiClass(copyBunch(D), cloneOpts(o)))
				if err != nil || err2 != nil || a != b {
					t.Fatalf("after %s, training again gives (%v)\n%s\ntraining from copies of data and options (%v)\n%s", hist, err, a, err2, b)
				}
			case "importance":
				f, err := m.FeatureImportance()
				if err != nil {
					t.Fatalf("importance: %v", err)
				}
				f.Add(0, 1000)
				f.Add(99, 1000)
				f.Swap(0, f.Len()-1)
			case "vector":
				v := append([]float64(nil), Q[rapid.IntRange(0, len(Q)-1).Draw(t, "q")]...)
				for k := 0; k < 3; k++ {
					fresh := append([]float64(nil), v...)
					if a, b := m.PredictSingle(v), m.PredictSingle(fresh); !sameBits(a, b) {
						t.Fatalf("after %s: %v for a vector that was changed since, %v for a copy of it %v\n%s", hist, a, b, v, desc)
					}
					v[rapid.IntRange(0, len(v)-1).Draw(t, "j")] = rapid.Float64Range(-10, 10).Draw(t, "new")
				}
			case "test":
				F := copyBunch(E)
				for k := 0; k < 2; k++ {
					G := copyBunch(F)
					if a, b := m.Accuracy(F), m.Accuracy(G); a != b {
						t.Fatalf("after %s: accuracy %v for data that were changed since, %v for a copy of them\n%s", hist, a, b, desc)
					}
					slices.Reverse(F.Labels)
				}
			case "trainother":
				other := genData(t, 2, 8, 12, 4, 3, tameKinds)
				seedLibrary(t)
				_ = boo.NewMultiClass(other.D, genOptions(t, optSpec{maxRounds: 3, earlyStop: true}))
			case "read":
				text, err := modelText(m)
				if err != nil {
					t.Fatalf("writing: %v", err)
				}
				m2, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
				if err != nil {
					t.Fatalf("reading: %v", err)
				}
				a, err := answers(m2, Q, E)
				if err != nil || a != first {
					t.Fatalf("after %s, the model read back says (%v)\n%s\nthe model said\n%s", hist, err, a, first)
				}
			}
			ok(kind)
			a, err := answers(m, Q, E)
			if err != nil || a != first {
				t.Fatalf("after %s the model says (%v)\n%s\nat first\n%s", hist, err, a, first)
			}
			if !sameMatrix(Q, keepQ) {
				t.Fatalf("after %s: predicting changed the vectors: %v, were %v", hist, Q, keepQ)
			}
			class("step " + kind)
		}
		nontrivial("%s: %s", hist, desc)
	})
}

// Trees on their own: data, targets and options of every kind of tree.
func TestC20_trees(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		c := genTreeCase(t, 14, 40)
		X := copyMatrix(c.X)
		so := *c.o
		g, h, y := append([]float64(nil), c.o.Gradients...), append([]float64(nil), c.o.Hessian...), append([]float64(nil), c.o.Y...)
		ac, ix := append([]int(nil), c.o.AllowedColumns...), append([]int(nil), c.o.Indexes...)
		noteCase("%v", c)
		tr := boo.NewTree(c.X, c.o)
		same := func(what string) {
			if !sameMatrix(X, c.X) || !sameBits(g, c.o.Gradients) || !sameBits(h, c.o.Hessian) || !sameBits(y, c.o.Y) {
				t.Fatalf("%s changed the data: %v", what, c)
			}
			if !equalInts(ac, c.o.AllowedColumns) || !equalInts(ix, c.o.Indexes) {
				t.Fatalf("%s changed the rows or columns: %v", what, c)
			}
			if so.XGB != c.o.XGB || so.MaxDepth != c.o.MaxDepth || so.MinChildWeight != c.o.MinChildWeight || so.Lambda != c.o.Lambda || so.Gamma != c.o.Gamma {
				t.Fatalf("%s changed the options: %v", what, c)
			}
		}
		same("building")
		before := tr.Predict(c.X, nil)
		same("predicting")
		for i := range c.X {
			for j := range c.X[i] {
				c.X[i][j] += 3
			}
		}
		for i := range c.o.Y {
			c.o.Y[i] = 17
		}
		for i := range c.o.Gradients {
			c.o.Gradients[i], c.o.Hessian[i] = 17, 3
		}
		for i := range c.o.Indexes {
			c.o.Indexes[i] = 0
		}
		for i := range c.o.AllowedColumns {
			c.o.AllowedColumns[i] = 0
		}
		if after := tr.Predict(X, nil); !sameBits(before, after) {
			t.Fatalf("the tree changed with the data it was built from: %v, was %v\n%v", after, before, c)
		}
		for i := range X {
			if !bits(tr.PredictSingle(X[i]), before[i]) {
				t.Fatalf("the tree changed with the data it was built from\n%v", c)
			}
		}
		nontrivial("%v", c)
	})
}

// concurrentUse asks one model from many goroutines while others train from
// the same data and options.
func concurrentUse(t *rapid.T) {
	ds := genData(t, 3, 14, 30, 4, 3, tameKinds)
	D := ds.D
	keep := copyBunch(D)
	o := genOptions(t, optSpec{maxRounds: 4, earlyStop: true, noSub: true})
	smallWeight(t, o)
	keepO := cloneOpts(o)
	Q := copyMatrix(D.Data)
	for i := rapid.IntRange(0, 4).Draw(t, "queries"); i > 0; i-- {
		Q = append(Q, genQuery(t, D.Data))
	}
	desc := optString(o) + " " + dataString(D)
	noteCase("%s", desc)
	// Data, options and the shared model are first used by the goroutines;
	// copies of them give the expected answers.
	seedLibrary(t)
	m := boo.NewMultiClass(copyBunch(D), cloneOpts(o))
	alone := boo.NewMultiClass(copyBunch(D), cloneOpts(o))
	if rapid.Bool().Draw(t, "read") {
		text, err := modelText(alone)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		if m, err = boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text))); err != nil {
			t.Fatalf("reading: %v", err)
		}
		class("model read back")
	}
	want, err := answers(alone, copyMatrix(Q), copyBunch(D))
	if err != nil {
		t.Fatalf("%v\n%s", err, desc)
	}
	n := rapid.IntRange(2, 6).Draw(t, "goroutines")
	sub := cloneOpts(o)
	if o.XGB {
		sub.SubSample, sub.ColSubSample = 0.7, 0.7
	}
	got := make([]string, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < n; g++ {
		train := g%2 == 1
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			if train {
				mm := boo.NewMultiClass(D, o)
				got[g], errs[g] = answers(mm, Q, D)
				_ = boo.NewMultiClass(D, sub)
				return
			}
			for k := 0; k < 3; k++ {
				got[g], errs[g] = answers(m, Q, D)
				if errs[g] != nil || got[g] != want {
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range got {
		if errs[g] != nil || got[g] != want {
			t.Fatalf("at the same time as others (goroutine %d, training %v): %v\n%s\nalone:\n%s", g, g%2 == 1, errs[g], got[g], want)
		}
	}
	if !sameBunch(D, keep) || !sameOpts(o, keepO) {
		t.Fatalf("data or options changed\n%s", desc)
	}
	class("concurrent use")
	nontrivial("%d %s", n, desc)
}

func TestC20_concurrent(t *testing.T) {
	check(t, 3000, concurrentUse)
}

func TestRaceC20_concurrent(t *testing.T) {
	check(t, 1500, concurrentUse)
}
