package boocheck

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"gonum.org/v1/gonum/mat"
	"pgregory.net/rapid"
)

// genReader wraps a text in one of many ways of delivering it.
func genReader(t *rapid.T, text string) *bufio.Reader {
	var r io.Reader = strings.NewReader(text)
	switch rapid.IntRange(0, 4).Draw(t, "reader") {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.HalfReader(r)
	case 3:
		r = iotest.DataErrReader(r)
	case 4:
		r = iotest.OneByteReader(iotest.DataErrReader(r))
	}
	return bufio.NewReaderSize(r, rapid.SampledFrom([]int{16, 17, 64, 4096, 65536}).Draw(t, "bufsize"))
}

type featScore struct {
	feat  int
	score float64
}

var featLine = regexp.MustCompile(`^(\d+) Feature (-?\d+) with score: (\S+)$`)

// parseFeats reads the printed form of a set of importances.
func parseFeats(s string) (title string, fs []featScore, err error) {
	lines := strings.Split(strings.TrimRight(s, "\n"), "\n")
	title = lines[0]
	for i, l := range lines[1:] {
		m := featLine.FindStringSubmatch(strings.TrimSpace(l))
		if m == nil {
			return "", nil, fmt.Errorf("line %q", l)
		}
		if m[1] != strconv.Itoa(i+1) {
			return "", nil, fmt.Errorf("line %q is number %d", l, i+1)
		}
		f, e1 := strconv.Atoi(m[2])
		v, e2 := strconv.ParseFloat(m[3], 64)
		if e1 != nil || e2 != nil {
			return "", nil, fmt.Errorf("line %q", l)
		}
		fs = append(fs, featScore{f, v})
	}
	return title, fs, nil
}

func sortFeats(fs []featScore) []featScore {
	r := append([]featScore(nil), fs...)
	sort.Slice(r, func(i, j int) bool { return r[i].feat < r[j].feat })
	return r
}

func sameImportance(a, b *boo.MultiClass) error {
	fa, ea := a.FeatureImportance()
	fb, eb := b.FeatureImportance()
	if ea != nil || eb != nil {
		return fmt.Errorf("feature importance: %v, %v", ea, eb)
	}
	ta, la, e1 := parseFeats(fa.String())
	tb, lb, e2 := parseFeats(fb.String())
	if e1 != nil || e2 != nil {
		return fmt.Errorf("feature importance text: %v, %v", e1, e2)
	}
	if fa.XGB() != fb.XGB() || ta != tb {
		return fmt.Errorf("feature importances of different kinds: %q, %q", ta, tb)
	}
	for i := range la {
		if i < len(lb) && la[i].score != lb[i].score {
			return fmt.Errorf("feature importances differ:\n%s\n%s", fa, fb)
		}
	}
	sa, sb := sortFeats(la), sortFeats(lb)
	if len(sa) != len(sb) {
		return fmt.Errorf("feature importances differ:\n%s\n%s", fa, fb)
	}
	for i := range sa {
		if sa[i] != sb[i] {
			return fmt.Errorf("feature importances differ:\n%s\n%s", fa, fb)
		}
	}
	return nil
}

func sameModel(t *rapid.T, a, b *boo.MultiClass, ref *refModel, X [][]float64) {
	if !equalInts(a.ClassLabels(), b.ClassLabels()) {
		t.Fatalf("labels %v, read back %v", a.ClassLabels(), b.ClassLabels())
	}
	if a.Classes() != b.Classes() || a.Rounds() != b.Rounds() {
		t.Fatalf("%d classes and %d rounds, read back %d and %d", a.Classes(), a.Rounds(), b.Classes(), b.Rounds())
	}
	for k := 0; k < a.Classes()+2; k++ {
		if a.Rounds(k) != b.Rounds(k) {
			t.Fatalf("class %d has %d rounds, read back %d", k, a.Rounds(k), b.Rounds(k))
		}
	}
	if len(ref.rounds) > 0 {
		if err := sameImportance(a, b); err != nil {
			t.Fatalf("%v", err)
		}
	}
	q := copyMatrix(X)
	for i := rapid.IntRange(0, 6).Draw(t, "queries"); i > 0; i-- {
		q = append(q, genQuery(t, X))
	}
	for _, v := range q {
		pa, pb := a.PredictSingle(v), b.PredictSingle(v)
		if !sameBits(pa, pb) {
			t.Fatalf("vector %v: probabilities %v, read back %v", v, pa, pb)
		}
		if a.PredictSingleClass(v) != b.PredictSingleClass(v) {
			t.Fatalf("vector %v: class %d, read back %d", v, a.PredictSingleClass(v), b.PredictSingleClass(v))
		}
		if !near(pa, ref.probs(v), ref.tol(v)) {
			t.Fatalf("vector %v: probabilities %v, evaluating the text gives %v", v, pa, ref.probs(v))
		}
	}
}

func TestC07_roundTrip(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		ds := genData(t, 2, 16, 40, 5, 4, colKinds)
		o := genOptions(t, optSpec{maxRounds: 8, earlyStop: true})
		if rapid.IntRange(0, 4).Draw(t, "stop") == 0 {
			o.EarlyStop, o.LearningRate, o.Rounds = 1, 3, 12
		}
		m, ref, text := trainModel(t, ds.D, o)
		r := genReader(t, text)
		m2, err := boo.UnJSONMultiClass(r)
		if err != nil {
			t.Fatalf("reading back: %v\n%s", err, text)
		}
		sameModel(t, m, m2, ref, ds.D.Data)
		text2, err := modelText(m2)
		if err != nil || text2 != text {
			t.Fatalf("written again (%v):\n%s\nat first:\n%s", err, text2, text)
		}
		// the same through a buffered writer
		var buf bytes.Buffer
		w := bufio.NewWriterSize(&buf, rapid.SampledFrom([]int{16, 100, 4096}).Draw(t, "wbuf"))
		if err := boo.JSONMultiClass(m, "softmax", w); err != nil {
			t.Fatalf("writing: %v", err)
		}
		_ = w.Flush()
		if buf.String() != text {
			t.Fatalf("a buffered writer got\n%s\ninstead of\n%s", buf.String(), text)
		}
		meta, err := boo.MarshalMCMetaData(m, "softmax")
		if err != nil || string(meta) != text[:strings.Index(text, "\n")+1] {
			t.Fatalf("metadata (%v) %q, in the file\n%s", err, meta, text)
		}
		splits := 0
		for _, round := range ref.rounds {
			for _, n := range round {
				n.walk(func(x *node) {
					if !x.leaf {
						splits++
					}
				})
			}
		}
		classIf(o.XGB, "xgb")
		classIf(!o.XGB, "plain")
		classIf(len(ref.rounds) == 0, "no rounds")
		stopped := false
		for r := range ref.rounds {
			for k := range ref.ClassLabels {
				stopped = stopped || !ref.boosted(r, k)
			}
		}
		classIf(stopped, "with an early-stopped class")
		if splits > 0 && len(ref.rounds) > 1 {
			nontrivial("%s %s", optString(o), dataString(ds.D))
		}
	})
}

// Models that were not trained here: any numbers, long lines, no final newline.
func TestC07_syntheticRoundTrip(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		ref, text := genModelText(t, genModelSpec{maxClasses: 6, maxRounds: 5, maxDepth: 4, features: 4, values: "any"})
		in := text
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		if rapid.IntRange(0, 9).Draw(t, "long") == 0 {
			// blanks inside a JSON value do not change it
			i := 0
			if len(lines) > 3 {
				i = rapid.SampledFrom([]int{0, 3, len(lines) - 1}).Draw(t, "longline")
			}
			if strings.HasPrefix(lines[i], "{") {
				lines[i] = lines[i][:1] + strings.Repeat(" ", rapid.SampledFrom([]int{4096, 65536, 70000}).Draw(t, "pad")) + lines[i][1:]
				in = strings.Join(lines, "\n") + "\n"
				class("line over 64 KB")
			}
		}
		if len(lines) > 1 && rapid.IntRange(0, 3).Draw(t, "nonewline") == 0 {
			in = strings.TrimSuffix(in, "\n")
			class("no final newline")
		}
		noteCase("%s", text)
		m, err := boo.UnJSONMultiClass(genReader(t, in))
		if err != nil {
			t.Fatalf("a well-formed model is rejected: %v\n%s", err, text)
		}
		for k := range ref.ClassLabels {
			if m.Rounds(k) != len(ref.rounds) {
				t.Fatalf("class %d: %d rounds, the text has %d\n%s", k, m.Rounds(k), len(ref.rounds), text)
			}
		}
		text2, err := modelText(m)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		again, err := parseModel(text2)
		if err != nil {
			t.Fatalf("written again: %v\n%s", err, text2)
		}
		if err := sameRefModel(ref, again); err != nil {
			t.Fatalf("%v\nread:\n%s\nwritten again:\n%s", err, text, text2)
		}
		m2, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text2)))
		if err != nil {
			t.Fatalf("reading again: %v", err)
		}
		sameModel(t, m, m2, ref, [][]float64{{0, 0, 0, 0}, {1, -1, 0.5, 2}, {-2, 3, 7, -4}})
		if len(ref.rounds) > 0 {
			nontrivial("%s", text)
		}
	})
}

func sameRefModel(a, b *refModel) error {
	if a.LearningRate != b.LearningRate || a.BaseScore != b.BaseScore || a.ProbTransformName != b.ProbTransformName || !equalInts(a.ClassLabels, b.ClassLabels) {
		return fmt.Errorf("metadata differ")
	}
	if len(a.rounds) != len(b.rounds) {
		return fmt.Errorf("%d and %d rounds", len(a.rounds), len(b.rounds))
	}
	for r := range a.rounds {
		for k := range a.ClassLabels {
			if !sameTree(a.rounds[r][k], b.rounds[r][k]) {
				return fmt.Errorf("round %d class %d: the trees differ", r, k)
			}
		}
	}
	return nil
}

type failingWriter struct {
	left int
	err  error
	n    int
	once bool // only one write fails, the ones after it work
}

func (w *failingWriter) WriteString(s string) (int, error) {
	w.n++
	if w.left == 0 {
		if w.once {
			w.left = -1
		}
		return 0, w.err
	}
	w.left--
	return len(s), nil
}

// An error of the writer at every single write of the output.
func TestC07_writeErrors(t *testing.T) {
	check(t, 1500, func(t *rapid.T) {
		_, text := genModelText(t, genModelSpec{maxClasses: 4, maxRounds: 4, maxDepth: 2, features: 2, values: "small"})
		m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
		if err != nil {
			t.Fatalf("a well-formed model is rejected: %v\n%s", err, text)
		}
		boom := errors.New("boom")
		probe := &failingWriter{left: -1}
		if err := boo.JSONMultiClass(m, "softmax", probe); err != nil {
			t.Fatalf("writing: %v", err)
		}
		for i := 0; i < probe.n; i++ {
			for _, once := range []bool{false, true} {
				w := &failingWriter{left: i, err: boom, once: once}
				if err := boo.JSONMultiClass(m, "softmax", w); err == nil {
					t.Fatalf("write %d of %d failed (the ones after it work: %v) and no error was returned\n%s", i+1, probe.n, once, text)
				}
			}
		}
		if probe.n > 1 {
			nontrivial("%d writes %s", probe.n, text)
		}
	})
}

// jt is a tree type of the harness' own, to use the serializer on its own.
type jt struct {
	n    *utils.JSONNode
	l, r *jt
}

func (x *jt) JNode(id uint, s ...bool) *utils.JSONNode {
	c := *x.n
	c.Id = id
	return &c
}
func (x *jt) Leftf(l utils.JTree) utils.JTree {
	if l != nil {
		x.l = l.(*jt)
	}
	if x.l == nil {
		return nil
	}
	return x.l
}
func (x *jt) Rightf(r utils.JTree) utils.JTree {
	if r != nil {
		x.r = r.(*jt)
	}
	if x.r == nil {
		return nil
	}
	return x.r
}
func (x *jt) Leaf() bool { return x.n.Leaf }

func toJT(n *node) *jt {
	x := &jt{n: &utils.JSONNode{Leaf: n.leaf, XGB: n.xgb, SplitFeatureIndex: n.feature, Threshold: n.threshold,
		BestScoreSoFar: n.score, Value: n.value, Nsamples: n.nsamples, Branches: n.branches}}
	if n.left != nil {
		x.l = toJT(n.left)
	}
	if n.right != nil {
		x.r = toJT(n.right)
	}
	return x
}

func fromJT(x *jt) *node {
	n := fromJNode(x.n)
	if x.l != nil {
		n.left = fromJT(x.l)
	}
	if x.r != nil {
		n.right = fromJT(x.r)
	}
	return n
}

func TestC07_treeSerializer(t *testing.T) {
	check(t, 8000, func(t *rapid.T) {
		n := genNode(t, genModelSpec{features: 5, values: "any"}, rapid.Bool().Draw(t, "xgb"), rapid.IntRange(0, 6).Draw(t, "depth"))
		x := toJT(n)
		lines, id, err := utils.JSONTree(x)
		if err != nil {
			t.Fatalf("writing: %v", err)
		}
		if len(lines) != n.branches {
			t.Fatalf("%d lines for %d nodes", len(lines), n.branches)
		}
		if id == 0 {
			t.Fatalf("identifier 0 is reserved for missing children")
		}
		for _, l := range lines {
			if bytes.ContainsRune(l, '\n') {
				t.Fatalf("a node is on several lines: %s", l)
			}
		}
		first := string(lines[0])
		rest := ""
		for _, l := range lines[1:] {
			rest += string(l) + "\n"
		}
		if rapid.Bool().Draw(t, "nonewline") {
			rest = strings.TrimSuffix(rest, "\n")
		}
		tail := ""
		if strings.HasSuffix(rest, "\n") || rest == "" {
			tail = "NEXT\n"
		}
		r := genReader(t, rest+tail)
		back, err := utils.UnJSONTree(first, r, func(j *utils.JSONNode) utils.JTree { return &jt{n: j} })
		if err != nil {
			t.Fatalf("reading: %v", err)
		}
		if !sameTree(n, fromJT(back.(*jt))) {
			t.Fatalf("the tree changed: %s", first+"\n"+rest)
		}
		after, _ := io.ReadAll(r)
		if string(after) != tail {
			t.Fatalf("reading a tree left %q of the rest of the file, %q follows", after, tail)
		}
		if n.branches > 1 {
			nontrivial("%s", first+rest)
		}
		// a number JSON cannot hold, anywhere in the tree, must not go unnoticed
		k := rapid.IntRange(0, n.branches-1).Draw(t, "badnode")
		i := 0
		n.walk(func(y *node) {
			if i == k {
				y.value = math.NaN()
			}
			i++
		})
		if _, _, err := utils.JSONTree(toJT(n)); err == nil {
			t.Fatalf("a tree with a NaN in node %d of %d was written without error", k, n.branches)
		}
	})
}

// Many labels: the first line alone is longer than any usual line buffer.
func TestC07_manyLabels(t *testing.T) {
	check(t, 6, func(t *rapid.T) {
		ref, _ := genModelText(t, genModelSpec{maxClasses: 3, maxRounds: 3, maxDepth: 2, features: 2, values: "small"})
		n := rapid.IntRange(9000, 14000).Draw(t, "labels")
		for i := 0; i < n; i++ {
			ref.ClassLabels = append(ref.ClassLabels, 1000000+i)
		}
		text := ref.text()
		m, err := boo.UnJSONMultiClass(genReader(t, text))
		if err != nil {
			t.Fatalf("a model with %d classes is rejected: %v", n, err)
		}
		if !equalInts(m.ClassLabels(), ref.ClassLabels) {
			t.Fatalf("%d labels, %d written", len(m.ClassLabels()), len(ref.ClassLabels))
		}
		q := []float64{0.3, -0.2}
		if !near(m.PredictSingle(q), ref.probs(q), ref.tol(q)) {
			t.Fatalf("wrong prediction with %d classes", n)
		}
		nontrivial("%d labels", n)
		text2, err := modelText(m)
		if err != nil {
			t.Fatalf("a model with %d classes cannot be written: %v", n, err)
		}
		again, err := parseModel(text2)
		if err == nil {
			err = sameRefModel(ref, again)
		}
		if err != nil {
			t.Fatalf("a model with %d classes is written differently (%v)", n, err)
		}
	})
}

// Another activation function, which a program has added to the library's list.
const rawName = "boocheck raw scores"

func init() {
	boo.ProbTransformMap[rawName] = func(o, d *mat.Dense) *mat.Dense {
		if d == nil {
			r, c := o.Dims()
			d = mat.NewDense(r, c, nil)
		}
		d.Copy(o)
		return d
	}
}

// The activation is the one that the file names, and the name is the one given.
func TestC07_activations(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		ref, text := genModelText(t, genModelSpec{maxClasses: 6, maxRounds: 5, maxDepth: 3, features: 4, values: "small"})
		raw := rapid.Bool().Draw(t, "raw")
		name := "softmax"
		if raw {
			name = rawName
		}
		noteCase("%s %s", name, text)
		m, err := boo.UnJSONMultiClass(genReader(t, text))
		if err != nil {
			t.Fatalf("reading: %v\n%s", err, text)
		}
		var b strings.Builder
		if err := boo.JSONMultiClass(m, name, &b); err != nil {
			t.Fatalf("writing: %v", err)
		}
		again, err := parseModel(b.String())
		if err != nil {
			t.Fatalf("written: %v\n%s", err, b.String())
		}
		if again.ProbTransformName != name {
			t.Fatalf("written with activation %q instead of %q", again.ProbTransformName, name)
		}
		m2, err := boo.UnJSONMultiClass(genReader(t, b.String()))
		if err != nil {
			t.Fatalf("reading again: %v\n%s", err, b.String())
		}
		for i := 0; i < 3; i++ {
			q := genVector(t, 4, mildFloats)
			got := m2.PredictSingle(q)
			want := ref.probs(q)
			if raw {
				want = ref.raw(q)
			}
			if !near(got, want, 1e-9*(1+maxAbs(want))+ref.tol(q)) {
				t.Fatalf("activation %s: %v predicted for %v, expected %v\n%s", name, got, q, want, b.String())
			}
		}
		classIf(raw, "added activation")
		if len(ref.rounds) > 0 {
			nontrivial("%s %s", name, text)
		}
	})
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}
