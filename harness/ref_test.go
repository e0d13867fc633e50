package boocheck

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
)

// ------------------------------------------------------------ reference trees

// node is the harness' own view of a tree node.
type node struct {
	leaf      bool
	xgb       bool
	feature   int
	threshold float64
	score     float64
	value     float64
	nsamples  int
	branches  int
	left      *node
	right     *node
	samples   []int // only for trees observed directly, may be nil
}

func fromJNode(j *utils.JSONNode) *node {
	return &node{leaf: j.Leaf, xgb: j.XGB, feature: j.SplitFeatureIndex, threshold: j.Threshold,
		score: j.BestScoreSoFar, value: j.Value, nsamples: j.Nsamples, branches: j.Branches, samples: j.Samples}
}

// observe reads a whole tree through its exported accessors.
func observe(t utils.JTree) *node {
	n := fromJNode(t.JNode(1, true))
	if l := t.Leftf(nil); l != nil {
		n.left = observe(l)
	}
	if r := t.Rightf(nil); r != nil {
		n.right = observe(r)
	}
	return n
}

func (n *node) eval(row []float64) float64 {
	for !n.leaf {
		if row[n.feature] <= n.threshold {
			n = n.left
		} else {
			n = n.right
		}
	}
	return n.value
}

func (n *node) walk(f func(*node)) {
	if n == nil {
		return
	}
	f(n)
	n.left.walk(f)
	n.right.walk(f)
}

func (n *node) depth() int {
	if n == nil || n.leaf {
		return 0
	}
	return 1 + max(n.left.depth(), n.right.depth())
}

// spec says what a tree must be the exact greedy tree of.
type spec struct {
	X          [][]float64
	cols       []int // allowed columns, nil or empty for all
	xgb        bool
	g, h       []float64 // xgb
	y          []float64 // plain
	lambda     float64
	gamma      float64
	mcw        float64
	depth      int
	scale      float64 // usual size of g, h, y; 0 stands for 1
	noise      float64 // absolute uncertainty of every g, h, y the reference has
	splits     bool    // check that splits are optimal
	structure  bool    // check partition, counts, depth
	values     bool    // check leaf values by the plain formulas
	newton     bool    // leaf values are sum(y)/sum(nh) instead of the mean
	nh         []float64
	sureZero   []bool // rows whose hessian is exactly 0, whatever the rounding
	unverified int
}

func (s *spec) columns() []int {
	if len(s.cols) > 0 {
		return s.cols
	}
	c := make([]int, len(s.X[0]))
	for i := range c {
		c[i] = i
	}
	return c
}

// objective of a partition, and a bound on what rounding may have done to it.
func (s *spec) objective(left, right []int) (obj, tol float64) {
	n := float64(len(left) + len(right))
	if s.xgb {
		var gl, hl, gr, hr, ga float64
		for _, i := range left {
			gl += s.g[i]
			hl += s.h[i]
			ga += math.Abs(s.g[i])
		}
		for _, i := range right {
			gr += s.g[i]
			hr += s.h[i]
			ga += math.Abs(s.g[i])
		}
		g, h := gl+gr, hl+hr
		t1, t2, t3 := gl*gl/(hl+s.lambda), gr*gr/(hr+s.lambda), g*g/(h+s.lambda)
		obj = 0.5*(t1+t2-t3) - s.gamma/2
		minden := math.Min(math.Min(hl, hr)+s.lambda, h+s.lambda)
		tol = 1e-9*(1+t1+t2+t3+s.gamma) + s.noise*n*(ga/minden)*(4+2*ga/minden)
		return
	}
	var sl, sr, sa float64
	for _, i := range left {
		sl += s.y[i]
		sa += math.Abs(s.y[i])
	}
	for _, i := range right {
		sr += s.y[i]
		sa += math.Abs(s.y[i])
	}
	nl, nr := float64(len(left)), float64(len(right))
	t1, t2, t3 := sl*sl/nl, sr*sr/nr, (sl+sr)*(sl+sr)/n
	obj = -t1 - t2 + t3
	tol = 1e-9*(1+t1+t2+t3) + 4*s.noise*n*sa
	return
}

// better says that a is at least as good as b - tol
func (s *spec) notWorse(a, b, tol float64) bool {
	if s.xgb {
		return a >= b-tol
	}
	return a <= b+tol
}

// best admissible split of the rows; ok is false if there is none.
func (s *spec) best(rows []int) (obj, tol float64, ok bool) {
	mcw := int(s.mcw)
	for _, c := range s.columns() {
		r := append([]int(nil), rows...)
		sort.SliceStable(r, func(a, b int) bool { return s.X[r[a]][c] < s.X[r[b]][c] })
		for i := 1; i < len(r); i++ {
			if s.X[r[i-1]][c] == s.X[r[i]][c] {
				continue
			}
			if i < mcw || len(r)-i < mcw {
				continue
			}
			o, t := s.objective(r[:i], r[i:])
			if math.IsNaN(o) || math.IsInf(o, 0) {
				continue
			}
			if !ok || (s.xgb && o > obj) || (!s.xgb && o < obj) {
				obj = o
			}
			tol = math.Max(tol, t)
			ok = true
		}
	}
	return
}

func (s *spec) leafValue(rows []int) (v, tol float64, ok bool) {
	n := float64(len(rows))
	if s.newton {
		var sy, sh, sa float64
		zero := s.sureZero != nil
		for _, i := range rows {
			zero = zero && s.sureZero[i]
			sy += s.y[i]
			sa += math.Abs(s.y[i])
			sh += s.nh[i]
		}
		if zero {
			return 0, 0, true
		}
		small := 1e-9
		if s.scale > 0 {
			small *= s.scale
		}
		if sh < small {
			// The hessian has vanished (or all but): the quotient is not
			// determined by the data to any precision.
			return 0, 0, false
		}
		v = sy / sh
		tol = 1e-9*(1+math.Abs(v)) + s.noise*n*10*(1+math.Abs(v))/sh
		return v, tol, tol < 1e-3*(1+math.Abs(v))
	}
	if s.xgb {
		var g, h, ga float64
		for _, i := range rows {
			g += s.g[i]
			ga += math.Abs(s.g[i])
			h += s.h[i]
		}
		v = -g / (h + s.lambda)
		tol = 1e-9*(1+math.Abs(v)+ga/(h+s.lambda)) + s.noise*n*(1+math.Abs(v))/(h+s.lambda)
		return v, tol, tol < 1e-3*(1+math.Abs(v))
	}
	var y, ya float64
	for _, i := range rows {
		y += s.y[i]
		ya += math.Abs(s.y[i])
	}
	v = y / n
	return v, 1e-9*(1+ya/n) + s.noise, true
}

// verify checks a whole tree grown from the given rows against the spec.
func (s *spec) verify(n *node, rows []int) error {
	return s.verifyNode(n, rows, s.depth, "root")
}

func (s *spec) verifyNode(n *node, rows []int, depth int, path string) error {
	if n == nil {
		return fmt.Errorf("%s: missing node", path)
	}
	if s.structure {
		if n.xgb != s.xgb {
			return fmt.Errorf("%s: node says xgb=%v", path, n.xgb)
		}
		if n.nsamples != len(rows) {
			return fmt.Errorf("%s: node reports %d samples, %d reach it", path, n.nsamples, len(rows))
		}
		if n.samples != nil {
			a, b := append([]int(nil), n.samples...), append([]int(nil), rows...)
			sort.Ints(a)
			sort.Ints(b)
			if !equalInts(a, b) {
				return fmt.Errorf("%s: node holds samples %v, %v reach it", path, a, b)
			}
		}
		br := 1
		if n.left != nil {
			br += n.left.branches
		}
		if n.right != nil {
			br += n.right.branches
		}
		if n.branches != br {
			return fmt.Errorf("%s: node reports %d nodes, has %d", path, n.branches, br)
		}
	}
	best, btol, ok := s.best(rows)
	if n.leaf {
		if s.structure && (n.left != nil || n.right != nil) {
			return fmt.Errorf("%s: leaf with children", path)
		}
		if s.splits && depth > 0 && ok && (!s.xgb || best > btol) {
			return fmt.Errorf("%s: left as a leaf (%d rows) though a split with objective %v exists", path, len(rows), best)
		}
		if s.values {
			v, tol, known := s.leafValue(rows)
			if !known {
				s.unverified++
				if math.IsNaN(n.value) || math.IsInf(n.value, 0) {
					return fmt.Errorf("%s: leaf value %v", path, n.value)
				}
			} else if !(math.Abs(v-n.value) <= tol) {
				return fmt.Errorf("%s: leaf value %v, expected %v (rows %v)", path, n.value, v, rows)
			}
		}
		return nil
	}
	if n.left == nil || n.right == nil {
		return fmt.Errorf("%s: split node without two children", path)
	}
	if n.feature < 0 || n.feature >= len(s.X[0]) {
		return fmt.Errorf("%s: split on feature %d", path, n.feature)
	}
	allowed := false
	for _, c := range s.columns() {
		allowed = allowed || c == n.feature
	}
	if !allowed {
		return fmt.Errorf("%s: split on column %d, allowed are %v", path, n.feature, s.cols)
	}
	if depth <= 0 {
		return fmt.Errorf("%s: deeper than the depth limit", path)
	}
	var l, r []int
	lo, hi := math.Inf(-1), math.Inf(1)
	for _, i := range rows {
		x := s.X[i][n.feature]
		if x <= n.threshold {
			l = append(l, i)
			lo = math.Max(lo, x)
		} else {
			r = append(r, i)
			hi = math.Min(hi, x)
		}
	}
	if len(l) == 0 || len(r) == 0 {
		return fmt.Errorf("%s: split at %v of feature %d leaves an empty side", path, n.threshold, n.feature)
	}
	if s.splits {
		if len(l) < int(s.mcw) || len(r) < int(s.mcw) {
			return fmt.Errorf("%s: split into %d and %d samples, minimum is %v", path, len(l), len(r), s.mcw)
		}
		mid := lo/2 + hi/2
		if math.Abs(n.threshold-mid) > 1e-9*(math.Abs(lo)/2+math.Abs(hi)/2) && !(n.threshold >= lo && n.threshold < hi && hi-lo < 1e-300) {
			return fmt.Errorf("%s: cut at %v is not the midpoint of %v and %v", path, n.threshold, lo, hi)
		}
		o, tol := s.objective(l, r)
		if !ok || !s.notWorse(o, best, tol+btol) {
			return fmt.Errorf("%s: split on feature %d at %v has objective %v, the best possible is %v", path, n.feature, n.threshold, o, best)
		}
		if s.xgb && o < -tol {
			return fmt.Errorf("%s: split with negative gain %v", path, o)
		}
		if !(math.Abs(n.score-o) <= tol+1e-9*math.Abs(o)) {
			return fmt.Errorf("%s: reported score %v, objective of the split is %v", path, n.score, o)
		}
	}
	if err := s.verifyNode(n.left, l, depth-1, path+"L"); err != nil {
		return err
	}
	return s.verifyNode(n.right, r, depth-1, path+"R")
}

// ----------------------------------------------------------- reference models

type refModel struct {
	LearningRate      float64
	ClassLabels       []int
	ProbTransformName string
	BaseScore         float64
	rounds            []map[int]*node // by class position
}

// parseModel is an independent reader of the serialized form.
func parseModel(text string) (*refModel, error) {
	if !strings.HasSuffix(text, "\n") {
		return nil, fmt.Errorf("model text does not end in a newline")
	}
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	m := &refModel{}
	if err := json.Unmarshal([]byte(lines[0]), m); err != nil {
		return nil, err
	}
	pos := 1
	var tree func() (*node, error)
	tree = func() (*node, error) {
		if pos >= len(lines) {
			return nil, fmt.Errorf("unexpected end")
		}
		j := &utils.JSONNode{}
		if err := json.Unmarshal([]byte(lines[pos]), j); err != nil {
			return nil, fmt.Errorf("line %d: %v: %q", pos+1, err, lines[pos])
		}
		pos++
		n := fromJNode(j)
		var err error
		if j.Leftid > 0 {
			if n.left, err = tree(); err != nil {
				return nil, err
			}
		}
		if j.Rightid > 0 {
			if n.right, err = tree(); err != nil {
				return nil, err
			}
		}
		return n, nil
	}
	for pos < len(lines) {
		var k, lab int
		if _, err := fmt.Sscanf(lines[pos], "ROUND %d", &k); err == nil {
			if k != len(m.rounds) {
				return nil, fmt.Errorf("line %d: round %d after %d rounds", pos+1, k, len(m.rounds))
			}
			m.rounds = append(m.rounds, map[int]*node{})
			pos++
			continue
		}
		if _, err := fmt.Sscanf(lines[pos], "CLASS %d, label: %d", &k, &lab); err != nil {
			return nil, fmt.Errorf("line %d: %q", pos+1, lines[pos])
		}
		if k < 0 || k >= len(m.ClassLabels) || m.ClassLabels[k] != lab {
			return nil, fmt.Errorf("line %d: class %d label %d, labels are %v", pos+1, k, lab, m.ClassLabels)
		}
		pos++
		n, err := tree()
		if err != nil {
			return nil, err
		}
		if len(m.rounds) == 0 {
			return nil, fmt.Errorf("tree before the first round")
		}
		cur := m.rounds[len(m.rounds)-1]
		if cur[k] != nil {
			return nil, fmt.Errorf("two trees for class %d in round %d", k, len(m.rounds)-1)
		}
		cur[k] = n
	}
	return m, nil
}

// boosted says whether the class was really boosted in that round: an
// early-stopped class may be absent or stand there as an empty (0 samples)
// leaf of value 0.
func (m *refModel) boosted(round, k int) bool {
	n := m.rounds[round][k]
	return n != nil && !(n.leaf && n.nsamples == 0 && n.value == 0)
}

func (m *refModel) raw(row []float64) []float64 {
	r := make([]float64, len(m.ClassLabels))
	for i := range r {
		r[i] = m.BaseScore
	}
	for _, round := range m.rounds {
		for k := range r {
			if n := round[k]; n != nil {
				r[k] += n.eval(row) * m.LearningRate
			}
		}
	}
	return r
}

// tol bounds what the order of the additions may do to a probability.
func (m *refModel) tol(row []float64) float64 {
	s := math.Abs(m.BaseScore)
	for _, round := range m.rounds {
		for _, n := range round {
			if n != nil {
				s += math.Abs(n.eval(row) * m.LearningRate)
			}
		}
	}
	return 1e-9 + 1e-14*s
}

// refSoftmax is the overflow-free definition.
func refSoftmax(x []float64) []float64 {
	mx := math.Inf(-1)
	for _, v := range x {
		mx = math.Max(mx, v)
	}
	out := make([]float64, len(x))
	s := 0.0
	for i, v := range x {
		out[i] = math.Exp(v - mx)
		s += out[i]
	}
	for i := range out {
		out[i] /= s
	}
	return out
}

func (m *refModel) probs(row []float64) []float64 { return refSoftmax(m.raw(row)) }

type textWriter struct{ strings.Builder }

func (w *textWriter) WriteString(s string) (int, error) { return w.Builder.WriteString(s) }

func modelText(m *boo.MultiClass) (string, error) {
	w := &textWriter{}
	err := boo.JSONMultiClass(m, "softmax", w)
	return w.String(), err
}

// -------------------------------------------------------------------- helpers

func equalInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBits(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float64bits(a[i]) != math.Float64bits(b[i]) {
			return false
		}
	}
	return true
}

func sameMatrix(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameBits(a[i], b[i]) {
			return false
		}
	}
	return true
}

func near(a, b []float64, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= tol) {
			return false
		}
	}
	return true
}

func copyMatrix(m [][]float64) [][]float64 {
	r := make([][]float64, len(m))
	for i := range m {
		r[i] = append([]float64(nil), m[i]...)
	}
	return r
}

func distinct(l []int) []int {
	var d []int
	seen := map[int]bool{}
	for _, v := range l {
		if !seen[v] {
			seen[v] = true
			d = append(d, v)
		}
	}
	return d
}

func argmax(p []float64) int {
	b := 0
	for i, v := range p {
		if v > p[b] {
			b = i
		}
	}
	return b
}

func allRows(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func sortedInts(l []int) []int {
	r := append([]int(nil), l...)
	sort.Ints(r)
	return r
}
