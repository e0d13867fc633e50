package boocheck

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// genModelSpec bounds the models written by hand.
type genModelSpec struct {
	maxClasses, maxRounds, maxDepth, features int
	values                                    string // "any" or "small"
}

func genNode(t *rapid.T, s genModelSpec, xgb bool, depth int) *node {
	leaf := depth == 0 || rapid.IntRange(0, 2).Draw(t, "leaf") == 0
	n := &node{leaf: leaf, xgb: xgb, branches: 1, nsamples: rapid.IntRange(1, 50).Draw(t, "ns")}
	if s.values == "any" {
		n.value = rapid.OneOf(rapid.Float64Range(-3, 3), rapid.SampledFrom([]float64{0, 0, 1, -1, 800, -800, 1e6, -1e6, 1e100, -1e100, 1e300})).Draw(t, "value")
	} else {
		n.value = rapid.Float64Range(-3, 3).Draw(t, "value")
	}
	if leaf {
		if !xgb {
			n.score = 0.1189998819991197253
		}
		return n
	}
	n.feature = rapid.IntRange(0, s.features-1).Draw(t, "feature")
	n.threshold = rapid.OneOf(rapid.Float64Range(-5, 5), rapid.SampledFrom([]float64{0, 0.5, -1, 1e300, -1e300, 5e-324})).Draw(t, "threshold")
	n.score = rapid.Float64Range(0.001, 50).Draw(t, "score")
	if !xgb {
		n.score = -n.score
	}
	n.left = genNode(t, s, xgb, depth-1)
	n.right = genNode(t, s, xgb, depth-1)
	n.branches = 1 + n.left.branches + n.right.branches
	return n
}

// genChain draws a deep tree with one split per level.
func genChain(t *rapid.T, s genModelSpec, xgb bool, depth int) *node {
	n := genNode(t, s, xgb, 0)
	for ; depth > 0; depth-- {
		f, o := genNode(t, s, xgb, 0), genNode(t, s, xgb, 0)
		f.leaf, f.score = false, 0.5
		if !xgb {
			f.score = -0.5
		}
		f.feature = rapid.IntRange(0, s.features-1).Draw(t, "feature")
		f.threshold = rapid.Float64Range(-5, 5).Draw(t, "threshold")
		f.left, f.right = n, o
		if rapid.Bool().Draw(t, "side") {
			f.left, f.right = o, n
		}
		f.branches = 1 + f.left.branches + f.right.branches
		n = f
	}
	return n
}

// treeText writes a tree the way the documented format has it: one JSON object
// per node, the node, its left subtree, its right subtree.
func treeText(n *node, b *strings.Builder, id *uint) {
	*id++
	j := &utils.JSONNode{Id: *id, Nsamples: n.nsamples, SplitFeatureIndex: n.feature, BestScoreSoFar: n.score, Leaf: n.leaf,
		Threshold: n.threshold, Branches: n.branches, Value: n.value, XGB: n.xgb}
	var l, r strings.Builder
	if n.left != nil {
		j.Leftid = *id + 1
		treeText(n.left, &l, id)
	}
	if n.right != nil {
		j.Rightid = *id + 1
		treeText(n.right, &r, id)
	}
	x, err := json.Marshal(j)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	b.Write(x)
	b.WriteByte('\n')
	b.WriteString(l.String())
	b.WriteString(r.String())
}

func (m *refModel) text() string {
	var b strings.Builder
	h, err := json.Marshal(map[string]any{"LearningRate": m.LearningRate, "ClassLabels": m.ClassLabels, "ProbTransformName": m.ProbTransformName, "BaseScore": m.BaseScore})
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	b.Write(h)
	b.WriteByte('\n')
	for r := range m.rounds {
		fmt.Fprintf(&b, "ROUND %d\n", r)
		for k := range m.ClassLabels {
			n := m.rounds[r][k]
			if n == nil {
				continue
			}
			fmt.Fprintf(&b, "CLASS %d, label: %d \n", k, m.ClassLabels[k])
			var id uint
			treeText(n, &b, &id)
		}
	}
	return b.String()
}

// genModelText draws a complete model that was never trained.
func genModelText(t *rapid.T, s genModelSpec) (*refModel, string) {
	k := rapid.IntRange(1, s.maxClasses).Draw(t, "classes")
	if seldom(t, 6, "large") {
		k = rapid.IntRange(9, 40).Draw(t, "classes")
		s.maxDepth = min(s.maxDepth, 2)
	}
	xgb := rapid.Bool().Draw(t, "xgb")
	m := &refModel{LearningRate: rapid.SampledFrom([]float64{0.1, 1, 0.3, 2, 0.1, 1, 1e-4, 1e-12, 1e-300, 0.123456789012345}).Draw(t, "lr"), ClassLabels: genLabelNames(t, k),
		ProbTransformName: "softmax", BaseScore: rapid.SampledFrom([]float64{0, 0.5, -3, 0, 0.5, -3, 1e-7, 1e7, 0.123456789012345}).Draw(t, "base")}
	rounds := rapid.IntRange(0, s.maxRounds).Draw(t, "rounds")
	if k < 4 && seldom(t, 6, "manyrounds") {
		rounds = rapid.IntRange(40, 150).Draw(t, "rounds")
		s.maxDepth = min(s.maxDepth, 1)
		class("40 or more rounds")
	}
	chain := seldom(t, 5, "chain")
	for r := rounds; r > 0; r-- {
		round := map[int]*node{}
		for c := 0; c < k; c++ {
			if chain && seldom(t, 2, "here") {
				round[c] = genChain(t, s, xgb, rapid.IntRange(8, 60).Draw(t, "chaindepth"))
				class("tree of depth 8 or more")
				continue
			}
			round[c] = genNode(t, s, xgb, s.maxDepth)
		}
		m.rounds = append(m.rounds, round)
	}
	return m, m.text()
}
