package boocheck

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

var featIndex = regexp.MustCompile(`"SplitFeatureIndex":(-?\d+)`)

// use does with a model that was accepted everything a user may do with it;
// a panic is the violation.
func use(t *rapid.T, m *boo.MultiClass) {
	if m == nil {
		t.Fatalf("no model and no error")
	}
	if m.Classes() < 1 || len(m.ClassLabels()) != m.Classes() {
		t.Fatalf("%d classes, labels %v", m.Classes(), m.ClassLabels())
	}
	text, err := modelText(m)
	if err != nil {
		t.Fatalf("a model that was read cannot be written: %v", err)
	}
	long := 0
	for _, f := range featIndex.FindAllStringSubmatch(text, -1) {
		i, err := strconv.Atoi(f[1])
		if err != nil {
			t.Fatalf("feature index %s in an accepted model", f[1])
		}
		long = max(long, i)
	}
	for k := -1; k <= m.Classes(); k++ {
		_ = m.Rounds(k)
	}
	_ = m.Rounds()
	if fi, err := m.FeatureImportance(); err == nil {
		_ = fi.String()
	}
	if long > 1<<20 {
		class("feature index too large to try")
	} else {
		q := make([]float64, long+1)
		for j := 0; j < 4; j++ {
			p := m.PredictSingle(q)
			if len(p) != m.Classes() {
				t.Fatalf("%d probabilities for %d classes", len(p), m.Classes())
			}
			if k := m.PredictSingleClass(q); k < 0 || k >= m.Classes() {
				t.Fatalf("class %d of %d", k, m.Classes())
			}
			for i := range q {
				q[i] = []float64{math.Inf(1), math.Inf(-1), 1, 0}[(i+j)%4]
			}
		}
		a := m.Accuracy(&utils.DataBunch{Data: [][]float64{q}, Labels: []int{m.ClassLabels()[0]}})
		if a != 0 && a != 100 {
			t.Fatalf("accuracy %v for one vector", a)
		}
	}
	// saving and loading it again may fail, but not crash
	_, _ = boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(text)))
}

// smallModel draws the text of a model: trained, or made up.
func smallModel(t *rapid.T) (*refModel, string) {
	if rapid.IntRange(0, 3).Draw(t, "trained") == 0 {
		ds := genData(t, 2, 10, 10, 3, 3, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 3, noSub: true, earlyStop: true})
		o.MaxDepth = rapid.IntRange(1, 2).Draw(t, "depth")
		_, ref, text := trainModel(t, ds.D, o)
		return ref, text
	}
	return genModelText(t, genModelSpec{maxClasses: 3, maxRounds: 3, maxDepth: 2, features: 3, values: "any"})
}

// complete lists, per round, how many trees are completely present in the
// first n bytes of a model's text.
func treesWithin(ref *refModel, text string, n int) []int {
	// the text is the metadata, then ROUND / CLASS / nodes lines
	var out []int
	pos := strings.IndexByte(text, '\n') + 1
	for r := range ref.rounds {
		pos += strings.IndexByte(text[pos:], '\n') + 1
		if pos-1 > n { // the ROUND line is not complete (its newline does not matter)
			return out
		}
		out = append(out, 0)
		for k := range ref.ClassLabels {
			if ref.rounds[r][k] == nil {
				continue
			}
			pos += strings.IndexByte(text[pos:], '\n') + 1
			for i := ref.rounds[r][k].branches; i > 0; i-- {
				pos += strings.IndexByte(text[pos:], '\n') + 1
			}
			if pos-1 > n {
				return out
			}
			out[r]++
		}
	}
	return out
}

// Every truncation point of a file.
func TestC08_truncation(t *testing.T) {
	check(t, 200, func(t *rapid.T) {
		ref, text := smallModel(t)
		ok := true
		for _, r := range ref.rounds {
			for _, n := range r {
				b := 0
				n.walk(func(*node) { b++ })
				ok = ok && b == n.branches
			}
		}
		if !ok || len(text) > 9000 {
			return
		}
		accepted := 0
		noteCase("some prefix of: %s", text)
		for n := 0; n < len(text); n++ {
			cut := text[:n]
			m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(cut)))
			if err != nil {
				continue
			}
			accepted++
			out, err := modelText(m)
			if err != nil {
				t.Fatalf("cut at %d: %v", n, err)
			}
			got, err := parseModel(out)
			if err != nil {
				t.Fatalf("cut at %d of\n%s\nwas read as\n%s\n(%v)", n, text, out, err)
			}
			if got.LearningRate != ref.LearningRate || got.BaseScore != ref.BaseScore || !equalInts(got.ClassLabels, ref.ClassLabels) {
				t.Fatalf("cut at %d of\n%s\nwas read as\n%s", n, text, out)
			}
			want := treesWithin(ref, text, n)
			for len(got.rounds) > len(want) && len(got.rounds[len(got.rounds)-1]) == 0 {
				got.rounds = got.rounds[:len(got.rounds)-1]
			}
			for len(want) > len(got.rounds) && want[len(want)-1] == 0 {
				want = want[:len(want)-1]
			}
			if len(got.rounds) != len(want) {
				t.Fatalf("cut at %d of\n%s\nwas read with %d rounds instead of %d", n, text, len(got.rounds), len(want))
			}
			for r := range want {
				if len(got.rounds[r]) != want[r] {
					t.Fatalf("cut at %d of\n%s\nround %d was read with %d trees instead of %d", n, text, r, len(got.rounds[r]), want[r])
				}
				for k, x := range got.rounds[r] {
					if !sameTree(x, ref.rounds[r][k]) {
						t.Fatalf("cut at %d of\n%s\nthe tree of round %d class %d was altered:\n%s", n, text, r, k, out)
					}
				}
			}
			q := []float64{0.1, -0.2, 0.3}
			if !near(m.PredictSingle(q), got.probs(q), got.tol(q)) {
				t.Fatalf("cut at %d of\n%s\nprediction %v, the trees give %v", n, text, m.PredictSingle(q), got.probs(q))
			}
		}
		class("model")
		stats.mu.Lock()
		stats.Classes["truncated files accepted"] += int64(accepted)
		stats.Classes["truncated files tried"] += int64(len(text))
		stats.mu.Unlock()
		if len(ref.rounds) > 0 {
			nontrivial("%s", text)
		}
	})
}

func genEdit(t *rapid.T, lines []string) ([]string, string) {
	i := rapid.IntRange(0, len(lines)-1).Draw(t, "line")
	l := append([]string(nil), lines...)
	j := rapid.IntRange(0, len(lines)-1).Draw(t, "line2")
	what := rapid.SampledFrom([]string{"delete", "duplicate", "swap", "insert", "field", "field", "field", "field", "drop", "byte", "byte", "chop", "type"}).Draw(t, "edit")
	switch what {
	case "delete":
		l = append(l[:i], l[i+1:]...)
	case "duplicate":
		l = append(l[:i+1], append([]string{l[i]}, l[i+1:]...)...)
	case "swap":
		l[i], l[j] = l[j], l[i]
	case "insert":
		s := rapid.SampledFrom([]string{"", "ROUND", "ROUND 1", "CLASS 0, label: 1", "CLASS 7, label: 99", "{}", "null", "[]", "0", "garbage", `{"Leaf":true}`, `{"Leftid":2}`, `{"Leftid":2,"Rightid":3,"BestScoreSoFar":1,"XGB":true}`}).Draw(t, "ins")
		l = append(l[:i], append([]string{s}, l[i:]...)...)
	case "chop":
		l[i] = l[i][:rapid.IntRange(0, len(l[i])).Draw(t, "at")]
	case "byte":
		b := []byte(l[i])
		if len(b) > 0 {
			k := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			b[k] = rapid.Byte().Draw(t, "byte")
			l[i] = string(b)
		}
	default:
		var m map[string]any
		if json.Unmarshal([]byte(l[i]), &m) == nil && m != nil {
			keys := []string{"Id", "Nsamples", "Samples", "SplitFeatureIndex", "BestScoreSoFar", "Leaf", "Threshold", "Leftid", "Rightid", "Branches", "Value", "XGB"}
			if i == 0 {
				keys = []string{"LearningRate", "ClassLabels", "ProbTransformName", "BaseScore"}
			}
			k := rapid.SampledFrom(keys).Draw(t, "key")
			switch what {
			case "drop":
				delete(m, k)
			case "type":
				m[k] = rapid.SampledFrom([]any{"x", nil, map[string]any{}, []any{}, true, []any{1, 2, 3}, json.Number("1e999"), json.Number("1.5")}).Draw(t, "v")
			default:
				switch k {
				case "Leaf", "XGB":
					b, _ := m[k].(bool)
					m[k] = !b
				case "ClassLabels":
					m[k] = rapid.SampledFrom([]any{[]int{}, []int{1}, []int{1, 1}, []int{1, 2, 3, 4}, nil}).Draw(t, "v")
				case "ProbTransformName":
					m[k] = rapid.SampledFrom([]any{"", "SoftMax", "sigmoid", "softmax "}).Draw(t, "v")
				case "Samples":
					m[k] = []int{-1, 100}
				default:
					m[k] = rapid.SampledFrom([]any{0, 1, 2, -1, 7, 1000, json.Number("-9223372036854775808"), json.Number("9223372036854775807"), 0.5, -2.5, json.Number("1e308"), json.Number("18446744073709551615")}).Draw(t, "v")
				}
			}
			b, err := json.Marshal(m)
			if err == nil {
				l[i] = string(b)
			}
		}
	}
	return l, what
}

// Edited and corrupted files: rejected, or a model that can be used.
func TestC08_edits(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		_, text := genModelText(t, genModelSpec{maxClasses: 3, maxRounds: 3, maxDepth: 3, features: 3, values: "any"})
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		what := ""
		for i := rapid.IntRange(1, 3).Draw(t, "edits"); i > 0 && len(lines) > 0; i-- {
			lines, what = genEdit(t, lines)
		}
		in := strings.Join(lines, "\n")
		if rapid.Bool().Draw(t, "newline") {
			in += "\n"
		}
		noteCase("%s", in)
		m, err := boo.UnJSONMultiClass(bufio.NewReader(strings.NewReader(in)))
		if err != nil {
			class("rejected")
		} else {
			class("accepted")
			use(t, m)
		}
		class("last edit " + what)
		if in != text {
			nontrivial("%s", in)
		}
	})
}

// Files that break one of the named rules must be rejected.
func TestC08_mustReject(t *testing.T) {
	check(t, 9000, func(t *rapid.T) {
		ref, text := genModelText(t, genModelSpec{maxClasses: 4, maxRounds: 4, maxDepth: 3, features: 3, values: "any"})
		kind := rapid.SampledFrom([]string{"activation", "child", "trees", "labels", "garbage"}).Draw(t, "kind")
		var bad string
		switch kind {
		case "activation":
			name := rapid.SampledFrom([]string{"", "SoftMax", "SOFTMAX", "sigmoid", "softmax ", "softmaxx", "none"}).Draw(t, "name")
			if rapid.Bool().Draw(t, "any") {
				name = rapid.String().Draw(t, "anyname")
			}
			if boo.ProbTransformMap[name] != nil || strings.ToValidUTF8(name, "?") != name {
				return
			}
			ref.ProbTransformName = name
			bad = ref.text()
		case "child": // one child of one split node disappears
			var splits []*node
			for _, r := range ref.rounds {
				for k := range ref.ClassLabels {
					r[k].walk(func(n *node) {
						if !n.leaf {
							splits = append(splits, n)
						}
					})
				}
			}
			if len(splits) == 0 {
				return
			}
			n := rapid.SampledFrom(splits).Draw(t, "node")
			switch rapid.IntRange(0, 2).Draw(t, "which") {
			case 0:
				n.left = nil
			case 1:
				n.right = nil
			default:
				n.left, n.right = nil, nil
			}
			bad = ref.text()
		case "trees":
			if len(ref.rounds) == 0 {
				return
			}
			r := rapid.IntRange(0, len(ref.rounds)-1).Draw(t, "round")
			var b strings.Builder
			var id uint
			treeText(ref.rounds[r][0], &b, &id)
			extra := b.String()
			if rapid.Bool().Draw(t, "classline") {
				extra = "CLASS 0, label: 0 \n" + extra
			}
			mark := fmt.Sprintf("ROUND %d\n", r)
			at := strings.Index(text, mark) + len(mark)
			if rapid.Bool().Draw(t, "atend") {
				at = len(text)
				if r+1 < len(ref.rounds) {
					at = strings.Index(text, fmt.Sprintf("ROUND %d\n", r+1))
				}
			}
			bad = text[:at] + extra + text[at:]
		case "labels":
			if len(ref.rounds) == 0 {
				return
			}
			rest := text[strings.IndexByte(text, '\n'):]
			bad = rapid.SampledFrom([]string{`{"LearningRate":0.1,"ClassLabels":[],"ProbTransformName":"softmax","BaseScore":0.5}`,
				`{"LearningRate":0.1,"ClassLabels":null,"ProbTransformName":"softmax","BaseScore":0.5}`,
				`{"LearningRate":0.1,"ProbTransformName":"softmax","BaseScore":0.5}`}).Draw(t, "meta") + rest
		default:
			i := rapid.IntRange(0, strings.Count(text, "\n")-1).Draw(t, "line")
			lines := strings.Split(text, "\n")
			lines[i] = rapid.SampledFrom([]string{"garbage", "[1,2]", `"text"`, "{", `{"Value":`, `{"Value":"a"}x`, "1e5"}).Draw(t, "g")
			bad = strings.Join(lines, "\n")
			if i > 0 && !strings.HasPrefix(strings.Split(text, "\n")[i], "{") {
				return
			}
		}
		noteCase("%s", bad)
		m, err := boo.UnJSONMultiClass(genReader(t, bad))
		if err == nil {
			out, _ := modelText(m)
			t.Fatalf("%s: accepted\n%s\nas\n%s", kind, bad, out)
		}
		class("rejected: " + kind)
		nontrivial("%s", bad)
	})
}

// Arbitrary bytes and arbitrary text over the format's own vocabulary.
func TestC08_anything(t *testing.T) {
	words := []string{"ROUND", "CLASS", "\n", "\n", "\n", "{", "}", "{}", "null", `{"ClassLabels":[1,2],"ProbTransformName":"softmax"}`, `{"ClassLabels":[],"ProbTransformName":"softmax"}`,
		`{"Leaf":true}`, `{"XGB":true}`, `{"Leftid":1}`, `{"Rightid":1}`, `{"Leftid":1,"Rightid":1,"BestScoreSoFar":-1}`, `{"Leftid":1,"Rightid":1,"XGB":true,"BestScoreSoFar":1}`,
		`{"SplitFeatureIndex":-1,"Leftid":1,"Rightid":1,"XGB":true,"BestScoreSoFar":1}`, "0", " ", "\r\n", "\x00", "\xff"}
	check(t, 12000, func(t *rapid.T) {
		var in string
		if rapid.IntRange(0, 4).Draw(t, "mode") == 0 {
			in = string(rapid.SliceOfN(rapid.Byte(), 0, 200).Draw(t, "bytes"))
		} else {
			in = strings.Join(rapid.SliceOfN(rapid.SampledFrom(words), 0, 20).Draw(t, "words"), "")
			if rapid.Bool().Draw(t, "start") {
				in = words[9] + "\n" + in
			}
		}
		noteCase("%q", in)
		m, err := boo.UnJSONMultiClass(genReader(t, in))
		if err != nil {
			class("rejected")
		} else {
			class("accepted")
			use(t, m)
		}
		if len(in) > 10 {
			nontrivial("%q", in)
		}
	})
}

// A reader that fails at any byte: the error must come back.
func TestC08_readErrors(t *testing.T) {
	check(t, 3000, func(t *rapid.T) {
		_, text := genModelText(t, genModelSpec{maxClasses: 3, maxRounds: 3, maxDepth: 2, features: 3, values: "small"})
		n := rapid.IntRange(0, len(text)).Draw(t, "at")
		if rapid.IntRange(0, 2).Draw(t, "lineend") == 0 { // right after a line
			if i := strings.LastIndexByte(text[:n], '\n'); i >= 0 {
				n = i + 1
			}
		}
		boom := errors.New(rapid.SampledFrom([]string{"boom", "EOF of a sort", "unexpected EOF", "eof"}).Draw(t, "msg"))
		if rapid.IntRange(0, 3).Draw(t, "std") == 0 {
			boom = io.ErrUnexpectedEOF
		}
		var r io.Reader = genFaultyReader(t, text, n, boom)
		if rapid.Bool().Draw(t, "byte") {
			r = iotest.OneByteReader(r)
		}
		noteCase("fails after %d bytes: %s", n, text)
		_, err := boo.UnJSONMultiClass(bufio.NewReaderSize(r, rapid.SampledFrom([]int{16, 64, 4096}).Draw(t, "buf")))
		if err == nil {
			t.Fatalf("reading failed with %q after %d bytes and no error was returned\n%s", boom, n, text)
		}
		nontrivial("%d %s %s", n, boom, text)
	})
}
