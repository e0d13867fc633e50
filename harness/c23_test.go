package boocheck

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// sameDecimals says that text shows v with that many decimals.
func sameDecimals(text string, v float64, decimals int) bool {
	x, err := strconv.ParseFloat(text, 64)
	if err != nil {
		return false
	}
	if math.IsInf(v, 0) || math.IsNaN(v) {
		return x == v || math.IsNaN(x) && math.IsNaN(v)
	}
	return math.Abs(x-v) <= 0.5000001*math.Pow(10, -float64(decimals))+1e-15*math.Abs(v)
}

var (
	printedSplit = regexp.MustCompile(`^\s*Feature\s+(\S.*?|\S)\s*<=?\s*(\S+)\s*$`)
	printedLeaf  = regexp.MustCompile(`^\s*PREDICT\s+(\S+) with (.*) Samples\s*$`)
)

// checkPrinted compares the printed lines of a tree, in depth-first order, with it.
func checkPrinted(n *node, lines []string, names []string) ([]string, error) {
	if len(lines) == 0 {
		return nil, fmt.Errorf("the text ends too early")
	}
	line := lines[0]
	lines = lines[1:]
	if n.leaf {
		m := printedLeaf.FindStringSubmatch(line)
		if m == nil || !sameDecimals(m[1], n.value, 3) {
			return nil, fmt.Errorf("leaf of value %v printed as %q", n.value, line)
		}
		return lines, nil
	}
	m := printedSplit.FindStringSubmatch(line)
	want := strconv.Itoa(n.feature)
	if n.feature < len(names) {
		want = names[n.feature]
	}
	if m == nil || m[1] != want || !sameDecimals(m[2], n.threshold, 3) {
		return nil, fmt.Errorf("split on feature %s at %v printed as %q", want, n.threshold, line)
	}
	for i, child := range []*node{n.left, n.right} {
		if len(lines) == 0 || !strings.HasSuffix(strings.TrimSpace(lines[0]), []string{"True", "False"}[i]) {
			return nil, fmt.Errorf("no line for the %v branch after %q", i == 0, line)
		}
		var err error
		if lines, err = checkPrinted(child, lines[1:], names); err != nil {
			return nil, err
		}
	}
	return lines, nil
}

// genPrintName mostly gives the plain name, else one that printing could get wrong.
func genPrintName(t *rapid.T, plain string, more ...string) string {
	if !seldom(t, 2, "odd name") {
		return plain
	}
	class("unusual names")
	return rapid.SampledFrom(append([]string{"x", "0", "%d", "100%", "%s%v%!", "Ω", "same", "a/b", strings.Repeat("long", 10), strings.Repeat("n", 70), strings.Repeat("very", 300)}, more...)).Draw(t, "name")
}

func TestC23_trees(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		c := genTreeCase(t, 12, 40)
		tr := boo.NewTree(c.X, c.o)
		n := observe(tr)
		var names []string
		for i, k := 0, rapid.IntRange(0, len(c.X[0])+1).Draw(t, "names"); i < k; i++ {
			names = append(names, genPrintName(t, fmt.Sprintf("name%d", 10*i), "two words", "α β γ"))
		}
		space := rapid.SampledFrom([]string{"", " ", "\t"}).Draw(t, "spacing")
		noteCase("names %v %v", names, c)
		var text string
		var given []string
		if rapid.Bool().Draw(t, "other names first") {
			_ = tr.Print(" ", []string{"first", "second", "third"})
		}
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			text = tr.Print(space)
		case 1:
			text = tr.Print(space, nil)
		default:
			given = names
			text = tr.Print(space, names)
			classIf(len(names) < len(c.X[0]), "too few names")
		}
		rest, err := checkPrinted(n, strings.Split(strings.TrimRight(text, "\n"), "\n"), given)
		if err == nil && len(rest) > 0 {
			err = fmt.Errorf("more text than tree: %q", rest)
		}
		if err != nil {
			t.Fatalf("%v\n%s\n%v", err, text, c)
		}
		if !n.leaf {
			nontrivial("%v %v", given, c)
		}
	})
}

func TestC23_options(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		o := genOptions(t, optSpec{maxRounds: 5000, earlyStop: true})
		o.MaxDepth = rapid.IntRange(0, 2000).Draw(t, "d")
		if seldom(t, 2, "odd") {
			f := func(name string) float64 {
				return rapid.OneOf(rapid.Float64Range(-3, 3), rapid.SampledFrom([]float64{0, 1.5, -1, 1234567.25, 1e-7, -0.0004, 1e18})).Draw(t, name)
			}
			o.LearningRate, o.SubSample, o.BaseScore, o.Gamma = f("oddlr"), f("oddss"), f("oddbs"), f("oddgamma")
			o.Lambda, o.MinChildWeight, o.ColSubSample = f("oddlambda"), f("oddmcw"), f("oddcss")
			o.Rounds, o.MaxDepth = rapid.IntRange(-3, 1<<40).Draw(t, "oddrounds"), rapid.IntRange(-3, 1<<40).Draw(t, "odddepth")
		}
		noteCase("%s", optString(o))
		text := o.String()
		want := map[string]float64{"r": float64(o.Rounds), "md": float64(o.MaxDepth), "lr": o.LearningRate, "mcw": o.MinChildWeight}
		kind := "gboost"
		if o.XGB {
			kind = "xgboost"
			want["ss"], want["bs"], want["gam"], want["lam"], want["css"] = o.SubSample, o.BaseScore, o.Gamma, o.Lambda, o.ColSubSample
		}
		if !strings.HasPrefix(text, kind+" ") {
			t.Fatalf("%q for %s", text, optString(o))
		}
		seen := 0
		for _, part := range strings.Split(strings.TrimPrefix(text, kind+" "), "/") {
			f := strings.Fields(part)
			if len(f) != 2 {
				t.Fatalf("%q for %s", text, optString(o))
			}
			v, ok := want[f[1]]
			if !ok || !sameDecimals(f[0], v, 3) {
				t.Fatalf("%s shown as %s, is %v: %q", f[1], f[0], v, text)
			}
			seen++
		}
		if seen != len(want) {
			t.Fatalf("%q for %s", text, optString(o))
		}
		nontrivial("%s", text)
	})
}

func TestC23_dataAndMatrices(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		ds := genData(t, 1, 8, 20, 3, 4, colKinds)
		D := ds.D
		D.Keys = nil
		if rapid.Bool().Draw(t, "keys") {
			for j := range D.Data[0] {
				D.Keys = append(D.Keys, genPrintName(t, fmt.Sprintf("k%d", 7*j)))
			}
		}
		labelled := rapid.Bool().Draw(t, "labelled")
		if !labelled {
			D.Labels = nil
		}
		noteCase("%s", dataString(D))
		text := D.String()
		lines := strings.Split(text, "\n")
		if h := strings.Fields(lines[0]); len(h) != 1+len(D.Keys) || strings.Join(h[1:], " ") != strings.Join(D.Keys, " ") {
			t.Fatalf("header %q for names %v", lines[0], D.Keys)
		}
		if len(lines) != 1+len(D.Data) {
			t.Fatalf("%d lines for %d vectors:\n%s", len(lines), len(D.Data), text)
		}
		for i, r := range D.Data {
			f := strings.Fields(lines[i+1])
			lab := -1
			if labelled {
				lab = D.Labels[i]
			}
			if len(f) != len(r)+1 || f[0] != strconv.Itoa(lab) {
				t.Fatalf("vector %v with label %d printed as %q", r, lab, lines[i+1])
			}
			for j := range r {
				if !sameDecimals(f[j+1], r[j], 4) {
					t.Fatalf("vector %v printed as %q", r, lines[i+1])
				}
			}
		}
		nr, nc := rapid.IntRange(1, 4).Draw(t, "r"), rapid.IntRange(1, 4).Draw(t, "c")
		if seldom(t, 5, "large") {
			nr, nc = rapid.IntRange(1, 60).Draw(t, "r"), rapid.IntRange(1, 30).Draw(t, "c")
			class("large matrix")
		}
		d := genDense(t, nr, nc, rapid.Float64Range(-100, 100))
		m := utils.PrintDenseMatrix(d.M)
		var nums []string
		for _, l := range strings.Split(m, "\n") {
			nums = append(nums, strings.Fields(strings.Trim(l, "[]"))...)
			if n := len(strings.Fields(strings.Trim(l, "[]"))); n != d.c {
				t.Fatalf("a row of %d columns printed as %q", d.c, l)
			}
		}
		if len(nums) != d.r*d.c {
			t.Fatalf("%v printed as %q", d, m)
		}
		for i := 0; i < d.r; i++ {
			for j := 0; j < d.c; j++ {
				if v, err := strconv.ParseFloat(nums[i*d.c+j], 64); err != nil || v != d.M.At(i, j) {
					t.Fatalf("%v printed as %q", d, m)
				}
			}
		}
		if !d.untouched(false) {
			t.Fatalf("printing changed the matrix")
		}
		nontrivial("%s %s", text, m)
	})
}

var nodeField = regexp.MustCompile(`(ID|Samples|ns|score|Value|Threshold|Leaf|Branches|LeftID|RightID|XGB)\s*:\s*(\[[^\]]*\]|[^,\sT]+)`)

// A serialized node prints its fields.
func TestC23_nodes(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		f := func(name string) float64 {
			return rapid.OneOf(rapid.Float64Range(-3, 3), rapid.SampledFrom([]float64{0, 1.5, -1, 1234567.25, 1e-7, -0.0004, 1e18})).Draw(t, name)
		}
		u := func(name string) uint { return uint(rapid.SampledFrom([]int{0, 1, 2, 17, 300, 1 << 40}).Draw(t, name)) }
		j := &utils.JSONNode{Id: u("id"), Nsamples: rapid.IntRange(0, 5000).Draw(t, "n"), SplitFeatureIndex: rapid.IntRange(0, 50).Draw(t, "feature"),
			BestScoreSoFar: f("score"), Leaf: rapid.Bool().Draw(t, "leaf"), Threshold: f("cut"), Leftid: u("left"), Rightid: u("right"), Branches: rapid.IntRange(1, 99).Draw(t, "branches"),
			Value: f("value"), XGB: rapid.Bool().Draw(t, "xgb"), Samples: rapid.SliceOfN(rapid.IntRange(0, 999), 0, 12).Draw(t, "samples")}
		noteCase("%+v", *j)
		text := j.String()
		got := map[string]string{}
		for _, m := range nodeField.FindAllStringSubmatch(text, -1) {
			if _, twice := got[m[1]]; twice {
				t.Fatalf("%s appears twice: %q", m[1], text)
			}
			got[m[1]] = m[2]
		}
		for k, v := range map[string]any{"ID": j.Id, "ns": j.Nsamples, "Samples": j.Samples, "Leaf": j.Leaf, "Branches": j.Branches, "LeftID": j.Leftid, "RightID": j.Rightid, "XGB": j.XGB} {
			if got[k] != fmt.Sprint(v) {
				t.Fatalf("%s is %v, shown as %q: %q", k, v, got[k], text)
			}
		}
		for k, v := range map[string]float64{"score": j.BestScoreSoFar, "Value": j.Value, "Threshold": j.Threshold} {
			if !sameDecimals(got[k], v, 3) {
				t.Fatalf("%s is %v, shown as %q: %q", k, v, got[k], text)
			}
		}
		nontrivial("%s", text)
	})
}
