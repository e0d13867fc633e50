package boocheck

import (
	"bytes"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// What the library prints and logs while f runs.
func listen(f func()) (printed, logged string) {
	file, err := os.CreateTemp("", "boocheck-out")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	_ = os.Remove(file.Name())
	defer file.Close()
	var buf bytes.Buffer
	was := os.Stdout
	os.Stdout = file
	log.SetOutput(&buf)
	defer func() {
		os.Stdout = was
		log.SetOutput(io.Discard)
	}()
	f()
	if _, err := file.Seek(0, io.SeekStart); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	b, err := io.ReadAll(file)
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	return string(b), buf.String()
}

func nonBlank(s string) (lines []string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			lines = append(lines, l)
		}
	}
	return
}

var (
	lossLine    = regexp.MustCompile(`(?i)round\D*?(\d+)\D+?class\D*?(\d+)\D+?loss\s*[=:]?\s*(\S+)`)
	stoppedLine = regexp.MustCompile(`(?i)class\s+(\d+)\s+stopped early at round\s+(\d+)`)
	bestLine    = regexp.MustCompile(`(?i)new best accuracy:?\s*([-+0-9.eEINaninf]+)%?,?\s*(.*)$`)
	aNumber     = regexp.MustCompile(`[-+]?[0-9]+(?:\.[0-9]*)?(?:[eE][-+]?[0-9]+)?`)
)

// One line per tree, with its round, its class and the loss after it.
func TestC25_training(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		ds := genData(t, 2, 14, 60, 4, 3, tameKinds)
		o := genOptions(t, optSpec{maxRounds: 12, earlyStop: true})
		maybeOdd(t, o)
		o.Verbose = rapid.IntRange(0, 3).Draw(t, "quiet") != 0
		desc := func() string { return optString(o) + " " + dataString(ds.D) }
		var ref *refModel
		out, logged := listen(func() { _, ref, _ = trainModel(t, ds.D, o) })
		lines := nonBlank(out)
		if !o.Verbose {
			if len(lines) > 0 || len(nonBlank(logged)) > 0 {
				t.Fatalf("not verbose, but printed:\n%s%s\n%s", out, logged, desc())
			}
			class("quiet")
			return
		}
		b := newBooster(ds.D, o)
		K := len(b.labels)
		skips := o.XGB && o.SubSample < 1 // rounds with too few samples are left out of the model
		round := -1
		last, lastLoss := make([]int, K), make([]float64, K)
		for k := range last {
			last[k] = -1
		}
		for r := range ref.rounds {
			first := true
			for k := 0; k < K; k++ {
				if !ref.boosted(r, k) {
					continue
				}
				b.add(ref.rounds[r][k], k)
				if len(lines) == 0 {
					t.Fatalf("nothing printed for round %d, class %d\n%s\n%s", r, k, out, desc())
				}
				m := lossLine.FindStringSubmatch(lines[0])
				if m == nil {
					t.Fatalf("unexpected line %q\n%s\n%s", lines[0], out, desc())
				}
				gr, _ := strconv.Atoi(m[1])
				gk, _ := strconv.Atoi(m[2])
				loss := b.loss(k)
				if gk != k || !skips && gr != r || first && gr <= round || !first && gr != round || gr >= o.Rounds {
					t.Fatalf("%q is printed for round %d, class %d (the line before was of round %d)\n%s\n%s", lines[0], r, k, round, out, desc())
				}
				if x, err := strconv.ParseFloat(m[3], 64); err != nil || !(math.Abs(x-loss) <= 0.0005+1e-6*(1+math.Abs(loss))) && x != loss && !(math.IsNaN(x) && math.IsNaN(loss)) {
					t.Fatalf("%q is printed, the training loss is %v\n%s\n%s", lines[0], loss, out, desc())
				}
				lines = lines[1:]
				round, first = gr, false
				last[k], lastLoss[k] = gr, loss
			}
		}
		if len(lines) > 0 {
			t.Fatalf("%q is printed, but the model has no tree for it\n%s\n%s", lines[0], out, desc())
		}
		seen := map[int]bool{}
		for _, l := range nonBlank(logged) {
			m := stoppedLine.FindStringSubmatch(l)
			if m == nil {
				t.Fatalf("unexpected log %q\n%s", l, desc())
			}
			k, _ := strconv.Atoi(m[1])
			r, _ := strconv.Atoi(m[2])
			if o.EarlyStop <= 0 || k >= K || seen[k] || last[k] != r {
				t.Fatalf("%q is logged, the last tree of the classes was made in rounds %v\n%s\n%s", l, last, logged, desc())
			}
			seen[k] = true
		}
		if !skips && len(ds.D.Data) >= o.MinSample {
			for k := range last {
				if last[k] < o.Rounds-1 && lastLoss[k] > 1e-6+1e-12 && !seen[k] {
					t.Fatalf("class %d stopped after round %d, which is not logged:\n%s\n%s", k, last[k], logged, desc())
				}
			}
		}
		classIf(len(seen) > 0, "a stalled class is logged")
		classIf(skips, "with row subsampling")
		classIf(K > 1 && round > 0, "several classes and rounds")
		if round > 0 {
			nontrivial("%s", desc())
		}
	})
}

// The improvements that the searches announce are the ones they return.
func TestC25_searches(t *testing.T) {
	check(t, 5000, func(t *rapid.T) {
		kind := rapid.SampledFrom([]string{"grid", "grid", "gradient", "hybrid"}).Draw(t, "kind")
		var D *utils.DataBunch
		nfold := rapid.IntRange(2, 4).Draw(t, "nfold")
		var o *cv.GridOptions
		f := searchFunc(cv.Grid)
		if kind == "grid" {
			if rapid.Bool().Draw(t, "known") {
				s := genSplitData(t)
				D, nfold, o = s.D, s.nfold, genSplitGrid(t, s)
			} else {
				D = cvData(t)
				o = genSpace(t, len(D.Data))
				o.Rounds[2] = max(o.Rounds[2], (o.Rounds[1]-o.Rounds[0]+1)/2)
				o.NCPUs = rapid.IntRange(1, 3).Draw(t, "ncpus")
				for _, p := range []*[3]float64{&o.Lambda, &o.Gamma, &o.SubSample, &o.ColSubSample} {
					p[2] = max(p[2], (p[1]-p[0])*0.7, 0.05)
				}
			}
			if len(gridPoints(o)) > 60 {
				return
			}
		} else {
			D = cvData(t)
			o = genSpace(t, len(D.Data))
			f = cv.GradientGrid
			if kind == "hybrid" {
				f = cv.HybridGradientGrid
				o.Rounds[2] = max(o.Rounds[2], (o.Rounds[1]-o.Rounds[0]+1)/2)
				o.Lambda[2] = max(o.Lambda[2], 0.5)
			}
		}
		o.WriteBest = false
		o.Verbose = rapid.IntRange(0, 3).Draw(t, "quiet") != 0
		seedLibrary(t)
		var r gridResult
		desc := fmt.Sprintf("%s %s %s %d", kind, gridString(o), dataString(D), nfold)
		out, _ := listen(func() { r = runSearch(t, f, D, nfold, o) })
		if r.err != nil {
			return // C13 and C14 deal with that
		}
		if !o.Verbose {
			if strings.TrimSpace(out) != "" {
				t.Fatalf("not verbose, but printed:\n%s\n%s", out, desc)
			}
			class("quiet")
			return
		}
		var accs []float64
		var texts []string
		var heads [][]float64
		for _, l := range nonBlank(out) {
			if m := bestLine.FindStringSubmatch(l); m != nil {
				a, err := strconv.ParseFloat(m[1], 64)
				if err != nil {
					t.Fatalf("unexpected line %q\n%s", l, desc)
				}
				accs, texts = append(accs, a), append(texts, strings.TrimSpace(m[2]))
				continue
			}
			var h []float64
			for _, x := range aNumber.FindAllString(l, -1) {
				v, _ := strconv.ParseFloat(x, 64)
				h = append(h, v)
			}
			heads = append(heads, h)
		}
		// the announced accuracies
		want, tol := r.accs, 1e-9
		if kind == "grid" {
			want, tol = nil, 0.5+1e-6
			for _, a := range r.accs {
				if len(want) == 0 || a > want[len(want)-1] {
					want = append(want, a)
				}
			}
		}
		if len(accs) != len(want) {
			t.Fatalf("%d new best accuracies announced, %d found: %v, %v\n%s\n%s", len(accs), len(want), accs, r.accs, out, desc)
		}
		for i := range accs {
			if !(math.Abs(accs[i]-want[i]) <= tol) {
				t.Fatalf("announced %v, the improvements were %v\n%s\n%s", accs, want, out, desc)
			}
		}
		if n := len(texts); n > 0 && texts[n-1] != strings.TrimSpace(r.opts.String()) {
			t.Fatalf("announced as best %q, returned %q\n%s", texts[n-1], r.opts.String(), desc)
		}
		// where the search is
		var places [][]float64
		if kind != "gradient" {
			for _, n := range intPoints(o.Rounds) {
				for _, w := range floatPoints(o.MinChildWeight) {
					places = append(places, []float64{float64(n), w})
				}
			}
		} else {
			for _, w := range floatPoints(o.MinChildWeight) {
				places = append(places, []float64{w})
			}
		}
		if fmt.Sprint(heads) != fmt.Sprint(places) {
			t.Fatalf("the search announced to be at %v, it goes through %v\n%s\n%s", heads, places, out, desc)
		}
		class(kind)
		classIf(len(accs) > 1, "several improvements")
		nontrivial("%s", desc)
	})
}
