package boocheck

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// genNumbered makes a data set whose row i starts with the number i.
func genNumbered(t *rapid.T, n int) *utils.DataBunch {
	D := &utils.DataBunch{}
	cols := rapid.IntRange(1, 4).Draw(t, "cols")
	labelled := rapid.IntRange(0, 3).Draw(t, "unlabelled") != 3
	for i := 0; i < n; i++ {
		r := make([]float64, cols)
		r[0] = float64(i)
		for j := 1; j < cols; j++ {
			r[j] = float64(rapid.IntRange(-3, 3).Draw(t, "x"))
		}
		D.Data = append(D.Data, r)
		if labelled {
			D.Labels = append(D.Labels, rapid.IntRange(-2, 4).Draw(t, "label"))
		}
	}
	if rapid.Bool().Draw(t, "named") {
		for j := 0; j < cols; j++ {
			D.Keys = append(D.Keys, fmt.Sprintf("k%d", j))
		}
		if seldom(t, 3, "odd names") { // not as many as columns
			D.Keys = append(D.Keys, "one", "two", "more")[:rapid.IntRange(1, cols+3).Draw(t, "names")]
			class("names that are not as many as the columns")
		}
	}
	usedBunch(t, D)
	return D
}

// part checks one part of a fold against the original, and returns its rows.
func part(p, D *utils.DataBunch) ([]int, error) {
	if p == nil {
		return nil, fmt.Errorf("nothing returned")
	}
	var rows []int
	if len(D.Labels) == len(D.Data) && len(p.Labels) != len(p.Data) {
		return nil, fmt.Errorf("%d labels for %d vectors", len(p.Labels), len(p.Data))
	}
	if len(D.Labels) == 0 && len(p.Labels) != 0 {
		return nil, fmt.Errorf("labels %v in unlabelled data", p.Labels)
	}
	if !sameStrings(p.Keys, D.Keys) {
		return nil, fmt.Errorf("names %q instead of %q", p.Keys, D.Keys)
	}
	for i, r := range p.Data {
		if len(r) == 0 {
			return nil, fmt.Errorf("an empty vector")
		}
		k := int(r[0])
		if k < 0 || k >= len(D.Data) || !sameBits(r, D.Data[k]) {
			return nil, fmt.Errorf("vector %v is not one of the data", r)
		}
		if len(D.Labels) > 0 && p.Labels[i] != D.Labels[k] {
			return nil, fmt.Errorf("vector %d has label %d instead of %d", k, p.Labels[i], D.Labels[k])
		}
		rows = append(rows, k)
	}
	return rows, nil
}

func TestC11_partition(t *testing.T) {
	check(t, 12000, func(t *rapid.T) {
		n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(4, 30), rapid.IntRange(10, 30)).Draw(t, "n")
		if seldom(t, 6, "large") {
			n = rapid.IntRange(30, 300).Draw(t, "largen")
		}
		D := genNumbered(t, n)
		req := rapid.OneOf(rapid.IntRange(-3, 12), rapid.IntRange(2, 2*n+5), rapid.SampledFrom([]int{0, 2, 3, 5, 10, 1000, n, n / 2, n/2 + 1})).Draw(t, "nfold")
		copies := rapid.Bool().Draw(t, "copies")
		seedLibrary(t)
		rand.VerifLimit(int64(400*n*n + 20000))
		keep := copyBunch(D)
		noteCase("%d samples, %d folds", n, req)
		var (
			nf    int
			next  func() (*utils.DataBunch, *utils.DataBunch)
			err   error
			where = fmt.Sprintf("%d samples, %d folds requested, copies %v", n, req, copies)
		)
		if !copies && rapid.Bool().Draw(t, "default") {
			nf, next, err = utils.CrossValidationSamples(D, req)
		} else {
			nf, next, err = utils.CrossValidationSamples(D, req, copies)
		}
		rand.VerifLimit(-1)
		if n < 4 {
			if err == nil {
				t.Fatalf("%s: no error", where)
			}
			class("too few samples")
			return
		}
		want := req
		if req <= 0 {
			want = 5
		}
		feasible := min(want, n/2)
		if req == 1 && err != nil {
			class("one fold refused")
			return
		}
		if nf != feasible {
			t.Fatalf("%s: %d folds instead of %d (error %v)", where, nf, feasible, err)
		}
		if feasible == req && err != nil {
			t.Fatalf("%s: error %v", where, err)
		}
		if feasible < req && err == nil {
			t.Fatalf("%s: the lower number of folds is not reported", where)
		}
		if next == nil {
			t.Fatalf("%s: no folds", where)
		}
		type fold struct{ train, test, train0, test0 *utils.DataBunch }
		var folds []fold
		seen := make([]int, n)
		for f := 0; f < nf; f++ {
			train, test := next()
			tr, err := part(train, D)
			if err != nil {
				t.Fatalf("%s: training set %d: %v", where, f, err)
			}
			te, err := part(test, D)
			if err != nil {
				t.Fatalf("%s: test set %d: %v", where, f, err)
			}
			if len(te) < n/nf {
				t.Fatalf("%s: test set %d has %d samples", where, f, len(te))
			}
			in := make([]int, n)
			for _, k := range te {
				seen[k]++
				in[k]++
			}
			for _, k := range tr {
				in[k]++
			}
			for k, c := range in {
				if c != 1 {
					t.Fatalf("%s: fold %d holds sample %d %d times (test %v, training %v)", where, f, k, c, te, tr)
				}
			}
			folds = append(folds, fold{train, test, copyBunch(train), copyBunch(test)})
			if copies {
				// scribble over what was given, after looking at it
				for _, p := range []*utils.DataBunch{train, test} {
					if !rapid.Bool().Draw(t, "scribble") {
						continue
					}
					for i := range p.Data {
						for j := range p.Data[i] {
							p.Data[i][j] = -77
						}
					}
					for i := range p.Labels {
						p.Labels[i] = -77
					}
					for i := range p.Keys {
						p.Keys[i] = "scribbled"
					}
					if p == train {
						folds[f].train0 = copyBunch(p)
					} else {
						folds[f].test0 = copyBunch(p)
					}
				}
			}
			if !sameBunch(D, keep) {
				t.Fatalf("%s: the original data changed at fold %d", where, f)
			}
		}
		for k, c := range seen {
			if c != 1 {
				t.Fatalf("%s: sample %d is in %d test sets", where, k, c)
			}
		}
		for f, x := range folds {
			if !sameBunch(x.train, x.train0) || !sameBunch(x.test, x.test0) {
				t.Fatalf("%s: fold %d changed after it was returned", where, f)
			}
		}
		for i := 0; i < 3; i++ {
			if a, b := next(); a != nil || b != nil {
				t.Fatalf("%s: more than %d folds", where, nf)
			}
		}
		classIf(n%nf != 0, "uneven folds")
		classIf(feasible < want, "folds lowered")
		classIf(copies, "copies")
		nontrivial("%s %v", where, D.Data)
	})
}

// The assignment to equally large folds is uniform, and new in every call.
func TestC11_random(t *testing.T) {
	check(t, 150, func(t *rapid.T) {
		nf := rapid.IntRange(2, 6).Draw(t, "nfold")
		ns := rapid.IntRange(2, 6).Draw(t, "size")
		n := nf * ns
		D := genNumbered(t, n)
		seedLibrary(t)
		copies := rapid.Bool().Draw(t, "copies")
		const reps = 2000
		in := make([][]int, n)
		for i := range in {
			in[i] = make([]int, nf)
		}
		pair := make([]int, n)  // sample i together with the next one
		stays := make([]int, n) // sample i where it was in the call before
		prev := make([]int, n)
		for r := 0; r < reps; r++ {
			got, next, err := utils.CrossValidationSamples(D, nf, copies)
			if err != nil || got != nf {
				t.Fatalf("%d folds of %d samples: %d folds, %v", nf, n, got, err)
			}
			at := make([]int, n)
			for f := 0; f < nf; f++ {
				_, test := next()
				for _, row := range test.Data {
					at[int(row[0])] = f
				}
			}
			for i, f := range at {
				in[i][f]++
				if f == at[(i+1)%n] {
					pair[i]++
				}
				if r > 0 && f == prev[i] {
					stays[i]++
				}
			}
			prev = at
		}
		for i := range in {
			for f, c := range in[i] {
				if !plausible(reps, 1/float64(nf), c) {
					t.Fatalf("sample %d of %d is in fold %d of %d in %d of %d calls", i, n, f, nf, c, reps)
				}
			}
			if !plausible(reps, float64(ns-1)/float64(n-1), pair[i]) {
				t.Fatalf("samples %d and %d of %d are in the same of %d folds in %d of %d calls", i, (i+1)%n, n, nf, pair[i], reps)
			}
			if !plausible(reps-1, 1/float64(nf), stays[i]) {
				t.Fatalf("sample %d of %d is in the fold, of %d, where it was in the call before in %d of %d calls", i, n, nf, stays[i], reps)
			}
		}
		nontrivial("%d folds of %d samples", nf, n)
	})
}

// A change to the original after the folds were made does not reach copies
// already given, nor the other way around, from several goroutines.
func TestRaceC11_concurrent(t *testing.T) {
	check(t, 1500, func(t *rapid.T) {
		n := rapid.IntRange(4, 40).Draw(t, "n")
		D := genNumbered(t, n)
		keep := copyBunch(D)
		nfold := rapid.IntRange(2, 6).Draw(t, "nfold")
		seedLibrary(t)
		var wg sync.WaitGroup
		errs := make([]error, 4)
		for g := range errs {
			wg.Add(1)
			go func() {
				defer wg.Done()
				nf, next, _ := utils.CrossValidationSamples(D, nfold, true)
				seen := make([]int, n)
				for f := 0; f < nf; f++ {
					train, test := next()
					te, err := part(test, keep)
					if err == nil {
						_, err = part(train, keep)
					}
					if err != nil {
						errs[g] = err
						return
					}
					for _, k := range te {
						seen[k]++
					}
					for i := range train.Data {
						train.Data[i][0] = -1
					}
					for i := range test.Data {
						test.Data[i][0] = -1
						if len(test.Labels) > 0 {
							test.Labels[i] = -9
						}
					}
					for i := range test.Keys {
						test.Keys[i] = "mine"
						train.Keys[i] = "mine"
					}
				}
				for k, c := range seen {
					if c != 1 {
						errs[g] = fmt.Errorf("sample %d is in %d test sets", k, c)
					}
				}
			}()
		}
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				t.Fatalf("%d samples, %d folds: %v", n, nfold, err)
			}
		}
		if !sameBunch(D, keep) {
			t.Fatalf("the original data changed")
		}
		nontrivial("%d %d %v", n, nfold, D.Data)
	})
}
