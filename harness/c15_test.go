package boocheck

import (
	"math"
	"reflect"
	"testing"

	"github.com/rmera/boo"
	"github.com/rmera/boo/cv"
	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

// Pointers to zero-size values may or may not be equal, so there is one value
// of each loss.
var someLosses = []utils.LossFunc{&utils.SQErrLoss{}, &utils.MSELoss{}, &oddLoss{1, 2, 1}, &oddLoss{2, 1, 1}, &namedLoss{oddLoss{1, 2, 1}, "sqerr"}, &namedLoss{oddLoss{1, 2, 1}, "mse"}, &namedLoss{oddLoss{2, 1, 1}, "mse"}}

// namedLoss is another loss under a name that is taken.
type namedLoss struct {
	oddLoss
	name string
}

func (l *namedLoss) Name() string { return l.name }

var someFloats = []float64{0, math.Copysign(0, -1), 0.5, 1, math.Nextafter(1, 2), math.Nextafter(1, 0), -1, 0.1, 3, 2.0000001, 1e300, -1e300, 5e-324, 1e-9, math.MaxFloat64}

var someInts = []int{0, 1, 2, 3, 5, 10, -1, 100, math.MaxInt, math.MinInt, 1 << 32, 1<<32 + 1}

func anyFloat() *rapid.Generator[float64] {
	return rapid.OneOf(rapid.SampledFrom(someFloats), rapid.Float64Range(-5, 5), rapid.Float64Range(0, 1))
}

// fill draws a value for v, whatever its type; false if it cannot.
func fill(t *rapid.T, v reflect.Value, name string) bool {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(rapid.Bool().Draw(t, name))
	case reflect.Int:
		v.SetInt(int64(rapid.OneOf(rapid.SampledFrom(someInts), rapid.IntRange(-3, 30)).Draw(t, name)))
	case reflect.Float64:
		v.SetFloat(anyFloat().Draw(t, name))
	case reflect.String:
		v.SetString(rapid.SampledFrom([]string{"", "exact", "hist", "Exact", "exact "}).Draw(t, name))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !fill(t, v.Index(i), name) {
				return false
			}
		}
	case reflect.Interface:
		if v.Type() != reflect.TypeOf((*utils.LossFunc)(nil)).Elem() {
			return false
		}
		if rapid.IntRange(0, 5).Draw(t, name) == 5 {
			v.Set(reflect.Zero(v.Type()))
		} else {
			v.Set(reflect.ValueOf(rapid.SampledFrom(someLosses).Draw(t, name)))
		}
	default:
		return false
	}
	return true
}

// fillStruct draws every exported field.
func fillStruct(t *rapid.T, p any) {
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).IsExported() {
			fill(t, v.Field(i), v.Type().Field(i).Name)
		}
	}
}

// differing lists the exported fields of a and b that are not ==.
func differing(a, b any) []string {
	x, y := reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem()
	var out []string
	for i := 0; i < x.NumField(); i++ {
		if !x.Type().Field(i).IsExported() || !x.Field(i).Comparable() {
			continue
		}
		if !x.Field(i).Equal(y.Field(i)) {
			out = append(out, x.Type().Field(i).Name)
		}
	}
	return out
}

// changeOne gives one exported field of *p another value.
func changeOne(t *rapid.T, p any) string {
	v := reflect.ValueOf(p).Elem()
	var idx []int
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).IsExported() {
			idx = append(idx, i)
		}
	}
	i := rapid.SampledFrom(idx).Draw(t, "field")
	f := v.Field(i)
	old := reflect.New(f.Type()).Elem()
	old.Set(f)
	for try := 0; try < 30; try++ {
		if f.Kind() == reflect.Array {
			e := f.Index(rapid.IntRange(0, f.Len()-1).Draw(t, "elem"))
			if !fill(t, e, "new") {
				return ""
			}
		} else if f.Kind() == reflect.Float64 && rapid.Bool().Draw(t, "nudge") {
			f.SetFloat(math.Nextafter(f.Float(), rapid.SampledFrom([]float64{-1e308, 1e308}).Draw(t, "dir")))
		} else if f.Kind() == reflect.Int && rapid.Bool().Draw(t, "nudge") {
			f.SetInt(f.Int() + int64(rapid.SampledFrom([]int{1, -1, 1 << 32, 256}).Draw(t, "by")))
		} else if !fill(t, f, "new") {
			return ""
		}
		if !f.Equal(old) {
			return v.Type().Field(i).Name
		}
	}
	return ""
}

func TestC15_optionsCloneEqual(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		o := new(boo.Options)
		switch rapid.IntRange(0, 4).Draw(t, "start") {
		case 0:
			o = boo.DefaultXOptions()
			o.Loss = someLosses[0]
		case 1:
			o = boo.DefaultGOptions()
			o.Loss = someLosses[1]
		default:
			fillStruct(t, o)
		}
		orig := cloneOpts(o)
		c := o.Clone()
		if c == nil || c == o {
			t.Fatalf("Clone returns %p for %p", c, o)
		}
		if d := differing(o, c); len(d) > 0 {
			t.Fatalf("the copy differs in %v: %+v, copied from %+v", d, *c, *o)
		}
		if !o.Equal(c) || !c.Equal(o) || !o.Equal(o) {
			t.Fatalf("not equal to itself or to its copy: %+v %+v", *o, *c)
		}
		if d := differing(o, orig); len(d) > 0 {
			t.Fatalf("copying or comparing changed %v", d)
		}
		name := changeOne(t, c)
		if name == "" {
			t.Skip("no other value")
		}
		if d := differing(o, orig); len(d) > 0 {
			t.Fatalf("changing the copy's %s changed the original's %v", name, d)
		}
		if o.Equal(c) || c.Equal(o) {
			t.Fatalf("Equal does not see a change of %s: %+v, %+v", name, *o, *c)
		}
		// two unrelated values, sometimes agreeing in almost everything
		u := orig.Clone()
		for i := rapid.IntRange(0, 3).Draw(t, "changes"); i > 0; i-- {
			changeOne(t, u)
		}
		if rapid.IntRange(0, 3).Draw(t, "unrelated") == 0 {
			fillStruct(t, u)
		}
		d := differing(o, u)
		if o.Equal(u) != (len(d) == 0) || u.Equal(o) != (len(d) == 0) {
			t.Fatalf("Equal gives %v and %v, the values differ in %v: %+v, %+v", o.Equal(u), u.Equal(o), d, *o, *u)
		}
		// the original changes, the copy does not
		c2 := o.Clone()
		keep := cloneOpts(c2)
		fillStruct(t, o)
		if d := differing(c2, keep); len(d) > 0 {
			t.Fatalf("changing the original changed the copy's %v", d)
		}
		class("changed " + name)
		nontrivial("%+v %s", *orig, name)
	})
}

func TestC15_gridClone(t *testing.T) {
	check(t, 10000, func(t *rapid.T) {
		o := new(cv.GridOptions)
		switch rapid.IntRange(0, 5).Draw(t, "start") {
		case 0:
			o = cv.DefaultXGridOptions()
		case 1:
			o = cv.DefaultGGridOptions()
		default:
			fillStruct(t, o)
		}
		orig := *o
		c := o.Clone()
		if c == nil || c == o {
			t.Fatalf("Clone returns %p for %p", c, o)
		}
		if d := differing(o, c); len(d) > 0 {
			t.Fatalf("the copy differs in %v: %+v, copied from %+v", d, *c, *o)
		}
		name := changeOne(t, c)
		if d := differing(o, &orig); len(d) > 0 {
			t.Fatalf("changing the copy's %s changed the original's %v", name, d)
		}
		c2 := o.Clone()
		fillStruct(t, o)
		if d := differing(c2, &orig); len(d) > 0 {
			t.Fatalf("changing the original changed the copy's %v", d)
		}
		nontrivial("%+v", orig)
	})
}

func validOptions(o *boo.Options) bool {
	frac := func(x float64) bool { return x > 0 && x <= 1 }
	return o.Rounds >= 1 && o.LearningRate > 0 && frac(o.SubSample) && frac(o.ColSubSample) && o.Lambda >= 0 && o.Gamma >= 0 &&
		o.MinChildWeight >= 1 && o.MaxDepth >= 2 && o.MinSample >= 1
}

func TestC15_check(t *testing.T) {
	check(t, 25000, func(t *rapid.T) {
		o := new(boo.Options)
		fillStruct(t, o)
		one := func(name string, vals ...float64) float64 { return rapid.SampledFrom(vals).Draw(t, name) }
		if rapid.IntRange(0, 5).Draw(t, "wild") > 0 {
			// a valid value at or near its limits, then perhaps one field off
			o.Rounds = int(one("r", 1, 1, 2, 20))
			o.LearningRate = one("lr", 5e-324, 0.1, 1, 2, 1e300)
			o.SubSample = one("ss", 1, 5e-324, 0.5, math.Nextafter(1, 0))
			o.ColSubSample = one("css", 1, 5e-324, 0.5, math.Nextafter(1, 0))
			o.Lambda = one("la", 0, math.Copysign(0, -1), 1.5, 1e300)
			o.Gamma = one("ga", 0, math.Copysign(0, -1), 0.2, 1e300)
			o.MinChildWeight = one("mcw", 1, math.Nextafter(1, 2), 3, 1e300)
			o.MaxDepth = int(one("md", 2, 2, 3, 10))
			o.MinSample = int(one("ms", 1, 1, 2, 5))
			switch rapid.IntRange(0, 13).Draw(t, "off") {
			case 0:
				o.Rounds = int(one("r", 0, -1))
			case 1:
				o.LearningRate = one("lr", 0, math.Copysign(0, -1), -5e-324, -1)
			case 2:
				o.SubSample = one("ss", 0, -5e-324, -0.5, math.Nextafter(1, 2), 2)
			case 3:
				o.ColSubSample = one("css", 0, -5e-324, -0.5, math.Nextafter(1, 2), 2)
			case 4:
				o.Lambda = one("la", -5e-324, -1)
			case 5:
				o.Gamma = one("ga", -5e-324, -1)
			case 6:
				o.MinChildWeight = one("mcw", math.Nextafter(1, 0), 0.5, 0, -3)
			case 7:
				o.MaxDepth = int(one("md", 1, 0, -1))
			case 8:
				o.MinSample = int(one("ms", 0, -1))
			}
		}
		keep := cloneOpts(o)
		err := o.Check()
		if (err == nil) != validOptions(o) {
			t.Fatalf("Check gives %v for %+v", err, *o)
		}
		if d := differing(o, keep); len(d) > 0 {
			t.Fatalf("Check changed %v", d)
		}
		classIf(err == nil, "valid options")
		classIf(err != nil, "invalid options")
		nontrivial("%+v", *o)
	})
}

// The default options: of the kind their name says, a new value each time, and
// the xgboost ones valid.
func TestC15_defaults(t *testing.T) {
	check(t, 500, func(t *rapid.T) {
		get := []func() *boo.Options{boo.DefaultXOptions, boo.DefaultOptions, boo.DefaultGOptions}
		which := rapid.IntRange(0, 2).Draw(t, "which")
		a := get[which]()
		keep := cloneOpts(a)
		if a.XGB != (which < 2) {
			t.Fatalf("default options %d have XGB %v", which, a.XGB)
		}
		if err := a.Check(); err != nil && a.XGB {
			t.Fatalf("the default options are not valid: %v", err)
		}
		fillStruct(t, a)
		var l utils.LossFunc = someLosses[0]
		b := get[which]()
		keep.Loss, b.Loss = l, l // each call may make one
		if d := differing(b, keep); len(d) > 0 {
			t.Fatalf("changing default options changed those of the next call: %v", d)
		}
		gets := []func() *cv.GridOptions{cv.DefaultXGridOptions, cv.DefaultGGridOptions, cv.DefaultGridOptions}
		wg := rapid.IntRange(0, 2).Draw(t, "which grid")
		g := gets[wg]()
		if g.XGB != (wg != 1) {
			t.Fatalf("default grid options %d have XGB %v", wg, g.XGB)
		}
		for _, r := range [][3]float64{g.LearningRate, g.Gamma, g.Lambda, g.SubSample, g.ColSubSample, g.MinChildWeight,
			{float64(g.Rounds[0]), float64(g.Rounds[1]), float64(g.Rounds[2])}, {float64(g.MaxDepth[0]), float64(g.MaxDepth[1]), float64(g.MaxDepth[2])}} {
			if !(r[0] >= 0 && r[0] <= r[1] && r[2] > 0 && r[1]+r[2] > r[1]) {
				t.Fatalf("default grid options %d have the range %v: %s", wg, r, gridString(g))
			}
		}
		gk := *g
		fillStruct(t, g)
		if d := differing(gets[wg](), &gk); len(d) > 0 {
			t.Fatalf("changing default grid options changed those of the next call: %v", d)
		}
		class("defaults")
		nontrivial("%d %d %+v", which, wg, *a)
	})
}
