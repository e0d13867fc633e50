package boocheck

import (
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"testing/iotest"
	"unicode"

	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

var csvSeps = []rune{',', ',', ';', '\t', '|', ' ', ':', '#', '!', '/', 'x', '~', '·', '→', '_', '=', '\'', '*'}

func genName(t *rapid.T, ok func(string) bool) string {
	s := rapid.OneOf(
		rapid.StringMatching(`[A-Za-z][A-Za-z0-9_]{0,8}`),
		rapid.SampledFrom([]string{"1", "1.5", "NaN", "Labels", "feature 1", "a-b", "é", "日本", "%d", "%s", "\\n", "x=1", "0x10"}),
		rapid.StringN(1, 6, -1),
	).Filter(ok).Draw(t, "name")
	return s
}

func cleanName(sep rune) func(string) bool {
	return func(s string) bool {
		if s == "" || strings.ContainsRune(s, sep) || strings.ContainsAny(s, "\"\r\n") || s != strings.ToValidUTF8(s, "?") || strings.ContainsRune(s, unicode.ReplacementChar) {
			return false
		}
		return !unicode.IsSpace([]rune(s)[0])
	}
}

func genValue(t *rapid.T) float64 {
	v := rapid.OneOf(
		rapid.Float64Range(-10, 10),
		rapid.SampledFrom([]float64{0, math.Copysign(0, -1), 1, -1, 0.00005, 0.000049999, -0.00005, 0.99995, 9.99995, 12345.67891, 1e15, -1e15, 123456789012345680, 1e22, -1e300, math.MaxFloat64, 5e-324, 0.1, 1.0 / 3}),
		rapid.Float64(),
	).Draw(t, "v")
	if !finite(v) {
		return 0
	}
	return v
}

func genLabel(t *rapid.T) int {
	return rapid.OneOf(rapid.IntRange(-3, 20), rapid.SampledFrom([]int{0, -1, 1000000, -999999, math.MaxInt64, math.MinInt64})).Draw(t, "label")
}

// genTable is a data set to be written down: any values, not meant to be learned.
func genTable(t *rapid.T, minRows int, name func(string) bool) *utils.DataBunch {
	rows := rapid.IntRange(minRows, 8).Draw(t, "rows")
	if seldom(t, 7, "tall") {
		rows = rapid.IntRange(60, 500).Draw(t, "tallrows")
		class("many rows")
	}
	cols := rapid.IntRange(1, 6).Draw(t, "cols")
	if seldom(t, 9, "wide") {
		rows, cols = 2, rapid.IntRange(6000, 9000).Draw(t, "widecols")
		class("line over 64 KB")
		X := make([][]float64, rows)
		for i := range X {
			X[i] = make([]float64, cols)
			for j := range X[i] {
				X[i][j] = float64((i+1)*j) / 16
			}
		}
		return &utils.DataBunch{Data: X, Labels: []int{1, 2}}
	}
	D := &utils.DataBunch{}
	for i := 0; i < rows; i++ {
		r := make([]float64, cols)
		for j := range r {
			r[j] = genValue(t)
		}
		D.Data = append(D.Data, r)
		D.Labels = append(D.Labels, genLabel(t))
	}
	if rapid.Bool().Draw(t, "named") {
		for j := 0; j < cols; j++ {
			D.Keys = append(D.Keys, genName(t, name))
		}
	}
	usedBunch(t, D)
	return D
}

func copyBunch(D *utils.DataBunch) *utils.DataBunch {
	return &utils.DataBunch{Data: copyMatrix(D.Data), Labels: append([]int(nil), D.Labels...), Keys: append([]string(nil), D.Keys...), FloatLabels: append([]float64(nil), D.FloatLabels...)}
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sameBunch(a, b *utils.DataBunch) bool {
	return sameMatrix(a.Data, b.Data) && equalInts(a.Labels, b.Labels) && sameStrings(a.Keys, b.Keys) && sameBits(a.FloatLabels, b.FloatLabels)
}

// closeTable: the same, values to within four printed decimals
func closeTable(got, want *utils.DataBunch) error {
	if got == nil {
		return fmt.Errorf("nothing was read")
	}
	if !equalInts(got.Labels, want.Labels) {
		return fmt.Errorf("labels %v, read %v", want.Labels, got.Labels)
	}
	if !sameStrings(got.Keys, want.Keys) {
		return fmt.Errorf("names %q, read %q", want.Keys, got.Keys)
	}
	if len(got.Data) != len(want.Data) {
		return fmt.Errorf("%d rows, read %d", len(want.Data), len(got.Data))
	}
	for i := range want.Data {
		if len(got.Data[i]) != len(want.Data[i]) {
			return fmt.Errorf("row %d: %d values, read %d", i, len(want.Data[i]), len(got.Data[i]))
		}
		for j, v := range want.Data[i] {
			if !(math.Abs(got.Data[i][j]-v) <= 0.00005*(1+1e-9)+4e-16*math.Abs(v)) {
				return fmt.Errorf("row %d column %d: %v, read %v", i, j, v, got.Data[i][j])
			}
		}
	}
	return nil
}

// scratchFile writes a text to a new file in the run's own temporary folder.
func scratchFile(text string) string {
	f, err := os.CreateTemp("", "data-*.txt")
	if err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	if _, err := f.WriteString(text); err != nil {
		panic("HARNESS-ERROR " + err.Error())
	}
	_ = f.Close()
	return f.Name()
}

func genStream(t *rapid.T, text string) io.Reader {
	var r io.Reader = strings.NewReader(text)
	switch rapid.IntRange(0, 3).Draw(t, "reader") {
	case 1:
		r = iotest.OneByteReader(r)
	case 2:
		r = iotest.HalfReader(r)
	case 3:
		r = iotest.DataErrReader(r)
	}
	return r
}

func TestC09_roundTrip(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		sep := rapid.SampledFrom(csvSeps).Draw(t, "sep")
		D := genTable(t, 1, cleanName(sep))
		keep := copyBunch(D)
		var text string
		if sep == ',' && rapid.Bool().Draw(t, "default") {
			text = D.CSV()
		} else {
			text = D.CSV(string(sep))
		}
		if !sameBunch(D, keep) {
			t.Fatalf("writing changed the data")
		}
		if rapid.Bool().Draw(t, "newline") {
			text += "\n"
		}
		if rapid.IntRange(0, 3).Draw(t, "crlf") == 0 {
			text = strings.ReplaceAll(text, "\n", "\r\n")
		}
		head := len(D.Keys) > 0
		var got *utils.DataBunch
		var err error
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			name := usedFile(t, text, func(name string) { spoil(utils.DataBunchFromCSVFile(name, head, true, sep)) })
			if sep == ',' {
				got, err = utils.DataBunchFromCSVFile(name, head, true)
			} else {
				got, err = utils.DataBunchFromCSVFile(name, head, true, sep)
			}
			_ = os.Remove(name)
		} else {
			got, err = utils.ParseCSVFromReader(genStream(t, text), head, true, sep)
		}
		if err != nil {
			t.Fatalf("what was written cannot be read: %v\n%q", err, text)
		}
		if err := closeTable(got, D); err != nil {
			t.Fatalf("%v\n%q", err, text)
		}
		classIf(head, "with names")
		nontrivial("%q", text)
	})
}

// genNumber gives a number as text together with its exact value.
func genNumber(t *rapid.T) (string, float64) {
	v := genValue(t)
	var s string
	switch rapid.IntRange(0, 6).Draw(t, "fmt") {
	case 0:
		s = strconv.FormatFloat(v, 'g', -1, 64)
	case 1:
		s = strconv.FormatFloat(v, 'e', rapid.IntRange(0, 20).Draw(t, "prec"), 64)
	case 2:
		s = strconv.FormatFloat(v, 'f', rapid.IntRange(0, 25).Draw(t, "prec"), 64)
	case 3:
		s = strconv.Itoa(rapid.IntRange(-100, 100).Draw(t, "int"))
	case 4:
		s = rapid.SampledFrom([]string{".5", "5.", "-.25", "+3", "+1.5e-3", "1E5", "007", "-0", "0e0", "123456789.123456789", "0.30000000000000004", "9007199254740993", "4.9e-324"}).Draw(t, "lit")
	case 5:
		s = strconv.FormatFloat(v, 'f', -1, 64)
	default:
		s = strconv.FormatFloat(rapid.Float64Range(-100, 100).Draw(t, "w"), 'g', 17, 64)
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return "1.7976931348623157e308", math.MaxFloat64
	}
	return s, f
}

type csvText struct {
	want                *utils.DataBunch
	cells               [][]string // raw, quoted where needed; header first
	head, labels        bool
	sep                 rune
	eol                 string
	finalNewline, blank bool
}

func quoteCell(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func (c *csvText) String() string {
	var l []string
	for _, r := range c.cells {
		l = append(l, strings.Join(r, string(c.sep)))
	}
	s := strings.Join(l, c.eol)
	if c.finalNewline {
		s += c.eol
	}
	return s
}

// genCSV writes a well-formed text directly, without the library.
func genCSV(t *rapid.T, minRows int) *csvText {
	c := &csvText{head: rapid.Bool().Draw(t, "head"), labels: rapid.Bool().Draw(t, "haslabels"),
		sep: rapid.SampledFrom([]rune{',', ',', ';', '\t', '|', '/', '#', '~', '·', 'x'}).Draw(t, "sep"),
		eol: rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol"), finalNewline: rapid.Bool().Draw(t, "final"), want: &utils.DataBunch{}}
	rows := rapid.IntRange(minRows, 7).Draw(t, "rows")
	if seldom(t, 8, "tall") {
		rows = rapid.IntRange(60, 300).Draw(t, "tallrows")
		class("many rows")
	}
	cols := rapid.IntRange(1, 5).Draw(t, "cols")
	quote := rapid.IntRange(0, 2).Draw(t, "quote") == 0
	pad := rapid.IntRange(0, 2).Draw(t, "pad") == 0
	cell := func(s string) string {
		if quote && rapid.Bool().Draw(t, "q") {
			s = quoteCell(s)
		}
		if pad && c.sep != '\t' && rapid.Bool().Draw(t, "p") {
			s = strings.Repeat(" ", rapid.IntRange(1, 3).Draw(t, "blanks")) + s
		}
		return s
	}
	if c.head {
		var h []string
		if c.labels {
			h = append(h, rapid.SampledFrom([]string{"Labels", "Class", "1", "x1"}).Filter(func(s string) bool { return !strings.ContainsRune(s, c.sep) }).Draw(t, "labname"))
		}
		for j := 0; j < cols; j++ {
			n := genName(t, cleanName(c.sep))
			if quote && rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
				n += rapid.SampledFrom([]string{string(c.sep), `"`, string(c.sep) + " ", `""`}).Draw(t, "oddname")
				h = append(h, quoteCell(n))
			} else {
				h = append(h, cell(n))
			}
			c.want.Keys = append(c.want.Keys, n)
		}
		c.cells = append(c.cells, h)
	}
	for i := 0; i < rows; i++ {
		var r []string
		if c.labels {
			l := genLabel(t)
			s := strconv.Itoa(l)
			if l > 0 && rapid.IntRange(0, 9).Draw(t, "plus") == 0 {
				s = rapid.SampledFrom([]string{"+", "0", "00"}).Draw(t, "pre") + s
			}
			r = append(r, cell(s))
			c.want.Labels = append(c.want.Labels, l)
		}
		var d []float64
		for j := 0; j < cols; j++ {
			s, v := genNumber(t)
			r = append(r, cell(s))
			d = append(d, v)
		}
		c.want.Data = append(c.want.Data, d)
		c.cells = append(c.cells, r)
	}
	return c
}

func sameTable(got, want *utils.DataBunch) error {
	if got == nil {
		return fmt.Errorf("nothing was read")
	}
	if !equalInts(got.Labels, want.Labels) || !sameStrings(got.Keys, want.Keys) {
		return fmt.Errorf("labels %v and names %q, read as %v and %q", want.Labels, want.Keys, got.Labels, got.Keys)
	}
	if !sameMatrix(got.Data, want.Data) {
		return fmt.Errorf("values %v, read as %v", want.Data, got.Data)
	}
	return nil
}

func TestC09_exactReading(t *testing.T) {
	check(t, 30000, func(t *rapid.T) {
		c := genCSV(t, 0)
		if len(c.cells) == 0 {
			return
		}
		text := c.String()
		var got *utils.DataBunch
		var err error
		if rapid.IntRange(0, 9).Draw(t, "file") == 0 {
			name := usedFile(t, text, func(name string) { spoil(utils.DataBunchFromCSVFile(name, c.head, c.labels, c.sep)) })
			got, err = utils.DataBunchFromCSVFile(name, c.head, c.labels, c.sep)
			_ = os.Remove(name)
			class("from a file")
		} else {
			got, err = utils.ParseCSVFromReader(genStream(t, text), c.head, c.labels, c.sep)
		}
		if err != nil {
			t.Fatalf("well-formed text is rejected: %v\n%q", err, text)
		}
		if err := sameTable(got, c.want); err != nil {
			t.Fatalf("%v\n%q", err, text)
		}
		classIf(c.head, "header")
		classIf(!c.head, "no header")
		classIf(!c.labels, "no labels")
		classIf(!c.finalNewline, "no final newline")
		classIf(c.eol != "\n", "CRLF")
		if len(c.want.Data) > 0 {
			nontrivial("%q", text)
		}
	})
}

func TestC09_malformed(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		c := genCSV(t, 1)
		first := 0
		if c.head {
			first = 1
		}
		kind := rapid.SampledFrom([]string{"short", "long", "number", "label", "quote", "header"}).Draw(t, "kind")
		i := rapid.IntRange(first, len(c.cells)-1).Draw(t, "row")
		row := c.cells[i]
		lab := 0
		if c.labels {
			lab = 1
		}
		switch kind {
		case "short":
			if len(c.cells) < 2 || len(row) < 2 {
				return
			}
			c.cells[i] = row[:len(row)-1]
		case "long":
			if len(c.cells) < 2 {
				return
			}
			c.cells[i] = append(append([]string(nil), row...), "1")
		case "number":
			j := rapid.IntRange(lab, len(row)-1).Draw(t, "col")
			bad := rapid.SampledFrom([]string{"abc", "1.2.3", "--1", "1e", "e5", "0,5", "12a", "$", "1 2", "-", "+", ".", "?", "1e999", "-1e400"}).Draw(t, "bad")
			row[j] = quoteCell(bad)
			if rapid.IntRange(0, 5).Draw(t, "empty") == 0 && len(row) > 1 {
				row[j] = `""`
			}
		case "label":
			if !c.labels {
				return
			}
			row[0] = quoteCell(rapid.SampledFrom([]string{"a", "1.5", "1.0", "1e3", "", "--2", "99999999999999999999", "0x1", "1 2", "-", "++1"}).Draw(t, "bad"))
		case "quote":
			j := rapid.IntRange(0, len(row)-1).Draw(t, "col")
			row[j] = `"1`
		case "header":
			if !c.head || len(c.cells[0]) < 2 {
				return
			}
			if rapid.Bool().Draw(t, "more") {
				c.cells[0] = append(c.cells[0], "extra")
			} else {
				c.cells[0] = c.cells[0][:len(c.cells[0])-1]
			}
		}
		text := c.String()
		got, err := utils.ParseCSVFromReader(genStream(t, text), c.head, c.labels, c.sep)
		if err == nil {
			t.Fatalf("%s: malformed text was accepted\n%q\nas %v", kind, text, got)
		}
		if got != nil {
			t.Fatalf("%s: a data set together with the error %v", kind, err)
		}
		class("rejected: " + kind)
		nontrivial("%q", text)
	})
}

func TestC09_readErrors(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		c := genCSV(t, 1)
		text := c.String()
		n := rapid.IntRange(0, len(text)).Draw(t, "at")
		boom := rapid.SampledFrom([]error{errors.New("boom"), io.ErrUnexpectedEOF, errors.New("eof"), os.ErrClosed}).Draw(t, "err")
		var r io.Reader = genFaultyReader(t, text, n, boom)
		got, err := utils.ParseCSVFromReader(r, c.head, c.labels, c.sep)
		if err == nil || got != nil {
			t.Fatalf("the reader failed with %q after %d bytes; got %v and error %v\n%q", boom, n, got, err, text)
		}
		nontrivial("%d %q", n, text)
		missing := filepath.Join(os.TempDir(), "no-such-file-"+strconv.Itoa(n))
		if got, err := utils.DataBunchFromCSVFile(missing, c.head, c.labels, c.sep); err == nil || got != nil {
			t.Fatalf("a missing file gives %v and error %v", got, err)
		}
	})
}

// Anything at all: an error or data, never a crash.
func TestC09_anything(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		head, labels := rapid.Bool().Draw(t, "head"), rapid.Bool().Draw(t, "labels")
		var text string
		sep := ','
		if rapid.Bool().Draw(t, "mutate") {
			c := genCSV(t, 1)
			b := []byte(c.String())
			sep = c.sep
			for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0 && len(b) > 0; i-- {
				k := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "edit") {
				case 0:
					b[k] = rapid.SampledFrom([]byte{'\n', '"', ',', ' ', 0, 0xff, '\r', 'a', '1', byte(sep)}).Draw(t, "b")
				case 1:
					b = append(b[:k], b[k+1:]...)
				default:
					b = b[:k]
				}
			}
			text = string(b)
		} else {
			text = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{",", "\n", "1", "2.5", "\"", " ", "\r\n", "a", "\n\n", "-", "\x00", "é"}), 0, 20).Draw(t, "words"), "")
		}
		noteCase("%q head=%v labels=%v", text, head, labels)
		got, err := utils.ParseCSVFromReader(strings.NewReader(text), head, labels, sep)
		if err == nil {
			if got == nil {
				t.Fatalf("no data and no error\n%q", text)
			}
			for _, r := range got.Data {
				if len(r) != len(got.Data[0]) {
					t.Fatalf("rows of different lengths accepted\n%q", text)
				}
			}
			if labels && len(got.Labels) != len(got.Data) {
				t.Fatalf("%d labels for %d rows\n%q", len(got.Labels), len(got.Data), text)
			}
			_ = got.CSV()
			_ = got.LibSVM()
			_ = got.String()
			class("accepted")
		} else {
			class("rejected")
		}
		if len(text) > 3 {
			nontrivial("%q", text)
		}
		// writing what there is none of
		var none *utils.DataBunch
		for _, d := range []*utils.DataBunch{none, {}, {Keys: []string{"a"}}, {Data: [][]float64{}}, {Labels: []int{1}}} {
			_ = d.CSV(";")
			_ = d.LibSVM()
			_ = d.String()
		}
	})
}
