package boocheck

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/rmera/boo/utils"
	"pgregory.net/rapid"
)

func svmName(s string) bool {
	if s == "" || strings.ContainsAny(s, ":") || s != strings.ToValidUTF8(s, "?") || strings.ContainsRune(s, unicode.ReplacementChar) {
		return false
	}
	return strings.IndexFunc(s, unicode.IsSpace) < 0
}

func TestC10_roundTrip(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		D := genTable(t, 1, svmName)
		keep := copyBunch(D)
		text := D.LibSVM()
		if !sameBunch(D, keep) {
			t.Fatalf("writing changed the data")
		}
		if rapid.Bool().Draw(t, "newline") {
			text += "\n"
		}
		head := len(D.Keys) > 0
		var got *utils.DataBunch
		var err error
		if rapid.IntRange(0, 3).Draw(t, "file") == 0 {
			name := usedFile(t, text, func(name string) { spoil(utils.DataBunchFromLibSVMFile(name, head)) })
			if !head && rapid.Bool().Draw(t, "default") {
				got, err = utils.DataBunchFromLibSVMFile(name)
			} else {
				got, err = utils.DataBunchFromLibSVMFile(name, head)
			}
			_ = os.Remove(name)
		} else {
			got, err = utils.ParseLibSVMFromReader(genStream(t, text), head)
		}
		if err != nil {
			t.Fatalf("what was written cannot be read: %v\n%q", err, text)
		}
		if err := closeTable(got, D); err != nil {
			t.Fatalf("%v\n%q", err, text)
		}
		classIf(head, "with names")
		nontrivial("%q", text)
	})
}

type svmText struct {
	want  *utils.DataBunch
	lines [][]string // header first
	head  bool
	gaps  []string // separators, used in turn
	eol   string
	blank []int // before which lines blank ones go
	final bool
}

func (c *svmText) String() string {
	var b strings.Builder
	g := 0
	gap := func() string { g++; return c.gaps[g%len(c.gaps)] }
	for i, l := range c.lines {
		for _, k := range c.blank {
			if k == i {
				b.WriteString([]string{"", " ", "\t  "}[g%3] + c.eol)
			}
		}
		if len(c.gaps) > 2 { // leading blanks too
			b.WriteString(strings.Repeat(" ", g%3))
		}
		for j, f := range l {
			if j > 0 {
				b.WriteString(gap())
			}
			b.WriteString(f)
		}
		if i < len(c.lines)-1 || c.final {
			b.WriteString(c.eol)
		}
	}
	for _, k := range c.blank {
		if k == len(c.lines) && c.final {
			b.WriteString(c.eol)
		}
	}
	return b.String()
}

func genSVM(t *rapid.T, minRows int) *svmText {
	c := &svmText{want: &utils.DataBunch{}, head: rapid.Bool().Draw(t, "head"), final: rapid.Bool().Draw(t, "final"),
		eol: rapid.SampledFrom([]string{"\n", "\n", "\r\n"}).Draw(t, "eol"), gaps: rapid.SampledFrom([][]string{{" "}, {" "}, {"  ", "\t"}, {" ", "   ", "\t", "\t "}}).Draw(t, "gaps")}
	rows := rapid.IntRange(minRows, 7).Draw(t, "rows")
	if seldom(t, 8, "tall") {
		rows = rapid.IntRange(60, 300).Draw(t, "tallrows")
		class("many rows")
	}
	cols := rapid.IntRange(1, 6).Draw(t, "cols")
	wide := seldom(t, 10, "wide")
	if wide {
		rows, cols = max(minRows, 2), rapid.IntRange(7000, 9000).Draw(t, "widecols")
		class("line over 64 KB")
	}
	if c.head {
		h := []string{rapid.SampledFrom([]string{"Labels", "y", "1"}).Draw(t, "labname")}
		for j := 0; j < cols; j++ {
			n := fmt.Sprintf("f%d", j)
			if !wide {
				n = genName(t, svmName)
			}
			h = append(h, fmt.Sprintf("%d:%s", j+1, n))
			c.want.Keys = append(c.want.Keys, n)
		}
		c.lines = append(c.lines, h)
	}
	for i := 0; i < rows; i++ {
		l := genLabel(t)
		r := []string{strconv.Itoa(l)}
		if l > 0 && rapid.IntRange(0, 9).Draw(t, "plus") == 0 {
			r[0] = "+" + r[0]
		}
		c.want.Labels = append(c.want.Labels, l)
		var d []float64
		for j := 0; j < cols; j++ {
			s, v := "0.25", 0.25
			if !wide {
				s, v = genNumber(t)
			} else if j%7 == 0 {
				v = float64(j * (i + 1))
				s = strconv.FormatFloat(v, 'g', -1, 64)
			}
			r = append(r, fmt.Sprintf("%d:%s", j+1, s))
			d = append(d, v)
		}
		c.want.Data = append(c.want.Data, d)
		c.lines = append(c.lines, r)
	}
	if rapid.IntRange(0, 2).Draw(t, "blanks") == 0 {
		c.blank = rapid.SliceOfN(rapid.IntRange(0, len(c.lines)), 0, 3).Draw(t, "blankat")
	}
	return c
}

func TestC10_exactReading(t *testing.T) {
	check(t, 30000, func(t *rapid.T) {
		c := genSVM(t, 0)
		text := c.String()
		var got *utils.DataBunch
		var err error
		noteCase("%q", text)
		if rapid.IntRange(0, 9).Draw(t, "file") == 0 {
			name := usedFile(t, text, func(name string) { spoil(utils.DataBunchFromLibSVMFile(name, c.head)) })
			got, err = utils.DataBunchFromLibSVMFile(name, c.head)
			_ = os.Remove(name)
			class("from a file")
		} else {
			got, err = utils.ParseLibSVMFromReader(genStream(t, text), c.head)
		}
		if err != nil {
			t.Fatalf("well-formed text is rejected: %v\n%q", err, text)
		}
		if err := sameTable(got, c.want); err != nil {
			t.Fatalf("%v\n%q", err, text)
		}
		classIf(c.head, "header")
		classIf(len(c.blank) > 0, "blank lines")
		classIf(!c.final, "no final newline")
		classIf(c.eol != "\n", "CRLF")
		if len(c.want.Data) > 0 {
			nontrivial("%q", text)
		}
	})
}

func TestC10_malformed(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		c := genSVM(t, 1)
		first := 0
		if c.head {
			first = 1
		}
		i := rapid.IntRange(first, len(c.lines)-1).Draw(t, "line")
		j := rapid.IntRange(1, len(c.lines[i])-1).Draw(t, "term")
		kind := rapid.SampledFrom([]string{"term", "value", "label", "header"}).Draw(t, "kind")
		switch kind {
		case "term":
			c.lines[i][j] = rapid.SampledFrom([]string{"5", "1:2:3", "1:1:", "::", "0.5", "1;2", "1::2"}).Draw(t, "bad")
		case "value":
			c.lines[i][j] = fmt.Sprintf("%d:%s", j, rapid.SampledFrom([]string{"", "a", "1.2.3", "--1", "1e", "1,5", "0.5x", "-", "1e999", "-1e400"}).Draw(t, "bad"))
		case "label":
			c.lines[i][0] = rapid.SampledFrom([]string{"a", "1.5", "1.0", "1e3", "--2", "99999999999999999999", "0x1", "-", "1:2", "++1", "+-1"}).Draw(t, "bad")
		case "header":
			if !c.head {
				return
			}
			c.lines[0][j] = rapid.SampledFrom([]string{"name", "1:2:3", "a:b:c"}).Draw(t, "bad")
		}
		text := c.String()
		noteCase("%q", text)
		got, err := utils.ParseLibSVMFromReader(genStream(t, text), c.head)
		if err == nil {
			t.Fatalf("%s: malformed text was accepted\n%q\nas %v", kind, text, got)
		}
		if got != nil {
			t.Fatalf("%s: a data set together with the error %v", kind, err)
		}
		class("rejected: " + kind)
		nontrivial("%q", text)
	})
}

func TestC10_readErrors(t *testing.T) {
	check(t, 6000, func(t *rapid.T) {
		c := genSVM(t, 1)
		text := c.String()
		n := rapid.IntRange(0, len(text)).Draw(t, "at")
		boom := rapid.SampledFrom([]error{errors.New("boom"), io.ErrUnexpectedEOF, errors.New("eof"), os.ErrClosed}).Draw(t, "err")
		var r io.Reader = genFaultyReader(t, text, n, boom)
		got, err := utils.ParseLibSVMFromReader(r, c.head)
		if err == nil || got != nil {
			t.Fatalf("the reader failed with %q after %d bytes; got %v and error %v\n%q", boom, n, got, err, text)
		}
		nontrivial("%d %q", n, text)
		missing := filepath.Join(os.TempDir(), "no-such-file-"+strconv.Itoa(n))
		if got, err := utils.DataBunchFromLibSVMFile(missing, c.head); err == nil || got != nil {
			t.Fatalf("a missing file gives %v and error %v", got, err)
		}
	})
}

func TestC10_anything(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		head := rapid.Bool().Draw(t, "head")
		var text string
		if rapid.Bool().Draw(t, "mutate") {
			c := genSVM(t, 1)
			b := []byte(c.String())
			for i := rapid.IntRange(1, 4).Draw(t, "edits"); i > 0 && len(b) > 0; i-- {
				k := rapid.IntRange(0, len(b)-1).Draw(t, "at")
				switch rapid.IntRange(0, 2).Draw(t, "edit") {
				case 0:
					b[k] = rapid.SampledFrom([]byte{'\n', ':', ',', ' ', 0, 0xff, '\r', 'a', '1'}).Draw(t, "b")
				case 1:
					b = append(b[:k], b[k+1:]...)
				default:
					b = b[:k]
				}
			}
			text = string(b)
		} else {
			text = strings.Join(rapid.SliceOfN(rapid.SampledFrom([]string{":", "\n", "1", "2.5", "1:2", " ", "\r\n", "a", "\n\n", "-", "\x00", "é", "\u00a0"}), 0, 20).Draw(t, "words"), "")
		}
		noteCase("%q head=%v", text, head)
		got, err := utils.ParseLibSVMFromReader(strings.NewReader(text), head)
		if err == nil {
			if got == nil {
				t.Fatalf("no data and no error\n%q", text)
			}
			if len(got.Labels) != len(got.Data) {
				t.Fatalf("%d labels for %d rows\n%q", len(got.Labels), len(got.Data), text)
			}
			_ = got.CSV()
			_ = got.LibSVM()
			_ = got.String()
			class("accepted")
		} else {
			class("rejected")
		}
		if len(text) > 3 {
			nontrivial("%q", text)
		}
		var none *utils.DataBunch
		for _, d := range []*utils.DataBunch{none, {}, {Keys: []string{"a"}}, {Data: [][]float64{}}, {Labels: []int{1}}} {
			_ = d.LibSVM()
		}
	})
}
