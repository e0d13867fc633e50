package boocheck

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/rmera/boo/confu"
	"pgregory.net/rapid"
)

func sameNames(a, b map[int]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

var nameSeps = []string{"", " ", ",", ":", ";", "\t", "::", "->", "|", " = ", "ab", "\u00a7"}

// genNames draws a name file: its lines and what they say.
func genNames(t *rapid.T, sep string) (lines []string, want map[int]string) {
	want = map[int]string{}
	blank := sep == "" || sep == " "
	n := rapid.IntRange(0, 8).Draw(t, "entries")
	pool := []string{"Ala", "x", "0", "class-one", "Ω", "a.b", "12", "#", "\"q\""}
	if !blank {
		pool = append(pool, "two words", "a  b", "in\tside", "tail ", " both ", "\ttab")
	}
	for i := 0; i < n; i++ {
		l := rapid.OneOf(rapid.IntRange(-2, 5), rapid.SampledFrom([]int{1000000, -77, 1 << 40})).Draw(t, "label")
		name := rapid.SampledFrom(pool).Draw(t, "name")
		if seldom(t, 6, "long") {
			name = strings.Repeat("n", rapid.SampledFrom([]int{4095, 4096, 5000, 65536, 70000}).Draw(t, "len"))
			class("long line")
		}
		if !blank && strings.Contains(name, sep) {
			name = "plain"
		}
		num := fmt.Sprint(l)
		if l >= 0 && rapid.IntRange(0, 7).Draw(t, "form") == 7 {
			num = rapid.SampledFrom([]string{"+", "0", "00"}).Draw(t, "pre") + num
		}
		line := num + sep + name
		if blank {
			line = num + strings.Repeat(" ", rapid.IntRange(1, 3).Draw(t, "blanks")) + name
			switch rapid.IntRange(0, 7).Draw(t, "spacing") {
			case 5:
				line = "  " + line
			case 6:
				line += "  "
			case 7:
				line = num + "\t" + name
			}
		}
		if _, ok := want[l]; ok {
			class("repeated number")
		}
		want[l] = name
		lines = append(lines, line)
	}
	return lines, want
}

func withBlankLines(t *rapid.T, lines []string) []string {
	var out []string
	for _, l := range lines {
		for rapid.IntRange(0, 5).Draw(t, "blankline") == 5 {
			out = append(out, rapid.SampledFrom([]string{"", "", "  ", "\t"}).Draw(t, "blank"))
			class("blank lines")
		}
		out = append(out, l)
	}
	return out
}

func readNames(path, sep string) (m map[int]string, err error, bad string) {
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprint(p)
		}
	}()
	if sep == "" {
		m, err = confu.ReadNameMap(path)
	} else {
		m, err = confu.ReadNameMap(path, sep)
	}
	return
}

func TestC22_read(t *testing.T) {
	check(t, 20000, func(t *rapid.T) {
		sep := rapid.SampledFrom(nameSeps).Draw(t, "sep")
		lines, want := genNames(t, sep)
		lines = withBlankLines(t, lines)
		text := strings.Join(lines, "\n")
		if rapid.Bool().Draw(t, "newline") && len(lines) > 0 {
			text += "\n"
		} else {
			class("no final newline")
		}
		for rapid.IntRange(0, 5).Draw(t, "trailing") == 5 && len(lines) > 0 {
			text += "\n"
		}
		path := usedFile(t, text, func(name string) {
			if m, err, _ := readNames(name, sep); err == nil {
				for k := range m {
					m[k] = "spoiled"
				}
				if m != nil {
					m[-7654321] = "spoiled"
				}
			}
		})
		defer os.Remove(path)
		noteCase("%q %q", sep, text)
		m, err, bad := readNames(path, sep)
		if bad != "" || err != nil {
			t.Fatalf("separator %q: %v %s\n%q", sep, err, bad, text)
		}
		if !sameNames(m, want) {
			t.Fatalf("separator %q: read %q, the file says %q\n%q", sep, m, want, text)
		}
		if got, err := os.ReadFile(path); err != nil || string(got) != text {
			t.Fatalf("reading changed the file")
		}
		if sep == "" { // an empty separator given is the default, too
			if m, err := confu.ReadNameMap(path, ""); err != nil || !sameNames(m, want) {
				t.Fatalf("empty separator: read %q (%v), the file says %q", m, err, want)
			}
		}
		class("separator " + fmt.Sprintf("%q", sep))
		if len(want) > 0 {
			nontrivial("%q %q", sep, text)
		}
	})
}

func TestC22_malformed(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		sep := rapid.SampledFrom(nameSeps).Draw(t, "sep")
		lines, _ := genNames(t, sep)
		real := sep
		if real == "" {
			real = " "
		}
		kind := rapid.SampledFrom([]string{"noname", "nolabel", "float", "word", "huge", "hex", "missing", "directory"}).Draw(t, "kind")
		var bad string
		switch kind {
		case "noname":
			bad = "3"
		case "nolabel":
			bad = real + "name"
			if real == " " {
				bad = "name x"
			}
		case "float":
			bad = rapid.SampledFrom([]string{"1.5", "1.0", "1e3", "2."}).Draw(t, "num") + real + "name"
		case "word":
			bad = rapid.SampledFrom([]string{"one", "1a", "a1", "--1", "1-", "0x"}).Draw(t, "num") + real + "name"
		case "huge":
			bad = "99999999999999999999999" + real + "name"
		case "hex":
			bad = "0x1F" + real + "name"
		}
		dir := os.TempDir()
		path := filepath.Join(dir, "none-such")
		if kind == "directory" {
			path = dir
		} else if kind != "missing" {
			at := rapid.IntRange(0, len(lines)).Draw(t, "at")
			lines = append(lines[:at:at], append([]string{bad}, lines[at:]...)...)
			lines = withBlankLines(t, lines)
			text := strings.Join(lines, "\n")
			if rapid.Bool().Draw(t, "newline") {
				text += "\n"
			}
			path = scratchFile(text)
			defer os.Remove(path)
			noteCase("%q %q", sep, text)
			nontrivial("%q %q", sep, text)
		}
		m, err, crash := readNames(path, sep)
		if crash != "" {
			t.Fatalf("%s: separator %q, lines %q: panic %s", kind, sep, lines, crash)
		}
		if err == nil {
			t.Fatalf("%s: separator %q, lines %q: accepted as %q", kind, sep, lines, m)
		}
		class("malformed: " + kind)
	})
}

// Any text at all is read or refused, never a crash; and what is read has a
// line for every name.
func TestC22_anything(t *testing.T) {
	check(t, 15000, func(t *rapid.T) {
		sep := rapid.SampledFrom(nameSeps).Draw(t, "sep")
		bits := []string{"1", "2", "-3", "name", "\n", "\n", " ", " ", "\t", sep, sep, "\x00", "\xff", "x", "1.5", "\r"}
		var b strings.Builder
		for i := rapid.IntRange(0, 25).Draw(t, "len"); i > 0; i-- {
			b.WriteString(rapid.SampledFrom(bits).Draw(t, "bit"))
		}
		path := scratchFile(b.String())
		defer os.Remove(path)
		noteCase("%q %q", sep, b.String())
		m, err, crash := readNames(path, sep)
		if crash != "" {
			t.Fatalf("separator %q, %q: panic %s", sep, b.String(), crash)
		}
		if err == nil && len(m) > 1+strings.Count(b.String(), "\n") {
			t.Fatalf("separator %q, %q: %d names", sep, b.String(), len(m))
		}
		if b.Len() > 3 {
			nontrivial("%q %q", sep, b.String())
		}
	})
}

func TestC22_simpleMap(t *testing.T) {
	check(t, 4000, func(t *rapid.T) {
		l := rapid.SliceOfN(rapid.OneOf(rapid.IntRange(-3, 12), rapid.Int()), 0, 12).Draw(t, "labels")
		keep := append([]int(nil), l...)
		m := confu.MakeSimpleNameMap(l)
		want := map[int]string{}
		for _, v := range l {
			want[v] = fmt.Sprint(v)
		}
		if !sameNames(m, want) {
			t.Fatalf("labels %v: %v", l, m)
		}
		if !equalInts(l, keep) {
			t.Fatalf("labels %v became %v", keep, l)
		}
		if len(want) > 0 {
			nontrivial("%v", l)
		}
	})
}
