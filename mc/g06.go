package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G06",
		Rule: "Texts, each parsed by the library and by an independent reference reader built on Go's own literal readers (strconv, go/constant, time): an accepted text must have exactly the reference reading, documented notation must be accepted, no text may panic. " +
			"Enumerated: (1) per column type every string over a type-specific alphabet up to length 4..5 (thorough 5..6) as a cell, alone, before, between and after other cells and in struct form; " +
			"(2) every single edit (thorough: every pair of edits) of seed literals; (3) every sequence of up to 4 (thorough 5) lines of a palette of 22 line kinds; " +
			"(4) every single-byte deletion, substitution by each of 256 values, and truncation of rich documents; (5) every insertion of comments, blank lines and spaces at one or two token boundaries of documents, which must not change the reading; (6) 45 elements of the notation (comments, blanks, names, rows, tables, digits, strings, bytes...) grown to every size up to 70 (300) and around the powers of two up to 1100..70000 (ten times that), without and with a fault behind or in them",
		Assumptions: []string{"notation beyond the documented (digit separators, hexadecimal floats, signed prefixed integers) may be accepted or refused, but only with Go's meaning"},
		Run:         runG06,
	})
}

// agree parses text both ways.
func parseAgrees(t *T, text string) {
	t.State(text)
	t.Step(1)
	var ts *g.TableSet
	err, p := try(func() (err error) { ts, err = g.NewTableSetFromString(text); return })
	if p != "" {
		t.Failf("panic parsing %q: %s", clip(text, 400), p)
		return
	}
	ref := refParse(text)
	if err != nil {
		t.Outcome("rejected")
		if ref.OK && ref.Must {
			t.Failf("rejected: %v\ntext %q\nshould read as %s", err, clip(text, 400), clip(ref.Set.Full(), 400))
		}
		return
	}
	t.Outcome("accepted")
	if ts == nil {
		t.Failf("no error and no table set for %q", clip(text, 400))
		return
	}
	if !ref.OK {
		t.Failf("accepted %q as %s; it has no such reading", clip(text, 400), clip(observeSet(ts).Full(), 400))
		return
	}
	got := observeSet(ts)
	if d := sameSet(got, ref.Set); d != "" {
		t.Failf("%s\ntext %q", d, clip(text, 400))
		return
	}
	if got.Full() != ref.Set.Full() {
		t.Failf("read as %s, want %s\ntext %q", clip(got.Full(), 300), clip(ref.Set.Full(), 300), clip(text, 400))
		return
	}
	if ok, err := ts.IsValidTableSet(); !ok || err != nil {
		t.Failf("parsed set is invalid: %v\ntext %q", err, clip(text, 400))
	}
}

type litSpec struct {
	typ      string
	alphabet []string
	quick    int
	thorough int
	seeds    []string
}

func litSpecs() []litSpec {
	ints := []string{"0", "1", "7", "8", "9", "-", "+", "x", "b", "o", "_", ".", "f", " ", "X", "\""}
	var out []litSpec
	for _, typ := range []string{"int", "int8", "int16", "int32", "int64", "uint", "uint8", "byte", "uint16", "uint32", "uint64"} {
		q := 3
		if typ == "int" || typ == "uint8" {
			q = 4
		}
		out = append(out, litSpec{typ, ints, q, 5, []string{"0", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536",
			"2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
			"18446744073709551615", "18446744073709551616", "0x7f", "0xFF", "0b101", "0o17", "017", "-017", "+017", "0377", "0400", "0x7fffffffffffffff", "0xffffffffffffffff", "0x10000000000000000",
			"0b11111111", "0b100000000", "0o377", "0o400", "08", "0b2", "0o8", "0xg", "1e3", "1.0", "0b", "0x", "''", "'a'", "true", "-0"}})
	}
	for _, typ := range []string{"float32", "float64"} {
		out = append(out, litSpec{typ, []string{"0", "1", "9", ".", "-", "+", "e", "E", "N", "a", "x", "I", "n", "f", " ", "_"}, 4, 5,
			[]string{"0", "1.5", "-1.5", ".5", "5.", "1e10", "1E-10", "1e400", "-1e400", "1e39", "3.4028235e38", "3.4028236e38", "1.7976931348623157e308", "1.7976931348623159e308", "5e-324", "1e-330", "1e-46", "NaN", "nan", "NAN", "+NaN", "-NaN",
				"Inf", "+Inf", "-Inf", "inf", "Infinity", "0x1p-2", "0x1", "1_0.5", "16777217", "0.1", "010", "1e", "1e+", "--1", "0.1.2", "e5", "0b11"}})
	}
	out = append(out, litSpec{"bool", []string{"true", "false", "t", "T", "f", "1", "0", " ", "r", "ue", "TRUE", "_"}, 3, 4, []string{"true", "false"}})
	out = append(out, litSpec{"string", []string{"\"", "\\", "a", "n", "x", "4", "'", " ", "u", "#", "\u00e9", "\x80"}, 4, 5,
		[]string{`""`, `"a"`, `"\""`, `"\\"`, `"a\tb"`, `"\x41"`, `"\u0041"`, `"\U0001F600"`, `"\101"`, `"\400"`, `"\xff"`, `"\'"`, `"\a\b\f\n\r\t\v"`, `"\ud800"`, `"\U00110000"`, "`raw`", `"a" "b"`, `"a""b"`, "\"\u754c\"", "\"\xff\""}})
	out = append(out, litSpec{"rune", []string{"'", "\\", "a", "n", "x", "4", "1", "\"", " ", "u", "0", "\u00e9", "\x80"}, 4, 5,
		[]string{`'a'`, `'\''`, `'\\'`, `'"'`, `'\"'`, `'\n'`, `'\x41'`, `'\xff'`, `'\u0041'`, `'\U0001F600'`, `'\101'`, `'\377'`, `'\400'`, `'\000'`, `'界'`, `'ab'`, `''`, `'''`, `'\'`, `'\ud800'`, `'\U00110000'`, `' '`, `'#'`, "'\t'"}})
	for _, typ := range []string{"[]byte", "[]uint8"} {
		out = append(out, litSpec{typ, []string{"[", "]", " ", "0", "1", "5", "25", "x", "+", "-", "a"}, 4, 6,
			[]string{"[]", "[0]", "[255]", "[256]", "[1 2]", "[1  2]", "[ 1]", "[1 ]", "[1\t2]", "[0x1f 0b11 017]", "[1,2]", "[-1]", "[1 2 3 255]", "[[1]]", "[1]2", "[a]", "[999999999999999999999]"}})
	}
	out = append(out, litSpec{"*Table", []string{"[", "]", "a", "Z", "_", "9", " ", "int", "-", "#"}, 4, 5, []string{"[]", "[T]", "[int]", "[[T]]", "[T]x", "[T U]", "[9]", "[string]"}})
	out = append(out, litSpec{"time.Time", []string{"2020-01-01", "T", "10:20:30", "Z", "+01:00", ".5", " ", "1"}, 4, 5,
		[]string{"2020-02-29T23:59:59Z", "2020-02-29T23:59:59.5Z", "2019-02-29T23:59:59Z", "2020-01-01T10:20:30.123456789+05:30", "2020-01-01T10:20:30.1234567891Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999-12:00", "2020-01-01T24:00:00Z", "2020-01-01 10:20:30Z"}})
	return out
}

func runG06(c *Ctx) {
	bigTexts(c, func(desc, text func() string) {
		c.Do(desc, func(t *T) { parseAgrees(t, text()) })
	})
	cell := func(typ, lit string) {
		ctxs := []string{
			"[T]\nc\n" + typ + "\n" + lit + "\n",
			"[T]\nc d\n" + typ + " int\n" + lit + " 7\n",
			"[T]\nc d\nint " + typ + "\n7 " + lit + "\n",
			"[T]\nc string = \"=\"\nd " + typ + " = " + lit + "\n\n[U]\nx\nbool\ntrue",
		}
		for i := range ctxs {
			c.Do(func() string { return fmt.Sprintf("%s literal, context %d: %q", typ, i, ctxs[i]) }, func(t *T) { parseAgrees(t, ctxs[i]) })
		}
	}
	for _, sp := range litSpecs() {
		// (1) all strings over the alphabet
		n := len(sp.alphabet)
		max := sp.quick
		if c.Thorough {
			max = sp.thorough
		}
		for l := 0; l <= max; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= n
			}
			for k := 0; k < total; k++ {
				if c.Stopped() {
					return
				}
				s := ""
				for i, x := 0, k; i < l; i++ {
					s += sp.alphabet[x%n]
					x /= n
				}
				cell(sp.typ, s)
			}
		}
		// (2) edits of seeds
		for _, seed := range sp.seeds {
			cell(sp.typ, seed)
			one := edits(seed, sp.alphabet)
			for _, e := range one {
				if c.Stopped() {
					return
				}
				cell(sp.typ, e)
				if c.Thorough {
					for _, e2 := range edits(e, sp.alphabet[:min(8, len(sp.alphabet))]) {
						if c.Next() {
							text := "[T]\nc d\n" + sp.typ + " int\n" + e2 + " 7\n"
							c.exec(func() string { return fmt.Sprintf("two edits %q", text) }, func(t *T) { parseAgrees(t, text) })
						}
						if c.Stopped() {
							return
						}
					}
				}
			}
			// two literals side by side, with each kind of separator
			for _, other := range sp.seeds {
				for _, sep := range []string{"", " ", "\t", "  ", "\f", "\u00a0", ","} {
					text := "[T]\nc d\n" + sp.typ + " " + sp.typ + "\n" + seed + sep + other + "\n"
					c.Do(func() string { return fmt.Sprintf("two literals %q", text) }, func(t *T) { parseAgrees(t, text) })
				}
			}
		}
	}
	// every pair of types side by side without and with a separator
	for _, sa := range litSpecs() {
		for _, sb := range litSpecs() {
			for _, a := range sa.seeds[:min(8, len(sa.seeds))] {
				for _, b := range sb.seeds[:min(8, len(sb.seeds))] {
					if c.Stopped() {
						return
					}
					for _, sep := range []string{"", " "} {
						text := "[T]\nc d\n" + sa.typ + " " + sb.typ + "\n" + a + sep + b + "\n"
						c.Do(func() string { return fmt.Sprintf("two types %q", text) }, func(t *T) { parseAgrees(t, text) })
					}
				}
			}
		}
	}
	// (3) documents of lines
	lines := []string{"", "# c", "[T]", "[U]", "[[S]]", "a int", "b string", "a int = 1", "b string = \"q\"", "a b", "int string", "1 \"x\"", "2 \"y", "3", "a", "int", "1 \"x\" 4", "[]", "a int =", "a int 5 6", "a int x= 5", "[T]x", " \t[V]  "}
	var doc func(l int, ls []string)
	doc = func(l int, ls []string) {
		if c.Stopped() {
			return
		}
		if len(ls) == l {
			text := strings.Join(ls, "\n")
			for _, end := range []string{"", "\n"} {
				text := text + end
				c.Do(func() string { return fmt.Sprintf("lines %q", text) }, func(t *T) { parseAgrees(t, text) })
			}
			return
		}
		for _, x := range lines {
			doc(l, append(ls[:len(ls):len(ls)], x))
		}
	}
	for l := 0; l <= c.pick(4, 5); l++ {
		doc(l, nil)
	}
	// (3b) lines made of the pieces of struct lines, alone and after one
	pieces := []string{"a", "b", " ", "\t", "int", "string", "=", "1", "\"q\"", "#"}
	for l := 1; l <= c.pick(6, 7); l++ {
		seqs(len(pieces), l, func(s []int) bool {
			line := ""
			for _, i := range s {
				line += pieces[i]
			}
			for i, before := range []string{"[T]\na ", "[T]\na int = 1\nb "} {
				if i == 1 && l > 5 {
					continue
				}
				text := before + line + "\n"
				if c.Next() {
					c.exec(func() string { return fmt.Sprintf("struct line %q", text) }, func(t *T) { parseAgrees(t, text) })
				}
			}
			return !c.Stopped()
		})
	}
	// (4) byte edits of rich documents
	for _, d := range richDocs() {
		for i := 0; i <= len(d); i++ {
			if c.Stopped() {
				return
			}
			text := d[:i]
			c.Do(func() string { return fmt.Sprintf("truncated at %d: %q", i, text) }, func(t *T) { parseAgrees(t, text) })
			if i == len(d) {
				break
			}
			del := d[:i] + d[i+1:]
			c.Do(func() string { return fmt.Sprintf("without byte %d: %q", i, del) }, func(t *T) { parseAgrees(t, del) })
			for b := 0; b < 256; b++ {
				if c.Next() {
					sub := d[:i] + string([]byte{byte(b)}) + d[i+1:]
					c.exec(func() string { return fmt.Sprintf("byte %d is %#x: %q", i, b, sub) }, func(t *T) { parseAgrees(t, sub) })
				}
			}
			if c.Thorough {
				for b := 0; b < 256; b++ {
					if c.Next() {
						ins := d[:i] + string([]byte{byte(b)}) + d[i:]
						c.exec(func() string { return fmt.Sprintf("inserted %#x at %d: %q", b, i, ins) }, func(t *T) { parseAgrees(t, ins) })
					}
				}
			}
		}
	}
	// (5) neutral insertions
	for _, d := range richDocs() {
		want := refParse(d)
		type ins struct {
			pos  int
			text string
		}
		var all []ins
		state := "name"
		off := 0
		for _, line := range strings.SplitAfter(d, "\n") {
			t := strings.TrimSpace(line)
			all = append(all, ins{off, "# comment [X]\n"}, ins{off, "  #\n"}, ins{off, " "}, ins{off, "\t"})
			if t == "" || state == "name" {
				all = append(all, ins{off, "\n"}, ins{off, " \t\n\n"}) // between tables
			}
			if t != "" {
				state = "in"
			} else {
				state = "name"
			}
			end := off + len(strings.TrimRight(line, "\n"))
			all = append(all, ins{end, " "}, ins{end, "\t "}, ins{end, "\r"})
			// at existing separators outside quotes and brackets
			inq, inb := byte(0), 0
			for i := 0; i < len(line); i++ {
				ch := line[i]
				if inq != 0 {
					if ch == '\\' {
						i++
					} else if ch == inq {
						inq = 0
					}
					continue
				}
				switch ch {
				case '"', '\'':
					inq = ch
				case '[':
					inb++
				case ']':
					inb--
				case ' ':
					if inb == 0 {
						all = append(all, ins{off + i, " "}, ins{off + i, "\t"})
					}
				}
			}
			off += len(line)
		}
		check := func(text string) {
			c.Do(func() string { return fmt.Sprintf("neutral insertion: %q", text) }, func(t *T) {
				t.State(text)
				t.Step(1)
				ts, err := g.NewTableSetFromString(text)
				if err != nil {
					t.Failf("rejected: %v\n%s", err, clip(text, 800))
					return
				}
				if d := sameSet(observeSet(ts), want.Set); d != "" {
					t.Failf("%s\n%s", d, clip(text, 800))
				}
			})
		}
		for i, a := range all {
			check(d[:a.pos] + a.text + d[a.pos:])
			for _, b := range all[i:] {
				if c.Stopped() {
					return
				}
				if a.pos <= b.pos {
					check(d[:a.pos] + a.text + d[a.pos:b.pos] + b.text + d[b.pos:])
				}
			}
		}
	}
}

func edits(s string, alphabet []string) []string {
	var out []string
	for i := 0; i <= len(s); i++ {
		for _, a := range alphabet {
			out = append(out, s[:i]+a+s[i:])
			if i < len(s) {
				out = append(out, s[:i]+a+s[i+1:])
			}
		}
		if i < len(s) {
			out = append(out, s[:i]+s[i+1:])
		}
	}
	return out
}

func richDocs() []string {
	return []string{
		"[[Set_1]]\n\n[T1]\na b c\nint string float32\n-1 \"x \\\" y\" 1.5\n2 \"\" NaN\n\n[S]\ni int = 0x1F\nr rune = '\\''\ny []byte = [1 255]\n\n[E]\n\n[T2]\nt n b\ntime.Time *Table bool\n2020-02-29T23:59:59.5Z [N] true\n0001-01-01T00:00:00+05:30 [] false\n",
		"# leading\n[A]\nu8 u16 u32 u64 u\nuint8 uint16 uint32 uint64 uint\n255 65535 4294967295 18446744073709551615 017\n\n[B]\nx int8\ny string\n\n[C]\ni16 i32 i64 f r\nint16 int32 int64 float64 rune\n-32768 2147483647 -9223372036854775808 -.5e-3 '\\u00e9'",
	}
}
