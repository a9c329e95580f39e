package main

// G27: a refused text is refused with the number of the line where it went wrong.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G27",
		Rule: "Texts that the independent reference reader cannot read, each given to NewTableSetFromString (and, for the documents of kinds 2 and 3, written to a file and given to NewTableSetFromFile, NewTableFromFile, NewTableFromFileByTableName): the error must name the file and the first line after which no reading is possible. " +
			"Enumerated: (1) every sequence of up to 4 (thorough 5) lines of a palette of 23 kinds of line; (2) every line of rich documents replaced by, preceded by or followed by each of the faulty and neutral lines; (3) every truncation, byte deletion and byte substitution (quick: 12 bytes, thorough: 256) of rich documents; " +
			"(4) every faulty line at every position of generated tables of 1..40 rows, with every one of 6 patterns of comments, blank lines and line ends before it; the grown texts of G06",
		Assumptions: []string{"when the row of types is missing, the last line present or the place where it should be are both right", "an earlier line with notation beyond the documented may be the one refused"},
		Run:         runG27,
	})
}

var posRE = regexp.MustCompile(`(?:^|\s):(\d+):`)

// lineAgrees checks the position in the error about text.
func lineAgrees(t *T, text string, name string, err error) {
	ref := refParse(text)
	if err == nil || ref.OK {
		t.Outcome("has a reading or is accepted (not of this property)")
		return
	}
	msg := err.Error()
	re := posRE
	if name != "" {
		re = regexp.MustCompile(regexp.QuoteMeta(name) + `:(\d+):`)
	}
	m := re.FindStringSubmatch(msg)
	if m == nil {
		t.Failf("the error names no line (it is line %d): %v\ntext %q", ref.Line, err, clip(text, 400))
		return
	}
	n, _ := strconv.Atoi(m[1])
	ok := n == ref.Line || ref.End && (n == ref.Line-1 || n == ref.Line+1)
	for _, x := range ref.May {
		ok = ok || n == x
	}
	if !ok {
		t.Failf("the error is about line %d, the fault is in line %d: %v\ntext %q", n, ref.Line, err, clip(text, 400))
		return
	}
	t.Outcome(fmt.Sprintf("line %d", n))
}

func stringLine(t *T, text string) {
	t.State(text)
	t.Step(1)
	var err error
	_, p := try(func() error { _, err = g.NewTableSetFromString(text); return err })
	if p != "" {
		t.Failf("panic parsing %q: %s", clip(text, 400), p)
		return
	}
	lineAgrees(t, text, "", err)
}

func runG27(c *Ctx) {
	bigTexts(c, func(desc, text func() string) {
		c.Do(desc, func(t *T) { stringLine(t, text()) })
	})
	dir, done := c.Scratch()
	defer done()
	path := filepath.Join(dir, "f-1.got")
	both := func(text string, what func() string) {
		c.Do(what, func(t *T) {
			if stringLine(t, text); t.Failed() || strings.Contains(text, path) {
				return
			}
			must(os.WriteFile(path, []byte(text), 0600))
			_, err := g.NewTableSetFromFile(path)
			t.Step(3)
			lineAgrees(t, text, filepath.ToSlash(path), err)
			if t.Failed() || err == nil {
				return
			}
			_, err = g.NewTableFromFile(path)
			if err == nil {
				t.Failf("NewTableFromFile accepts %q", clip(text, 300))
				return
			}
			lineAgrees(t, text, filepath.ToSlash(path), err)
			_, err = g.NewTableFromFileByTableName(path, "A")
			if err == nil {
				t.Failf("NewTableFromFileByTableName accepts %q", clip(text, 300))
				return
			}
			lineAgrees(t, text, filepath.ToSlash(path), err)
		})
	}

	// (2) lines among the lines of documents
	faults := []string{"", "#", "  # x ]", "[T1]", "[[T]]", "[S", "S]", "[]", "[int]", "a", "a a", "int", "int int", "a int", "a int =", "a int = x", "a int == 1", "a int 1", "a complex", "a b c", "1", "1 2", "1 \"x", "1 \"x\" 1.5 4", "-1 \"\" x", "256 0 0 0 0", "-1", "'", "= 1", "]", "\x00", "\u00a0", "2020-13-01T00:00:00Z [] true"}
	docs := append(richDocs(), "[A]\ni int = 1\ns string = \"x = y\"\n\n\n\n# c\n[B]\ni int\ns string\n\n[C]\n# c\ni s\n# c\nint string\n# c\n1 \"x\"\n\n# c\n[D]", "# 1\r\n\r\n[[Set]]\r\n[A]\r\ni\r\nint\r\n1\r\n2\r\n", "\n\n\n\t\n [A] \n i \n int \n 1 ")
	for _, d := range docs {
		ls := strings.Split(d, "\n")
		for i := 0; i <= len(ls); i++ {
			for _, f := range faults {
				ins := strings.Join(append(append(append([]string{}, ls[:i]...), f), ls[i:]...), "\n")
				both(ins, func() string { return fmt.Sprintf("%q inserted as line %d: %q", f, i+1, ins) })
				if i < len(ls) {
					rep := strings.Join(append(append(append([]string{}, ls[:i]...), f), ls[i+1:]...), "\n")
					both(rep, func() string { return fmt.Sprintf("%q instead of line %d: %q", f, i+1, rep) })
				}
				if c.Thorough {
					for j := i; j <= len(ls); j++ {
						for _, f2 := range faults {
							two := strings.Join(append(append(append(append(append([]string{}, ls[:i]...), f), ls[i:j]...), f2), ls[j:]...), "\n")
							both(two, func() string { return fmt.Sprintf("%q as line %d and %q after line %d: %q", f, i+1, f2, j, two) })
							if c.Stopped() {
								return
							}
						}
					}
				}
				if c.Stopped() {
					return
				}
			}
			if i < len(ls) {
				del := strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), "\n")
				both(del, func() string { return fmt.Sprintf("without line %d: %q", i+1, del) })
			}
			for j := i + 1; j < len(ls); j++ {
				sw := append([]string{}, ls...)
				sw[i], sw[j] = sw[j], sw[i]
				text := strings.Join(sw, "\n")
				both(text, func() string { return fmt.Sprintf("lines %d and %d swapped: %q", i+1, j+1, text) })
			}
		}
	}
	// (3) bytes of documents
	var subs []byte
	for b := 0; b < 256; b++ {
		if c.Thorough || strings.IndexByte("\x00\n\r \"'[]=#9a", byte(b)) >= 0 {
			subs = append(subs, byte(b))
		}
	}
	for _, d := range docs {
		for i := 0; i < len(d); i++ {
			both(d[:i], func() string { return fmt.Sprintf("truncated at %d: %q", i, d[:i]) })
			del := d[:i] + d[i+1:]
			both(del, func() string { return fmt.Sprintf("without byte %d: %q", i, del) })
			for _, b := range subs {
				sub := d[:i] + string([]byte{b}) + d[i+1:]
				both(sub, func() string { return fmt.Sprintf("byte %d is %#x: %q", i, b, sub) })
				ins := d[:i] + string([]byte{b}) + d[i:]
				both(ins, func() string { return fmt.Sprintf("byte %#x inserted at %d: %q", b, i, ins) })
			}
			if c.Stopped() {
				return
			}
		}
	}
	// (4) a fault deep in a table
	rowPre := []string{"", "# c\n", "#\n \t# [X]\n", "# \"\n"}
	head := []string{"[A]\ni s\nint string\n", "\n\n\n[A]\n#\ni s\n#\nint string\n", "# x\r\n[[S]]\r\n\r\n[A]\r\ni s\r\nint string\r\n", "[Z]\nq int = 4\n\n\n[Y]\n\n[A]\ni s\nint string\n"}
	bad := []string{"1", "1 \"x", "x \"x\"", "1 \"x\" 2", "1.5 \"x\"", "[B]", "\n[A]", "\n1 \"x\"", "9223372036854775808 \"\"", "\n[B]\nx y\nint\n", "\n[B]\nx x\nint int\n", "\n[B]\nx\n", "\n[B]\nx int = 1\ny int\n", "\n[B]\nx int\nx int\n", "\n[B]\nx int = 300\ny uint8 = 300\n", "\n[[S]]\n[[S]]"}
	for _, h := range head {
		for _, pre := range rowPre {
			for _, nl := range []string{"\n", "\r\n"} {
				for rows := 0; rows <= 40; rows++ {
					if rows > 3 && rows < 38 && rows%c.pick(9, 1) != 0 {
						continue
					}
					for _, b := range bad {
						text := h
						for r := 0; r < rows; r++ {
							text += pre + fmt.Sprintf("%d \"r%d\"", r, r) + nl
						}
						for _, tail := range []string{"", "\n", "\n\n[Q]\n", "\n7 \"y\"\n"} {
							text := text + b + tail
							both(text, func() string { return fmt.Sprintf("fault %q after %d rows: %q", b, rows, clip(text, 500)) })
						}
						if c.Stopped() {
							return
						}
					}
				}
			}
		}
	}
	// (1) documents of lines
	lines := []string{"", "# c", "[T]", "[U]", "[[S]]", "a int", "b string", "a int = 1", "b string = \"q\"", "a b", "int string", "1 \"x\"", "2 \"y", "3", "a", "int", "1 \"x\" 4", "[]", "a int =", "a int 5 6", "a int x= 5", "[T]x", " \t[V]  "}
	var doc func(l int, ls []string)
	doc = func(l int, ls []string) {
		if c.Stopped() {
			return
		}
		if len(ls) == l {
			text := strings.Join(ls, "\n")
			for _, end := range []string{"", "\n"} {
				text := text + end
				c.Do(func() string { return fmt.Sprintf("lines %q", text) }, func(t *T) { stringLine(t, text) })
			}
			return
		}
		for _, x := range lines {
			doc(l, append(ls[:len(ls):len(ls)], x))
		}
	}
	for l := 0; l <= c.pick(4, 5); l++ {
		doc(l, nil)
	}
}
