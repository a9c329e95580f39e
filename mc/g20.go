package main

// G20 files: what is written is what is read, or an error.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	g "github.com/urban-wombat/gotables"
)

func fileSets() (ss []*MSet) {
	add := func(name string, ts ...*MTable) { ss = append(ss, &MSet{Name: name, Tables: ts}) }
	ints := &MTable{Name: "A", Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, "x"}, {-20, "y z"}, {3, ""}}}
	strs := &MTable{Name: "B", Cols: []MCol{{"s", "string"}, {"r", "rune"}}, Rows: [][]interface{}{{"l1\nl2\n\n[C]", '\n'}, {`q"\`, '\''}, {"\u754c\x00\t# no", '\u754c'}}}
	str := &MTable{Name: "P", Struct: true, Cols: []MCol{{"f", "float64"}, {"b", "[]byte"}, {"t", "string"}}, Rows: [][]interface{}{{math.NaN(), []byte{1, 2, 255}, "a = b"}}}
	add("")
	add("EmptySet")
	add("", ints)
	add("", &MTable{Name: "NoRows", Cols: []MCol{{"i", "int"}}})
	add("", &MTable{Name: "NoCols"})
	add("", strs)
	add("", str)
	add("Set", ints, strs)
	add("", ints, str, strs)
	add("", &MTable{Name: "A", Cols: []MCol{{"i", "int"}}, Rows: [][]interface{}{{7}}}, &MTable{Name: "P", Struct: true, Cols: []MCol{{"i", "int"}}}, &MTable{Name: "Z", Cols: []MCol{{"x", "bool"}}, Rows: [][]interface{}{{true}, {false}}})
	all := &MTable{Name: "All"}
	for i, ty := range plainTypes {
		all.Cols = append(all.Cols, MCol{fmt.Sprintf("c%d", i), ty})
	}
	for r := 0; r < 2; r++ {
		var row []interface{}
		for _, ty := range plainTypes {
			row = append(row, ordinary(ty, r))
		}
		all.Rows = append(all.Rows, row)
	}
	add("", all)
	long := &MTable{Name: "Long", Cols: []MCol{{"n", "int64"}, {"f", "float32"}, {"s", "string"}}}
	for r := 0; r < 300; r++ {
		long.Rows = append(long.Rows, []interface{}{int64(r) * 1000003, float32(r) / 7, strings.Repeat("w", r%30)})
	}
	add("", long)
	return
}

// readBack reads path by every reader and compares with what the bytes mean. exact: the bytes were printed by the library and must be accepted.
func readBack(t *T, path string, content []byte, want *MSet) {
	ref := refParse(string(content))
	ts, err := g.NewTableSetFromFile(path)
	t.Step(1)
	fromText, terr := g.NewTableSetFromString(string(content))
	if (err == nil) != (terr == nil) {
		t.Failf("from file: %v, from text: %v", err, terr)
		return
	}
	if want != nil && err != nil {
		t.Failf("a complete file is refused: %v", err)
		return
	}
	if err != nil {
		t.Outcome("refused")
		if ts != nil {
			t.Failf("an error and a table set")
		}
		if _, err := g.NewTableFromFile(path); err == nil {
			t.Failf("NewTableFromFile accepts what NewTableSetFromFile refuses")
		}
		if _, err := g.NewTableFromFileByTableName(path, "A"); err == nil {
			t.Failf("NewTableFromFileByTableName accepts what NewTableSetFromFile refuses")
		}
		return
	}
	t.Outcome(fmt.Sprintf("read %d tables", ts.TableCount()))
	if !ref.OK {
		t.Failf("accepted %q, which has no reading", clip(string(content), 300))
		return
	}
	got := observeSet(ts)
	if got.Loose() != ref.Set.Loose() {
		t.Failf("read %s, the bytes say %s", got.Loose(), ref.Set.Loose())
		return
	}
	if o := observeSet(fromText); o.Full() != got.Full() {
		t.Failf("from file %s, from text %s", got.Full(), o.Full())
		return
	}
	if want != nil && got.Loose() != want.Loose() {
		t.Failf("read %s, wrote %s", got.Loose(), want.Loose())
		return
	}
	tb, err := g.NewTableFromFile(path)
	if (err == nil) != (len(got.Tables) == 1) {
		t.Failf("NewTableFromFile of a file with %d tables: %v", len(got.Tables), err)
		return
	}
	if err == nil {
		if o := observe(tb); o.Full() != got.Tables[0].Full() {
			t.Failf("NewTableFromFile gives %s, want %s", o.Full(), got.Tables[0].Full())
			return
		}
	}
	for i, m := range got.Tables {
		tb, err := g.NewTableFromFileByTableName(path, m.Name)
		if err != nil || observe(tb).Full() != got.Tables[i].Full() {
			t.Failf("NewTableFromFileByTableName(%q): %v", m.Name, err)
			return
		}
	}
	for _, n := range []string{"Missing", "", "a"} {
		if _, err := g.NewTableFromFileByTableName(path, n); err == nil {
			t.Failf("NewTableFromFileByTableName(%q) finds something", n)
			return
		}
	}
}

// writeTo writes a set, or a single table by its own method, and gives the text it should have written.
func writeTo(s *MSet, path string, mode os.FileMode, asTable bool) (text string, err error) {
	ts := buildSet(s)
	if asTable {
		tb, err := ts.GetTableByTableIndex(0)
		must(err)
		return tb.String(), tb.WriteFile(path, mode)
	}
	return ts.String(), ts.WriteFile(path, mode)
}

func runG20(c *Ctx) {
	histories(c, c.pick(1, 2), roNamed("WriteFile", "set.WriteFile"))
	dir, done := c.Scratch()
	defer done()
	signal.Ignore(syscall.SIGXFSZ)
	sets := fileSets()
	modes := []os.FileMode{0, 0600, 0644, 0666}
	path := filepath.Join(dir, "f.got")
	asTable := func(s *MSet) int {
		if len(s.Tables) == 1 && s.Name == "" {
			return 2
		}
		return 1
	}

	// A. Every content written over every content (thorough: every sequence of three), by either method, with every mode.
	n := len(sets)
	third := 1
	if c.Thorough {
		third = n
	}
	for i := -1; i < n; i++ {
		for j := 0; j < n; j++ {
			for k := 0; k < third; k++ {
				for w := 0; w < asTable(sets[j]); w++ {
					mode := modes[(i+j+k+1)%len(modes)]
					i, j, k, w := i, j, k, w
					c.Do(func() string {
						return fmt.Sprintf("contents %d, %d written in turn (%d), mode %o, method %d: %s", i, j, k, mode, w, clip(sets[j].Full(), 300))
					}, func(t *T) {
						os.Remove(path)
						for step, x := range []int{i, j, k} {
							if x < 0 || step == 2 && third == 1 {
								continue
							}
							s := sets[x]
							text, err := writeTo(s, path, mode, step == 1 && w == 1)
							t.Step(1)
							if err != nil {
								t.Failf("WriteFile: %v", err)
								return
							}
							b, err := os.ReadFile(path)
							if err != nil {
								t.Failf("the file is not there: %v", err)
								return
							}
							if string(b) != text {
								t.Failf("the file holds %q, the printed text is %q", clip(string(b), 300), clip(text, 300))
								return
							}
							t.State(text)
							if readBack(t, path, b, s); t.Failed() {
								return
							}
						}
					})
					if c.Stopped() {
						return
					}
				}
			}
		}
	}

	// A1. The permissions asked for: every mode for a file that is not there yet.
	for mode := 0; mode < 0o1000; mode++ {
		for w := 0; w < 2; w++ {
			mode, w := os.FileMode(mode), w
			c.Do(func() string { return fmt.Sprintf("a new file with mode %o, method %d", mode, w) }, func(t *T) {
				want := mode
				if want == 0 {
					want = 0o666
				}
				var got [2]os.FileMode
				for i, f := range []func() error{
					func() error { return os.WriteFile(path, nil, want) },
					func() error { _, err := writeTo(sets[2], path, mode, w == 1); return err },
				} {
					os.Remove(path)
					if err := f(); err != nil {
						t.Failf("WriteFile: %v", err)
						return
					}
					fi, err := os.Stat(path)
					must(err)
					got[i] = fi.Mode()
				}
				os.Remove(path)
				t.Step(1)
				if got[0] != got[1] {
					t.Failf("the file has mode %o, want %o", got[1], got[0])
				}
			})
		}
	}

	// A2. Sizes: a file of every size of the ladder is written, then over it a small one, then again the large one; and cut near the buffer sizes.
	for _, l := range sizeLadder(c.pick(40, 300), c.pick(140000, 1<<20)) {
		l := l
		big := &MSet{Tables: []*MTable{{Name: "Big", Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, strings.Repeat("s", l)}, {2, "end"}}}}}
		many := &MSet{Name: "Many", Tables: []*MTable{sizedTable(l/20, "int", "string")}}
		for k, s := range []*MSet{big, many} {
			k, s := k, s
			c.Do(func() string { return fmt.Sprintf("a file of size %d, kind %d", l, k) }, func(t *T) {
				os.Remove(path)
				for step, x := range []*MSet{s, sets[2], s} {
					text, err := writeTo(x, path, modes[(l+step)%len(modes)], step == 2 && k == 0)
					t.Step(1)
					if err != nil {
						t.Failf("WriteFile: %v", err)
						return
					}
					b, err := os.ReadFile(path)
					if err != nil || string(b) != text {
						t.Failf("the file holds %d bytes, the printed text has %d; %v", len(b), len(text), err)
						return
					}
					t.State(fmt.Sprint(step, len(text)))
					if readBack(t, path, b, x); t.Failed() {
						return
					}
				}
				text := buildSet(s).String()
				for _, cut := range []int{4095, 4096, 4097, 32768, 65535, 65536, 65537, len(text) - 5} {
					if cut > 0 && cut < len(text) {
						must(os.WriteFile(path, []byte(text[:cut]), 0600))
						if readBack(t, path, []byte(text[:cut]), nil); t.Failed() {
							return
						}
					}
				}
			})
			if c.Stopped() {
				return
			}
		}
	}

	// B. Every truncation of every file; and every byte of it replaced.
	for i, s := range sets {
		s, i := s, i
		text := buildSet(s).String()
		step := 1
		if len(text) > 2000 && !c.Thorough {
			step = 7
		}
		for k := 0; k < len(text); k += step {
			k := k
			c.Do(func() string { return fmt.Sprintf("contents %d truncated to %d bytes: %q", i, k, clip(text[:k], 300)) }, func(t *T) {
				must(os.WriteFile(path, []byte(text[:k]), 0600))
				t.State(text[:k])
				readBack(t, path, []byte(text[:k]), nil)
			})
			if c.Stopped() {
				return
			}
		}
		if len(text) > 2000 {
			continue
		}
		for k := 0; k < len(text); k++ {
			for _, r := range []byte{0, '\n', '"', '[', ']', ' ', '0', 0xff, '#', '='} {
				if text[k] == r {
					continue
				}
				b := []byte(text)
				b[k] = r
				c.Do(func() string {
					return fmt.Sprintf("contents %d with byte %d replaced by %q: %q", i, k, r, clip(string(b), 300))
				}, func(t *T) {
					must(os.WriteFile(path, b, 0600))
					t.State(string(b))
					readBack(t, path, b, nil)
				})
				if c.Stopped() {
					return
				}
			}
		}
	}

	// C. The disk fills up at every byte of every write, over every kind of previous contents.
	for i, s := range sets {
		for w := 0; w < asTable(s); w++ {
			text := buildSet(s).String()
			if w == 1 {
				tb, _ := buildSet(s).GetTableByTableIndex(0)
				text = tb.String()
			}
			for _, old := range []int{-1, 2, len(sets) - 1} {
				step := 1
				if len(text) > 2000 && !c.Thorough {
					step = 13
				}
				for k := 0; k <= len(text)+1; k += step {
					i, s, w, old, k := i, s, w, old, k
					c.Do(func() string {
						return fmt.Sprintf("contents %d (method %d) written over %d with room for %d of %d bytes", i, w, old, k, len(text))
					}, func(t *T) {
						os.Remove(path)
						oldText := ""
						if old >= 0 {
							var err error
							oldText, err = writeTo(sets[old], path, 0, false)
							must(err)
						}
						ts := buildSet(s)
						var tb *g.Table
						if w == 1 {
							var err error
							tb, err = ts.GetTableByTableIndex(0)
							must(err)
						}
						var rl, lim syscall.Rlimit
						must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &rl))
						lim = rl
						lim.Cur = uint64(k)
						must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim))
						var err error
						if w == 1 {
							err = tb.WriteFile(path, 0)
						} else {
							err = ts.WriteFile(path, 0)
						}
						must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &rl))
						t.Step(1)
						b, rerr := os.ReadFile(path)
						if rerr != nil && !os.IsNotExist(rerr) {
							t.Failf("%v", rerr)
							return
						}
						if k >= len(text) {
							if err != nil || string(b) != text {
								t.Failf("with room for all of it: %v, the file holds %q", err, clip(string(b), 300))
								return
							}
							t.Outcome("written whole")
							readBack(t, path, b, s)
							return
						}
						if err == nil {
							t.Failf("no error though only %d of %d bytes fit; the file holds %q", k, len(text), clip(string(b), 300))
							return
						}
						t.Outcome("reported full")
						if string(b) != oldText && !bytes.HasPrefix([]byte(text), b) {
							t.Failf("after a failed write the file holds neither the old contents nor a part of the new: %q", clip(string(b), 300))
							return
						}
						if string(b) != oldText || rerr != nil {
							if rerr == nil {
								readBack(t, path, b, nil)
							}
						}
					})
					if c.Stopped() {
						return
					}
				}
			}
		}
	}

	// D. Paths that cannot be written or read.
	bad := []string{"", filepath.Join(dir, "no", "such", "dir"), dir, dir + "/", path + "/x", filepath.Join(dir, "nul\x00byte"), filepath.Join(dir, strings.Repeat("n", 300)), filepath.Join(dir, "loop"), "/dev/full/x"}
	must(os.Symlink("loop", filepath.Join(dir, "loop")))
	for _, p := range bad {
		p := p
		c.Do(func() string { return fmt.Sprintf("path %q", strings.Replace(p, dir, "DIR", 1)) }, func(t *T) {
			os.Remove(path)
			must(os.WriteFile(path, []byte("[A]\n"), 0600))
			for _, s := range sets {
				for w := 0; w < asTable(s); w++ {
					t.Step(1)
					if _, err := writeTo(s, p, 0600, w == 1); err == nil {
						t.Failf("writing to it succeeds")
						return
					}
				}
			}
			if _, err := g.NewTableSetFromFile(p); err == nil {
				t.Failf("NewTableSetFromFile accepts it")
			}
			if _, err := g.NewTableFromFile(p); err == nil {
				t.Failf("NewTableFromFile accepts it")
			}
			if _, err := g.NewTableFromFileByTableName(p, "A"); err == nil {
				t.Failf("NewTableFromFileByTableName accepts it")
			}
			t.Outcome("bad path")
		})
	}
	for _, p := range []string{"/dev/full"} { // every write fails
		p := p
		for i, s := range sets {
			i, s := i, s
			c.Do(func() string { return fmt.Sprintf("contents %d written to %s", i, p) }, func(t *T) {
				ts := buildSet(s)
				err := ts.WriteFile(p, 0600)
				if err == nil && ts.String() != "" {
					t.Failf("no error")
				}
				t.Outcome("full device")
			})
		}
	}
	for _, p := range []string{"/proc/self/mem", filepath.Join(dir, "missing")} { // cannot be read
		p := p
		c.Do(func() string { return fmt.Sprintf("reading %s", filepath.Base(p)) }, func(t *T) {
			if ts, err := g.NewTableSetFromFile(p); err == nil {
				t.Failf("no error, %d tables", ts.TableCount())
			}
			if _, err := g.NewTableFromFile(p); err == nil {
				t.Failf("NewTableFromFile: no error")
			}
			t.Outcome("unreadable")
		})
	}
	c.Do(func() string { return "no file can be opened" }, func(t *T) {
		must(os.WriteFile(path, []byte("[A]\ni\nint\n1\n"), 0600))
		var rl, lim syscall.Rlimit
		must(syscall.Getrlimit(syscall.RLIMIT_NOFILE, &rl))
		lim = rl
		lim.Cur = 0
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim))
		_, e1 := g.NewTableSetFromFile(path)
		_, e2 := writeTo(sets[2], path, 0600, false)
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &rl))
		b, err := os.ReadFile(path)
		if e1 == nil || e2 == nil || err != nil || string(b) != "[A]\ni\nint\n1\n" {
			t.Failf("reading: %v, writing: %v, file now %q", e1, e2, b)
		}
		t.Outcome("no descriptors")
	})

	// E. File names.
	must(os.Mkdir(filepath.Join(dir, "d"), 0700))
	names := []string{"plain", "with space", " lead", "trail ", "a.b.c", "\u754c", "%d", "-dash", "~", "#x", "[T]", "back\\slash", "q\"q", "new\nline", "d/../f2", "./f3", "d//f4", "\x80", "*", "d/sub", "[[S]]", "a:b"}
	for _, n := range names {
		for rel := 0; rel < 2; rel++ {
			n, rel := n, rel
			c.Do(func() string { return fmt.Sprintf("file name %q, relative %d", n, rel) }, func(t *T) {
				p := dir + "/" + n
				if rel == 1 {
					cwd, err := os.Getwd()
					must(err)
					must(os.Chdir(dir))
					defer os.Chdir(cwd)
					p = n
				}
				for _, x := range []int{2, 5, 8} {
					text, err := writeTo(sets[x], p, 0600, false)
					if err != nil {
						t.Failf("WriteFile: %v", err)
						return
					}
					b, err := os.ReadFile(p)
					if err != nil || string(b) != text {
						t.Failf("the file holds %q, %v", clip(string(b), 300), err)
						return
					}
					if readBack(t, p, b, sets[x]); t.Failed() {
						return
					}
				}
				os.Remove(p)
			})
		}
	}

	// F. Histories over two files: every sequence of writes, edits and reads.
	type op struct {
		desc string
		do   func(h *fileHist)
	}
	var ops []op
	for f := 0; f < 2; f++ {
		f := f
		for _, x := range []int{2, 7, 9} {
			x := x
			ops = append(ops, op{fmt.Sprintf("write %d to file %d", x, f), func(h *fileHist) {
				must(buildSet(sets[x]).WriteFile(h.path[f], 0600))
				h.content[f] = sets[x].Clone()
			}})
		}
		ops = append(ops, op{fmt.Sprintf("read file %d and edit what was read", f), func(h *fileHist) {
			if h.content[f] == nil {
				return
			}
			ts, err := g.NewTableSetFromFile(h.path[f])
			must(err)
			h.held = append(h.held, ts)
			tb, err := ts.GetTableByTableIndex(0)
			must(err)
			must(tb.SetIntByColIndex(0, 0, 99))
			must(tb.AppendRow())
			h.heldM = append(h.heldM, observeSet(ts))
			want := h.content[f].Clone()
			want.Tables[0].Rows[0][0] = 99
			want.Tables[0].Rows = append(want.Tables[0].Rows, want.Tables[0].zeroRow())
			if got := observeSet(ts); got.Loose() != want.Loose() && h.bad == "" {
				h.bad = fmt.Sprintf("read and edited: %s, want %s", got.Loose(), want.Loose())
			}
		}})
	}
	ops = append(ops, op{"write the last edited set to file 1", func(h *fileHist) {
		if len(h.held) == 0 {
			return
		}
		must(h.held[len(h.held)-1].WriteFile(h.path[1], 0600))
		h.content[1] = h.heldM[len(h.held)-1].Clone()
	}})
	depth := c.pick(4, 5)
	for _, seq := range eqSeqs(len(ops), depth) {
		seq := seq
		c.Do(func() string {
			s := "history:"
			for _, o := range seq {
				s += " " + ops[o].desc + ";"
			}
			return s
		}, func(t *T) {
			h := &fileHist{path: [2]string{filepath.Join(dir, "h0"), filepath.Join(dir, "h1")}}
			for _, p := range h.path {
				os.Remove(p)
			}
			for _, o := range seq {
				ops[o].do(h)
				t.Step(1)
			}
			if h.bad != "" {
				t.Failf("%s", h.bad)
				return
			}
			for f, p := range h.path {
				ts, err := g.NewTableSetFromFile(p)
				if h.content[f] == nil {
					if err == nil {
						t.Failf("file %d was never written but reads", f)
					}
					continue
				}
				if err != nil || observeSet(ts).Loose() != h.content[f].Loose() {
					t.Failf("file %d reads wrong: %v", f, err)
					return
				}
			}
			for i, ts := range h.held {
				if got := observeSet(ts); got.Full() != h.heldM[i].Full() {
					t.Failf("a set read earlier changed: %s, was %s", got.Full(), h.heldM[i].Full())
				}
			}
		})
		if c.Stopped() {
			return
		}
	}
}

type fileHist struct {
	path    [2]string
	content [2]*MSet
	held    []*g.TableSet
	heldM   []*MSet
	bad     string
}

func init() {
	register(&Checker{
		ID: "G20",
		Rule: "real files in a scratch directory: every content of 12 written over every other (thorough: every sequence of three) by TableSet and Table methods; every truncation and ten replacements of every byte of every file; a file system that fills up at every single byte of every write (RLIMIT_FSIZE), over three kinds of previous contents; unwritable, unreadable, odd and relative paths; no file descriptors; every mode 0..0777 for a new file; every history of up to 4 (thorough: 5) writes, reads and edits over two files. " +
			"The bytes are compared with the printed text and the tables with an independent reading of the bytes; files of every size on a ladder up to 140000 bytes (1 MB), over each other and cut at buffer boundaries",
		Assumptions: []string{
			"the operating system keeps what was written; a crash of the machine leaves a prefix of the new contents (the file is truncated on opening and written once)",
			"*Table columns are left out: the text form holds only the names of nested tables",
		},
		Run: runG20,
	})
}
