package main

// G26: the commands gotsyntax and gotecho, built from the working tree and run on files.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G26",
		Rule: "The two commands are built from the working tree and run. gotsyntax: every sequence of up to 2 (thorough 3) files from 22 contents (valid of every shape, empty, comments only, faulty, missing, a directory): exit status 0 exactly if all are valid and have tables, each valid file reported on standard output with its numbers of tables and rows, each invalid one on standard error with file and line; also 1 to 300 (thorough 1100) bad files of each of 2 (3) kinds, with and without a good one after them. " +
			"gotecho: every content x every -t (none, each table, a missing one) x every -r (same) x -u or not x every order of the flags x file argument or standard input: standard output must read (by the reference reader) as exactly the tables asked for, in the shape asked for, and be the library's own padded or unpadded text; every truncation of a document at a line; refusals print no tables and exit with an error.",
		Assumptions: []string{"the module cache holds the one dependency of the commands; a command that waits 3 s for standard input in vain on a loaded machine is run again"},
		Run:         runG26,
	})
}

type cmdOut struct {
	out, err string
	code     int
}

func runCmd(dir, prog string, stdin *string, args ...string) (o cmdOut) {
	for try := 0; try < 20; try++ {
		cmd := exec.Command(filepath.Join(dir, prog), args...)
		cmd.Dir = dir
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		if stdin != nil {
			cmd.Stdin = strings.NewReader(*stdin) // a pipe
		}
		must(cmd.Start())
		kill := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
		cmd.Wait()
		kill.Stop()
		o = cmdOut{so.String(), se.String(), cmd.ProcessState.ExitCode()}
		if stdin == nil || o.code == 0 || !strings.Contains(o.err, "did not read any piped input") {
			break
		}
	}
	return
}

type cmdFile struct {
	name, text string
	ref        refResult
	missing    bool
}

func runG26(c *Ctx) {
	dir, done := c.Scratch()
	defer done()
	var berr string
	for _, p := range []string{"gotsyntax", "gotecho"} {
		cmd := exec.Command("go", "build", "-o", filepath.Join(dir, p), "github.com/urban-wombat/gotables/cmd/"+p)
		cmd.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "mc")
		b, err := cmd.CombinedOutput()
		if err != nil {
			berr += p + ": " + string(b)
		}
	}
	c.Do(func() string { return "the commands compile" }, func(t *T) {
		if berr != "" {
			t.Failf("%s", berr)
		}
	})
	if berr != "" {
		return
	}
	texts := []string{"", "# only\n  # comments\n\n", "[[OnlyASet]]\n", "[E]\n", "[E]\n\n[[Late]]\n", "[A]\ni s\nint string\n1 \"x\"\n2 \"y z\"\n", "[A]\ni s\nint string\n1 \"x\"\n", "[A]\ni s\nint string\n",
		"[P]\ni int = 1\ns string = \"a = b\"\n", "[P]\ni int\ns string\n",
		"[A]\ni\nint\n1\n", "[[Set]]\n\n[A]\ni f\nint float64\n1 2.5\n20 NaN\n\n[P]\ni int = 7\nb []byte = [1 2 255]\n\n[Z]\n\n[Q]\nr\nrune\n'\\''\n",
		"# c\n[A]\ni\nint\n# c\nx\n", "[A]\ni i\nint int\n", "[A]\ni s\n", "[A\n", "[A]\ni\nint\n1\n\n[A]\n", "[A]\ni\nint\n300\n\n\n[B]\nb byte = 300\n", "[P]\ni int = 1\ns string\n", "[A]\ns\nstring\n\"\xff\x00\u754c\\n\\\"\"\n"}
	for _, s := range fileSets()[9:11] {
		texts = append(texts, buildSet(s).String())
	}
	var files []cmdFile
	for i, x := range texts {
		f := cmdFile{name: fmt.Sprintf("f%d.got", i), text: x, ref: refParse(x)}
		must(os.WriteFile(filepath.Join(dir, f.name), []byte(x), 0600))
		files = append(files, f)
	}
	must(os.Mkdir(filepath.Join(dir, "adir"), 0700))
	files = append(files, cmdFile{name: "missing.got", missing: true}, cmdFile{name: "adir", missing: true})

	// gotsyntax
	syntax := func(fs []cmdFile) {
		var names []string
		for _, f := range fs {
			names = append(names, f.name)
		}
		c.Do(func() string {
			s := "gotsyntax"
			for _, f := range fs {
				s += fmt.Sprintf(" %s=%q", f.name, clip(f.text, 200))
			}
			return s
		}, func(t *T) {
			o := runCmd(dir, "gotsyntax", nil, names...)
			t.Step(1)
			good := len(fs) > 0
			outs := strings.Split(strings.TrimRight(o.out, "\n"), "\n")
			for _, f := range fs {
				okFile := f.ref.OK && !f.missing
				good = good && okFile && len(f.ref.Set.Tables) > 0
				var line string
				for _, l := range outs {
					if strings.Contains(l, f.name) {
						line = l
					}
				}
				if okFile != (line != "") {
					t.Failf("%s: valid is %v, standard output says %q, standard error %q", f.name, okFile, o.out, o.err)
					return
				}
				if okFile {
					nums := " " + strings.Join(strings.FieldsFunc(strings.Replace(line, f.name, "", 1), func(r rune) bool { return r < '0' || r > '9' }), " ") + " "
					want := " " + strconv.Itoa(len(f.ref.Set.Tables)) + " "
					if len(f.ref.Set.Tables) == 1 {
						want += strconv.Itoa(len(f.ref.Set.Tables[0].Rows)) + " "
					}
					if !strings.HasPrefix(nums, want) {
						t.Failf("%s: reported as %q; the file has%stables(, rows)", f.name, line, want)
						return
					}
				}
				if !okFile || len(f.ref.Set.Tables) == 0 {
					if !strings.Contains(o.err, f.name) {
						t.Failf("%s is not mentioned on standard error: %q", f.name, o.err)
						return
					}
				}
				if !okFile && !f.missing {
					for _, l := range strings.Split(o.err, "\n") {
						if strings.Contains(l, f.name+":") {
							lineAgrees(t, f.text, f.name, fmt.Errorf("%s", l))
						}
					}
					if t.Failed() {
						return
					}
				}
			}
			t.State(fmt.Sprint(names))
			t.Outcome(fmt.Sprintf("gotsyntax exits with %d", o.code))
			if good != (o.code == 0) {
				t.Failf("exit status %d though all files are valid and have tables is %v; output %q, error %q", o.code, good, o.out, o.err)
			}
		})
	}
	syntax(nil)
	for _, a := range files {
		syntax([]cmdFile{a})
		for _, b := range files {
			if b.name == a.name {
				continue
			}
			syntax([]cmdFile{a, b})
			for _, d := range files {
				if c.Thorough && d.name != a.name && d.name != b.name {
					syntax([]cmdFile{a, b, d})
				}
				if c.Stopped() {
					return
				}
			}
		}
	}

	// gotsyntax with very many files: exit statuses wrap at 256.
	for _, f := range files {
		if f.name != "f0.got" && f.name != "f13.got" && !(c.Thorough && f.name == "missing.got") {
			continue
		}
		for n := 1; n <= c.pick(300, 1100); n++ {
			for _, tail := range []string{"", "f6.got"} {
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, f.name)
				}
				if tail != "" {
					names = append(names, tail)
				}
				c.Do(func() string { return fmt.Sprintf("gotsyntax with %d times %s=%q then %q", n, f.name, f.text, tail) }, func(t *T) {
					o := runCmd(dir, "gotsyntax", nil, names...)
					t.Step(1)
					t.State(fmt.Sprint(n, f.name, tail))
					t.Outcome(fmt.Sprintf("gotsyntax exits with %d", o.code))
					if o.code == 0 {
						t.Failf("exit status 0")
					}
					if got := strings.Count(o.err, f.name); got < n {
						t.Failf("%d of %d bad files are reported", got, n)
					}
					if tail != "" && strings.Count(o.out, tail) != 1 {
						t.Failf("the good file is not reported: %q", clip(o.out, 300))
					}
				})
				if c.Stopped() {
					return
				}
			}
		}
	}

	// gotecho
	echo := func(f cmdFile, stdin bool, tname, rname string, u bool, args []string) {
		var in *string
		if stdin {
			in = &f.text
		} else {
			args = append(args[:len(args):len(args)], f.name)
		}
		c.Do(func() string {
			return fmt.Sprintf("gotecho %q (standard input %v) of %q", args, stdin, clip(f.text, 300))
		}, func(t *T) {
			o := runCmd(dir, "gotecho", in, args...)
			t.Step(1)
			t.State(fmt.Sprint(f.text, tname, rname, u))
			has := func(n string) bool { return n == "" || f.ref.Set.idx(n) >= 0 }
			if f.missing || !f.ref.OK || len(f.ref.Set.Tables) == 0 || !has(tname) || !has(rname) && (tname == "" || tname == rname) {
				if o.code == 0 || o.code > 127 || o.code < 0 || strings.TrimSpace(o.err) == "" || strings.TrimSpace(o.out) != "" {
					t.Failf("should be refused: exit status %d, output %q, error %q", o.code, clip(o.out, 300), clip(o.err, 300))
				}
				t.Outcome(fmt.Sprintf("gotecho exits with %d", o.code))
				return
			}
			if !has(rname) { // about a table that is not printed anyway
				if o.code != 0 {
					t.Outcome("refused or ignored")
					return
				}
			}
			if o.code != 0 {
				t.Failf("exit status %d, error %q", o.code, clip(o.err, 300))
				return
			}
			t.Outcome("echoed")
			ts, err := g.NewTableSetFromString(f.text)
			must(err)
			want := &MSet{Name: f.ref.Set.Name}
			warn := false
			for _, m := range f.ref.Set.Tables {
				x := *m
				tb, err := ts.GetTable(m.Name)
				must(err)
				if m.Name == rname {
					if len(x.Rows) <= 1 {
						x.Struct = !x.Struct
						must(tb.SetStructShape(x.Struct))
					} else {
						warn = true
					}
				}
				want.Tables = append(want.Tables, &x)
			}
			text := ts.String()
			if u {
				text = ts.StringUnpadded()
			}
			if tname != "" {
				want = &MSet{Tables: []*MTable{want.Tables[want.idx(tname)]}}
				tb, err := ts.GetTable(tname)
				must(err)
				text = tb.String()
				if u {
					text = tb.StringUnpadded()
				}
			}
			got := refParse(o.out)
			if !got.OK {
				t.Failf("prints what cannot be read: %q", clip(o.out, 500))
				return
			}
			for _, m := range want.Tables {
				if len(m.Cols) == 0 || len(m.Rows) > 1 {
					m.Struct = false // nothing shows the shape
				}
			}
			if got.Set.Full() != want.Full() {
				t.Failf("prints %s, want %s; error %q", clip(got.Set.Full(), 400), clip(want.Full(), 400), o.err)
				return
			}
			if strings.TrimRight(o.out, "\n") != strings.TrimRight(text, "\n") {
				t.Failf("prints %q, the library's text is %q", clip(o.out, 400), clip(text, 400))
				return
			}
			if warn && strings.TrimSpace(o.err) == "" {
				t.Failf("-r %s of a table with several rows is ignored without a word", rname)
			}
		})
	}
	perms := func(groups [][]string, f func([]string)) {
		var rec func(rest [][]string, args []string)
		rec = func(rest [][]string, args []string) {
			if len(rest) == 0 {
				f(append([]string{}, args...))
				return
			}
			for i := range rest {
				r := append(append([][]string{}, rest[:i]...), rest[i+1:]...)
				rec(r, append(args[:len(args):len(args)], rest[i]...))
			}
		}
		rec(groups, nil)
	}
	// documents cut at each line, and with each line removed
	all := append([]cmdFile{}, files...)
	for _, k := range []int{11, len(texts) - 2} {
		ls := strings.SplitAfter(texts[k], "\n")
		for i := 1; i < len(ls); i++ {
			for j, x := range []string{strings.Join(ls[:i], ""), strings.Join(ls[:i-1], "") + strings.Join(ls[i:], "")} {
				f := cmdFile{name: fmt.Sprintf("cut%d-%d-%d.got", k, i, j), text: x, ref: refParse(x)}
				must(os.WriteFile(filepath.Join(dir, f.name), []byte(x), 0600))
				all = append(all, f)
				syntax([]cmdFile{f})
			}
		}
	}
	for fi, f := range all {
		names := []string{"", "Missing"}
		if f.ref.OK {
			for _, m := range f.ref.Set.Tables {
				names = append(names, m.Name)
			}
		} else {
			names = append(names, "A")
		}
		for _, stdin := range []bool{false, true} {
			if stdin && f.missing {
				continue
			}
			for _, tn := range names {
				for _, rn := range names {
					if fi >= len(files) && !c.Thorough && tn != rn && tn != "" && rn != "" {
						continue
					}
					for _, u := range []bool{false, true} {
						var gs [][]string
						if tn != "" {
							gs = append(gs, []string{"-t", tn})
						}
						if rn != "" {
							gs = append(gs, []string{"-r", rn})
						}
						if u {
							gs = append(gs, []string{"-u"})
						}
						perms(gs, func(args []string) { echo(f, stdin, tn, rn, u, args) })
						if c.Stopped() {
							return
						}
					}
				}
			}
		}
	}
	// misuse
	for _, args := range [][]string{{"f5.got", "-u"}, {"f5.got", "-t", "A"}, {"f5.got", "f6.got"}, {"-x", "f5.got"}, {"-h"}, {"-t", "A", "-r", "A", "-u", "f5.got", "f6.got", "f7.got"}} {
		c.Do(func() string { return fmt.Sprintf("gotecho %q", args) }, func(t *T) {
			o := runCmd(dir, "gotecho", nil, args...)
			t.Step(1)
			if o.code == 0 || strings.TrimSpace(o.out) != "" || strings.TrimSpace(o.err) == "" {
				t.Failf("should be refused: exit status %d, output %q, error %q", o.code, clip(o.out, 300), clip(o.err, 300))
			}
		})
	}
}
