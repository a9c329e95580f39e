package main

// G31: the utility functions round to nearest, return piped input as it is, and judge flags and paths alike.

import (
	"fmt"
	"go/scanner"
	"go/token"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G31",
		Rule: "UtilRound: every multiple of 1/1000 from -25 to 25 (thorough 1/1000 up to 300) with -2..4 places, every extreme float with -330..308 places, against exact rational arithmetic. UtilGulpFromPipe and UtilGulpFromPipeWithTimeout: every string of up to 3 (thorough 4) of 12 awkward bytes, sizes around the buffer sizes, written to a real pipe in every division into two writes, and inputs that cannot be read; a silent pipe; UtilIsCommandInstalled on every search path of up to 3 of 5 kinds of directory; " +
			"every order of a timed-out and later calls. UtilStringFlag: every sequence of up to 3 settings; UtilCheckStringFlag: every name, argument and requirement. UtilFilepathAbs: every path of up to 4 (5) of 8 components. UtilFormatSource: every sequence of up to 4 (5) of 16 pieces of Go. UtilFuncName, UtilFuncCaller and the like: every chain of up to 4 (5) calls through 12 kinds of function (plain, not inlined, generic, methods of values, pointers, generics and interfaces, literals), also deferred and in goroutines.",
		Assumptions: []string{"rounding may be off by the spacing of floats near the result", "either way is right at a tie"},
		Run:         runG31,
	})
}

// roundOK checks UtilRound exactly.
func roundOK(t *T, v float64, places int) {
	t.Step(1)
	r := g.UtilRound(v, places)
	if v != v || math.IsInf(v, 0) {
		if !(r == v || v != v && r != r) {
			t.Failf("UtilRound(%v, %d) = %v", v, places, r)
		}
		return
	}
	if r != r || math.IsInf(r, 0) {
		t.Failf("UtilRound(%v, %d) = %v", v, places, r)
		return
	}
	unit := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(max(places, -places))), nil))
	if places > 0 {
		unit.Inv(unit)
	}
	half := new(big.Rat).Mul(unit, big.NewRat(1, 2))
	ulp := math.Max(math.Nextafter(math.Abs(v), math.Inf(1))-math.Abs(v), 0)
	if math.Abs(v) == math.MaxFloat64 {
		ulp = math.Abs(v) - math.Nextafter(math.Abs(v), 0)
	}
	ulps := big.NewRat(4, 1)
	if max(places, -places) > 22 { // the power of ten is not exact
		ulps = big.NewRat(16, 1)
	}
	eps := new(big.Rat).Mul(new(big.Rat).SetFloat64(ulp), ulps)
	// distance from the value
	d := new(big.Rat).Sub(new(big.Rat).SetFloat64(r), new(big.Rat).SetFloat64(v))
	d.Abs(d)
	if d.Cmp(new(big.Rat).Add(new(big.Rat).Add(half, eps), new(big.Rat).Mul(half, big.NewRat(1, 1<<40)))) > 0 {
		t.Failf("UtilRound(%v, %d) = %v, which is more than half a unit away", v, places, r)
		return
	}
	if r == v && new(big.Rat).Add(new(big.Rat).SetFloat64(math.Abs(v)), half).Cmp(new(big.Rat).SetFloat64(math.MaxFloat64)) > 0 {
		return // the nearest may be beyond the numbers
	}
	// distance of the result from a multiple of the unit
	q := new(big.Rat).Quo(new(big.Rat).SetFloat64(r), unit)
	n := new(big.Int).Quo(new(big.Int).Add(new(big.Int).Mul(q.Num(), big.NewInt(2)), q.Denom()), new(big.Int).Mul(q.Denom(), big.NewInt(2)))
	best := new(big.Rat)
	for k := int64(-1); k <= 1; k++ {
		m := new(big.Rat).Mul(new(big.Rat).SetInt(new(big.Int).Add(n, big.NewInt(k))), unit)
		m.Sub(m, new(big.Rat).SetFloat64(r))
		m.Abs(m)
		if k == -1 || m.Cmp(best) < 0 {
			best = m
		}
	}
	rulp := math.Nextafter(math.Abs(r), math.Inf(1)) - math.Abs(r)
	if math.IsInf(rulp, 0) {
		rulp = math.Abs(r) - math.Nextafter(math.Abs(r), 0)
	}
	if best.Cmp(new(big.Rat).Add(new(big.Rat).Mul(new(big.Rat).SetFloat64(rulp), ulps), eps)) > 0 {
		t.Failf("UtilRound(%v, %d) = %v, which has more places", v, places, r)
	}
}

// withStdin runs f with os.Stdin replaced.
func withStdin(in *os.File, f func()) {
	old := os.Stdin
	os.Stdin = in
	defer func() { os.Stdin = old }()
	f()
}

func gulp(t *T, parts []string, timeout bool) {
	r, w, err := os.Pipe()
	must(err)
	done := make(chan bool)
	go func() {
		for _, p := range parts {
			w.WriteString(p)
		}
		w.Close()
		close(done)
	}()
	defer func() { r.Close(); <-done }()
	want := strings.Join(parts, "")
	withStdin(r, func() {
		var got string
		if timeout {
			got, err = g.UtilGulpFromPipeWithTimeout(time.Minute)
		} else {
			got, err = g.UtilGulpFromPipe()
		}
		t.Step(1)
		if err != nil || got != want {
			t.Failf("gulped %q, %v; piped %q", clip(got, 300), err, clip(want, 300))
		}
	})
}

func goTokens(src string) (s string, ok bool) {
	ok = true
	depth := 0
	var sc scanner.Scanner
	fs := token.NewFileSet()
	sc.Init(fs.AddFile("", -1, len(src)), []byte(src), func(token.Position, string) { ok = false }, scanner.ScanComments)
	for {
		_, k, lit := sc.Scan()
		if k == token.EOF {
			return
		}
		if k == token.SEMICOLON {
			continue // formatting may turn these into line ends
		}
		if k == token.LBRACE {
			depth++
		} else if k == token.RBRACE {
			if depth--; depth < 0 {
				ok = false // go/format takes "} func f() {" for statements of a function
			}
		}
		s += k.String() + " " + strings.TrimSpace(lit) + "\n"
	}
}

func runG31(c *Ctx) {
	runNames(c)
	// rounding
	for i := -c.pick(25000, 300000); i <= c.pick(25000, 300000) && !c.Stopped(); i += 100 {
		i := i
		c.Do(func() string { return fmt.Sprintf("UtilRound of %d/1000 and the next 99", i) }, func(t *T) {
			for k := i; k < i+100; k++ {
				for p := -2; p <= 4; p++ {
					t.State(fmt.Sprint(k, p))
					if roundOK(t, float64(k)/1000, p); t.Failed() {
						return
					}
				}
			}
		})
	}
	fs := extremes("float64")
	for _, x := range sweep("float64", c.Thorough, true) {
		fs = append(fs, x...)
	}
	for _, f := range fs {
		f := f.(float64)
		c.Do(func() string { return fmt.Sprintf("UtilRound of %v", f) }, func(t *T) {
			for p := -330; p <= 308; p++ { // no float has more than 308 places to a power of ten
				if !c.Thorough && p%15 != 0 && (p < -20 || p > 20) {
					continue
				}
				t.State(fmt.Sprint(f, p))
				if roundOK(t, f, p); t.Failed() {
					return
				}
			}
		})
	}
	// piped input
	bytesOf := []string{"\x00", "\x80", "\xff", "\xc3", "\xa9", "\xe7", "\n", "\r", "a", "\xef\xbb\xbf", "\xf0", "\xed\xa0\x80"}
	for l := 0; l <= c.pick(3, 4); l++ {
		seqs(len(bytesOf), l, func(s []int) bool {
			text := ""
			for _, k := range s {
				text += bytesOf[k]
			}
			c.Do(func() string { return fmt.Sprintf("piped %q", text) }, func(t *T) {
				t.State(text)
				for i := 0; i <= len(text); i++ {
					if gulp(t, []string{text[:i], text[i:]}, i%2 == 1); t.Failed() {
						return
					}
				}
			})
			return !c.Stopped()
		})
	}
	for _, n := range []int{511, 512, 513, 4095, 4096, 4097, 8192, 65535, 65536, 65537, 200000} {
		for _, unit := range []string{"x", "\xff", "\u754c", "\xf0\x9f"} {
			text := strings.Repeat(unit, n/len(unit)+1)
			c.Do(func() string { return fmt.Sprintf("piped %d times %q", n/len(unit)+1, unit) }, func(t *T) {
				t.State(fmt.Sprint(n, unit))
				for _, i := range []int{0, 1, n / 2, n - 1, n} {
					gulp(t, []string{text[:i], text[i:]}, false)
					if gulp(t, []string{text[:i], text[i:]}, true); t.Failed() {
						return
					}
				}
			})
		}
	}
	dir, done := c.Scratch()
	defer done()
	for _, kind := range []string{"directory", "closed file", "file open for writing only"} {
		for _, timeout := range []bool{false, true} {
			kind, timeout := kind, timeout
			c.Do(func() string { return fmt.Sprintf("reading a %s, with timeout %v", kind, timeout) }, func(t *T) {
				var f *os.File
				var err error
				if kind == "directory" {
					f, err = os.Open(dir)
				} else {
					f, err = os.OpenFile(filepath.Join(dir, "w"), os.O_CREATE|os.O_WRONLY, 0600)
				}
				must(err)
				defer f.Close()
				if kind == "closed file" {
					f.Close()
				}
				withStdin(f, func() {
					var s string
					if timeout {
						s, err = g.UtilGulpFromPipeWithTimeout(time.Minute)
					} else {
						s, err = g.UtilGulpFromPipe()
					}
					t.Step(1)
					if err == nil {
						t.Failf("returned %q without an error", s)
					}
				})
			})
		}
	}
	// a silent pipe, and what comes after it
	for _, later := range []string{"", "late", "\xff"} {
		for _, before := range []string{"", "early"} {
			for _, d := range []time.Duration{0, time.Microsecond, 3 * time.Millisecond} {
				later, before, d := later, before, d
				c.Do(func() string { return fmt.Sprintf("a pipe with %q, silent for %v, then %q", before, d, later) }, func(t *T) {
					r, w, err := os.Pipe()
					must(err)
					w.WriteString(before)
					withStdin(r, func() {
						n := runtime.NumGoroutine()
						s, err := g.UtilGulpFromPipeWithTimeout(d)
						t.Step(1)
						if err == nil || s != "" {
							t.Failf("timed out with %q and error %v", s, err)
						}
						w.WriteString(later)
						w.Close() // ends the reader, which must not meet the next case's input
						for i := 0; runtime.NumGoroutine() > n && i < 5000; i++ {
							time.Sleep(time.Millisecond)
						}
						if s != "" || err == nil {
							t.Failf("what was returned became %q and error %v", s, err)
						}
					})
					r.Close()
					t.Outcome("timed out")
				})
			}
		}
	}
	// flags
	args := []string{"", "a", "-", "-a", "--", "a-b", " -a", " ", "-1", "\x00", "=", "a b"}
	for l := 0; l <= 3; l++ {
		seqs(len(args), l, func(s []int) bool {
			c.Do(func() string { return fmt.Sprintf("UtilStringFlag set to %v", s) }, func(t *T) {
				var f g.UtilStringFlag
				bad, good, last := false, false, ""
				for _, k := range s {
					last = args[k]
					if err := f.Set(last); err != nil {
						t.Failf("Set(%q): %v", last, err)
						return
					}
					if strings.HasPrefix(last, "-") {
						bad = true
					} else {
						good = true
					}
				}
				t.Step(l)
				t.State(fmt.Sprint(bad, good, last))
				if f.String() != last || f.Exists() != (l > 0) || f.IsSet() != good || (f.Error() != nil) != bad || f.AllOk() != (good && !bad) {
					t.Failf("after %v: value %q exists %v set %v error %v all ok %v", s, f.String(), f.Exists(), f.IsSet(), f.Error(), f.AllOk())
				}
			})
			return !c.Stopped()
		})
	}
	for _, name := range []string{"", "f", "-f", "%d"} {
		for _, arg := range args {
			for _, req := range []bool{g.FlagRequired, g.FlagOptional} {
				name, arg, req := name, arg, req
				c.Do(func() string { return fmt.Sprintf("UtilCheckStringFlag(%q, %q, %v)", name, arg, req) }, func(t *T) {
					exists, err := g.UtilCheckStringFlag(name, arg, req)
					t.Step(1)
					t.State(name + "|" + arg + fmt.Sprint(req))
					ok := arg != "" && arg[0] != '-'
					if exists != ok || (err != nil) != (!ok && (arg != "" || req)) {
						t.Failf("gives %v, %v", exists, err)
					}
					if err != nil && !strings.Contains(err.Error(), name) {
						t.Failf("the error does not name the flag: %v", err)
					}
				})
			}
		}
	}
	// paths
	wd, err := os.Getwd()
	must(err)
	parts := []string{"a", "..", ".", "", "a b", "\u00e9", "...", "cygdrive"}
	for _, root := range []string{"", "/", "/x/"} {
		for l := 0; l <= c.pick(4, 5); l++ {
			seqs(len(parts), l, func(s []int) bool {
				var ps []string
				for _, k := range s {
					ps = append(ps, parts[k])
				}
				path := root + strings.Join(ps, "/")
				if strings.HasPrefix(path, "/cygdrive/") {
					return true // needs cygpath
				}
				c.Do(func() string { return fmt.Sprintf("UtilFilepathAbs(%q)", path) }, func(t *T) {
					t.State(path)
					t.Step(1)
					got, err := g.UtilFilepathAbs(path)
					// by walking the components
					at := []string{}
					if !strings.HasPrefix(path, "/") {
						at = strings.Split(strings.Trim(wd, "/"), "/")
					}
					for _, p := range strings.Split(path, "/") {
						switch p {
						case "", ".":
						case "..":
							if len(at) > 0 {
								at = at[:len(at)-1]
							}
						default:
							at = append(at, p)
						}
					}
					if want := "/" + strings.Join(at, "/"); err != nil || got != want {
						t.Failf("gives %q, %v, want %q", got, err, want)
					}
				})
				return !c.Stopped()
			})
		}
	}
	// formatting
	pieces := []string{"package p", "\n", "  ", "var x = 1", ";", "func f() {", "}", "// c\n", "/* d */", "`a  b`", "\"a  b\"", "if x {", "return", "x  :=  2", "(", "\xff"}
	for l := 0; l <= c.pick(4, 5); l++ {
		seqs(len(pieces), l, func(s []int) bool {
			src := ""
			for _, k := range s {
				src += pieces[k]
			}
			c.Do(func() string { return fmt.Sprintf("UtilFormatSource(%q)", src) }, func(t *T) {
				t.State(src)
				t.Step(1)
				got, err := g.UtilFormatSource(src)
				if err != nil {
					if got != "" {
						t.Failf("error %v and source %q", err, got)
					}
					t.Outcome("refused")
					return
				}
				a, ok1 := goTokens(src)
				b, ok2 := goTokens(got)
				if ok1 && (!ok2 || a != b) {
					t.Failf("gives %q, which is other Go", got)
				}
				t.Outcome("formatted")
			})
			return !c.Stopped()
		})
	}
	// commands: every search path of up to 3 of 5 kinds of directory
	dir, err = os.MkdirTemp("", "mc-path")
	must(err)
	defer os.RemoveAll(dir)
	var dirs []string
	for i, kind := range []string{"empty", "missing", "runs", "reads", "folder"} {
		d := fmt.Sprintf("%s/%d %s", dir, i, kind)
		dirs = append(dirs, d)
		if kind != "missing" {
			must(os.Mkdir(d, 0755))
		}
		switch kind {
		case "runs":
			must(os.WriteFile(d+"/cmd x", []byte("#!/bin/true\n"), 0755))
		case "reads":
			must(os.WriteFile(d+"/cmd x", []byte("#!/bin/true\n"), 0644))
		case "folder":
			must(os.Mkdir(d+"/cmd x", 0755))
		}
	}
	for l := 0; l <= 3; l++ {
		seqs(len(dirs), l, func(s []int) bool {
			var ps []string
			found := false
			for _, k := range s {
				ps = append(ps, dirs[k])
				found = found || k == 2
			}
			path, desc := strings.Join(ps, ":"), fmt.Sprintf("UtilIsCommandInstalled on a path of directories %v", s)
			c.Do(func() string { return desc }, func(t *T) {
				t.State(desc)
				old := os.Getenv("PATH")
				defer os.Setenv("PATH", old)
				must(os.Setenv("PATH", path))
				for _, x := range []struct {
					cmd  string
					want bool
				}{{"cmd x", found}, {"cmd", false}, {"", false}, {dirs[2] + "/cmd x", true}, {dirs[3] + "/cmd x", false}, {dirs[4] + "/cmd x", false}, {dirs[2] + "/cmd", false}} {
					t.Step(1)
					if is, err := g.UtilIsCommandInstalled(x.cmd); is != x.want || is == (err != nil) {
						t.Failf("%q: %v, %v, want %v", x.cmd, is, err, x.want)
					}
				}
			})
			return !c.Stopped()
		})
	}
	c.Do(func() string { return "UtilWordSize" }, func(t *T) {
		if n := g.UtilWordSize(); n != strconv.IntSize {
			t.Failf("gives %d", n)
		}
	})
}
