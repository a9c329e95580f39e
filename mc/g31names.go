package main

// G31: the utility functions that name the calling functions.

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// A callShape calls the next callShape or, as the last, the leaf.
type callShape func(rest []callShape, leaf func() string) string

func onward(rest []callShape, leaf func() string) (callShape, []callShape) {
	return rest[0], rest[1:]
}

func namePlain(rest []callShape, leaf func() string) string {
	if len(rest) == 0 {
		return leaf()
	}
	return rest[0](rest[1:], leaf)
}

//go:noinline
func nameNoInline(rest []callShape, leaf func() string) string {
	if len(rest) == 0 {
		return leaf()
	}
	f, rest := onward(rest, leaf)
	return f(rest, leaf)
}

func name_Under1(rest []callShape, leaf func() string) string {
	if len(rest) > 0 {
		return rest[0](rest[1:], leaf)
	}
	return leaf()
}

func nameDefer(rest []callShape, leaf func() string) (s string) {
	if len(rest) == 0 {
		return leaf()
	}
	for i := 0; i < 2; i++ {
		s = rest[0](rest[1:], leaf)
	}
	return s
}

func nameGeneric[X any](rest []callShape, leaf func() string) string {
	var x X
	_ = x
	if len(rest) == 0 {
		return leaf()
	}
	return rest[0](rest[1:], leaf)
}

type nameVal struct{ a, b int }

func (nameVal) ValMethod(rest []callShape, leaf func() string) string {
	if len(rest) == 0 {
		return leaf()
	}
	return rest[0](rest[1:], leaf)
}

func (*nameVal) PtrMethod(rest []callShape, leaf func() string) string {
	if len(rest) == 0 {
		return leaf()
	}
	return rest[0](rest[1:], leaf)
}

type nameGen[X any] struct{ x X }

func (nameGen[X]) GenMethod(rest []callShape, leaf func() string) string {
	if len(rest) == 0 {
		return leaf()
	}
	return rest[0](rest[1:], leaf)
}

type nameIface interface {
	ValMethod(rest []callShape, leaf func() string) string
	PtrMethod(rest []callShape, leaf func() string) string
}

var nameShapes = []struct {
	name string
	f    callShape
}{
	{"namePlain", namePlain},
	{"nameNoInline", nameNoInline},
	{"name_Under1", name_Under1},
	{"nameDefer", nameDefer},
	{"nameGeneric", nameGeneric[int]},
	{"nameGeneric", nameGeneric[map[string][]nameVal]},
	{"ValMethod", nameVal{}.ValMethod},
	{"PtrMethod", (&nameVal{}).PtrMethod},
	{"ValMethod", nameIface(&nameVal{}).ValMethod},
	{"PtrMethod", nameIface(&nameVal{}).PtrMethod},
	{"GenMethod", nameGen[string]{}.GenMethod},
	{"", func(rest []callShape, leaf func() string) string { // The name of a function literal is the compiler's.
		if len(rest) == 0 {
			return leaf()
		}
		return rest[0](rest[1:], leaf)
	}},
}

// The functions that name the function they are called by, each called by one with a name.
func ownPlain() []string {
	return []string{"ownPlain", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}

//go:noinline
func ownNoInline() []string {
	return []string{"ownNoInline", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}
func ownGeneric[X any]() []string {
	return []string{"ownGeneric", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}
func (nameVal) OwnVal() []string {
	return []string{"OwnVal", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}
func (*nameVal) OwnPtr() []string {
	return []string{"OwnPtr", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}
func (nameGen[X]) OwnGen() []string {
	return []string{"OwnGen", g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}
func ownDeferred() (s []string) {
	defer func() { s = append([]string{"ownDeferred"}, s...) }()
	return []string{g.UtilFuncName(), g.UtilFuncNameNoParens() + "()"}
}

func runNames(c *Ctx) {
	own := []func() []string{ownPlain, ownNoInline, ownGeneric[int], ownGeneric[struct{ a, b []int }], nameVal{}.OwnVal, (&nameVal{}).OwnPtr, nameGen[error]{}.OwnGen, ownDeferred}
	for i, f := range own {
		f := f
		c.Do(func() string { return fmt.Sprintf("own name %d", i) }, func(t *T) {
			for _, how := range []string{"called", "in a goroutine", "deferred"} {
				t.Step(2)
				var got []string
				switch how {
				case "called":
					got = f()
				case "in a goroutine":
					done := make(chan bool)
					go func() { got = f(); done <- true }()
					<-done
				case "deferred":
					func() {
						defer func() { got = f() }()
					}()
				}
				for _, name := range got[1:] {
					if name != got[0]+"()" {
						t.Failf("%s: function %s is named %q", how, got[0], name)
					}
				}
			}
		})
	}
	c.Do(func() string { return "source and line" }, func(t *T) {
		t.Step(3)
		_, file, line, _ := runtime.Caller(0)
		src, n, full := g.UtilFuncSource(), g.UtilLineNumber(), g.UtilFuncNameFull()
		if src != fmt.Sprintf("%s:%d:", filepath.Base(file), line+1) {
			t.Failf("UtilFuncSource() = %q in line %d of %s", src, line+1, file)
		}
		if n != line+1 {
			t.Failf("UtilLineNumber() = %d in line %d", n, line+1)
		}
		if !strings.HasPrefix(full, file+":"+strconv.Itoa(line+1)+": ") {
			t.Failf("UtilFuncNameFull() = %q in line %d of %s", full, line+1, file)
		}
		if p := g.UtilProgName(); p != filepath.Base(os.Args[0]) {
			t.Failf("UtilProgName() = %q", p)
		}
		if w := g.UtilWordSize(); w != strconv.IntSize {
			t.Failf("UtilWordSize() = %d", w)
		}
	})
	leaves := []struct {
		name string
		up   int
		f    func() string
	}{
		{"UtilFuncCaller()", 1, func() string { return g.UtilFuncCaller() }},
		{"UtilFuncCallerCaller()", 2, func() string { return g.UtilFuncCallerCaller() }},
		{"UtilFuncCallerCallerCaller()", 3, func() string { return g.UtilFuncCallerCallerCaller() }},
	}
	n := len(nameShapes)
	for l := 1; l <= c.pick(4, 5); l++ {
		seqs(n, l, func(s []int) bool {
			chain := append([]int{}, s...)
			c.Do(func() string { return fmt.Sprintf("call chain %v", chain) }, func(t *T) {
				t.State(fmt.Sprint(chain))
				var fs []callShape
				for _, k := range chain {
					fs = append(fs, nameShapes[k].f)
				}
				for _, leaf := range leaves {
					if leaf.up > len(chain) {
						continue
					}
					want := nameShapes[chain[len(chain)-leaf.up]].name
					if want == "" {
						continue
					}
					t.Step(1)
					if got := fs[0](fs[1:], leaf.f); got != want+"()" {
						t.Failf("%s called through %v names %q, not %q", leaf.name, chain, got, want+"()")
					}
				}
			})
			return !c.Stopped()
		})
	}
}
