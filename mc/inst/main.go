// Command inst makes a copy of the gotables source with scheduling points, for the controlled scheduler of G22.
//
//	inst SRC OUT    writes OUT/*.go and OUT/overlay.json (for go build -overlay)
//
// A point is inserted before every access to a package-level variable that can hold mutable state, at the start of
// every function and function literal, and at the start of every loop body. Every access to a variable is rewritten in
// place (a call that yields and returns the variable's address), so that the order of evaluation stays as it was;
// X++, X += e and X = e become a yield, a read, a yield and a write. sync.Mutex, RWMutex and Once become versions that
// block in the controlled scheduler instead of in the runtime, sync.Pool one that gives what was put last.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	pos, end int
	text     string
	seq      int
}

type varInfo struct {
	spec     *ast.ValueSpec
	file     string
	isMap    bool
	written  bool // outside init()
	contents bool // map/slice/pointer/struct...: contents may change
	ref      bool // copying it shares its contents
}

var (
	fset  = token.NewFileSet()
	files = map[string]*ast.File{}
	srcs  = map[string][]byte{}
	vars  = map[string]*varInfo{}
	types = map[string]ast.Expr{} // type names of the package
	sites []string
	mapOf []string // per site: name of the map variable, or ""
)

func main() {
	src, out := os.Args[1], os.Args[2]
	names, _ := filepath.Glob(filepath.Join(src, "*.go"))
	sort.Strings(names)
	pkgObj := map[*ast.Object]bool{}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), n, nil, 0)
		check(err)
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
				for _, s := range gd.Specs {
					types[s.(*ast.TypeSpec).Name.Name] = s.(*ast.TypeSpec).Type
				}
			}
		}
	}
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			continue
		}
		b, err := os.ReadFile(n)
		check(err)
		f, err := parser.ParseFile(fset, n, b, parser.ParseComments)
		check(err)
		if f.Name.Name != "gotables" {
			continue
		}
		files[n] = f
		srcs[n] = b
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, id := range vs.Names {
					if id.Name == "_" {
						continue
					}
					vi := &varInfo{spec: vs, file: n}
					classify(vi, vs, i)
					vars[id.Name] = vi
				}
			}
		}
		if f.Scope != nil {
			for _, o := range f.Scope.Objects {
				pkgObj[o] = true
			}
		}
	}
	isVar := func(id *ast.Ident) bool { return vars[id.Name] != nil && (id.Obj == nil || pkgObj[id.Obj]) }
	// Pass 1: which variables are written outside init.
	for _, n := range names {
		f := files[n]
		if f == nil {
			continue
		}
		bodies(f, func(name string, node ast.Node) {
			if name == "init" {
				return
			}
			tame := map[*ast.Ident]bool{} // uses that cannot change anything
			ast.Inspect(node, func(x ast.Node) bool {
				mark := func(e ast.Expr) {
					if id := base(e); id != nil && isVar(id) {
						vars[id.Name].written = true
					}
				}
				calm := func(e ast.Expr) {
					if id, ok := e.(*ast.Ident); ok {
						tame[id] = true
					}
				}
				switch x := x.(type) {
				case *ast.Ident:
					// A map, slice or pointer that is passed on may be changed elsewhere.
					if v := vars[x.Name]; v != nil && v.ref && isVar(x) && !tame[x] {
						v.written = true
					}
				case *ast.IndexExpr:
					calm(x.X)
				case *ast.SelectorExpr:
					calm(x.X)
					tame[x.Sel] = true
				case *ast.KeyValueExpr:
					calm(x.Key)
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						for _, l := range x.Lhs {
							mark(l)
						}
					}
				case *ast.IncDecStmt:
					mark(x.X)
				case *ast.RangeStmt:
					calm(x.X)
					if x.Tok == token.ASSIGN {
						mark(x.Key)
						if x.Value != nil {
							mark(x.Value)
						}
					}
				case *ast.BinaryExpr:
					calm(x.X)
					calm(x.Y)
				case *ast.UnaryExpr:
					if x.Op == token.AND {
						mark(x.X)
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) > 0 {
						switch id.Name {
						case "delete", "clear", "copy":
							mark(x.Args[0])
						case "len", "cap":
							calm(x.Args[0])
						}
					}
					// A method may change its receiver.
					if s, ok := x.Fun.(*ast.SelectorExpr); ok {
						if id := base(s.X); id != nil && vars[id.Name] != nil && vars[id.Name].contents {
							mark(s.X)
						}
					}
				}
				return true
			})
		})
	}
	// Pass 2: rewrite.
	overlay := map[string]string{}
	for _, n := range names {
		f := files[n]
		if f == nil {
			continue
		}
		var es []edit
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(x ast.Node) string { return string(srcs[n][off(x.Pos()):off(x.End())]) }
		add := func(pos, end int, s string) { es = append(es, edit{pos, end, s, len(es)}) }
		site := func(p token.Pos, what, mapVar string) int {
			ps := fset.Position(p)
			sites = append(sites, fmt.Sprintf("%s:%d %s", filepath.Base(ps.Filename), ps.Line, what))
			mapOf = append(mapOf, mapVar)
			return len(sites) - 1
		}
		// sync shims
		syncName := ""
		for _, im := range f.Imports {
			if im.Path.Value == `"sync"` {
				syncName = "sync"
				if im.Name != nil {
					syncName = im.Name.Name
				}
			}
		}
		if syncName != "" {
			ast.Inspect(f, func(x ast.Node) bool {
				if s, ok := x.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == syncName && id.Obj == nil {
						switch s.Sel.Name {
						case "Mutex", "RWMutex", "Pool", "Once", "OnceFunc", "OnceValue", "OnceValues":
							add(off(s.Pos()), off(s.End()), "vs"+s.Sel.Name)
						}
					}
				}
				return true
			})
			add(len(srcs[n]), len(srcs[n]), "\nvar _ "+syncName+".Locker\n")
		}
		bodies(f, func(name string, node ast.Node) {
			if name == "init" {
				return
			}
			skip := map[*ast.Ident]bool{}  // not to be rewritten
			write := map[*ast.Ident]bool{} // base of something written
			whole := map[ast.Node]bool{}   // statements rewritten as a whole
			// In a function that uses a variable that may change, every statement is preceded by a point: it may
			// work on what it has taken out of the variable.
			stmts := false
			clauses := map[*ast.BlockStmt]bool{} // blocks that hold clauses
			ast.Inspect(node, func(x ast.Node) bool {
				if id, ok := x.(*ast.Ident); ok && isVar(id) && vars[id.Name].written {
					stmts = true
				}
				return !stmts
			})
			points := func(list []ast.Stmt) {
				for _, st := range list {
					if stmts {
						add(off(st.Pos()), off(st.Pos()), fmt.Sprintf("vsS(%d); ", site(st.Pos(), "statement", "")))
					}
				}
			}
			ast.Inspect(node, func(x ast.Node) bool {
				mark := func(e ast.Expr) {
					if id := base(e); id != nil {
						write[id] = true
					}
				}
				switch x := x.(type) {
				case *ast.BlockStmt:
					if _, isSwitch := clauses[x]; !isSwitch {
						points(x.List)
					}
				case *ast.CaseClause:
					points(x.Body)
				case *ast.CommClause:
					points(x.Body)
				case *ast.SwitchStmt:
					clauses[x.Body] = true
				case *ast.TypeSwitchStmt:
					clauses[x.Body] = true
				case *ast.SelectStmt:
					clauses[x.Body] = true
				case *ast.FuncDecl:
					if x.Body != nil {
						add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" vsF(%d);", site(x.Pos(), "func "+x.Name.Name, "")))
					}
				case *ast.FuncLit:
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" vsF(%d);", site(x.Pos(), "func literal", "")))
				case *ast.ForStmt:
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" vsL(%d);", site(x.Pos(), "for", "")))
				case *ast.RangeStmt:
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, fmt.Sprintf(" vsL(%d);", site(x.Pos(), "for range", "")))
					if x.Tok == token.ASSIGN {
						mark(x.Key)
						if x.Value != nil {
							mark(x.Value)
						}
					}
				case *ast.CompositeLit:
					for _, e := range x.Elts {
						if kv, ok := e.(*ast.KeyValueExpr); ok {
							if id, ok := kv.Key.(*ast.Ident); ok {
								skip[id] = true
							}
						}
					}
				case *ast.SelectorExpr:
					skip[x.Sel] = true
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear" || id.Name == "copy") && len(x.Args) > 0 {
						mark(x.Args[0])
					}
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE {
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && id.Obj != nil && !pkgObj[id.Obj] {
								skip[id] = true
							}
						}
						return true
					}
					for _, l := range x.Lhs {
						mark(l)
					}
					if id, ok := x.Lhs[0].(*ast.Ident); ok && len(x.Lhs) == 1 && isVar(id) && point(id.Name) {
						whole[x] = true
						skip[id] = true
						if x.Tok == token.ASSIGN {
							s := site(x.Pos(), "write of "+id.Name, mapName(id.Name))
							add(off(x.Lhs[0].Pos()), off(x.Rhs[0].Pos()), fmt.Sprintf("vsSet(&%s, %d, ", id.Name, s))
						} else {
							r, s := site(x.Pos(), "read of "+id.Name, mapName(id.Name)), site(x.Pos(), "write of "+id.Name, mapName(id.Name))
							add(off(x.Lhs[0].Pos()), off(x.Rhs[0].Pos()), fmt.Sprintf("vsSet(&%s, %d, *vsR(&%s, %d) %s (", id.Name, s, id.Name, r, strings.TrimSuffix(x.Tok.String(), "=")))
							add(off(x.End()), off(x.End()), ")")
						}
						add(off(x.End()), off(x.End()), ")")
					}
				case *ast.IncDecStmt:
					mark(x.X)
					if id, ok := x.X.(*ast.Ident); ok && isVar(id) && point(id.Name) {
						skip[id] = true
						r, s := site(x.Pos(), "read of "+id.Name, ""), site(x.Pos(), "write of "+id.Name, "")
						op := "+"
						if x.Tok == token.DEC {
							op = "-"
						}
						add(off(x.Pos()), off(x.End()), fmt.Sprintf("vsSet(&%s, %d, *vsR(&%s, %d) %s 1)", id.Name, s, id.Name, r, op))
					}
				case *ast.Ident:
					if skip[x] || !isVar(x) || !point(x.Name) {
						return true
					}
					fn, what := "vsR", "use of "
					if !vars[x.Name].written {
						fn = "vsC"
					}
					if write[x] {
						fn, what = "vsW", "write in "
					}
					add(off(x.Pos()), off(x.End()), fmt.Sprintf("(*%s(&%s, %d))", fn, x.Name, site(x.Pos(), what+x.Name, mapName(x.Name))))
				}
				return true
			})
			_ = text
		})
		// Apply the edits: at one position, closing text of inner edits first (order of creation is outer first).
		sort.SliceStable(es, func(i, j int) bool {
			if es[i].pos != es[j].pos {
				return es[i].pos < es[j].pos
			}
			return es[i].end < es[j].end
		})
		var b strings.Builder
		b.WriteString("//go:build go1.21\n\n")
		last := 0
		for _, e := range es {
			if e.pos < last {
				check(fmt.Errorf("%s: overlapping edits at offset %d", n, e.pos))
			}
			b.Write(srcs[n][last:e.pos])
			b.WriteString(e.text)
			last = e.end
		}
		b.Write(srcs[n][last:])
		o := filepath.Join(out, filepath.Base(n))
		check(os.WriteFile(o, []byte(b.String()), 0644))
		overlay[n] = o
	}
	var b strings.Builder
	b.WriteString(runtimeSrc)
	fmt.Fprintf(&b, "\n// VSSites names the scheduling points.\nvar VSSites = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "\t%q,\n", s)
	}
	fmt.Fprintf(&b, "}\n\n// VSMaps tells which points access a map.\nvar VSMaps = map[int]string{\n")
	for i, m := range mapOf {
		if m != "" {
			fmt.Fprintf(&b, "\t%d: %q,\n", i, m)
		}
	}
	b.WriteString("}\n")
	var pts, con []string
	for n, v := range vars {
		if v.written {
			pts = append(pts, n)
		} else if point(n) {
			con = append(con, n)
		}
	}
	sort.Strings(pts)
	sort.Strings(con)
	fmt.Fprintf(&b, "\n// VSVars are the variables that may change, VSConst those with contents that nothing seems to change.\nvar VSVars, VSConst = %#v, %#v\n", pts, con)
	fmt.Fprintf(&b, "\n// VSLens gives the sizes of the maps that may change.\nvar VSLens = map[string]func() int{\n")
	for _, n := range pts {
		if vars[n].isMap {
			fmt.Fprintf(&b, "\t%q: func() int { return len(%s) },\n", n, n)
		}
	}
	b.WriteString("}\n")
	o := filepath.Join(out, "zz_verif_sched.go")
	check(os.WriteFile(o, []byte(b.String()), 0644))
	overlay[filepath.Join(src, "zz_verif_sched.go")] = o
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	check(os.WriteFile(filepath.Join(out, "overlay.json"), j, 0644))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}

// bodies visits every function declaration and the function literals among the initial values of package variables.
func bodies(f *ast.File, visit func(name string, n ast.Node)) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body == nil {
				continue
			}
			name := d.Name.Name
			if d.Recv != nil {
				name = "." + name
			}
			visit(name, d)
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, s := range d.Specs {
				for _, v := range s.(*ast.ValueSpec).Values {
					ast.Inspect(v, func(x ast.Node) bool {
						if fl, ok := x.(*ast.FuncLit); ok {
							visit("var", fl)
							return false
						}
						return true
					})
				}
			}
		}
	}
}

func base(e ast.Expr) *ast.Ident {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			return x
		case *ast.IndexExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.SelectorExpr:
			e = x.X
		case *ast.StarExpr:
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func classify(vi *varInfo, vs *ast.ValueSpec, i int) {
	var kind func(e ast.Expr)
	kind = func(e ast.Expr) {
		switch t := e.(type) {
		case *ast.MapType:
			vi.isMap, vi.contents, vi.ref = true, true, true
		case *ast.ArrayType:
			vi.contents, vi.ref = true, t.Len == nil
		case *ast.StructType:
			vi.contents = true
		case *ast.ChanType, *ast.InterfaceType:
			vi.contents, vi.ref = true, true
		case *ast.StarExpr:
			vi.contents, vi.ref = true, true
			if s, ok := t.X.(*ast.SelectorExpr); ok && s.Sel.Name == "Regexp" {
				vi.contents, vi.ref = false, false
			}
		case *ast.SelectorExpr:
			vi.contents = t.Sel.Name != "Time" && t.Sel.Name != "Duration"
		case *ast.Ident:
			switch t.Name {
			case "bool", "string", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "rune", "byte", "compareFunc", "error":
			default:
				if u := types[t.Name]; u != nil {
					delete(types, t.Name) // recursive types
					kind(u)
					types[t.Name] = u
				} else {
					vi.contents = true
				}
			}
		}
	}
	if vs.Type != nil {
		kind(vs.Type)
		return
	}
	if i < len(vs.Values) {
		switch v := vs.Values[i].(type) {
		case *ast.CompositeLit:
			if v.Type != nil {
				kind(v.Type)
				vi.contents = true
			}
		case *ast.CallExpr:
			if id, ok := v.Fun.(*ast.Ident); ok && id.Name == "make" && len(v.Args) > 0 {
				kind(v.Args[0])
				return
			}
			if s, ok := v.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "MustCompile" || s.Sel.Name == "Sprintf") {
				return
			}
			vi.contents = true
		case *ast.UnaryExpr:
			vi.contents = v.Op == token.AND
		}
	}
}

// point tells whether accesses to the variable are scheduling points.
func point(name string) bool { v := vars[name]; return v.written || v.contents }

func mapName(name string) string {
	if vars[name].isMap {
		return name
	}
	return ""
}

const runtimeSrc = `//go:build go1.21

package gotables

import "sync"

// VSHook is called at every scheduling point while a controlled execution runs.
// kind: 0 function entry, 1 use of a variable, 2 write of a variable, 3 loop, 4 lock operation,
// 5 use of a variable that nothing seems to change after initialisation, 6 statement of a function that uses a variable
var VSHook func(site, kind int)

// VSBlocked is called when the running goroutine cannot go on until another one has.
var VSBlocked func()

// VSSync is called when the running goroutine acquires (or releases) the object p.
var VSSync func(p interface{}, acquire bool)

func vsF(n int) {
	if VSHook != nil {
		VSHook(n, 0)
	}
}
func vsS(n int) {
	if VSHook != nil {
		VSHook(n, 6)
	}
}
func vsL(n int) {
	if VSHook != nil {
		VSHook(n, 3)
	}
}
func vsR[T any](p *T, n int) *T {
	if VSHook != nil {
		VSHook(n, 1)
	}
	return p
}
func vsC[T any](p *T, n int) *T {
	if VSHook != nil {
		VSHook(n, 5)
	}
	return p
}
func vsW[T any](p *T, n int) *T {
	if VSHook != nil {
		VSHook(n, 2)
	}
	return p
}
func vsSet[T any](p *T, n int, v T) {
	if VSHook != nil {
		VSHook(n, 2)
	}
	*p = v
}
func vsAcq(p interface{}, try func() bool) {
	if VSHook != nil {
		VSHook(-1, 4)
	}
	for !try() {
		if VSBlocked == nil {
			panic("vs: deadlock")
		}
		VSBlocked()
	}
	if VSSync != nil {
		VSSync(p, true)
	}
}
func vsRel(p interface{}) {
	if VSSync != nil {
		VSSync(p, false)
	}
}

type vsMutex struct{ m sync.Mutex }

func (m *vsMutex) Lock()         { vsAcq(m, m.m.TryLock) }
func (m *vsMutex) Unlock()       { vsRel(m); m.m.Unlock() }
func (m *vsMutex) TryLock() bool { ok := m.m.TryLock(); if ok && VSSync != nil { VSSync(m, true) }; return ok }

type vsRWMutex struct{ m sync.RWMutex }

func (m *vsRWMutex) Lock()    { vsAcq(m, m.m.TryLock) }
func (m *vsRWMutex) Unlock()  { vsRel(m); m.m.Unlock() }
func (m *vsRWMutex) RLock()   { vsAcq(m, m.m.TryRLock) }
func (m *vsRWMutex) RUnlock() { vsRel(m); m.m.RUnlock() }

// vsPool gives what was put last.
type vsPool struct {
	New   func() interface{}
	items []interface{}
}

func (p *vsPool) Get() interface{} {
	vsAcq(p, func() bool { return true })
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *vsPool) Put(x interface{}) {
	vsAcq(p, func() bool { return true })
	vsRel(p)
	p.items = append(p.items, x)
}

type vsOnce struct {
	m    vsMutex
	done bool
}

func (o *vsOnce) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func vsOnceFunc(f func()) func() { o := new(vsOnce); return func() { o.Do(f) } }
func vsOnceValue[T any](f func() T) func() T {
	o := new(vsOnce)
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func vsOnceValues[T, U any](f func() (T, U)) func() (T, U) {
	o := new(vsOnce)
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
`
