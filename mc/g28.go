package main

// G28: no call crashes the program; what cannot be done is an error.

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G28",
		Rule: "By reflection, every exported method of Table, TableSet, CircRefError, SortKeys, and every exported constructor and reader function, on every receiver of a family (nil, an unnamed nil-table, no columns, no rows, every type, struct shape, sort keys, nested, containing itself; for sets the like) with every combination of arguments from a domain per parameter type (nil, negative, huge, out of range, unknown, empty, wrong type, valid, the receiver itself); " +
			"thorough: after every accepted call of one method with arguments of the short domain, every method again. Verdict: no panic (except the documented ones of the ...Must... methods, and never a run-time error), a call on a nil receiver is an error, a call that reports an error leaves all tables involved as they were, and tables that were valid stay valid.",
		Assumptions: []string{"tables and sets come from the constructors (not the zero struct)", "AppendRows and the tree builders are not asked for more rows or depth than memory holds; files are written in a scratch directory only"},
		Run:         runG28,
	})
}

// cx is one fresh world: the receiver and the tables that may be arguments.
type cx struct {
	recv   reflect.Value
	tables []*g.Table
	sets   []*g.TableSet
}

type cxKind struct {
	desc string
	mk   func() *cx
}

func selfTable() *g.Table {
	t := mustT(g.NewTable("Self"))
	must(t.AppendCol("k", "int"))
	must(t.AppendCol("t", "*Table"))
	must(t.AppendRows(2))
	must(t.SetTable("t", 1, t))
	return t
}

func cxTables() (ks []cxKind) {
	add := func(desc string, mk func() *g.Table) {
		ks = append(ks, cxKind{desc, func() *cx {
			other := build(&MTable{Name: "Other", Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, "x"}, {2, "y"}}, Keys: []MKey{{"i", false}}})
			t := mk()
			return &cx{recv: reflect.ValueOf(t), tables: []*g.Table{t, other}}
		}})
	}
	m := func(x *MTable) func() *g.Table { return func() *g.Table { return build(x) } }
	add("nil", func() *g.Table { return nil })
	add("NewNilTable()", g.NewNilTable)
	add("no columns", m(&MTable{Name: "E"}))
	add("rows without columns", func() *g.Table { t := mustT(g.NewTable("R")); must(t.AppendRows(2)); return t })
	add("columns without rows", m(&MTable{Name: "C", Cols: []MCol{{"i", "int"}, {"s", "string"}}}))
	add("two rows", m(&MTable{Name: "T", Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{2, "x"}, {1, ""}}}))
	add("a column of another type", m(&MTable{Name: "D", Cols: []MCol{{"i", "int"}, {"s", "float64"}}, Rows: [][]interface{}{{2, 0.5}, {1, 1.5}}}))
	add("struct shape", m(&MTable{Name: "P", Struct: true, Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, "x"}}}))
	add("sorted", func() *g.Table {
		t := build(&MTable{Name: "S", Cols: []MCol{{"i", "int"}, {"s", "string"}, {"f", "float64"}}, Rows: [][]interface{}{{2, "x", math.NaN()}, {1, "y", 1.5}, {1, "x", -1.5}}, Keys: []MKey{{"i", false}, {"s", true}}})
		must(t.Sort())
		return t
	})
	add("every type", func() *g.Table {
		w := wideTable(0, 2)
		w.Cols[12].Name = "s"
		w.Cols[6].Name = "i"
		return build(w)
	})
	add("nested", m(&MTable{Name: "N", Cols: []MCol{{"i", "int"}, {"t", "*Table"}}, Rows: [][]interface{}{
		{1, &MTable{Name: "In", Cols: []MCol{{"s", "string"}, {"t", "*Table"}}, Rows: [][]interface{}{{"q", &MTable{Nil: true}}}}}, {2, &MTable{Nil: true}}}}))
	add("containing itself", selfTable)
	return
}

func cxSets() (ks []cxKind) {
	add := func(desc string, mk func() *g.TableSet) {
		ks = append(ks, cxKind{"set: " + desc, func() *cx {
			ts := mk()
			other := build(&MTable{Name: "Other", Cols: []MCol{{"i", "int"}}, Rows: [][]interface{}{{1}}})
			o := &cx{recv: reflect.ValueOf(ts), tables: []*g.Table{other}, sets: []*g.TableSet{ts}}
			if ts != nil {
				for i := 0; i < ts.TableCount(); i++ {
					t, err := ts.GetTableByTableIndex(i)
					must(err)
					o.tables = append(o.tables, t)
				}
			}
			return o
		}})
	}
	add("nil", func() *g.TableSet { return nil })
	add("empty", func() *g.TableSet { return buildSet(&MSet{}) })
	a := &MTable{Name: "i", Cols: []MCol{{"i", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, "x"}, {2, "y"}}}
	add("two tables", func() *g.TableSet {
		return buildSet(&MSet{Name: "Set", Tables: []*MTable{a, {Name: "E"}}})
	})
	add("nested", func() *g.TableSet {
		return buildSet(&MSet{Tables: []*MTable{{Name: "N", Cols: []MCol{{"i", "int"}, {"t", "*Table"}}, Rows: [][]interface{}{{1, a}}}, a}})
	})
	add("containing itself", func() *g.TableSet {
		ts := buildSet(&MSet{})
		must(ts.AppendTable(selfTable()))
		return ts
	})
	return
}

var errorType = reflect.TypeOf((*error)(nil)).Elem()

// cxArgs is the domain of a parameter type in a world.
func cxArgs(w *cx, ty reflect.Type, method string, short bool) (vs []reflect.Value) {
	add := func(xs ...interface{}) {
		for _, x := range xs {
			if x == nil {
				vs = append(vs, reflect.Zero(ty))
			} else {
				vs = append(vs, reflect.ValueOf(x).Convert(ty))
			}
		}
	}
	switch ty.String() {
	case "int":
		add(-1, 0, 1)
		if !short {
			add(2, 3, 4, 5)
			switch method {
			case "AppendRows", "NewTreeTable", "NewTreeTable1":
				add(math.MinInt64)
			default:
				add(math.MaxInt64, math.MinInt64, math.MaxInt64-1)
			}
		}
	case "string":
		add("i", "nosuch", "s")
		if !short {
			add("", "int", "t", "Other", "not a name", "N2", "string", "*Table", "\xff\x00", "In")
		}
	case "[]string":
		add(nil, []string{"i"}, []string{"s", "i"})
		if !short {
			add([]string{}, []string{"nosuch"}, []string{"i", "i"}, []string{""}, []string{"int"}, []string{"i", "nosuch"}, []string{"i", "s", "f", "t", "c_Bool"})
		}
	case "[]interface {}":
		add(nil, []interface{}{1}, []interface{}{1, "x"})
		if !short {
			add([]interface{}{}, []interface{}{nil}, []interface{}{"i"}, []interface{}{"nosuch"}, []interface{}{"i", "i"}, []interface{}{1, "x", 1.5}, []interface{}{(*g.Table)(nil)}, []interface{}{1, w.tables[0]}, []interface{}{[]string{"i"}}, []interface{}{"i", 5})
		}
	case "[]int":
		add(nil, []int{0}, []int{1, 0}, []int{-1}, []int{9}, []int{0, 0}, []int{0, 1, 2})
	case "[]uint8":
		add(nil, []byte{}, []byte{0, 255})
	case "bool":
		add(false, true)
	case "interface {}":
		add(nil, 1, "x")
		if !short {
			add((*g.Table)(nil), w.tables[0], w.tables[len(w.tables)-1], []byte(nil), []byte{1}, 1.5, struct{}{}, []int{1}, func() {}, map[string]int(nil))
		}
	case "time.Time":
		add(time.Time{}, time.Date(2020, 2, 29, 1, 2, 3, 4, time.UTC))
	case "*gotables.Table":
		for _, t := range w.tables {
			vs = append(vs, reflect.ValueOf(t))
		}
		vs = append(vs, reflect.Zero(ty))
		if !short {
			add(g.NewNilTable(), mustT(g.NewTable("i")), selfTable())
		}
	case "*gotables.TableSet":
		for _, t := range w.sets {
			vs = append(vs, reflect.ValueOf(t))
		}
		add(nil, buildSet(&MSet{Name: "X", Tables: []*MTable{{Name: "E"}}}))
	case "func(*gotables.Table) error":
		add(nil, func(*g.Table) error { return nil }, func(*g.Table) error { return fmt.Errorf("visit") })
	case "func(*gotables.TableSet) error":
		add(nil, func(*g.TableSet) error { return nil }, func(*g.TableSet) error { return fmt.Errorf("visit") })
	case "func(gotables.Row) error":
		add(nil, func(g.Row) error { return nil }, func(g.Row) error { return fmt.Errorf("visit") })
	case "func(bool, gotables.CellInfo) error":
		add(nil, func(bool, g.CellInfo) error { return nil }, func(bool, g.CellInfo) error { return fmt.Errorf("visit") })
	case "gotables.WalkSafe":
		add(nil, g.WalkSafe{})
	case "[]bytes.Buffer":
		add(nil, []bytes.Buffer{}, make([]bytes.Buffer, 2))
	case "fs.FileMode":
		add(os.FileMode(0), os.FileMode(0644))
	default:
		switch ty.Kind() {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
			add(1)
			if !short {
				add(0)
			}
		default:
			vs = append(vs, reflect.Zero(ty))
		}
	}
	return
}

// cxDump is everything observable of the tables of a world.
func cxDump(w *cx, extra []reflect.Value) string {
	var b strings.Builder
	ids := map[*g.Table]int{}
	var table func(t *g.Table)
	table = func(t *g.Table) {
		if t == nil {
			b.WriteString("<nil>")
			return
		}
		if id, ok := ids[t]; ok {
			fmt.Fprintf(&b, "#%d", id)
			return
		}
		ids[t] = len(ids)
		m := observeShallow(t)
		fmt.Fprintf(&b, "#%d=%s{", ids[t], m.Full())
		for c, col := range m.Cols {
			if col.Type != "*Table" {
				continue
			}
			for r := range m.Rows {
				n, err := t.GetTableByColIndex(c, r)
				must(err)
				table(n)
			}
		}
		b.WriteString("}")
	}
	for _, t := range w.tables {
		table(t)
	}
	for _, ts := range w.sets {
		if ts == nil {
			continue
		}
		fmt.Fprintf(&b, "[[%s]]%q", ts.Name(), ts.FileName())
		for i := 0; i < ts.TableCount(); i++ {
			t, err := ts.GetTableByTableIndex(i)
			must(err)
			table(t)
		}
	}
	for _, v := range extra {
		if t, ok := v.Interface().(*g.Table); ok {
			table(t)
		}
	}
	return b.String()
}

func cxValid(t *g.Table) bool {
	if t == nil {
		return true
	}
	ok, err := t.IsValidTable()
	return ok && err == nil
}

// cxCall calls and judges. It tells whether the call was accepted.
func cxCall(t *T, w *cx, what string, f reflect.Value, in []reflect.Value, mayPanic bool) (accepted bool) {
	fail := func(format string, a ...interface{}) { t.Failf("%s: %s", what, fmt.Sprintf(format, a...)) }
	before := cxDump(w, in)
	valid := map[*g.Table]bool{}
	for _, x := range w.tables {
		valid[x] = cxValid(x)
	}
	var out []reflect.Value
	var rec interface{}
	panicked := true
	func() {
		defer func() {
			if panicked {
				rec = recover()
			}
		}()
		if f.Type().IsVariadic() {
			out = f.CallSlice(in)
		} else {
			out = f.Call(in)
		}
		panicked = false
	}()
	t.Step(1)
	if panicked {
		_, rt := rec.(runtime.Error)
		if rt || !mayPanic {
			fail("panic: %v", rec)
			return false
		}
		t.Outcome("documented panic")
	}
	var err error
	hasErr := false
	for _, o := range out {
		if o.Type() == errorType {
			hasErr = true
			if !o.IsNil() {
				err = o.Interface().(error)
			}
		}
	}
	if err != nil && err.Error() == "" {
		fail("an error without a text")
	}
	after, p := "", ""
	_, p = try(func() error { after = cxDump(w, in); return nil })
	if p != "" {
		fail("afterwards the tables cannot be read: %s", p)
		return false
	}
	if (panicked || err != nil) && after != before {
		fail("fails (%v) but changes\n  %s\ninto\n  %s", err, clip(before, 600), clip(after, 600))
		return false
	}
	for _, x := range w.tables {
		if valid[x] && !cxValid(x) {
			_, verr := x.IsValidTable()
			if g.HasCircRefError(verr) {
				continue // nothing forbids it; G18 decides that it is detected
			}
			fail("makes a valid table invalid: %v", verr)
			return false
		}
	}
	if w.recv.IsValid() && w.recv.Kind() == reflect.Ptr && w.recv.IsNil() {
		if hasErr && err == nil {
			fail("no error though the receiver is nil")
		}
		t.Outcome("nil receiver")
		return false
	}
	if err != nil {
		t.Outcome("error")
		return false
	}
	if !panicked {
		t.Outcome("accepted")
	}
	return !panicked
}

// cxCombos lists the index combinations over the domains.
func cxCombos(n []int, f func([]int) bool) {
	idx := make([]int, len(n))
	for {
		if !f(idx) {
			return
		}
		k := len(n) - 1
		for ; k >= 0; k-- {
			idx[k]++
			if idx[k] < n[k] {
				break
			}
			idx[k] = 0
		}
		if k < 0 {
			return
		}
	}
}

func runG28(c *Ctx) {
	dir, done := c.Scratch()
	defer done()
	must(os.Chdir(dir))
	if null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stderr, os.Stdout = null, null
	}
	skip := map[string]bool{}
	argText := func(in []reflect.Value) string {
		var s []string
		for _, v := range in {
			x := v.Interface()
			switch y := x.(type) {
			case *g.Table:
				if y == nil {
					x = "nil table"
				} else {
					x = "table [" + y.Name() + "]"
				}
			case *g.TableSet:
				x = fmt.Sprintf("set(nil=%v)", y == nil)
			case []interface{}:
				x = fmt.Sprintf("%d values", len(y))
			}
			if v.Kind() == reflect.Func {
				x = fmt.Sprintf("func(nil=%v)", v.IsNil())
			}
			s = append(s, fmt.Sprintf("%v", x))
		}
		return strings.Join(s, ", ")
	}
	args := func(w *cx, ft reflect.Type, from int, method string, short bool) (doms [][]reflect.Value) {
		for j := from; j < ft.NumIn(); j++ {
			doms = append(doms, cxArgs(w, ft.In(j), method, short))
		}
		return
	}
	for _, k := range append(cxTables(), cxSets()...) {
		k := k
		ty := k.mk().recv.Type()
		for mi := 0; mi < ty.NumMethod(); mi++ {
			m := ty.Method(mi)
			if skip[m.Name] {
				continue
			}
			c.Do(func() string {
				return fmt.Sprintf("%s: %s%s", k.desc, m.Name, strings.TrimPrefix(m.Func.Type().String(), "func"))
			}, func(t *T) {
				var n []int
				for _, d := range args(k.mk(), m.Func.Type(), 1, m.Name, false) {
					n = append(n, len(d))
				}
				cxCombos(n, func(idx []int) bool {
					w := k.mk()
					in := []reflect.Value{w.recv}
					for j, d := range args(w, m.Func.Type(), 1, m.Name, false) {
						in = append(in, d[idx[j]])
					}
					what := m.Name + "(" + argText(in[1:]) + ")"
					t.State(k.desc + what)
					cxCall(t, w, what, m.Func, in, strings.Contains(m.Name, "Must"))
					return !t.Failed()
				})
			})
			if c.Stopped() {
				return
			}
		}
	}
	// functions
	funcs := map[string]interface{}{"NewCircRefError": g.NewCircRefError, "HasCircRefError": g.HasCircRefError, "GetCircRefError": g.GetCircRefError, "NewTableSetFromGob": g.NewTableSetFromGob, "GobDecodeTableSet": g.GobDecodeTableSet,
		"NewTableFromGob": g.NewTableFromGob, "GobDecodeTable": g.GobDecodeTable, "NewTableSet": g.NewTableSet, "NewTableSetFromFile": g.NewTableSetFromFile, "NewTableSetFromString": g.NewTableSetFromString, "NewTableFromString": g.NewTableFromString,
		"NewTableFromStringMustMake": g.NewTableFromStringMustMake, "NewTableFromStringByTableName": g.NewTableFromStringByTableName, "NewTableFromStringByTableIndex": g.NewTableFromStringByTableIndex, "NewTableFromFile": g.NewTableFromFile,
		"NewTableFromFileByTableName": g.NewTableFromFileByTableName, "NewTable": g.NewTable, "NewTableFromMetadata": g.NewTableFromMetadata, "Uint8SliceEquals": g.Uint8SliceEquals, "NewTableSetFromJSON": g.NewTableSetFromJSON, "NewTableFromJSON": g.NewTableFromJSON,
		"NewTableFromJSONByTableName": g.NewTableFromJSONByTableName, "IsValidColType": g.IsValidColType, "IsNumericColType": g.IsNumericColType, "IsSliceColType": g.IsSliceColType, "IsTableColType": g.IsTableColType, "IsValidColName": g.IsValidColName,
		"IsValidTableName": g.IsValidTableName, "NewTableSetFromYAML": g.NewTableSetFromYAML, "UtilFilepathAbs": g.UtilFilepathAbs, "UtilFormatSource": g.UtilFormatSource}
	for _, name := range sortedNames(funcs) {
		name, f := name, reflect.ValueOf(funcs[name])
		for _, k := range cxTables() {
			k := k
			c.Do(func() string {
				return fmt.Sprintf("%s%s with %s", name, strings.TrimPrefix(f.Type().String(), "func"), k.desc)
			}, func(t *T) {
				mk := func() *cx { w := k.mk(); w.recv = reflect.Value{}; return w }
				var n []int
				for _, d := range args(mk(), f.Type(), 0, name, false) {
					n = append(n, len(d))
				}
				cxCombos(n, func(idx []int) bool {
					w := mk()
					var in []reflect.Value
					for j, d := range args(w, f.Type(), 0, name, false) {
						in = append(in, d[idx[j]])
					}
					what := name + "(" + argText(in) + ")"
					t.State(what)
					cxCall(t, w, what, f, in, strings.Contains(name, "Must"))
					return !t.Failed()
				})
			})
		}
	}
	if !c.Thorough {
		return
	}
	// two calls
	for _, k := range append(cxTables(), cxSets()...) {
		k := k
		ty := k.mk().recv.Type()
		for mi := 0; mi < ty.NumMethod(); mi++ {
			m := ty.Method(mi)
			if skip[m.Name] || strings.Contains(m.Name, "Must") || strings.HasPrefix(m.Name, "Get") || strings.HasPrefix(m.Name, "Is") {
				continue
			}
			var n []int
			for _, d := range args(k.mk(), m.Func.Type(), 1, m.Name, true) {
				n = append(n, len(d))
			}
			cxCombos(n, func(idx []int) bool {
				idx = append([]int{}, idx...)
				c.Do(func() string { return fmt.Sprintf("%s: %s with arguments %v, then everything", k.desc, m.Name, idx) }, func(t *T) {
					first := func() (*cx, string, bool) {
						w := k.mk()
						in := []reflect.Value{w.recv}
						for j, d := range args(w, m.Func.Type(), 1, m.Name, true) {
							in = append(in, d[idx[j]])
						}
						what := m.Name + "(" + argText(in[1:]) + ")"
						ok := cxCall(t, w, what, m.Func, in, false)
						return w, what, ok
					}
					_, _, ok := first()
					if !ok {
						return
					}
					for mj := 0; mj < ty.NumMethod(); mj++ {
						m2 := ty.Method(mj)
						if skip[m2.Name] || strings.Contains(m2.Name, "Must") {
							continue
						}
						var n2 []int
						for _, d := range args(k.mk(), m2.Func.Type(), 1, m2.Name, true) {
							n2 = append(n2, len(d))
						}
						cxCombos(n2, func(idx2 []int) bool {
							w, what, _ := first()
							in := []reflect.Value{w.recv}
							for j, d := range args(w, m2.Func.Type(), 1, m2.Name, true) {
								in = append(in, d[idx2[j]])
							}
							what += "; " + m2.Name + "(" + argText(in[1:]) + ")"
							t.State(k.desc + what)
							cxCall(t, w, what, m2.Func, in, false)
							return !t.Failed()
						})
						if t.Failed() {
							return
						}
					}
				})
				return !c.Stopped()
			})
			if c.Stopped() {
				return
			}
		}
	}
}

func sortedNames(m map[string]interface{}) (ns []string) {
	for n := range m {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return
}
