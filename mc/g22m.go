//go:build verifsched || verifrace

package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// schedMethods gives an operation for every exported method of Table and TableSet: it calls the method on its own
// table or set with every combination (up to a dozen) of a few arguments, in an order of its own.
func schedMethods() (ops []schedOp) {
	skip := map[string]bool{"ShuffleRandom": true, "WriteFile": true}
	for _, ty := range []reflect.Type{reflect.TypeOf(&g.Table{}), reflect.TypeOf(&g.TableSet{})} {
		ty := ty
		for i := 0; i < ty.NumMethod(); i++ {
			m := ty.Method(i)
			if skip[m.Name] {
				continue
			}
			ops = append(ops, schedOp{"every " + strings.TrimPrefix(ty.String(), "*gotables.") + "." + m.Name, func(v int) (func() string, func() string) {
				w := schedWorld(v, ty, m)
				var n []int
				for j := 1; j < m.Type.NumIn(); j++ {
					n = append(n, len(cxArgs(w, m.Type.In(j), m.Name, true)))
				}
				var calls [][]reflect.Value
				cxCombos(n, func(idx []int) bool {
					in := []reflect.Value{w.recv}
					for j, x := range idx {
						in = append(in, cxArgs(w, m.Type.In(j+1), m.Name, true)[x])
					}
					// The value given to a generic or typed setter: one of the variant's own.
					if k := len(in) - 1; strings.HasPrefix(m.Name, "Set") && k > 0 {
						if ty := colTypeOf(m.Type.In(k)); ty != "" && ty != "*Table" && k > 1 {
							in[k] = reflect.ValueOf(ordinary(ty, v+1)).Convert(m.Type.In(k))
						}
					}
					calls = append(calls, in)
					if m.Name == "Merge" || m.Name == "SortUnique" || m.Name == "Nest" || strings.HasPrefix(m.Name, "NewT") {
						return len(calls) < 4 // these take long
					}
					return len(calls) < 12
				})
				run := func() string {
					var b strings.Builder
					for c := range calls {
						in := calls[(c+v)%len(calls)]
						b.WriteString(schedCall(m, in))
					}
					return b.String()
				}
				return run, func() string {
					s := ""
					for _, t := range w.tables {
						s += observe(t).Full()
					}
					for _, ts := range w.sets {
						s += observeSet(ts).Full()
					}
					return s
				}
			}})
		}
	}
	return
}

func colTypeOf(ty reflect.Type) string {
	n := strings.Replace(ty.String(), "gotables.", "", 1)
	for _, x := range allTypes {
		if x == n {
			return n
		}
	}
	return ""
}

// schedWorld makes the receiver; the column i has the type which the method gets or sets.
func schedWorld(v int, ty reflect.Type, m reflect.Method) *cx {
	name := schedNames[v]
	it := "int"
	if strings.HasPrefix(m.Name, "Get") && m.Type.NumOut() > 0 && m.Type.NumIn() > 2 {
		it = colTypeOf(m.Type.Out(0))
	}
	if strings.HasPrefix(m.Name, "Set") && m.Type.NumIn() > 2 {
		it = colTypeOf(m.Type.In(m.Type.NumIn() - 1))
	}
	if it == "" || it == "*Table" || it == "bool" && strings.Contains(m.Name, "Shape") {
		it = "int"
	}
	t := &MTable{Name: name, Cols: []MCol{{"i", it}, {"s", "string"}, {"f", "float64"}, {"b", "[]byte"}, {"z", "time.Time"}}}
	for r := 0; r < 2+v; r++ {
		t.Rows = append(t.Rows, []interface{}{ordinary(it, r+v), name + fmt.Sprint(r%2), 1.5 * float64(r-v), []byte{byte(r), byte(v)}, time.Date(2000+v, 2, 29, 1, 2, 3, r, time.UTC)})
	}
	if isSortable(it) {
		t.Keys = []MKey{{"i", v == 1}, {"s", v == 0}}
	}
	other := &MTable{Name: "Other", Cols: []MCol{{"i", it}, {"s", "string"}, {"q", "uint8"}}, Rows: [][]interface{}{{ordinary(it, v), name + "0", uint8(v)}, {ordinary(it, 1), "", uint8(9)}}, Keys: t.Keys}
	w := &cx{tables: []*g.Table{build(t), build(other)}}
	if ty == reflect.TypeOf(&g.TableSet{}) {
		nested := schedNested(v)
		nested.Name = "s"
		t.Name = "i"
		ts := buildSet(&MSet{Name: "Set" + name, Tables: []*MTable{t, nested}})
		w.sets = []*g.TableSet{ts}
		w.recv = reflect.ValueOf(ts)
		return w
	}
	w.recv = reflect.ValueOf(w.tables[0])
	return w
}

// schedCall calls and tells the results.
func schedCall(m reflect.Method, in []reflect.Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panic: ", r)
		}
	}()
	var out []reflect.Value
	if m.Type.IsVariadic() {
		out = m.Func.CallSlice(in)
	} else {
		out = m.Func.Call(in)
	}
	defer unobserved()()
	for _, o := range out {
		switch x := o.Interface().(type) {
		case *g.Table:
			if x != nil {
				s += observe(x).Full()
			}
		case *g.TableSet:
			if x != nil {
				s += observeSet(x).Full()
			}
		case error:
			s += errText(x)
		case string:
			s += noStamp(x)
		default:
			s += fmt.Sprint(x)
		}
		s += ";"
	}
	return
}

// schedCommon is a table of which several goroutines have a copy each; every run starts with a new one.
var schedCommon *g.Table

func schedFresh() { schedCommon = nil }

// schedCopies: operations on copies of one table.
func schedCopies() (ops []schedOp) {
	copyOf := func(v int) *g.Table {
		if schedCommon == nil {
			m := schedTable(2)
			m.Name = "Common"
			m.Keys = []MKey{{"k", false}, {"s", true}}
			schedCommon = build(m)
		}
		switch v {
		case 0:
			return mustT(schedCommon.Copy())
		case 1:
			return mustT(schedCommon.CopyDeep())
		}
		return mustT(schedCommon.NewTableFromRows("Common", 0, schedCommon.RowCount()-1))
	}
	add := func(name string, f func(v int, t *g.Table) string) {
		ops = append(ops, schedOp{name, func(v int) (func() string, func() string) {
			t := copyOf(v)
			return func() string { return f(v, t) }, func() string { return observe(t).Full() }
		}})
	}
	all := func(es ...error) (s string) {
		for _, e := range es {
			s += errText(e)
		}
		return
	}
	add("edit cells of a copy", func(v int, t *g.Table) string {
		e := all(t.SetInt("k", 0, 70+v), t.SetString("s", 1, schedNames[v]), t.SetVal("y", 0, []byte{byte(v)}), t.SetColCellsToZeroValue("b"), t.SetAllFloatCellsToNaN())
		b, err := t.GetByteSlice("y", 1)
		for i := range b {
			b[i] = byte(v + i)
		}
		return e + errText(err) + t.String()
	})
	add("edit rows of a copy", func(v int, t *g.Table) string {
		return all(t.AppendRow(), t.DeleteRow(v), t.Reverse(), t.AppendRowsFromTable(t, 0, 1), t.DeleteRows(0, 0)) + t.StringUnpadded()
	})
	add("edit columns of a copy", func(v int, t *g.Table) string {
		return all(t.RenameCol("k", "k"+schedNames[v]), t.DeleteCol("f"), t.AppendCol("n", "int8"), t.SwapCols("s", "b"), t.SetName(schedNames[v])) + t.String()
	})
	add("sort and search a copy", func(v int, t *g.Table) string {
		e := all(t.SetSortKeys("k"), t.SetSortKeysReverse("k"), t.Sort())
		i, err := t.Search(2)
		u, err2 := t.NewTableFromRowsBySearchRange("U", 1)
		s := e + fmt.Sprint(i) + all(err, err2)
		if u != nil {
			s += u.String()
		}
		return s
	})
	add("export a copy", func(v int, t *g.Table) string {
		a, e1 := t.GetTableAsJSON()
		b, e2 := t.GetTableAsCSV()
		return t.String() + a + b + all(e1, e2)
	})
	return
}
