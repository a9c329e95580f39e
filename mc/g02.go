package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// A world: a table set with two tables, a third table, a source table, a nestable one and a nil-table.
type world struct {
	ts    *g.TableSet
	t     *g.Table // first table of the set
	u     *g.Table // second table of the set
	other []*g.Table
	names []string
}

func worldModels() []*MTable {
	return []*MTable{
		{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "string"}, {"f", "float64"}, {"n", "*Table"}, {"y", "[]byte"}}, Rows: [][]interface{}{
			{2, "x", 1.5, &MTable{Name: "N1", Cols: []MCol{{"q", "int"}}, Rows: [][]interface{}{{1}}}, []byte{1}},
			{1, "w", 2.5, &MTable{Name: "N2"}, []byte{2, 3}}}, Keys: []MKey{{"b", true}, {"a", false}}},
		{Name: "U", Cols: []MCol{{"a", "string"}, {"c", "bool"}}, Rows: [][]interface{}{{"p", true}, {"o", false}}},
		{Name: "S0", Cols: []MCol{{"a", "int"}, {"z", "uint8"}}, Rows: [][]interface{}{{5, uint8(6)}, {4, uint8(7)}}, Keys: []MKey{{"a", true}}},
		{Name: "S1", Cols: []MCol{{"d", "int"}, {"b", "int"}, {"e", "bool"}}, Rows: [][]interface{}{{5, 6, true}}, Keys: []MKey{{"b", false}}},
		{Name: "S2", Cols: []MCol{{"a", "int"}, {"b", "string"}, {"f", "string"}}, Rows: [][]interface{}{{1, "x", "q"}, {2, "y", "r"}}},
		{Name: "S3", Cols: []MCol{{"b", "string"}, {"g", "int"}}, Rows: [][]interface{}{{"x", 1}, {"x", 2}, {"v", 3}}, Keys: []MKey{{"b", false}}},
		{Nil: true},
	}
}

// the same worlds after the set's tables were edited, so that failing calls are tried from different states
func worldStarts() map[string]func(w *world) {
	return map[string]func(w *world){
		"as built":        func(w *world) {},
		"sorted":          func(w *world) { must(w.t.Sort()) },
		"rows removed":    func(w *world) { must(w.t.DeleteRowsAll()); must(w.u.DeleteRow(0)) },
		"column removed":  func(w *world) { must(w.t.DeleteCol("a")); must(w.u.RenameCol("c", "d")) },
		"keys cleared":    func(w *world) { must(w.t.SetSortKeys()); must(w.u.SetSortKeys("a")) },
		"struct shape":    func(w *world) { must(w.t.DeleteRow(0)); must(w.t.SetStructShape(true)) },
		"columns swapped": func(w *world) { must(w.t.SwapCols("a", "y")); must(w.u.ReorderCols("c", "a")) },
	}
}

func makeWorld(prep func(*world)) *world {
	ms := worldModels()
	w := &world{}
	ts, err := g.NewTableSet("S")
	must(err)
	w.ts = ts
	for i, m := range ms {
		t := build(m)
		if i < 2 {
			must(ts.AppendTable(t))
		}
		w.other = append(w.other, t)
		w.names = append(w.names, m.Name)
	}
	w.t, w.u = w.other[0], w.other[1]
	prep(w)
	return w
}

func (w *world) snap() string {
	var b strings.Builder
	b.WriteString(observeSet(w.ts).Full())
	b.WriteString(" file=" + w.ts.FileName())
	for _, t := range w.other {
		b.WriteString("\n")
		b.WriteString(observe(t).Full())
		if p := t.ParentTable(); p != nil {
			b.WriteString(" parent=" + p.Name())
		}
		for c := 0; c < t.ColCount(); c++ {
			for r := 0; r < t.RowCount(); r++ {
				v, _ := t.GetValByColIndex(c, r)
				if n, ok := v.(*g.Table); ok && n != nil {
					if p := n.ParentTable(); p != nil {
						b.WriteString(fmt.Sprintf(" parent(%d,%d)=%s", c, r, p.Name()))
					}
				}
			}
		}
	}
	return b.String()
}

type wop struct {
	Desc string
	F    func(w *world) error
	Must bool // panics are the documented way to refuse
}

// worldOps is the alphabet of calls, most of which must fail in most worlds.
func worldOps(thorough bool) []wop {
	var ops []wop
	add := func(d string, f func(w *world) error) { ops = append(ops, wop{Desc: d, F: f}) }
	for ti := 0; ti < 7; ti++ {
		if ti > 1 && ti < 6 {
			continue
		}
		ti := ti
		tn := worldModels()[ti].Name
		if ti == 6 {
			tn = "(nil-table)"
		}
		tab := func(w *world) *g.Table { return w.other[ti] }
		colNames := []string{"a", "b", "c", "f", "n", "y", "zz", "", "1", "int", "a b"}
		types := []string{"int", "string", "integer", ""}
		for _, n := range colNames {
			n := n
			for _, ty := range types {
				ty := ty
				add(fmt.Sprintf("%s.AppendCol(%q, %q)", tn, n, ty), func(w *world) error { return tab(w).AppendCol(n, ty) })
			}
			add(fmt.Sprintf("%s.DeleteCol(%q)", tn, n), func(w *world) error { return tab(w).DeleteCol(n) })
			add(fmt.Sprintf("%s.AppendSortKey(%q)", tn, n), func(w *world) error { return tab(w).AppendSortKey(n) })
			add(fmt.Sprintf("%s.DeleteSortKey(%q)", tn, n), func(w *world) error { return tab(w).DeleteSortKey(n) })
			add(fmt.Sprintf("%s.SetColCellsToZeroValue(%q)", tn, n), func(w *world) error { return tab(w).SetColCellsToZeroValue(n) })
			add(fmt.Sprintf("%s.SetColFloatCellsToNaN(%q)", tn, n), func(w *world) error { return tab(w).SetColFloatCellsToNaN(n) })
			for _, n2 := range colNames {
				n2 := n2
				add(fmt.Sprintf("%s.RenameCol(%q, %q)", tn, n, n2), func(w *world) error { return tab(w).RenameCol(n, n2) })
				add(fmt.Sprintf("%s.SwapCols(%q, %q)", tn, n, n2), func(w *world) error { return tab(w).SwapCols(n, n2) })
				for _, kf := range keyFuncs {
					kf := kf
					add(fmt.Sprintf("%s.%s(%q, %q)", tn, kf.name, n, n2), func(w *world) error { return kf.f(tab(w), n, n2) })
					if n2 == colNames[0] {
						add(fmt.Sprintf("%s.%s(%q)", tn, kf.name, n), func(w *world) error { return kf.f(tab(w), n) })
					}
					for _, n3 := range []string{"a", "n", "zz"} {
						n3 := n3
						if (n == "b" || n == "a" || n == "f") && (n2 == "a" || n2 == "f" || n2 == "b") {
							add(fmt.Sprintf("%s.%s(%q, %q, %q)", tn, kf.name, n, n2, n3), func(w *world) error { return kf.f(tab(w), n, n2, n3) })
						}
					}
				}
			}
			for _, r := range []int{-1, 0, 1, 2, 7} {
				r := r
				for _, v := range []interface{}{7, "s", 2.5, true, uint8(3), []byte{9}, nil, int32(4), []int{1}} {
					v := v
					add(fmt.Sprintf("%s.SetVal(%q, %d, %#v)", tn, n, r, v), func(w *world) error { return tab(w).SetVal(n, r, v) })
				}
				add(fmt.Sprintf("%s.SetVal(%q, %d, S0)", tn, n, r), func(w *world) error { return tab(w).SetVal(n, r, w.other[2]) })
				add(fmt.Sprintf("%s.SetTable(%q, %d, S0)", tn, n, r), func(w *world) error { return tab(w).SetTable(n, r, w.other[2]) })
				add(fmt.Sprintf("%s.SetInt(%q, %d, 7)", tn, n, r), func(w *world) error { return tab(w).SetInt(n, r, 7) })
				add(fmt.Sprintf("%s.SetString(%q, %d, s)", tn, n, r), func(w *world) error { return tab(w).SetString(n, r, "s") })
				add(fmt.Sprintf("%s.SetByteSlice(%q, %d, {9})", tn, n, r), func(w *world) error { return tab(w).SetByteSlice(n, r, []byte{9}) })
				add(fmt.Sprintf("%s.SetFloatCellToNaN(%q, %d)", tn, n, r), func(w *world) error { return tab(w).SetFloatCellToNaN(n, r) })
				add(fmt.Sprintf("%s.SetCellToZeroValue(%q, %d)", tn, n, r), func(w *world) error { return tab(w).SetCellToZeroValue(n, r) })
			}
		}
		for _, i := range []int{-1, 0, 1, 3, 4, 5, 9} {
			i := i
			add(fmt.Sprintf("%s.DeleteColByColIndex(%d)", tn, i), func(w *world) error { return tab(w).DeleteColByColIndex(i) })
			add(fmt.Sprintf("%s.SetColCellsToZeroValueByColIndex(%d)", tn, i), func(w *world) error { return tab(w).SetColCellsToZeroValueByColIndex(i) })
			add(fmt.Sprintf("%s.SetColFloatCellsToNaNByColIndex(%d)", tn, i), func(w *world) error { return tab(w).SetColFloatCellsToNaNByColIndex(i) })
			for _, n := range []string{"a", "c", "zz", "", "int", "1"} {
				n := n
				add(fmt.Sprintf("%s.RenameColByColIndex(%d, %q)", tn, i, n), func(w *world) error { return tab(w).RenameColByColIndex(i, n) })
			}
			for _, j := range []int{-1, 0, 1, 4, 5, 9} {
				j := j
				add(fmt.Sprintf("%s.SwapColsByColIndex(%d, %d)", tn, i, j), func(w *world) error { return tab(w).SwapColsByColIndex(i, j) })
				add(fmt.Sprintf("%s.ReorderColsByColIndex(%d, %d)", tn, i, j), func(w *world) error { return tab(w).ReorderColsByColIndex(i, j) })
				add(fmt.Sprintf("%s.ReorderColsByColIndex(%d, %d, 2, 3, 4)", tn, i, j), func(w *world) error { return tab(w).ReorderColsByColIndex(i, j, 2, 3, 4) })
				add(fmt.Sprintf("%s.DeleteRows(%d, %d)", tn, i, j), func(w *world) error { return tab(w).DeleteRows(i, j) })
				for _, v := range []interface{}{7, "s", []byte{9}, nil} {
					v := v
					add(fmt.Sprintf("%s.SetValByColIndex(%d, %d, %#v)", tn, i, j, v), func(w *world) error { return tab(w).SetValByColIndex(i, j, v) })
				}
				add(fmt.Sprintf("%s.SetValByColIndex(%d, %d, S0)", tn, i, j), func(w *world) error { return tab(w).SetValByColIndex(i, j, w.other[2]) })
				add(fmt.Sprintf("%s.SetTableByColIndex(%d, %d, S0)", tn, i, j), func(w *world) error { return tab(w).SetTableByColIndex(i, j, w.other[2]) })
				add(fmt.Sprintf("%s.SetIntByColIndex(%d, %d, 7)", tn, i, j), func(w *world) error { return tab(w).SetIntByColIndex(i, j, 7) })
				add(fmt.Sprintf("%s.SetUint8SliceByColIndex(%d, %d, {9})", tn, i, j), func(w *world) error { return tab(w).SetUint8SliceByColIndex(i, j, []uint8{9}) })
				add(fmt.Sprintf("%s.SetCellToZeroValueByColIndex(%d, %d)", tn, i, j), func(w *world) error { return tab(w).SetCellToZeroValueByColIndex(i, j) })
				add(fmt.Sprintf("%s.SetFloatCellToNaNByColIndex(%d, %d)", tn, i, j), func(w *world) error { return tab(w).SetFloatCellToNaNByColIndex(i, j) })
			}
			add(fmt.Sprintf("%s.AppendRows(%d)", tn, i), func(w *world) error { return tab(w).AppendRows(i) })
			add(fmt.Sprintf("%s.DeleteRow(%d)", tn, i), func(w *world) error { return tab(w).DeleteRow(i) })
			add(fmt.Sprintf("%s.SetRowFloatCellsToNaN(%d)", tn, i), func(w *world) error { return tab(w).SetRowFloatCellsToNaN(i) })
			add(fmt.Sprintf("%s.SetRowCellsToZeroValue(%d)", tn, i), func(w *world) error { return tab(w).SetRowCellsToZeroValue(i) })
		}
		add(tn+".AppendRow()", func(w *world) error { return tab(w).AppendRow() })
		add(tn+".DeleteRowsAll()", func(w *world) error { return tab(w).DeleteRowsAll() })
		add(tn+".Sort()", func(w *world) error { return tab(w).Sort() })
		add(tn+".SortSimple()", func(w *world) error { return tab(w).SortSimple() })
		add(tn+".Reverse()", func(w *world) error { return tab(w).Reverse() })
		add(tn+".OrderColsBySortKeys()", func(w *world) error { return tab(w).OrderColsBySortKeys() })
		add(tn+".SetAllFloatCellsToNaN()", func(w *world) error { return tab(w).SetAllFloatCellsToNaN() })
		add(tn+".SetStructShape(true)", func(w *world) error { return tab(w).SetStructShape(true) })
		for _, n := range []string{"T", "V", "", "1", "a b", "[T]"} {
			n := n
			add(fmt.Sprintf("%s.SetName(%q)", tn, n), func(w *world) error { return tab(w).SetName(n) })
			add(fmt.Sprintf("%s.RenameTable(%q)", tn, n), func(w *world) error { return tab(w).RenameTable(n) })
		}
		for si := 0; si < 8; si++ {
			si := si
			src := func(w *world) *g.Table {
				if si == 7 {
					return nil
				}
				return w.other[si]
			}
			sn := "nil"
			if si < 7 {
				sn = worldModels()[si].Name
				if si == 6 {
					sn = "(nil-table)"
				}
			}
			add(fmt.Sprintf("%s.AppendColsFromTable(%s)", tn, sn), func(w *world) error { return tab(w).AppendColsFromTable(src(w)) })
			add(fmt.Sprintf("%s.SetSortKeysFromTable(%s)", tn, sn), func(w *world) error { return tab(w).SetSortKeysFromTable(src(w)) })
			for f := -1; f <= 3; f++ {
				for l := -1; l <= 3; l++ {
					f, l := f, l
					add(fmt.Sprintf("%s.AppendRowsFromTable(%s, %d, %d)", tn, sn, f, l), func(w *world) error { return tab(w).AppendRowsFromTable(src(w), f, l) })
				}
			}
			for _, n := range []string{"nest", "a", "", "int", "b"} {
				n := n
				add(fmt.Sprintf("%s.Nest(%s, %q)", tn, sn, n), func(w *world) error { return tab(w).Nest(src(w), n) })
			}
		}
	}
	// the table set
	for _, n := range []string{"T", "U", "zz", ""} {
		n := n
		add(fmt.Sprintf("set.DeleteTable(%q)", n), func(w *world) error { return w.ts.DeleteTable(n) })
		for _, to := range []string{"T", "U", "V", "", "1", "a b", "[V]"} {
			to := to
			add(fmt.Sprintf("set.RenameTable(%q, %q)", n, to), func(w *world) error { return w.ts.RenameTable(n, to) })
		}
	}
	for i := -2; i <= 3; i++ {
		i := i
		add(fmt.Sprintf("set.DeleteTableByTableIndex(%d)", i), func(w *world) error { return w.ts.DeleteTableByTableIndex(i) })
	}
	for i := 0; i < 6; i++ {
		i := i
		add(fmt.Sprintf("set.AppendTable(#%d)", i), func(w *world) error { return w.ts.AppendTable(w.other[i]) })
	}
	add("set.AppendTable(new table named U)", func(w *world) error { return w.ts.AppendTable(build(&MTable{Name: "U"})) })
	add("set.AppendTable(nil)", func(w *world) error { return w.ts.AppendTable(nil) })
	return ops
}

var keyFuncs = []struct {
	name string
	f    func(t *g.Table, a ...string) error
}{
	{"SetSortKeys", (*g.Table).SetSortKeys}, {"SetSortKeysReverse", (*g.Table).SetSortKeysReverse}, {"Sort", (*g.Table).Sort},
	{"SortSimple", (*g.Table).SortSimple}, {"ReorderCols", (*g.Table).ReorderCols},
}

func runG02(c *Ctx) {
	ops := worldOps(c.Thorough)
	starts := worldStarts()
	var names []string
	for n := range starts {
		names = append(names, n)
	}
	sortStrings(names)
	one := func(t *T, w *world, op wop) (changed bool) {
		before := w.snap()
		t.Step(1)
		err, p := try(func() error { return op.F(w) })
		if p != "" {
			t.Failf("%s panics: %s", op.Desc, p)
			return true
		}
		if err == nil {
			t.Outcome("accepted " + strings.SplitN(op.Desc, "(", 2)[0])
			return true
		}
		t.Outcome("refused " + strings.SplitN(op.Desc, "(", 2)[0])
		if after := w.snap(); after != before {
			t.Failf("%s gives error %q but changed the data:\n   before %s\n   after  %s", op.Desc, firstLine(err.Error()), before, after)
		}
		t.State(before)
		return false
	}
	for _, n := range names {
		n := n
		for i := range ops {
			op := ops[i]
			c.Do(func() string { return "world " + n + "; " + op.Desc }, func(t *T) { one(t, makeWorld(starts[n]), op) })
			if c.Stopped() {
				return
			}
		}
	}
	// then from every distinct state one accepted call away (quick: the first such state per method and starting world "as built" only)
	seen := map[string]bool{}
	for _, n := range names {
		if !c.Thorough && n != "as built" {
			continue
		}
		n := n
		perMethod := map[string]int{}
		for i := range ops {
			a := ops[i]
			method := n + strings.SplitN(a.Desc, "(", 2)[0]
			if perMethod[method] >= c.pick(1, 3) {
				continue
			}
			w := makeWorld(starts[n])
			err, p := try(func() error { return a.F(w) })
			if err != nil || p != "" {
				continue
			}
			s := w.snap()
			if seen[s] {
				continue
			}
			seen[s] = true
			perMethod[method]++
			for j := range ops {
				b := ops[j]
				c.Do(func() string { return "world " + n + "; " + a.Desc + "; " + b.Desc }, func(t *T) {
					w := makeWorld(starts[n])
					if err, p := try(func() error { return a.F(w) }); err != nil || p != "" {
						t.Failf("%s: %v %s (it was accepted before)", a.Desc, err, p)
						return
					}
					one(t, w, b)
				})
			}
			if c.Stopped() {
				return
			}
		}
	}
}

func init() {
	register(&Checker{ID: "G02", Run: runG02,
		Rule:        "7 worlds (a set of two tables, 4 source tables, a nil-table; before and after sorting, deleting rows, deleting columns, clearing keys, swapping columns, struct shape) x every call of an alphabet of several thousand edits with valid and invalid names, types, indices, ranges, values, sort keys and source tables; and again from the distinct states one accepted call away (quick: first state per method, from the first world; thorough: up to 3 per method and world); after every call that returns an error all tables, sets, sort keys and parents read through the public API must be unchanged, and no call may panic",
		Assumptions: []string{"Merge and SortUnique are not edits: they return a new table (their inputs' sort keys are G13/G14's)"}})
}
