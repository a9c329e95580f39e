package main

// G30: what a table does depends on its contents only, not on how they came about.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G30",
		Rule: "Histories: (A) from 8 starting tables every sequence of up to 2 (thorough 3) edits of the reduced alphabet, and every edit (thorough: every two edits) of the full alphabet; (B) from tables of every column type, keyed, struct-shaped and nested, every sequence of up to 2 (thorough 3; in the quick check 1 for most types) of 33 passages: through text, JSON, YAML, GOB, a file, a copy, an extract, a reordering, another set, a cell of another table, edits undone again, refused edits, sorting. " +
			"(C) from tables of every column type, keyed, struct-shaped and nested, every edit (thorough: every two) of about 35, cells of every type and inside nested tables included, all 86 read-only operations being called before each. After each history the table is read and a twin with the same contents is built directly, column by column; every one of the 86 read-only operations over all arguments within and just outside the table, then one edit of each kind, must give the same answer, error or not, and the same table on both.",
		Assumptions: []string{"time stamps in generated code and memory addresses in errors are ignored", "no table is in two places of the same structure"},
		Run:         runG30,
	})
}

type passage struct {
	name string
	do   func(t *g.Table, scratch string) (*g.Table, error)
}

func passages() (ps []passage) {
	add := func(name string, f func(t *g.Table, scratch string) (*g.Table, error)) {
		ps = append(ps, passage{name, f})
	}
	in := func(name string, f func(t *g.Table) error) {
		add(name, func(t *g.Table, _ string) (*g.Table, error) { return t, f(t) })
	}
	refused := func(name string, f func(t *g.Table) error) {
		in(name, func(t *g.Table) error {
			if f(t) == nil {
				return fmt.Errorf("not refused")
			}
			return nil
		})
	}
	add("String parsed", func(t *g.Table, _ string) (*g.Table, error) { return g.NewTableFromString(t.String()) })
	add("StringUnpadded parsed", func(t *g.Table, _ string) (*g.Table, error) { return g.NewTableFromString(t.StringUnpadded()) })
	add("through JSON", func(t *g.Table, _ string) (*g.Table, error) {
		s, err := t.GetTableAsJSON()
		if err != nil {
			return nil, err
		}
		return g.NewTableFromJSON(s)
	})
	add("through a YAML set", func(t *g.Table, _ string) (*g.Table, error) {
		ts, err := g.NewTableSet("S")
		must(err)
		if err = ts.AppendTable(t); err != nil {
			return nil, err
		}
		s, err := ts.GetTableSetAsYAML()
		if err != nil {
			return nil, err
		}
		ts, err = g.NewTableSetFromYAML(s)
		if err != nil {
			return nil, err
		}
		return ts.GetTableByTableIndex(0)
	})
	add("through GOB", func(t *g.Table, _ string) (*g.Table, error) {
		b, err := t.GobEncode()
		if err != nil {
			return nil, err
		}
		return g.GobDecodeTable(b)
	})
	add("through a file", func(t *g.Table, scratch string) (*g.Table, error) {
		f := filepath.Join(scratch, "h.got")
		defer os.Remove(f)
		if err := t.WriteFile(f, 0600); err != nil {
			return nil, err
		}
		return g.NewTableFromFile(f)
	})
	add("Copy", func(t *g.Table, _ string) (*g.Table, error) { return t.Copy() })
	add("CopyDeep", func(t *g.Table, _ string) (*g.Table, error) { return t.CopyDeep() })
	add("CopyCols and AppendRowsFromTable", func(t *g.Table, _ string) (*g.Table, error) {
		n, err := t.CopyCols()
		if err != nil || t.RowCount() == 0 {
			return n, err
		}
		return n, n.AppendRowsFromTable(t, 0, t.RowCount()-1)
	})
	add("NewTableFromRows", func(t *g.Table, _ string) (*g.Table, error) {
		return t.NewTableFromRows("E", 0, t.RowCount()-1)
	})
	add("NewTableReorderCols backwards", func(t *g.Table, _ string) (*g.Table, error) {
		n, _, err := t.GetColInfoAsSlices()
		if err != nil {
			return nil, err
		}
		for i, j := 0, len(n)-1; i < j; i, j = i+1, j-1 {
			n[i], n[j] = n[j], n[i]
		}
		return t.NewTableReorderCols(n...)
	})
	add("in a set and its copy", func(t *g.Table, _ string) (*g.Table, error) {
		ts, err := g.NewTableSet("S")
		must(err)
		if err = ts.AppendTable(t); err != nil {
			return nil, err
		}
		ts, err = ts.Copy()
		if err != nil {
			return nil, err
		}
		return ts.GetTable(t.Name())
	})
	add("in a cell", func(t *g.Table, _ string) (*g.Table, error) {
		h, err := g.NewTable("Holder")
		must(err)
		must(h.AppendCol("t", "*Table"))
		must(h.AppendRow())
		if err = h.SetTable("t", 0, t); err != nil {
			return nil, err
		}
		return h.GetTable("t", 0)
	})
	add("SortUnique of a copy", func(t *g.Table, _ string) (*g.Table, error) {
		n, err := t.Copy()
		if err != nil {
			return nil, err
		}
		for _, c := range observeShallow(t).Cols {
			if isSortable(c.Type) {
				if err = n.SetSortKeys(c.Name); err != nil {
					return nil, err
				}
				n, err = n.SortUnique()
				break
			}
		}
		return n, err
	})
	add("Merge with a copy", func(t *g.Table, _ string) (*g.Table, error) {
		n, err := t.Copy()
		if err != nil {
			return nil, err
		}
		x, err := t.Copy()
		if err != nil {
			return nil, err
		}
		for _, c := range observeShallow(t).Cols {
			if isSortable(c.Type) {
				must(n.SetSortKeys(c.Name))
				must(x.SetSortKeys(c.Name))
				return n.Merge(x)
			}
		}
		return n, nil
	})
	add("GetSortKeysAsTable and back", func(t *g.Table, _ string) (*g.Table, error) {
		k, err := t.GetSortKeysAsTable()
		if err != nil {
			return nil, err
		}
		return t, t.SetSortKeysFromTable(k)
	})
	add("columns appended to a new table", func(t *g.Table, _ string) (*g.Table, error) {
		n, err := g.NewTable(t.Name())
		if err != nil {
			return nil, err
		}
		if err := n.AppendColsFromTable(t); err != nil {
			return nil, err
		}
		if t.RowCount() > 0 && t.ColCount() > 0 {
			err = n.AppendRowsFromTable(t, 0, t.RowCount()-1)
		}
		return n, err
	})
	in("AppendCol, DeleteCol", func(t *g.Table) error {
		if err := t.AppendCol("zz", "string"); err != nil {
			return err
		}
		return t.DeleteCol("zz")
	})
	in("AppendRow, DeleteRow", func(t *g.Table) error {
		if err := t.AppendRow(); err != nil {
			return err
		}
		return t.DeleteRow(t.RowCount() - 1)
	})
	in("AppendRows(5), DeleteRows", func(t *g.Table) error {
		n := t.RowCount()
		if err := t.AppendRows(5); err != nil {
			return err
		}
		return t.DeleteRows(n, n+4)
	})
	in("first column renamed and back", func(t *g.Table) error {
		n, err := t.ColName(0)
		if err != nil {
			return nil
		}
		if err := t.RenameCol(n, "other"); err != nil {
			return err
		}
		return t.RenameCol("other", n)
	})
	in("first column renamed", func(t *g.Table) error {
		n, err := t.ColName(0)
		if err != nil || n == "renamed" {
			return nil
		}
		return t.RenameCol(n, "renamed")
	})
	in("table renamed", func(t *g.Table) error { return t.SetName("Renamed") })
	in("first column deleted", func(t *g.Table) error {
		if t.ColCount() < 2 {
			return nil
		}
		return t.DeleteColByColIndex(0)
	})
	in("first row deleted", func(t *g.Table) error {
		if t.RowCount() == 0 {
			return nil
		}
		return t.DeleteRow(0)
	})
	in("columns shuffled", func(t *g.Table) error {
		if t.ColCount() < 2 {
			return nil
		}
		n, _, err := t.GetColInfoAsSlices()
		must(err)
		return t.ReorderCols(append(n[1:len(n):len(n)], n[0])...)
	})
	in("rows reversed", func(t *g.Table) error { return t.Reverse() })
	in("sorted by every key there is", func(t *g.Table) error {
		var ks []string
		for _, c := range observeShallow(t).Cols {
			if isSortable(c.Type) {
				ks = append(ks, c.Name)
			}
		}
		if len(ks) == 0 {
			return nil
		}
		if err := t.SetSortKeys(ks...); err != nil {
			return err
		}
		if err := t.SetSortKeysReverse(ks[len(ks)-1]); err != nil {
			return err
		}
		return t.Sort()
	})
	in("sort keys cleared", func(t *g.Table) error { return t.SetSortKeys() })
	in("shape toggled twice", func(t *g.Table) error {
		b, err := t.IsStructShape()
		if err != nil {
			return err
		}
		if err = t.SetStructShape(!b); err != nil {
			return err
		}
		return t.SetStructShape(b)
	})
	refused("refused AppendCol", func(t *g.Table) error { return t.AppendCol("x y", "int") })
	refused("refused DeleteRows", func(t *g.Table) error { return t.DeleteRows(0, t.RowCount()) })
	refused("refused SetSortKeys", func(t *g.Table) error { return t.SetSortKeys("nope") })
	return ps
}

// edits applied to both at the end.
var g30Edits = []struct {
	name string
	do   func(t *g.Table) error
}{
	{"AppendCol", func(t *g.Table) error { return t.AppendCol("added", "float32") }},
	{"AppendRow", func(t *g.Table) error { return t.AppendRow() }},
	{"DeleteRow", func(t *g.Table) error { return t.DeleteRow(0) }},
	{"DeleteCol", func(t *g.Table) error { return t.DeleteColByColIndex(0) }},
	{"Sort", func(t *g.Table) error { return t.Sort() }},
	{"SwapColsByColIndex", func(t *g.Table) error { return t.SwapColsByColIndex(0, t.ColCount()-1) }},
	{"RenameCol", func(t *g.Table) error { return t.RenameCol("a", "b") }},
	{"SetVal", func(t *g.Table) error { return t.SetVal("a", 0, 5) }},
	{"SetSortKeysReverse", func(t *g.Table) error { return t.SetSortKeysReverse("a") }},
	{"SetName", func(t *g.Table) error { return t.SetName("") }},
	{"AppendRowsFromTable itself", func(t *g.Table) error { return t.AppendRowsFromTable(t, 0, t.RowCount()-1) }},
	{"Reverse", func(t *g.Table) error { return t.Reverse() }},
}

func runG30(c *Ctx) {
	scratch, done := c.Scratch()
	defer done()
	ops := roOps()
	run := func(f func() string) (r string) {
		defer func() {
			if e := recover(); e != nil {
				r = fmt.Sprintf("panic: %v", e)
			}
		}()
		return strings.ReplaceAll(f(), "null", `""`) // nil and empty bytes are the same contents
	}
	world := func(t *g.Table, m *MTable) *roWorld {
		ts, err := g.NewTableSet("World")
		must(err)
		if !m.Nil {
			must(ts.AppendTable(t))
		}
		must(ts.AppendTable(build(&MTable{Name: "Neighbour_of_it", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}}})))
		return &roWorld{ts: ts, t: t, other: build(m), scratch: scratch}
	}
	type answers struct{ ro, ed []string }
	memo := map[string]answers{}
	edit := func(t *g.Table, i int) string {
		return run(func() string {
			err := g30Edits[i].do(t)
			return roStr(err) + observe(t).Full()
		})
	}
	check := func(t *T, mk func() *g.Table) {
		a := mk()
		m := observe(a)
		key := m.Full()
		t.State(key)
		want, ok := memo[key]
		if !ok {
			for _, o := range ops {
				w := world(build(m), m)
				want.ro = append(want.ro, run(func() string { return o.do(w) }))
			}
			for i := range g30Edits {
				want.ed = append(want.ed, edit(build(m), i))
			}
			memo[key] = want
		}
		w := world(a, m)
		for i, o := range ops {
			t.Step(1)
			if r := run(func() string { return o.do(w) }); r != want.ro[i] {
				t.Failf("%s gives\n%s\n; on a table built directly with the same contents %s it gives\n%s", o.name, clip(r, 600), clip(key, 400), clip(want.ro[i], 600))
				return
			}
		}
		for i, e := range g30Edits {
			t.Step(1)
			if r := edit(mk(), i); r != want.ed[i] {
				t.Failf("then %s gives\n%s\n; on a table built directly with the same contents %s it gives\n%s", e.name, clip(r, 600), clip(key, 400), clip(want.ed[i], 600))
				return
			}
		}
		t.Outcome("same")
	}

	// (A) edits
	for sti, st := range editStarts() {
		st := st
		deep := c.Thorough && sti == 0
		edits := func(depth int, small bool) {
			var rec func(m *MTable, path []Op)
			rec = func(m *MTable, path []Op) {
				p := path
				if len(p) > 0 || small {
					c.Do(func() string { return pathDesc(st, p) }, func(t *T) {
						check(t, func() *g.Table {
							tab := st.Make()
							for _, o := range p {
								must(o.Impl(tab))
							}
							return tab
						})
					})
				}
				if len(p) == depth || c.Stopped() {
					return
				}
				for _, op := range editOps(m, 3, 3, small) {
					if nm := op.Model(m); nm != nil {
						rec(nm, append(append([]Op{}, p...), op))
					}
				}
			}
			rec(st.Model, nil)
		}
		if deep {
			edits(3, true)
		} else {
			edits(2, true)
		}
		edits(c.pick(1, 2), false)
	}

	// (C) reads in between: everything is read, then an edit, and so on
	readAll := func(tab *g.Table, m *MTable) {
		w := world(tab, m)
		for _, o := range ops {
			run(func() string { return o.do(w) })
		}
	}
	for _, m := range histSources() {
		m := m
		eds := tableEdits(m, true)
		for l := 1; l <= c.pick(1, 2); l++ {
			seqs(len(eds), l, func(s []int) bool {
				c.Do(func() string {
					x := m.Full() + "; all read"
					for _, e := range s {
						x += "; " + eds[e].desc + "; all read"
					}
					return x
				}, func(t *T) {
					check(t, func() *g.Table {
						tab, other := build(m), build(m)
						for _, e := range s {
							readAll(tab, m)
							eds[e].do(tab, other)
						}
						return tab
					})
				})
				return !c.Stopped()
			})
		}
	}

	// (B) passages
	var starts []*MTable
	for _, typ := range allTypes {
		d := domain(typ)
		m := &MTable{Name: "T", Cols: []MCol{{"v", typ}, {"k", "int"}}}
		for i, v := range d {
			m.Rows = append(m.Rows, []interface{}{v, i / 2 % 3})
		}
		starts = append(starts, m)
		if isSortable(typ) {
			k := m.Clone()
			k.Keys = []MKey{{"k", true}, {"v", false}}
			starts = append(starts, k)
		}
		one := m.Clone()
		one.Rows = one.Rows[len(d)-1:]
		one.Struct = true
		starts = append(starts, one)
		none := m.Clone()
		none.Rows = nil
		starts = append(starts, none)
	}
	starts = append(starts, &MTable{Name: "T"}, &MTable{Name: "T", Cols: []MCol{{"t", "*Table"}}, Rows: [][]interface{}{
		{&MTable{Name: "N1", Cols: []MCol{{"u", "*Table"}, {"i", "int"}}, Rows: [][]interface{}{{&MTable{Name: "N2", Cols: []MCol{{"s", "string"}}, Rows: [][]interface{}{{"x"}, {""}}}, 7}}}},
		{&MTable{Nil: true}}, {&MTable{Name: "N3"}}}})
	ps := passages()
	for _, m := range starts {
		m := m
		depth := c.pick(1, 2)
		if c.Thorough && len(m.Cols) < 2 {
			depth = 3
		} else if !c.Thorough && (len(m.Cols) < 2 || m.Cols[0].Type == "string" || m.Cols[0].Type == "[]byte" || m.Cols[0].Type == "time.Time" && len(m.Keys) > 0 || m.Cols[0].Type == "float64") {
			depth = 2
		}

		var rec func(path []int)
		rec = func(path []int) {
			p := path
			if len(p) > 0 {
				c.Do(func() string {
					var s []string
					for _, i := range p {
						s = append(s, ps[i].name)
					}
					return "start: " + m.Full() + "; " + strings.Join(s, "; ")
				}, func(t *T) {
					why := ""
					mk := func() *g.Table {
						tab := build(m)
						for _, i := range p {
							n, err := ps[i].do(tab, scratch)
							if err != nil {
								why = ps[i].name
								return nil
							}
							tab = n
						}
						return tab
					}
					var tab *g.Table
					if r := run(func() string { tab = mk(); return "" }); r != "" {
						t.Failf("%s", r)
						return
					}
					if tab == nil {
						t.Outcome("refused on the way: " + why)
						return
					}
					check(t, mk)
				})
			}
			if len(p) == depth || c.Stopped() {
				return
			}
			for i := range ps {
				rec(append(append([]int{}, p...), i))
			}
		}
		rec(nil)
	}
}
