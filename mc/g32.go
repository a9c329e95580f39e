package main

// G32 separate tables: what was made separately has its own contents.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G32",
		Rule: "Inputs: sets of tables of every type, of no rows or columns, with equal columns, equal bytes and equal, absent and deep nested tables, keys and struct shape, and byte cells of 300 and 1025 bytes. Makers: every way to make tables from text, files, JSON, YAML and gob, from metadata, by appending and zeroing, by copying, taking rows and columns, sorting, merging and nesting. Every pair of makers (thorough: on every input; otherwise each maker with itself on every input) is run, " +
			"one of 4 preparations is made on all the tables, then every edit of every table reachable in the result (nested tables at any depth included), every in-place change of one byte slice, every change to a set, and every change to the values handed in or out: no other table, cell or set changes, and making the same again gives what it gave first.",
		Assumptions: []string{"copies that are documented to be shallow share their nested tables: those makers are run on tables without nested ones"},
		Run:         runG32,
	})
}

// sepWorld is what a maker made, with the tables it made it from.
type sepWorld struct {
	tables []*g.Table
	sets   []*g.TableSet
	extra  []sepExtra
	kept   []func() string // values handed out that are to stay as they were
}

// sepExtra changes a value handed in or out.
type sepExtra struct {
	desc string
	do   func()
}

type sepMaker struct {
	desc string
	do   func(s *MSet, dir string) *sepWorld // nil: not applicable
}

type sepSlot struct {
	path string
	t    *g.Table
}

func (w *sepWorld) slots() (s []sepSlot) {
	var walk func(path string, t *g.Table, depth int)
	walk = func(path string, t *g.Table, depth int) {
		if t == nil || depth > 8 {
			return
		}
		s = append(s, sepSlot{path, t})
		for c := 0; c < t.ColCount(); c++ {
			if is, _ := t.IsTableColByColIndex(c); !is {
				continue
			}
			for r := 0; r < t.RowCount(); r++ {
				n, err := t.GetTableByColIndex(c, r)
				must(err)
				walk(fmt.Sprintf("%s[%d,%d]", path, c, r), n, depth+1)
			}
		}
	}
	for i, t := range w.tables {
		walk(fmt.Sprintf("table %d", i), t, 0)
	}
	for i, ts := range w.sets {
		for k := 0; k < ts.TableCount(); k++ {
			t, err := ts.GetTableByTableIndex(k)
			must(err)
			walk(fmt.Sprintf("set %d table %d", i, k), t, 0)
		}
	}
	return
}

// views is how each of the slots and sets looks now.
func (w *sepWorld) views(slots []sepSlot) (v []string) {
	id := map[*g.Table]int{}
	for i, s := range slots {
		if _, ok := id[s.t]; !ok {
			id[s.t] = i
		}
	}
	for _, s := range slots {
		m := observeWith(s.t, func(v interface{}) interface{} {
			if n, ok := v.(*g.Table); ok {
				if i, ok := id[n]; ok {
					return &MTable{Name: fmt.Sprintf("slot%d", i)}
				}
				return &MTable{Name: "foreign"}
			}
			return modelVal(v, nil)
		})
		v = append(v, m.Full())
	}
	for _, ts := range w.sets {
		b := fmt.Sprintf("set %q file %q", ts.Name(), ts.FileName())
		for k := 0; k < ts.TableCount(); k++ {
			t, err := ts.GetTableByTableIndex(k)
			must(err)
			if i, ok := id[t]; ok {
				b += fmt.Sprintf(" slot%d", i)
			} else {
				b += " foreign"
			}
		}
		v = append(v, b)
	}
	return
}

// all is the views with the values handed out that are to stay as they were.
func (w *sepWorld) all(slots []sepSlot) []string {
	v := w.views(slots)
	for _, f := range w.kept {
		v = append(v, f())
	}
	return v
}

func sepOne(ts *g.TableSet, err error) *sepWorld {
	if err != nil || ts == nil {
		return nil
	}
	return &sepWorld{sets: []*g.TableSet{ts}}
}

func sepTable(t *g.Table, err error) *sepWorld {
	if err != nil || t == nil {
		return nil
	}
	return &sepWorld{tables: []*g.Table{t}}
}

func sepHasNested(s *MSet) bool {
	for _, m := range s.Tables {
		if hasNested(m) {
			return true
		}
	}
	return false
}

func flat(f func(s *MSet, dir string) *sepWorld) func(s *MSet, dir string) *sepWorld {
	return func(s *MSet, dir string) *sepWorld {
		if sepHasNested(s) {
			return nil
		}
		return f(s, dir)
	}
}

// fromTable makes one table from the first of the set.
func fromTable(f func(t *g.Table) (*g.Table, error)) func(s *MSet, dir string) *sepWorld {
	return func(s *MSet, dir string) *sepWorld {
		if len(s.Tables) == 0 {
			return nil
		}
		t := build(s.Tables[0])
		n, err := f(t)
		if err != nil || n == nil {
			return nil
		}
		return &sepWorld{tables: []*g.Table{t, n}}
	}
}

// inTable changes the first table of the set.
func inTable(f func(t *g.Table) error) func(s *MSet, dir string) *sepWorld {
	return fromTable(func(t *g.Table) (*g.Table, error) {
		n, err := g.NewTable("Nothing")
		must(err)
		return n, f(t)
	})
}

func sepMakers() (ms []sepMaker) {
	add := func(d string, f func(s *MSet, dir string) *sepWorld) { ms = append(ms, sepMaker{d, f}) }
	padded := func(s *MSet) string { return buildSet(s).StringPadded() }
	add("NewTableSetFromString(padded)", func(s *MSet, _ string) *sepWorld { return sepOne(g.NewTableSetFromString(padded(s))) })
	add("NewTableSetFromString(unpadded)", func(s *MSet, _ string) *sepWorld {
		return sepOne(g.NewTableSetFromString(buildSet(s).StringUnpadded()))
	})
	last := func(s *MSet) (i int, ok bool) { return len(s.Tables) - 1, len(s.Tables) > 0 }
	add("NewTableFromString", func(s *MSet, _ string) *sepWorld { return sepTable(g.NewTableFromString(padded(s))) })
	add("NewTableFromStringMustMake", func(s *MSet, _ string) *sepWorld {
		x := padded(s)
		if _, err := g.NewTableFromString(x); err != nil {
			return nil
		}
		return sepTable(g.NewTableFromStringMustMake(x), nil)
	})
	add("NewTableFromStringByTableName", func(s *MSet, _ string) *sepWorld {
		if i, ok := last(s); ok {
			return sepTable(g.NewTableFromStringByTableName(padded(s), s.Tables[i].Name))
		}
		return nil
	})
	add("NewTableFromStringByTableIndex", func(s *MSet, _ string) *sepWorld {
		if i, ok := last(s); ok {
			return sepTable(g.NewTableFromStringByTableIndex(padded(s), i))
		}
		return nil
	})
	file := func(s *MSet, dir string) string {
		f := filepath.Join(dir, "t.got")
		must(os.WriteFile(f, []byte(padded(s)), 0o600))
		return f
	}
	add("NewTableSetFromFile", func(s *MSet, dir string) *sepWorld { return sepOne(g.NewTableSetFromFile(file(s, dir))) })
	add("NewTableFromFile", func(s *MSet, dir string) *sepWorld { return sepTable(g.NewTableFromFile(file(s, dir))) })
	add("NewTableFromFileByTableName", func(s *MSet, dir string) *sepWorld {
		if i, ok := last(s); ok {
			return sepTable(g.NewTableFromFileByTableName(file(s, dir), s.Tables[i].Name))
		}
		return nil
	})
	json := func(s *MSet) string { x, err := buildSet(s).GetTableSetAsJSON(); ign(err); return x }
	add("NewTableSetFromJSON", func(s *MSet, _ string) *sepWorld { return sepOne(g.NewTableSetFromJSON(json(s))) })
	add("NewTableFromJSON", func(s *MSet, _ string) *sepWorld {
		if i, ok := last(s); ok {
			x, err := build(s.Tables[i]).GetTableAsJSON()
			if err != nil {
				return nil
			}
			return sepTable(g.NewTableFromJSON(x))
		}
		return nil
	})
	add("NewTableFromJSONByTableName", func(s *MSet, _ string) *sepWorld {
		if i, ok := last(s); ok {
			return sepTable(g.NewTableFromJSONByTableName(json(s), s.Tables[i].Name))
		}
		return nil
	})
	add("NewTableSetFromYAML", func(s *MSet, _ string) *sepWorld {
		x, err := buildSet(s).GetTableSetAsYAML()
		if err != nil {
			return nil
		}
		return sepOne(g.NewTableSetFromYAML(x))
	})
	add("gob of a table", flat(func(s *MSet, _ string) *sepWorld {
		i, ok := last(s)
		if !ok {
			return nil
		}
		src := build(s.Tables[i])
		b, err := src.GobEncode()
		if err != nil {
			return nil
		}
		b2, err := src.GobEncode()
		must(err)
		t, err := g.NewTableFromGob(b)
		t2, err2 := g.GobDecodeTable(b)
		if err != nil || err2 != nil {
			return nil
		}
		return &sepWorld{tables: []*g.Table{src, t, t2}, kept: []func() string{func() string { return string(b2) }}, extra: []sepExtra{
			{"overwrite the encoded bytes", func() {
				for i := range b {
					b[i] = 'Z'
				}
				_ = append(b, "ZZZZ"...)
			}}}}
	}))
	add("gob of a set", flat(func(s *MSet, _ string) *sepWorld {
		src := buildSet(s)
		b, err := src.GobEncode()
		if err != nil {
			return nil
		}
		b2, err := src.GobEncode()
		must(err)
		in := func() (x []bytes.Buffer) {
			for i := range b {
				x = append(x, *bytes.NewBuffer(b[i].Bytes()))
			}
			return
		}
		same := in()
		t, err := g.NewTableSetFromGob(same)
		if err != nil {
			return nil
		}
		t2, err2 := g.GobDecodeTableSet(same)
		must(err2)
		return &sepWorld{sets: []*g.TableSet{src, t, t2}, kept: []func() string{func() string {
			x := ""
			for i := range b2 {
				x += b2[i].String() + "|"
			}
			return x
		}}, extra: []sepExtra{{"overwrite the encoded bytes", func() {
			for i := range b {
				for k := range b[i].Bytes() {
					b[i].Bytes()[k] = 'Z'
				}
				b[i].WriteString("ZZZZ")
			}
		}}}}
	}))
	add("built cell by cell", func(s *MSet, _ string) *sepWorld { return sepOne(buildSet(s), nil) })
	add("NewTableFromMetadata", func(s *MSet, _ string) *sepWorld {
		i, ok := last(s)
		if !ok {
			return nil
		}
		var ns, ts []string
		for _, c := range s.Tables[i].Cols {
			ns, ts = append(ns, c.Name), append(ts, c.Type)
		}
		ns, ts = append(make([]string, 0, len(ns)+4), ns...), append(make([]string, 0, len(ts)+4), ts...)
		a, err := g.NewTableFromMetadata("Meta1", ns, ts)
		b, err2 := g.NewTableFromMetadata("Meta2", ns, ts)
		if err != nil || err2 != nil {
			return nil
		}
		must(a.AppendRows(len(s.Tables[i].Rows)))
		must(b.AppendRows(2))
		show := func() string { return fmt.Sprintf("given %q %q", ns[:cap(ns)], ts[:cap(ts)]) }
		return &sepWorld{tables: []*g.Table{a, b}, kept: []func() string{show}}
	})
	add("NewTableFromMetadata with slices changed later", func(s *MSet, _ string) *sepWorld {
		i, ok := last(s)
		if !ok {
			return nil
		}
		var ns, ts []string
		for _, c := range s.Tables[i].Cols {
			ns, ts = append(ns, c.Name), append(ts, c.Type)
		}
		a, err := g.NewTableFromMetadata("Meta1", ns, ts)
		if err != nil {
			return nil
		}
		must(a.AppendRows(2))
		return &sepWorld{tables: []*g.Table{a}, extra: []sepExtra{{"change the slices given", func() {
			for i := range ns {
				ns[i], ts[i] = fmt.Sprintf("q%d", i), "rune"
			}
			_, _ = append(ns, "w"), append(ts, "w")
		}}}}
	})
	add("values handed out", func(s *MSet, _ string) *sepWorld {
		w := sepOne(buildSet(s), nil)
		var slices [][]string
		for _, sl := range w.slots() {
			ns, ts, err := sl.t.GetColInfoAsSlices()
			if err != nil {
				continue // a nil table
			}
			slices = append(slices, ns, ts)
			for _, n := range ns {
				if v, err := sl.t.GetColValsAsStrings(n); err == nil {
					slices = append(slices, v)
				}
			}
			for _, f := range []func() (*g.Table, error){sl.t.GetColInfoAsTable, sl.t.GetSortKeysAsTable} {
				if x, err := f(); err == nil && x != nil {
					w.tables = append(w.tables, x)
				}
			}
		}
		w.extra = append(w.extra, sepExtra{"change the slices handed out", func() {
			for _, x := range slices {
				for i := range x {
					x[i] = fmt.Sprintf("q%d", i)
				}
				_ = append(x, "w")
			}
		}})
		if mp, err := w.sets[0].GetTableSetAsMap(); err == nil {
			w.extra = append(w.extra, sepExtra{"change the map handed out", func() { sepScribble(mp) }})
		}
		return w
	})
	add("made beside each other in one set", func(s *MSet, _ string) *sepWorld {
		a, b := buildSet(s), buildSet(s)
		c, err := g.NewTableSet("Both")
		must(err)
		ns := 0
		for _, x := range []*g.TableSet{a, b} {
			for k := 0; k < x.TableCount(); k++ {
				t, err := x.GetTableByTableIndex(k)
				must(err)
				if x == b {
					must(t.SetName(fmt.Sprintf("Other%d", k)))
				}
				must(c.AppendTable(t))
				ns++
			}
		}
		return &sepWorld{sets: []*g.TableSet{c}}
	})
	add("CopyDeep", fromTable(func(t *g.Table) (*g.Table, error) { return t.CopyDeep() }))
	add("CopyDeep twice", func(s *MSet, _ string) *sepWorld {
		if len(s.Tables) == 0 {
			return nil
		}
		t := build(s.Tables[0])
		a, err := t.CopyDeep()
		must(err)
		b, err := a.CopyDeep()
		must(err)
		c, err := t.CopyDeep()
		must(err)
		return &sepWorld{tables: []*g.Table{t, a, b, c}}
	})
	add("Copy", flat(fromTable(func(t *g.Table) (*g.Table, error) { return t.Copy() })))
	add("CopyCols and AppendRows", fromTable(func(t *g.Table) (*g.Table, error) {
		c, err := t.CopyCols()
		if err != nil {
			return nil, err
		}
		return c, c.AppendRows(2)
	}))
	add("TableSet.Copy", flat(func(s *MSet, _ string) *sepWorld {
		a := buildSet(s)
		a.SetFileName("f.got")
		b, err := a.Copy()
		must(err)
		c, err := b.Copy()
		must(err)
		return &sepWorld{sets: []*g.TableSet{a, b, c}}
	}))
	add("NewTableFromRows", flat(fromTable(func(t *g.Table) (*g.Table, error) { return t.NewTableFromRows("Rows", 0, t.RowCount()-1) })))
	add("NewTableReorderColsByColIndex", flat(fromTable(func(t *g.Table) (*g.Table, error) {
		var p []int
		for i := t.ColCount() - 1; i >= 0; i-- {
			p = append(p, i)
		}
		return t.NewTableReorderColsByColIndex(p...)
	})))
	add("NewTableReorderCols in the same order", flat(fromTable(func(t *g.Table) (*g.Table, error) {
		ns, _, err := t.GetColInfoAsSlices()
		must(err)
		return t.NewTableReorderCols(ns...)
	})))
	add("AppendColsFromTable", fromTable(func(t *g.Table) (*g.Table, error) {
		n, err := g.NewTable("Into")
		must(err)
		if err = n.AppendColsFromTable(t); err != nil {
			return nil, err
		}
		return n, n.AppendRows(2)
	}))
	add("AppendColsFromTable and AppendRowsFromTable", flat(fromTable(func(t *g.Table) (*g.Table, error) {
		n, err := g.NewTable("Into")
		must(err)
		if err = n.AppendColsFromTable(t); err != nil {
			return nil, err
		}
		return n, n.AppendRowsFromTable(t, 0, t.RowCount()-1)
	})))
	add("AppendRowsFromTable from itself", flat(inTable(func(t *g.Table) error { return t.AppendRowsFromTable(t, 0, t.RowCount()-1) })))
	keys := func(t *g.Table) (k []string) {
		ns, ts, err := t.GetColInfoAsSlices()
		must(err)
		for i := range ns {
			if isSortable(ts[i]) {
				k = append(k, ns[i])
			}
		}
		return
	}
	add("SetSortKeysFromTable", fromTable(func(t *g.Table) (*g.Table, error) {
		if err := t.SetSortKeys(keys(t)...); err != nil {
			return nil, err
		}
		n, err := t.CopyDeep()
		must(err)
		return n, n.SetSortKeysFromTable(t)
	}))
	add("SetSortKeys with a slice changed later", func(s *MSet, _ string) *sepWorld {
		if len(s.Tables) == 0 {
			return nil
		}
		t := build(s.Tables[0])
		k := append(make([]string, 0, 9), keys(t)...)
		if len(k) == 0 || t.SetSortKeys(k...) != nil || t.SetSortKeysReverse(k...) != nil {
			return nil
		}
		return &sepWorld{tables: []*g.Table{t}, extra: []sepExtra{{"change the slice of keys given", func() {
			for i := range k {
				k[i] = "q"
			}
		}}}}
	})
	add("NewTableFromRowsBySearchRange", flat(fromTable(func(t *g.Table) (*g.Table, error) {
		k := keys(t)
		if len(k) == 0 || t.RowCount() == 0 {
			return nil, nil
		}
		must(t.SetSortKeys(k[0]))
		must(t.Sort())
		v, err := t.GetVal(k[0], 0)
		must(err)
		return t.NewTableFromRowsBySearchRange("Found", v)
	})))
	add("SortUnique", flat(fromTable(func(t *g.Table) (*g.Table, error) { return t.SortUnique(keys(t)...) })))
	add("Merge", flat(func(s *MSet, _ string) *sepWorld {
		if len(s.Tables) == 0 {
			return nil
		}
		a, b := build(s.Tables[0]), build(s.Tables[0])
		k := keys(a)
		if len(k) == 0 {
			return nil
		}
		must(a.SetSortKeys(k...))
		must(b.SetSortKeys(k...))
		if b.RowCount() > 0 {
			must(b.DeleteRow(0))
		}
		c, err := a.Merge(b)
		if err != nil {
			return nil
		}
		return &sepWorld{tables: []*g.Table{a, b, c}}
	}))
	add("set cells to zero values", inTable(func(t *g.Table) error {
		ns, _, err := t.GetColInfoAsSlices()
		must(err)
		must(t.AppendRows(2))
		for i, n := range ns {
			switch i % 2 {
			case 0:
				must(t.SetColCellsToZeroValue(n))
			default:
				for r := 0; r < t.RowCount(); r++ {
					must(t.SetCellToZeroValue(n, r))
				}
			}
		}
		return nil
	}))
	add("set rows to zero values", inTable(func(t *g.Table) error {
		must(t.AppendRows(2))
		for r := 0; r < t.RowCount(); r++ {
			must(t.SetRowCellsToZeroValue(r))
		}
		return nil
	}))
	add("append columns of every type to its rows", inTable(func(t *g.Table) error {
		if s, _ := t.IsStructShape(); s {
			return fmt.Errorf("one row only")
		}
		must(t.AppendRow())
		must(t.AppendRow())
		for i, typ := range []string{"[]byte", "*Table", "*Table", "[]uint8", "string"} {
			must(t.AppendCol(fmt.Sprintf("fresh%d", i), typ))
		}
		return t.AppendRow()
	}))
	add("Nest", flat(func(s *MSet, _ string) *sepWorld {
		if len(s.Tables) == 0 || len(s.Tables[0].Rows) == 0 {
			return nil
		}
		a, b := build(s.Tables[0]), build(s.Tables[0])
		k := keys(a)
		if len(k) == 0 {
			return nil
		}
		must(a.SetSortKeys(k...))
		must(b.SetSortKeys(k...))
		if a.Nest(b, "nested") != nil {
			return nil
		}
		return &sepWorld{tables: []*g.Table{a, b}}
	}))
	return
}

// sepScribble changes maps and slices of a map handed out, leaving the bytes of cells alone.
func sepScribble(v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			sepScribble(e)
			x[k] = "scribbled"
		}
		x["more"] = 1
	case []interface{}:
		for i, e := range x {
			sepScribble(e)
			x[i] = "scribbled"
		}
	case []map[string]interface{}:
		for i, e := range x {
			sepScribble(e)
			x[i] = nil
		}
	case [][]map[string]interface{}:
		for i, e := range x {
			for _, f := range e {
				sepScribble(f)
			}
			x[i] = nil
		}
	}
}

func sepInputs(thorough bool) (ss []*MSet) {
	set := func(ts ...*MTable) {
		s := &MSet{Name: "Set"}
		for i, t := range ts {
			t = t.Clone()
			t.Name = fmt.Sprintf("T%d", i)
			s.Tables = append(s.Tables, t)
		}
		ss = append(ss, s)
	}
	nils := func(rows int, cols ...string) *MTable {
		m := &MTable{}
		for i, t := range cols {
			m.Cols = append(m.Cols, MCol{fmt.Sprintf("c%d", i), t})
		}
		for r := 0; r < rows; r++ {
			var row []interface{}
			for _, t := range cols {
				row = append(row, zeroOf(t))
			}
			m.Rows = append(m.Rows, row)
		}
		return m
	}
	both := &MTable{Cols: []MCol{{"a", "int"}, {"b", "string"}, {"c", "[]byte"}, {"d", "float64"}}, Rows: [][]interface{}{{1, "x", []byte{1, 2}, 1.5}, {2, "x", []byte{1, 2}, 1.5}}}
	inner := table1("In", "v", "[]byte", []byte{1, 2}, []byte{1, 2})
	set()
	set(nils(0))
	set(nils(0), nils(0))
	set(nils(0, "int", "*Table"), nils(0, "int", "*Table"))
	set(both, both)
	set(both, both, nils(2, "int", "string", "[]byte", "float64"))
	set(nils(3, "*Table", "*Table"))
	set(nils(1, "*Table"), nils(1, "*Table"))
	set(nils(3, "[]byte", "[]uint8", "string"), nils(2, "[]byte", "[]uint8", "string"))
	set(&MTable{Cols: []MCol{{"t", "*Table"}, {"u", "*Table"}}, Rows: [][]interface{}{{inner, inner}, {inner, inner}}})
	set(&MTable{Cols: []MCol{{"t", "*Table"}}, Rows: [][]interface{}{{inner}}}, &MTable{Cols: []MCol{{"t", "*Table"}}, Rows: [][]interface{}{{inner}}})
	set(&MTable{Cols: []MCol{{"t", "*Table"}, {"n", "int"}}, Rows: [][]interface{}{
		{nils(2, "*Table", "[]byte").named("A"), 1}, {nils(2, "*Table", "[]byte").named("A"), 1}, {nils(0, "*Table").named("B"), 2}, {nils(0).named("B"), 3}}})
	set(&MTable{Struct: true, Cols: []MCol{{"t", "*Table"}, {"y", "[]byte"}, {"n", "int"}}, Rows: [][]interface{}{{inner, []byte{1, 2}, 1}}},
		&MTable{Struct: true, Cols: []MCol{{"t", "*Table"}, {"y", "[]byte"}, {"n", "int"}}, Rows: [][]interface{}{{inner, []byte{1, 2}, 1}}})
	set(&MTable{Struct: true, Cols: []MCol{{"y", "[]byte"}, {"n", "int"}}, Rows: [][]interface{}{{[]byte{1, 2}, 1}}},
		&MTable{Struct: true, Cols: []MCol{{"y", "[]byte"}, {"n", "int"}}, Rows: [][]interface{}{{[]byte{1, 2}, 1}}})
	for _, n := range []int{300, 1025} {
		b := make([]byte, n)
		set(&MTable{Cols: []MCol{{"b", "[]byte"}}, Rows: [][]interface{}{{b}, {b}}}, &MTable{Cols: []MCol{{"b", "[]byte"}}, Rows: [][]interface{}{{b}}})
	}
	for _, m := range copySources() {
		if thorough {
			set(m)
		}
		set(m, m)
	}
	return
}

func (m *MTable) named(n string) *MTable { m.Name = n; return m }

var sepPreps = []struct {
	desc string
	do   func(t *g.Table)
}{
	{"nothing", func(t *g.Table) {}},
	{"AppendRow()", func(t *g.Table) { ign(t.AppendRow()) }},
	{"AppendCol()", func(t *g.Table) { ign(t.AppendCol("prep", "[]byte")) }},
	{"DeleteRow(0)", func(t *g.Table) {
		if t.RowCount() > 0 {
			ign(t.DeleteRow(0))
		}
	}},
}

var sepSetEdits = []struct {
	desc string
	do   func(ts *g.TableSet)
}{
	{"SetName", func(ts *g.TableSet) { ign(ts.SetName("Zed")) }},
	{"SetFileName", func(ts *g.TableSet) { ts.SetFileName("other.got") }},
	{"AppendTable", func(ts *g.TableSet) { x, _ := g.NewTable("Extra"); ign(ts.AppendTable(x)) }},
	{"DeleteTableByTableIndex(0)", func(ts *g.TableSet) { ign(ts.DeleteTableByTableIndex(0)) }},
}

type sepEdit struct {
	desc string
	slot int // index of the view that may change; -1: none
	do   func()
}

// edits lists every single edit of a world.
func (w *sepWorld) edits(slots []sepSlot) (es []sepEdit) {
	for i, s := range slots {
		i, s := i, s
		m := observeWith(s.t, func(v interface{}) interface{} {
			if _, ok := v.(*g.Table); ok {
				return &MTable{Nil: true}
			}
			return modelVal(v, nil)
		})
		for _, e := range tableEdits(m, false) {
			e := e
			es = append(es, sepEdit{s.path + ": " + e.desc, i, func() { e.do(s.t, build(m)) }})
		}
		if m.Struct || len(m.Rows) < 8 {
			es = append(es, sepEdit{s.path + ": AppendRows(20) and AppendCol of 20", i, func() {
				ign(s.t.AppendRows(20))
				for k := 0; k < 20; k++ {
					ign(s.t.AppendCol(fmt.Sprintf("many%d", k), "int"))
				}
			}})
		}
		for c := range m.Cols {
			for r := range m.Rows {
				b, ok := m.Rows[r][c].([]byte)
				if !ok {
					continue
				}
				c, r := c, r
				es = append(es, sepEdit{fmt.Sprintf("%s: change bytes of cell %d,%d in place", s.path, c, r), i, func() {
					v, err := s.t.GetValByColIndex(c, r)
					must(err)
					x := v.([]byte)
					for k := range x {
						x[k] ^= 0x5a
					}
					_ = append(x, 0x77, 0x78)
					// no other cell of the table may change
					now := observeWith(s.t, func(v interface{}) interface{} {
						if _, ok := v.(*g.Table); ok {
							return &MTable{Nil: true}
						}
						return modelVal(v, nil)
					})
					if len(b) > 0 && val(now.Rows[r][c]) == val(b) {
						panic("bytes handed out are not those of the cell")
					}
					now.Rows[r][c] = b
					if now.Full() != m.Full() {
						panic(fmt.Sprintf("other cells changed from %s to %s", m.Full(), now.Full()))
					}
				}})
			}
		}
	}
	for i, ts := range w.sets {
		ts := ts
		for _, e := range sepSetEdits {
			e := e
			es = append(es, sepEdit{fmt.Sprintf("set %d: %s", i, e.desc), len(slots) + i, func() { e.do(ts) }})
		}
	}
	for _, x := range w.extra {
		es = append(es, sepEdit{x.desc, -1, x.do})
	}
	return
}

func joinWorlds(a, b *sepWorld) *sepWorld {
	return &sepWorld{append(a.tables[:len(a.tables):len(a.tables)], b.tables...), append(a.sets[:len(a.sets):len(a.sets)], b.sets...),
		append(a.extra[:len(a.extra):len(a.extra)], b.extra...), append(a.kept[:len(a.kept):len(a.kept)], b.kept...)}
}

func runG32(c *Ctx) {
	dir, done := c.Scratch()
	defer done()
	makers := sepMakers()
	inputs := sepInputs(c.Thorough)
	for in, s := range inputs {
		for i := range makers {
			for j := range makers {
				// each maker twice on every input; pairs of different makers on the inputs of two tables
				if j < i || j > i && !(c.Thorough || in == 4 || in == 6) {
					continue
				}
				s, a, b := s, makers[i], makers[j]
				mk := func() *sepWorld {
					x := a.do(s, dir)
					if x == nil {
						return nil
					}
					y := b.do(s, dir)
					if y == nil {
						return nil
					}
					return joinWorlds(x, y)
				}
				for p := range sepPreps {
					if p > 0 && (j > i || in > 13 && !c.Thorough) {
						continue
					}
					p := p
					c.Do(func() string {
						return fmt.Sprintf("%s made by %s and %s; %s", s.Full(), a.desc, b.desc, sepPreps[p].desc)
					}, func(t *T) {
						w := mk()
						if w == nil {
							return
						}
						first := strings.Join(w.views(w.slots()), "\n")
						t.State(a.desc + b.desc + first)
						ready := func() (*sepWorld, []sepSlot) {
							w := mk()
							if w == nil {
								t.Failf("making it again is refused")
								return nil, nil
							}
							if again := strings.Join(w.views(w.slots()), "\n"); again != first {
								t.Failf("making it again gives\n%s\nfirst it gave\n%s", clip(again, 800), clip(first, 800))
								return nil, nil
							}
							if p > 0 {
								for _, sl := range w.slots() {
									sepPreps[p].do(sl.t)
								}
							}
							return w, w.slots()
						}
						for k, n := 0, 1; k < n; k++ {
							w, slots := ready()
							if w == nil {
								return
							}
							es := w.edits(slots)
							n = len(es)
							if n == 0 {
								return
							}
							e := es[k]
							before := w.all(slots)
							func() {
								defer func() {
									if x := recover(); x != nil {
										t.Failf("%s: %v", e.desc, x)
									}
								}()
								e.do()
							}()
							if t.Failed() {
								return
							}
							t.Step(1)
							after := w.all(slots)
							for v := range before {
								if v != e.slot && after[v] != before[v] {
									name := fmt.Sprintf("view %d", v)
									if v < len(slots) {
										name = slots[v].path
									}
									t.Failf("%s: this changed %s from %s to %s", e.desc, name, clip(before[v], 500), clip(after[v], 500))
									return
								}
							}
						}
						ready()
					})
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}
