package main

// G18 nested tables are walked completely and cycles are detected.

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// A graph of n tables: slots[i] lists what the *Table cells of table i hold, in row-major order: -1 a nil table, else a table number.
type nestGraph struct {
	slots  [][]int
	layout int
	how    int  // which setter made the references
	leaf   int  // what the tables look like which hold no table: 0 like the others, 1 no rows, 2 no columns, 3 rows of other types only
	same   bool // all tables have one name
}

func (gr *nestGraph) String() string {
	names := ""
	if gr.same {
		names = ", all of one name"
	}
	return fmt.Sprintf("tables with cells %v, layout %d, setter %d, leaves %d%s", gr.slots, gr.layout, gr.how, gr.leaf, names)
}

// shape gives the number of rows and the columns of a table.
func (gr *nestGraph) shape(i int) (rows int, cols []MCol) {
	s := len(gr.slots[i])
	if gr.leaf > 0 && !gr.holds(i) {
		switch gr.leaf {
		case 1:
			_, cols = (&nestGraph{slots: gr.slots, layout: gr.layout}).shape(i)
			return 0, cols
		case 2:
			return 0, nil
		default:
			return 2, []MCol{{"k", "int"}, {"s", "string"}}
		}
	}
	switch gr.layout {
	case 0: // one column
		return s, []MCol{{"t", "*Table"}}
	case 1: // one row
		for i := 0; i < s; i++ {
			cols = append(cols, MCol{fmt.Sprintf("t%d", i), "*Table"})
		}
		return 1, cols
	case 2: // table column between others
		return s, []MCol{{"k", "int"}, {"t", "*Table"}, {"s", "string"}}
	default: // two table columns and one between, as many rows as needed
		return (s + 1) / 2, []MCol{{"p", "*Table"}, {"k", "int"}, {"q", "*Table"}}
	}
}

// holds tells whether a table holds a table.
func (gr *nestGraph) holds(i int) bool {
	for _, j := range gr.slots[i] {
		if j >= 0 {
			return true
		}
	}
	return false
}

type nestWorld struct {
	gr     *nestGraph
	tables []*g.Table
	index  map[*g.Table]int
}

func (gr *nestGraph) name(i int) string {
	if gr.same {
		return "Same"
	}
	return nestName(i)
}

func nestName(i int) string { return fmt.Sprintf("T%d", i) }

func (gr *nestGraph) build() *nestWorld {
	w := &nestWorld{gr: gr, index: map[*g.Table]int{}}
	for i := range gr.slots {
		rows, cols := gr.shape(i)
		m := &MTable{Name: gr.name(i), Cols: cols}
		for r := 0; r < rows; r++ {
			row := m.zeroRow()
			for c := range cols {
				if cols[c].Type == "int" {
					row[c] = r + 1
				}
			}
			m.Rows = append(m.Rows, row)
		}
		t := build(m)
		w.tables = append(w.tables, t)
		w.index[t] = i
	}
	for i, cells := range gr.slots {
		k := 0
		_, cols := gr.shape(i)
		for r := 0; r < w.tables[i].RowCount(); r++ {
			for c := range cols {
				if cols[c].Type != "*Table" || k >= len(cells) {
					continue
				}
				if j := cells[k]; j >= 0 {
					switch gr.how {
					case 0:
						must(w.tables[i].SetTableByColIndex(c, r, w.tables[j]))
					case 1:
						must(w.tables[i].SetTable(cols[c].Name, r, w.tables[j]))
					case 2:
						must(w.tables[i].SetValByColIndex(c, r, w.tables[j]))
					case 3:
						must(w.tables[i].SetVal(cols[c].Name, r, w.tables[j]))
					}
				}
				k++
			}
		}
	}
	return w
}

// at gives the table number in a cell, -1 for a nil table, -2 if the cell does not hold a table.
func (gr *nestGraph) at(i, r, c int) int {
	_, cols := gr.shape(i)
	if cols[c].Type != "*Table" {
		return -2
	}
	per := 0
	before := 0
	for k := range cols {
		if cols[k].Type == "*Table" {
			if k < c {
				before++
			}
			per++
		}
	}
	k := r*per + before
	if k >= len(gr.slots[i]) {
		return -1
	}
	return gr.slots[i][k]
}

func (gr *nestGraph) cyclic() bool {
	color := make([]int, len(gr.slots))
	var dfs func(i int) bool
	dfs = func(i int) bool {
		color[i] = 1
		for _, j := range gr.slots[i] {
			if j >= 0 && (color[j] == 1 || color[j] == 0 && dfs(j)) {
				return true
			}
		}
		color[i] = 2
		return false
	}
	return dfs(0)
}

// onCycle tells whether table i can reach itself.
func (gr *nestGraph) onCycle(i int) bool {
	seen := map[int]bool{}
	var dfs func(k int) bool
	dfs = func(k int) bool {
		for _, j := range gr.slots[k] {
			if j < 0 {
				continue
			}
			if j == i {
				return true
			}
			if !seen[j] {
				seen[j] = true
				if dfs(j) {
					return true
				}
			}
		}
		return false
	}
	return dfs(i)
}

// unroll gives the tree a reader sees; only for acyclic graphs.
func (gr *nestGraph) unroll(i int) *MTable {
	rows, cols := gr.shape(i)
	m := &MTable{Name: gr.name(i), Cols: cols}
	for r := 0; r < rows; r++ {
		row := m.zeroRow()
		for c := range cols {
			if cols[c].Type == "int" {
				row[c] = r + 1
			}
			if j := gr.at(i, r, c); j >= 0 {
				row[c] = gr.unroll(j)
			}
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

// visits is the sequence a walk must make, cut off at the first table that encloses itself (and at max).
func (gr *nestGraph) visits(root int, nested bool, max int) (ev []string, circular bool) {
	path := map[int]bool{}
	var walk func(i int) bool
	walk = func(i int) bool {
		if i < 0 {
			ev = append(ev, "table nil")
			return true
		}
		path[i] = true
		defer delete(path, i)
		ev = append(ev, "table "+nestName(i))
		rows, cols := gr.shape(i)
		for r := 0; r < rows; r++ {
			ev = append(ev, fmt.Sprintf("row %s %d", nestName(i), r))
			for c := range cols {
				ev = append(ev, fmt.Sprintf("cell %s %d %d %s %s", nestName(i), r, c, cols[c].Name, cols[c].Type))
				j := gr.at(i, r, c)
				if !nested || j == -2 {
					continue
				}
				if j >= 0 && path[j] {
					circular = true
					return false
				}
				if len(ev) > max || !walk(j) {
					return false
				}
			}
		}
		return true
	}
	walk(root)
	return
}

// recorder gives visitors that record, and fail at event stopAt.
func (w *nestWorld) recorder(ev *[]string, stopAt int, stop error) (vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) {
	name := func(t *g.Table) string {
		if i, ok := w.index[t]; ok {
			return nestName(i)
		}
		if n, _ := t.IsNilTable(); n {
			return "nil"
		}
		return "unknown[" + t.Name() + "]"
	}
	add := func(s string) error {
		*ev = append(*ev, s)
		if len(*ev)-1 == stopAt {
			return stop
		}
		return nil
	}
	vt = func(t *g.Table) error { return add("table " + name(t)) }
	vr = func(r g.Row) error { return add(fmt.Sprintf("row %s %d", name(r.Table), r.RowIndex)) }
	vc = func(nested bool, c g.CellInfo) error {
		return add(fmt.Sprintf("cell %s %d %d %s %s", name(c.Table), c.RowIndex, c.ColIndex, c.ColName, c.ColType))
	}
	return
}

func diffSeq(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		a, b := "(end)", "(end)"
		if i < len(want) {
			a = want[i]
		}
		if i < len(got) {
			b = got[i]
		}
		if a != b {
			return fmt.Sprintf("visit %d: want %q, got %q", i, a, b)
		}
	}
	return ""
}

var errStop = errors.New("stop here")

func isCircErr(err error) bool {
	return err != nil && (g.HasCircRefError(err) || strings.Contains(strings.ToLower(err.Error()), "circular"))
}

// descending operations on a table or on a set holding it; each reports a cycle as an error and otherwise succeeds. The string is a further complaint.
type descOp struct {
	name string
	do   func(w *nestWorld, want *MTable) (err error, bad string)
}

func descOps() (ops []descOp) {
	add := func(n string, f func(w *nestWorld, want *MTable) (error, string)) { ops = append(ops, descOp{n, f}) }
	same := func(want *MTable, got *g.Table, err error) (error, string) {
		if err != nil || want == nil {
			return err, ""
		}
		if o := observe(got); o.Loose() != want.Loose() {
			return nil, "want " + want.Loose() + ", got " + o.Loose()
		}
		return nil, ""
	}
	sameSet := func(want *MTable, at int, got *g.TableSet, err error) (error, string) {
		if err != nil || want == nil {
			return err, ""
		}
		x, err := got.GetTableByTableIndex(at)
		return same(want, x, err)
	}
	setOf := func(w *nestWorld, at int) *g.TableSet {
		ts, err := g.NewTableSet("")
		must(err)
		for i := 0; i < 2; i++ {
			if i == at {
				must(ts.AppendTable(w.tables[0]))
			} else {
				must(ts.AppendTable(build(table1("Plain", "v", "int", 1))))
			}
		}
		return ts
	}
	add("Copy", func(w *nestWorld, want *MTable) (error, string) {
		x, err := w.tables[0].Copy()
		return same(want, x, err)
	})
	add("CopyDeep", func(w *nestWorld, want *MTable) (error, string) {
		x, err := w.tables[0].CopyDeep()
		return same(want, x, err)
	})
	add("Equals itself", func(w *nestWorld, want *MTable) (error, string) {
		eq, err := w.tables[0].Equals(w.tables[0])
		if eq != (err == nil) {
			return err, fmt.Sprintf("equals=%v with err=%v", eq, err)
		}
		return err, ""
	})
	add("Equals another built alike", func(w *nestWorld, want *MTable) (error, string) {
		_, err := w.tables[0].Equals(w.gr.build().tables[0])
		return err, ""
	})
	add("GetTableAsJSON", func(w *nestWorld, want *MTable) (error, string) {
		s, err := w.tables[0].GetTableAsJSON()
		if err != nil {
			return err, ""
		}
		x, err := g.NewTableFromJSON(s)
		return same(want, x, err)
	})
	add("GetTableAsJSONIndent", func(w *nestWorld, want *MTable) (error, string) {
		s, err := w.tables[0].GetTableAsJSONIndent()
		if err != nil {
			return err, ""
		}
		x, err := g.NewTableFromJSON(s)
		return same(want, x, err)
	})
	add("HasCircularReference", func(w *nestWorld, want *MTable) (error, string) {
		has, err := w.tables[0].HasCircularReference()
		if has != (err != nil) {
			return err, fmt.Sprintf("has=%v with err=%v", has, err)
		}
		return err, ""
	})
	add("IsValidTableNesting", func(w *nestWorld, want *MTable) (error, string) {
		ok, err := w.tables[0].IsValidTableNesting()
		if ok != (err == nil) {
			return err, fmt.Sprintf("valid=%v with err=%v", ok, err)
		}
		return err, ""
	})
	for at := 0; at < 2; at++ {
		at := at
		in := fmt.Sprintf(" of a set with it at %d", at)
		add("TableSet.Copy"+in, func(w *nestWorld, want *MTable) (error, string) {
			x, err := setOf(w, at).Copy()
			return sameSet(want, at, x, err)
		})
		add("TableSet.Equals"+in, func(w *nestWorld, want *MTable) (error, string) {
			_, err := setOf(w, at).Equals(setOf(w, at))
			return err, ""
		})
		add("GetTableSetAsJSON"+in, func(w *nestWorld, want *MTable) (error, string) {
			s, err := setOf(w, at).GetTableSetAsJSON()
			if err != nil {
				return err, ""
			}
			x, err := g.NewTableSetFromJSON(s)
			return sameSet(want, at, x, err)
		})
		add("GetTableSetAsJSONIndent"+in, func(w *nestWorld, want *MTable) (error, string) {
			s, err := setOf(w, at).GetTableSetAsJSONIndent()
			if err != nil {
				return err, ""
			}
			x, err := g.NewTableSetFromJSON(s)
			return sameSet(want, at, x, err)
		})
		add("GetTableSetAsYAML"+in, func(w *nestWorld, want *MTable) (error, string) {
			s, err := setOf(w, at).GetTableSetAsYAML()
			if err != nil {
				return err, ""
			}
			x, err := g.NewTableSetFromYAML(s)
			return sameSet(want, at, x, err)
		})
		add("GetTableSetAsMap"+in, func(w *nestWorld, want *MTable) (error, string) {
			_, err := setOf(w, at).GetTableSetAsMap()
			return err, ""
		})
		add("TableSet.Walk"+in, func(w *nestWorld, want *MTable) (error, string) {
			ts := setOf(w, at)
			var ev []string
			sets := 0
			vt, vr, vc := w.recorder(&ev, -1, nil)
			err := ts.Walk(true, func(s *g.TableSet) error {
				sets++
				if s != ts || len(ev) > 0 {
					return fmt.Errorf("the set is not visited first")
				}
				return nil
			}, vt, vr, vc)
			if sets != 1 {
				return err, fmt.Sprintf("the set was visited %d times", sets)
			}
			if want == nil {
				return err, ""
			}
			own, _ := w.gr.visits(0, true, 1<<20)
			plain := []string{"table unknown[Plain]", "row unknown[Plain] 0", "cell unknown[Plain] 0 0 v int"}
			all := append(append([]string{}, own...), plain...)
			if at == 1 {
				all = append(plain, own...)
			}
			return err, diffSeq(all, ev)
		})
	}
	return
}

// calls that need not descend: whatever they report, they come back. Each acts on root, whose first column holds tables.
func lightOps() (ops []descOp) {
	add := func(n string, f func(t *g.Table)) {
		ops = append(ops, descOp{n, func(w *nestWorld, want *MTable) (error, string) { f(w.tables[0]); return nil, "" }})
	}
	add("String, StringPadded, StringUnpadded", func(t *g.Table) { _ = t.String() + t.StringPadded() + t.StringUnpadded() })
	add("GobEncode", func(t *g.Table) { _, err := t.GobEncode(); ign(err) })
	add("GetTableAsCSV", func(t *g.Table) { _, err := t.GetTableAsCSV(); ign(err) })
	add("IsValidTable", func(t *g.Table) { _, err := t.IsValidTable(); ign(err) })
	add("CopyCols", func(t *g.Table) { _, err := t.CopyCols(); ign(err) })
	add("NewTableFromRows", func(t *g.Table) { _, err := t.NewTableFromRows("X", 0, t.RowCount()-1); ign(err) })
	add("AppendRowsFromTable itself", func(t *g.Table) { ign(t.AppendRowsFromTable(t, 0, t.RowCount()-1)) })
	add("AppendColsFromTable itself", func(t *g.Table) { ign(t.AppendColsFromTable(t)) })
	add("Reverse and Sort", func(t *g.Table) { ign(t.Reverse()); ign(t.Sort("k")); ign(t.Sort("t")) })
	add("SortUnique", func(t *g.Table) { _, err := t.SortUnique("k"); ign(err) })
	add("Merge with itself", func(t *g.Table) {
		ign(t.SetSortKeys("k"))
		_, err := t.Merge(t)
		ign(err)
	})
	add("columns as strings", func(t *g.Table) {
		for c := 0; c < t.ColCount(); c++ {
			n, _ := t.ColName(c)
			_, err := t.GetColValsAsStrings(n)
			ign(err)
			_, err = t.JoinColVals(n, ",")
			ign(err)
		}
	})
	add("generate code", func(t *g.Table) {
		_, err := t.GenerateTypeStruct()
		ign(err)
		_, err = t.GenerateTypeStructSliceFromTable()
		ign(err)
		_, err = t.GenerateTypeStructSliceToTable()
		ign(err)
	})
	add("NewTreeTable", func(t *g.Table) {
		for d := 0; d < 3; d++ {
			_, err := t.NewTreeTable(d)
			ign(err)
		}
	})
	add("Nest itself", func(t *g.Table) { ign(t.SetSortKeys("k")); ign(t.Nest(t, "nested")) })
	add("ReorderCols", func(t *g.Table) {
		_, err := t.NewTableReorderColsByColIndex(seqInts(t.ColCount())...)
		ign(err)
		ign(t.OrderColsBySortKeys())
	})
	add("clear and delete", func(t *g.Table) { ign(t.SetRowCellsToZeroValue(0)); ign(t.DeleteRow(0)); ign(t.DeleteColByColIndex(0)) })
	return
}

func seqInts(n int) (r []int) {
	for i := n - 1; i >= 0; i-- {
		r = append(r, i)
	}
	return
}

func checkGraph(t *T, gr *nestGraph, stops bool) {
	w := gr.build()
	root := w.tables[0]
	cyc := gr.cyclic()
	var want *MTable
	if !cyc {
		want = gr.unroll(0)
	}

	// The walk itself.
	full, circ := gr.visits(0, true, 1<<20)
	if circ != cyc {
		t.Failf("internal: visits and cyclic disagree")
		return
	}
	var ev []string
	vt, vr, vc := w.recorder(&ev, -1, nil)
	safe := make(g.WalkSafe)
	err := root.Walk(true, safe, vt, vr, vc)
	t.Step(1)
	if cyc {
		if err == nil || !g.HasCircRefError(err) {
			t.Failf("Walk does not report the circular reference: %v", err)
			return
		}
		if ce := g.GetCircRefError(err); ce != nil {
			if i, ok := w.index[ce.CircTable()]; !ok || !gr.onCycle(i) {
				t.Failf("Walk reports [%s] as circular, which is not", ce.CircTable().Name())
				return
			}
			if _, ok := w.index[ce.RootTable()]; !ok || !holdsTable(ce.RootTable(), ce.CircTable()) {
				t.Failf("Walk reports a circular reference to [%s] from a table that does not hold it", ce.CircTable().Name())
				return
			}
		}
		if d := diffSeq(full[:min(len(full), len(ev))], ev); d != "" {
			t.Failf("Walk up to the circular reference: %s", d)
			return
		}
		// again, with the same walkSafe
		var got []string
		vt, vr, vc := w.recorder(&got, -1, nil)
		if err := root.Walk(true, safe, vt, vr, vc); err == nil || !g.HasCircRefError(err) {
			t.Failf("second Walk does not report the circular reference: %v", err)
			return
		}
		if d := diffSeq(ev, got); d != "" {
			t.Failf("second Walk up to the circular reference: %s", d)
			return
		}
		t.Outcome("circular")
	} else {
		if err != nil {
			t.Failf("Walk of an acyclic table: %v", err)
			return
		}
		if d := diffSeq(full, ev); d != "" {
			t.Failf("Walk: %s", d)
			return
		}
		t.Outcome("acyclic")
		// again, with the same walkSafe and some visitors missing
		for mask := 0; mask < 8; mask++ {
			var got, part []string
			vt, vr, vc := w.recorder(&got, -1, nil)
			if mask&1 == 0 {
				vt = nil
			}
			if mask&2 == 0 {
				vr = nil
			}
			if mask&4 == 0 {
				vc = nil
			}
			for _, e := range full {
				if e[0] == 't' && mask&1 != 0 || e[0] == 'r' && mask&2 != 0 || e[0] == 'c' && mask&4 != 0 {
					part = append(part, e)
				}
			}
			if err := root.Walk(true, safe, vt, vr, vc); err != nil {
				t.Failf("second Walk: %v", err)
				return
			}
			if d := diffSeq(part, got); d != "" {
				t.Failf("Walk with visitors %03b: %s", mask, d)
				return
			}
			t.Step(1)
		}
	}

	// Not descending: only the root's own cells, circular or not.
	own, _ := gr.visits(0, false, 1<<20)
	var got []string
	vt, vr, vc = w.recorder(&got, -1, nil)
	if err := root.Walk(false, make(g.WalkSafe), vt, vr, vc); err != nil {
		t.Failf("Walk without descending: %v", err)
		return
	}
	if d := diffSeq(own, got); d != "" {
		t.Failf("Walk without descending: %s", d)
		return
	}

	// A visitor's error ends the walk at once and comes out of it.
	if stops {
		// One walkSafe serves them all: an ended walk leaves nothing behind in it.
		again := make(g.WalkSafe)
		for k := range full {
			var got []string
			vt, vr, vc := w.recorder(&got, k, errStop)
			err := root.Walk(true, again, vt, vr, vc)
			t.Step(1)
			if !errors.Is(err, errStop) {
				t.Failf("visitor's error at visit %d (%s) came out as %v", k, full[k], err)
				return
			}
			if d := diffSeq(full[:k+1], got); d != "" {
				t.Failf("after the visitor's error at visit %d: %s", k, d)
				return
			}
		}
	}

	for _, op := range descOps() {
		err, bad := op.do(w, want)
		t.Step(1)
		if cyc && !isCircErr(err) {
			t.Failf("%s of a circular table reports %v", op.name, err)
			return
		}
		if !cyc && err != nil {
			t.Failf("%s of an acyclic table is refused: %v", op.name, err)
			return
		}
		if bad != "" {
			t.Failf("%s: %s", op.name, bad)
			return
		}
	}

	sn := root.StringNested()
	if !cyc {
		n := 0
		before := "" // a table begins after a blank line; its cells are not headings
		for _, line := range strings.Split(sn, "\n") {
			last := before
			before = line
			if last == "" && strings.HasPrefix(line, "[") && (line == "["+gr.name(0)+"]" || strings.Contains(line, "__FROM")) {
				n++
			}
		}
		tables := 0
		for _, e := range full {
			if e[0] == 't' {
				tables++
			}
		}
		if n != tables {
			t.Failf("StringNested shows %d tables of %d:\n%s", n, tables, sn)
			return
		}
		if d := nestedTexts(root, sn); d != "" {
			t.Failf("StringNested: %s\n%s", d, sn)
			return
		}
		if o := observe(root); o.Full() != want.Full() {
			t.Failf("walking and exporting changed the table: %s, now %s", want.Full(), o.Full())
			return
		}
	}

	for _, op := range lightOps() {
		op.do(gr.build(), nil)
		t.Step(1)
	}
}

// nestedTexts compares the tables in the text of StringNested, whose names are extended by their places, with the text of each table itself.
func nestedTexts(root *g.Table, text string) string {
	var want, got []string
	ign(root.Walk(true, g.WalkSafe{}, func(t *g.Table) error {
		s := t.String()
		if is, _ := t.IsNilTable(); is {
			s = "[]\n"
		}
		want = append(want, strings.TrimSpace(s))
		return nil
	}, nil, nil))
	for _, block := range strings.Split(text, "\n\n") {
		if block = strings.TrimSpace(block); block == "" {
			continue
		}
		head, rest, _ := strings.Cut(block, "\n")
		name, _, _ := strings.Cut(head, "__FROM")
		got = append(got, strings.TrimSpace(strings.TrimSuffix(name, "]")+"]\n"+rest))
	}
	sort.Strings(want)
	sort.Strings(got)
	for i := range want {
		if i >= len(got) || want[i] != got[i] {
			return fmt.Sprintf("%d tables, want %d; table %q is missing", len(got), len(want), want[i])
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d tables, want %d", len(got), len(want))
	}
	return ""
}

// link makes cell k of table i hold table j, or a nil table.
func (w *nestWorld) link(i, k, j, how int) {
	v := g.NewNilTable()
	if j >= 0 {
		v = w.tables[j]
	}
	switch how {
	case 0:
		must(w.tables[i].SetTableByColIndex(0, k, v))
	case 1:
		must(w.tables[i].SetTable("t", k, v))
	case 2:
		must(w.tables[i].SetValByColIndex(0, k, v))
	case 3:
		must(w.tables[i].SetVal("t", k, v))
	}
	w.gr.slots[i][k] = j
}

// nestHistory links cells one after the other, and asks everything of the tables after every step.
func nestHistory(t *T, n, s int, links [][3]int, how int) {
	gr := &nestGraph{}
	for i := 0; i < n; i++ {
		row := make([]int, s)
		for k := range row {
			row[k] = -1
		}
		gr.slots = append(gr.slots, row)
	}
	w := gr.build()
	for step := 0; step <= len(links); step++ {
		if step > 0 {
			l := links[step-1]
			w.link(l[0], l[1], l[2], (how+step)%4)
		}
		for root := 0; root < 2; root++ { // seen from the first table and from the second
			swap := func() {
				if root == 1 {
					w.tables[0], w.tables[1] = w.tables[1], w.tables[0]
				}
			}
			cyc, view := gr.cyclic(), gr
			if root == 1 {
				view = &nestGraph{}
				name := func(j int) int {
					if j == 0 || j == 1 {
						return 1 - j
					}
					return j
				}
				for i := range gr.slots {
					var row []int
					for _, j := range gr.slots[name(i)] {
						row = append(row, name(j))
					}
					view.slots = append(view.slots, row)
				}
				cyc = view.cyclic()
			}
			var want *MTable
			if !cyc && root == 0 {
				want = gr.unroll(0)
			}
			swap()
			for _, op := range descOps() {
				if root == 1 && (strings.Contains(op.name, "built alike") || strings.Contains(op.name, "Walk")) {
					continue // told with the names of the first
				}
				err, bad := op.do(w, want)
				t.Step(1)
				if cyc && !isCircErr(err) {
					t.Failf("step %d: %s of a circular table (root %d, now %v) reports %v", step, op.name, root, gr.slots, err)
					break
				}
				if !cyc && err != nil {
					t.Failf("step %d: %s of an acyclic table (root %d, now %v) is refused: %v", step, op.name, root, gr.slots, err)
					break
				}
				if bad != "" {
					t.Failf("step %d: %s (root %d, now %v): %s", step, op.name, root, gr.slots, bad)
					break
				}
			}
			swap()
			if t.Failed() {
				return
			}
		}
	}
	t.State(gr.String())
}

// nestGraphs enumerates the graphs of exactly n tables with s cells each in which every table is reachable and numbered in order of discovery.
func nestGraphs(n, s int, yield func(slots [][]int) bool) {
	total := n * s
	cells := make([]int, total)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == total {
			// discovery order from table 0, breadth first
			next := 1
			for i := 0; i < next && i < n; i++ {
				for _, j := range cells[i*s : i*s+s] {
					if j == next {
						next++
					} else if j > next {
						return true
					}
				}
			}
			if next != n {
				return true
			}
			var sl [][]int
			for i := 0; i < n; i++ {
				sl = append(sl, append([]int{}, cells[i*s:i*s+s]...))
			}
			return yield(sl)
		}
		for v := -1; v < n; v++ {
			cells[k] = v
			if !rec(k + 1) {
				return false
			}
		}
		return true
	}
	rec(0)
}

func allHold(slots [][]int) bool {
	gr := &nestGraph{slots: slots}
	for i := range slots {
		if !gr.holds(i) {
			return false
		}
	}
	return true
}

func runG18(c *Ctx) {
	histories(c, c.pick(1, 2), roNamed("StringNested", "HasCircularReference", "IsValidTableNesting", "Walk true", "Walk false"))
	type bound struct{ n, s int }
	bounds := []bound{{1, 1}, {1, 2}, {1, 3}, {1, 5}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {3, 1}, {3, 2}, {4, 1}, {5, 1}, {6, 1}}
	if c.Thorough {
		bounds = append(bounds, bound{7, 1}, bound{3, 3}, bound{4, 2})
	}
	for _, b := range bounds {
		nestGraphs(b.n, b.s, func(slots [][]int) bool {
			for v := 0; v < 44; v++ {
				layout, how, leaf := v%4, v/4%4, v/16
				if v >= 16 {
					how, leaf = 0, v/4-3
				}
				same := v >= 28
				if same {
					leaf = v/4 - 7
				}
				if leaf > 0 && allHold(slots) {
					continue
				}
				{
					if layout > 0 && how > 0 && !(c.Thorough && b.n*b.s <= 6) {
						continue
					}
					gr := &nestGraph{slots, layout, how, leaf, same}
					c.Do(gr.String, func(t *T) {
						t.State(gr.String())
						checkGraph(t, gr, b.n*b.s <= 6)
					})
					if c.Stopped() {
						return false
					}
				}
			}
			return true
		})
		if c.Stopped() {
			return
		}
	}
	walkTypes(c)
	// Links made, changed and removed one after the other, everything being asked after each.
	{
		const n, s = 3, 2
		var all [][3]int
		for i := 0; i < n; i++ {
			for k := 0; k < s; k++ {
				for j := -1; j < n; j++ {
					all = append(all, [3]int{i, k, j})
				}
			}
		}
		for l := 1; l <= c.pick(3, 4); l++ {
			for how := 0; how < 4; how++ {
				if how > 0 && l > 2 {
					continue
				}
				how := how
				seqs(len(all), l, func(q []int) bool {
					var links [][3]int
					for _, x := range q {
						links = append(links, all[x])
					}
					if c.Next() {
						c.exec(func() string {
							return fmt.Sprintf("3 tables of 2 cells; links {table, cell, linked} %v, setter %d first", links, how)
						}, func(t *T) {
							nestHistory(t, n, s, links, how)
						})
					}
					return !c.Stopped()
				})
			}
		}
	}
	// Long chains, ending in nothing or turning back; and ladders, where each table holds the next one twice.
	lens := []int{6, 7, 8, 9, 10, 11, 12, 20, 40}
	if c.Thorough {
		lens = append(lens, 100, 300)
	}
	for _, n := range lens {
		for _, back := range []int{-1, 0, 1, n / 2, n - 2, n - 1} {
			for layout := 0; layout < 4; layout++ {
				gr := &nestGraph{layout: layout}
				for i := 0; i < n; i++ {
					next := i + 1
					if next == n {
						next = back
					}
					gr.slots = append(gr.slots, []int{next})
				}
				c.Do(func() string {
					return fmt.Sprintf("chain of %d tables, the last holding %d, layout %d", n, back, layout)
				}, func(t *T) {
					checkGraph(t, gr, n <= 12)
				})
				if c.Stopped() {
					return
				}
			}
		}
	}
	for n := 2; n <= c.pick(7, 10); n++ {
		for _, back := range []int{-1, 0, n - 1} {
			for v := 0; v < 16; v++ {
				layout := v % 4
				if back >= 0 && v >= 4 {
					break
				}
				gr := &nestGraph{layout: layout, leaf: v / 4}
				for i := 0; i < n; i++ {
					next := i + 1
					if next == n {
						next = back
					}
					gr.slots = append(gr.slots, []int{next, next})
				}
				c.Do(func() string {
					return fmt.Sprintf("ladder of %d tables, the last holding %d, layout %d, leaves %d", n, back, layout, gr.leaf)
				}, func(t *T) {
					checkGraph(t, gr, false)
				})
				if c.Stopped() {
					return
				}
			}
		}
	}
}

func init() {
	register(&Checker{
		ID: "G18",
		Rule: "every graph of up to 3 tables with up to 2 nested cells each, 2 with 4, 1 with 5, 6 with 1 (thorough: 4 tables with 2, 3 with 3, 7 with 1), all reachable and numbered in order of discovery, in 4 layouts of the cells (one column, one row, between other columns, two columns), by 4 setters, and with the tables that hold none alike, without rows, without columns or without table columns, and with all tables of one name; chains of up to 40 (300) tables ending in nothing or turning back to any of 5 places; ladders in which each table holds the next twice; tables of every type and pair of types, of all types at once and of every number of columns up to 40, in both shapes, with 0 to 2 rows; every sequence of up to 3 (4) links made, changed or removed among 3 tables of 2 cells, everything being asked of two of the tables after each. " +
			"On each: the visit sequence of a walk (descending and not, with every subset of visitors, with a visitor failing at every single visit, all with one WalkSafe), and every operation that descends, of the table and of sets holding it.",
		Assumptions: []string{
			"StringNested, which returns no error, must come back, and on acyclic nesting must show every table",
			"operations that do not descend must come back, whatever they report",
		},
		Run: runG18,
	})
}

func holdsTable(tab, nested *g.Table) bool {
	for ci := 0; ci < tab.ColCount(); ci++ {
		for r := 0; r < tab.RowCount(); r++ {
			v, err := tab.GetValByColIndex(ci, r)
			must(err)
			if x, ok := v.(*g.Table); ok && x == nested {
				return true
			}
		}
	}
	return false
}

// walkTypes: walks report every cell's table, place, column name and column type as they are, whatever the type, shape and size.
func walkTypes(c *Ctx) {
	one := func(m *MTable) {
		c.Do(func() string { return "walk of " + clip(m.Full(), 400) }, func(t *T) {
			t.State(clip(m.Full(), 400))
			tab := build(m)
			want := []string{"table " + m.Name}
			for r := range m.Rows {
				want = append(want, fmt.Sprint("row ", r))
				for i, col := range m.Cols {
					want = append(want, fmt.Sprint("cell ", r, i, " ", col.Name, " ", col.Type))
				}
			}
			cell := func(c g.CellInfo) string {
				if c.Table != tab {
					return "cell of another table"
				}
				return fmt.Sprint("cell ", c.RowIndex, c.ColIndex, " ", c.ColName, " ", c.ColType)
			}
			var got []string
			vt := func(x *g.Table) error { got = append(got, "table "+x.Name()); return nil }
			vr := func(r g.Row) error { got = append(got, fmt.Sprint("row ", r.RowIndex)); return nil }
			vc := func(_ bool, c g.CellInfo) error { got = append(got, cell(c)); return nil }
			t.Step(2)
			if err := tab.Walk(false, g.WalkSafe{}, vt, vr, vc); err != nil {
				t.Failf("Walk(): %v", err)
			}
			if d := diffSeq(want, got); d != "" {
				t.Failf("Walk(): %s", d)
				return
			}
			ts, err := g.NewTableSet("S")
			must(err)
			must(ts.AppendTable(tab))
			got = nil
			if err := ts.Walk(false, nil, vt, vr, vc); err != nil {
				t.Failf("TableSet.Walk(): %v", err)
			}
			if d := diffSeq(want, got); d != "" {
				t.Failf("TableSet.Walk(): %s", d)
			}
			for r := range m.Rows {
				for i, col := range m.Cols {
					a, err1 := tab.GetCellInfoByColIndex(i, r)
					b, err2 := tab.GetCellInfo(col.Name, r)
					w := fmt.Sprint("cell ", r, i, " ", col.Name, " ", col.Type)
					if err1 != nil || err2 != nil || cell(a) != w || cell(b) != w {
						t.Failf("GetCellInfoByColIndex() gives %s (%v), GetCellInfo() %s (%v), want %s", cell(a), err1, cell(b), err2, w)
						return
					}
				}
			}
		})
	}
	for _, a := range allTypes {
		for _, b := range append([]string{""}, allTypes...) {
			types := []string{a}
			if b != "" {
				types = append(types, b)
			}
			for rows := 0; rows <= 2; rows++ {
				m := sizedTable(rows, types...)
				one(m)
				if rows < 2 {
					s := m.Clone()
					s.Struct = true
					one(s)
				}
			}
		}
	}
	for n := 1; n <= 40; n++ {
		var types []string
		for i := 0; i < n; i++ {
			types = append(types, allTypes[i*7%len(allTypes)])
		}
		for rows := 0; rows <= 2; rows++ {
			m := sizedTable(rows, types...)
			one(m)
			if rows < 2 {
				s := m.Clone()
				s.Struct = true
				one(s)
			}
		}
	}
}
