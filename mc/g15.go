package main

// G15 copies and extracts: faithful when made, independent ever after.

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

type copyOp struct {
	desc string
	deep bool                    // nested tables are copied too
	want func(m *MTable) *MTable // nil: refused
	make func(t *g.Table) (*g.Table, error)
}

type tblEdit struct {
	desc string
	do   func(t, other *g.Table)
}

// ign runs an edit whose success does not matter here (it may be inapplicable in the current state).
func ign(err error) {}

// tableEdits lists edits applicable to (almost) any state of a table like m. deep adds edits inside nested tables.
func tableEdits(m *MTable, deep bool) (ms []tblEdit) {
	add := func(d string, f func(t, o *g.Table)) { ms = append(ms, tblEdit{d, f}) }
	for ci := range m.Cols {
		ci, typ := ci, m.Cols[ci].Type
		setAll := func(t *g.Table, r int) {
			if ci >= t.ColCount() || r >= t.RowCount() {
				return
			}
			ty, _ := t.ColTypeByColIndex(ci)
			v := implVal(ordinary(ty, 20+r))
			if ty == "bool" {
				old, _ := t.GetBoolByColIndex(ci, r)
				v = !old
			}
			ign(t.SetValByColIndex(ci, r, v))
		}
		for r := 0; r < len(m.Rows) && r < 2; r++ {
			r := r
			add(fmt.Sprintf("set cell %d,%d", ci, r), func(t, o *g.Table) { setAll(t, r) })
		}
		if typ == "[]byte" || typ == "[]uint8" {
			add(fmt.Sprintf("change bytes in place in column %d", ci), func(t, o *g.Table) {
				for r := 0; r < t.RowCount() && ci < t.ColCount(); r++ {
					if v, err := t.GetValByColIndex(ci, r); err == nil {
						if b, ok := v.([]byte); ok {
							for i := range b {
								b[i] ^= 0x5a
							}
							_ = append(b, 0x77) // writes into spare capacity, if any
						}
					}
				}
			})
		}
		if typ == "*Table" && deep {
			nested := func(d string, f func(n *g.Table)) {
				add(fmt.Sprintf("%s in nested tables of column %d", d, ci), func(t, o *g.Table) {
					for r := 0; r < t.RowCount() && ci < t.ColCount(); r++ {
						if n, err := t.GetTableByColIndex(ci, r); err == nil && n != nil {
							f(n)
						}
					}
				})
			}
			nested("append row", func(n *g.Table) { ign(n.AppendRow()) })
			nested("append column", func(n *g.Table) { ign(n.AppendCol("fresh", "int")) })
			nested("rename", func(n *g.Table) { ign(n.SetName("Renamed")) })
			nested("set cells", func(n *g.Table) {
				for r := 0; r < n.RowCount(); r++ {
					for c := 0; c < n.ColCount(); c++ {
						ty, _ := n.ColTypeByColIndex(c)
						v, _ := n.GetValByColIndex(c, r)
						switch x := v.(type) {
						case []byte:
							for i := range x {
								x[i]++
							}
						case *g.Table:
							ign(x.SetName("Inner"))
							ign(x.AppendRow())
						case bool:
							ign(n.SetBoolByColIndex(c, r, !x))
						default:
							ign(n.SetValByColIndex(c, r, implVal(ordinary(ty, 40))))
						}
					}
				}
			})
		}
		if ci < 2 {
			add(fmt.Sprintf("DeleteColByColIndex(%d)", ci), func(t, o *g.Table) { ign(t.DeleteColByColIndex(ci)) })
			add(fmt.Sprintf("RenameColByColIndex(%d, \"ren\")", ci), func(t, o *g.Table) { ign(t.RenameColByColIndex(ci, "ren")) })
		}
	}
	add("AppendRow()", func(t, o *g.Table) { ign(t.AppendRow()) })
	add("DeleteRow(0)", func(t, o *g.Table) {
		if t.RowCount() > 0 {
			ign(t.DeleteRow(0))
		}
	})
	add("DeleteRow(last)", func(t, o *g.Table) {
		if n := t.RowCount(); n > 0 {
			ign(t.DeleteRow(n - 1))
		}
	})
	add("DeleteRowsAll()", func(t, o *g.Table) { ign(t.DeleteRowsAll()) })
	add("Reverse()", func(t, o *g.Table) { ign(t.Reverse()) })
	add("AppendCol", func(t, o *g.Table) { ign(t.AppendCol("fresh", "string")) })
	add("reverse the columns", func(t, o *g.Table) {
		var p []int
		for i := t.ColCount() - 1; i >= 0; i-- {
			p = append(p, i)
		}
		ign(t.ReorderColsByColIndex(p...))
	})
	add("swap columns", func(t, o *g.Table) { ign(t.SwapColsByColIndex(0, 1)) })
	add("SetName", func(t, o *g.Table) { ign(t.SetName("Other")) })
	add("SetStructShape", func(t, o *g.Table) { s, _ := t.IsStructShape(); ign(t.SetStructShape(!s)) })
	keyCols := func(t *g.Table) (s []string) {
		ns, ts, _ := t.GetColInfoAsSlices()
		for i, n := range ns {
			if isSortable(ts[i]) {
				s = append(s, n)
			}
		}
		return
	}
	add("sort keys", func(t, o *g.Table) {
		k := keyCols(t)
		ign(t.SetSortKeys(k...))
		if len(k) > 0 {
			ign(t.SetSortKeysReverse(k[0]))
			ign(t.Sort())
		}
	})
	add("reverse a sort key in place", func(t, o *g.Table) {
		if k := keyCols(t); len(k) > 0 {
			ign(t.SetSortKeysReverse(k[len(k)-1]))
			ign(t.DeleteSortKey(k[0]))
			ign(t.AppendSortKey(k[0]))
		}
	})
	shares := deep && hasNested(m) // taking rows shares the nested tables again
	add("take the other's rows", func(t, o *g.Table) {
		if !shares && o.RowCount() > 0 && t.RowCount() < 6 {
			ign(t.AppendRowsFromTable(o, 0, o.RowCount()-1))
		}
	})
	add("take the other's columns and keys", func(t, o *g.Table) {
		ign(t.AppendColsFromTable(o))
		ign(t.SetSortKeysFromTable(o))
	})
	add("zero and NaN all floats", func(t, o *g.Table) {
		ign(t.SetAllFloatCellsToNaN())
	})
	return
}

func plainM(m *MTable) *MTable {
	n := m.Clone()
	n.Keys, n.Struct = nil, false
	return n
}

// copyOps: every way to make one table out of another, with what the result must hold.
func copyOps(m *MTable) (ops []copyOp) {
	ops = append(ops,
		copyOp{"Copy()", false, plainM, func(t *g.Table) (*g.Table, error) { return t.Copy() }},
		copyOp{"CopyDeep()", true, plainM, func(t *g.Table) (*g.Table, error) { return t.CopyDeep() }},
		copyOp{"CopyCols()", true, func(m *MTable) *MTable { n := plainM(m); n.Rows = nil; return n }, func(t *g.Table) (*g.Table, error) { return t.CopyCols() }},
		copyOp{"TableSet.Copy()", false, plainM, func(t *g.Table) (*g.Table, error) {
			ts, err := g.NewTableSet("S")
			must(err)
			must(ts.AppendTable(t))
			cp, err := ts.Copy()
			if err != nil {
				return nil, err
			}
			if cp.Name() != "S" || cp.TableCount() != 1 {
				return nil, fmt.Errorf("copied set %q has %d tables", cp.Name(), cp.TableCount())
			}
			return cp.GetTableByTableIndex(0)
		}},
	)
	n := len(m.Rows)
	for _, f := range picks(n, 5) {
		for _, l := range picks(n, 5) {
			f, l := f, l
			if l < f-1 {
				continue
			}
			ops = append(ops, copyOp{fmt.Sprintf("NewTableFromRows(\"New\", %d, %d)", f, l), false, func(m *MTable) *MTable {
				if f > l {
					// an empty range gives no rows
					x := plainM(m)
					x.Name, x.Rows = "New", nil
					return x
				}
				if f < 0 || l >= n {
					return nil
				}
				x := plainM(m)
				x.Name = "New"
				x.Rows = x.Rows[f : l+1]
				return x
			}, func(t *g.Table) (*g.Table, error) { return t.NewTableFromRows("New", f, l) }})
		}
	}
	for _, p := range perms(len(m.Cols)) {
		p := p
		var names []string
		for _, i := range p {
			names = append(names, m.Cols[i].Name)
		}
		w := func(m *MTable) *MTable { x := plainM(m); permuteM(x, p); return x }
		ops = append(ops, copyOp{fmt.Sprintf("NewTableReorderColsByColIndex(%v)", p), false, w, func(t *g.Table) (*g.Table, error) { return t.NewTableReorderColsByColIndex(p...) }},
			copyOp{fmt.Sprintf("NewTableReorderCols(%v)", names), false, w, func(t *g.Table) (*g.Table, error) { return t.NewTableReorderCols(names...) }})
	}
	for _, p := range [][]int{{}, {0}, {0, 0}, {1, 2}, {-1, 0}, {0, 1, 1}, {0, 1, 3}} {
		p := p
		if probe := m.Clone(); permuteM(probe, p) {
			continue
		}
		ops = append(ops, copyOp{fmt.Sprintf("NewTableReorderColsByColIndex(%v)", p), false, func(*MTable) *MTable { return nil }, func(t *g.Table) (*g.Table, error) { return t.NewTableReorderColsByColIndex(p...) }})
	}
	if len(m.Cols) > 0 {
		first := m.Cols[0].Name
		bad := make([]string, len(m.Cols))
		for i := range bad {
			bad[i] = "zz"
		}
		ops = append(ops, copyOp{fmt.Sprintf("NewTableReorderCols(%v)", bad), false, func(*MTable) *MTable { return nil }, func(t *g.Table) (*g.Table, error) { return t.NewTableReorderCols(bad...) }})
		ops = append(ops, copyOp{"NewTableReorderCols(short)", false, func(m *MTable) *MTable {
			if len(m.Cols) == 1 {
				return plainM(m)
			}
			return nil
		}, func(t *g.Table) (*g.Table, error) { return t.NewTableReorderCols(first) }})
	}
	// rows and columns taken into another table, whose columns are laid out differently
	ops = append(ops, copyOp{"AppendColsFromTable+AppendRowsFromTable into an empty table", false, func(m *MTable) *MTable { x := plainM(m); x.Name = "Into"; return x }, func(t *g.Table) (*g.Table, error) {
		nt, err := g.NewTable("Into")
		must(err)
		if err = nt.AppendColsFromTable(t); err != nil {
			return nil, err
		}
		return nt, nt.AppendRowsFromTable(t, 0, t.RowCount()-1)
	}}, copyOp{"AppendRowsFromTable into a wider table with reversed columns", false, func(m *MTable) *MTable {
		x := plainM(m)
		x.Name = "Into"
		p := make([]int, len(x.Cols))
		for i := range p {
			p[i] = len(p) - 1 - i
		}
		permuteM(x, p)
		x.Cols = append([]MCol{{"more", "int"}}, x.Cols...)
		for r := range x.Rows {
			x.Rows[r] = append([]interface{}{0}, x.Rows[r]...)
		}
		return x
	}, func(t *g.Table) (*g.Table, error) {
		nt, err := g.NewTable("Into")
		must(err)
		must(nt.AppendCol("more", "int"))
		ns, ts, err := t.GetColInfoAsSlices()
		must(err)
		for i := len(ns) - 1; i >= 0; i-- {
			must(nt.AppendCol(ns[i], ts[i]))
		}
		return nt, nt.AppendRowsFromTable(t, 0, t.RowCount()-1)
	}})
	// rows taken into a table with as many columns, in every other order of them
	for _, p := range perms(len(m.Cols)) {
		p := p
		ops = append(ops, copyOp{fmt.Sprintf("AppendRowsFromTable into a table whose columns are those at %v", p), false, func(m *MTable) *MTable {
			x := plainM(m)
			x.Name, x.Keys = "Into", nil
			permuteM(x, p)
			return x
		}, func(t *g.Table) (*g.Table, error) {
			nt, err := g.NewTable("Into")
			must(err)
			ns, ts, err := t.GetColInfoAsSlices()
			must(err)
			for _, i := range p {
				must(nt.AppendCol(ns[i], ts[i]))
			}
			return nt, nt.AppendRowsFromTable(t, 0, t.RowCount()-1)
		}})
	}
	// by search range: the rows whose key equals that of row 0
	if len(m.Keys) > 0 && n > 0 {
		ops = append(ops, copyOp{"NewTableFromRowsBySearchRange", false, func(m *MTable) *MTable {
			x := plainM(m)
			x.Name = "Found"
			x.Rows = nil
			for _, r := range m.Rows {
				if cmpRowsM(m, r, m.Rows[0]) == 0 {
					x.Rows = append(x.Rows, r)
				}
			}
			return x
		}, func(t *g.Table) (*g.Table, error) {
			var sv []interface{}
			for _, k := range m.Keys {
				v, err := t.GetVal(k.Col, 0)
				must(err)
				sv = append(sv, v)
			}
			return t.NewTableFromRowsBySearchRange("Found", sv...)
		}})
		ops = append(ops, copyOp{"SortUnique()", false, nil, func(t *g.Table) (*g.Table, error) { return t.SortUnique() }},
			copyOp{"Merge(empty)", false, nil, func(t *g.Table) (*g.Table, error) {
				e, err := t.CopyCols()
				must(err)
				return t.Merge(e)
			}},
			copyOp{"empty.Merge()", false, nil, func(t *g.Table) (*g.Table, error) {
				e, err := t.CopyCols()
				must(err)
				return e.Merge(t)
			}})
	}
	return
}

func hasNested(m *MTable) bool {
	for _, c := range m.Cols {
		if c.Type == "*Table" {
			return true
		}
	}
	return false
}

func copySources() (ms []*MTable) {
	ms = append(ms, &MTable{Name: "E"}, &MTable{Name: "E", Cols: []MCol{{"a", "int"}}})
	for _, typ := range allTypes {
		m := &MTable{Name: "T", Cols: []MCol{{"c", typ}, {"k", "int"}}, Rows: [][]interface{}{{ordinary(typ, 0), 1}, {ordinary(typ, 1), 1}}}
		ms = append(ms, m)
	}
	ms = append(ms,
		&MTable{Name: "K", Cols: []MCol{{"a", "int"}, {"b", "string"}, {"y", "[]byte"}}, Keys: []MKey{{"b", false}, {"a", true}}, Rows: [][]interface{}{{2, "p", []byte{1, 2}}, {1, "q", []byte{3}}, {1, "q", []byte{}}}},
		&MTable{Name: "P", Struct: true, Cols: []MCol{{"f", "float64"}, {"b", "[]uint8"}}, Rows: [][]interface{}{{1.5, []byte{7}}}},
		&MTable{Name: "N", Cols: []MCol{{"t", "*Table"}, {"k", "int"}}, Keys: []MKey{{"k", false}}, Rows: [][]interface{}{
			{&MTable{Name: "In", Cols: []MCol{{"y", "[]byte"}, {"u", "*Table"}}, Rows: [][]interface{}{{[]byte{1, 2}, table1("L", "v", "[]byte", []byte{9})}, {[]byte{}, &MTable{Nil: true}}}}, 1},
			{&MTable{Nil: true}, 2}}},
		&MTable{Name: "N2", Cols: []MCol{{"t", "*Table"}, {"u", "*Table"}}, Rows: [][]interface{}{{table1("A", "v", "string", "x"), table1("B", "v", "int", 1)}}},
		&MTable{Name: "N3", Cols: []MCol{{"t", "*Table"}, {"k", "int"}}, Rows: [][]interface{}{{&MTable{Name: "N3"}, 1}, {table1("N3", "v", "int"), 2}, {table1("N3", "t", "*Table", &MTable{Name: "N3"}, table1("N3", "k", "int", 1)), 3}, {&MTable{Name: "E", Struct: true, Cols: []MCol{{"v", "int"}}}, 4}}},
	)
	return
}

// bigBytes: byte slices of every size are the copy's own.
func bigBytes(c *Ctx) {
	for _, n := range sizeLadder(c.pick(70, 300), c.pick(66000, 1<<20)) {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i % 251)
		}
		m := &MTable{Name: "T", Cols: []MCol{{"b", "[]byte"}, {"k", "int"}, {"u", "[]uint8"}}, Rows: [][]interface{}{{b, 1, b[:n/2]}, {[]byte{1}, 2, b}}}
		for _, op := range copyOps(m) {
			if op.want != nil && op.want(m) == nil {
				continue
			}
			n, op := n, op
			c.Do(func() string { return fmt.Sprintf("%s of a table with cells of %d bytes", op.desc, n) }, func(t *T) {
				src := build(m)
				cp, err := op.make(src)
				if err != nil {
					t.Failf("error %v", err)
					return
				}
				t.State(fmt.Sprint(n, op.desc))
				flip := func(of, other *g.Table, who string) {
					before := observe(other).Full()
					for r := 0; r < of.RowCount(); r++ {
						for col := 0; col < of.ColCount(); col++ {
							v, err := of.GetValByColIndex(col, r)
							must(err)
							if x, ok := v.([]byte); ok && len(x) > 0 {
								x[0] ^= 0xff
								x[len(x)-1] ^= 0x55
								x[len(x)/2] ^= 0x33
								t.Step(3)
							}
						}
					}
					if after := observe(other).Full(); after != before && !t.Failed() {
						t.Failf("bytes changed in %s", who)
					}
				}
				flip(cp, src, "the copy are seen in the source")
				flip(src, cp, "the source are seen in the copy")
			})
		}
	}
}

func runG15(c *Ctx) {
	histories(c, c.pick(1, 2), roNamed("Copy", "CopyCols", "CopyDeep", "NewTableFromRows", "NewTableReorderCols", "AppendColsFromTable source", "AppendRowsFromTable source", "set.Copy"))
	depth := 2
	sources := copySources()
	for _, n := range []int{9, 17, 33, 64, 65, 129, 300, 1025} {
		if n < 66 || n < 130 && c.Thorough {
			m := sizedTable(n, "int", "[]byte", "*Table")
			m.Keys = []MKey{{"c0", false}}
			sources = append(sources, m)
			var types []string
			for i := 0; i < n; i++ {
				types = append(types, allTypes[i*7%len(allTypes)])
			}
			sources = append(sources, sizedTable(2, types...))
		}
	}
	sources = append(sources, nestedDeep(5), nestedDeep(20))
	bigBytes(c)
	for si, m := range sources {
		m, large := m, si >= len(copySources())
		for _, op := range copyOps(m) {
			op := op
			name := m.Full() + " " + op.desc
			var want *MTable
			if op.want != nil {
				want = op.want(m)
			}
			start := func(t *T) (src, cp *g.Table) {
				src = build(m)
				cp, err := op.make(src)
				t.Step(1)
				if op.want != nil {
					if (want == nil) != (err != nil) {
						t.Failf("error %v, want refusal %v", err, want == nil)
						return
					}
				} else {
					must(err)
				}
				if err != nil {
					return src, nil
				}
				if o := observe(src); o.Full() != m.Full() && op.want != nil {
					t.Failf("the source became %s", o.Full())
					return
				}
				if want != nil {
					if o := observe(cp); o.Data() != want.Data() {
						t.Failf("the result is %s, want %s", o.Data(), want.Data())
						return
					}
				}
				if ok, err := cp.IsValidTable(); !ok || err != nil {
					t.Failf("result not valid: %v", err)
				}
				if cp == src {
					t.Failf("the result is the source itself")
				}
				return
			}
			c.Do(func() string { return name }, func(t *T) {
				t.State(name)
				start(t)
			})
			if op.want != nil && want == nil || c.Stopped() {
				continue
			}
			edits := tableEdits(m, op.deep || !hasNested(m))
			ne := 2 * len(edits)
			d := depth
			if c.Thorough {
				d = 3
				if len(m.Cols) > 2 && strings.HasPrefix(op.desc, "NewTableReorder") {
					d = 2
				}
			}
			if large {
				d = 1
			}
			for l := 1; l <= d; l++ {
				seqs(ne, l, func(s []int) bool {
					c.Do(func() string {
						x := name
						for _, e := range s {
							x += "; " + []string{"source: ", "result: "}[e%2] + edits[e/2].desc
						}
						return x
					}, func(t *T) {
						src, cp := start(t)
						if t.Failed() {
							return
						}
						two := []*g.Table{src, cp}
						for i, e := range s {
							me, other := two[e%2], two[1-e%2]
							before := observe(other).Full()
							edits[e/2].do(me, other)
							t.Step(1)
							if after := observe(other).Full(); after != before {
								t.Failf("edit %d on the %s changed the other table from %s to %s", i+1, []string{"source", "result"}[e%2], before, after)
								return
							}
						}
						t.State(observe(src).Full() + observe(cp).Full())
					})
					return !c.Stopped()
				})
			}
		}
	}
	selfRows(c, sources)
	// Copies of table sets: every set of up to 3 of the sources, every edit of one side at set level and of each table.
	srcs := copySources()
	setEdits := []struct {
		desc string
		do   func(ts *g.TableSet)
	}{
		{"SetName", func(ts *g.TableSet) { ign(ts.SetName("Zed")) }},
		{"SetFileName", func(ts *g.TableSet) { ts.SetFileName("other.got") }},
		{"DeleteTableByTableIndex(0)", func(ts *g.TableSet) { ign(ts.DeleteTableByTableIndex(0)) }},
		{"AppendTable", func(ts *g.TableSet) { x, _ := g.NewTable("Extra"); ign(ts.AppendTable(x)) }},
		{"RenameTable", func(ts *g.TableSet) { ign(ts.RenameTable("T0", "Q")) }},
		{"edit table 0", func(ts *g.TableSet) {
			if x, err := ts.GetTableByTableIndex(0); err == nil {
				ign(x.AppendRow())
				ign(x.AppendCol("fresh", "int"))
				ign(x.SetName("Q2"))
			}
		}},
		{"delete the last table and append", func(ts *g.TableSet) {
			if n := ts.TableCount(); n > 0 {
				ign(ts.DeleteTableByTableIndex(n - 1))
			}
			x, _ := g.NewTable("Extra2")
			ign(ts.AppendTable(x))
		}},
	}
	obs := func(ts *g.TableSet) string { return observeSet(ts).Full() + " file=" + ts.FileName() }
	for l := 0; l <= c.pick(2, 3); l++ {
		seqs(len(srcs), l, func(s []int) bool {
			ms := &MSet{Name: "Set"}
			for i, k := range s {
				x := srcs[k].Clone()
				x.Name = fmt.Sprintf("T%d", i)
				ms.Tables = append(ms.Tables, x)
			}
			seqs(2*len(setEdits), 2, func(e []int) bool {
				c.Do(func() string {
					return fmt.Sprintf("set %s; %d:%s; %d:%s", ms.Full(), e[0]%2, setEdits[e[0]/2].desc, e[1]%2, setEdits[e[1]/2].desc)
				}, func(t *T) {
					a := buildSet(ms)
					a.SetFileName("f.got")
					before := obs(a)
					b, err := a.Copy()
					t.Step(1)
					if err != nil {
						t.Failf("TableSet.Copy: %v", err)
						return
					}
					if obs(a) != before {
						t.Failf("copying changed the set to %s", obs(a))
						return
					}
					if observeSet(b).Data() != ms.Data() || b.FileName() != "f.got" {
						t.Failf("copy is %s file=%s, want %s file=f.got", observeSet(b).Data(), b.FileName(), ms.Data())
						return
					}
					two := []*g.TableSet{a, b}
					for _, x := range e {
						w := obs(two[1-x%2])
						setEdits[x/2].do(two[x%2])
						t.Step(1)
						if obs(two[1-x%2]) != w {
							t.Failf("%s on one set changed the other from %s to %s", setEdits[x/2].desc, w, obs(two[1-x%2]))
							return
						}
					}
				})
				return !c.Stopped()
			})
			return !c.Stopped()
		})
	}
}

// selfRows: a table takes rows of its own; the new rows are independent of those they came from.
func selfRows(c *Ctx, sources []*MTable) {
	for _, m := range sources {
		m, n := m, len(m.Rows)
		if n == 0 || len(m.Cols) == 0 || m.Struct {
			continue
		}
		for _, f := range picks(n, 5) {
			for _, l := range picks(n, 5) {
				f, l := f, l
				if f < 0 || l < f || l >= n {
					continue
				}
				name := fmt.Sprintf("%s AppendRowsFromTable(itself, %d, %d)", m.Full(), f, l)
				want := m.Clone()
				for r := f; r <= l; r++ {
					want.Rows = append(want.Rows, m.Clone().Rows[r])
				}
				type edit struct {
					desc string
					do   func(t *g.Table, w *MTable)
				}
				edits := []edit{{"nothing", func(*g.Table, *MTable) {}}}
				for _, r := range picks(n+l-f+1, 5) {
					r := r
					if r < 0 || r >= n+l-f+1 {
						continue
					}
					for _, ci := range picks(len(m.Cols), 4) {
						ci := ci
						if ci < 0 || ci >= len(m.Cols) {
							continue
						}
						typ := m.Cols[ci].Type
						edits = append(edits, edit{fmt.Sprintf("set cell %d,%d", ci, r), func(t *g.Table, w *MTable) {
							v := ordinary(typ, 20)
							if typ == "bool" {
								v = !w.Rows[r][ci].(bool)
							}
							must(t.SetValByColIndex(ci, r, implVal(v)))
							w.Rows[r][ci] = v
						}})
						if typ == "[]byte" || typ == "[]uint8" {
							edits = append(edits, edit{fmt.Sprintf("change bytes in place in cell %d,%d", ci, r), func(t *g.Table, w *MTable) {
								v, err := t.GetValByColIndex(ci, r)
								must(err)
								b := v.([]byte)
								nb := append([]byte{}, b...)
								for i := range b {
									b[i] ^= 0x5a
									nb[i] ^= 0x5a
								}
								_ = append(b, 0x77)
								w.Rows[r][ci] = nb
							}})
						}
					}
					edits = append(edits, edit{fmt.Sprintf("DeleteRow(%d)", r), func(t *g.Table, w *MTable) {
						must(t.DeleteRow(r))
						w.Rows = append(w.Rows[:r:r], w.Rows[r+1:]...)
					}})
				}
				edits = append(edits, edit{"AppendRow()", func(t *g.Table, w *MTable) { must(t.AppendRow()); addRowsM(w, 1) }},
					edit{"Reverse()", func(t *g.Table, w *MTable) {
						must(t.Reverse())
						for i, j := 0, len(w.Rows)-1; i < j; i, j = i+1, j-1 {
							w.Rows[i], w.Rows[j] = w.Rows[j], w.Rows[i]
						}
					}},
					edit{"the same again", func(t *g.Table, w *MTable) {
						must(t.AppendRowsFromTable(t, f, l))
						for r := f; r <= l; r++ {
							w.Rows = append(w.Rows, w.Clone().Rows[r])
						}
					}})
				depth := 2
				if len(edits) > 60 {
					depth = 1
				}
				for d := 1; d <= depth; d++ {
					seqs(len(edits), d, func(s []int) bool {
						c.Do(func() string {
							x := name
							for _, e := range s {
								x += "; " + edits[e].desc
							}
							return x
						}, func(t *T) {
							tab, w := build(m), want.Clone()
							must(tab.AppendRowsFromTable(tab, f, l))
							for _, e := range s {
								if strings.Contains(edits[e].desc, ",") || strings.HasPrefix(edits[e].desc, "Delete") {
									if len(w.Rows) < n+l-f+1 { // a row is gone: the index may be out of range
										return
									}
								}
								edits[e].do(tab, w)
								t.Step(1)
								if got := observe(tab).Full(); got != w.Full() {
									t.Failf("after %s the table is\n   %s\n  want\n   %s", edits[e].desc, got, w.Full())
									return
								}
							}
							t.State(w.Full())
						})
						return !c.Stopped()
					})
				}
			}
		}
	}
}

func init() {
	register(&Checker{ID: "G15", Run: runG15,
		Rule:        "every copy or extract operation with every argument on a family of tables over all cell types (nested tables two deep, named like the outer table, column-less or struct-shaped, byte slices, sort keys, struct shape, no rows, no columns), then every sequence of up to 2 [3] edits on either side; after each edit the other side is unchanged. Table sets of up to 2 [3] tables with every pair of set-level edits; tables taking every range of their own rows, then every pair of edits of the result, against a plain grid; byte cells of every size up to 70 (300) and around the powers of two up to 66000 (1 MB) through every copy operation; single edits of tables of up to 65 (129) rows or columns and nestings 5 and 20 deep",
		Assumptions: []string{"a plain Copy, NewTableFromRows or column reorder refers to the same nested tables (CopyDeep copies them): edits inside nested tables are judged for CopyDeep only", "sort keys and struct shape of a fresh copy are not specified"}})
}
