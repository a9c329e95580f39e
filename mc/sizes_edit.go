package main

// Edits, look-ups and comparisons of large tables and sets (G01, G16, G17).

import (
	"fmt"

	g "github.com/urban-wombat/gotables"
)

// picks are all places 0..n-1, or those at the ends and the middle if n is large; and one out of range at each side.
func picks(n, all int) (ps []int) {
	for i := -1; i <= n; i++ {
		if n <= all || i < 2 || i > n-3 || i == n/2 || i == n/3 {
			ps = append(ps, i)
		}
	}
	return
}

func bigEditOps(m *MTable, all int) (ops []Op) {
	nr, nc := len(m.Rows), len(m.Cols)
	add := func(desc string, f func(x *MTable) bool, impl func(t *g.Table) error) {
		ops = append(ops, Op{Desc: desc, Model: upd(f), Impl: impl})
	}
	for _, k := range []int{0, 1, 2, 7, nr, 64, 1000} {
		k := k
		add(fmt.Sprintf("AppendRows(%d)", k), func(x *MTable) bool { return addRowsM(x, k) }, func(t *g.Table) error { return t.AppendRows(k) })
	}
	add("AppendRow()", func(x *MTable) bool { return addRowsM(x, 1) }, func(t *g.Table) error { return t.AppendRow() })
	add("DeleteRowsAll()", func(x *MTable) bool { x.Rows = nil; return true }, func(t *g.Table) error { return t.DeleteRowsAll() })
	add("Reverse()", func(x *MTable) bool {
		for l, r := 0, len(x.Rows)-1; l < r; l, r = l+1, r-1 {
			x.Rows[l], x.Rows[r] = x.Rows[r], x.Rows[l]
		}
		return true
	}, func(t *g.Table) error { return t.Reverse() })
	for _, i := range picks(nr, all) {
		i := i
		add(fmt.Sprintf("DeleteRow(%d)", i), func(x *MTable) bool { return delRowsM(x, i, i) }, func(t *g.Table) error { return t.DeleteRow(i) })
		for _, j := range picks(nr, 8) {
			j := j
			add(fmt.Sprintf("DeleteRows(%d, %d)", i, j), func(x *MTable) bool { return delRowsM(x, i, j) }, func(t *g.Table) error { return t.DeleteRows(i, j) })
			if i <= j && nr <= 300 {
				add(fmt.Sprintf("AppendRowsFromTable(itself, %d, %d)", i, j), func(x *MTable) bool { return addRowsFromM(x, x.Clone(), i, j) }, func(t *g.Table) error { return t.AppendRowsFromTable(t, i, j) })
			}
		}
		for _, c := range picks(nc, 3) {
			c := c
			if c < 0 || c >= nc || isNestedType(m.Cols[c].Type) {
				continue
			}
			v := ordinary(m.Cols[c].Type, 5)
			add(fmt.Sprintf("SetValByColIndex(%d, %d, %s)", c, i, val(v)), func(x *MTable) bool {
				if i < 0 || i >= len(x.Rows) {
					return false
				}
				x.Rows[i][c] = v
				return true
			}, func(t *g.Table) error { return t.SetValByColIndex(c, i, fresh(v)) })
		}
	}
	add(`AppendCol("U", "string")`, func(x *MTable) bool { return addColM(x, "U", "string") }, func(t *g.Table) error { return t.AppendCol("U", "string") })
	if nc > 0 {
		last := m.Cols[nc-1].Name
		add(fmt.Sprintf("AppendCol(%q, \"int\")", last), func(x *MTable) bool { return false }, func(t *g.Table) error { return t.AppendCol(last, "int") })
	}
	for _, i := range picks(nc, all) {
		i := i
		add(fmt.Sprintf("DeleteColByColIndex(%d)", i), func(x *MTable) bool { return delColM(x, i) }, func(t *g.Table) error { return t.DeleteColByColIndex(i) })
		add(fmt.Sprintf("RenameColByColIndex(%d, \"U\")", i), func(x *MTable) bool { return renameColM(x, i, "U") }, func(t *g.Table) error { return t.RenameColByColIndex(i, "U") })
		if i >= 0 && i < nc {
			n := m.Cols[i].Name
			add(fmt.Sprintf("DeleteCol(%q)", n), func(x *MTable) bool { return delColM(x, x.Col(n)) }, func(t *g.Table) error { return t.DeleteCol(n) })
			add(fmt.Sprintf("RenameCol(%q, \"U\")", n), func(x *MTable) bool { return renameColM(x, i, "U") }, func(t *g.Table) error { return t.RenameCol(n, "U") })
			if isSortable(m.Cols[i].Type) {
				add(fmt.Sprintf("SetSortKeys(%q)", n), func(x *MTable) bool { return setKeysM(x, []string{n}) }, func(t *g.Table) error { return t.SetSortKeys(n) })
			}
		}
		for _, j := range picks(nc, 8) {
			j := j
			add(fmt.Sprintf("SwapColsByColIndex(%d, %d)", i, j), func(x *MTable) bool { return swapM(x, i, j) }, func(t *g.Table) error { return t.SwapColsByColIndex(i, j) })
		}
	}
	add("OrderColsBySortKeys()", orderByKeysM, func(t *g.Table) error { return t.OrderColsBySortKeys() })
	for p := range patterns {
		p := p
		var perm []int
		seen := map[int]bool{}
		for i := 0; i < nc; i++ {
			k := patterns[p].f(i, nc) % nc
			perm = append(perm, k)
			seen[k] = true
		}
		ok := len(seen) == nc
		var names []string
		for _, k := range perm {
			names = append(names, m.Cols[k].Name)
		}
		f := func(x *MTable) bool { return ok && permuteM(x, perm) }
		add("ReorderColsByColIndex "+patterns[p].name, f, func(t *g.Table) error { return t.ReorderColsByColIndex(perm...) })
		add("ReorderCols "+patterns[p].name, f, func(t *g.Table) error { return t.ReorderCols(names...) })
	}
	return
}

func isNestedType(t string) bool { return t == "*Table" }

// bigEdits: every edit of the alphabet on tables of every size of the ladder, in rows and in columns.
func bigEdits(c *Ctx) {
	run := func(kind string, m *MTable, depth int) {
		st := start{kind, m, func() *g.Table { return build(m) }}
		var rec func(m *MTable, path []Op)
		rec = func(m *MTable, path []Op) {
			for _, op := range bigEditOps(m, 20) {
				p := append(append([]Op{}, path...), op)
				nm := op.Model(m)
				c.Do(func() string { return kind + "; " + opsDesc(p) }, func(t *T) { runPath(t, st, p, nm, len(p) > 1) })
				if nm != nil && len(p) < depth && !c.Stopped() {
					rec(nm, p)
				}
			}
		}
		rec(m, nil)
	}
	for _, n := range sizeLadder(c.pick(40, 80), c.pick(300, 1100)) {
		if n < 4 {
			continue
		}
		d := 1
		if n == 5 || n == 9 || c.Thorough && n < 14 {
			d = 2
		}
		m := sizedTable(n, "int", "string", "[]byte")
		if n%2 == 0 {
			m.Keys = []MKey{{"c1", true}, {"c0", n%4 == 0}}
		}
		run(fmt.Sprintf("a table of %d rows", n), m, d)
		var types []string
		for i := 0; i < n; i++ {
			types = append(types, allTypes[i*7%len(allTypes)])
		}
		wide := sizedTable(2, types...)
		if n%2 == 0 {
			for i := n - 1; i >= 0; i-- {
				if isSortable(wide.Cols[i].Type) {
					wide.Keys = append(wide.Keys, MKey{wide.Cols[i].Name, i%3 != 1})
				}
			}
		}
		run(fmt.Sprintf("a table of %d columns", n), wide, d)
		if c.Stopped() {
			return
		}
	}
}

// longEdits: the edits of rows on tables of many rows.
func longEdits(c *Ctx) {
	for _, n := range []int{511, 512, 513, 1023, 1025, 2049, c.pick(4097, 16385)} {
		m := sizedTable(n, "int", "string")
		desc := fmt.Sprintf("a table of %d rows", n)
		st := start{desc, m, func() *g.Table { return build(m) }}
		for _, op := range bigEditOps(m, 8) {
			op, nm := op, op.Model(m)
			c.Do(func() string { return desc + "; " + op.Desc }, func(t *T) { runPath(t, st, []Op{op}, nm, false) })
		}
		if c.Stopped() {
			return
		}
	}
}

func opsDesc(p []Op) (s string) {
	for i, o := range p {
		if i > 0 {
			s += "; "
		}
		s += o.Desc
	}
	return
}

// bigEquals: large tables against themselves built twice and against tables with one difference somewhere.
func bigEquals(c *Ctx) {
	run := func(desc string, mk func() *MTable, diffs func(m *MTable) []*MTable) {
		c.Do(func() string { return "one difference in " + desc }, func(t *T) {
			m := mk()
			a := eqMk("", m, build(m))
			t.State(desc)
			same := m.Clone()
			checkEq(t, a, eqMk("", same, build(same)))
			for i, d := range diffs(m) {
				if t.Failed() {
					return
				}
				if checkEq(t, a, eqMk("", d, build(d))); t.Failed() {
					t.fail += fmt.Sprintf("\n difference number %d", i)
				}
			}
		})
	}
	oneCell := func(m *MTable, r, ci int, v interface{}) *MTable {
		n := m.Clone()
		n.Rows[r][ci] = v
		return n
	}
	// inOrder gives the same table with the columns in another order.
	inOrder := func(m *MTable, at func(i, n int) int) *MTable {
		n := len(m.Cols)
		x := &MTable{Name: m.Name}
		for i := 0; i < n; i++ {
			x.Cols = append(x.Cols, m.Cols[at(i, n)])
		}
		for _, r := range m.Rows {
			var row []interface{}
			for i := 0; i < n; i++ {
				row = append(row, r[at(i, n)])
			}
			x.Rows = append(x.Rows, row)
		}
		return x
	}
	diffs := func(m *MTable) (ds []*MTable) {
		if len(m.Cols) > 1 {
			for _, step := range []int{3, 7, 11} {
				if len(m.Cols)%step != 0 {
					ds = append(ds, inOrder(m, func(i, n int) int { return i * step % n }))
				}
			}
			ds = append(ds, inOrder(m, func(i, n int) int { return n - 1 - i }), inOrder(m, func(i, n int) int { return (i + 1) % n }))
		}
		for _, r := range picks(len(m.Rows), 12) {
			if r < 0 || r >= len(m.Rows) {
				continue
			}
			for _, ci := range picks(len(m.Cols), 12) {
				if ci < 0 || ci >= len(m.Cols) {
					continue
				}
				if v := m.Rows[r][ci]; isNestedType(m.Cols[ci].Type) {
					ds = append(ds, oneCell(m, r, ci, table1("Zz", "v", "int", 1)))
				} else if ns := near(v); len(ns) > 0 {
					ds = append(ds, oneCell(m, r, ci, ns[0]), oneCell(m, r, ci, ns[len(ns)-1]))
				}
			}
			n := m.Clone()
			n.Rows = append(n.Rows[:r:r], n.Rows[r+1:]...)
			ds = append(ds, n)
			if r > 0 {
				n := m.Clone()
				n.Rows[r], n.Rows[r-1] = n.Rows[r-1], n.Rows[r]
				ds = append(ds, n)
			}
		}
		for _, ci := range picks(len(m.Cols), 12) {
			if ci < 0 || ci >= len(m.Cols) {
				continue
			}
			n := m.Clone()
			n.Cols[ci].Name += "_"
			ds = append(ds, n)
			n = m.Clone() // without the column
			n.Cols = append(n.Cols[:ci:ci], n.Cols[ci+1:]...)
			for r := range n.Rows {
				n.Rows[r] = append(n.Rows[r][:ci:ci], n.Rows[r][ci+1:]...)
			}
			if len(n.Cols) == 0 {
				n.Rows = nil
			}
			ds = append(ds, n)
			for _, ty := range otherTypes(m.Cols[ci].Type) {
				if sameStorage(ty, m.Cols[ci].Type) {
					n = m.Clone()
					n.Cols[ci].Type = ty
					ds = append(ds, n)
				}
			}
		}
		return
	}
	for _, n := range sizeLadder(c.pick(40, 80), c.pick(300, 1100)) {
		n := n
		run(fmt.Sprintf("%d rows", n), func() *MTable { return sizedTable(n, "int", "string", "[]byte", "float64", "*Table") }, diffs)
		run(fmt.Sprintf("%d columns", n), func() *MTable {
			var types []string
			for i := 0; i < n; i++ {
				types = append(types, allTypes[i*7%len(allTypes)])
			}
			if n == 0 {
				return &MTable{Name: "T"}
			}
			return sizedTable(2, types...)
		}, diffs)
		if c.Stopped() {
			return
		}
	}
	for _, n := range sizeLadder(c.pick(70, 300), c.pick(70000, 1<<20)) {
		n := n
		run(fmt.Sprintf("strings and bytes of length %d", n), func() *MTable {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte('a' + i%26)
			}
			return &MTable{Name: "T", Cols: []MCol{{"s", "string"}, {"b", "[]byte"}}, Rows: [][]interface{}{{string(b), b}, {"", []byte{}}}}
		}, func(m *MTable) (ds []*MTable) {
			s := m.Rows[0][0].(string)
			for _, i := range picks(n, 40) {
				if i < 0 || i >= n {
					continue
				}
				x := []byte(s)
				x[i] ^= 1
				ds = append(ds, oneCell(m, 0, 0, string(x)), oneCell(m, 0, 1, x), oneCell(m, 0, 0, s[:i]), oneCell(m, 0, 1, []byte(s[:i])))
			}
			return append(ds, oneCell(m, 0, 0, s+"\x00"), oneCell(m, 0, 1, []byte(s+"\x00")))
		})
	}
	for _, n := range sizeLadder(c.pick(40, 80), c.pick(130, 300)) {
		n := n
		run(fmt.Sprintf("nesting of depth %d", n), func() *MTable { return nestedDeep(n) }, func(m *MTable) (ds []*MTable) {
			for _, at := range picks(n, 20) {
				if at < 0 || at > n {
					continue
				}
				for how := 0; how < 3; how++ {
					x := m.Clone()
					p := x
					for d := 0; d < at; d++ {
						p = p.Rows[0][1].(*MTable)
					}
					if p.Nil || len(p.Rows) == 0 {
						continue
					}
					switch how {
					case 0:
						p.Rows[0][0] = -77
					case 1:
						p.Rows = p.Rows[:len(p.Rows)-1]
					case 2:
						if at == 0 {
							p.Name = "Other"
						} else {
							p.Cols[0].Name = "other"
						}
					}
					ds = append(ds, x)
				}
			}
			return
		})
	}
}

// bigSets: set operations at every place of large sets.
func bigSets(c *Ctx, explore func(desc string, m *MSet, depth, max int)) {
	for _, n := range sizeLadder(c.pick(40, 100), c.pick(300, 1100)) {
		if n < 3 {
			continue
		}
		m := &MSet{Name: "S"}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("F%d", i)
			switch i {
			case 0:
				name = "A"
			case n / 2:
				name = "a"
			case n - 1:
				name = "Aa"
			}
			m.Tables = append(m.Tables, tabNamed(name))
		}
		d := 1
		if n == 9 || c.Thorough && n < 14 {
			d = 2
		}
		explore(fmt.Sprintf("a set of %d tables", n), m, d, 1<<30)
		if c.Stopped() {
			return
		}
	}
}

// bigStores: stores into and reads from tables of every size, by every variant of the typed and the generic accessors.
func bigStores(c *Ctx) {
	run := func(desc string, m *MTable, rows, cols []int) {
		for _, va := range variants {
			for generic := 0; generic < 2; generic++ {
				if generic == 1 && va.must {
					continue
				}
				va, generic := va, generic
				c.Do(func() string { return fmt.Sprintf("%s, %s", desc, setterName([]string{"<type>", "Val"}[generic], va)) }, func(t *T) {
					t.State(fmt.Sprint(desc, va, generic))
					tab := build(m)
					want := m.Clone()
					for _, r := range rows {
						for _, ci := range cols {
							ct, name := "int", "nosuch"
							in := ci >= 0 && ci < len(m.Cols)
							if in {
								ct, name = m.Cols[ci].Type, m.Cols[ci].Name
							}
							ok := in && r >= 0 && r < len(m.Rows)
							stem := methodStem[ct]
							if generic == 1 {
								stem = "Val"
							}
							v := ordinary(ct, r+ci+9)
							var col interface{} = name
							if va.byIndex {
								col = ci
							}
							t.Step(1)
							_, refused, bad := callAcc(tab, setterName(stem, va), va.must, col, r, implVal(v))
							if bad != "" || refused == ok {
								t.Failf("%s(%v, %d, ...): refused %v, want %v %s", setterName(stem, va), col, r, refused, !ok, bad)
								return
							}
							if ok {
								want.Rows[r][ci] = v
							}
							out, refused, bad := callAcc(tab, getterName(stem, va), va.must, col, r)
							t.Step(1)
							if bad != "" || refused == ok {
								t.Failf("%s(%v, %d): refused %v, want %v %s", getterName(stem, va), col, r, refused, !ok, bad)
								return
							}
							if ok && val(modelVal(out, nil)) != val(v) {
								t.Failf("%s(%v, %d) gives %s, stored was %s", getterName(stem, va), col, r, val(modelVal(out, nil)), val(v))
								return
							}
						}
						if o := observe(tab); o.Full() != want.Full() {
							t.Failf("stores into row %d: the table is %s, want %s", r, clip(o.Full(), 500), clip(want.Full(), 500))
							return
						}
					}
					t.Outcome("stored in a large table")
				})
			}
		}
	}
	for _, n := range sizeLadder(c.pick(40, 80), c.pick(300, 1100)) {
		m := wideTable(n%len(allTypes), n)
		run(fmt.Sprintf("%d rows", n), m, picks(n, 12), picks(len(m.Cols), 30))
		var types []string
		for i := 0; i < n; i++ {
			types = append(types, allTypes[i*7%len(allTypes)])
		}
		if n > 0 {
			run(fmt.Sprintf("%d columns", n), sizedTable(3, types...), picks(3, 9), picks(n, 40))
		}
		if c.Stopped() {
			return
		}
	}
}
