package main

// G16 equality is exactly sameness of content (column order does not matter).

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// eqCanon is the content of a table, columns in name order. loose makes -0 and 0 the same and keeps only the instant of a time.
func eqCanon(m *MTable, loose bool) string {
	if m.Nil {
		return "nil-table"
	}
	var b strings.Builder
	idx := make([]int, len(m.Cols))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return m.Cols[idx[i]].Name < m.Cols[idx[j]].Name })
	fmt.Fprintf(&b, "[%s] %d x %d", m.Name, len(m.Cols), len(m.Rows))
	for _, i := range idx {
		fmt.Fprintf(&b, " %q:%s", m.Cols[i].Name, m.Cols[i].Type)
	}
	for _, r := range m.Rows {
		b.WriteString(" (")
		for _, i := range idx {
			if n, ok := r[i].(*MTable); ok {
				b.WriteString("T{" + eqCanon(n, loose) + "}")
			} else {
				canonVal(&b, r[i], loose)
			}
			b.WriteString(",")
		}
		b.WriteString(")")
	}
	return b.String()
}

type eqItem struct {
	desc          string
	m             *MTable
	t             *g.Table
	strict, loose string
}

func eqMk(desc string, m *MTable, t *g.Table) *eqItem {
	return &eqItem{desc: desc, m: m, t: t, strict: eqCanon(m, false), loose: eqCanon(m, true)}
}

// checkEq compares the verdict in both directions with sameness of content.
func checkEq(t *T, a, b *eqItem) {
	ab, e1 := a.t.Equals(b.t)
	ba, e2 := b.t.Equals(a.t)
	t.Step(2)
	if ab != (e1 == nil) || ba != (e2 == nil) {
		t.Failf("equals and err disagree: %v, %v / %v, %v", ab, e1, ba, e2)
		return
	}
	if ab != ba {
		t.Failf("not symmetric: a.Equals(b) = %v (%v), b.Equals(a) = %v (%v)", ab, e1, ba, e2)
		return
	}
	if a.strict == b.strict && !ab {
		t.Failf("reported different though the content is the same: %v", e1)
		return
	}
	if a.loose != b.loose && ab {
		t.Failf("reported equal though the content differs")
		return
	}
	if ab {
		t.Outcome("equal")
	} else {
		t.Outcome("different: " + firstWords(e1.Error()))
	}
}

func firstWords(s string) string {
	for _, k := range []string{"row count", "col count", "col type", "type", "Name()", "does not exist", "no col", "colIndex", "NilTable", "nested"} {
		if strings.Contains(s, k) {
			return k
		}
	}
	return "other"
}

// otherType gives a different type; stored alike where possible, which is the hardest to tell apart.
func otherTypes(typ string) []string {
	switch typ {
	case "[]byte":
		return []string{"[]uint8"}
	case "[]uint8":
		return []string{"[]byte"}
	case "byte":
		return []string{"uint8", "int8"}
	case "uint8":
		return []string{"byte", "int8"}
	case "rune":
		return []string{"int32", "uint32"}
	case "int32":
		return []string{"rune", "int"}
	case "int":
		return []string{"int64", "uint"}
	case "string":
		return []string{"[]byte"}
	case "float32":
		return []string{"float64"}
	}
	return []string{"string"}
}

// eqDiffs lists every table made from m by one step. Most steps change the content; some do not.
func eqDiffs(m *MTable, depth int) (out []*MTable) {
	add := func(f func(n *MTable)) {
		n := m.Clone()
		n.Keys = nil
		f(n)
		if len(n.Rows) > 1 {
			n.Struct = false
		}
		names := map[string]bool{}
		for _, c := range n.Cols {
			if names[c.Name] {
				return
			}
			names[c.Name] = true
		}
		out = append(out, n)
	}
	if m.Nil {
		return []*MTable{{Name: "N"}}
	}
	add(func(n *MTable) { n.Name = "Tt" })
	add(func(n *MTable) { n.Name = strings.ToLower(n.Name) })
	for i := range m.Cols {
		i := i
		add(func(n *MTable) { n.Cols[i].Name = "zz" })
		add(func(n *MTable) { n.Cols[i].Name = strings.ToUpper(n.Cols[i].Name) })
		if i > 0 { // two names exchanged, types and cells where they are
			add(func(n *MTable) { n.Cols[i].Name, n.Cols[i-1].Name = n.Cols[i-1].Name, n.Cols[i].Name })
		}
		add(func(n *MTable) {
			n.Cols = append(n.Cols[:i:i], n.Cols[i+1:]...)
			for r := range n.Rows {
				n.Rows[r] = append(n.Rows[r][:i:i], n.Rows[r][i+1:]...)
			}
			if len(n.Cols) == 0 {
				n.Rows = nil
			}
			n.Keys = nil
		})
		for _, ty := range otherTypes(m.Cols[i].Type) {
			add(func(n *MTable) {
				n.Cols[i].Type = ty
				for r := range n.Rows {
					if !sameStorage(ty, m.Cols[i].Type) {
						n.Rows[r][i] = zeroOf(ty)
					}
				}
				n.Keys = nil
			})
		}
		if i > 0 {
			add(func(n *MTable) { // columns exchanged whole: the same content
				n.Cols[i], n.Cols[i-1] = n.Cols[i-1], n.Cols[i]
				for r := range n.Rows {
					n.Rows[r][i], n.Rows[r][i-1] = n.Rows[r][i-1], n.Rows[r][i]
				}
			})
		}
	}
	add(func(n *MTable) {
		n.Cols = append(n.Cols, MCol{"extra", "int"})
		for r := range n.Rows {
			n.Rows[r] = append(n.Rows[r], 0)
		}
	})
	add(func(n *MTable) {
		n.Cols = append([]MCol{{"extra", "string"}}, n.Cols...)
		for r := range n.Rows {
			n.Rows[r] = append([]interface{}{""}, n.Rows[r]...)
		}
	})
	for r := range m.Rows {
		r := r
		add(func(n *MTable) { n.Rows = append(n.Rows[:r:r], n.Rows[r+1:]...) })
		add(func(n *MTable) {
			dup := m.Clone().Rows[r]
			n.Rows = append(n.Rows[:r:r], append([][]interface{}{dup}, n.Rows[r:]...)...)
		})
		if r > 0 {
			add(func(n *MTable) { n.Rows[r], n.Rows[r-1] = n.Rows[r-1], n.Rows[r] })
		}
		for ci, col := range m.Cols {
			ci := ci
			var vs []interface{}
			if col.Type == "*Table" {
				vs = append(vs, &MTable{Nil: true}, &MTable{Name: "N"})
				if depth > 0 {
					for _, x := range eqDiffs(m.Rows[r][ci].(*MTable), depth-1) {
						vs = append(vs, x)
					}
				}
			} else {
				vs = []interface{}{zeroOf(col.Type), ordinary(col.Type, 3), ordinary(col.Type, 20)}
				vs = append(vs, near(m.Rows[r][ci])...)
			}
			for _, v := range vs {
				v := v
				add(func(n *MTable) { n.Rows[r][ci] = fresh(v) })
			}
			if r > 0 { // one cell exchanged with the cell above
				add(func(n *MTable) { n.Rows[r][ci], n.Rows[r-1][ci] = n.Rows[r-1][ci], n.Rows[r][ci] })
			}
		}
	}
	if len(m.Cols) > 0 && isSortable(m.Cols[0].Type) {
		add(func(n *MTable) { n.Keys = []MKey{{n.Cols[0].Name, true}} })
	}
	if len(m.Rows) <= 1 {
		add(func(n *MTable) { n.Struct = !n.Struct })
	}
	return
}

// near lists values one small step from v.
func near(v interface{}) []interface{} {
	switch x := v.(type) {
	case string:
		return []interface{}{x + " ", x + "\x00", strings.ToUpper(x)}
	case []byte:
		r := []interface{}{append(append([]byte{}, x...), 0)}
		for i := range x {
			y := append([]byte{}, x...)
			y[i] ^= 0x80
			r = append(r, y, append([]byte{}, x[:i]...))
		}
		return r
	case float64:
		return []interface{}{math.Nextafter(x, math.Inf(1)), math.NaN(), math.Inf(1), -x}
	case float32:
		return []interface{}{math.Nextafter32(x, 1e30), float32(math.NaN()), float32(math.Inf(-1)), -x}
	case time.Time:
		return []interface{}{x.Add(1), x.Add(-time.Second), x.In(time.FixedZone("", 3600)), x.Add(time.Hour)}
	case int:
		return []interface{}{x + 1, -x, x + 1<<32}
	case int64:
		return []interface{}{x + 1, x + 1<<32, x ^ math.MinInt64}
	case uint64:
		return []interface{}{x + 1, x ^ 1<<63, x ^ 1<<32}
	case uint:
		return []interface{}{x + 1, x ^ 1<<63}
	case bool:
		return []interface{}{!x}
	}
	return nil
}

// eqBuilds makes the same table by different histories.
func eqBuilds(m *MTable) (bs []struct {
	desc string
	f    func() *g.Table
}) {
	add := func(d string, f func() *g.Table) {
		bs = append(bs, struct {
			desc string
			f    func() *g.Table
		}{d, f})
	}
	rev := func(n *MTable) *MTable {
		n = n.Clone()
		for i, j := 0, len(n.Cols)-1; i < j; i, j = i+1, j-1 {
			n.Cols[i], n.Cols[j] = n.Cols[j], n.Cols[i]
			for r := range n.Rows {
				n.Rows[r][i], n.Rows[r][j] = n.Rows[r][j], n.Rows[r][i]
			}
		}
		return n
	}
	add("columns in reverse order", func() *g.Table { return build(rev(m)) })
	add("Copy()", func() *g.Table { x, err := build(m).Copy(); must(err); return x })
	add("CopyDeep()", func() *g.Table { x, err := build(m).CopyDeep(); must(err); return x })
	add("extra first column deleted", func() *g.Table {
		n := m.Clone()
		n.Struct = false
		n.Cols = append([]MCol{{"extra", "string"}}, n.Cols...)
		for r := range n.Rows {
			n.Rows[r] = append([]interface{}{"x"}, n.Rows[r]...)
		}
		x := build(n)
		must(x.DeleteColByColIndex(0))
		return x
	})
	if len(m.Cols) > 0 {
		add("extra rows deleted", func() *g.Table {
			n := m.Clone()
			n.Struct = false
			n.Rows = append([][]interface{}{m.Clone().zeroRow()}, append(n.Rows, m.zeroRow())...)
			x := build(n)
			must(x.DeleteRow(len(n.Rows) - 1))
			must(x.DeleteRow(0))
			return x
		})
		add("rows reversed twice", func() *g.Table {
			n := m.Clone()
			for i, j := 0, len(n.Rows)-1; i < j; i, j = i+1, j-1 {
				n.Rows[i], n.Rows[j] = n.Rows[j], n.Rows[i]
			}
			x := build(n)
			must(x.Reverse())
			return x
		})
		add("renamed into place", func() *g.Table {
			n := m.Clone()
			n.Name = "Other"
			n.Cols[0].Name = "tmp"
			n.Keys = nil
			x := build(n)
			must(x.RenameCol("tmp", m.Cols[0].Name))
			must(x.SetName(m.Name))
			return x
		})
		add("taken out of a set", func() *g.Table {
			ts := buildSet(&MSet{Tables: []*MTable{{Name: "First"}, m}})
			x, err := ts.GetTableByTableIndex(1)
			must(err)
			return x
		})
	}
	return
}

func (m *MTable) zeroRow() (r []interface{}) {
	for _, c := range m.Cols {
		r = append(r, zeroOf(c.Type))
	}
	return
}

func eqBases() (ms []*MTable) {
	for _, typ := range allTypes {
		ms = append(ms, &MTable{Name: "T", Cols: []MCol{{"a", typ}, {"k", "int"}}, Rows: [][]interface{}{{ordinary(typ, 0), 1}, {ordinary(typ, 1), 2}}})
	}
	ms = append(ms,
		&MTable{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "int"}, {"c", "string"}}, Rows: [][]interface{}{{1, 2, "p"}, {2, 1, "q"}, {1, 2, "p"}}},
		&MTable{Name: "T", Cols: []MCol{{"t", "*Table"}, {"k", "int"}, {"u", "*Table"}}, Rows: [][]interface{}{
			{table1("In", "v", "string", "x"), 1, &MTable{Nil: true}},
			{&MTable{Name: "In", Cols: []MCol{{"w", "*Table"}, {"v", "[]byte"}}, Rows: [][]interface{}{{table1("L", "f", "float64", 1.5), []byte{1}}}}, 2, &MTable{Name: "N"}}}},
	)
	return
}

func runG16(c *Ctx) {
	histories(c, c.pick(2, 2), roNamed("Equals", "Equals neighbour", "set.Equals"))
	bigEquals(c)
	// A. A base table and everything up to two steps from it: all ordered pairs.
	for _, base := range eqBases() {
		base := base
		steps := 1
		if c.Thorough || base.Cols[0].Type == "*Table" && len(base.Cols) == 2 {
			steps = 2
		}
		var items []*eqItem
		mk := func() {
			if items != nil {
				return
			}
			fam := []*MTable{base}
			seen := map[string]bool{base.Full(): true}
			lo := 0
			for s := 0; s < steps; s++ {
				hi := len(fam)
				for _, m := range fam[lo:hi] {
					for _, d := range eqDiffs(m, 2) {
						if k := d.Full(); !seen[k] {
							seen[k] = true
							fam = append(fam, d)
						}
					}
				}
				lo = hi
			}
			for _, m := range fam {
				items = append(items, eqMk("", m, build(m)))
			}
		}
		mk()
		for _, a := range items {
			a := a
			c.Do(func() string { return "pairs of " + a.m.Full() + " with the family of " + base.Full() }, func(t *T) {
				t.State(a.strict)
				for _, b := range items {
					checkEq(t, a, b)
					if t.Failed() {
						t.fail += "\n  a: " + a.m.Full() + "\n  b: " + b.m.Full()
						return
					}
				}
			})
			if c.Stopped() {
				return
			}
		}
	}

	// B. For every type, every pair of values, in every position of a small table.
	for _, typ := range allTypes {
		typ := typ
		vs := extremes(typ)
		if c.Thorough {
			for _, v := range append([]interface{}{}, vs...) {
				vs = append(vs, near(v)...)
			}
		}
		if typ == "*Table" {
			for _, x := range nestings(false, uniOpt{Types: allTypes}) {
				vs = append(vs, x)
			}
			if !c.Thorough && len(vs) > 120 {
				vs = vs[:120]
			}
		}
		for rows := 1; rows <= 3; rows++ {
			for r := 0; r < rows; r++ {
				for cols := 1; cols <= 3; cols++ {
					if typ == "*Table" && cols*rows > 4 {
						continue
					}
					for ci := 0; ci < cols; ci++ {
						rows, r, cols, ci := rows, r, cols, ci
						mkOne := func(v interface{}) *MTable {
							m := &MTable{Name: "T"}
							for k := 0; k < cols; k++ {
								m.Cols = append(m.Cols, MCol{string(rune('a' + k)), typ})
							}
							for q := 0; q < rows; q++ {
								m.Rows = append(m.Rows, m.zeroRow())
							}
							m.Rows[r][ci] = fresh(v)
							return m
						}
						var items []*eqItem
						for _, v := range vs {
							m := mkOne(v)
							items = append(items, eqMk("", m, build(m)))
						}
						for i, a := range items {
							a, i := a, i
							c.Do(func() string {
								return fmt.Sprintf("%s at row %d of %d, column %d of %d: value %s with every other", typ, r, rows, ci, cols, val(vs[i]))
							}, func(t *T) {
								for _, b := range items {
									checkEq(t, a, b)
									if t.Failed() {
										t.fail += "\n  a: " + a.m.Full() + "\n  b: " + b.m.Full()
										return
									}
								}
							})
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	}

	// C. Every table with up to 2 columns and 2 (thorough: 3) rows over few values and names: all ordered pairs.
	var fam []*MTable
	inner := []interface{}{&MTable{Nil: true}, table1("N", "n", "int", 1), table1("N", "n", "int", 2), table1("M", "n", "int", 1)}
	small := map[string][]interface{}{"int": {0, 1}, "string": {"", "a"}, "*Table": inner, "[]byte": {[]byte{}, []byte{0}}, "float64": {math.NaN(), 0.0}}
	types := []string{"int", "string", "*Table", "[]byte", "float64"}
	names := []string{"a", "b"}
	maxR := 2
	for _, tn := range []string{"T", "U"} {
		fam = append(fam, &MTable{Name: tn})
		for _, ty1 := range types {
			for _, n1 := range names {
				for _, seq := range eqSeqs(len(small[ty1]), maxR) {
					m := &MTable{Name: tn, Cols: []MCol{{n1, ty1}}}
					for _, s := range seq {
						m.Rows = append(m.Rows, []interface{}{fresh(small[ty1][s])})
					}
					fam = append(fam, m)
				}
			}
			for _, ty2 := range types {
				if tn == "U" || (!c.Thorough && ty1 != "int" && ty2 != "int" && ty1 != "*Table") {
					continue
				}
				na, nb := len(small[ty1]), len(small[ty2])
				for o := 0; o < 2; o++ {
					for _, seq := range eqSeqs(na*nb, c.pick(1, 2)) {
						m := &MTable{Name: tn, Cols: []MCol{{names[o], ty1}, {names[1-o], ty2}}}
						for _, s := range seq {
							m.Rows = append(m.Rows, []interface{}{fresh(small[ty1][s/nb]), fresh(small[ty2][s%nb])})
						}
						fam = append(fam, m)
					}
				}
			}
		}
	}
	var items []*eqItem
	for _, m := range fam {
		items = append(items, eqMk("", m, build(m)))
	}
	c.Note("small tables compared with each other", 0)
	if c.Shard == 0 {
		c.Note("small tables compared with each other", int64(len(items)))
	}
	for _, a := range items {
		a := a
		c.Do(func() string { return "all small tables with " + a.m.Full() }, func(t *T) {
			t.State(a.strict)
			for _, b := range items {
				checkEq(t, a, b)
				if t.Failed() {
					t.fail += "\n  a: " + a.m.Full() + "\n  b: " + b.m.Full()
					return
				}
			}
		})
		if c.Stopped() {
			return
		}
	}

	// D. The same content by different histories, and with itself and its near misses.
	var src []*MTable
	src = append(src, eqBases()...)
	src = append(src, copySources()...)
	for _, typ := range allTypes {
		src = append(src, table1("T", "c", typ, domain(typ)...))
	}
	for _, m := range src {
		m := m
		for _, bd := range eqBuilds(m) {
			bd := bd
			c.Do(func() string { return m.Full() + " built another way: " + bd.desc }, func(t *T) {
				t.State(m.Full())
				a, b := eqMk("", m, build(m)), eqMk("", m, bd.f())
				checkEq(t, a, b)
				if t.Failed() {
					return
				}
				checkEq(t, b, b)
				for _, d := range eqDiffs(m, 1) {
					if t.Failed() {
						return
					}
					checkEq(t, b, eqMk("", d, build(d)))
					if t.Failed() {
						t.fail += "\n  compared with " + d.Full()
					}
				}
				if got := observe(a.t).Full(); got != m.Full() {
					t.Failf("comparing changed the table: %s, now %s", m.Full(), got)
				}
			})
			if c.Stopped() {
				return
			}
		}
	}

	// E. Table sets: every sequence of up to 3 tables from a palette, all ordered pairs.
	pal := []*MTable{{Name: "A"}, table1("B", "v", "float64", math.NaN()), table1("B", "v", "float64", 1.0), table1("C", "t", "*Table", table1("N", "n", "int", 1)),
		table1("C", "t", "*Table", table1("N", "n", "int", 2)), table1("A", "v", "int")}
	var sets []*MSet
	for _, seq := range eqSeqs(len(pal), c.pick(3, 4)) {
		s := &MSet{}
		names := map[string]bool{}
		for _, i := range seq {
			if names[pal[i].Name] {
				s = nil
				break
			}
			names[pal[i].Name] = true
			s.Tables = append(s.Tables, pal[i])
		}
		if s != nil {
			sets = append(sets, s)
		}
	}
	var tss []*g.TableSet
	var canon []string
	for _, s := range sets {
		tss = append(tss, buildSet(s))
		k := ""
		for _, m := range s.Tables {
			k += eqCanon(m, false) + "|"
		}
		canon = append(canon, k)
	}
	for i := range sets {
		i := i
		c.Do(func() string { return "all small sets with " + sets[i].Full() }, func(t *T) {
			for j := range sets {
				eq, err := tss[i].Equals(tss[j])
				t.Step(1)
				want := canon[i] == canon[j]
				if eq != want || (err == nil) != want {
					t.Failf("Equals gives %v, %v; want %v\n  with %s", eq, err, want, sets[j].Full())
					return
				}
				if want {
					t.Outcome("equal sets")
				} else {
					t.Outcome("different sets")
				}
			}
			copied, err := tss[i].Copy()
			if err != nil {
				t.Failf("Copy: %v", err)
				return
			}
			if eq, err := tss[i].Equals(copied); !eq || err != nil {
				t.Failf("a set is not equal to its copy: %v, %v", eq, err)
			}
		})
		if c.Stopped() {
			return
		}
	}

	byteSlicesAgree(c)

	// F. Comparing with nothing is an error, not a crash and not equality.
	for i := 0; i < 4; i++ {
		i := i
		c.Do(func() string { return fmt.Sprintf("comparison %d with nil", i) }, func(t *T) {
			var eq bool
			var err error
			var nt *g.Table
			var ns *g.TableSet
			switch i {
			case 0:
				eq, err = build(pal[0]).Equals(nt)
			case 1:
				eq, err = nt.Equals(build(pal[0]))
			case 2:
				eq, err = buildSet(&MSet{}).Equals(ns)
			case 3:
				eq, err = ns.Equals(buildSet(&MSet{}))
			}
			if eq || err == nil {
				t.Failf("Equals gives %v, %v", eq, err)
			}
		})
	}
}

// byteSlicesAgree: Uint8SliceEquals on every pair of slices of up to 3 (4) bytes.
func byteSlicesAgree(c *Ctx) {
	alpha := []byte{0, 1, 2, 255}
	var all [][]byte
	for _, s := range eqSeqs(len(alpha), c.pick(3, 4)) {
		b := make([]byte, 0, 8)
		for _, i := range s {
			b = append(b, alpha[i])
		}
		all = append(all, b)
	}
	for _, a := range all {
		c.Do(func() string { return fmt.Sprintf("Uint8SliceEquals(%v, ...)", a) }, func(t *T) {
			for _, b := range all {
				x, y := append([]byte{}, a...), append([]byte{}, b...)
				eq, err := g.Uint8SliceEquals(x, y)
				t.Step(1)
				if want := string(a) == string(b); eq != want || (err == nil) != want {
					t.Failf("Uint8SliceEquals(%v, %v) = %v, %v", a, b, eq, err)
					return
				}
				if string(x) != string(a) || string(y) != string(b) {
					t.Failf("Uint8SliceEquals changes its arguments %v, %v to %v, %v", a, b, x, y)
					return
				}
			}
			if eq, err := g.Uint8SliceEquals(nil, a); len(a) > 0 && (eq || err == nil) {
				t.Failf("Uint8SliceEquals(nil, %v) = %v, %v", a, eq, err)
			}
			if eq, err := g.Uint8SliceEquals(a, nil); len(a) > 0 && (eq || err == nil) {
				t.Failf("Uint8SliceEquals(%v, nil) = %v, %v", a, eq, err)
			}
		})
	}
	c.Do(func() string { return "Uint8SliceEquals(nil, nil)" }, func(t *T) {
		if eq, err := g.Uint8SliceEquals(nil, nil); !eq || err != nil {
			t.Failf("= %v, %v", eq, err)
		}
	})
}

// eqSeqs lists all sequences over 0..n-1 of length 0 to l.
func eqSeqs(n, l int) (r [][]int) {
	r = [][]int{{}}
	lo := 0
	for d := 0; d < l; d++ {
		hi := len(r)
		for _, s := range r[lo:hi] {
			for i := 0; i < n; i++ {
				r = append(r, append(append([]int{}, s...), i))
			}
		}
		lo = hi
	}
	return
}

func init() {
	register(&Checker{
		ID:   "G16",
		Rule: "all ordered pairs of (A) every base table and the tables one step (thorough: two steps) of difference from it, for every column type; (B) every pair of boundary values of every type at every position of a table up to 3 x 3; (C) every table with up to 2 columns and 2 rows over 5 types, 2 names, 2 table names and few values; (D) the same content reached by different histories, with each near miss; (E) every table set of up to 3 (thorough: 4) tables from a palette. A case is one table against its whole family; a transition is one comparison; tables of every number of rows and columns up to 40 (80) and around the powers of two up to 300 (1100), strings and bytes up to 70000 (1 MB) long, nestings up to 130 (300) deep, with one difference at each of many places; columns of wide tables reversed, rotated and strided",
		Assumptions: []string{
			"the order of columns is not part of the content (doc comment of Equals); -0 against 0 and one instant in two time zones may be called either, but symmetrically",
			"the shape, sort keys and the name of a table set are not part of the content",
		},
		Run: runG16,
	})
}
