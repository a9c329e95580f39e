package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G05",
		Rule: "Every struct-shaped table of 0 or 1 rows with: one column of each type and each boundary value; every ordered type pair with every pair of boundary values; every type triple; every string of 0..2 (thorough 3) awkward characters and of 1..4 (5) layout characters. " +
			"Each is printed by all text methods: the text must be the vertical form (one 'name type [= value]' line per column) and parse back to a struct-shaped table with equal data. " +
			"Every sequence of up to 4 (thorough 6) operations {mark, unmark, append row, delete row, set cell, append column, delete column} is run from 4 start tables; at each state the mark must not have changed the data and the text form must be vertical iff marked with at most one row. " +
			"Every sequence of 1..3 tables (thorough 4) with an independent choice of form per table must parse to the same tables as the table forms alone.",
		Assumptions: []string{"struct-shaped tables have at least one column (a table without columns prints as its name only)", "rune and time cells as in G04"},
		Run:         runG05,
	})
}

// verticalForm tells whether the text is the vertical form of the table.
func verticalForm(text string, m *MTable) error {
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	if lines[0] != "["+m.Name+"]" {
		return fmt.Errorf("first line %q", lines[0])
	}
	lines = lines[1:]
	if len(lines) != len(m.Cols) {
		return fmt.Errorf("%d lines for %d columns", len(lines), len(m.Cols))
	}
	for i, l := range lines {
		head := strings.Fields(l)
		if len(head) < 2 || head[0] != m.Cols[i].Name || head[1] != m.Cols[i].Type {
			return fmt.Errorf("line %q for column %v", l, m.Cols[i])
		}
		if len(m.Rows) == 0 && len(head) != 2 || len(m.Rows) == 1 && (len(head) < 4 || head[2] != "=") {
			return fmt.Errorf("line %q for column %v with %d rows", l, m.Cols[i], len(m.Rows))
		}
	}
	return nil
}

func textForms(tab *g.Table) []struct{ name, text string } {
	return []struct{ name, text string }{{"StringPadded", tab.StringPadded()}, {"StringUnpadded", tab.StringUnpadded()}, {"String", tab.String()}}
}

// structTextOK checks the text forms of a table against its model (struct-shaped or not).
func structTextOK(t *T, tab *g.Table, m *MTable) {
	for _, f := range textForms(tab) {
		t.Step(2)
		vert := m.Struct && len(m.Rows) <= 1 && len(m.Cols) > 0
		err := verticalForm(f.text, m)
		if vert && err != nil {
			t.Failf("%s() is not the vertical form: %v\n%s", f.name, err, clip(f.text, 500))
			return
		}
		if !vert && err == nil && len(m.Cols) > 0 {
			t.Failf("%s() is the vertical form (mark %v, %d rows)\n%s", f.name, m.Struct, len(m.Rows), clip(f.text, 500))
			return
		}
		got, err := g.NewTableFromString(f.text)
		if err != nil {
			t.Failf("%s() does not parse: %v\n%s", f.name, err, clip(f.text, 500))
			return
		}
		o := observe(got)
		if d := sameData(o, m); d != "" {
			t.Failf("%s() parses to different data: %s\n%s", f.name, d, clip(f.text, 500))
			return
		}
		if o.Struct != vert {
			t.Failf("%s() parses to struct shape %v, want %v\n%s", f.name, o.Struct, vert, clip(f.text, 500))
			return
		}
	}
}

func runG05(c *Ctx) {
	histories(c, c.pick(1, 2), roNamed("String", "StringUnpadded", "set.String", "IsStructShape"))
	one := func(mk func() *MTable) {
		c.Do(func() string { return mk().Full() }, func(t *T) {
			m := mk()
			t.State(m.Full())
			plain := m.Clone()
			plain.Struct = false
			tab := build(plain)
			structTextOK(t, tab, plain) // unmarked: horizontal form
			must(tab.SetStructShape(true))
			if d := sameData(observe(tab), m); d != "" {
				t.Failf("SetStructShape(true) changed the table: %s", d)
				return
			}
			structTextOK(t, tab, m)
		})
	}
	for _, a := range plainTypes {
		da := domain(a)
		one(func() *MTable { return &MTable{Name: "T", Struct: true, Cols: []MCol{{"c", a}}} })
		for i := range da {
			one(func() *MTable { m := table1("T", "c", a, fresh(da[i])); m.Struct = true; return m })
			one(func() *MTable { m := table1("T", "c", a, fresh(da[i]), fresh(da[0])); m.Struct = true; return m })
		}
		for _, b := range plainTypes {
			db := domain(b)
			one(func() *MTable { return &MTable{Name: "T", Struct: true, Cols: []MCol{{"c", a}, {"d", b}}} })
			for i := range da {
				for j := range db {
					if c.Stopped() {
						return
					}
					one(func() *MTable {
						return &MTable{Name: "T", Struct: true, Cols: []MCol{{"c", a}, {"d", b}}, Rows: [][]interface{}{{fresh(da[i]), fresh(db[j])}}}
					})
				}
			}
			for _, e := range plainTypes {
				one(func() *MTable {
					return &MTable{Name: "_9", Struct: true, Cols: []MCol{{"c", a}, {"D_d", b}, {"e5", e}}, Rows: [][]interface{}{{ordinary(a, 0), ordinary(b, 1), ordinary(e, 2)}}}
				})
			}
		}
	}
	n := len(awkwardStrings)
	for l := 0; l <= c.pick(2, 3); l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= n
		}
		for k := 0; k < total && !c.Stopped(); k++ {
			s := ""
			for i, x := 0, k; i < l; i++ {
				s += awkwardStrings[x%n]
				x /= n
			}
			one(func() *MTable {
				return &MTable{Name: "T", Struct: true, Cols: []MCol{{"s", "string"}, {"i", "int"}, {"t", "string"}}, Rows: [][]interface{}{{s, 1, s + "="}}}
			})
		}
	}
	for _, v := range layoutStrings(c.pick(4, 5)) {
		v := v
		one(func() *MTable {
			return &MTable{Name: "T", Struct: true, Cols: []MCol{{"s", "string"}, {"i", "int"}}, Rows: [][]interface{}{{v, 1}}}
		})
	}
	// Operation sequences.
	starts := []*MTable{
		{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "string"}}},
		{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "string"}}, Rows: [][]interface{}{{1, "x"}}},
		{Name: "T", Struct: true, Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}, {2}}},
		{Name: "T", Struct: true, Cols: []MCol{{"f", "float64"}, {"y", "[]byte"}}, Rows: [][]interface{}{{1.5, []byte{1}}}},
	}
	type op struct {
		name string
		f    func(tab *g.Table, m *MTable) bool
	}
	ops := []op{
		{"mark", func(tab *g.Table, m *MTable) bool { must(tab.SetStructShape(true)); m.Struct = true; return true }},
		{"unmark", func(tab *g.Table, m *MTable) bool { must(tab.SetStructShape(false)); m.Struct = false; return true }},
		{"append row", func(tab *g.Table, m *MTable) bool {
			must(tab.AppendRow())
			var r []interface{}
			for _, c := range m.Cols {
				r = append(r, zeroOf(c.Type))
			}
			m.Rows = append(m.Rows, r)
			return true
		}},
		{"delete row", func(tab *g.Table, m *MTable) bool {
			if len(m.Rows) == 0 {
				return false
			}
			must(tab.DeleteRow(0))
			m.Rows = m.Rows[1:]
			return true
		}},
		{"set cell", func(tab *g.Table, m *MTable) bool {
			if len(m.Rows) == 0 || len(m.Cols) == 0 {
				return false
			}
			r := len(m.Rows) - 1
			v := ordinary(m.Cols[0].Type, len(m.Cols))
			setCell(tab, m.Cols[0].Type, 0, r, implVal(v))
			m.Rows[r][0] = v
			return true
		}},
		{"append col", func(tab *g.Table, m *MTable) bool {
			n := fmt.Sprintf("n%d", len(m.Cols))
			if m.Col(n) >= 0 {
				return false
			}
			must(tab.AppendCol(n, "bool"))
			m.Cols = append(m.Cols, MCol{n, "bool"})
			for i := range m.Rows {
				m.Rows[i] = append(m.Rows[i], false)
			}
			return true
		}},
		{"delete col", func(tab *g.Table, m *MTable) bool {
			if len(m.Cols) < 2 {
				return false
			}
			must(tab.DeleteColByColIndex(0))
			m.Cols = m.Cols[1:]
			for i := range m.Rows {
				m.Rows[i] = m.Rows[i][1:]
			}
			return true
		}},
	}
	for si := range starts {
		var seq func(path []int)
		max := c.pick(4, 6)
		seq = func(path []int) {
			if c.Stopped() {
				return
			}
			if len(path) > 0 {
				p := append([]int{}, path...)
				c.Do(func() string {
					d := starts[si].Full() + ":"
					for _, i := range p {
						d += " " + ops[i].name + ";"
					}
					return d
				}, func(t *T) {
					m := starts[si].Clone()
					tab := build(m)
					for _, i := range p {
						if !ops[i].f(tab, m) {
							return
						}
						t.Step(1)
					}
					t.State(m.Full())
					if got := observe(tab).Full(); got != m.Full() {
						t.Failf("table is %s, want %s", got, m.Full())
						return
					}
					structTextOK(t, tab, m)
				})
			}
			if len(path) < max {
				for i := range ops {
					seq(append(path, i))
				}
			}
		}
		seq(nil)
	}
	// Mixed texts: every choice of form per table.
	pal := []*MTable{
		{Name: "T", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}}},
		{Name: "T", Cols: []MCol{{"a", "int"}, {"s", "string"}}, Rows: [][]interface{}{{1, "x = y"}}},
		{Name: "T", Cols: []MCol{{"b", "bool"}, {"y", "[]byte"}}},
		{Name: "T", Cols: []MCol{{"s", "string"}, {"f", "float32"}}, Rows: [][]interface{}{{"[U]", float32(1.5)}, {"", float32(2)}}},
		{Name: "T"},
	}
	var mix func(l int, idx []int)
	mix = func(l int, idx []int) {
		if c.Stopped() {
			return
		}
		if len(idx) == l {
			ix := append([]int{}, idx...)
			for forms := 0; forms < 2<<uint(l); forms++ {
				forms := forms
				c.Do(func() string { return fmt.Sprintf("mixed forms %b of palette tables %v", forms, ix) }, func(t *T) {
					want := &MSet{Name: "S"}
					text := "[[S]]\n\n"
					for i, x := range ix {
						m := pal[x].Clone()
						m.Name = fmt.Sprintf("T%d", i)
						m.Struct = forms&(1<<uint(i)) != 0
						want.Tables = append(want.Tables, m)
						if i > 0 {
							text += "\n"
						}
						if forms&(1<<uint(l)) != 0 {
							text += build(m).StringUnpadded()
						} else {
							text += build(m).String()
						}
					}
					t.State(text)
					t.Step(1)
					got, err := g.NewTableSetFromString(text)
					if err != nil {
						t.Failf("does not parse: %v\n%s", err, text)
						return
					}
					if d := sameSet(observeSet(got), want); d != "" {
						t.Failf("%s\n%s", d, text)
					}
					for i, m := range want.Tables {
						tab, err := got.GetTableByTableIndex(i)
						must(err)
						if s, _ := tab.IsStructShape(); s != (m.Struct && len(m.Rows) <= 1 && len(m.Cols) > 0) {
							t.Failf("table %d: struct shape %v\n%s", i, s, text)
						}
					}
				})
			}
			return
		}
		for i := range pal {
			mix(l, append(idx, i))
		}
	}
	for l := 1; l <= c.pick(3, 4); l++ {
		mix(l, nil)
	}
}
