package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

type start struct {
	Desc  string
	Model *MTable
	Make  func() *g.Table
}

func mustT(t *g.Table, err error) *g.Table { must(err); return t }

func editStarts() []start {
	two := &MTable{Name: "T", Cols: []MCol{{"a", "int"}, {"A", "string"}}, Rows: [][]interface{}{{1, "x"}, {2, "y"}}}
	three := &MTable{Name: "T", Cols: []MCol{{"aA", "float64"}, {"a", "int"}, {"A", "string"}},
		Rows: [][]interface{}{{1.5, 3, "r"}, {2.5, 1, "p"}, {3.5, 2, "q"}}, Keys: []MKey{{"a", false}, {"A", true}}}
	copied := three.Clone()
	copied.Keys = nil
	part := two.Clone()
	part.Rows = part.Rows[:1]
	return []start{
		{"NewTable", &MTable{Name: "T"}, func() *g.Table { return mustT(g.NewTable("T")) }},
		{"parsed 2x2", two, func() *g.Table { return mustT(g.NewTableFromString("[T]\na A\nint string\n1 \"x\"\n2 \"y\"\n")) }},
		{"built 3x3 with sort keys", three, func() *g.Table { return build(three) }},
		{"NewTableFromMetadata", &MTable{Name: "T", Cols: []MCol{{"A", "int"}, {"a", "string"}}}, func() *g.Table {
			return mustT(g.NewTableFromMetadata("T", []string{"A", "a"}, []string{"int", "string"}))
		}},
		{"Copy of 3x3", copied, func() *g.Table { return mustT(build(three).Copy()) }},
		{"NewTableFromRows of 2x2", part, func() *g.Table { return mustT(build(two).NewTableFromRows("T", 0, 0)) }},
		{"rows but no columns", &MTable{Name: "T", Rows: [][]interface{}{{}, {}}}, func() *g.Table {
			t := mustT(g.NewTable("T"))
			must(t.AppendRows(2))
			return t
		}},
		{"struct-shaped", &MTable{Name: "T", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}}, Struct: true}, func() *g.Table {
			return mustT(g.NewTableFromString("[T]\na int = 1\n"))
		}},
	}
}

func pathDesc(st start, path []Op) string {
	var s []string
	for _, o := range path {
		s = append(s, o.Desc)
	}
	return "start: " + st.Desc + " " + st.Model.Full() + "; " + strings.Join(s, "; ")
}

// runPath executes path on a fresh table; the last op is checked completely.
// With looks, everything is looked up before each edit too.
func runPath(t *T, st start, path []Op, last *MTable, looks bool) {
	tab := st.Make()
	for i, o := range path {
		if looks {
			if err := lookupsAgree(tab, observe(tab), []string{"a", "A", "aA", "U", "zz", ""}); err != nil {
				t.Failf("before %s: lookup disagrees with the grid: %v", o.Desc, err)
				return
			}
		}
		t.Step(1)
		isLast := i == len(path)-1
		err, p := try(func() error { return o.Impl(tab) })
		if !isLast {
			if err != nil || p != "" {
				t.Failf("%s: unexpected error %v %s", o.Desc, err, p)
				return
			}
			continue
		}
		if p != "" {
			if !(o.MayPanic && last == nil) {
				t.Failf("%s panics: %s", o.Desc, p)
			}
			return
		}
		if last == nil {
			if err == nil {
				t.Failf("%s should be refused but gave no error; table is now %s", o.Desc, observe(tab).Full())
			}
			t.Outcome("refused " + o.Desc)
			return
		}
		if err != nil {
			t.Failf("%s: unexpected error: %v", o.Desc, err)
			return
		}
	}
	got := observe(tab).Full()
	if want := last.Full(); got != want {
		t.Failf("table is\n   %s\n  want\n   %s", got, want)
		return
	}
	if err := lookupsAgree(tab, last, []string{"a", "A", "aA", "U", "zz", ""}); err != nil {
		t.Failf("lookup disagrees with the grid: %v", err)
		return
	}
	t.State(got)
	if len(path) > 0 {
		t.Outcome("done " + path[len(path)-1].Desc)
	}
}

type node struct {
	m    *MTable
	path []Op
}

func runG01(c *Ctx) {
	bfsDepth, seqDepth := 2, 3
	if c.Thorough {
		bfsDepth, seqDepth = 3, 4
	}
	for _, st := range editStarts() {
		st := st
		c.Do(func() string { return pathDesc(st, nil) }, func(t *T) { runPath(t, st, nil, st.Model, false) })
		// (A) breadth-first over grid states with the full alphabet
		seen := map[string]bool{st.Model.Full(): true}
		frontier := []node{{st.Model, nil}}
		for d := 0; d < bfsDepth && !c.Stopped(); d++ {
			var next []node
			for _, nd := range frontier {
				for _, op := range editOps(nd.m, 3, 3, false) {
					path := append(append([]Op{}, nd.path...), op)
					nm := op.Model(nd.m)
					c.Do(func() string { return pathDesc(st, path) }, func(t *T) { runPath(t, st, path, nm, false) })
					c.Do(func() string { return pathDesc(st, path) + " (all looked up before each)" }, func(t *T) { runPath(t, st, path, nm, true) })
					if nm != nil {
						k := nm.Full()
						if !seen[k] && d+1 < bfsDepth {
							seen[k] = true
							next = append(next, node{nm, path})
						}
					}
				}
				if c.Stopped() {
					return
				}
			}
			frontier = next
		}
		// (B) all sequences over the reduced alphabet, without merging states
		var rec func(m *MTable, path []Op)
		rec = func(m *MTable, path []Op) {
			if len(path) == seqDepth || c.Stopped() {
				return
			}
			for _, op := range editOps(m, 3, 3, true) {
				p := append(append([]Op{}, path...), op)
				nm := op.Model(m)
				c.Do(func() string { return pathDesc(st, p) }, func(t *T) { runPath(t, st, p, nm, false) })
				c.Do(func() string { return pathDesc(st, p) + " (all looked up before each)" }, func(t *T) { runPath(t, st, p, nm, true) })
				if nm != nil {
					rec(nm, p)
				}
			}
		}
		rec(st.Model, nil)
	}
	bigEdits(c)
	longEdits(c)
	fromMetadata(c)
	typePairs(c)
}

// typePairs: columns and rows taken from another table, for every pair of column types.
func typePairs(c *Ctx) {
	for _, ty1 := range allTypes {
		for _, ty2 := range allTypes {
			for keys := 0; keys < 2; keys++ {
				ty1, ty2, keys := ty1, ty2, keys
				mk := func(name string, ty string, n int) *MTable {
					m := &MTable{Name: name, Cols: []MCol{{"a", ty}, {"A", "int"}}}
					for i := 0; i < n; i++ {
						m.Rows = append(m.Rows, []interface{}{ordinary(ty, i+n), i})
					}
					if keys > 0 {
						m.Keys = []MKey{{"A", true}}
					}
					return m
				}
				for op := 0; op < 3; op++ {
					op := op
					c.Do(func() string {
						return fmt.Sprintf("%s of column type %s from column type %s, keys %v", [3]string{"AppendColsFromTable", "AppendRowsFromTable", "both"}[op], ty1, ty2, keys > 0)
					}, func(t *T) {
						m, src := mk("T", ty1, 2), mk("U", ty2, 3)
						src.Cols = append(src.Cols, MCol{"d", ty2})
						for i := range src.Rows {
							src.Rows[i] = append(src.Rows[i], ordinary(ty2, i))
						}
						if op == 1 { // without the column T lacks
							src.Cols = src.Cols[:2]
							for i := range src.Rows {
								src.Rows[i] = src.Rows[i][:2]
							}
						}
						table, from := build(m), build(src)
						want := m.Clone()
						ok := true
						var err error
						if op != 1 {
							n := want.Clone()
							ok = addColsFromM(n, src)
							if ok {
								want = n
							}
							err = table.AppendColsFromTable(from)
							t.Step(1)
						}
						if ok && err == nil && op != 0 {
							n := want.Clone()
							ok = addRowsFromM(n, src, 0, 1)
							if ok {
								want = n
							}
							err = table.AppendRowsFromTable(from, 0, 1)
							t.Step(1)
						}
						if ok != (err == nil) {
							t.Failf("error %v, want success %v", err, ok)
							return
						}
						t.Outcome(fmt.Sprintf("type pairs: %v", ok))
						if o := observe(table).Full(); o != want.Full() {
							t.Failf("the table is %s, want %s", o, want.Full())
							return
						}
						if o := observe(from).Full(); o != src.Full() {
							t.Failf("the source is %s, was %s", o, src.Full())
							return
						}
						if err := lookupsAgree(table, want, []string{"a", "A", "d"}); err != nil {
							t.Failf("%v", err)
						}
					})
				}
			}
		}
	}
}

// fromMetadata: a table made from every list of names and types has exactly those columns, or is refused.
func fromMetadata(c *Ctx) {
	names, types := []string{"a", "A", "d", "int", "a b", ""}, []string{"int", "[]byte", "string", "float", ""}
	for ln := 0; ln <= 3; ln++ {
		for lt := 0; lt <= 3; lt++ {
			if ln+lt > c.pick(5, 6) {
				continue
			}
			lt := lt
			seqs(len(names), ln, func(ns []int) bool {
				seqs(len(types), lt, func(tys []int) bool {
					var n, ty []string
					for _, i := range ns {
						n = append(n, names[i])
					}
					for _, i := range tys {
						ty = append(ty, types[i])
					}
					c.Do(func() string { return fmt.Sprintf("NewTableFromMetadata(\"T\", %q, %q)", n, ty) }, func(t *T) {
						want := &MTable{Name: "T"}
						ok := len(n) == len(ty)
						for i := 0; ok && i < len(n); i++ {
							ok = addColM(want, n[i], ty[i])
						}
						got, err := g.NewTableFromMetadata("T", n, ty)
						t.Step(1)
						if ok != (err == nil) || ok != (got != nil) {
							t.Failf("error %v, table %v, want success %v", err, got != nil, ok)
							return
						}
						t.Outcome(fmt.Sprintf("from metadata: %v", ok))
						if ok {
							if o := observe(got).Full(); o != want.Full() {
								t.Failf("the table is %s, want %s", o, want.Full())
								return
							}
							if err := lookupsAgree(got, want, []string{"a", "A", "d", "int", "a b", ""}); err != nil {
								t.Failf("%v", err)
							}
						}
					})
					return !c.Stopped()
				})
				return !c.Stopped()
			})
		}
	}
}

func init() {
	register(&Checker{ID: "G01", Run: runG01,
		Rule:        "from 8 starting tables (empty, parsed, built, copied, extracted, from metadata, rows without columns, struct-shaped): (A) breadth-first over grid states with the full edit alphabet to depth 2 (thorough 3), (B) every edit sequence over a reduced alphabet to depth 3 (thorough 4) without merging states; at most 3 columns and 3 rows; each sequence both with and without looking everything up before each edit; after each edit the table read through the public API must equal the grid model and all lookups must agree; the edits also at every place (large: ends, thirds and middle) of tables of every number of rows and of columns up to 40 (thorough 80) and around the powers of two up to 300 (1100), half of them with sort keys on nearly every column; tables from every list of up to 3 names and types of an alphabet; columns and rows taken from another table for every pair of column types",
		Assumptions: []string{"values, names and types outside the small alphabets behave like those inside"}})
}
