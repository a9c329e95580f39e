package main

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// one operation on a table set
type setOp struct {
	Desc  string
	Model func(s *MSet) bool // in place; false = must be refused
	Impl  func(w *setWorld) error
}

type setWorld struct {
	ts      *g.TableSet
	handles map[string]*g.Table // by current name
	old     []*g.TableSet       // sets left behind by Copy, with what they must still hold
	oldM    []*MSet
}

func tabNamed(n string) *MTable {
	h := 0
	for _, r := range n {
		h = h*7 + int(r)
	}
	return &MTable{Name: n, Cols: []MCol{{"k", "int"}, {"s", "string"}}, Rows: [][]interface{}{{h, n}}}
}

func (s *MSet) idx(n string) int {
	for i, t := range s.Tables {
		if t.Name == n {
			return i
		}
	}
	return -1
}
func (s *MSet) Clone() *MSet {
	n := &MSet{Name: s.Name}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, t.Clone())
	}
	return n
}
func (s *MSet) del(i int) bool {
	if i < 0 || i >= len(s.Tables) {
		return false
	}
	s.Tables = append(s.Tables[:i:i], s.Tables[i+1:]...)
	return true
}

func setOps(s *MSet, max int) []setOp {
	var ops []setOp
	names := []string{"A", "a", "Aa"}
	add := func(d string, m func(*MSet) bool, f func(*setWorld) error) { ops = append(ops, setOp{d, m, f}) }
	for _, n := range names {
		n := n
		if len(s.Tables) < max || s.idx(n) >= 0 {
			for _, via := range []string{"AppendTable", "Append"} {
				via := via
				if via == "Append" && n != "a" {
					continue
				}
				add(fmt.Sprintf("%s([%s])", via, n), func(x *MSet) bool {
					if x.idx(n) >= 0 {
						return false
					}
					x.Tables = append(x.Tables, tabNamed(n))
					return true
				}, func(w *setWorld) error {
					t := build(tabNamed(n))
					if via == "Append" {
						return w.ts.Append(t)
					}
					return w.ts.AppendTable(t)
				})
			}
		}
		add(fmt.Sprintf("DeleteTable(%q)", n), func(x *MSet) bool { return x.del(x.idx(n)) }, func(w *setWorld) error { return w.ts.DeleteTable(n) })
		for _, to := range []string{"A", "a", "aA", "", "1x", "a b"} {
			to := to
			if (to == "" || to == "1x" || to == "a b") && n != "A" {
				continue
			}
			ren := func(x *MSet) bool {
				i := x.idx(n)
				if i < 0 || x.idx(to) >= 0 || !isNameM(to) {
					return false
				}
				x.Tables[i].Name = to
				return true
			}
			add(fmt.Sprintf("RenameTable(%q, %q)", n, to), ren, func(w *setWorld) error { return w.ts.RenameTable(n, to) })
			if s.idx(n) >= 0 && (s.idx(to) < 0) {
				add(fmt.Sprintf("GetTable(%q).SetName(%q)", n, to), ren, func(w *setWorld) error {
					t, err := w.ts.GetTable(n)
					if err != nil {
						return err
					}
					return t.SetName(to)
				})
			}
		}
		if s.idx(n) >= 0 {
			add(fmt.Sprintf("GetTable(%q).SetInt(\"k\", 0, 99)", n), func(x *MSet) bool { x.Tables[x.idx(n)].Rows[0][0] = 99; return true }, func(w *setWorld) error {
				t, err := w.ts.GetTable(n)
				if err != nil {
					return err
				}
				return t.SetInt("k", 0, 99)
			})
		}
	}
	add("AppendTable(nil)", func(*MSet) bool { return false }, func(w *setWorld) error { return w.ts.AppendTable(nil) })
	for _, n := range []string{"", "zz"} {
		n := n
		add(fmt.Sprintf("DeleteTable(%q)", n), func(*MSet) bool { return false }, func(w *setWorld) error { return w.ts.DeleteTable(n) })
		add(fmt.Sprintf("RenameTable(%q, \"E\")", n), func(*MSet) bool { return false }, func(w *setWorld) error { return w.ts.RenameTable(n, "E") })
	}
	for i := -1; i <= len(s.Tables); i++ {
		i := i
		add(fmt.Sprintf("DeleteTableByTableIndex(%d)", i), func(x *MSet) bool { return x.del(i) }, func(w *setWorld) error { return w.ts.DeleteTableByTableIndex(i) })
	}
	add(`SetName("S2")`, func(x *MSet) bool { x.Name = "S2"; return true }, func(w *setWorld) error { return w.ts.SetName("S2") })
	add("Copy() and go on with the copy", func(*MSet) bool { return true }, func(w *setWorld) error {
		c, err := w.ts.Copy()
		if err != nil {
			return err
		}
		w.old = append(w.old, w.ts)
		w.oldM = append(w.oldM, observeSet(w.ts))
		w.ts = c
		return nil
	})
	return ops
}

// nearNamesOf: names that only resemble n.
func nearNamesOf(n string) []string {
	ns := []string{strings.ToUpper(n), strings.ToLower(n), n + "_", n + " ", " " + n, n + "\x00", "[" + n + "]", n + n}
	if n != "" {
		ns = append(ns, n[1:], n[:len(n)-1])
	}
	return ns
}

func nearNames(m *MSet) (ns []string) {
	for _, i := range picks(len(m.Tables), 3) {
		if i >= 0 && i < len(m.Tables) {
			ns = append(ns, nearNamesOf(m.Tables[i].Name)...)
		}
	}
	return
}

func setLookups(ts *g.TableSet, m *MSet) error {
	if ts.TableCount() != len(m.Tables) {
		return fmt.Errorf("TableCount() = %d, want %d", ts.TableCount(), len(m.Tables))
	}
	if ts.Name() != m.Name {
		return fmt.Errorf("Name() = %q, want %q", ts.Name(), m.Name)
	}
	for i, t := range m.Tables {
		bi, err := ts.GetTableByTableIndex(i)
		if err != nil || bi == nil || bi.Name() != t.Name {
			return fmt.Errorf("GetTableByTableIndex(%d) gives %v, %v, want [%s]", i, bi != nil, err, t.Name)
		}
		bn, err := ts.GetTable(t.Name)
		if err != nil || bn != bi {
			return fmt.Errorf("GetTable(%q) is not the table at index %d (err %v)", t.Name, i, err)
		}
		if has, err := ts.HasTable(t.Name); !has || err != nil {
			return fmt.Errorf("HasTable(%q) = %v, %v", t.Name, has, err)
		}
		if ti, err := ts.TableIndex(t.Name); ti != i || err != nil {
			return fmt.Errorf("TableIndex(%q) = %d, %v, want %d", t.Name, ti, err, i)
		}
	}
	for _, n := range append([]string{"A", "a", "aA", "AA", "Aa", "E", "zz", ""}, nearNames(m)...) {
		if m.idx(n) >= 0 {
			continue
		}
		if has, _ := ts.HasTable(n); has {
			return fmt.Errorf("HasTable(%q) is true", n)
		}
		if t, err := ts.GetTable(n); err == nil || t != nil {
			return fmt.Errorf("GetTable(%q) gives a table or no error", n)
		}
		if _, err := ts.TableIndex(n); err == nil {
			return fmt.Errorf("TableIndex(%q) gives no error", n)
		}
	}
	for _, i := range []int{-1, len(m.Tables)} {
		if t, err := ts.GetTableByTableIndex(i); err == nil || t != nil {
			return fmt.Errorf("GetTableByTableIndex(%d) gives a table or no error", i)
		}
	}
	if ok, err := ts.IsValidTableSet(); !ok || err != nil {
		return fmt.Errorf("IsValidTableSet() = %v, %v", ok, err)
	}
	return nil
}

func setStarts() []struct {
	Desc  string
	Model *MSet
	Make  func() *g.TableSet
} {
	two := &MSet{Name: "S", Tables: []*MTable{tabNamed("A"), tabNamed("a")}}
	mts := func(ts *g.TableSet, err error) *g.TableSet { must(err); return ts }
	return []struct {
		Desc  string
		Model *MSet
		Make  func() *g.TableSet
	}{
		{"NewTableSet", &MSet{Name: "S"}, func() *g.TableSet { return mts(g.NewTableSet("S")) }},
		{"built with A, a", two, func() *g.TableSet { return buildSet(two) }},
		{"parsed A, a", two, func() *g.TableSet {
			return mts(g.NewTableSetFromString(fmt.Sprintf("[[S]]\n[A]\nk s\nint string\n%d \"A\"\n\n[a]\nk s\nint string\n%d \"a\"\n", tabNamed("A").Rows[0][0], tabNamed("a").Rows[0][0])))
		}},
		{"built with A, a, Aa", &MSet{Name: "S", Tables: []*MTable{tabNamed("A"), tabNamed("a"), tabNamed("Aa")}}, func() *g.TableSet {
			return buildSet(&MSet{Name: "S", Tables: []*MTable{tabNamed("A"), tabNamed("a"), tabNamed("Aa")}})
		}},
	}
}

func runG17(c *Ctx) {
	depth := 4
	if c.Thorough {
		depth = 5
	}
	type setStart struct {
		Desc  string
		Model *MSet
		Make  func() *g.TableSet
	}
	explore := func(st setStart, depth, max int) {
		var rec func(m *MSet, path []setOp)
		rec = func(m *MSet, path []setOp) {
			if len(path) == depth || c.Stopped() {
				return
			}
			for _, op := range setOps(m, max) {
				p := append(append([]setOp{}, path...), op)
				nm := m.Clone()
				ok := op.Model(nm)
				for _, looks := range []bool{false, true} {
					if looks && len(p) > c.pick(3, 4) {
						break
					}
					looks := looks
					c.Do(func() string {
						var s []string
						for _, o := range p {
							s = append(s, o.Desc)
						}
						if looks {
							s = append(s, "(all looked up before each)")
						}
						return "start: " + st.Desc + "; " + strings.Join(s, "; ")
					}, func(t *T) {
						w := &setWorld{ts: st.Make()}
						for i, o := range p {
							if looks {
								if err := setLookups(w.ts, observeSet(w.ts)); err != nil {
									t.Failf("before %s: %v", o.Desc, err)
									return
								}
							}
							t.Step(1)
							err, pan := try(func() error { return o.Impl(w) })
							if pan != "" {
								t.Failf("%s panics: %s", o.Desc, pan)
								return
							}
							if i < len(p)-1 {
								if err != nil {
									t.Failf("%s: unexpected error %v", o.Desc, err)
									return
								}
								continue
							}
							if ok && err != nil {
								t.Failf("%s: unexpected error %v", o.Desc, err)
								return
							}
							if !ok && err == nil {
								t.Failf("%s should be refused; set is now %s", o.Desc, observeSet(w.ts).Full())
								return
							}
						}
						want := m
						if ok {
							want = nm
						}
						if got := observeSet(w.ts).Full(); got != want.Full() {
							t.Failf("set is\n   %s\n  want\n   %s", got, want.Full())
							return
						}
						if err := setLookups(w.ts, want); err != nil {
							t.Failf("%v", err)
							return
						}
						for i, o := range w.old {
							if got := observeSet(o).Full(); got != w.oldM[i].Full() {
								t.Failf("the set that was copied changed:\n   %s\n  was\n   %s", got, w.oldM[i].Full())
							}
						}
						t.State(want.Full())
						t.Outcome(fmt.Sprintf("%s ok=%v", p[len(p)-1].Desc, ok))
					})
				}
				if ok {
					rec(nm, p)
				}
			}
		}
		rec(st.Model, nil)
	}
	for _, st := range setStarts() {
		explore(setStart(st), depth, 3)
	}
	unnamedSets(c)
	bigSets(c, func(desc string, m *MSet, depth, max int) {
		explore(setStart{desc, m, func() *g.TableSet { return buildSet(m) }}, depth, max)
	})
}

func init() {
	register(&Checker{ID: "G17", Run: runG17,
		Rule:        "from 4 starting sets (empty, built, parsed; up to 3 tables): every sequence of set operations (append incl. duplicate and nil, delete by name and index incl. out of range, rename incl. duplicate/unknown/invalid, rename and edit through a looked-up table, set name, copy-and-continue) to depth 4 (thorough 5), without merging states, with (to depth 3; thorough 4) and without looking everything up before each; after each operation contents and all lookups must equal an ordered list with unique names, and sets left behind by Copy must not change; sets of up to three of: nil tables with and without a name, ordinary tables, each appended by name uniqueness; sets of every size up to 40 (100) and around the powers of two up to 300 (1100) with every operation at every place",
		Assumptions: []string{"a user renaming a table directly to the name of another table of its set (documented as the user's responsibility) is left out", "appending an unnamed nil-table is left out"}})
}

// unnamedSets: nil tables have no name of their own, and the empty name is a name like any other to a set.
func unnamedSets(c *Ctx) {
	kinds := map[string]func() *g.Table{
		"NilTable": g.NewNilTable,
		"NilTable named A": func() *g.Table {
			t := g.NewNilTable()
			if err, pan := try(func() error { return t.SetName("A") }); err != nil || pan != "" {
				return nil
			}
			return t
		},
		"table A": func() *g.Table { return build(tabNamed("A")) },
		"table a": func() *g.Table { return build(tabNamed("a")) },
	}
	order := []string{"NilTable", "NilTable named A", "table A", "table a"}
	for _, n := range []int{2, 3} {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(order)
		}
		for k := 0; k < total; k++ {
			for _, via := range []string{"AppendTable", "Append"} {
				k, n, via := k, n, via
				c.Do(func() string {
					var s []string
					for i, x := 0, k; i < n; i, x = i+1, x/len(order) {
						s = append(s, order[x%len(order)])
					}
					return via + "(): " + strings.Join(s, ", ")
				}, func(t *T) {
					ts, err := g.NewTableSet("S")
					must(err)
					var names []string
					for i, x := 0, k; i < n; i, x = i+1, x/len(order) {
						tab := kinds[order[x%len(order)]]()
						if tab == nil {
							continue
						}
						name, dup := tab.Name(), false
						for _, o := range names {
							dup = dup || o == name
						}
						t.Step(1)
						add := ts.AppendTable
						if via == "Append" {
							add = ts.Append
						}
						err, pan := try(func() error { return add(tab) })
						switch {
						case pan != "":
							t.Failf("%s of table %d panics: %s", via, i, pan)
							return
						case dup && err == nil:
							t.Failf("%s accepts table %d although the set has a table named %q", via, i, name)
							return
						case !dup && err == nil:
							names = append(names, name)
						}
						if ts.TableCount() != len(names) {
							t.Failf("TableCount() = %d after %s of table %d (error %v), want %d", ts.TableCount(), via, i, err, len(names))
							return
						}
					}
					for i, name := range names {
						if name == "" {
							continue // looking up no name is not asking for that table
						}
						if at, err := ts.TableIndex(name); err != nil || at != i {
							t.Failf("TableIndex(%q) = %d, %v, want %d", name, at, err, i)
						}
					}
					t.State(fmt.Sprintf("%q", names))
				})
			}
		}
	}
}
