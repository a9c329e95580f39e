package main

// G23 nesting rows by key.

import (
	"fmt"
	"sort"

	g "github.com/urban-wombat/gotables"
)

// nestKeys gives the keys the two tables share when a nests b, or unsuitable.
func nestKeys(a, b *MTable) (keys []MKey, ok bool) {
	keys = a.Keys
	if len(keys) == 0 {
		keys = b.Keys
	}
	if len(keys) == 0 {
		return nil, false
	}
	for _, k := range keys {
		i, j := a.Col(k.Col), b.Col(k.Col)
		if i < 0 || j < 0 || !isSortable(a.Cols[i].Type) || !isSortable(b.Cols[j].Type) {
			return keys, false
		}
		if a.Cols[i].Type != b.Cols[j].Type && len(a.Rows) > 0 {
			return keys, false
		}
	}
	return keys, true
}

func sameKey(a, b *MTable, keys []MKey, x, y []interface{}) bool {
	for _, k := range keys {
		if loose(x[a.Col(k.Col)]) != loose(y[b.Col(k.Col)]) {
			return false
		}
	}
	return true
}

func rowStrings(rows [][]interface{}) (s []string) {
	for _, r := range rows {
		s = append(s, loose2(r))
	}
	sort.Strings(s)
	return
}

func loose2(r []interface{}) string {
	m := &MTable{Name: "x"}
	for range r {
		m.Cols = append(m.Cols, MCol{"x", "x"})
	}
	m.Rows = [][]interface{}{r}
	return m.Loose()
}

// doNest nests b into a under column name col, and checks everything about it.
func doNest(t *T, a, b *MTable, col string) {
	ta, tb := build(a), build(b)
	err := ta.Nest(tb, col)
	t.Step(1)
	oa, ob := observe(ta), observe(tb)

	keys, ok := nestKeys(a, b)
	refused := !ok || !isColNameM(col) || a.Col(col) >= 0
	if ok {
		for _, x := range a.Rows {
			found := false
			for _, y := range b.Rows {
				found = found || sameKey(a, b, keys, x, y)
			}
			refused = refused || !found
		}
	}
	if refused {
		if err == nil {
			t.Failf("accepted; want an error. Result %s", clip(oa.Full(), 600))
			return
		}
		t.Outcome("refused")
		if oa.Full() != a.Full() {
			t.Failf("refused (%v) but the outer table changed: %s, was %s", err, oa.Full(), a.Full())
		}
		if ob.Full() != b.Full() {
			t.Failf("refused (%v) but the nested table changed: %s, was %s", err, ob.Full(), b.Full())
		}
		return
	}
	if err != nil {
		t.Failf("Nest: %v", err)
		return
	}
	t.Outcome(fmt.Sprintf("%d rows nested in %d", min(len(b.Rows), 5), min(len(a.Rows), 5)))
	keysOK := func(got, old []MKey) bool {
		return fmt.Sprint(got) == fmt.Sprint(old) || fmt.Sprint(got) == fmt.Sprint(keys)
	}

	// The inner table: the same rows in some order.
	if ob.Name != b.Name || fmt.Sprint(ob.Cols) != fmt.Sprint(b.Cols) || ob.Struct != b.Struct || fmt.Sprint(rowStrings(ob.Rows)) != fmt.Sprint(rowStrings(b.Rows)) || !keysOK(ob.Keys, b.Keys) {
		t.Failf("the nested table is now %s, was %s", ob.Full(), b.Full())
		return
	}
	// The outer table: one more column, the same rows in some order.
	wantCols := append(append([]MCol{}, a.Cols...), MCol{col, "string"})
	if oa.Name != a.Name || fmt.Sprint(oa.Cols) != fmt.Sprint(wantCols) || oa.Struct != a.Struct || !keysOK(oa.Keys, a.Keys) {
		t.Failf("the outer table is now %s, was %s", oa.Full(), a.Full())
		return
	}
	var plain [][]interface{}
	for _, r := range oa.Rows {
		plain = append(plain, r[:len(r)-1])
	}
	if fmt.Sprint(rowStrings(plain)) != fmt.Sprint(rowStrings(a.Rows)) {
		t.Failf("the outer table's rows are now %v, were %v", rowStrings(plain), rowStrings(a.Rows))
		return
	}
	// Every new cell.
	for i, r := range oa.Rows {
		text := r[len(r)-1].(string)
		ref := refParse(text)
		if !ref.OK || len(ref.Set.Tables) != 1 {
			t.Failf("row %d: the new cell is not one table: %q", i, text)
			return
		}
		n := ref.Set.Tables[0]
		var want [][]interface{}
		for _, y := range b.Rows {
			if sameKey(a, b, keys, r, y) {
				want = append(want, y)
			}
		}
		if n.Name != col || fmt.Sprint(n.Cols) != fmt.Sprint(b.Cols) {
			t.Failf("row %d: the new cell holds %s", i, n.Loose())
			return
		}
		if fmt.Sprint(rowStrings(n.Rows)) != fmt.Sprint(rowStrings(want)) {
			t.Failf("row %d (%s): the new cell holds rows %v, want %v", i, vals(plain[i]), rowStrings(n.Rows), rowStrings(want))
			return
		}
		back, err := g.NewTableFromString(text)
		if err != nil || observe(back).Loose() != n.Loose() {
			t.Failf("row %d: reading the new cell back: %v", i, err)
			return
		}
	}
}

func isColNameM(n string) bool { return isNameM(n) && !isTypeM(n) }

func runG23(c *Ctx) {
	histories(c, c.pick(2, 2), nestOp())
	withKeys := func(m *MTable, keys []MKey) *MTable { m.Keys = keys; return m }
	mkOuter := func(cols []MCol, alpha [][]interface{}, seq []int) *MTable {
		m := rowsOver("Outer", cols, alpha, seq)
		m.Cols = append([]MCol{{"id", "int"}}, m.Cols...)
		for i := range m.Rows {
			m.Rows[i] = append([]interface{}{i}, m.Rows[i]...)
		}
		return m
	}
	mkInner := func(cols []MCol, alpha [][]interface{}, seq []int) *MTable {
		m := rowsOver("Inner", cols, alpha, seq)
		m.Cols = append(append([]MCol{}, m.Cols...), MCol{"v", "int"})
		for i := range m.Rows {
			m.Rows[i] = append(m.Rows[i], 100+i)
		}
		return m
	}
	run := func(a, b *MTable, col string) {
		c.Do(func() string { return fmt.Sprintf("%s nests %s as %q", a.Full(), b.Full(), col) }, func(t *T) {
			t.State(a.Full() + b.Full())
			doNest(t, a, b, col)
		})
	}
	confusedPairs(c, c.pick(2, 3), 3, func(ma, mb func() *MTable, keys []MKey) {
		run(withKeys(ma(), keys), mb(), "nested")
	})

	// A. One key of every type.
	type placing struct {
		outer, inner []MKey
	}
	for _, typ := range sortableTypes {
		alpha := [][]interface{}{keyVals(typ, 3)}
		cols := []MCol{{"k", typ}}
		var pl []placing
		for _, rev := range []bool{false, true} {
			k := []MKey{{"k", rev}}
			pl = append(pl, placing{k, nil}, placing{nil, k}, placing{k, []MKey{{"v", false}}}, placing{k, []MKey{{"k", !rev}}})
		}
		for _, s1 := range eqSeqs(len(alpha[0]), c.pick(3, 4)) {
			for _, s2 := range eqSeqs(len(alpha[0]), c.pick(3, 4)) {
				for _, p := range pl {
					run(withKeys(mkOuter(cols, alpha, s1), p.outer), withKeys(mkInner(cols, alpha, s2), p.inner), "nested")
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
	// A2. More rows of one key: every sequence of the outer keys 0..2 against longer runs of inner keys.
	alpha1 := [][]interface{}{{1, 0, 2}}
	for _, s1 := range eqSeqs(3, 3) {
		for _, s2 := range eqSeqs(3, c.pick(5, 7)) {
			if len(s2) < 4 {
				continue
			}
			run(withKeys(mkOuter([]MCol{{"k", "int"}}, alpha1, s1), []MKey{{"k", len(s2)%2 == 0}}), mkInner([]MCol{{"k", "int"}}, alpha1, s2), "nested")
			if c.Stopped() {
				return
			}
		}
	}
	// B. Two keys.
	pairs := [][2]string{{"int", "string"}, {"string", "float64"}, {"bool", "uint64"}}
	if c.Thorough {
		pairs = append(pairs, [2]string{"float32", "int8"}, [2]string{"uint8", "string"})
	}
	for _, pr := range pairs {
		alpha := [][]interface{}{keyVals(pr[0], 2), keyVals(pr[1], 2)}
		cols := []MCol{{"k0", pr[0]}, {"k1", pr[1]}}
		for _, keys := range keyLists(2) {
			for _, s1 := range eqSeqs(4, 2) {
				for _, s2 := range eqSeqs(4, c.pick(3, 4)) {
					for w := 0; w < 2; w++ {
						a, b := mkOuter(cols, alpha, s1), mkInner(cols, alpha, s2)
						if w == 0 {
							a.Keys = keys
						} else {
							b.Keys = keys
						}
						run(a, b, "nested")
						if c.Stopped() {
							return
						}
					}
				}
			}
		}
	}
	// C. Every other type and value beside the key, in either table.
	for _, typ := range plainTypes {
		d := domain(typ)
		outer := &MTable{Name: "O", Cols: []MCol{{"x", typ}, {"k", "string"}}, Keys: []MKey{{"k", false}}}
		inner := &MTable{Name: "I", Cols: []MCol{{"k", "string"}, {"x", typ}}}
		for i, v := range d {
			outer.Rows = append(outer.Rows, []interface{}{v, []string{"b", "a"}[i%2]})
			inner.Rows = append(inner.Rows, []interface{}{[]string{"a", "b", "c d"}[i%3], v})
		}
		inner.Rows = append(inner.Rows, []interface{}{"a", d[0]}, []interface{}{"b", d[0]})
		run(outer, inner, "nested")
		for _, v := range d {
			one := &MTable{Name: "O", Cols: []MCol{{"k", "string"}}, Keys: []MKey{{"k", false}}, Rows: [][]interface{}{{"q\"[x]\n"}}}
			two := &MTable{Name: "I", Cols: []MCol{{"x", typ}, {"k", "string"}}, Rows: [][]interface{}{{v, "q\"[x]\n"}, {v, ""}}}
			run(one, two, "_n1")
			one = one.Clone()
			one.Struct = true
			run(one, two, "_n1")
			two = two.Clone()
			two.Rows = two.Rows[:1]
			two.Struct = true
			run(one, two, "_n1")
		}
	}
	// D. Unsuitable keys and names.
	names := []string{"nested", "", "1x", "k", "id", "int", "a b", "v", "*Table", "x-y", "K", "[]byte", "\u00e9", "_", "string"}
	keySets := [][]MKey{nil, {{"k", false}}, {{"id", false}}, {{"v", true}}, {{"k", true}, {"id", false}}, {{"k", false}, {"v", false}}}
	kinds := []string{"int", "int64", "string", "float64", "uint8"}
	for _, n := range names {
		for _, ka := range keySets {
			for _, kb := range keySets {
				for _, ty1 := range kinds {
					for _, ty2 := range kinds {
						for rows := 0; rows <= 1; rows++ {
							a := &MTable{Name: "A", Cols: []MCol{{"k", ty1}, {"id", "int"}}, Rows: [][]interface{}{{zeroOf(ty1), 0}, {zeroOf(ty1), 1}}}
							b := &MTable{Name: "B", Cols: []MCol{{"v", "int"}, {"k", ty2}}, Rows: [][]interface{}{{5, zeroOf(ty2)}, {4, zeroOf(ty2)}}}
							if rows == 0 {
								a.Rows = nil
							}
							valid := true
							for _, k := range ka {
								valid = valid && a.Col(k.Col) >= 0
							}
							for _, k := range kb {
								valid = valid && b.Col(k.Col) >= 0
							}
							if !valid {
								continue
							}
							if rows == 0 && ty1 != ty2 {
								continue // nothing to search for: either answer will do
							}
							a.Keys, b.Keys = ka, kb
							run(a, b, n)
							if c.Stopped() {
								return
							}
						}
					}
				}
			}
		}
	}
	bigNests(c, run)
	// E. Nothing to nest, and a table into itself: an error or a result, but no crash.
	c.Do(func() string { return "nesting nothing" }, func(t *T) {
		var nt *g.Table
		a := &MTable{Name: "A", Cols: []MCol{{"k", "int"}}, Keys: []MKey{{"k", false}}, Rows: [][]interface{}{{1}}}
		ta := build(a)
		if ta.Nest(nt, "n") == nil || nt.Nest(ta, "n") == nil || ta.Nest(g.NewNilTable(), "n") == nil || g.NewNilTable().Nest(ta, "n") == nil {
			t.Failf("accepted")
		}
		if o := observe(ta); o.Full() != a.Full() {
			t.Failf("refused but changed: %s", o.Full())
		}
		ign(ta.Nest(ta, "n"))
	})
}

func init() {
	register(&Checker{
		ID:   "G23",
		Rule: "every outer and inner table of up to 3 rows (thorough: 4) over 3 values of every sortable key type, with the key set on either or both, in either direction; runs of up to 5 (7) inner rows; two keys in every order and direction; every type and boundary value beside the key; every combination of unsuitable names, key sets and key types. The new cells are read by the independent text reader; tables of every size up to 14 (40) and around the powers of two up to 70 (300), every key type, lists of up to three keys, 9 orders; 1025 rows; one key repeated up to 600 times in the inner table; keys whose values read alike once joined: up to 2 (3) outer and 3 inner rows",
		Assumptions: []string{
			"a table without keys may take over the other's keys; the inner table may be re-ordered",
			"if the outer table has no rows, key columns of different type may be accepted or refused; *Table columns are left out (the text form holds only their names)",
		},
		Run: runG23,
	})
}
