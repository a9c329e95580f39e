package main

// G13 merging, G14 sort-unique.

import (
	"fmt"
	"math"
	"sort"

	g "github.com/urban-wombat/gotables"
)

// missing ranks a cell value as a source of information: 2 a real value, 1 zero, 0 NaN.
func rankVal(typ string, v interface{}) int {
	switch x := v.(type) {
	case float32:
		if x != x {
			return 0
		}
		if x == 0 {
			return 1
		}
		return 2
	case float64:
		if x != x {
			return 0
		}
		if x == 0 {
			return 1
		}
		return 2
	case []byte:
		if len(x) == 0 {
			return 1
		}
		return 2
	case *MTable:
		if x.Nil {
			return 1
		}
		return 2
	}
	if val(v) == val(zeroOf(typ)) {
		return 1
	}
	return 2
}

func emptyOf(typ string) interface{} {
	switch typ {
	case "float32":
		return float32(math.NaN())
	case "float64":
		return math.NaN()
	}
	return zeroOf(typ)
}

func loose(v interface{}) string {
	m := table1("x", "x", "int")
	m.Rows = [][]interface{}{{v}}
	return m.Loose()
}

// bestOf tells whether got is an allowed combination: the best-ranked value, from the first group that has a real one.
func bestOf(typ string, got interface{}, groups ...[]interface{}) string {
	allow := func(vs []interface{}, rank int) (hit, any bool) {
		for _, v := range vs {
			if rankVal(typ, v) == rank {
				any = true
				if loose(v) == loose(got) {
					hit = true
				}
			}
		}
		return
	}
	var all []interface{}
	for _, vs := range groups {
		all = append(all, vs...)
		if hit, any := allow(vs, 2); any {
			if hit {
				return ""
			}
			return fmt.Sprintf("got %s, want one of the real values in %s", val(got), vals(vs))
		}
	}
	if hit, any := allow(all, 1); any {
		if hit {
			return ""
		}
		return fmt.Sprintf("got %s, want zero", val(got))
	}
	if loose(got) != loose(emptyOf(typ)) {
		return fmt.Sprintf("got %s, want %s (no value anywhere)", val(got), val(emptyOf(typ)))
	}
	return ""
}

func sameRowsAnyOrder(a, b *MTable) bool {
	f := func(m *MTable) (s []string) {
		for _, r := range m.Rows {
			s = append(s, vals(r))
		}
		sort.Strings(s)
		return
	}
	return fmt.Sprint(a.Name, a.Cols, a.Struct) == fmt.Sprint(b.Name, b.Cols, b.Struct) && fmt.Sprint(f(a)) == fmt.Sprint(f(b))
}

// mergeRefused: the two tables do not share sort keys, or their common columns disagree in type.
func mergeRefused(a, b *MTable) (keys []MKey, refused bool) {
	switch {
	case len(a.Keys) > 0:
		keys = a.Keys
	case len(b.Keys) > 0:
		keys = b.Keys
	default:
		return nil, true
	}
	for _, k := range keys {
		for _, m := range []*MTable{a, b} {
			if i := m.Col(k.Col); i < 0 || !isSortable(m.Cols[i].Type) {
				return keys, true
			}
		}
	}
	for _, c := range a.Cols {
		if i := b.Col(c.Name); i >= 0 && b.Cols[i].Type != c.Type {
			return keys, true
		}
	}
	return keys, false
}

// checkCombined checks a merged table against its sources (one source: sort-unique).
func checkCombined(got *MTable, keys []MKey, srcs ...*MTable) string {
	want := map[string]string{}
	n := 0
	for _, s := range srcs {
		for _, c := range s.Cols {
			if _, ok := want[c.Name]; !ok {
				n++
			}
			want[c.Name] = c.Type
		}
	}
	if len(got.Cols) != n {
		return fmt.Sprintf("columns %v", got.Cols)
	}
	for _, c := range got.Cols {
		if want[c.Name] != c.Type {
			return fmt.Sprintf("column %s %s, want type %q", c.Name, c.Type, want[c.Name])
		}
	}
	keyOf := func(m *MTable, row []interface{}) (k []interface{}) {
		for _, key := range keys {
			k = append(k, row[m.Col(key.Col)])
		}
		return
	}
	cmpKey := func(x, y []interface{}) int {
		for i := range keys {
			r := cmpVal(x[i], y[i])
			if keys[i].Rev {
				r = -r
			}
			if r != 0 {
				return r
			}
		}
		return 0
	}
	for i := 1; i < len(got.Rows); i++ {
		if cmpKey(keyOf(got, got.Rows[i-1]), keyOf(got, got.Rows[i])) >= 0 {
			return fmt.Sprintf("rows %d and %d of the result are not strictly in key order (keys %v): %s", i-1, i, keys, got.Data())
		}
	}
	// every source key occurs; the rows of the result are in strict key order, so it can be looked up
	gotKeys := make([][]interface{}, len(got.Rows))
	for i, q := range got.Rows {
		gotKeys[i] = keyOf(got, q)
	}
	groupsOf := make([][][][]interface{}, len(got.Rows)) // by row of the result, then by source
	for i := range groupsOf {
		groupsOf[i] = make([][][]interface{}, len(srcs))
	}
	for si, s := range srcs {
		for _, r := range s.Rows {
			k := keyOf(s, r)
			i := sort.Search(len(gotKeys), func(i int) bool { return cmpKey(gotKeys[i], k) >= 0 })
			if i == len(gotKeys) || cmpKey(gotKeys[i], k) != 0 {
				return fmt.Sprintf("key %s of table %d is lost: %s", vals(k), si+1, got.Data())
			}
			groupsOf[i][si] = append(groupsOf[i][si], r)
		}
	}
	for qi, q := range got.Rows {
		qk := gotKeys[qi]
		groups := groupsOf[qi]
		any := false
		for _, rows := range groups {
			any = any || len(rows) > 0
		}
		if !any {
			return fmt.Sprintf("key %s of the result occurs in no table", vals(qk))
		}
		for ci, col := range got.Cols {
			var gs [][]interface{}
			for si, s := range srcs {
				var vs []interface{}
				if j := s.Col(col.Name); j >= 0 {
					for _, r := range groups[si] {
						vs = append(vs, r[j])
					}
				}
				gs = append(gs, vs)
			}
			if e := bestOf(col.Type, q[ci], gs...); e != "" {
				return fmt.Sprintf("key %s column %s: %s", vals(qk), col.Name, e)
			}
		}
	}
	return ""
}

func doMerge(t *T, a, b *MTable, self bool) {
	ta := build(a)
	tb := ta
	if !self {
		tb = build(b)
	} else {
		b = a
	}
	t.State(a.Full() + b.Full())
	keys, refused := mergeRefused(a, b)
	got, err := ta.Merge(tb)
	t.Step(1)
	if refused != (err != nil) {
		t.Failf("Merge: error %v, want refusal %v", err, refused)
		return
	}
	oa, ob := observe(ta), observe(tb)
	if !sameRowsAnyOrder(oa, a) || !sameRowsAnyOrder(ob, b) {
		t.Failf("inputs became %s and %s", oa.Full(), ob.Full())
		return
	}
	if err != nil {
		t.Outcome("refused")
		return
	}
	if ok, err := got.IsValidTable(); !ok || err != nil {
		t.Failf("result is not a valid table: %v", err)
		return
	}
	o := observe(got)
	if e := checkCombined(o, keys, a, b); e != "" {
		t.Failf("%s\nresult: %s", e, o.Full())
		return
	}
	if fmt.Sprint(o.Keys) != fmt.Sprint(keys) {
		t.Failf("sort keys of the result are %v, want %v", o.Keys, keys)
		return
	}
	t.Outcome(fmt.Sprintf("merged %d+%d -> %d", min(len(a.Rows), 6), min(len(b.Rows), 6), min(len(o.Rows), 6)))
}

// mergeVals: zero, one or two real values, NaN where there is one.
func mergeVals(typ string, which int) (vs []interface{}) {
	vs = []interface{}{zeroOf(typ), ordinary(typ, which)}
	if typ == "bool" {
		vs[1] = true
	}
	switch typ {
	case "float32":
		vs = append(vs, float32(math.NaN()))
	case "float64":
		vs = append(vs, math.NaN())
	}
	return
}

// rowsOver gives the table with the seq-th rows over the product of the column alphabets.
func rowsOver(name string, cols []MCol, alpha [][]interface{}, seq []int) *MTable {
	m := &MTable{Name: name, Cols: cols}
	for _, x := range seq {
		row := make([]interface{}, len(cols))
		for k := range cols {
			row[k] = fresh(alpha[k][x%len(alpha[k])])
			x /= len(alpha[k])
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

func size(alpha [][]interface{}) int {
	n := 1
	for _, a := range alpha {
		n *= len(a)
	}
	return n
}

func runG13(c *Ctx) {
	histories(c, c.pick(1, 2), mergeOps()...)
	pair := func(kind string, mk func() (a, b *MTable)) {
		c.Do(func() string { a, b := mk(); return kind + " " + a.Full() + " + " + b.Full() }, func(t *T) {
			a, b := mk()
			doMerge(t, a, b, false)
		})
	}
	confusedPairs(c, 2, c.pick(2, 3), func(ma, mb func() *MTable, keys []MKey) {
		pair("confusable", func() (*MTable, *MTable) {
			a, b := ma(), mb()
			a.Keys = keys
			return a, b
		})
	})
	// M1: every type as a shared column and as a column of one table only; every sequence of rows.
	for _, typ := range allTypes {
		typ := typ
		ca := []MCol{{"p", typ}, {"k", "int"}, {"x", typ}}
		cb := []MCol{{"k", "int"}, {"x", typ}, {"q", typ}}
		aa := [][]interface{}{mergeVals(typ, 0), {1, 2}, mergeVals(typ, 1)}
		ab := [][]interface{}{{2, 1}, mergeVals(typ, 2), mergeVals(typ, 3)}
		if typ != "float64" {
			aa[0] = aa[0][1:]
			ab[2] = ab[2][1:]
		}
		na, nb := size(aa), size(ab)
		for la := 0; la <= 2; la++ {
			for lb := 0; lb <= 2; lb++ {
				seqs(na, la, func(sa []int) bool {
					seqs(nb, lb, func(sb []int) bool {
						pair("types", func() (*MTable, *MTable) {
							a, b := rowsOver("A", ca, aa, sa), rowsOver("B", cb, ab, sb)
							a.Keys = []MKey{{"k", (la+lb)%2 == 1}}
							return a, b
						})
						return !c.Stopped()
					})
					return !c.Stopped()
				})
			}
		}
	}
	// M2: three rows against up to three rows with the same few keys (duplicates within a table).
	for _, typ := range []string{"int", "float64", "string", "[]byte"} {
		typ := typ
		ca := []MCol{{"k", "int"}, {"x", typ}}
		aa := [][]interface{}{{1, 2}, mergeVals(typ, 1)}
		ab := [][]interface{}{{1, 2}, mergeVals(typ, 2)}
		na := size(aa)
		for la := 0; la <= c.pick(3, 4); la++ {
			for lb := 0; lb <= 3; lb++ {
				seqs(na, la, func(sa []int) bool {
					seqs(na, lb, func(sb []int) bool {
						pair("dups", func() (*MTable, *MTable) {
							a, b := rowsOver("A", ca, aa, sa), rowsOver("B", ca, ab, sb)
							b.Keys = []MKey{{"k", (la+lb)%2 == 1}}
							return a, b
						})
						return !c.Stopped()
					})
					return !c.Stopped()
				})
			}
		}
	}
	// M3: every sortable type as the key, boundary values, both directions.
	for _, typ := range sortableTypes {
		typ := typ
		kv := keyVals(typ, c.pick(4, 5))
		for _, rev := range []bool{false, true} {
			for la := 0; la <= 2; la++ {
				for lb := 0; lb <= c.pick(2, 3); lb++ {
					seqs(len(kv), la, func(sa []int) bool {
						seqs(len(kv), lb, func(sb []int) bool {
							pair("key", func() (*MTable, *MTable) {
								f := func(name, other string, s []int) *MTable {
									m := &MTable{Name: name, Cols: []MCol{{"x", "int"}, {"k", typ}, {other, "string"}}}
									for i, v := range s {
										m.Rows = append(m.Rows, []interface{}{10 + i, kv[v], other + fmt.Sprint(i)})
									}
									return m
								}
								a, b := f("A", "p", sa), f("B", "q", sb)
								a.Keys = []MKey{{"k", rev}}
								return a, b
							})
							return !c.Stopped()
						})
						return !c.Stopped()
					})
				}
			}
		}
	}
	// M4: two and three keys, every key list, keys set in the first, the second or both tables; key-only tables.
	{
		cols := [][]MCol{{{"k0", "int"}, {"k1", "string"}}, {{"k1", "string"}, {"v", "float64"}, {"k0", "int"}}, {{"k0", "int"}, {"w", "bool"}, {"k1", "string"}}}
		alpha := func(cs []MCol) (r [][]interface{}) {
			for _, x := range cs {
				switch x.Name {
				case "k0":
					r = append(r, []interface{}{1, 2})
				case "k1":
					r = append(r, []interface{}{"a", ""})
				case "v":
					r = append(r, []interface{}{1.5})
				case "w":
					r = append(r, []interface{}{true})
				}
			}
			return
		}
		for _, keys := range keyListsN[2] {
			for ia := range cols {
				for ib := range cols {
					for who := 0; who < 3; who++ {
						for la := 0; la <= 2; la++ {
							for lb := 0; lb <= c.pick(2, 3); lb++ {
								seqs(4, la, func(sa []int) bool {
									seqs(4, lb, func(sb []int) bool {
										pair("keys", func() (*MTable, *MTable) {
											a, b := rowsOver("A", cols[ia], alpha(cols[ia]), sa), rowsOver("B", cols[ib], alpha(cols[ib]), sb)
											if who != 1 {
												a.Keys = keys
											}
											if who == 1 {
												b.Keys = keys
											}
											if who == 2 {
												b.Keys = []MKey{{"k1", true}}
											}
											return a, b
										})
										return !c.Stopped()
									})
									return !c.Stopped()
								})
							}
						}
					}
				}
			}
		}
	}
	// M5: column layouts that do and do not allow merging.
	{
		lay := [][]MCol{
			{}, {{"k", "int"}}, {{"k", "string"}}, {{"k", "int"}, {"x", "int"}}, {{"x", "int"}, {"k", "int"}}, {{"x", "string"}, {"k", "int"}},
			{{"x", "int"}}, {{"k", "[]byte"}, {"x", "int"}}, {{"_TABLE_", "int"}, {"k", "int"}}, {{"_DELETE_", "bool"}, {"k", "int"}}, {{"_DELETE_", "string"}, {"_TABLE_", "string"}, {"k", "int"}},
			{{"_TABLE_", "int"}, {"_TABLE__", "int"}, {"_TABLE___", "bool"}, {"k", "int"}}, {{"k", "int"}, {"_DELETE__", "bool"}, {"_DELETE_", "int"}, {"_TABLE__", "float64"}},
			{{"k", "int"}, {"x", "byte"}}, {{"k", "int"}, {"x", "uint8"}}, {{"k", "int"}, {"x", "rune"}}, {{"k", "int"}, {"x", "int32"}}, {{"k", "int"}, {"x", "*Table"}},
			{{"K", "int"}, {"k", "int"}, {"X", "float32"}},
		}
		for _, ca := range lay {
			for _, cb := range lay {
				for ks := 0; ks < 7; ks++ {
					for la := 0; la <= 2; la++ {
						for lb := 0; lb <= 2; lb++ {
							for ov := 0; ov < 2; ov++ {
								ca, cb, ks, la, lb, ov := ca, cb, ks, la, lb, ov
								setK := func(m *MTable, cols ...string) {
									for _, k := range cols {
										if i := m.Col(k); i >= 0 && isSortable(m.Cols[i].Type) {
											m.Keys = append(m.Keys, MKey{k, ks == 5})
										}
									}
								}
								fill := func(name string, cs []MCol, l, base int) *MTable {
									m := &MTable{Name: name, Cols: cs}
									if len(cs) == 0 {
										return m
									}
									for r := 0; r < l; r++ {
										var row []interface{}
										for _, x := range cs {
											row = append(row, ordinary(x.Type, base+r))
										}
										m.Rows = append(m.Rows, row)
									}
									return m
								}
								pair("layout", func() (*MTable, *MTable) {
									a, b := fill("A", ca, la, 0), fill("B", cb, lb, 2*ov)
									switch ks {
									case 0:
										setK(a, "k")
									case 1:
										setK(b, "k")
									case 2:
										setK(a, "k", "x")
									case 3:
										setK(b, "x", "k")
									case 4:
										setK(a, "k")
										setK(b, "x")
									case 5:
										setK(a, "k", "k")
									}
									return a, b
								})
							}
						}
					}
				}
			}
		}
	}
	// M7: every two values of a type under one key; every two values of a sortable type as keys.
	for _, typ := range allTypes {
		typ := typ
		vs := extremes(typ)
		for i := range vs {
			for j := range vs {
				for r := 0; r < 2; r++ {
					pair("values", func() (*MTable, *MTable) {
						a := &MTable{Name: "A", Cols: []MCol{{"k", "int"}, {"x", typ}}, Rows: [][]interface{}{{1, fresh(vs[i])}}, Keys: []MKey{{"k", false}}}
						b := &MTable{Name: "B", Cols: []MCol{{"x", typ}, {"y", typ}, {"k", "int"}}, Rows: [][]interface{}{{fresh(vs[j]), fresh(vs[i]), 1}}}
						if r == 1 { // a second row
							a.Rows = append(a.Rows, []interface{}{1, zeroOf(typ)}, []interface{}{2, fresh(vs[j])})
						}
						return a, b
					})
					if isSortable(typ) {
						pair("key values", func() (*MTable, *MTable) {
							a := &MTable{Name: "A", Cols: []MCol{{"k", typ}, {"x", "int"}}, Rows: [][]interface{}{{vs[i], 1}}, Keys: []MKey{{"k", r == 1}}}
							b := &MTable{Name: "B", Cols: []MCol{{"k", typ}, {"y", "int"}}, Rows: [][]interface{}{{vs[j], 2}}}
							return a, b
						})
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
	// M8: sizes.
	bigMerges(c)
	// M6: a table merged with itself, and nil tables.
	for l := 0; l <= c.pick(4, 5); l++ {
		cols := []MCol{{"k", "int"}, {"x", "float64"}}
		al := [][]interface{}{{1, 2}, {0.0, 1.5, math.NaN()}}
		seqs(6, l, func(s []int) bool {
			c.Do(func() string { return "self " + rowsOver("A", cols, al, s).Full() }, func(t *T) {
				a := rowsOver("A", cols, al, s)
				a.Keys = []MKey{{"k", l%2 == 1}}
				doMerge(t, a, a, true)
			})
			return !c.Stopped()
		})
	}
	c.Do(func() string { return "nil tables" }, func(t *T) {
		a := rowsOver("A", []MCol{{"k", "int"}}, [][]interface{}{{1}}, []int{0})
		a.Keys = []MKey{{"k", false}}
		if _, err := build(a).Merge(nil); err == nil {
			t.Failf("Merge(nil) gave no error")
		}
		var n *g.Table
		if _, err := n.Merge(build(a)); err == nil {
			t.Failf("nil.Merge() gave no error")
		}
	})
}

// priorKeys: keys the table may have had before it is sorted by keys given as arguments.
func priorKeys(m *MTable, keys []MKey) (ps [][]MKey) {
	ps = append(ps, nil)
	if len(keys) == 0 {
		return
	}
	var rev, all, others []MKey
	given := map[string]bool{}
	for _, k := range keys {
		given[k.Col] = true
		if i := m.Col(k.Col); i >= 0 && isSortable(m.Cols[i].Type) {
			rev = append(rev, MKey{k.Col, true})
		}
	}
	for _, c := range m.Cols {
		if isSortable(c.Type) {
			all = append(all, MKey{c.Name, len(all)%2 == 1})
			if !given[c.Name] {
				others = append(others, MKey{c.Name, false})
			}
		}
	}
	for _, p := range [][]MKey{rev, all, others} {
		if len(p) > 0 && fmt.Sprint(p) != fmt.Sprint(ps[len(ps)-1]) {
			ps = append(ps, p)
		}
	}
	return
}

func runG14(c *Ctx) {
	histories(c, c.pick(2, 2), uniqueOps()...)
	uniqFrom := func(kind string, mk func() *MTable, keys []MKey, byArgs bool, prior []MKey) {
		c.Do(func() string {
			return fmt.Sprintf("%s %s by %v args=%v prior keys %v", kind, mk().Full(), keys, byArgs, prior)
		}, func(t *T) {
			m := mk()
			if !byArgs {
				m.Keys = keys
			} else {
				m.Keys = prior
			}
			tb := build(m)
			t.State(m.Data() + fmt.Sprint(keys, prior))
			var args []string
			if byArgs {
				args = namesOf(keys)
			}
			bad := len(keys) == 0
			for _, k := range keys {
				if i := m.Col(k.Col); i < 0 || !isSortable(m.Cols[i].Type) {
					bad = true
				}
			}
			got, err := tb.SortUnique(args...)
			t.Step(1)
			o := observe(tb)
			if !sameRowsAnyOrder(o, m) {
				t.Failf("the source became %s", o.Full())
				return
			}
			if bad != (err != nil) {
				t.Failf("SortUnique: error %v, want refusal %v", err, bad)
				return
			}
			if err != nil {
				t.Outcome("refused")
				return
			}
			if ok, err := got.IsValidTable(); !ok || err != nil {
				t.Failf("result is not a valid table: %v", err)
				return
			}
			r := observe(got)
			if r.Name != m.Name {
				t.Failf("result is named %q", r.Name)
				return
			}
			if e := checkCombined(r, keys, m); e != "" {
				t.Failf("%s\nresult: %s", e, r.Full())
				return
			}
			if fmt.Sprint(r.Keys) != fmt.Sprint(keys) {
				t.Failf("sort keys of the result are %v", r.Keys)
				return
			}
			if got == tb {
				t.Failf("the result is the source table itself, not a new table")
				return
			}
			t.Outcome(fmt.Sprintf("%d -> %d", min(6, len(m.Rows)), min(6, len(r.Rows))))
		})
	}
	uniq := func(kind string, mk func() *MTable, keys []MKey, byArgs bool) {
		priors := [][]MKey{nil}
		if byArgs {
			priors = priorKeys(mk(), keys)
		}
		for _, prior := range priors {
			uniqFrom(kind, mk, keys, byArgs, prior)
		}
	}
	confusedTables(c, c.pick(4, 5), func(cf confused, s []int) {
		uniq("confusable", func() *MTable { return confusedTable("Src", cf, s, "id", 1) }, confusedKeys(cf, len(s)%2 == 1), false)
		uniq("confusable", func() *MTable { return confusedTable("Src", cf, s, "id", 1) }, confusedKeys(cf, false), true)
	})
	for _, typ := range allTypes {
		typ := typ
		cols := []MCol{{"x", typ}, {"k", "int"}, {"y", typ}}
		vs := mergeVals(typ, 1)
		if typ != "bool" {
			vs = append(vs, ordinary(typ, 2))
		}
		al := [][]interface{}{vs, {1, 0}, vs[1:2]}
		for l := 0; l <= c.pick(4, 5); l++ {
			seqs(size(al), l, func(s []int) bool {
				for k := 0; k < 2; k++ {
					uniq("types", func() *MTable { return rowsOver("Src", cols, al, s) }, []MKey{{"k", k == 1}}, k == 0 && l%2 == 0)
				}
				return !c.Stopped()
			})
		}
	}
	for _, typ := range allTypes {
		typ := typ
		vs := extremes(typ)
		for i := range vs {
			for j := range vs {
				uniq("values", func() *MTable {
					return &MTable{Name: "Src", Cols: []MCol{{"k", "int"}, {"x", typ}}, Rows: [][]interface{}{{1, fresh(vs[i])}, {1, fresh(vs[j])}, {0, fresh(vs[j])}}}
				}, []MKey{{"k", j%2 == 1}}, false)
				if isSortable(typ) {
					uniq("key values", func() *MTable {
						return &MTable{Name: "Src", Cols: []MCol{{"id", "int"}, {"k", typ}}, Rows: [][]interface{}{{1, vs[i]}, {2, vs[j]}, {3, vs[i]}}}
					}, []MKey{{"k", j%2 == 1}}, false)
				}
				if c.Stopped() {
					return
				}
			}
		}
	}
	for _, typ := range sortableTypes {
		typ := typ
		kv := keyVals(typ, c.pick(4, 6))
		cols := []MCol{{"id", "int"}, {"k", typ}}
		for l := 0; l <= c.pick(4, 5); l++ {
			seqs(len(kv), l, func(s []int) bool {
				mk := func() *MTable {
					m := &MTable{Name: "Src", Cols: cols}
					for i, x := range s {
						m.Rows = append(m.Rows, []interface{}{i + 1, kv[x]})
					}
					return m
				}
				uniq("key", mk, []MKey{{"k", true}}, false)
				uniq("key", mk, []MKey{{"k", false}}, true)
				return !c.Stopped()
			})
		}
	}
	// several keys
	cols := []MCol{{"v", "float64"}, {"k1", "string"}, {"k0", "int"}, {"k2", "bool"}}
	al := [][]interface{}{{math.NaN(), 0.0, 2.5}, {"a", "A"}, {1, 2}, {true, false}}
	for _, keys := range append(keyLists(3), nil, []MKey{{"zz", false}}, []MKey{{"k0", false}, {"k0", false}}) {
		for l := 0; l <= c.pick(2, 3); l++ {
			seqs(size(al), l, func(s []int) bool {
				if bad := len(keys) > 0 && keys[0].Col == "zz"; bad || !anyRev(keys) {
					uniq("keys", func() *MTable { return rowsOver("Src", cols, al, s) }, keys, true)
					if bad {
						return !c.Stopped()
					}
				}
				uniq("keys", func() *MTable { return rowsOver("Src", cols, al, s) }, keys, false)
				return !c.Stopped()
			})
		}
	}
	bigUniques(c, uniq)
	// many rows
	for n := 10; n <= c.pick(60, 150); n += 5 {
		for p := 1; p <= 12; p++ {
			n, p := n, p
			mk := func() *MTable {
				m := &MTable{Name: "Src", Cols: []MCol{{"k", "int"}, {"a", "int"}, {"f", "float64"}}}
				for i := 0; i < n; i++ {
					f := math.NaN()
					if i%7 == 3 {
						f = 0
					}
					if i%5 == p%5 {
						f = float64(i)
					}
					m.Rows = append(m.Rows, []interface{}{(i * 7) % p, i % 3, f})
				}
				return m
			}
			uniq("many", mk, []MKey{{"k", n%2 == 1}}, false)
		}
	}
}

func init() {
	register(&Checker{ID: "G13", Run: runG13,
		Rule:        "every pair of tables of up to 2x2 rows over every cell type as shared and as one-sided column with {zero, value, NaN} cells and colliding keys; 3[4]x3 rows with duplicate keys; every sortable key type with boundary values in both directions; every 1-2 key list set in either or both tables; compatible and incompatible column layouts, with columns named like the temporary ones Merge() makes; self merge; checked against the documented precedence rule computed independently per key; pairs of tables of every size up to 14 (40) and around the powers of two up to 70 (300) with five overlaps in 9 orders, every key type and lists of up to three keys; 1025 and 3100 rows (thorough up to 10050); one key repeated up to 600 times; keys of two or three columns whose values read alike once joined (20 separators and more): every pair of tables of up to 2 such rows",
		Assumptions: []string{"among rows of one table with equal keys any real value may be taken (the sort is documented as not stable)", "a float cell supplied by neither table is NaN (documented), others are zero", "the order of the result's columns and its name are not specified"}})
	register(&Checker{ID: "G14", Run: runG14,
		Rule:        "every table of up to 4 [5] rows over every cell type with {zero, two values, NaN} cells and two keys; every sortable key type; every list of up to 3 keys with every reversal; patterned tables of up to 60 [150] rows; keys by argument or preset; the large tables of G11 (1025 and 3100 rows among them) with repeated keys, one key up to 1030 times; keys of two or three columns whose values read alike once joined (20 separators and more): every sequence of up to 4 (thorough 5) such rows; by arguments on tables with other keys set before",
		Assumptions: []string{"among several real values of one key any may be taken (documented)", "the order of the result's columns is not specified (keys come first)"}})
}
