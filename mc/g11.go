package main

// G11 sorting, G12 searching.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// keyVals is the alphabet of key values per sortable type, n of them. It starts with values that are easy to get wrong.
func keyVals(typ string, n int) (vs []interface{}) {
	switch typ {
	case "bool":
		vs = []interface{}{true, false}
	case "string":
		vs = []interface{}{"b", "a", "B", "", "aa", "é", "A"}
	case "float32":
		vs = []interface{}{float32(0), float32(math.NaN()), float32(-1.5), float32(math.Inf(1)), float32(2.5), float32(math.Copysign(0, -1)), float32(16777216)}
	case "float64":
		vs = []interface{}{0.0, math.NaN(), -1.5, math.Inf(-1), 2.5, math.Copysign(0, -1), 9007199254740992.0}
	case "int":
		vs = []interface{}{0, -1, math.MaxInt64, math.MinInt64, 1, 2}
	case "int8":
		vs = []interface{}{int8(0), int8(-1), int8(127), int8(-128), int8(1), int8(2)}
	case "int16":
		vs = []interface{}{int16(0), int16(-1), int16(math.MaxInt16), int16(math.MinInt16), int16(1), int16(2)}
	case "int32":
		vs = []interface{}{int32(0), int32(-1), int32(math.MaxInt32), int32(math.MinInt32), int32(1), int32(2)}
	case "int64":
		vs = []interface{}{int64(0), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1), int64(9007199254740993)}
	case "uint":
		vs = []interface{}{uint(1), uint(0), uint(math.MaxUint64), uint(math.MaxInt64), uint(2)}
	case "uint8":
		vs = []interface{}{uint8(1), uint8(0), uint8(255), uint8(128), uint8(2)}
	case "uint16":
		vs = []interface{}{uint16(1), uint16(0), uint16(65535), uint16(32768), uint16(2)}
	case "uint32":
		vs = []interface{}{uint32(1), uint32(0), uint32(math.MaxUint32), uint32(1 << 31), uint32(2)}
	case "uint64":
		vs = []interface{}{uint64(1), uint64(0), uint64(math.MaxUint64), uint64(1 << 63), uint64(2)}
	default:
		panic(typ)
	}
	if n < len(vs) {
		vs = vs[:n]
	}
	return
}

// seqs calls f with every sequence of length l over n symbols.
func seqs(n, l int, f func(s []int) bool) {
	s := make([]int, l)
	for {
		if !f(append([]int{}, s...)) {
			return
		}
		i := 0
		for ; i < l; i++ {
			s[i]++
			if s[i] < n {
				break
			}
			s[i] = 0
		}
		if i == l {
			return
		}
	}
}

// keyTables enumerates tables with key columns k0..; every key row sequence within the bounds. The columns are
// laid out "k1 id k0 p k2" so that key order differs from column order. Keys are left for the caller.
func keyTables(c *Ctx, sorted bool, yield func(desc func() string, types []string, alpha [][]interface{}, mk func() *MTable)) {
	one := func(kind string, types []string, alpha [][]interface{}, seq []int) {
		if sorted && !sort.IntsAreSorted(seq) {
			return // one order per multiset of rows
		}
		mk := func() *MTable {
			m := &MTable{Name: "T"}
			if len(types) > 1 {
				m.Cols = append(m.Cols, MCol{"k1", types[1]})
			}
			m.Cols = append(m.Cols, MCol{"id", "int"}, MCol{"k0", types[0]}, MCol{"p", "string"})
			if len(types) > 2 {
				m.Cols = append(m.Cols, MCol{"k2", types[2]})
			}
			for r, x := range seq {
				row := make([]interface{}, len(m.Cols))
				for k := range types {
					row[m.Col(fmt.Sprintf("k%d", k))] = alpha[k][x%len(alpha[k])]
					x /= len(alpha[k])
				}
				row[m.Col("id")] = r
				row[m.Col("p")] = fmt.Sprint("row", r)
				m.Rows = append(m.Rows, row)
			}
			return m
		}
		yield(func() string { return kind + " " + mk().Full() }, types, alpha, mk)
	}
	// one key
	for _, typ := range sortableTypes {
		for l := 0; l <= c.pick(4, 5); l++ {
			a := keyVals(typ, 7)
			seqs(len(a), l, func(s []int) bool {
				one("one key", []string{typ}, [][]interface{}{a}, s)
				return !c.Stopped()
			})
		}
	}
	// many rows, two values: the sorting algorithm changes with size, and comparison sorts are decided by 0-1 sequences.
	for l := 6; l <= c.pick(13, 17); l++ {
		a := []interface{}{1, 0}
		seqs(2, l, func(s []int) bool {
			one("0-1", []string{"int"}, [][]interface{}{a}, s)
			return !c.Stopped()
		})
	}
	// long patterned tables: n rows, period p, several directions
	for n := 10; n <= c.pick(70, 200); n += 7 {
		for p := 1; p <= 13; p++ {
			for st := 0; st < 3; st++ {
				var a []interface{}
				for i := 0; i < n; i++ {
					a = append(a, i)
				}
				s := make([]int, n)
				for i := range s {
					switch st {
					case 0:
						s[i] = i % p
					case 1:
						s[i] = (n - 1 - i) / p
					case 2:
						s[i] = (i * 31 * p) % n
					}
				}
				one("long", []string{"int"}, [][]interface{}{a}, s)
			}
		}
	}
	// two keys: every ordered pair of types
	for _, ta := range sortableTypes {
		for _, tb := range sortableTypes {
			if c.Stopped() {
				return
			}
			for l := 2; l <= c.pick(2, 3); l++ {
				a := [][]interface{}{keyVals(ta, 3), keyVals(tb, 3)}
				seqs(len(a[0])*len(a[1]), l, func(s []int) bool {
					one("two keys", []string{ta, tb}, a, s)
					return !c.Stopped()
				})
			}
		}
	}
	// three keys
	for _, tt := range [][]string{{"int", "string", "bool"}, {"float64", "uint8", "int64"}, {"string", "string", "string"}} {
		for l := 3; l <= c.pick(3, 5); l++ {
			a := [][]interface{}{keyVals(tt[0], 2), keyVals(tt[1], 2), keyVals(tt[2], 2)}
			seqs(8, l, func(s []int) bool {
				one("three keys", tt, a, s)
				return !c.Stopped()
			})
		}
	}
}

// keyLists: every ordering of every non-empty subset of the key columns, with every set of reversed keys.
func keyLists(n int) (r [][]MKey) {
	var rec func(cur []MKey, used int)
	rec = func(cur []MKey, used int) {
		if len(cur) > 0 {
			r = append(r, append([]MKey{}, cur...))
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				for _, rev := range []bool{false, true} {
					rec(append(cur[:len(cur):len(cur)], MKey{fmt.Sprintf("k%d", i), rev}), used|1<<i)
				}
			}
		}
	}
	rec(nil, 0)
	return
}

var keyListsN = [][][]MKey{nil, keyLists(1), keyLists(2), keyLists(3)}

// checkSorted: got is in order under its keys and is a rearrangement of want's rows (identified by column id).
func checkSorted(want, got *MTable) string {
	if len(got.Rows) != len(want.Rows) {
		return fmt.Sprintf("%d rows after the sort, %d before", len(got.Rows), len(want.Rows))
	}
	id := want.Col("id")
	seen := map[int]bool{}
	for i, r := range got.Rows {
		k := r[id].(int)
		if k < 0 || k >= len(want.Rows) || seen[k] {
			return fmt.Sprintf("row id %d occurs twice or never existed", k)
		}
		seen[k] = true
		if vals(r) != vals(want.Rows[k]) {
			return fmt.Sprintf("row %d is %s, originally %s", i, vals(r), vals(want.Rows[k]))
		}
		if i > 0 && cmpRowsM(got, got.Rows[i-1], r) > 0 {
			return fmt.Sprintf("rows %d and %d are out of order: %s then %s (keys %v)", i-1, i, vals(got.Rows[i-1]), vals(r), got.Keys)
		}
	}
	return ""
}

func namesOf(keys []MKey) (s []string) {
	for _, k := range keys {
		s = append(s, k.Col)
	}
	return
}

func anyRev(keys []MKey) bool {
	for _, k := range keys {
		if k.Rev {
			return true
		}
	}
	return false
}

// extremeSorts: every three extreme values of every sortable type, and all of them together.
func extremeSorts(c *Ctx) {
	run := func(typ string, rev bool, vs []interface{}) {
		mk := func() *MTable {
			m := &MTable{Name: "T", Cols: []MCol{{"k", typ}, {"id", "int"}}, Keys: []MKey{{"k", rev}}}
			for i, v := range vs {
				m.Rows = append(m.Rows, []interface{}{v, i})
			}
			return m
		}
		c.Do(func() string { return "extremes " + mk().Full() }, func(t *T) {
			m := mk()
			tb := build(m)
			t.State(m.Data())
			for i := range m.Rows {
				for j := range m.Rows {
					got, err := tb.CompareRows(i, j)
					t.Step(1)
					if want := cmpRowsM(m, m.Rows[i], m.Rows[j]); err != nil || got != want {
						t.Failf("CompareRows(%d, %d) = %d, %v; the order of %s and %s is %d", i, j, got, err, vals(m.Rows[i]), vals(m.Rows[j]), want)
						return
					}
				}
			}
			if err := tb.Sort(); err != nil {
				t.Failf("Sort(): %v", err)
				return
			}
			t.Step(1)
			if e := checkSorted(m, observe(tb)); e != "" {
				t.Failf("Sort(): %s", e)
			}
		})
	}
	for _, typ := range sortableTypes {
		vs := extremes(typ)
		for _, rev := range []bool{false, true} {
			run(typ, rev, vs)
			for i := range vs {
				for j := range vs {
					if c.Thorough {
						for k := range vs {
							run(typ, rev, []interface{}{vs[i], vs[j], vs[k]})
						}
					} else {
						run(typ, rev, []interface{}{vs[i], vs[j], vs[(i+j)%len(vs)]})
					}
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}

// extremeSearches: a sorted table of all extreme values, or all but one, searched for each.
func extremeSearches(c *Ctx) {
	for _, typ := range sortableTypes {
		vs := extremes(typ)
		for _, rev := range []bool{false, true} {
			for out := -1; out < len(vs); out++ {
				typ, rev, out := typ, rev, out
				c.Do(func() string {
					return fmt.Sprintf("all extreme values of %s, reverse %v, without number %d", typ, rev, out)
				}, func(t *T) {
					m := &MTable{Name: "T", Cols: []MCol{{"id", "int"}, {"k", typ}}, Keys: []MKey{{"k", rev}}}
					for i, v := range vs {
						if i != out {
							m.Rows = append(m.Rows, []interface{}{i, v})
						}
					}
					sortM(m)
					tb := build(m)
					t.State(m.Data())
					for _, v := range vs {
						first, last := -1, -1
						for r, row := range m.Rows {
							if cmpVal(row[1], v) == 0 {
								if first < 0 {
									first = r
								}
								last = r
							}
						}
						t.Step(4)
						if e := checkSearch(tb, []interface{}{v}, first, last); e != "" {
							t.Failf("searching %s in %s: %s", val(v), m.Data(), e)
							return
						}
					}
					t.Outcome("extremes found")
				})
				if c.Stopped() {
					return
				}
			}
		}
	}
}

func runG11(c *Ctx) {
	histories(c, c.pick(2, 2), sortOps()...)
	confusedSearches(c, false)
	shuffles(c)
	extremeSorts(c)
	bigSorts(c)
	keyTables(c, false, func(desc func() string, types []string, alpha [][]interface{}, mk func() *MTable) {
		c.Do(desc, func(t *T) {
			m := mk()
			t.State(m.Data())
			lists := keyListsN[len(types)]
			for _, keys := range lists {
				m.Keys = keys
				tb := build(m)
				// comparisons before sorting
				if len(m.Rows) <= 6 {
					for i := range m.Rows {
						for j := range m.Rows {
							got, err := tb.CompareRows(i, j)
							t.Step(1)
							if want := cmpRowsM(m, m.Rows[i], m.Rows[j]); err != nil || got != want {
								t.Failf("keys %v: CompareRows(%d, %d) = %d, %v; the order of %s and %s is %d", keys, i, j, got, err, vals(m.Rows[i]), vals(m.Rows[j]), want)
								return
							}
						}
					}
				}
				if err := tb.Sort(); err != nil {
					t.Failf("keys %v: Sort(): %v", keys, err)
					return
				}
				t.Step(1)
				o := observe(tb)
				if fmt.Sprint(o.Keys) != fmt.Sprint(keys) || fmt.Sprint(o.Cols) != fmt.Sprint(m.Cols) {
					t.Failf("keys %v: after Sort() keys %v columns %v", keys, o.Keys, o.Cols)
					return
				}
				if e := checkSorted(m, o); e != "" {
					t.Failf("keys %v: Sort(): %s", keys, e)
					return
				}
				// sorting again keeps it in order
				if len(m.Rows) <= 6 {
					must(tb.Sort())
					if e := checkSorted(m, observe(tb)); e != "" {
						t.Failf("keys %v: second Sort(): %s", keys, e)
						return
					}
				}
				if !anyRev(keys) {
					priors := priorKeys(m, keys)
					for how := 0; how < 2*len(priors); how++ {
						m.Keys = priors[how/2]
						tb = build(m)
						m.Keys = keys
						var err error
						if how%2 == 0 {
							err = tb.Sort(namesOf(keys)...)
						} else {
							err = tb.SortSimple(namesOf(keys)...)
						}
						t.Step(1)
						if err != nil {
							t.Failf("keys %v, keys before %v: Sort(cols): %v", keys, priors[how/2], err)
							return
						}
						o := observe(tb)
						if fmt.Sprint(o.Keys) != fmt.Sprint(keys) {
							t.Failf("Sort(%v) leaves keys %v", keys, o.Keys)
							return
						}
						if e := checkSorted(m, o); e != "" {
							t.Failf("Sort(%v): %s", namesOf(keys), e)
							return
						}
					}
				}
			}
			t.Outcome(fmt.Sprintf("%d keys, %d rows sorted", len(types), min(len(m.Rows), 14)))
		})
	})
	// Sort-key editing: every sequence of key edits.
	type kop struct {
		desc  string
		model func(m *MTable) bool
		impl  func(t *g.Table) error
	}
	base := func() *MTable {
		return &MTable{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "string"}, {"c", "float64"}, {"x", "[]byte"}, {"r", "rune"}}, Rows: [][]interface{}{{1, "q", 2.5, []byte{1}, 'a'}, {0, "p", 1.5, []byte{2}, 'b'}}}
	}
	srcs := []*MTable{
		{Name: "S"},
		{Name: "S", Cols: []MCol{{"a", "int"}}, Keys: []MKey{{"a", true}}},
		{Name: "S", Cols: []MCol{{"a", "string"}, {"b", "string"}, {"c", "int"}}, Keys: []MKey{{"c", false}, {"a", true}, {"b", false}}},
		{Name: "S", Cols: []MCol{{"a", "int"}, {"zz", "int"}}, Keys: []MKey{{"a", false}, {"zz", false}}},
		{Name: "S", Cols: []MCol{{"a", "int"}, {"x", "int"}}, Keys: []MKey{{"a", false}, {"x", true}}},
	}
	var ops []kop
	for _, l := range [][]string{{}, {"a"}, {"b", "a"}, {"a", "b", "c"}, {"zz"}, {"a", "x"}, {"a", "a"}, {"r"}} {
		l := l
		ops = append(ops, kop{fmt.Sprintf("SetSortKeys(%s)", strs(l)), func(m *MTable) bool { return setKeysM(m, l) }, func(t *g.Table) error { return t.SetSortKeys(l...) }})
	}
	for _, l := range [][]string{{}, {"a"}, {"b"}, {"a", "c"}, {"b", "zz"}} {
		l := l
		ops = append(ops, kop{fmt.Sprintf("SetSortKeysReverse(%s)", strs(l)), func(m *MTable) bool { return setRevM(m, l) }, func(t *g.Table) error { return t.SetSortKeysReverse(l...) }})
	}
	for _, n := range []string{"a", "b", "c", "x", "zz", ""} {
		n := n
		ops = append(ops, kop{fmt.Sprintf("AppendSortKey(%q)", n), func(m *MTable) bool {
			i := m.Col(n)
			if i < 0 || !isSortable(m.Cols[i].Type) {
				return false
			}
			m.Keys = append(m.Keys, MKey{n, false})
			return true
		}, func(t *g.Table) error { return t.AppendSortKey(n) }})
		ops = append(ops, kop{fmt.Sprintf("DeleteSortKey(%q)", n), func(m *MTable) bool {
			for i, k := range m.Keys {
				if k.Col == n {
					m.Keys = append(m.Keys[:i:i], m.Keys[i+1:]...)
					return true
				}
			}
			return false
		}, func(t *g.Table) error { return t.DeleteSortKey(n) }})
	}
	fromM := func(m, s *MTable) bool {
		if len(s.Keys) == 0 {
			return false
		}
		if !setKeysM(m, namesOf(s.Keys)) {
			return false
		}
		m.Keys = append([]MKey{}, s.Keys...)
		return true
	}
	for i, s := range srcs {
		s := s
		ops = append(ops, kop{fmt.Sprintf("SetSortKeysFromTable(S%d)", i), func(m *MTable) bool { return fromM(m, s) }, func(t *g.Table) error { return t.SetSortKeysFromTable(build(s)) }})
	}
	ops = append(ops, kop{"SetSortKeysFromTable(itself)", func(m *MTable) bool { return len(m.Keys) > 0 }, func(t *g.Table) error { return t.SetSortKeysFromTable(t) }})
	checkKeys := func(tb *g.Table, m *MTable) string {
		kt, err := tb.GetSortKeysAsTable()
		if err != nil {
			return "GetSortKeysAsTable: " + err.Error()
		}
		if kt.RowCount() != len(m.Keys) || tb.SortKeyCount() != len(m.Keys) {
			return fmt.Sprintf("%d keys listed, SortKeyCount() %d, want %v", kt.RowCount(), tb.SortKeyCount(), m.Keys)
		}
		for i, k := range m.Keys {
			r, e1 := kt.GetVal("reverse", i)
			n, e2 := kt.GetVal("colName", i)
			ty, e3 := kt.GetVal("colType", i)
			ix, e4 := kt.GetVal("index", i)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil || r != k.Rev || n != k.Col || ty != m.Cols[m.Col(k.Col)].Type || ix != i {
				return fmt.Sprintf("key %d listed as %v %v %v %v, want %v", i, ix, n, ty, r, k)
			}
		}
		for _, col := range m.Cols {
			want := false
			for _, k := range m.Keys {
				want = want || k.Col == col.Name
			}
			if got, err := tb.IsSortKey(col.Name); got != want || err != nil {
				return fmt.Sprintf("IsSortKey(%q) = %v, %v", col.Name, got, err)
			}
		}
		if ok, err := tb.IsSortKey("zz"); ok || err == nil {
			return fmt.Sprintf("IsSortKey of an unknown column = %v, %v", ok, err)
		}
		return ""
	}
	// Long lists of keys: of different columns, and of a few columns over and over.
	for n := 4; n <= c.pick(70, 300); n++ {
		for cols := 1; cols <= n; cols = cols*3 + 1 {
			n, cols := n, cols
			c.Do(func() string { return fmt.Sprintf("%d keys of %d columns", n, cols) }, func(t *T) {
				m := &MTable{Name: "T"}
				for i := 0; i < cols; i++ {
					m.Cols = append(m.Cols, MCol{fmt.Sprint("c", i), sortableTypes[i%len(sortableTypes)]})
				}
				for i := 0; i < n; i++ {
					col := fmt.Sprint("c", i*7%cols)
					rev := i%3 == 1
					for j := range m.Keys {
						m.Keys[j].Rev = m.Keys[j].Rev || rev && m.Keys[j].Col == col
					}
					m.Keys = append(m.Keys, MKey{col, rev})
				}
				tb := build(m)
				t.Step(n)
				if e := checkKeys(tb, m); e != "" {
					t.Failf("%s", e)
					return
				}
				if observe(tb).Full() != m.Full() {
					t.Failf("table is %s, want %s", observe(tb).Full(), m.Full())
				}
				// delete the keys one by one, from the end, the middle or the front; and reverse one each time
				for k := 0; len(m.Keys) > 0; k++ {
					i := []int{len(m.Keys) - 1, len(m.Keys) / 2, 0}[k%3]
					col := m.Keys[i].Col
					if k%2 == 0 {
						for j := range m.Keys {
							m.Keys[j].Rev = m.Keys[j].Rev || m.Keys[j].Col == col
						}
						if err := tb.SetSortKeysReverse(col); err != nil {
							t.Failf("SetSortKeysReverse(%s) with %d keys: %v", col, len(m.Keys), err)
							return
						}
					}
					for j := range m.Keys {
						if m.Keys[j].Col == col {
							i = j
							break
						}
					}
					m.Keys = append(m.Keys[:i:i], m.Keys[i+1:]...)
					err := tb.DeleteSortKey(col)
					t.Step(1)
					if err != nil {
						t.Failf("DeleteSortKey(%s) with %d keys: %v", col, len(m.Keys)+1, err)
						return
					}
					if e := checkKeys(tb, m); e != "" {
						t.Failf("after DeleteSortKey(%s) with %d keys: %s", col, len(m.Keys)+1, e)
						return
					}
				}
			})
		}
	}
	depth := c.pick(3, 4)
	for l := 1; l <= depth; l++ {
		seqs(len(ops), l, func(s []int) bool {
			c.Do(func() string {
				var d []string
				for _, i := range s {
					d = append(d, ops[i].desc)
				}
				return "keys: " + strings.Join(d, "; ")
			}, func(t *T) {
				m := base()
				tb := build(m)
				for n, i := range s {
					nm := m.Clone()
					ok := ops[i].model(nm)
					err := ops[i].impl(tb)
					t.Step(1)
					if ok {
						m = nm
					}
					if ok != (err == nil) {
						t.Failf("step %d %s: error %v, want success %v", n+1, ops[i].desc, err, ok)
						return
					}
					if n == len(s)-1 || !ok {
						if e := checkKeys(tb, m); e != "" {
							t.Failf("step %d %s: %s", n+1, ops[i].desc, e)
							return
						}
					}
				}
				if observe(tb).Full() != m.Full() {
					t.Failf("table is %s, want %s", observe(tb).Full(), m.Full())
					return
				}
				t.State(fmt.Sprint(m.Keys))
				// The keys in force decide the sort.
				err := tb.Sort()
				if (err == nil) != (len(m.Keys) > 0) {
					t.Failf("Sort() with keys %v: %v", m.Keys, err)
					return
				}
				for _, ij := range [][2]int{{-1, 0}, {0, -1}, {2, 0}, {0, 2}, {0, 1}} {
					_, err := tb.CompareRows(ij[0], ij[1])
					bad := len(m.Keys) == 0 || ij != [2]int{0, 1}
					if bad != (err != nil) {
						t.Failf("CompareRows(%d, %d) with keys %v: error %v", ij[0], ij[1], m.Keys, err)
						return
					}
				}
				if len(m.Keys) > 0 && strictlyOrderable(m) {
					sortM(m)
					if observe(tb).Full() != m.Full() {
						t.Failf("sorted by %v: %s, want %s", m.Keys, observe(tb).Full(), m.Full())
					}
				}
			})
			return !c.Stopped()
		})
	}
}

// shuffles: a shuffled table has the same rows, keys and shape; ShufflePseudorandom gives tables of one size one order, always.
func shuffles(c *Ctx) {
	for n := 0; n <= c.pick(40, 200); n++ {
		for typ := 0; typ < 3; typ++ {
			n, typ := n, typ
			c.Do(func() string { return fmt.Sprintf("shuffles of %d rows, kind %d", n, typ) }, func(t *T) {
				m := &MTable{Name: "S", Cols: []MCol{{"i", "int"}, {"s", "string"}, {"d", "int"}}}
				if typ == 2 {
					m.Cols = append(m.Cols, MCol{"b", "[]byte"})
				}
				for r := 0; r < n; r++ {
					row := []interface{}{r, fmt.Sprint("s", r), r / 3}
					if typ == 1 {
						row = []interface{}{r, "same", 0}
					}
					if typ == 2 {
						row = append(row, []byte{byte(r)})
					}
					m.Rows = append(m.Rows, row)
				}
				if typ > 0 {
					m.Keys = []MKey{{"s", true}, {"d", false}}
				}
				order := func(o *MTable) (s string) {
					for _, r := range o.Rows {
						s += fmt.Sprint(r[0], " ")
					}
					return
				}
				// The order is that of any table of this size, whatever its columns, keys and shape.
				plain := &MTable{Name: "P", Struct: typ == 1, Cols: []MCol{{"i", "int"}}}
				for r := 0; r < n; r++ {
					plain.Rows = append(plain.Rows, []interface{}{r})
				}
				if n > 1 {
					plain.Struct = false
				}
				px := build(plain)
				must(px.ShufflePseudorandom())
				plainOrder := order(observe(px))
				var first string
				for round := 0; round < 4; round++ {
					x := build(m)
					var err error
					if round == 3 {
						err = x.ShuffleRandom()
					} else {
						err = x.ShufflePseudorandom()
					}
					t.Step(1)
					o := observe(x)
					if err != nil {
						t.Failf("%v", err)
						return
					}
					ord := order(o)
					if round == 0 {
						first = ord
						if ord != plainOrder {
							t.Failf("ShufflePseudorandom gives %s, for another table of this size %s", ord, plainOrder)
							return
						}
					} else if round < 3 && ord != first {
						t.Failf("ShufflePseudorandom gives %s, the first time %s", ord, first)
						return
					}
					if round == 1 {
						x2 := build(m)
						must(x2.ShuffleRandom())
						y := build(m)
						must(y.Reverse())
						must(y.ShufflePseudorandom())
						var rev []string
						for _, f := range strings.Fields(first) {
							k, _ := strconv.Atoi(f)
							rev = append(rev, fmt.Sprint(n-1-k))
						}
						if got := strings.TrimSpace(order(observe(y))); got != strings.Join(rev, " ") {
							t.Failf("ShufflePseudorandom depends on the contents: %s, want %s", got, strings.Join(rev, " "))
							return
						}
					}
					sort.SliceStable(o.Rows, func(i, j int) bool { return o.Rows[i][0].(int) < o.Rows[j][0].(int) })
					if o.Full() != m.Full() {
						t.Failf("shuffled rows are %s, want those of %s", o.Full(), m.Full())
						return
					}
				}
			})
		}
	}
}

// ---- G12 ----

func runG12(c *Ctx) {
	histories(c, c.pick(2, 2), searchOps()...)
	confusedSearches(c, true)
	extremeSearches(c)
	bigSearches(c)
	keyTables(c, true, func(desc func() string, types []string, alpha [][]interface{}, mk func() *MTable) {
		c.Do(desc, func(t *T) {
			m := mk()
			t.State(m.Data())
			for _, keys := range keyListsN[len(types)] {
				m.Keys = keys
				sm := m.Clone()
				sortM(sm)
				tb := build(sm)
				sm = observe(tb)
				// every combination of search values: those in the alphabet and absent ones
				dims := make([][]interface{}, len(keys))
				total := 1
				for i, k := range keys {
					ki := int(k.Col[1] - '0')
					dims[i] = alpha[ki]
					if len(dims[i]) > 8 { // long tables: the values in use, one below, one above
						dims[i] = append(append([]interface{}{}, alpha[ki]...), -1, len(alpha[ki]))
					} else if len(keys) == 1 || len(dims[i]) == 2 {
						dims[i] = append(append([]interface{}{}, dims[i]...), absentVals(types[ki], dims[i])...)
					}
					total *= len(dims[i])
				}
				for x := 0; x < total; x++ {
					sv := make([]interface{}, len(keys))
					probe := make([]interface{}, len(m.Cols))
					y := x
					for i, k := range keys {
						sv[i] = dims[i][y%len(dims[i])]
						y /= len(dims[i])
						probe[m.Col(k.Col)] = sv[i]
					}
					first, last := -1, -1
					for r, row := range sm.Rows {
						if cmpRowsM(sm, row, probe) == 0 {
							if first < 0 {
								first = r
							}
							last = r
						}
					}
					t.Step(4)
					if e := checkSearch(tb, sv, first, last); e != "" {
						t.Failf("keys %v, searching %s in %s: %s", keys, vals(sv), sm.Data(), e)
						return
					}
					if x%3 == 0 || first >= 0 {
						nt, err := tb.NewTableFromRowsBySearchRange("Found", sv...)
						t.Step(1)
						if (err == nil) != (first >= 0) {
							t.Failf("keys %v: NewTableFromRowsBySearchRange(%s): error %v, rows %d..%d match", keys, vals(sv), err, first, last)
							return
						}
						if err == nil {
							w := &MTable{Name: "Found", Cols: sm.Cols, Rows: sm.Rows[first : last+1]}
							if got := observe(nt); got.Data() != w.Data() {
								t.Failf("keys %v: NewTableFromRowsBySearchRange(%s) = %s, want %s", keys, vals(sv), got.Data(), w.Data())
								return
							}
						}
					}
				}
				// wrong number of values, wrong types
				good := make([]interface{}, len(keys))
				for i := range keys {
					good[i] = dims[i][0]
				}
				bad := [][]interface{}{{}, append(append([]interface{}{}, good...), good[0]), good[1:]}
				for i := range good {
					for _, w := range []interface{}{nil, complex(1, 1), struct{}{}, []interface{}{good[0]}} {
						b := append([]interface{}{}, good...)
						b[i] = w
						bad = append(bad, b)
					}
					for _, ty := range sortableTypes {
						if k := int(keys[i].Col[1] - '0'); ty != types[k] {
							b := append([]interface{}{}, good...)
							b[i] = keyVals(ty, 1)[0]
							bad = append(bad, b)
						}
					}
				}
				if len(m.Rows) <= 3 {
					for _, b := range bad {
						if e := checkSearchRefused(tb, b); e != "" {
							t.Failf("keys %v, searching %v: %s", keys, b, e)
							return
						}
						t.Step(4)
					}
				}
				if o := observe(tb); o.Full() != sm.Full() {
					t.Failf("searching changed the table to %s", o.Full())
					return
				}
			}
			m.Keys = nil
			tb := build(m)
			if e := checkSearchRefused(tb, []interface{}{alpha[0][0]}); e != "" {
				t.Failf("no sort keys: %s", e)
			}
			t.Outcome(fmt.Sprintf("%d keys, %d rows", len(types), min(len(m.Rows), 14)))
		})
	})
	// The exported binary searches, on every monotone predicate.
	for n := 0; n <= c.pick(40, 300); n++ {
		for k := 0; k <= n; k++ {
			n, k := n, k
			c.Do(func() string { return fmt.Sprintf("SearchFirst/SearchLast(%d) with %d", n, k) }, func(t *T) {
				out := ""
				p := func(r bool) func(int) bool {
					return func(i int) bool {
						if i < 0 || i >= n {
							out = fmt.Sprintf("predicate called with %d of %d", i, n)
						}
						return (i >= k) == r
					}
				}
				if got := g.SearchFirst(n, p(true)); got != k {
					t.Failf("SearchFirst = %d", got)
				}
				if got := g.SearchLast(n, p(false)); got != k-1 {
					t.Failf("SearchLast = %d", got)
				}
				if out != "" {
					t.Failf("%s", out)
				}
				t.Step(2)
			})
		}
	}
}

func absentVals(typ string, have []interface{}) (r []interface{}) {
	for _, v := range domain(typ) {
		found := false
		for _, h := range have {
			found = found || val(h) == val(v)
		}
		if !found && len(r) < 4 {
			r = append(r, v)
		}
	}
	return
}

func checkSearch(tb *g.Table, sv []interface{}, first, last int) string {
	type res struct {
		name string
		a, b int
		err  error
		want [2]int
	}
	var rs []res
	i, err := tb.Search(sv...)
	rs = append(rs, res{"Search", i, i, err, [2]int{first, first}})
	i, err = tb.SearchFirst(sv...)
	rs = append(rs, res{"SearchFirst", i, i, err, [2]int{first, first}})
	i, err = tb.SearchLast(sv...)
	rs = append(rs, res{"SearchLast", i, i, err, [2]int{last, last}})
	i, j, err := tb.SearchRange(sv...)
	rs = append(rs, res{"SearchRange", i, j, err, [2]int{first, last}})
	for _, r := range rs {
		if (r.err == nil) != (first >= 0) {
			return fmt.Sprintf("%s = %d, %d, %v but rows %d..%d match", r.name, r.a, r.b, r.err, first, last)
		}
		if [2]int{r.a, r.b} != r.want {
			return fmt.Sprintf("%s = %d, %d, want %v", r.name, r.a, r.b, r.want)
		}
	}
	return ""
}

func checkSearchRefused(tb *g.Table, sv []interface{}) string {
	i1, e1 := tb.Search(sv...)
	i2, e2 := tb.SearchFirst(sv...)
	i3, e3 := tb.SearchLast(sv...)
	i4, j4, e4 := tb.SearchRange(sv...)
	_, e5 := tb.NewTableFromRowsBySearchRange("N", sv...)
	if e1 == nil || e2 == nil || e3 == nil || e4 == nil || e5 == nil {
		return fmt.Sprintf("accepted: Search %d %v, SearchFirst %d %v, SearchLast %d %v, SearchRange %d %d %v, extract %v", i1, e1, i2, e2, i3, e3, i4, j4, e4, e5)
	}
	return ""
}

func init() {
	register(&Checker{ID: "G11", Run: runG11,
		Rule:        "every key row sequence within the bounds (one key: each sortable type, all sequences of up to 4 [5] rows over boundary values; 0-1 sequences of up to 13 [17] rows; patterned tables of up to 70 [200] rows; two keys: all pairs of sortable types; three keys) under every ordered list of keys with every set of reversed keys, sorted by each entry point, plus every sequence of up to 3 [4] sort-key edits and lists of up to 70 [300] keys, their keys deleted or reversed one by one; tables of 1025 and 3100 [up to 10050] rows; checked against an independent row comparison and key list model; tables of every size up to 40 (80) and around the powers of two up to 300 (1100) in 9 orders, with every sortable key type and lists of two and three keys; keys of two or three columns whose values read alike once joined (20 separators and more): every sequence of up to 4 (thorough 5) such rows; sorting by arguments on tables with other keys set before",
		Assumptions: []string{"NaN sorts before all other numbers, -0 equals 0", "the order of rows with equal keys is not specified"}})
	register(&Checker{ID: "G12", Run: runG12,
		Rule:        "every sorted table of the G11 family x every combination of present and absent search values x Search, SearchFirst, SearchLast, SearchRange and NewTableFromRowsBySearchRange, compared with a linear scan; wrong numbers and types of values refused; the exported SearchFirst/SearchLast on every monotone predicate over up to 40 [300] positions; the large tables of G11 (up to 3100 rows, thorough 10050), with and without gaps; one key repeated up to 1030 times; keys of two or three columns whose values read alike once joined (20 separators and more): every sequence of up to 4 (thorough 5) such rows",
		Assumptions: []string{"NaN equals NaN as a search value and sorts first, -0 equals 0"}})
}
