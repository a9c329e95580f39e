package main

// Sizes: tables larger than the rest of the universe, because buffers, sorting algorithms and counters change their ways with size.

import (
	"fmt"
	"math"
	"strings"
)

// sizeLadder is every size up to full, then the neighbourhoods of the usual buffer and algorithm limits up to max.
func sizeLadder(full, max int) (ns []int) {
	for n := 0; n <= full; n++ {
		ns = append(ns, n)
	}
	for _, m := range []int{64, 80, 100, 128, 256, 300, 512, 1000, 1024, 2048, 4096, 8192, 10000, 16384, 32768, 65536, 131072, 200000, 1000000, 1 << 20} {
		for d := -2; d <= 2; d++ {
			if n := m + d; n > full && n <= max && (n > ns[len(ns)-1]) {
				ns = append(ns, n)
			}
		}
	}
	return
}

// awkwardStarts are beginnings of strings that some form must quote or could take for something else.
var awkwardStarts = []string{"", "", "\n", "", " ", "\t", "", "- ", "\r\n", "=", "", "\u754c", "'", "", ", ", "{", "# ", "", "[", "|\n", "\\", ": "}

// sizedTable has rows rows and columns of the given types with varying contents.
func sizedTable(rows int, types ...string) *MTable {
	m := &MTable{Name: "Sized"}
	for i, t := range types {
		m.Cols = append(m.Cols, MCol{fmt.Sprintf("c%d", i), t})
	}
	for r := 0; r < rows; r++ {
		var row []interface{}
		for i, t := range types {
			switch t {
			case "int":
				row = append(row, r-i)
			case "string":
				row = append(row, fmt.Sprintf("%s%d #\"%s", awkwardStarts[(r+i)%len(awkwardStarts)], r, strings.Repeat("x", (r+i)%7)))
			case "*Table":
				if (r+i)%3 == 0 {
					row = append(row, &MTable{Nil: true})
				} else {
					row = append(row, table1(fmt.Sprintf("N%d_%d", r, i), "v", "int", r, i))
				}
			default:
				d := domain(t)
				row = append(row, fresh(d[(r+i)%len(d)]))
			}
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

// nestedDeep is a table nested depth times, each level with a cell beside the nested table.
func nestedDeep(depth int) *MTable {
	m := &MTable{Name: "D0", Cols: []MCol{{"v", "int"}}, Rows: [][]interface{}{{depth}}}
	for d := 1; d <= depth; d++ {
		m = &MTable{Name: fmt.Sprintf("D%d", d), Cols: []MCol{{"i", "int"}, {"t", "*Table"}, {"s", "string"}}, Rows: [][]interface{}{{d, m, "x"}, {-d, &MTable{Nil: true}, ""}}}
	}
	return m
}

var longStringPieces = []string{"a", "ab c ", "\"", "\\", "\n", "\u754c", "#", " ", "\t", "'", "\U0001f600", "- : "}

// sizes is the part of the universe that grows one dimension at a time.
func sizes(c *Ctx, o uniOpt, yield func(desc func() string, s func() *MSet)) {
	sized := func(kind string, n int, f func() *MSet) {
		if !c.Stopped() {
			yield(func() string { return fmt.Sprintf("%s: size %d", kind, n) }, f)
		}
	}
	// rows
	for _, n := range sizeLadder(c.pick(64, 300), c.pick(1100, 10002)) {
		n := n
		sized("rows of int, string, float64", n, func() *MSet { return oneSet(sizedTable(n, "int", "string", "float64")) })
	}
	for _, t := range o.Types {
		t := t
		if t == "*Table" && !o.Nested {
			continue
		}
		for _, n := range sizeLadder(c.pick(20, 64), c.pick(20, 300)) {
			n := n
			sized("rows of "+t+", int", n, func() *MSet { return oneSet(sizedTable(n, t, "int")) })
		}
	}
	// one cell unlike all the others of its column
	for _, t := range o.Types {
		t := t
		if t == "*Table" {
			continue
		}
		vs := domain(t)
		switch t {
		case "string":
			vs = append(vs[:len(vs):len(vs)], strings.Repeat("long", 30), strings.Repeat("\u754c", 50))
		case "[]byte", "[]uint8":
			vs = append(vs[:len(vs):len(vs)], make([]byte, 70))
		}
		ns := []int{3, 12, 70, 130}
		if c.Thorough {
			ns = []int{3, 5, 9, 12, 17, 33, 70, 130, 260, 1030}
		}
		for _, n := range ns {
			for k, odd := range vs {
				n, odd, most := n, odd, vs[(k+n)%2]
				for _, at := range []int{0, n / 2, n - 1} {
					at := at
					sized(fmt.Sprintf("rows of %s %v, but %.20v in row %d", t, most, odd, at), n, func() *MSet {
						m := &MTable{Name: "Odd", Cols: []MCol{{"a", t}, {"i", "int"}, {"z", t}}}
						for r := 0; r < n; r++ {
							v := most
							if r == at {
								v = odd
							}
							m.Rows = append(m.Rows, []interface{}{fresh(v), r % 10, fresh(v)})
						}
						return oneSet(m)
					})
				}
			}
		}
	}
	// columns
	for _, n := range sizeLadder(c.pick(64, 300), c.pick(300, 1100)) {
		n := n
		for rows := 0; rows < 3; rows++ {
			rows := rows
			sized(fmt.Sprintf("columns of %d rows", rows), n, func() *MSet {
				var types []string
				for i := 0; i < n; i++ {
					if t := o.Types[i%len(o.Types)]; t != "*Table" {
						types = append(types, t)
					} else {
						types = append(types, "string")
					}
				}
				if n == 0 {
					return oneSet(&MTable{Name: "Sized"})
				}
				return oneSet(sizedTable(rows, types...))
			})
		}
	}
	// strings
	for i, p := range longStringPieces {
		p := p
		max := c.pick(5000, 70000)
		if i < 3 {
			max = c.pick(70000, 1<<20)
		}
		ns := sizeLadder(c.pick(100, 300), max)
		if i == 0 && c.Tier != "thorough" {
			ns = append(ns, 999998, 1000000, 1000001) // Package fmt does not pad beyond this.
		}
		for _, n := range ns {
			n := n
			sized(fmt.Sprintf("strings of %q", p), n, func() *MSet {
				s := strings.Repeat(p, n/len(p)+1)[:n/len(p)*len(p)]
				return oneSet(&MTable{Name: "T", Cols: []MCol{{"i", "int"}, {"s", "string"}, {"t", "string"}, {"j", "int"}}, Rows: [][]interface{}{{1, s, "x" + s, 2}, {3, "", s + "y", 4}}})
			})
		}
	}
	// names
	for _, n := range append(sizeLadder(c.pick(40, 300), c.pick(1100, 70000)), 1000000, 1000001) {
		n := n
		if n == 0 {
			continue
		}
		sized("names", n, func() *MSet {
			s := strings.Repeat("n", n)
			return &MSet{Name: s, Tables: []*MTable{{Name: s, Cols: []MCol{{s, "int"}, {s + "_", "string"}, {"x", "bool"}}, Rows: [][]interface{}{{1, "a", true}, {-22, "", false}}}}}
		})
	}
	// byte slices
	for _, n := range sizeLadder(c.pick(100, 300), c.pick(5000, 70000)) {
		n := n
		sized("bytes", n, func() *MSet {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(i*7 + n)
			}
			return oneSet(&MTable{Name: "T", Cols: []MCol{{"b", "[]byte"}, {"i", "int"}, {"u", "[]uint8"}}, Rows: [][]interface{}{{b, 1, fresh(b)}, {[]byte{}, 2, fresh(b)}}})
		})
	}
	// tables in a set
	for _, n := range sizeLadder(c.pick(40, 100), c.pick(300, 1100)) {
		n := n
		sized("tables", n, func() *MSet {
			s := &MSet{Name: "Sized"}
			for i := 0; i < n; i++ {
				t := sizedTable(i%3, []string{"int", "string", "bool"}[:1+i%3]...)
				t.Name = fmt.Sprintf("T%d", i)
				s.Tables = append(s.Tables, t)
			}
			return s
		})
	}
	// depth
	if o.Nested {
		for _, n := range sizeLadder(c.pick(16, 40), c.pick(66, 102)) {
			n := n
			sized("nesting", n, func() *MSet { return oneSet(nestedDeep(n)) })
		}
	}
}

// patterns are the orders in which large tables present n keys.
var patterns = []struct {
	name string
	f    func(i, n int) int
}{
	{"ascending", func(i, n int) int { return i }},
	{"descending", func(i, n int) int { return n - 1 - i }},
	{"scattered", func(i, n int) int { return (i*31 + 7) % n }},
	{"organ pipe", func(i, n int) int {
		if i < (n+1)/2 {
			return 2 * i
		}
		return 2*(n-1-i) + 1
	}},
	{"in threes", func(i, n int) int { return i / 3 }},
	{"seven repeated", func(i, n int) int { return (i * 5) % 7 }},
	{"two", func(i, n int) int { return i * i % 3 % 2 }},
	{"last first", func(i, n int) int { return (i + 1) % n }},
	{"swapped middle", func(i, n int) int {
		if i == n/2 {
			return n / 3
		} else if i == n/3 {
			return n / 2
		}
		return i
	}},
}

// manyVals gives n different values of a sortable type (as many as there are, then again), in ascending order of i where they are all different.
func manyVals(typ string, i int) interface{} {
	switch typ {
	case "bool":
		return i%2 == 1
	case "string":
		return fmt.Sprintf("%06d", i)
	case "int":
		return i - 20
	case "int8":
		return int8(i%256 - 128)
	case "int16":
		return int16(i - 20)
	case "int32":
		return int32(i-20) * 100003
	case "int64":
		return int64(i-20) * 100000000000003
	case "uint":
		return uint(i) * 100000000003
	case "uint8":
		return uint8(i % 256)
	case "uint16":
		return uint16(i)
	case "uint32":
		return uint32(i) * 100003
	case "uint64":
		return uint64(i) * 1000000000000003
	case "float32":
		if i == 3 {
			return float32(math.NaN())
		}
		return float32(i-20) / 4
	case "float64":
		if i == 3 {
			return math.NaN()
		}
		return float64(i-20) * 1.1
	}
	panic(typ)
}

// bigKeyed has n rows whose key columns k0.. follow the pattern (k0 repeats each value once per further key), beside an id and a payload.
func bigKeyed(name string, n, pattern int, types ...string) *MTable {
	m := &MTable{Name: name}
	if len(types) > 1 {
		m.Cols = append(m.Cols, MCol{"k1", types[1]})
	}
	m.Cols = append(m.Cols, MCol{"id", "int"}, MCol{"k0", types[0]}, MCol{"p", "string"})
	if len(types) > 2 {
		m.Cols = append(m.Cols, MCol{"k2", types[2]})
	}
	few := 3
	for k := 3; k < len(types); k++ {
		few = 2
		m.Cols = append(m.Cols, MCol{fmt.Sprint("k", k), types[k]})
	}
	for i := 0; i < n; i++ {
		x := patterns[pattern].f(i, n)
		row := make([]interface{}, len(m.Cols))
		for k := range types {
			v := x
			if k < len(types)-1 { // the earlier keys have few values
				v = x % few
				x /= few
			}
			row[m.Col(fmt.Sprintf("k%d", k))] = manyVals(types[k], v)
		}
		row[m.Col("id")] = i
		row[m.Col("p")] = fmt.Sprint("row", i)
		m.Rows = append(m.Rows, row)
	}
	return m
}

// bigKeys are the key types of large tables.
func bigKeys() (r [][]string) {
	for _, t := range sortableTypes {
		r = append(r, []string{t})
	}
	return append(r, []string{"int", "string"}, []string{"float64", "int8"}, []string{"bool", "string", "int"})
}

// bigs enumerates the large keyed tables: every size of the ladder, pattern, list of key types, and their key lists.
func bigs(c *Ctx, full, max int, run func(desc string, n, pattern int, types []string, keys []MKey)) {
	for _, types := range bigKeys() {
		lists := keyListsN[len(types)]
		for _, n := range sizeLadder(full, max) {
			if n < 5 {
				continue
			}
			for p := range patterns {
				for li, keys := range lists {
					if len(types) == 3 && (li+n+p)%13 != 0 && !c.Thorough { // a third of the lists have all three keys: take every 13th, in turn
						continue
					}
					if len(types) == 2 && (li+n+p)%3 != 0 && !c.Thorough {
						continue
					}
					run(fmt.Sprintf("%d rows, keys %v of types %v, %s", n, keys, types, patterns[p].name), n, p, types, keys)
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}

// longs enumerates a few very large keyed tables, in every order.
func longs(c *Ctx, run func(desc string, n, pattern int, types []string, keys []MKey)) {
	manyKeys(c, run)
	sizes := []int{1025, 3100}
	if c.Thorough {
		sizes = []int{1025, 3100, 4097, 10050}
	}
	for _, types := range [][]string{{"int"}, {"string"}, {"float64", "int8"}} {
		for _, n := range sizes {
			for p := range patterns {
				keys := keyListsN[len(types)][(p+n)%len(keyListsN[len(types)])]
				run(fmt.Sprintf("%d rows, keys %v of types %v, %s", n, keys, types, patterns[p].name), n, p, types, keys)
				if c.Stopped() {
					return
				}
			}
		}
	}
}

// manyKeys enumerates tables with 4 to 8 keys: every key reversed alone, all but it reversed, every other one, none and all; in three orders.
func manyKeys(c *Ctx, run func(desc string, n, pattern int, types []string, keys []MKey)) {
	kinds := []string{"int", "string", "bool", "float64", "uint8", "string", "int64", "int"}
	for k := 4; k <= len(kinds); k++ {
		types := append([]string{}, kinds[:k]...)
		types[k-1] = "int" // the last key tells the rows apart
		var masks []int
		for i := 0; i < k; i++ {
			masks = append(masks, 1<<i, (1<<k-1)&^(1<<i))
		}
		masks = append(masks, 0, 1<<k-1, 0x55&(1<<k-1), 0xaa&(1<<k-1))
		for mi, mask := range masks {
			for _, n := range []int{1 << (k - 1), 3<<(k-2) + 5} {
				for p := range patterns {
					if (p+mi)%3 != 0 && !c.Thorough {
						continue
					}
					var keys []MKey
					for i := 0; i < k; i++ {
						keys = append(keys, MKey{fmt.Sprint("k", (i+mi%2*(k-1))%k), mask>>i&1 == 1})
					}
					run(fmt.Sprintf("%d rows, keys %v of types %v, %s", n, keys, types, patterns[p].name), n, p, types, keys)
					if c.Stopped() {
						return
					}
				}
			}
		}
	}
}

// keyRuns enumerates tables in which a key occurs once, the next n times and the next twice, shuffled.
func keyRuns(c *Ctx, full, max int, run func(desc string, mk func(name string) *MTable, keys []MKey, typ string, n int)) {
	for _, typ := range []string{"int", "string", "float64"} {
		for _, n := range sizeLadder(full, max) {
			for rev := 0; rev < 2; rev++ {
				typ, n := typ, n
				run(fmt.Sprintf("%d rows of one %s key, reversed %v", n, typ, rev == 1), func(name string) *MTable {
					m := &MTable{Name: name, Cols: []MCol{{"k0", typ}, {"id", "int"}, {"p", "string"}}}
					for i := 0; i < n+3; i++ {
						at := (i*5 + 3) % (n + 3)
						if (n+3)%5 == 0 {
							at = (i + 3) % (n + 3)
						}
						k := 1
						if at == 0 {
							k = 0
						} else if at > n {
							k = 2
						}
						m.Rows = append(m.Rows, []interface{}{manyVals(typ, k), i, fmt.Sprint("row", i)})
					}
					return m
				}, []MKey{{"k0", rev == 1}}, typ, n)
				if c.Stopped() {
					return
				}
			}
		}
	}
}

// bigSorts: Sort and SortSimple of large tables.
func bigSorts(c *Ctx) {
	one := func(desc string, n, pattern int, types []string, keys []MKey) {
		c.Do(func() string { return "large: " + desc }, func(t *T) {
			m := bigKeyed("T", n, pattern, types...)
			t.State(desc)
			m.Keys = keys
			tb := build(m)
			if err := tb.Sort(); err != nil {
				t.Failf("Sort(): %v", err)
				return
			}
			t.Step(1)
			if e := checkSorted(m, observe(tb)); e != "" {
				t.Failf("Sort(): %s", e)
				return
			}
			for i := 1; i < n; i++ {
				got, err := tb.CompareRows(i-1, i)
				t.Step(1)
				if err != nil || got > 0 {
					t.Failf("CompareRows(%d, %d) of the sorted table = %d, %v", i-1, i, got, err)
					return
				}
			}
			if !anyRev(keys) {
				m.Keys = nil
				tb = build(m)
				m.Keys = keys
				if err := tb.SortSimple(namesOf(keys)...); err != nil {
					t.Failf("SortSimple(): %v", err)
					return
				}
				t.Step(1)
				o := observe(tb)
				o.Keys = keys
				if e := checkSorted(m, o); e != "" {
					t.Failf("SortSimple(): %s", e)
					return
				}
			}
			t.Outcome("large table sorted")
		})
	}
	bigs(c, c.pick(40, 80), c.pick(300, 1100), one)
	longs(c, one)
}

// bigSearches: each key present, one in three absent, and values outside.
func bigSearches(c *Ctx) {
	one := func(desc string, n, pattern int, types []string, keys []MKey) {
		for gap := 0; gap < 2; gap++ {
			gap := gap
			c.Do(func() string { return fmt.Sprintf("large: %s, gaps %d", desc, gap) }, func(t *T) {
				m := bigKeyed("T", n, pattern, types...)
				all := m.Rows
				if gap == 1 { // search also for what is not there
					m.Rows = nil
					for i, r := range all {
						if i%3 != 1 {
							m.Rows = append(m.Rows, r)
						}
					}
				}
				t.State(fmt.Sprint(desc, gap))
				m.Keys = keys
				sortM(m)
				tb := build(m)
				m = observe(tb)
				step := 1
				if n > 40 {
					step = n/20 | 1
				}
				for x := 0; x < len(all); x += step {
					probe := all[x]
					var sv []interface{}
					for _, k := range keys {
						sv = append(sv, probe[m.Col(k.Col)])
					}
					first, last := -1, -1
					for r, row := range m.Rows {
						if cmpRowsM(m, row, probe) == 0 {
							if first < 0 {
								first = r
							}
							last = r
						}
					}
					t.Step(4)
					if e := checkSearch(tb, sv, first, last); e != "" {
						t.Failf("searching %s: %s", vals(sv), e)
						return
					}
				}
				t.Outcome("large table searched")
			})
		}
	}
	bigs(c, c.pick(40, 80), c.pick(130, 514), one)
	longs(c, one)
	keyRuns(c, c.pick(130, 300), c.pick(1030, 4100), func(desc string, mk func(string) *MTable, keys []MKey, typ string, n int) {
		c.Do(func() string { return "searching " + desc }, func(t *T) {
			m := mk("T")
			m.Keys = keys
			sortM(m)
			t.State(desc)
			tb := build(m)
			for k := 0; k < 4; k++ {
				v := manyVals(typ, k)
				first, last := -1, -1
				for r, row := range m.Rows {
					if cmpVal(row[0], v) == 0 {
						if first < 0 {
							first = r
						}
						last = r
					}
				}
				t.Step(4)
				if e := checkSearch(tb, []interface{}{v}, first, last); e != "" {
					t.Failf("searching %s: %s", vals([]interface{}{v}), e)
					return
				}
			}
			t.Outcome("large table searched")
		})
	})
}

// bigMerges: large tables of every overlap.
func bigMerges(c *Ctx) {
	one := func(desc string, n, pattern int, types []string, keys []MKey) {
		for o := 0; o < 5; o++ {
			o := o
			c.Do(func() string { return fmt.Sprintf("large: %s, with part %d of another order", desc, o) }, func(t *T) {
				a := bigKeyed("A", n, pattern, types...)
				all := bigKeyed("B", n+o, (pattern+o+1)%len(patterns), types...)
				b := &MTable{Name: "B", Cols: append([]MCol{}, all.Cols...)}
				b.Cols[b.Col("id")].Name = "bid"
				for i, r := range all.Rows {
					if o == 0 || o == 1 && i%2 == 0 || o == 2 && i < n/2 || o == 3 && i%5 == 3 || o == 4 && i >= n/3 {
						b.Rows = append(b.Rows, append([]interface{}{}, r...))
					}
				}
				pc := b.Col("p")
				for i := range b.Rows {
					b.Rows[i][pc] = fmt.Sprint("b", i)
				}
				for i := range a.Rows {
					if i%4 == 1 {
						a.Rows[i][a.Col("p")] = ""
					}
				}
				if o%2 == 0 {
					a.Keys = keys
				} else {
					b.Keys = keys
				}
				doMerge(t, a, b, false)
			})
		}
	}
	bigs(c, c.pick(14, 40), c.pick(70, 300), one)
	longs(c, one)
	keyRuns(c, c.pick(70, 300), c.pick(600, 2050), func(desc string, mk func(string) *MTable, keys []MKey, typ string, n int) {
		for o := 0; o < 3; o++ {
			o := o
			c.Do(func() string { return fmt.Sprintf("merging %s, part %d of it", desc, o) }, func(t *T) {
				a, b := mk("A"), mk("B")
				b.Cols[1].Name = "bid"
				if o > 0 {
					b.Rows = b.Rows[:len(b.Rows)/(o+1)]
				}
				for i := range a.Rows {
					if i%8 != 7 {
						a.Rows[i][2], a.Rows[i][1] = "", 0
					}
				}
				a.Keys = keys
				doMerge(t, a, b, false)
			})
		}
	})
}

// bigUniques: SortUnique of large tables.
func bigUniques(c *Ctx, uniq func(kind string, mk func() *MTable, keys []MKey, byArgs bool)) {
	one := func(desc string, n, pattern int, types []string, keys []MKey) {
		uniq("large", func() *MTable {
			m := bigKeyed("Src", n, pattern, types...)
			p, id := m.Col("p"), m.Col("id")
			for i := range m.Rows {
				if i%3 != n%3 {
					m.Rows[i][p] = ""
				}
				if i%4 != pattern%4 {
					m.Rows[i][id] = 0
				}
			}
			return m
		}, keys, !anyRev(keys) && n%2 == 0)
	}
	bigs(c, c.pick(30, 60), c.pick(130, 514), one)
	longs(c, one)
	keyRuns(c, c.pick(130, 300), c.pick(1030, 4100), func(desc string, mk func(string) *MTable, keys []MKey, typ string, n int) {
		uniq("run", func() *MTable {
			m := mk("Src")
			for i := range m.Rows {
				if i != n/2 {
					m.Rows[i][2], m.Rows[i][1] = "", 0
				}
			}
			return m
		}, keys, false)
	})
}

// bigNests: large tables nested by key.
func bigNests(c *Ctx, run func(a, b *MTable, col string)) {
	one := func(desc string, n, pattern int, types []string, keys []MKey) {
		for o := 0; o < 3; o++ {
			a := bigKeyed("A", n, pattern, types...)
			if o == 1 {
				a.Rows = a.Rows[:3]
			}
			b := bigKeyed("B", n, (pattern+1)%len(patterns), types...)
			if o == 2 {
				b.Rows = b.Rows[:n-1]
			}
			b.Cols[b.Col("id")].Name = "bid"
			a.Keys = keys
			run(a, b, "nested")
		}
	}
	bigs(c, c.pick(14, 40), c.pick(70, 300), one)
	longs(c, func(desc string, n, pattern int, types []string, keys []MKey) {
		if n < 2000 && (c.Thorough || pattern%3 == 0) { // nesting by key takes quadratic time
			one(desc, n, pattern, types, keys)
		}
	})
	keyRuns(c, c.pick(40, 130), c.pick(600, 2050), func(desc string, mk func(string) *MTable, keys []MKey, typ string, n int) {
		a := &MTable{Name: "A", Cols: []MCol{{"k0", typ}}, Keys: keys}
		for k := 0; k < 3; k++ {
			if k != 1 || n > 0 {
				a.Rows = append(a.Rows, []interface{}{manyVals(typ, k)})
			}
		}
		b := mk("B")
		b.Cols[1].Name = "bid"
		run(a, b, "nested")
	})
}
