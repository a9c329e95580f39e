package main

// Rows whose keys are different but read alike once joined into one text.

import (
	"fmt"
)

type confused struct {
	types []string
	rows  [][]interface{}
}

func confusables() (l []confused) {
	ss := []string{"string", "string"}
	for _, s := range []string{" ", ",", ", ", "|", "\x00", "\x1f", "\t", "\n", "", "_", "-", "/", ":", ";", ".", "] [", "\" \"", "\",\"", "&", "=", "a"} {
		l = append(l, confused{ss, [][]interface{}{{"a", "b" + s + "c"}, {"a" + s + "b", "c"}, {"a" + s + "b" + s + "c", ""}}},
			confused{ss, [][]interface{}{{"a" + s, "b"}, {"a", s + "b"}, {"", s}}},
			confused{[]string{"string", "int", "string"}, [][]interface{}{{"a" + s + "1", 1, "b"}, {"a", 1, "1" + s + "b"}, {"a", 11, "b"}}},
			confused{[]string{"string", "bool", "string"}, [][]interface{}{{"a" + s + "true", true, "b"}, {"a", true, "true" + s + "b"}, {"a", false, "b"}}})
	}
	l = append(l,
		confused{[]string{"int", "int"}, [][]interface{}{{1, 23}, {12, 3}, {123, 0}}},
		confused{[]string{"int", "int"}, [][]interface{}{{1, 2}, {2, 1}, {0, 3}}}, // sums, xors
		confused{[]string{"int", "int"}, [][]interface{}{{1, 0}, {0, 31}, {0, 1}}},
		confused{[]string{"int", "int"}, [][]interface{}{{1, -1}, {-1, 1}, {0, 0}}},
		confused{[]string{"uint8", "uint16"}, [][]interface{}{{uint8(1), uint16(11)}, {uint8(11), uint16(1)}, {uint8(0), uint16(256)}}},
		confused{[]string{"string", "int"}, [][]interface{}{{"x1", 1}, {"x", 11}, {"x11", 0}}},
		confused{[]string{"int", "string"}, [][]interface{}{{1, "23"}, {12, "3"}, {123, ""}}},
		confused{[]string{"float64", "int"}, [][]interface{}{{1.5, 5}, {1.55, 5}, {1.0, 55}}},
		confused{[]string{"float64", "string"}, [][]interface{}{{1.0, "e3"}, {1000.0, ""}, {1.0, "000"}}},
		confused{[]string{"string"}, [][]interface{}{{"1"}, {"01"}, {"1.0"}, {" 1"}, {"1 "}, {"+1"}, {"1e0"}}},
		confused{[]string{"string"}, [][]interface{}{{"NaN"}, {"nan"}, {""}, {"0"}}},
		confused{[]string{"string"}, [][]interface{}{{"é"}, {"e\u0301"}, {"E"}, {"e"}}},
		confused{[]string{"string"}, [][]interface{}{{"K"}, {"\u212a"}, {"k"}, {"ſ"}, {"s"}}},
		confused{[]string{"string"}, [][]interface{}{{"\x80"}, {"\x81"}, {"\ufffd"}}},
	)
	return
}

// confusedTables calls f with every sequence of up to n of the confusable rows.
func confusedTables(c *Ctx, n int, f func(cf confused, s []int)) {
	for _, cf := range confusables() {
		for l := 0; l <= n; l++ {
			seqs(len(cf.rows), l, func(s []int) bool {
				f(cf, append([]int{}, s...))
				return !c.Stopped()
			})
		}
	}
}

// confusedTable: key columns k0.., then a column id of the given start, one row for each of s.
func confusedTable(name string, cf confused, s []int, id string, from int) *MTable {
	m := &MTable{Name: name}
	for i, ty := range cf.types {
		m.Cols = append(m.Cols, MCol{fmt.Sprintf("k%d", i), ty})
	}
	m.Cols = append(m.Cols, MCol{id, "int"})
	for i, x := range s {
		m.Rows = append(m.Rows, append(append([]interface{}{}, cf.rows[x]...), from+i))
	}
	return m
}

func confusedKeys(cf confused, rev bool) (ks []MKey) {
	for i := range cf.types {
		ks = append(ks, MKey{fmt.Sprintf("k%d", i), rev && i%2 == 0})
	}
	return
}

func confusedSearches(c *Ctx, search bool) {
	confusedTables(c, c.pick(4, 5), func(cf confused, s []int) {
		for _, rev := range []bool{false, true} {
			rev := rev
			c.Do(func() string { return fmt.Sprintf("confusable rows %v %v reverse %v", s, cf.rows, rev) }, func(t *T) {
				m := confusedTable("T", cf, s, "id", 0)
				m.Keys = confusedKeys(cf, rev)
				t.State(m.Data() + fmt.Sprint(rev))
				tb := build(m)
				if err := tb.Sort(); err != nil {
					t.Failf("Sort(): %v", err)
					return
				}
				sm := observe(tb)
				if e := checkSorted(m, sm); e != "" {
					t.Failf("Sort(): %s", e)
					return
				}
				for i := range sm.Rows {
					for j := range sm.Rows {
						t.Step(1)
						if got, err := tb.CompareRows(i, j); err != nil || got != cmpRowsM(sm, sm.Rows[i], sm.Rows[j]) {
							t.Failf("CompareRows(%d, %d) = %d, %v in %s", i, j, got, err, sm.Data())
							return
						}
					}
				}
				if !search {
					return
				}
				for _, sv := range cf.rows {
					first, last := -1, -1
					for r, row := range sm.Rows {
						if cmpRowsM(sm, row, append(append([]interface{}{}, sv...), 0)) == 0 {
							if first < 0 {
								first = r
							}
							last = r
						}
					}
					t.Step(4)
					if e := checkSearch(tb, sv, first, last); e != "" {
						t.Failf("searching %s in %s: %s", vals(sv), sm.Data(), e)
						return
					}
				}
			})
		}
	})
}

// confusedPairs calls f with pairs of tables of up to n rows each.
func confusedPairs(c *Ctx, na, nb int, f func(a, b func() *MTable, keys []MKey)) {
	confusedTables(c, na, func(cf confused, sa []int) {
		for l := 0; l <= nb; l++ {
			seqs(len(cf.rows), l, func(s []int) bool {
				sb := append([]int{}, s...)
				f(func() *MTable { return confusedTable("A", cf, sa, "id", 1) }, func() *MTable { return confusedTable("B", cf, sb, "bid", 101) }, confusedKeys(cf, (len(sa)+l)%2 == 1))
				return !c.Stopped()
			})
		}
	})
}
