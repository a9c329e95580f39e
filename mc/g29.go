package main

// G29: padded printing lines the columns up; unpadded printing puts one space between them.

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G29",
		Rule: "Tables of the bounded universe (as G04: one column per type with all sequences of 0..3 (thorough 4) boundary values, all ordered type pairs with all pairs of boundary values, all ordered type triples with 0..2 rows, sets of up to 3 (5) tables, awkward strings, whole-type sweeps, size ladders), " +
			"and every sequence of 1..3 (thorough 4) numbers of 16 shapes in a float column that is leftmost, between other columns or rightmost, and every type's column with a name of every length 1..14 (24) over 0..2 cells of all boundary values at the left, middle and right, are printed with StringPadded, String, fmt.Sprint and StringUnpadded; padded and unpadded text have the same words (floats aside). Every line is cut into its tokens and their positions in characters are compared: " +
			"numbers end (floats: have their units digit) at one position per column and their headings end at the column's right edge, everything else starts at one position per column, no two columns' fields overlap or touch, columns are not wider than their cells need (ASCII, finite numbers), no line ends in blanks, " +
			"every cell's token denotes the cell's value, unpadded lines are the tokens with single spaces.",
		Assumptions: []string{"a character is a Unicode code point", "tables of struct shape with fewer than 2 rows are printed as name type = value lines and are of G05"},
		Run:         runG29,
	})
}

type printed struct {
	s          string
	start, end int // in characters
}

// tokens cuts a printed line: quoted text and bracketed lists are one token each.
func tokens(line string) (ts []printed, ok bool) {
	rs := []rune(line)
	for i := 0; i < len(rs); {
		if rs[i] == ' ' {
			i++
			continue
		}
		j := i + 1
		switch rs[i] {
		case '"', '\'':
			for j < len(rs) && rs[j] != rs[i] {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case '[':
			// the type []byte, a list of bytes, a nested table's name
			for j < len(rs) && rs[j] != ']' {
				j++
			}
			for j < len(rs) && rs[j] != ' ' {
				j++
			}
		default:
			for j < len(rs) && rs[j] != ' ' {
				j++
			}
		}
		if j > len(rs) {
			return ts, false
		}
		ts = append(ts, printed{string(rs[i:j]), i, j})
		i = j
	}
	return ts, true
}

func isInt(typ string) bool {
	switch typ {
	case "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte":
		return true
	}
	return false
}

func isFloat(typ string) bool { return typ == "float32" || typ == "float64" }

// sameCell says whether the token denotes the value.
func sameCell(s, typ string, v interface{}) bool {
	switch {
	case isFloat(typ):
		bits := 64
		var want float64
		if f, ok := v.(float32); ok {
			bits, want = 32, float64(f)
		} else {
			want = v.(float64)
		}
		x, err := strconv.ParseFloat(s, bits)
		return err == nil && (x == want && math.Signbit(x) == math.Signbit(want) || x != x && want != want)
	case isInt(typ):
		return s == fmt.Sprint(v)
	case typ == "rune":
		x, err := strconv.Unquote(s)
		return err == nil && len([]rune(x)) == 1 && []rune(x)[0] == v.(int32)
	case typ == "string":
		x, err := strconv.Unquote(s)
		return err == nil && x == v.(string)
	case typ == "bool":
		return s == fmt.Sprint(v)
	case typ == "*Table":
		m := v.(*MTable)
		return s == "["+m.Name+"]"
	}
	return true // times and lists of bytes: G04 reads them back
}

func unitsAt(k printed) int {
	if i := strings.IndexByte(k.s, '.'); i >= 0 {
		return k.start + i
	}
	return k.end
}

// aligned compares a printed table with the model.
func aligned(t *T, text string, m *MTable, padded bool) {
	if m.Struct && len(m.Rows) <= 1 {
		t.Outcome("struct shape")
		return
	}
	lines := strings.Split(text, "\n")
	if len(lines) < 2 || lines[0] != "["+m.Name+"]" || lines[len(lines)-1] != "" {
		t.Failf("does not begin with the name or end with a line end: %q", clip(text, 400))
		return
	}
	lines = lines[1 : len(lines)-1]
	if len(m.Cols) == 0 {
		if strings.TrimSpace(strings.Join(lines, "")) != "" {
			t.Failf("a table without columns prints %q", clip(text, 400))
		}
		return
	}
	if len(lines) != 2+len(m.Rows) {
		t.Failf("%d lines for %d rows: %q", len(lines), len(m.Rows), clip(text, 400))
		return
	}
	toks := make([][]printed, len(lines))
	for i, l := range lines {
		ks, ok := tokens(l)
		if !ok || len(ks) != len(m.Cols) {
			t.Failf("line %q has %d cells, want %d", clip(l, 300), len(ks), len(m.Cols))
			return
		}
		if strings.HasSuffix(l, " ") {
			t.Failf("line %q ends in blanks", clip(l, 300))
			return
		}
		toks[i] = ks
		for c, k := range ks {
			want := true
			switch i {
			case 0:
				want = k.s == m.Cols[c].Name
			case 1:
				want = k.s == m.Cols[c].Type
			default:
				want = sameCell(k.s, m.Cols[c].Type, m.Rows[i-2][c])
			}
			if !want {
				t.Failf("line %q prints column %s as %q", clip(l, 300), m.Cols[c].Name, clip(k.s, 200))
				return
			}
		}
		if !padded {
			var ss []string
			for _, k := range ks {
				ss = append(ss, k.s)
			}
			if strings.Join(ss, " ") != l {
				t.Failf("unpadded line %q has more than single spaces", clip(l, 300))
				return
			}
		}
	}
	if !padded {
		return
	}
	edge, lastPlain := 0, true // where the column before ended; whether its width can be known
	for c, col := range m.Cols {
		lo, hi := toks[0][c].start, toks[0][c].end
		plain := true
		need, pre, post := 0, 0, 0
		for i := range toks {
			k := toks[i][c]
			lo, hi = min(lo, k.start), max(hi, k.end)
			n := k.end - k.start
			need = max(need, n)
			if len(k.s) != n {
				plain = false
			}
			if isFloat(col.Type) && i >= 2 {
				p := unitsAt(k) - k.start
				pre, post = max(pre, p), max(post, n-p)
				if strings.HasSuffix(k.s, "N") || strings.HasSuffix(k.s, "Inf") {
					plain = false
				}
			}
		}
		need = max(need, pre+post)
		num := isInt(col.Type) || isFloat(col.Type)
		right := toks[1][c].end // the type's right edge is the column's
		units := -1
		for i := range toks {
			k := toks[i][c]
			where := fmt.Sprintf("column %s, line %q", col.Name, clip(lines[i], 300))
			switch {
			case !num:
				if k.start != lo {
					t.Failf("%s: starts at %d, other cells at %d\n%s", where, k.start, lo, clip(text, 700))
					return
				}
			case i < 2 || isInt(col.Type):
				if k.end != right {
					t.Failf("%s: ends at %d, other cells at %d\n%s", where, k.end, right, clip(text, 700))
					return
				}
			default:
				if k.end > right {
					t.Failf("%s: ends at %d, beyond the column's edge %d\n%s", where, k.end, right, clip(text, 700))
					return
				}
				if strings.HasSuffix(k.s, "N") || strings.HasSuffix(k.s, "Inf") {
					continue
				}
				if units < 0 {
					units = unitsAt(k)
				}
				if units != unitsAt(k) {
					t.Failf("%s: units end at %d, in other rows at %d\n%s", where, unitsAt(k), units, clip(text, 700))
					return
				}
			}
		}
		if c == 0 && lo != 0 && plain {
			t.Failf("the first column starts at %d\n%s", lo, clip(text, 700))
			return
		}
		if c > 0 && lo < edge+1 {
			t.Failf("column %s starts at %d, the one before ends at %d\n%s", col.Name, lo, edge, clip(text, 700))
			return
		}
		if c > 0 && plain && lastPlain && lo != edge+1 {
			t.Failf("column %s starts at %d, though the one before ends at %d\n%s", col.Name, lo, edge, clip(text, 700))
			return
		}
		if plain && hi-lo != need {
			t.Failf("column %s is %d wide, its cells need %d\n%s", col.Name, hi-lo, need, clip(text, 700))
			return
		}
		edge, lastPlain = hi, plain
	}
	t.Outcome("aligned")
}

func alignedTable(t *T, table *g.Table, m *MTable) {
	t.State(m.Full())
	text := table.StringPadded()
	t.Step(4)
	aligned(t, text, m, true)
	if t.Failed() {
		return
	}
	if s := table.String(); s != text {
		t.Failf("String() is %q, StringPadded() is %q", clip(s, 300), clip(text, 300))
		return
	}
	if s := fmt.Sprint(table); s != text {
		t.Failf("fmt.Sprint is %q, StringPadded() is %q", clip(s, 300), clip(text, 300))
		return
	}
	plain := table.StringUnpadded()
	if aligned(t, plain, m, false); t.Failed() {
		return
	}
	if m.Struct && len(m.Rows) <= 1 || len(m.Cols) == 0 {
		return
	}
	// The same cells in the same words. (Padded floats may have zeros more.)
	a, b := strings.Split(text, "\n"), strings.Split(plain, "\n")
	for i := 1; i < len(a)-1; i++ {
		ka, _ := tokens(a[i])
		kb, _ := tokens(b[i])
		for c := range ka {
			if ka[c].s != kb[c].s && (!isFloat(m.Cols[c].Type) || i < 3) {
				t.Failf("a cell of column %s is padded %s and unpadded %s", m.Cols[c].Name, clip(ka[c].s, 200), clip(kb[c].s, 200))
				return
			}
		}
	}
}

func runG29(c *Ctx) {
	histories(c, c.pick(2, 2), roNamed("String", "StringPadded", "StringUnpadded"))
	universe(c, uniOpt{Types: allTypes, Inf: true, Struct: true, Nested: true}, func(desc func() string, mk func() *MSet) {
		c.Do(desc, func(t *T) {
			s := mk()
			ts := buildSet(s)
			for i, m := range s.Tables {
				table, err := ts.GetTableByTableIndex(i)
				must(err)
				if alignedTable(t, table, m); t.Failed() {
					return
				}
			}
		})
	})
	shapes := []float64{0, 1, -1, 10, 100, 2500, 0.5, -0.25, 1.125, 12.5, -123.75, 1000000.0625, 0.000030517578125, math.NaN(), math.Inf(1), math.Inf(-1)}
	n := len(shapes)
	for _, typ := range []string{"float32", "float64"} {
		for place := 0; place < 4; place++ {
			for l := 1; l <= c.pick(3, 4); l++ {
				total := 1
				for i := 0; i < l; i++ {
					total *= n
				}
				for k := 0; k < total; k++ {
					if c.Stopped() {
						return
					}
					mk := func() *MTable {
						m := &MTable{Name: "T"}
						f := MCol{"f", typ}
						switch place {
						case 0:
							m.Cols = []MCol{f}
						case 1:
							m.Cols = []MCol{f, {"s", "string"}}
						case 2:
							m.Cols = []MCol{{"i", "int"}, f, {"a_float_with_a_long_name", "float64"}}
						case 3:
							m.Cols = []MCol{{"s", "string"}, {"a_long_name_of_it", typ}}
						}
						for i, x := 0, k; i < l; i++ {
							var v interface{} = shapes[x%n]
							w := shapes[(x+i*7)%13]
							if typ == "float32" {
								v = float32(shapes[x%n])
							}
							x /= n
							switch place {
							case 0:
								m.Rows = append(m.Rows, []interface{}{v})
							case 1:
								m.Rows = append(m.Rows, []interface{}{v, strings.Repeat("x", i)})
							case 2:
								m.Rows = append(m.Rows, []interface{}{i * 99, v, w})
							case 3:
								m.Rows = append(m.Rows, []interface{}{strings.Repeat("\u754c", i), v})
							}
						}
						return m
					}
					c.Do(func() string { return "floats " + mk().Full() }, func(t *T) {
						m := mk()
						alignedTable(t, build(m), m)
					})
				}
			}
		}
	}
	// Which part of a column is the widest: names of every length over cells of every width.
	for _, typ := range allTypes {
		d := domain(typ)
		if typ == "*Table" {
			d = []interface{}{&MTable{Name: "a"}, &MTable{Name: "ANestedTable"}, &MTable{Name: "N", Cols: []MCol{{"i", "int"}}}}
		}
		for l := 1; l <= c.pick(14, 24); l++ {
			for k := 0; k < 1+len(d)+len(d)*len(d); k++ {
				for place := 0; place < 3; place++ {
					if c.Stopped() {
						return
					}
					mk := func() *MTable {
						m := &MTable{Name: "T"}
						col := MCol{strings.Repeat("n", l), typ}
						row := func(v interface{}) []interface{} { return [][]interface{}{{v, 1}, {"x", v, 1}, {"x", v}}[place] }
						m.Cols = [][]MCol{{col, {"i", "int"}}, {{"s", "string"}, col, {"i", "int"}}, {{"s", "string"}, col}}[place]
						switch x := k - 1; {
						case x < 0:
						case x < len(d):
							m.Rows = [][]interface{}{row(d[x])}
						default:
							x -= len(d)
							m.Rows = [][]interface{}{row(d[x/len(d)]), row(d[x%len(d)])}
						}
						return m
					}
					c.Do(func() string { return "widths " + mk().Full() }, func(t *T) {
						m := mk()
						alignedTable(t, build(m), m)
					})
				}
			}
		}
	}
}
