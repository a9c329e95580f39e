package main

// The universe of table sets used by the round-trip properties: every table or set within stated bounds.

import (
	"fmt"
	"math"
	"strings"
	"time"
	"unicode/utf8"
)

type uniOpt struct {
	Types    []string
	Dom      func(typ string) []interface{}
	Nested   bool // include nested tables
	Inf      bool // include infinities
	Struct   bool // include struct-shaped tables
	Keys     bool // include sort keys
	SetNames bool // include table set names that are any text
}

func table1(name, col, typ string, vs ...interface{}) *MTable {
	m := &MTable{Name: name, Cols: []MCol{{col, typ}}}
	for _, v := range vs {
		m.Rows = append(m.Rows, []interface{}{v})
	}
	return m
}

func oneSet(m *MTable) *MSet { return &MSet{Tables: []*MTable{m}} }

var awkwardStrings = []string{"\"", "\\", "\n", " ", "#", "[", "]", "=", "'", "a", "n", "\u00e9", "\x80", "\x00", "\t", "\r", "\u2028", "<", "&", ":", "-", "\u754c", "\U0001f600", "\x1f", "\x7f", "\ufffd", "%", "0", "~", ",", "{", "u"}

// universe enumerates table sets. yield must call c.Do exactly once per set, so that case numbers are stable.
func universe(c *Ctx, o uniOpt, yield func(desc func() string, s func() *MSet)) {
	dom := o.Dom
	if dom == nil {
		dom = domain
	}
	one := func(kind string, f func() *MTable) {
		yield(func() string { return kind + " " + oneSet(f()).Full() }, func() *MSet { return oneSet(f()) })
	}
	// U1: one column of each type, all sequences of 0..3 (thorough 4) boundary values.
	for _, typ := range o.Types {
		d := dom(typ)
		n := len(d)
		maxLen := c.pick(3, 4)
		for l := 0; l <= maxLen; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= n
			}
			for k := 0; k < total && !c.Stopped(); k++ {
				k, l, typ := k, l, typ
				one("column", func() *MTable {
					var vs []interface{}
					for i, x := 0, k; i < l; i++ {
						vs = append(vs, fresh(d[x%n]))
						x /= n
					}
					return table1("T", "c", typ, vs...)
				})
			}
		}
	}
	// U2: every ordered pair of types, every pair of their boundary values (and a second, ordinary row).
	for _, ta := range o.Types {
		for _, tb := range o.Types {
			da, db := dom(ta), dom(tb)
			for i := range da {
				for j := range db {
					if c.Stopped() {
						return
					}
					ta, tb, i, j := ta, tb, i, j
					one("pair", func() *MTable {
						return &MTable{Name: "T1", Cols: []MCol{{"a", ta}, {"b_2", tb}}, Rows: [][]interface{}{{fresh(da[i]), fresh(db[j])}, {ordinary(ta, 0), ordinary(tb, 1)}}}
					})
				}
			}
		}
	}
	// U3: every ordered triple of types, 0..2 ordinary rows.
	for _, ta := range o.Types {
		for _, tb := range o.Types {
			for _, tc := range o.Types {
				for n := 0; n <= 2; n++ {
					if c.Stopped() {
						return
					}
					ta, tb, tc, n := ta, tb, tc, n
					one("triple", func() *MTable {
						m := &MTable{Name: "_T", Cols: []MCol{{"C", ta}, {"_", tb}, {"x9", tc}}}
						for r := 0; r < n; r++ {
							m.Rows = append(m.Rows, []interface{}{ordinary(ta, r), ordinary(tb, r+1), ordinary(tc, r+2)})
						}
						return m
					})
				}
			}
		}
	}
	// U4: table sets: every sequence of 0..3 (thorough 5) tables from a palette, with and without a set name.
	pal := setPalette(o)
	names := []string{"", "S", "_Set_9"}
	maxT := c.pick(3, 5)
	for _, sn := range names {
		for l := 0; l <= maxT; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(pal)
			}
			for k := 0; k < total && !c.Stopped(); k++ {
				sn, l, k := sn, l, k
				mk := func() *MSet {
					s := &MSet{Name: sn}
					for i, x := 0, k; i < l; i++ {
						m := pal[x%len(pal)].Clone()
						m.Name = fmt.Sprintf("T%d", i)
						s.Tables = append(s.Tables, m)
						x /= len(pal)
					}
					return s
				}
				yield(func() string { return "set " + mk().Full() }, mk)
			}
		}
	}
	// U4b: table set names have no rules: every char to U+0300, every pair of awkward strings, reserved words of YAML.
	if o.SetNames {
		var sns []string
		for r := rune(0); r < 0x300; r++ {
			sns = append(sns, string(r), "a"+string(r), string(r)+"a")
		}
		for _, a := range awkwardStrings {
			for _, b := range awkwardStrings {
				sns = append(sns, a+b)
			}
		}
		sns = append(sns, "true", "null", "~", "1", "1.5", "0x1f", "2021-06-15", "- a", "a: b", "# c", "&a", "*a", "!a", "%a", "@a", "{", "[X]", "'", "|", ">", "\ufeff", "\ufffd", "\U0010ffff", strings.Repeat("long name ", 50))
		for _, sn := range sns {
			if !utf8.ValidString(sn) {
				continue
			}
			for l := 0; l <= 1; l++ {
				sn, l := sn, l
				mk := func() *MSet {
					s := &MSet{Name: sn}
					if l > 0 {
						s.Tables = append(s.Tables, table1("T", "v", "int", 1))
					}
					return s
				}
				yield(func() string { return fmt.Sprintf("set named %q of %d tables", sn, l) }, mk)
			}
		}
	}
	// U5: strings: every string of up to 2 (thorough 3) awkward characters, alone and between other columns.
	{
		n := len(awkwardStrings)
		maxLen := c.pick(2, 3)
		for l := 0; l <= maxLen; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= n
			}
			for k := 0; k < total && !c.Stopped(); k++ {
				s := ""
				for i, x := 0, k; i < l; i++ {
					s += awkwardStrings[x%n]
					x /= n
				}
				one("string", func() *MTable {
					return &MTable{Name: "T", Cols: []MCol{{"s", "string"}, {"i", "int"}, {"t", "string"}}, Rows: [][]interface{}{{s, 1, s}, {"", -2, s + s}}}
				})
			}
		}
	}
	// U5b: strings made of what layout is made of, up to 4 (thorough 5) characters: alone in a column, in struct shape, as all rows of a column, nested.
	{
		all := layoutStrings(c.pick(4, 5))
		batchOf := 32
		for i := 0; i < len(all) && !c.Stopped(); i += batchOf {
			part := all[i:min(i+batchOf, len(all))]
			one("strings", func() *MTable { return table1("T", "s", "string", part...) })
		}
		for _, v := range all {
			if c.Stopped() {
				break
			}
			v := v
			struc := func() *MTable {
				return &MTable{Name: "S", Struct: true, Cols: []MCol{{"s", "string"}, {"i", "int"}, {"t", "string"}}, Rows: [][]interface{}{{v, 1, v.(string) + "z"}}}
			}
			if o.Struct {
				one("string struct", struc)
			}
			if o.Nested {
				one("string nested", func() *MTable {
					return table1("T", "n", "*Table", struc(), table1("V", "s", "string", v))
				})
			}
		}
	}
	// U6: numeric and rune sweeps, in batches of rows.
	has := map[string]bool{}
	for _, t := range o.Types {
		has[t] = true
	}
	batch := func(typ string, vs []interface{}) {
		const B = 256
		for i := 0; i < len(vs); i += B {
			if c.Stopped() {
				return
			}
			part := vs[i:min(i+B, len(vs))]
			one("sweep", func() *MTable { return table1("T", "v", typ, part...) })
		}
	}
	for _, typ := range sweepTypes {
		if !has[typ] {
			continue
		}
		for _, vs := range sweep(typ, c.Thorough, o.Inf) {
			batch(typ, vs)
		}
	}
	// U7: nested tables: every shape of nesting up to depth 3 with every type at the leaves.
	if o.Nested {
		for _, m := range nestings(c.Thorough, o) {
			m := m
			one("nested", func() *MTable { return m.Clone() })
		}
	}
	// U8: sizes.
	sizes(c, o, yield)
}

var sweepTypes = []string{"int8", "uint8", "byte", "int16", "uint16", "int", "int32", "int64", "uint", "uint32", "uint64", "float32", "float64", "rune", "time.Time", "[]byte"}

// sweep enumerates whole types where that is feasible, else the boundary neighbourhoods of every power of two (and of ten, for floats).
func sweep(typ string, thorough, inf bool) [][]interface{} {
	var vs []interface{}
	add := func(v interface{}) { vs = append(vs, v) }
	switch typ {
	case "int8":
		for i := -128; i < 128; i++ {
			add(int8(i))
		}
	case "uint8", "byte":
		for i := 0; i < 256; i++ {
			add(uint8(i))
		}
	case "int16":
		for i := -32768; i < 32768; i++ {
			add(int16(i))
		}
	case "uint16":
		for i := 0; i < 65536; i++ {
			add(uint16(i))
		}
	case "int32":
		for k := 0; k < 32; k++ {
			for d := int64(-2); d <= 2; d++ {
				for _, s := range []int64{1, -1} {
					if x := s * (int64(1)<<uint(k) + d); x >= math.MinInt32 && x <= math.MaxInt32 {
						add(int32(x))
					}
				}
			}
		}
	case "uint32":
		for k := 0; k < 33; k++ {
			for d := int64(-2); d <= 2; d++ {
				if x := int64(1)<<uint(k) + d; x >= 0 && x <= math.MaxUint32 {
					add(uint32(x))
				}
			}
		}
	case "int", "int64":
		for k := 0; k < 64; k++ {
			for d := int64(-2); d <= 2; d++ {
				for _, s := range []int64{1, -1} {
					x := s * (int64(uint64(1)<<uint(k)) + d) // wraps round at the ends: still an int64
					if typ == "int" {
						add(int(x))
					} else {
						add(x)
					}
				}
			}
		}
	case "uint", "uint64":
		for k := 0; k < 64; k++ {
			for d := int64(-2); d <= 2; d++ {
				x := uint64(1)<<uint(k) + uint64(d)
				if typ == "uint" {
					add(uint(x))
				} else {
					add(x)
				}
			}
		}
	case "float32":
		for e := uint32(0); e < 256; e++ {
			for _, mant := range []uint32{0, 1, 0x400000, 0x2aaaaa, 0x7fffff} {
				for s := uint32(0); s < 2; s++ {
					f := math.Float32frombits(s<<31 | e<<23 | mant)
					if f != f || (math.IsInf(float64(f), 0) && !inf) {
						continue
					}
					add(f)
				}
			}
		}
	case "float64":
		step := uint64(8)
		if thorough {
			step = 1
		}
		for e := uint64(0); e < 2048; e += step {
			for _, mant := range []uint64{0, 1, 1 << 51, 0x5555555555555, 0xfffffffffffff} {
				for s := uint64(0); s < 2; s++ {
					f := math.Float64frombits(s<<63 | e<<52 | mant)
					if f != f || (math.IsInf(f, 0) && !inf) {
						continue
					}
					add(f)
				}
			}
		}
		if inf {
			add(math.Inf(1))
			add(math.Inf(-1))
		}
		for k := -30; k <= 30; k++ {
			add(math.Pow(10, float64(k)))
			add(math.Pow(10, float64(k)) * 3)
			add(-math.Pow(10, float64(k)) * 1.1)
		}
	case "rune":
		top := rune(0x3100)
		if thorough {
			top = 0x10ffff
		}
		for r := rune(0); r <= top; r++ {
			if r < 0xd800 || r > 0xdfff {
				add(r)
			}
		}
		if !thorough {
			for r := rune(0xd700); r < 0xd800; r++ {
				add(r)
			}
			for r := rune(0xe000); r < 0xe100; r++ {
				add(r)
			}
			for r := rune(0xfe00); r < 0x10100; r++ {
				add(r)
			}
			for r := rune(0x1f500); r < 0x1f700; r++ {
				add(r)
			}
			for r := rune(0x10ff00); r <= 0x10ffff; r++ {
				add(r)
			}
		}
	case "time.Time":
		for _, y := range []int{1, 99, 1582, 1969, 1970, 2000, 2024, 2038, 9999} {
			for _, md := range [][2]int{{1, 1}, {2, 28}, {12, 31}} {
				for _, off := range []int{0, 60, -60, 3600, -3600, 5*3600 + 1800, 14 * 3600, -12 * 3600, 9*3600 + 2700} {
					for _, ns := range []int{0, 1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 120000000, 999999999, 123456789, 500} {
						if y == 1 && off > 0 && md[0] == 1 {
							continue // year 0 in UTC
						}
						add(time.Date(y, time.Month(md[0]), md[1], 23, 59, 58, ns, time.FixedZone("", off)))
					}
				}
			}
		}
		ist := time.FixedZone("", 5*3600+1800)
		for i := 0; i < 60; i++ { // every second, minute, hour, month and day, one at a time
			add(time.Date(2021, 6, 15, 12, 30, i, 0, ist))
			add(time.Date(2021, 6, 15, 12, i, 7, 500, time.UTC))
			add(time.Date(2021, 6, 15, i%24, 59, i, 0, ist))
			add(time.Date(2020, time.Month(i%12+1), i%31+1, 1, 2, 3, 4, ist))
		}
		for off := -14 * 60; off <= 14*60; off += 15 { // every offset in use
			add(time.Date(2021, 6, 15, 12, 30, 15, 0, time.FixedZone("", off*60)))
		}
		for off := -23*60 - 59; off < 24*60; off += 7 {
			add(time.Date(2021, 6, 15, 0, 30, 59, 999999999, time.FixedZone("", off*60)))
		}
	case "[]byte":
		for i := 0; i < 256; i++ {
			add([]byte{byte(i)})
			add([]byte{1, byte(i), 0})
		}
		for l := 0; l < 40; l++ {
			b := make([]byte, l)
			for i := range b {
				b[i] = byte(i * 37)
			}
			add(b)
		}
	}
	return [][]interface{}{vs}
}

func setPalette(o uniOpt) []*MTable {
	pal := []*MTable{
		{Name: "T"},
		{Name: "T", Cols: []MCol{{"a", "int"}}},
		{Name: "T", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}, {-2}}},
		{Name: "T", Cols: []MCol{{"a", "string"}, {"b", "float64"}}, Rows: [][]interface{}{{"[T0]", math.NaN()}, {"# x", 2.5}}},
		{Name: "T", Cols: []MCol{{"s", "string"}, {"y", "[]byte"}, {"t", "bool"}}, Rows: [][]interface{}{{"", []byte{}, true}}},
	}
	if o.Struct {
		pal = append(pal, &MTable{Name: "T", Struct: true, Cols: []MCol{{"a", "int"}, {"b", "string"}}, Rows: [][]interface{}{{5, "x = y"}}},
			&MTable{Name: "T", Struct: true, Cols: []MCol{{"a", "int"}, {"b", "string"}}})
	}
	if o.Keys {
		pal = append(pal, &MTable{Name: "T", Keys: []MKey{{"b", true}, {"a", false}}, Cols: []MCol{{"a", "int"}, {"b", "string"}}, Rows: [][]interface{}{{5, "x"}, {4, "y"}}})
	}
	if o.Nested {
		pal = append(pal, &MTable{Name: "T", Cols: []MCol{{"n", "*Table"}, {"i", "int"}}, Rows: [][]interface{}{{&MTable{Nil: true}, 1}, {table1("T", "n", "int", 7), 2}}})
	}
	return pal
}

// nestings: outer tables with one or two *Table columns whose cells run over all small inner tables, three levels deep.
func nestings(thorough bool, o uniOpt) []*MTable {
	leaves := []*MTable{{Nil: true}, {Name: "L"}, table1("L", "v", "int"), table1("L", "v", "string", "x\"y", ""),
		{Name: "Mid"}, {Name: "Out"}, table1("Out", "t", "int", 1), table1("Mid", "t", "*Table")}
	if o.Struct {
		leaves = append(leaves, &MTable{Name: "L", Struct: true}, &MTable{Name: "L", Struct: true, Cols: []MCol{{"v", "int"}, {"w", "string"}}},
			&MTable{Name: "L", Struct: true, Cols: []MCol{{"v", "int"}, {"w", "string"}}, Rows: [][]interface{}{{1, "x"}}})
	}
	for _, typ := range o.Types {
		if typ != "*Table" {
			d := domain(typ)
			leaves = append(leaves, table1("Leaf", "v", typ, d...))
		}
	}
	few := []*MTable{leaves[0], leaves[1], leaves[3], table1("A", "v", "float64", math.NaN(), 1.5)}
	mid := append([]*MTable{}, few...)
	for _, a := range leaves {
		mid = append(mid, table1("Mid", "t", "*Table", a))
	}
	for _, a := range few {
		for _, b := range few {
			mid = append(mid, table1("Mid2", "t", "*Table", a, b),
				&MTable{Name: "Mid3", Cols: []MCol{{"x", "*Table"}, {"k", "int"}, {"y", "*Table"}}, Rows: [][]interface{}{{a, 3, b}}})
		}
	}
	var out []*MTable
	for _, a := range mid {
		out = append(out, table1("Out", "t", "*Table", a))
		for _, b := range few {
			out = append(out, &MTable{Name: "Out", Cols: []MCol{{"p", "*Table"}, {"k", "string"}, {"q", "*Table"}}, Rows: [][]interface{}{{a, "r1", b}, {b, "r2", a}}})
		}
		if thorough {
			for _, b := range mid {
				out = append(out, table1("Out2", "t", "*Table", a, b), table1("Deep", "t", "*Table", table1("Out", "u", "*Table", a, b)))
			}
		}
	}
	return out
}

// layoutStrings: every string of 1 to max of the characters layout is made of.
func layoutStrings(max int) (all []interface{}) {
	layout := []string{" ", "\n", "a", "\t", "#", "-", ":"}
	for l := 1; l <= max; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(layout)
		}
		for k := 0; k < total; k++ {
			s := ""
			for i, x := 0, k; i < l; i++ {
				s += layout[x%len(layout)]
				x /= len(layout)
			}
			all = append(all, s)
		}
	}
	return
}
