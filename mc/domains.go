package main

import (
	"math"
	"time"

	g "github.com/urban-wombat/gotables"
)

// domain lists, per column type, the boundary and awkward values used by several checkers. Every list starts with the zero value.
func domain(typ string) []interface{} {
	switch typ {
	case "[]byte", "[]uint8":
		return []interface{}{[]byte{}, []byte{0}, []byte{1, 2, 255}, []byte("a b")}
	case "bool":
		return []interface{}{false, true}
	case "byte", "uint8":
		return []interface{}{uint8(0), uint8(1), uint8(127), uint8(128), uint8(255)}
	case "float32":
		return []interface{}{float32(0), float32(1.5), float32(-2), float32(0.1), float32(16777217), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32), float32(1e10), float32(1e-7), float32(math.NaN()), float32(math.Copysign(0, -1)), float32(-3.25)}
	case "float64":
		return []interface{}{float64(0), 1.5, -2.0, 0.1, 1e21, 9007199254740993.0, math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-7, 123456789.125, math.NaN(), math.Copysign(0, -1), 100.0, 1e100}
	case "int":
		return []interface{}{int(0), int(1), int(-1), int(9007199254740993), int(math.MaxInt64), int(math.MinInt64)}
	case "int16":
		return []interface{}{int16(0), int16(1), int16(-1), int16(math.MaxInt16), int16(math.MinInt16)}
	case "int32":
		return []interface{}{int32(0), int32(1), int32(-1), int32(math.MaxInt32), int32(math.MinInt32)}
	case "rune":
		return []interface{}{int32(0), 'a', '\'', '"', '\\', '\n', ' ', '界', '\u00e9', int32(0x7f), int32(0x1f600), int32(0xfffd), int32(0x10ffff)}
	case "int64":
		return []interface{}{int64(0), int64(1), int64(-1), int64(9007199254740993), int64(math.MaxInt64), int64(math.MinInt64)}
	case "int8":
		return []interface{}{int8(0), int8(1), int8(-1), int8(math.MaxInt8), int8(math.MinInt8)}
	case "string":
		return []interface{}{"", "a", "A b", `q"q`, `b\s`, "tab\there", "nl\nhere", "界é", "#no comment", "[T]", " lead", "trail ", "a,b", "\x00", "'", "`", "%d", "NaN", "1", "\x7f", "\u2028", "cr\rhere", "=", "[[S]]", "\ufeff"}
	case "uint":
		return []interface{}{uint(0), uint(1), uint(9007199254740993), uint(math.MaxInt64), uint(math.MaxUint64)}
	case "uint16":
		return []interface{}{uint16(0), uint16(1), uint16(math.MaxUint16)}
	case "uint32":
		return []interface{}{uint32(0), uint32(1), uint32(math.MaxUint32)}
	case "uint64":
		return []interface{}{uint64(0), uint64(1), uint64(9007199254740993), uint64(math.MaxInt64), uint64(math.MaxUint64)}
	case "*Table":
		return []interface{}{&MTable{Nil: true}, &MTable{Name: "N"}, &MTable{Name: "N", Cols: []MCol{{"n", "int"}}, Rows: [][]interface{}{{1}, {2}}}}
	case "time.Time":
		return []interface{}{g.MinTime, time.Date(2020, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(1999, 1, 2, 3, 4, 5, 123456789, time.UTC),
			time.Date(2021, 7, 1, 12, 0, 0, 500000000, time.FixedZone("", 5*3600+1800)), time.Date(2021, 7, 1, 12, 0, 0, 0, time.FixedZone("", -8*3600))}
	}
	panic(typ)
}

// ordinary gives one unremarkable non-zero value per type, n distinguishes rows.
func ordinary(typ string, n int) interface{} {
	switch typ {
	case "[]byte", "[]uint8":
		return []byte{byte(n + 1), 9}
	case "bool":
		return n%2 == 0
	case "byte", "uint8":
		return uint8(n + 2)
	case "float32":
		return float32(n) + 1.5
	case "float64":
		return float64(n) + 2.5
	case "int":
		return n + 3
	case "int16":
		return int16(n + 4)
	case "int32":
		return int32(n + 5)
	case "rune":
		return rune('A' + n)
	case "int64":
		return int64(n + 6)
	case "int8":
		return int8(n + 7)
	case "string":
		return string(rune('p'+n)) + " s"
	case "uint":
		return uint(n + 8)
	case "uint16":
		return uint16(n + 9)
	case "uint32":
		return uint32(n + 10)
	case "uint64":
		return uint64(n + 11)
	case "*Table":
		return &MTable{Name: "N", Cols: []MCol{{"n", "int"}}, Rows: [][]interface{}{{n}}}
	case "time.Time":
		return time.Date(2020, 1, 1+n, 2, 3, 4, 0, time.UTC)
	}
	panic(typ)
}

var plainTypes = []string{"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "rune", "int64", "int8",
	"string", "uint", "uint16", "uint32", "uint64", "uint8", "time.Time"}

// extremes lists, per column type, the values of domain and those that a conversion, a tolerance, a difference or a shorter word would confuse.
func extremes(typ string) (vs []interface{}) {
	seen := map[string]bool{}
	add := func(v interface{}) {
		if k := val(v); !seen[k] {
			seen[k] = true
			vs = append(vs, v)
		}
	}
	for _, v := range domain(typ) {
		add(v)
	}
	var ints []int64
	for _, k := range []uint{0, 7, 8, 15, 16, 24, 31, 32, 53, 62, 63} {
		for d := int64(-1); d <= 1; d++ {
			x := int64(uint64(1)<<k) + d
			ints = append(ints, x, -x)
		}
	}
	switch typ {
	case "float32":
		for _, f := range []float32{math.SmallestNonzeroFloat32, 2 * math.SmallestNonzeroFloat32, 1.1754944e-38, 1.1754942e-38, 1e-20, 1, math.Nextafter32(1, 2), math.Nextafter32(1, 0), 16777216, math.MaxFloat32, float32(math.Inf(1))} {
			add(f)
			add(-f)
		}
	case "float64":
		for _, f := range []float64{math.SmallestNonzeroFloat64, 2 * math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1e-300, 1e-45, 1e-40, 1e-10, 1, math.Nextafter(1, 2), math.Nextafter(1, 0), 1 + 1e-9, 16777217, 1 << 53, 1<<53 - 1, 1 << 63, 1 << 64, 1e39, math.MaxFloat64, math.Inf(1)} {
			add(f)
			add(-f)
		}
	case "int":
		for _, x := range ints {
			add(int(x))
		}
	case "int64":
		for _, x := range ints {
			add(x)
		}
	case "int32", "rune":
		if typ == "rune" {
			break
		}
		for _, x := range ints {
			if x == int64(int32(x)) {
				add(int32(x))
			}
		}
	case "int16":
		for _, x := range ints {
			if x == int64(int16(x)) {
				add(int16(x))
			}
		}
	case "int8":
		for _, x := range ints {
			if x == int64(int8(x)) {
				add(int8(x))
			}
		}
	case "uint":
		for _, x := range ints {
			add(uint(x))
		}
	case "uint64":
		for _, x := range ints {
			add(uint64(x))
		}
	case "uint32":
		for _, x := range ints {
			if x == int64(uint32(x)) {
				add(uint32(x))
			}
		}
	case "uint16":
		for _, x := range ints {
			if x == int64(uint16(x)) {
				add(uint16(x))
			}
		}
	case "uint8", "byte":
		for _, x := range ints {
			if x == int64(uint8(x)) {
				add(uint8(x))
			}
		}
	case "string":
		for _, s := range []string{"a", "A", "aa", "aA", "Aa", "AA", "a\x00", "a ", "\u00c9", "\u00e9", "e\u0301", "\u212a", "k", "K", "\u0130", "i", "I", "\u0131", "\u017f", "s", "\u00df", "ss", "z", "[", "_", "\xff", "\xfe", "\ufffd", "10", "9", "-1"} {
			add(s)
		}
	case "[]byte", "[]uint8":
		for _, s := range []string{"\x80", "\xc3\xa9", "\xff\xff", "a\x00", "A", "a"} {
			add([]byte(s))
		}
	case "time.Time":
		base := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
		wrap := func(n int) time.Time { // n times 2^64 nanoseconds later
			x := base
			for i := 0; i < 2*n; i++ {
				x = x.Add(math.MaxInt64).Add(1)
			}
			return x
		}
		for _, x := range []time.Time{base, base.Add(1), base.Add(time.Microsecond), base.Add(time.Millisecond), base.Add(time.Second), base.Add(time.Minute), base.Add(time.Hour), base.Add(24 * time.Hour), base.AddDate(1, 0, 0),
			base.Add(1 << 32), base.Add((1 << 32) * time.Second / 1), base.Add(math.MaxInt64).Add(1), wrap(1), wrap(2), wrap(10), base.In(time.FixedZone("", 3600)), base.In(time.FixedZone("", -3600)),
			time.Date(2000, 1, 1, 0, 0, 0, 0, time.FixedZone("", 3600)), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 1, time.UTC), time.Date(1969, 12, 31, 23, 59, 59, 0, time.UTC), time.Unix(0, 0).UTC()} {
			add(x)
		}
	}
	return
}
