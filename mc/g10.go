package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
	yaml "gopkg.in/yaml.v3"
)

func init() {
	register(&Checker{
		ID: "G10",
		Rule: "JSON and YAML: for every exported set of a family (every type with a boundary value, two tables, nested tables, struct shape, no rows, no columns), every node of the document tree is replaced by every value of an alphabet (null, booleans, numbers at and beyond every type's limits, numbers that only round to integers, strings, type names, lists, maps, tables), deleted, duplicated, given one of 7 extra elements before or after it (null, {}, [], [null], \"\", true, its sibling with nulls) or an extra key, or its key renamed (thorough: every pair of such changes on two small documents); " +
			"and every truncation, single-character deletion, duplication and substitution of the document text. An independent strict reader of the document decides: what it rejects must be an error, what it accepts must be an error or exactly the tables it reads. " +
			"GOB: every truncation and every single-byte change (quick: 8 bit flips and 4 values per byte; thorough: all 255) of the buffers of a family of tables and sets; the result must be an error or a table valid in every lookup whose cells have their columns' types; exported tables encoded anew from their parts with every single change that makes the parts disagree (names, types, lookup entries, row lengths, cell types, sort keys) must be refused.",
		Assumptions: []string{"encoding/json and gopkg.in/yaml.v3 decide document syntax and scalar typing", "missing or null data means no rows, unknown extra keys are ignored or refused"},
		Run:         runG10,
	})
}

// ---- independent strict readers ----

func validType(s string) bool { return isTypeM(s) }

func newMT(name string, structShape bool, cols []MCol) (*MTable, bool) {
	if !isNameM(name) {
		return nil, false
	}
	seen := map[string]bool{}
	for _, c := range cols {
		if !isNameM(c.Name) || isTypeM(c.Name) || seen[c.Name] || !isTypeM(c.Type) {
			return nil, false
		}
		seen[c.Name] = true
	}
	return &MTable{Name: name, Struct: structShape, Cols: cols}, true
}

func refSetDoc(doc interface{}, cell func(typ string, v interface{}) (interface{}, bool), named bool) (*MSet, bool) {
	m, ok := doc.(map[string]interface{})
	if !ok {
		return nil, false
	}
	s := &MSet{}
	if s.Name, ok = m["tableSetName"].(string); !ok {
		return nil, false
	}
	tabs, ok := m["tables"].([]interface{})
	if !ok {
		return nil, false
	}
	seen := map[string]bool{}
	for _, td := range tabs {
		t, ok := refTableDoc(td, cell, named)
		if !ok || t.Nil || seen[t.Name] {
			return nil, false
		}
		seen[t.Name] = true
		s.Tables = append(s.Tables, t)
	}
	return s, true
}

func refTableDoc(doc interface{}, cell func(typ string, v interface{}) (interface{}, bool), named bool) (*MTable, bool) {
	m, ok := doc.(map[string]interface{})
	if !ok {
		return nil, false
	}
	name, ok := m["tableName"].(string)
	if !ok {
		return nil, false
	}
	shape := false
	if v, has := m["isStructShape"]; has {
		if shape, ok = v.(bool); !ok {
			return nil, false
		}
	}
	if name == "" && !named { // YAML writes a nil table as a table without a name
		for _, k := range []string{"metadata", "data"} {
			if v := m[k]; v != nil {
				if l, isl := v.([]interface{}); !isl || len(l) > 0 {
					return nil, false
				}
			}
		}
		return &MTable{Nil: true}, true
	}
	meta, ok := m["metadata"].([]interface{})
	if !ok {
		return nil, false
	}
	var cols []MCol
	for _, e := range meta {
		em, ok := e.(map[string]interface{})
		if !ok || len(em) != 1 {
			return nil, false
		}
		for k, v := range em {
			ty, ok := v.(string)
			if !ok {
				return nil, false
			}
			if !named {
				ty = strings.TrimSuffix(strings.TrimPrefix(ty, `"`), `"`)
			}
			cols = append(cols, MCol{k, ty})
		}
	}
	t, ok := newMT(name, shape, cols)
	if !ok {
		return nil, false
	}
	if m["data"] == nil {
		return t, true
	}
	rows, ok := m["data"].([]interface{})
	if !ok {
		return nil, false
	}
	for _, r := range rows {
		cells, ok := r.([]interface{})
		if !ok || len(cells) != len(cols) {
			return nil, false
		}
		row := make([]interface{}, len(cols))
		for j, c := range cells {
			v := c
			if named {
				cm, ok := c.(map[string]interface{})
				if !ok || len(cm) != 1 {
					return nil, false
				}
				var has bool
				if v, has = cm[cols[j].Name]; !has {
					return nil, false
				}
			}
			if cols[j].Type == "*Table" {
				if named && v == nil {
					row[j] = &MTable{Nil: true}
					continue
				}
				nt, ok := refTableDoc(v, cell, named)
				if !ok {
					return nil, false
				}
				row[j] = nt
				continue
			}
			if row[j], ok = cell(cols[j].Type, v); !ok {
				return nil, false
			}
		}
		t.Rows = append(t.Rows, row)
	}
	return t, true
}

// intCell converts an exact integer to the type if it is in range.
func intCell(typ string, x *big.Int) (interface{}, bool) {
	bits := map[string]int{"int": 64, "int8": 8, "int16": 16, "int32": 32, "rune": 32, "int64": 64}
	if b, ok := bits[typ]; ok {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(b-1))
		if x.Cmp(lim) >= 0 || x.Cmp(new(big.Int).Neg(lim)) < 0 {
			return nil, false
		}
		i := x.Int64()
		switch typ {
		case "int":
			return int(i), true
		case "int8":
			return int8(i), true
		case "int16":
			return int16(i), true
		case "int64":
			return i, true
		}
		return int32(i), true
	}
	ubits := map[string]int{"uint": 64, "uint8": 8, "byte": 8, "uint16": 16, "uint32": 32, "uint64": 64}
	b, ok := ubits[typ]
	if !ok || x.Sign() < 0 || x.BitLen() > b {
		return nil, false
	}
	u := x.Uint64()
	switch typ {
	case "uint":
		return uint(u), true
	case "uint16":
		return uint16(u), true
	case "uint32":
		return uint32(u), true
	case "uint64":
		return u, true
	}
	return uint8(u), true
}

func exactInt(num string) (*big.Int, bool) {
	if i := strings.IndexAny(num, "eE"); i >= 0 {
		if e, err := strconv.Atoi(strings.TrimPrefix(num[i+1:], "+")); err != nil || e > 400 || e < -400 {
			f, err := strconv.ParseFloat(num[:i], 64)
			if err == nil && f == 0 {
				return new(big.Int), true
			}
			return nil, false
		}
	}
	r, ok := new(big.Rat).SetString(num)
	if !ok || !r.IsInt() {
		return nil, false
	}
	return r.Num(), true
}

func byteList(v interface{}, num func(interface{}) (*big.Int, bool)) (interface{}, bool) {
	l, ok := v.([]interface{})
	if !ok {
		return nil, false
	}
	out := []byte{}
	for _, e := range l {
		x, ok := num(e)
		if !ok {
			return nil, false
		}
		b, ok := intCell("uint8", x)
		if !ok {
			return nil, false
		}
		out = append(out, b.(uint8))
	}
	return out, true
}

func jsonCell(typ string, v interface{}) (interface{}, bool) {
	num := func(v interface{}) (*big.Int, bool) {
		n, ok := v.(json.Number)
		if !ok {
			return nil, false
		}
		return exactInt(string(n))
	}
	switch typ {
	case "bool":
		b, ok := v.(bool)
		return b, ok
	case "string":
		s, ok := v.(string)
		return s, ok
	case "rune":
		s, ok := v.(string)
		if !ok || utf8.RuneCountInString(s) != 1 {
			return nil, false
		}
		r, _ := utf8.DecodeRuneInString(s)
		return r, true
	case "time.Time":
		s, ok := v.(string)
		if !ok {
			return nil, false
		}
		return refTime(s)
	case "float32", "float64":
		bits := 64
		if typ == "float32" {
			bits = 32
		}
		var f float64
		switch x := v.(type) {
		case json.Number:
			var err error
			if f, err = strconv.ParseFloat(string(x), bits); err != nil {
				return nil, false
			}
		case string:
			switch x {
			case "NaN":
				f = math.NaN()
			case "+Inf":
				f = math.Inf(1)
			case "-Inf":
				f = math.Inf(-1)
			default:
				return nil, false
			}
		default:
			return nil, false
		}
		if bits == 32 {
			return float32(f), true
		}
		return f, true
	case "[]byte", "[]uint8":
		return byteList(v, num)
	}
	x, ok := num(v)
	if !ok {
		return nil, false
	}
	return intCell(typ, x)
}

// refTime accepts RFC3339 with up to 9 fractional digits.
func refTime(s string) (interface{}, bool) {
	tm, err := time.Parse(time.RFC3339Nano, s)
	if err != nil {
		return nil, false
	}
	if i := strings.IndexAny(s, "."); i >= 0 {
		n := 0
		for n = i + 1; n < len(s) && s[n] >= '0' && s[n] <= '9'; n++ {
		}
		if n-i-1 > 9 {
			return nil, false
		}
	}
	if strings.Contains(s, ",") {
		return nil, false
	}
	return tm, true
}

func yamlCell(typ string, v interface{}) (interface{}, bool) {
	num := func(v interface{}) (*big.Int, bool) {
		switch x := v.(type) {
		case int:
			return big.NewInt(int64(x)), true
		case int64:
			return big.NewInt(x), true
		case uint64:
			return new(big.Int).SetUint64(x), true
		}
		return nil, false
	}
	switch typ {
	case "bool":
		b, ok := v.(bool)
		return b, ok
	case "string":
		s, ok := v.(string)
		return s, ok
	case "time.Time":
		t, ok := v.(time.Time)
		return t, ok
	case "float32", "float64":
		var f float64
		if x, ok := num(v); ok {
			f, _ = new(big.Float).SetInt(x).Float64()
			if typ == "float32" {
				f32, _ := new(big.Float).SetInt(x).Float32()
				return f32, true
			}
		} else if y, ok := v.(float64); ok {
			f = y
		} else {
			return nil, false
		}
		if typ == "float32" {
			if math.IsInf(float64(float32(f)), 0) && !math.IsInf(f, 0) {
				return nil, false
			}
			return float32(f), true
		}
		return f, true
	case "[]byte", "[]uint8":
		return byteList(v, num)
	}
	x, ok := num(v)
	if !ok {
		return nil, false
	}
	return intCell(typ, x)
}

func refJSON(text string) (*MSet, bool) {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var doc interface{}
	if dec.Decode(&doc) != nil {
		return nil, false
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, false
	}
	return refSetDoc(doc, jsonCell, true)
}

func refYAML(text string) (s *MSet, ok bool) {
	var doc map[string]interface{}
	if err, pan := try(func() error { return yaml.Unmarshal([]byte(text), &doc) }); err != nil || pan != "" {
		return nil, false
	}
	if doc == nil {
		return nil, false
	}
	return refSetDoc(doc, yamlCell, false)
}

// ---- document trees and their mutations ----

type delMark struct{}

func cloneDoc(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		n := map[string]interface{}{}
		for k, e := range x {
			n[k] = cloneDoc(e)
		}
		return n
	case []interface{}:
		n := make([]interface{}, len(x))
		for i, e := range x {
			n[i] = cloneDoc(e)
		}
		return n
	}
	return v
}

type docPath []interface{} // string keys and int indices

func docPaths(v interface{}, p docPath, out *[]docPath) {
	*out = append(*out, append(docPath{}, p...))
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sortStrings(ks)
		for _, k := range ks {
			docPaths(x[k], append(p, k), out)
		}
	case []interface{}:
		for i := range x {
			docPaths(x[i], append(p, i), out)
		}
	}
}

// update rewrites the node at p by f, in a copy of doc.
func update(doc interface{}, p docPath, f func(parent interface{}, key interface{}) interface{}) interface{} {
	if len(p) == 0 {
		return f(nil, nil)
	}
	root := cloneDoc(doc)
	var set func(v interface{}, p docPath) interface{}
	set = func(v interface{}, p docPath) interface{} {
		if len(p) == 1 {
			return f(v, p[0])
		}
		switch x := v.(type) {
		case map[string]interface{}:
			x[p[0].(string)] = set(x[p[0].(string)], p[1:])
		case []interface{}:
			x[p[0].(int)] = set(x[p[0].(int)], p[1:])
		}
		return v
	}
	return set(root, p)
}

type mutation struct {
	name  string
	apply func(doc interface{}, p docPath) (interface{}, bool)
}

func replaceBy(name string, v func() interface{}) mutation {
	return mutation{"replace by " + name, func(doc interface{}, p docPath) (interface{}, bool) {
		if len(p) == 0 {
			return v(), true
		}
		return update(doc, p, func(parent, key interface{}) interface{} {
			switch x := parent.(type) {
			case map[string]interface{}:
				x[key.(string)] = v()
			case []interface{}:
				x[key.(int)] = v()
			}
			return parent
		}), true
	}}
}

func structural() []mutation {
	del := mutation{"delete", func(doc interface{}, p docPath) (interface{}, bool) {
		if len(p) == 0 {
			return nil, false
		}
		return update(doc, p, func(parent, key interface{}) interface{} {
			switch x := parent.(type) {
			case map[string]interface{}:
				delete(x, key.(string))
			case []interface{}:
				i := key.(int)
				return append(append([]interface{}{}, x[:i]...), x[i+1:]...)
			}
			return parent
		}), true
	}}
	dup := mutation{"duplicate", func(doc interface{}, p docPath) (interface{}, bool) {
		if len(p) == 0 {
			return nil, false
		}
		if _, isIdx := p[len(p)-1].(int); !isIdx {
			return nil, false
		}
		return update(doc, p, func(parent, key interface{}) interface{} {
			x := parent.([]interface{})
			i := key.(int)
			n := append([]interface{}{}, x[:i+1]...)
			return append(append(n, cloneDoc(x[i])), x[i+1:]...)
		}), true
	}}
	wrap := mutation{"wrap in a list", func(doc interface{}, p docPath) (interface{}, bool) {
		if len(p) == 0 {
			return []interface{}{doc}, true
		}
		return update(doc, p, func(parent, key interface{}) interface{} {
			switch x := parent.(type) {
			case map[string]interface{}:
				x[key.(string)] = []interface{}{x[key.(string)]}
			case []interface{}:
				x[key.(int)] = []interface{}{x[key.(int)]}
			}
			return parent
		}), true
	}}
	out := []mutation{del, dup, wrap}
	// Something more in a list, before and after the element; a key more in a map.
	for _, in := range []struct {
		name string
		v    func(x interface{}) interface{}
	}{
		{"null", func(interface{}) interface{} { return nil }},
		{"an empty map", func(interface{}) interface{} { return map[string]interface{}{} }},
		{"an empty list", func(interface{}) interface{} { return []interface{}{} }},
		{"an empty string", func(interface{}) interface{} { return "" }},
		{"true", func(interface{}) interface{} { return true }},
		{"a list of null", func(interface{}) interface{} { return []interface{}{nil} }},
		{"the like with nulls", func(x interface{}) interface{} {
			switch x := x.(type) {
			case map[string]interface{}:
				n := map[string]interface{}{}
				for k := range x {
					n[k] = nil
				}
				return n
			case []interface{}:
				return make([]interface{}, len(x))
			}
			return nil
		}},
	} {
		for after := 0; after < 2; after++ {
			in, after := in, after
			out = append(out, mutation{"insert " + in.name + [2]string{" before", " after"}[after], func(doc interface{}, p docPath) (interface{}, bool) {
				if len(p) == 0 {
					return nil, false
				}
				if _, isIdx := p[len(p)-1].(int); !isIdx {
					return nil, false
				}
				return update(doc, p, func(parent, key interface{}) interface{} {
					x := parent.([]interface{})
					i := key.(int)
					n := append([]interface{}{}, x[:i+after]...)
					return append(append(n, in.v(x[i])), x[i+after:]...)
				}), true
			}})
		}
		in := in
		out = append(out, mutation{"put in " + in.name, func(doc interface{}, p docPath) (interface{}, bool) {
			if len(p) == 0 {
				return nil, false
			}
			if _, isKey := p[len(p)-1].(string); !isKey {
				return nil, false
			}
			return update(doc, p, func(parent, key interface{}) interface{} {
				x := parent.(map[string]interface{})
				x["zz"] = in.v(x[key.(string)])
				return parent
			}), true
		}})
	}
	for _, nk := range []string{"", "zz", "a", "b", "1x", "int", "tableName", "data", "\u00e9"} {
		nk := nk
		out = append(out, mutation{"rename key to " + strconv.Quote(nk), func(doc interface{}, p docPath) (interface{}, bool) {
			if len(p) == 0 {
				return nil, false
			}
			k, isKey := p[len(p)-1].(string)
			if !isKey || k == nk {
				return nil, false
			}
			return update(doc, p, func(parent, key interface{}) interface{} {
				x := parent.(map[string]interface{})
				v := x[k]
				delete(x, k)
				x[nk] = v
				return parent
			}), true
		}}, mutation{"copy to key " + strconv.Quote(nk), func(doc interface{}, p docPath) (interface{}, bool) {
			if len(p) == 0 {
				return nil, false
			}
			k, isKey := p[len(p)-1].(string)
			if !isKey || k == nk {
				return nil, false
			}
			return update(doc, p, func(parent, key interface{}) interface{} {
				x := parent.(map[string]interface{})
				x[nk] = cloneDoc(x[k])
				return parent
			}), true
		}})
	}
	return out
}

var docNumbers = []string{"0", "1", "-1", "1.5", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649",
	"4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e3", "1.0", "1e20", "3.4e38", "3.5e38", "-3.5e38", "1e300", "1e-50", "0.1",
	"1.00000000000000000001", "0.99999999999999999999", "4503599627370496.1", "9007199254740993.0", "9007199254740992.5", "1e-400", "1e16", "9223372036854775807.0", "922337203685477580.7e1", "922337203685477580.8e1",
	"18446744073709551615.00", "100e-2", "101e-2", "-0", "-0.0", "0e5", "12.50e1", "1.27E+2", "12800e-2", "-1280e-1", "0.0000000001e10", "255.0", "256.0"}

func docReplacements(js bool) []mutation {
	var out []mutation
	num := func(s string) interface{} {
		if js {
			return json.Number(s)
		}
		return &yaml.Node{Kind: yaml.ScalarNode, Value: s}
	}
	for _, n := range docNumbers {
		n := n
		out = append(out, replaceBy(n, func() interface{} { return num(n) }))
	}
	add := func(name string, v func() interface{}) { out = append(out, replaceBy(name, v)) }
	add("null", func() interface{} { return nil })
	for _, b := range []bool{false, true} {
		b := b
		add(strconv.FormatBool(b), func() interface{} { return b })
	}
	strsx := append([]string{"", "a", "ab", "T", "T0", "1", "NaN", "+Inf", "Inf", "true", "a b", "\u00e9", "2020-01-01T00:00:00Z", "2020-13-01T00:00:00Z", "2020-01-01T00:00:00.1234567891Z", "2020-01-01", "*gotables.Table", "Int", "float", `"int"`, `"int`, "[1]"}, allTypes...)
	for _, s := range strsx {
		s := s
		add(strconv.Quote(s), func() interface{} { return s })
	}
	if js {
		add("1e400", func() interface{} { return num("1e400") })
	} else {
		for _, s := range []string{".nan", ".inf", "-.inf", "2020-01-01", "2020-01-01T00:00:00.5+05:30", "0x10", "0o17", "0b11", "1_000", "~", "yes", "1e400"} {
			s := s
			add(s, func() interface{} { return num(s) })
		}
		add("intkeys", func() interface{} { return map[interface{}]interface{}{1: "int"} })
	}
	one, big, neg, half := num("1"), num("256"), num("-1"), num("1.5")
	add("[]", func() interface{} { return []interface{}{} })
	add("[1]", func() interface{} { return []interface{}{one} })
	add("[256]", func() interface{} { return []interface{}{big} })
	add("[-1]", func() interface{} { return []interface{}{neg} })
	add("[1.5]", func() interface{} { return []interface{}{half} })
	add(`["a"]`, func() interface{} { return []interface{}{"a"} })
	add("[null]", func() interface{} { return []interface{}{nil} })
	add("[[]]", func() interface{} { return []interface{}{[]interface{}{}} })
	add("[[1]]", func() interface{} { return []interface{}{[]interface{}{one}} })
	add("{}", func() interface{} { return map[string]interface{}{} })
	add("{a:1}", func() interface{} { return map[string]interface{}{"a": one} })
	add("{a:int}", func() interface{} { return map[string]interface{}{"a": "int"} })
	add("{a:null}", func() interface{} { return map[string]interface{}{"a": nil} })
	add("{a:1,b:1}", func() interface{} { return map[string]interface{}{"a": one, "b": one} })
	add("[{a:1}]", func() interface{} { return []interface{}{map[string]interface{}{"a": one}} })
	add("[{a:int}]", func() interface{} { return []interface{}{map[string]interface{}{"a": "int"}} })
	add("[{a:int},{a:int}]", func() interface{} {
		return []interface{}{map[string]interface{}{"a": "int"}, map[string]interface{}{"a": "int"}}
	})
	add("table", func() interface{} {
		cell := interface{}(one)
		if js {
			cell = map[string]interface{}{"q": one}
		}
		return map[string]interface{}{"tableName": "Q", "metadata": []interface{}{map[string]interface{}{"q": "int8"}}, "data": []interface{}{[]interface{}{cell}}}
	})
	add("nil table", func() interface{} {
		return map[string]interface{}{"tableName": "", "metadata": []interface{}{}, "data": []interface{}{}}
	})
	return out
}

func g10Family() []*MSet {
	var out []*MSet
	for _, typ := range allTypes {
		d := domain(typ)
		v := d[len(d)-1]
		if typ == "*Table" {
			v = table1("N", "n", "int8", int8(3))
		}
		out = append(out, &MSet{Name: "S", Tables: []*MTable{{Name: "T", Cols: []MCol{{"a", typ}, {"b", "string"}}, Rows: [][]interface{}{{v, "x"}, {ordinary(typ, 0), ""}}}}})
	}
	out = append(out,
		&MSet{},
		&MSet{Name: "S", Tables: []*MTable{{Name: "T0"}, table1("T", "a", "int", 1)}},
		&MSet{Tables: []*MTable{{Name: "T", Struct: true, Cols: []MCol{{"a", "uint8"}}, Rows: [][]interface{}{{uint8(255)}}}, {Name: "T0", Cols: []MCol{{"a", "bool"}}}}},
		&MSet{Tables: []*MTable{{Name: "T", Cols: []MCol{{"a", "*Table"}, {"b", "*Table"}}, Rows: [][]interface{}{{&MTable{Nil: true}, table1("N", "a", "*Table", table1("NN", "a", "int", 5))}}}}},
	)
	return out
}

type docFormat struct {
	name   string
	export func(ts *g.TableSet) (string, error)
	imp    func(text string) (*g.TableSet, error)
	ref    func(text string) (*MSet, bool)
	decode func(text string) interface{}
	encode func(doc interface{}) (string, bool)
	repl   []mutation
	chars  string
}

func g10Formats() []docFormat {
	return []docFormat{{
		name:   "JSON",
		export: func(ts *g.TableSet) (string, error) { return ts.GetTableSetAsJSON() },
		imp:    g.NewTableSetFromJSON,
		ref:    refJSON,
		decode: func(text string) interface{} {
			dec := json.NewDecoder(strings.NewReader(text))
			dec.UseNumber()
			var doc interface{}
			must(dec.Decode(&doc))
			return doc
		},
		encode: func(doc interface{}) (string, bool) {
			var b bytes.Buffer
			enc := json.NewEncoder(&b)
			enc.SetEscapeHTML(false)
			if enc.Encode(doc) != nil {
				return "", false
			}
			return b.String(), true
		},
		repl:  docReplacements(true),
		chars: "\"{}[]:,0-e.a\\ \n\x00\x80tn",
	}, {
		name:   "YAML",
		export: func(ts *g.TableSet) (string, error) { return ts.GetTableSetAsYAML() },
		imp:    g.NewTableSetFromYAML,
		ref:    refYAML,
		decode: func(text string) interface{} {
			var doc interface{}
			must(yaml.Unmarshal([]byte(text), &doc))
			return doc
		},
		encode: func(doc interface{}) (s string, ok bool) {
			err, pan := try(func() error {
				b, err := yaml.Marshal(doc)
				s = string(b)
				return err
			})
			return s, err == nil && pan == ""
		},
		repl:  docReplacements(false),
		chars: "\"{}[]:,0-.a ~\n\t#&*!|'%\x80?",
	}}
}

// checkDoc: what the reference rejects must be an error; what it accepts must be an error or exactly that.
func checkDoc(t *T, f *docFormat, text string) {
	want, ok := f.ref(text)
	var got *g.TableSet
	err, pan := try(func() (err error) { got, err = f.imp(text); return })
	t.Step(1)
	t.State(f.name + text)
	if pan != "" {
		t.Failf("%s import panics: %s\n%s", f.name, pan, clip(text, 600))
		return
	}
	if err != nil {
		if ok {
			t.Outcome(f.name + " rejected though readable")
		} else {
			t.Outcome(f.name + " rejected")
		}
		return
	}
	if got == nil {
		t.Failf("%s import returns neither tables nor an error\n%s", f.name, clip(text, 600))
		return
	}
	if !ok {
		t.Failf("%s import accepts a malformed document, as %s\n%s", f.name, clip(observeSet(got).Full(), 300), clip(text, 600))
		return
	}
	if d := sameSetShape(plainZeros(observeSet(got)), plainZeros(want)); d != "" {
		t.Failf("%s import misreads the document: %s\n%s", f.name, d, clip(text, 600))
		return
	}
	if valid, err := got.IsValidTableSet(); !valid || err != nil {
		t.Failf("%s import returns an invalid table set: %v\n%s", f.name, err, clip(text, 600))
		return
	}
	t.Outcome(f.name + " accepted")
}

func runG10(c *Ctx) {
	st := structural()
	fam := g10Family()
	for _, f := range g10Formats() {
		f := f
		muts := append(append([]mutation{}, st...), f.repl...)
		for fi, s := range fam {
			text, err := f.export(buildSet(s))
			must(err)
			doc := f.decode(text)
			c.Do(func() string { return f.name + " unchanged " + s.Full() }, func(t *T) { // the export itself must be accepted
				if _, ok := f.ref(text); !ok {
					panic("the reference reader rejects an exported document: " + text)
				}
				checkDoc(t, &f, text)
				if _, err := f.imp(text); err != nil {
					t.Failf("%s import rejects an exported document: %v", f.name, err)
				}
			})
			var paths []docPath
			docPaths(doc, nil, &paths)
			for _, p := range paths {
				for _, mu := range muts {
					if c.Stopped() {
						return
					}
					p, mu := p, mu
					if !c.Next() {
						continue
					}
					c.exec(func() string { return fmt.Sprintf("%s doc %d: %s at %v", f.name, fi, mu.name, p) }, func(t *T) {
						d, ok := mu.apply(doc, p)
						if !ok {
							return
						}
						mt, ok := f.encode(d)
						if !ok {
							return
						}
						checkDoc(t, &f, mt)
					})
				}
			}
			// pairs of changes
			if c.Thorough && (fi >= len(fam)-4 || fi%6 == 0) {
				for _, p := range paths {
					for _, mu := range muts {
						d, ok := mu.apply(doc, p)
						if !ok {
							continue
						}
						mid, ok := f.encode(d)
						if !ok {
							continue
						}
						var d2 interface{}
						if _, pan := try(func() error { d2 = f.decode(mid); return nil }); pan != "" {
							continue
						}
						var paths2 []docPath
						docPaths(d2, nil, &paths2)
						if c.Stopped() {
							return
						}
						for _, q := range paths2 {
							for _, mu2 := range st {
								p, q, mu, mu2, d2 := p, q, mu, mu2, d2
								if !c.Next() {
									continue
								}
								c.exec(func() string {
									return fmt.Sprintf("%s doc %d: %s at %v then %s at %v", f.name, fi, mu.name, p, mu2.name, q)
								}, func(t *T) {
									d3, ok := mu2.apply(d2, q)
									if !ok {
										return
									}
									mt, ok := f.encode(d3)
									if !ok {
										return
									}
									checkDoc(t, &f, mt)
								})
							}
						}
					}
				}
			}
			// the text itself
			for i := 0; i <= len(text); i++ {
				i := i
				if c.Stopped() {
					return
				}
				do := func(what string, mt string) {
					if c.Next() {
						c.exec(func() string { return fmt.Sprintf("%s doc %d: %s at byte %d", f.name, fi, what, i) }, func(t *T) { checkDoc(t, &f, mt) })
					}
				}
				do("truncate", text[:i])
				if i == len(text) {
					for _, ch := range f.chars {
						do("append "+strconv.Quote(string(ch)), text+string(ch))
					}
					break
				}
				do("delete", text[:i]+text[i+1:])
				do("duplicate", text[:i+1]+text[i:])
				for k := 0; k < len(f.chars); k++ {
					do("substitute "+strconv.Quote(f.chars[k:k+1]), text[:i]+f.chars[k:k+1]+text[i+1:])
					if c.Thorough {
						do("insert "+strconv.Quote(f.chars[k:k+1]), text[:i]+f.chars[k:k+1]+text[i:])
					}
				}
			}
		}
	}
	runG10Gob(c)
}

func checkGobTable(t *T, got *g.Table) {
	m := observe(got)
	for _, r := range m.Rows {
		for j, v := range r {
			if ty := fmt.Sprintf("%T", v); ty != goTypeOf(m.Cols[j].Type) {
				t.Failf("decoded cell of column %v has type %s", m.Cols[j], ty)
				return
			}
		}
	}
	for _, k := range m.Keys {
		if m.Col(k.Col) < 0 {
			t.Failf("decoded table has sort key %q without such a column", k.Col)
			return
		}
	}
	if err := lookupsAgree(got, m, []string{"zz"}); err != nil {
		t.Failf("decoded table is inconsistent: %v", err)
		return
	}
	if len(m.Keys) > 0 && len(m.Rows) > 0 {
		if err, pan := try(func() error { return got.Sort() }); pan != "" {
			t.Failf("Sort() of the decoded table panics: %s (%v)", pan, err)
		}
	}
}

func checkGobBytes(t *T, b []byte) {
	t.Step(1)
	var got *g.Table
	err, pan := try(func() (err error) { got, err = g.NewTableFromGob(b); return })
	if pan != "" {
		t.Failf("NewTableFromGob panics: %s", pan)
		return
	}
	if err != nil {
		t.Outcome("GOB rejected")
		return
	}
	if got == nil {
		t.Failf("NewTableFromGob returns neither a table nor an error")
		return
	}
	t.Outcome("GOB accepted")
	checkGobTable(t, got)
}

func checkGobBufs(t *T, bufs [][]byte) {
	t.Step(1)
	var in []bytes.Buffer
	for _, b := range bufs {
		in = append(in, *bytes.NewBuffer(append([]byte{}, b...)))
	}
	var got *g.TableSet
	err, pan := try(func() (err error) { got, err = g.NewTableSetFromGob(in); return })
	if pan != "" {
		t.Failf("NewTableSetFromGob panics: %s", pan)
		return
	}
	if err != nil {
		t.Outcome("GOB set rejected")
		return
	}
	if got == nil {
		t.Failf("NewTableSetFromGob returns neither tables nor an error")
		return
	}
	t.Outcome("GOB set accepted")
	names := map[string]bool{}
	for i := 0; i < got.TableCount(); i++ {
		tab, err := got.GetTableByTableIndex(i)
		must(err)
		checkGobTable(t, tab)
		if names[tab.Name()] {
			t.Failf("decoded set has two tables [%s]", tab.Name())
		}
		names[tab.Name()] = true
	}
}

func runG10Gob(c *Ctx) {
	fam := []*MTable{
		{Name: "T"},
		{Name: "T", Struct: true, Cols: []MCol{{"a", "int"}, {"b", "string"}}, Keys: []MKey{{"b", true}, {"a", false}}, Rows: [][]interface{}{{1, "x"}, {-2, ""}}},
		{Name: "T", Cols: []MCol{{"a", "[]byte"}, {"b", "float64"}, {"cc", "rune"}}, Rows: [][]interface{}{{[]byte{1, 2}, 1.5, 'x'}}},
		{Name: "T", Cols: []MCol{{"a", "uint8"}, {"b", "bool"}, {"cc", "int64"}, {"d", "float32"}, {"e", "uint64"}}, Rows: [][]interface{}{{uint8(1), true, int64(2), float32(1), uint64(3)}}},
	}
	changes := func(b byte) []byte {
		if c.Thorough {
			var out []byte
			for x := 0; x < 256; x++ {
				if byte(x) != b {
					out = append(out, byte(x))
				}
			}
			return out
		}
		var out []byte
		for k := 0; k < 8; k++ {
			out = append(out, b^(1<<k))
		}
		return append(out, 0, 255, b+1, b-1)
	}
	for fi, m := range fam {
		b, err := build(m).GobEncode()
		must(err)
		for i := 0; i <= len(b); i++ {
			if c.Stopped() {
				return
			}
			i := i
			c.Do(func() string { return fmt.Sprintf("GOB table %d: truncated to %d bytes", fi, i) }, func(t *T) { checkGobBytes(t, append([]byte{}, b[:i]...)) })
			if i == len(b) {
				break
			}
			for _, x := range changes(b[i]) {
				x := x
				if c.Next() {
					c.exec(func() string { return fmt.Sprintf("GOB table %d: byte %d set to %#x", fi, i, x) }, func(t *T) {
						n := append([]byte{}, b...)
						n[i] = x
						checkGobBytes(t, n)
					})
				}
			}
		}
	}
	runG10GobParts(c, fam)
	// sets: the same for the header buffer; and every way of dropping, repeating and permuting buffers
	set := &MSet{Name: "S", Tables: []*MTable{fam[1], {Name: "U", Cols: []MCol{{"z", "bool"}}}}}
	bufs, err := buildSet(set).GobEncode()
	must(err)
	var raw [][]byte
	for i := range bufs {
		raw = append(raw, append([]byte{}, bufs[i].Bytes()...))
	}
	hdr := raw[len(raw)-1]
	for i := 0; i <= len(hdr); i++ {
		i := i
		c.Do(func() string { return fmt.Sprintf("GOB set header truncated to %d bytes", i) }, func(t *T) { checkGobBufs(t, [][]byte{raw[0], raw[1], hdr[:i]}) })
		if i == len(hdr) {
			break
		}
		for _, x := range changes(hdr[i]) {
			x := x
			c.Do(func() string { return fmt.Sprintf("GOB set header byte %d set to %#x", i, x) }, func(t *T) {
				n := append([]byte{}, hdr...)
				n[i] = x
				checkGobBufs(t, [][]byte{raw[0], raw[1], n})
			})
		}
	}
	items := append(append([][]byte{}, raw...), []byte{})
	for l := 0; l <= 4; l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= len(items)
		}
		for k := 0; k < total; k++ {
			k, l := k, l
			c.Do(func() string { return fmt.Sprintf("GOB set buffers %d of length %d", k, l) }, func(t *T) {
				var in [][]byte
				for i, x := 0, k; i < l; i++ {
					in = append(in, items[x%len(items)])
					x /= len(items)
				}
				checkGobBufs(t, in)
			})
		}
	}
}
