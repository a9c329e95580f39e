package main

// A reference reader of the text form, written from its documentation: independent of the library's regular expressions.
// verdict: accepted with these tables (and must: the library has to accept), or rejected.

import (
	"go/constant"
	"go/token"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type refResult struct {
	Set  *MSet
	OK   bool // the text has a reading
	Must bool // ... and it uses only the documented notation, so it must be accepted
	// Of a text without a reading: the first line after which none is possible, whatever follows;
	// and the earlier lines whose notation may be refused.
	Line int
	May  []int
	End  bool // it is the row of types that is missing after Line
}

func isNameM(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9' {
			continue
		}
		return false
	}
	return !isTypeM(s)
}

func isTypeM(s string) bool {
	for _, t := range allTypes {
		if t == s {
			return true
		}
	}
	return false
}

func asciiFields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r == ' ' || r == '\t' || r == '\f' || r == '\r' || r == '\n' })
}

func blanks(s string) int { return len(s) - len(strings.TrimLeft(s, " \t")) }

// refLit reads one literal at the start of s: value, its length, whether it is documented notation.
func refLit(s, typ string) (v interface{}, n int, must, ok bool) {
	word := func() string {
		if i := strings.IndexAny(s, " \t"); i >= 0 {
			return s[:i]
		}
		return s
	}
	switch typ {
	case "string":
		if s == "" || s[0] != '"' {
			return
		}
		q, err := strconv.QuotedPrefix(s)
		if err != nil || !utf8.ValidString(q) {
			return
		}
		u, err := strconv.Unquote(q)
		if err != nil {
			return
		}
		return u, len(q), true, true
	case "rune":
		if s == "" || s[0] != '\'' {
			return
		}
		q, err := strconv.QuotedPrefix(s)
		if err != nil || !utf8.ValidString(q) {
			return
		}
		cv := constant.MakeFromLiteral(q, token.CHAR, 0)
		if cv.Kind() != constant.Int {
			return
		}
		x, exact := constant.Int64Val(cv)
		if !exact {
			return
		}
		return rune(x), len(q), true, true
	case "[]byte", "[]uint8":
		if s == "" || s[0] != '[' {
			return
		}
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return
		}
		b := []byte{}
		inner := s[1:i]
		must = true
		parts := asciiFields(inner)
		if inner != strings.Join(parts, " ") {
			must = false
		}
		for _, p := range parts {
			x, _, m, ok := refLit(p, "uint8")
			if !ok {
				return nil, 0, false, false
			}
			must = must && m
			b = append(b, x.(uint8))
		}
		return b, i + 1, must, true
	case "*Table":
		if s == "" || s[0] != '[' {
			return
		}
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return
		}
		name := s[1:i]
		if name == "" {
			return &MTable{Nil: true}, 2, true, true
		}
		if !isNameM(name) {
			return
		}
		return &MTable{Name: name}, i + 1, true, true
	}
	w := word()
	n = len(w)
	switch typ {
	case "bool":
		return w == "true", n, true, w == "true" || w == "false"
	case "time.Time":
		t, err := time.Parse(time.RFC3339, w)
		if err != nil || strings.Contains(w, ",") {
			return nil, 0, false, false
		}
		if i := strings.IndexByte(w, '.'); i >= 0 {
			d := 0
			for _, r := range w[i+1:] {
				if r < '0' || r > '9' {
					break
				}
				d++
			}
			if d > 9 {
				return nil, 0, false, false
			}
		}
		return t, n, len(w) >= 20 && w[13] == ':', true // time.Parse also takes a one-digit hour
	case "float32", "float64":
		bits := 64
		if typ == "float32" {
			bits = 32
		}
		f, err := strconv.ParseFloat(w, bits)
		if err != nil {
			return nil, 0, false, false
		}
		must = strings.Trim(w, "+-.eE0123456789") == "" || w == "NaN" || w == "+Inf" || w == "-Inf"
		if typ == "float32" {
			return float32(f), n, must, true
		}
		return f, n, must, true
	}
	sizes := map[string]int{"int": 64, "int8": 8, "int16": 16, "int32": 32, "int64": 64, "uint": 64, "uint8": 8, "byte": 8, "uint16": 16, "uint32": 32, "uint64": 64}
	bits := sizes[typ]
	if strings.HasPrefix(typ, "u") || typ == "byte" {
		x, err := strconv.ParseUint(strings.TrimPrefix(w, "+"), 0, bits)
		if err != nil || strings.HasPrefix(w, "++") {
			return nil, 0, false, false
		}
		must = !strings.ContainsAny(w, "_+")
		switch typ {
		case "uint":
			return uint(x), n, must, true
		case "uint8", "byte":
			return uint8(x), n, must, true
		case "uint16":
			return uint16(x), n, must, true
		case "uint32":
			return uint32(x), n, must, true
		}
		return x, n, must, true
	}
	x, err := strconv.ParseInt(w, 0, bits)
	if err != nil {
		return nil, 0, false, false
	}
	signed := strings.HasPrefix(w, "-") || strings.HasPrefix(w, "+")
	must = !strings.Contains(w, "_") && !(signed && strings.Trim(w[1:], "0123456789") != "")
	switch typ {
	case "int":
		return int(x), n, must, true
	case "int8":
		return int8(x), n, must, true
	case "int16":
		return int16(x), n, must, true
	case "int32":
		return int32(x), n, must, true
	}
	return x, n, must, true
}

func refRow(line string, types []string) (row []interface{}, must, ok bool) {
	must = true
	for i, typ := range types {
		v, n, m, good := refLit(line, typ)
		if !good {
			return nil, false, false
		}
		row = append(row, v)
		must = must && m
		line = line[n:]
		k := blanks(line)
		if i < len(types)-1 && k == 0 {
			return nil, false, false
		}
		line = line[k:]
	}
	return row, must, line == ""
}

func refParse(text string) (res refResult) {
	set := &MSet{}
	must, allMust := true, true
	var tab *MTable
	const (
		atName = iota
		atFirst
		atTypes
		atRows
		atStruct
	)
	state := atName
	structData := false
	named := false
	var names, types []string
	for i, raw := range strings.Split(text, "\n") {
		if !must {
			res.May = append(res.May, i)
		}
		allMust, must = allMust && must, true
		res.Line = i + 1
		line := strings.TrimSpace(raw)
		if strings.HasPrefix(line, "#") {
			continue
		}
		if line == "" {
			if state == atTypes {
				res.End = true
				return
			}
			state = atName
			continue
		}
		f := asciiFields(line)
		switch state {
		case atName:
			if strings.HasPrefix(line, "[[") && strings.HasSuffix(line, "]]") && !named {
				n := line[2 : len(line)-2]
				if !isNameM(n) {
					return
				}
				set.Name = n
				named = true
				continue
			}
			if line[0] != '[' || line[len(line)-1] != ']' || !isNameM(strings.TrimSuffix(line[1:], "]")) {
				return
			}
			tab = &MTable{Name: line[1 : len(line)-1]}
			if set.idx(tab.Name) >= 0 {
				return
			}
			set.Tables = append(set.Tables, tab)
			state = atFirst
			structData = false
		case atFirst, atStruct:
			if state == atStruct || len(f) >= 2 && isTypeM(f[1]) {
				if len(f) < 2 || !isNameM(f[0]) || !isTypeM(f[1]) || tab.Col(f[0]) >= 0 {
					return
				}
				data := len(f) > 2
				if state == atStruct && data != structData {
					return
				}
				structData = data
				tab.Cols = append(tab.Cols, MCol{f[0], f[1]})
				tab.Struct = true
				if data {
					if f[2][0] != '=' {
						return
					}
					if f[2] != "=" {
						must = false
					}
					rest := line[strings.IndexByte(line, '=')+1:]
					row, m, ok := refRow(strings.TrimLeft(rest, " \t\r\n"), []string{f[1]})
					if !ok {
						return
					}
					must = must && m
					if len(tab.Rows) == 0 {
						tab.Rows = [][]interface{}{nil}
					}
					tab.Rows[0] = append(tab.Rows[0], row[0])
				}
				state = atStruct
				continue
			}
			names = f
			for i, n := range f {
				if !isNameM(n) {
					return
				}
				for _, o := range f[:i] {
					if o == n {
						return
					}
				}
			}
			state = atTypes
		case atTypes:
			types = f
			if len(types) != len(names) {
				return
			}
			for i, ty := range types {
				if !isTypeM(ty) {
					return
				}
				tab.Cols = append(tab.Cols, MCol{names[i], ty})
			}
			state = atRows
		case atRows:
			row, m, ok := refRow(line, types)
			if !ok {
				return
			}
			must = must && m
			tab.Rows = append(tab.Rows, row)
		}
	}
	if state == atTypes {
		res.End = true
		return
	}
	return refResult{Set: set, OK: true, Must: allMust && must}
}
