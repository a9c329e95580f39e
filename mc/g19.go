package main

// G19 CSV export: every table's CSV text, read by a strict RFC 4180 reader, holds the headings and every cell's text.

import (
	"encoding/csv"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

// readCSV is a strict RFC 4180 reader (records ended by LF or CRLF; text outside quotes may hold anything but comma, quote, CR, LF).
func readCSV(s string) (recs [][]string, err string) {
	i := 0
	var rec []string
	for i < len(s) {
		var f strings.Builder
		if s[i] == '"' {
			i++
			for {
				if i >= len(s) {
					return recs, "unterminated quoted field"
				}
				if s[i] != '"' {
					f.WriteByte(s[i])
					i++
					continue
				}
				if i+1 < len(s) && s[i+1] == '"' {
					f.WriteByte('"')
					i += 2
					continue
				}
				i++
				break
			}
			if i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
				return recs, fmt.Sprintf("text after a quoted field at byte %d", i)
			}
		} else {
			for i < len(s) && s[i] != ',' && s[i] != '\n' && s[i] != '\r' {
				if s[i] == '"' {
					return recs, fmt.Sprintf("bare quote at byte %d", i)
				}
				f.WriteByte(s[i])
				i++
			}
		}
		rec = append(rec, f.String())
		if i >= len(s) {
			return recs, "last record not ended"
		}
		switch s[i] {
		case ',':
			i++
			if i >= len(s) {
				return recs, "last record not ended"
			}
			if s[i] == '\n' || s[i] == '\r' { // an empty last field
				rec = append(rec, "")
			} else {
				continue
			}
		}
		if s[i] == '\r' {
			i++
			if i >= len(s) || s[i] != '\n' {
				return recs, "CR without LF"
			}
		}
		i++ // LF
		recs = append(recs, rec)
		rec = nil
	}
	if rec != nil {
		return recs, "last record not ended"
	}
	return recs, ""
}

// cellText is the text form of a cell.
func cellText(typ string, v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case bool:
		if x {
			return "true"
		}
		return "false"
	case []byte:
		var p []string
		for _, b := range x {
			p = append(p, strconv.Itoa(int(b)))
		}
		return "[" + strings.Join(p, " ") + "]"
	case float32:
		return floatText(float64(x), 32)
	case float64:
		return floatText(x, 64)
	case int32:
		if typ == "rune" {
			return string(x)
		}
		return strconv.FormatInt(int64(x), 10)
	case *MTable:
		return "[" + x.Name + "]"
	case time.Time:
		z := "Z"
		if _, off := x.Zone(); off != 0 {
			sign := '+'
			if off < 0 {
				sign, off = '-', -off
			}
			z = fmt.Sprintf("%c%02d:%02d", sign, off/3600, off/60%60)
		}
		frac := ""
		if x.Nanosecond() > 0 {
			frac = strings.TrimRight(fmt.Sprintf(".%09d", x.Nanosecond()), "0")
		}
		return fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d%s%s", x.Year(), int(x.Month()), x.Day(), x.Hour(), x.Minute(), x.Second(), frac, z)
	}
	return fmt.Sprintf("%d", v)
}

func floatText(f float64, bits int) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "+Inf"
	case math.IsInf(f, -1):
		return "-Inf"
	}
	return strconv.FormatFloat(f, 'f', -1, bits)
}

func isNaNVal(v interface{}) bool {
	switch x := v.(type) {
	case float32:
		return x != x
	case float64:
		return x != x
	}
	return false
}

// checkCSV checks the CSV form of m with substitute headings heads (nil for none).
func checkCSV(t *T, m *MTable, heads []string) {
	tb := build(m)
	text, err := tb.GetTableAsCSV(heads...)
	t.Step(1)
	if len(heads) > 0 && len(heads) != len(m.Cols) {
		if err == nil {
			t.Failf("%d substitute headings for %d columns are accepted", len(heads), len(m.Cols))
		} else {
			t.Outcome("refused")
		}
		return
	}
	if m.Nil {
		if err == nil {
			t.Failf("CSV of a nil table is accepted")
		}
		return
	}
	if err != nil {
		t.Failf("GetTableAsCSV: %v", err)
		return
	}
	if len(m.Cols) == 0 {
		if strings.Trim(text, "\r\n") != "" {
			t.Failf("CSV of a table without columns: %q", text)
		}
		t.Outcome("no columns")
		return
	}
	var want [][]string
	var head []string
	for i, c := range m.Cols {
		h := c.Name
		if len(heads) > 0 && heads[i] != "" {
			h = heads[i]
		}
		head = append(head, h)
	}
	want = append(want, head)
	for r, row := range m.Rows {
		var rec []string
		for ci, v := range row {
			txt := cellText(m.Cols[ci].Type, v)
			got, err := tb.GetValAsStringByColIndex(ci, r)
			if err != nil || got != txt {
				t.Failf("text form of cell %d,%d: want %q, got %q, %v", ci, r, txt, got, err)
				return
			}
			got2, err := tb.GetValAsString(m.Cols[ci].Name, r)
			if err != nil || got2 != txt {
				t.Failf("text form of cell %q,%d: want %q, got %q, %v", m.Cols[ci].Name, r, txt, got2, err)
				return
			}
			if isNaNVal(v) {
				txt = ""
			}
			rec = append(rec, txt)
		}
		want = append(want, rec)
	}
	for ci, c := range m.Cols {
		col := make([]string, len(m.Rows))
		for r, row := range m.Rows {
			col[r] = cellText(c.Type, row[ci])
		}
		vals, err := tb.GetColValsAsStrings(c.Name)
		if err != nil || fmt.Sprintf("%q", vals) != fmt.Sprintf("%q", col) {
			t.Failf("GetColValsAsStrings(%q): want %q, got %q, %v", c.Name, col, vals, err)
			return
		}
		for _, sep := range []string{",", "", "\n", " and "} {
			j, err := tb.JoinColVals(c.Name, sep)
			k, err2 := tb.JoinColValsByColIndex(ci, sep)
			if want := strings.Join(col, sep); err != nil || err2 != nil || j != want || k != want {
				t.Failf("JoinColVals(%q, %q): want %q, got %q, %v; by index %q, %v", c.Name, sep, want, j, err, k, err2)
				return
			}
		}
	}
	got, bad := readCSV(text)
	if bad != "" {
		t.Failf("not well-formed: %s: %q", bad, text)
		return
	}
	if d := diffRecs(want, got); d != "" {
		t.Failf("%s\n  in %q", d, text)
		return
	}
	// An ordinary reader too: it skips blank lines and turns CR LF inside quotes into LF.
	rd := csv.NewReader(strings.NewReader(text))
	all, err := rd.ReadAll()
	if err != nil {
		t.Failf("encoding/csv refuses it: %v: %q", err, text)
		return
	}
	for _, rec := range want {
		for i := range rec {
			rec[i] = strings.ReplaceAll(rec[i], "\r\n", "\n")
		}
	}
	if d := diffRecs(want, all); d != "" {
		t.Failf("read by encoding/csv: %s\n  in %q", d, text)
		return
	}
	if strings.Contains(text, `"`) {
		t.Outcome("quoted")
	} else {
		t.Outcome("plain")
	}
}

func diffRecs(want, got [][]string) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("%d records, want %d", len(got), len(want))
		}
		if len(want[i]) != len(got[i]) {
			return fmt.Sprintf("record %d: %d fields %q, want %q", i, len(got[i]), got[i], want[i])
		}
		for j := range want[i] {
			if want[i][j] != got[i][j] {
				return fmt.Sprintf("record %d field %d: %q, want %q", i, j, got[i][j], want[i][j])
			}
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("%d records, want %d", len(got), len(want))
	}
	return ""
}

var csvChars = []string{`"`, ",", "\n", "\r", " ", "a", "\t", "\u00e9", "\x80", `\`, ".", ";", "#", "\x00", "=", "'", "\u2028", "\u00a0", "\ufeff"}

func runG19(c *Ctx) {
	histories(c, c.pick(2, 2), roNamed("GetTableAsCSV", "GetTableAsCSV with headings"))
	// A. Strings: every string of up to 4 (thorough 5) awkward characters, alone in a column, and at each end of a record.
	n := len(csvChars)
	for l := 0; l <= c.pick(4, 5); l++ {
		total := 1
		for i := 0; i < l; i++ {
			total *= n
		}
		for k := 0; k < total && !c.Stopped(); k++ {
			c.Do(func() string { return fmt.Sprintf("CSV of string cells, string number %d of length %d", k, l) }, func(t *T) {
				s := ""
				for i, x := 0, k; i < l; i++ {
					s += csvChars[x%n]
					x /= n
				}
				checkCSV(t, table1("T", "s", "string", s, "", s), nil)
				if !t.Failed() {
					checkCSV(t, &MTable{Name: "T", Cols: []MCol{{"s", "string"}, {"i", "int"}, {"u", "string"}}, Rows: [][]interface{}{{s, 1, ""}, {"", 2, s}, {s, 3, s}}}, nil)
				}
				if !t.Failed() && l > 0 { // as headings
					checkCSV(t, table1("T", "s", "string", "x"), []string{s})
					if !t.Failed() {
						checkCSV(t, &MTable{Name: "T", Cols: []MCol{{"s", "string"}, {"i", "int"}}, Rows: [][]interface{}{{s, 1}}}, []string{"", s})
					}
				}
			})
		}
	}
	// B. Pairs of strings side by side and above each other.
	var two []string
	for _, a := range csvChars[:11] {
		two = append(two, a)
		for _, b := range csvChars[:11] {
			two = append(two, a+b)
		}
	}
	two = append(two, "")
	for i := range two {
		for j := range two {
			if c.Stopped() {
				return
			}
			a, b := two[i], two[j]
			c.Do(func() string { return fmt.Sprintf("CSV of neighbouring strings %q and %q", a, b) }, func(t *T) {
				checkCSV(t, &MTable{Name: "T", Cols: []MCol{{"s", "string"}, {"u", "string"}}, Rows: [][]interface{}{{a, b}, {b, a}}}, nil)
				if !t.Failed() {
					checkCSV(t, table1("T", "s", "string", a, b), nil)
				}
			})
		}
	}
	// C. Substitute headings: every list of up to 4 headings from a palette, against tables of 0 to 3 columns.
	pal := []string{"", "h", "a b", `say "x"`, "x,y", "line\nbreak", "k"}
	for cols := 0; cols <= 3; cols++ {
		m := &MTable{Name: "T"}
		for i := 0; i < cols; i++ {
			m.Cols = append(m.Cols, MCol{string(rune('a' + i)), []string{"int", "string", "float64"}[i]})
		}
		if cols > 0 {
			m.Rows = append(m.Rows, m.zeroRow())
		}
		for _, seq := range eqSeqs(len(pal), 4) {
			if c.Stopped() {
				return
			}
			var heads []string
			for _, s := range seq {
				heads = append(heads, pal[s])
			}
			c.Do(func() string { return fmt.Sprintf("CSV of %d columns with headings %q", cols, heads) }, func(t *T) { checkCSV(t, m.Clone(), heads) })
		}
	}
	// D. Every type, value, pair and triple of types, and nestings.
	universe(c, uniOpt{Types: allTypes, Nested: true, Inf: true}, func(desc func() string, s func() *MSet) {
		c.Do(desc, func(t *T) {
			for _, m := range s().Tables {
				m.Keys = nil
				t.State(m.Full())
				checkCSV(t, m, nil)
				if t.Failed() {
					return
				}
			}
		})
	})
	// E. Nothing to export.
	c.Do(func() string { return "CSV of nothing" }, func(t *T) {
		var nt *g.Table
		if _, err := nt.GetTableAsCSV(); err == nil {
			t.Failf("CSV of a nil *Table is accepted")
		}
		if _, err := g.NewNilTable().GetTableAsCSV(); err == nil {
			t.Failf("CSV of a nil table is accepted")
		}
	})
}

func init() {
	register(&Checker{
		ID:   "G19",
		Rule: "every string of up to 4 (thorough: 5) of 19 awkward characters as a lone cell, first, last and heading field; every pair of strings of up to 2 of 11 characters as neighbours; every list of up to 4 of 7 headings against 0 to 3 columns; every column type with all sequences of up to 3 boundary values, every pair and triple of types, whole-type sweeps, nestings, and the size ladders of G07. The text is read by a strict RFC 4180 reader and by encoding/csv.",
		Assumptions: []string{
			"a NaN is an empty field (comment in GetTableAsCSV); records may end in LF as well as CRLF; a table without columns has no record to check",
		},
		Run: runG19,
	})
}
