//go:build verifsched || verifrace

package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// ---- operations ----

// An operation prepares its own tables (variant v), and gives what the goroutine runs and what it leaves behind.
type schedOp struct {
	name string
	prep func(v int) (run func() string, after func() string)
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

var schedNames = []string{"Alpha", "Beta_2", "G"}

// schedText is the text of a set of tables, different for every variant.
func schedText(v int) string {
	n := schedNames[v]
	switch v {
	case 0:
		return "[[SetA]]\n\n[" + n + "]\ni s f\nint string float64\n3 \"c\" 1.5\n1 \"a a\" NaN\n2 \"b\" -2\n\n[Other]\nx int = 7\nt time.Time = 2020-01-02T03:04:05Z\n"
	case 1:
		return "# comment\n[" + n + "]\nk b r\nstring []byte rune\n\"zz\" [1 2 3] 'x'\n\"y\\\"q\" [] '\\n'\n\n[Third]\nu8 bool\nuint8 bool\n255 true\n0 false\n9 true\n"
	}
	return "[" + n + "]\nt *Table = []\nn int64 = -9\n\n[Empty]\n\n[Heads]\na b c\nint8 uint16 float32\n"
}

// schedBad are texts that are refused, on different lines and for different reasons.
func schedBad(v int) string {
	return []string{
		"[T]\ni\nint\n1\n2\nx3\n",
		"\n\n# c\n[T]\ni s\nint string\n1 \"a\"\n2\n",
		"[T]\nu\nuint8\n1\n2\n3\n4\n256\n",
	}[v]
}

// schedTable is a table of every kind of column, different for every variant.
func schedTable(v int) *MTable {
	m := &MTable{Name: schedNames[v], Cols: []MCol{{"k", "int"}, {"s", "string"}, {"f", "float64"}, {"b", "bool"}, {"y", "[]byte"}, {"t", "time.Time"}}}
	for i := 0; i < 3+v; i++ {
		m.Rows = append(m.Rows, []interface{}{(i*7 + v) % 4, ordinary("string", i+v*3), ordinary("float64", i+v), (i+v)%2 == 0, ordinary("[]byte", i+v), ordinary("time.Time", i+v*2)})
	}
	return m
}

func schedSmall(v int) *MTable {
	m := &MTable{Name: schedNames[v], Cols: []MCol{{"k", "int"}, {"s", "string"}}}
	for i := 0; i < 2; i++ {
		m.Rows = append(m.Rows, []interface{}{(i + v) % 2, schedNames[v]})
	}
	return m
}

func schedNested(v int) *MTable {
	in := &MTable{Name: "in" + schedNames[v], Cols: []MCol{{"a", "int"}, {"z", "*Table"}}, Rows: [][]interface{}{{v, &MTable{Name: "Deep", Cols: []MCol{{"q", "string"}}, Rows: [][]interface{}{{"d"}}}}}}
	return &MTable{Name: schedNames[v], Cols: []MCol{{"n", "*Table"}, {"i", "int16"}}, Rows: [][]interface{}{{in, int16(v)}, {&MTable{Name: "E"}, int16(-v)}}}
}

func schedSetFor(v int) *MSet {
	n := schedNested(v)
	n.Name = "Nest"
	return &MSet{Name: "Set" + schedNames[v], Tables: []*MTable{schedTable(v), n}}
}

func noneAfter() string { return "" }

func keyed(m *MTable, keys ...MKey) *MTable { m.Keys = keys; return m }

func schedOps(scratch string) []schedOp {
	var ops []schedOp
	add := func(name string, prep func(v int) (func() string, func() string)) {
		ops = append(ops, schedOp{name, prep})
	}
	// on runs f on a table of its own and shows the table afterwards.
	on := func(name string, mk func(v int) *MTable, f func(v int, t *g.Table) string) {
		add(name, func(v int) (func() string, func() string) {
			t := build(mk(v))
			return func() string { return f(v, t) }, func() string { return observe(t).Full() }
		})
	}
	seen := func(t *g.Table, err error) string {
		if err != nil {
			return errText(err)
		}
		defer unobserved()()
		return observe(t).Full()
	}
	seenSet := func(ts *g.TableSet, err error) string {
		if err != nil {
			return errText(err)
		}
		defer unobserved()()
		return observeSet(ts).Full()
	}
	strOrErr := func(s string, err error) string { return s + " " + errText(err) }

	add("parse a table set", func(v int) (func() string, func() string) {
		txt := schedText(v)
		return func() string { return seenSet(g.NewTableSetFromString(txt)) }, noneAfter
	})
	add("parse a bad text", func(v int) (func() string, func() string) {
		txt := schedBad(v)
		return func() string { _, err := g.NewTableSetFromString(txt); return errText(err) }, noneAfter
	})
	add("parse one table", func(v int) (func() string, func() string) {
		txt := schedText(v)
		return func() string {
			return seen(g.NewTableFromStringByTableName(txt, schedNames[v])) + seen(g.NewTableFromString(txt))
		}, noneAfter
	})
	add("print a table set", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		return func() string { return ts.String() + ts.StringUnpadded() }, func() string { return observeSet(ts).Full() }
	})
	on("print a table", schedTable, func(v int, t *g.Table) string { return t.String() + t.StringUnpadded() })
	on("print nested tables", schedNested, func(v int, t *g.Table) string { return t.StringNested() })
	add("print and check a circular table", func(v int) (func() string, func() string) {
		t := build(schedNested(v))
		must(t.SetTable("n", 1, t))
		return func() string {
			has, err := t.HasCircularReference()
			_, err2 := t.IsValidTableNesting()
			js, err3 := t.GetTableAsJSON()
			return fmt.Sprint(has, errText(err), errText(err2), js, errText(err3))
		}, noneAfter
	})
	on("write JSON", schedTable, func(v int, t *g.Table) string {
		s, err := t.GetTableAsJSON()
		s2, err2 := t.GetTableAsJSONIndent()
		return strOrErr(s, err) + strOrErr(s2, err2)
	})
	add("read JSON", func(v int) (func() string, func() string) {
		s, err := buildSet(schedSetFor(v)).GetTableSetAsJSON()
		must(err)
		return func() string { return seenSet(g.NewTableSetFromJSON(s)) }, noneAfter
	})
	add("read bad JSON", func(v int) (func() string, func() string) {
		s := []string{`{"tableSetName":"","tables":[{"tableName":"T","metadata":[{"i":"int"}],"data":[[{"i":"x"}]]}]}`, `{"tableSetName":1}`, `{"tables":[{"tableName":"9","metadata":[],"data":[]}]}`}[v]
		return func() string {
			_, err := g.NewTableSetFromJSON(s)
			_, err2 := g.NewTableFromJSON(s)
			return errText(err) + errText(err2)
		}, noneAfter
	})
	add("write YAML", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		return func() string { return strOrErr(ts.GetTableSetAsYAML()) }, noneAfter
	})
	add("read YAML", func(v int) (func() string, func() string) {
		s, err := buildSet(schedSetFor(v)).GetTableSetAsYAML()
		must(err)
		return func() string { return seenSet(g.NewTableSetFromYAML(s)) }, noneAfter
	})
	on("write and read GOB", schedTable, func(v int, t *g.Table) string {
		b, err := t.GobEncode()
		if err != nil {
			return errText(err)
		}
		return seen(g.GobDecodeTable(b))
	})
	add("GOB of a table set", func(v int) (func() string, func() string) {
		ts := buildSet(&MSet{Name: "S" + schedNames[v], Tables: []*MTable{schedTable(v)}})
		return func() string {
			b, err := ts.GobEncode()
			if err != nil {
				return errText(err)
			}
			var cp []bytes.Buffer
			for i := range b {
				cp = append(cp, *bytes.NewBuffer(b[i].Bytes()))
			}
			return seenSet(g.GobDecodeTableSet(cp))
		}, noneAfter
	})
	on("write CSV", schedTable, func(v int, t *g.Table) string {
		return strOrErr(t.GetTableAsCSV()) + strOrErr(t.GetTableAsCSV("a", "b"))
	})
	on("sort", schedTable, func(v int, t *g.Table) string {
		e1 := t.SetSortKeys([]string{"k", "f", "s"}[v], "t")
		e2 := t.SetSortKeysReverse("t")
		e3 := t.Sort()
		e4 := t.Sort("nokey")
		return errText(e1) + errText(e2) + errText(e3) + errText(e4)
	})
	on("sort by columns", schedTable, func(v int, t *g.Table) string {
		return errText(t.SortSimple([]string{"k", "b", "f"}[v], "s")) + errText(t.Reverse()) + errText(t.OrderColsBySortKeys())
	})
	on("search", func(v int) *MTable { return keyed(schedTable(v), MKey{"k", false}) }, func(v int, t *g.Table) string {
		e := t.Sort()
		a, e1 := t.Search(v)
		b, e2 := t.SearchFirst(1)
		c, e3 := t.SearchLast(99)
		d, f, e4 := t.SearchRange(3)
		_, e5 := t.Search("x")
		return fmt.Sprint(a, b, c, d, f, errText(e), errText(e1), errText(e2), errText(e3), errText(e4), errText(e5))
	})
	on("unique", schedSmall, func(v int, t *g.Table) string { return seen(t.SortUnique("s", "k")) })
	add("merge", func(v int) (func() string, func() string) {
		a := build(keyed(schedSmall(v), MKey{"k", v == 1}))
		m := schedSmall((v + 1) % 3)
		m.Cols[1].Name = "f2"
		b := build(keyed(m, MKey{"k", v == 1}))
		return func() string { return seen(a.Merge(b)) }, func() string { return observe(a).Full() + observe(b).Full() }
	})
	on("copy", schedNested, func(v int, t *g.Table) string {
		return seen(t.CopyDeep()) + seen(t.NewTableFromRows("R", 0, 0)) + seen(t.NewTableFromRows("R", 1, 9))
	})
	on("copy without nesting", schedSmall, func(v int, t *g.Table) string { return seen(t.Copy()) + seen(t.CopyCols()) })
	on("edit cells", schedTable, func(v int, t *g.Table) string {
		e := []error{t.SetInt("k", 0, v+40), t.SetString("s", 1, "new"+schedNames[v]), t.SetVal("f", 2, 0.25), t.SetVal("f", 2, "x"), t.SetInt("nocol", v, 1), t.SetBool("b", 99+v, true), t.SetVal("y", 0, []byte{byte(v)}), t.SetRowCellsToZeroValue(v)}
		s, err := t.GetValAsString("t", v)
		_, err2 := t.GetInt("s", 0)
		_, err3 := t.GetFloat64("none"+schedNames[v], 0)
		r := s + errText(err) + errText(err2) + errText(err3)
		for _, x := range e {
			r += errText(x)
		}
		return r
	})
	on("edit columns", schedTable, func(v int, t *g.Table) string {
		e := []error{t.AppendCol("n"+schedNames[v], []string{"int8", "*Table", "string"}[v]), t.AppendCol("s", "int"), t.AppendCol("q", "nosuch"), t.RenameCol("k", "kk"), t.RenameCol("f", "kk"), t.DeleteCol("b"), t.DeleteCol("b" + schedNames[v]),
			t.ReorderCols("y", "s"), t.SwapCols("s", "y"), t.RenameTable("9bad"), t.SetName("Ok" + schedNames[v])}
		r := ""
		for _, x := range e {
			r += errText(x)
		}
		return r
	})
	on("edit rows", schedTable, func(v int, t *g.Table) string {
		e := []error{t.AppendRow(), t.AppendRows(v), t.DeleteRow(v), t.DeleteRows(0, 1), t.DeleteRow(77 + v), t.AppendRowsFromTable(t, 0, 0), t.ShufflePseudorandom()}
		r := ""
		for _, x := range e {
			r += errText(x)
		}
		return r
	})
	add("compare", func(v int) (func() string, func() string) {
		a, b, c := build(schedNested(v)), build(schedNested(v)), build(schedTable(v))
		s1, s2 := buildSet(schedSetFor(v)), buildSet(schedSetFor((v+1)%3))
		return func() string {
			x, e1 := a.Equals(b)
			y, e2 := a.Equals(c)
			z, e3 := s1.Equals(s2)
			return fmt.Sprint(x, errText(e1), y, errText(e2), z, errText(e3))
		}, noneAfter
	})
	add("walk", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		return func() string {
			var b strings.Builder
			err := ts.Walk(true,
				func(x *g.TableSet) error { b.WriteString(x.Name()); return nil },
				func(x *g.Table) error { b.WriteString(" " + x.Name()); return nil }, nil,
				func(walkDeep bool, c g.CellInfo) error { fmt.Fprintf(&b, " %s/%d", c.ColName, c.RowIndex); return nil })
			return b.String() + errText(err)
		}, noneAfter
	})
	add("check a table set", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		return func() string {
			ok, e1 := ts.IsValidTableSet()
			t, e2 := ts.GetTable(schedNames[v])
			_, e3 := ts.GetTable("Missing" + schedNames[v])
			e4 := ts.RenameTable(schedNames[v], "New")
			return fmt.Sprint(ok, errText(e1), t != nil, errText(e2), errText(e3), errText(e4))
		}, func() string { return observeSet(ts).Full() }
	})
	on("generate code", schedTable, func(v int, t *g.Table) string {
		a, e1 := t.GenerateTypeStruct()
		b, e2 := t.GenerateTypeStructSliceFromTable()
		return noStamp(a) + errText(e1) + noStamp(b) + errText(e2)
	})
	add("nest", func(v int) (func() string, func() string) {
		out := build(&MTable{Name: "Out", Cols: []MCol{{"k", "int"}}, Rows: [][]interface{}{{v}, {5}}, Keys: []MKey{{"k", false}}})
		in := build(&MTable{Name: "In" + schedNames[v], Cols: []MCol{{"k", "int"}, {"w", "string"}}, Rows: [][]interface{}{{5, "a"}, {v, "b"}, {v, "c"}}, Keys: []MKey{{"k", false}}})
		return func() string { return errText(out.Nest(in, "nested")) }, func() string { return observe(out).Full() + observe(in).Full() }
	})
	on("names and types", schedTable, func(v int, t *g.Table) string {
		a, e1 := g.IsValidColName([]string{"int", "9", "ok"}[v])
		b, e2 := g.IsValidColType([]string{"nosuch", "int", "[]string"}[v])
		c, e3 := g.IsValidTableName([]string{"", "T", "a b"}[v])
		d, e4 := t.ColType("zz" + schedNames[v])
		e, e5 := t.IsValidTable()
		return fmt.Sprint(a, errText(e1), b, errText(e2), c, errText(e3), d, errText(e4), e, errText(e5), g.TypesList(), g.IsNumericColType("int8"))
	})
	add("write and read files", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		f := filepath.Join(scratch, schedNames[v]+".got")
		bad := filepath.Join(scratch, schedNames[v]+".bad")
		must(os.WriteFile(bad, []byte(schedBad(v)), 0600))
		return func() string {
			e1 := ts.WriteFile(f, 0600)
			s := seenSet(g.NewTableSetFromFile(f))
			_, e2 := g.NewTableSetFromFile(bad)
			_, e3 := g.NewTableFromFile(f + "none")
			return errText(e1) + s + errText(e2) + errText(e3)
		}, func() string { b, err := os.ReadFile(f); return string(b) + errText(err) }
	})
	on("reorder columns", schedTable, func(v int, t *g.Table) string {
		names := [][]string{{"y", "s", "t", "k", "b", "f"}, {"t", "k", "f", "b", "s", "y"}, {"b", "f", "k", "y", "t", "s"}}[v]
		r := seen(t.NewTableReorderCols(names...)) + seen(t.NewTableReorderColsByColIndex(5-v, 0+v, 4, 3, 2-v, 1)) + seen(t.NewTableReorderColsByColIndex(5, 4, 3, 2, 1, 0))
		return r + errText(t.ReorderCols(names...)) + errText(t.ReorderColsByColIndex(5, 4, 3, 2, 1, 0)) + errText(t.SwapCols("s", "y")) + errText(t.SwapColsByColIndex(v, 5))
	})
	on("list columns", schedTable, func(v int, t *g.Table) string {
		a, e1 := t.JoinColVals("s", ","+schedNames[v])
		b, e2 := t.JoinColValsByColIndex(5, "|")
		d, e3 := t.GetColValsAsStrings("f")
		n, ty, e4 := t.GetColInfoAsSlices()
		return a + b + fmt.Sprint(d, n, ty) + errText(e1) + errText(e2) + errText(e3) + errText(e4) + seen(t.GetColInfoAsTable())
	})
	on("sort keys", schedTable, func(v int, t *g.Table) string {
		cols := []string{"k", "s", "f", "b", "t"}
		r := errText(t.SetSortKeys(cols[v], cols[v+1])) + errText(t.AppendSortKey(cols[v+2])) + errText(t.AppendSortKey("none"+schedNames[v])) + errText(t.SetSortKeysReverse(cols[v+1])) + errText(t.DeleteSortKey(cols[v]))
		x, err := t.CompareRows(0, 1)
		return r + fmt.Sprint(x, t.SortKeyCount()) + errText(err) + seen(t.GetSortKeysAsTable()) + errText(t.Sort())
	})
	add("take from another table", func(v int) (func() string, func() string) {
		a, b := build(schedTable(v)), build(&MTable{Name: "E" + schedNames[v]})
		return func() string {
			return errText(b.AppendColsFromTable(a)) + errText(b.AppendRowsFromTable(a, v, 2)) + errText(b.AppendRowsFromTable(a, 2, 99)) + errText(b.AppendColsFromTable(a))
		}, func() string { return observe(a).Full() + observe(b).Full() }
	})
	add("edit a table set", func(v int) (func() string, func() string) {
		ts := buildSet(schedSetFor(v))
		return func() string {
			x := build(schedSmall((v + 1) % 3))
			r := errText(ts.AppendTable(x)) + errText(ts.AppendTable(x)) + errText(ts.RenameTable("Nest", "N"+schedNames[v])) + errText(ts.DeleteTable(schedNames[v])) + errText(ts.DeleteTableByTableIndex(7))
			i, err := ts.TableIndex("N" + schedNames[v])
			return r + fmt.Sprint(i) + errText(err) + seenSet(ts.Copy())
		}, func() string { return observeSet(ts).Full() }
	})
	add("parse every type", func(v int) (func() string, func() string) {
		txt := buildSet(&MSet{Tables: []*MTable{schedWide(v, 2)}}).String()
		bad := strings.Replace(txt, "2020", "2O20", 1)
		return func() string {
			return seenSet(g.NewTableSetFromString(txt)) + seenSet(g.NewTableSetFromString(bad+"x"))
		}, noneAfter
	})
	add("merge every type", func(v int) (func() string, func() string) {
		w := schedWide(v, 3)
		m := &MTable{Name: w.Name, Cols: []MCol{{"key", "int"}}, Keys: []MKey{{"key", v == 2}}}
		for i := range w.Cols {
			if i%5 == v {
				m.Cols = append(m.Cols, w.Cols[i])
			}
		}
		for r := 0; r < 2; r++ {
			row := []interface{}{r * v % 2}
			for _, c := range m.Cols[1:] {
				row = append(row, w.Rows[r+1][w.Col(c.Name)])
			}
			m.Rows = append(m.Rows, row)
		}
		a, b := build(m), build(m)
		return func() string { return seen(a.Merge(b)) }, func() string { return observe(a).Full() + observe(b).Full() }
	})
	add("print struct shape", func(v int) (func() string, func() string) {
		m := schedWide(v, 1)
		m.Struct = true
		t := build(m)
		return func() string { s := t.String(); return s + seen(g.NewTableFromString(s)) }, func() string { return observe(t).Full() }
	})
	add("make a table from metadata", func(v int) (func() string, func() string) {
		return func() string {
			return seen(g.NewTableFromMetadata(schedNames[v], []string{"a", "b" + schedNames[v]}, []string{"int", "[]byte"})) + seen(g.NewTableFromMetadata("T", []string{"a", "a"}, []string{"int", "int"}))
		}, noneAfter
	})
	add("utilities", func(v int) (func() string, func() string) {
		return func() string {
			src, err := g.UtilFormatSource("package p" + schedNames[v] + "\nvar  x=1")
			return fmt.Sprint(g.UtilRound(1.005+float64(v), v), src) + errText(err)
		}, noneAfter
	})
	return append(ops, schedCopies()...)
}

// schedWide has every type of column which text can hold.
func schedWide(v, rows int) *MTable {
	m := wideTable(v, rows)
	for i, c := range m.Cols {
		if c.Type == "*Table" {
			m.Cols = append(m.Cols[:i], m.Cols[i+1:]...)
			for r := range m.Rows {
				m.Rows[r] = append(m.Rows[r][:i], m.Rows[r][i+1:]...)
			}
			break
		}
	}
	return m
}

// noStamp removes comments (one of them holds the time of day).
func noStamp(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "/*")
		j := strings.Index(s, "*/")
		if i < 0 || j < i {
			break
		}
		s = s[:i] + s[j+2:]
	}
	for _, l := range strings.Split(s, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		b.WriteString(l + "\n")
	}
	return b.String()
}
