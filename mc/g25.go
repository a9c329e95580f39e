package main

// G25: names and types are accepted or refused alike everywhere.

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

// validNameM is the model: letters, digits and underscores, not starting with a digit, not a type name.
func validNameM(s string) bool {
	if s == "" || isTypeM(s) {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// nameEntry introduces a name somewhere. It returns the tables that came of it, and where to find the name.
type nameEntry struct {
	where string
	text  bool                                            // the name goes through the text parser, where an invalid one can be something else altogether
	enc   bool                                            // the name goes through JSON or YAML: must be UTF-8
	quote bool                                            // as YAML, which trims quotes from types
	do    func(n string) (t *g.Table, col int, err error) // col -1: the table's own name; -2: a nested table's name in cell (0,0)
	keep  func(t *g.Table) string                         // what must stay when refused (edits only)
}

func jsonStr(s string) string { b, _ := json.Marshal(s); return string(b) }

func baseT() *g.Table {
	return build(&MTable{Name: "Base", Cols: []MCol{{"k", "int"}, {"s", "string"}}, Rows: [][]interface{}{{2, "x"}, {1, "y"}}, Keys: []MKey{{"k", false}}})
}

func tableNameEntries() (es []nameEntry) {
	add := func(where string, text, enc bool, do func(n string) (*g.Table, int, error)) {
		es = append(es, nameEntry{where: where, text: text, enc: enc, do: do})
	}
	self := func(t *g.Table, err error) (*g.Table, int, error) { return t, -1, err }
	add("IsValidTableName", false, false, func(n string) (*g.Table, int, error) {
		ok, err := g.IsValidTableName(n)
		if ok != (err == nil) {
			panic(fmt.Sprintf("IsValidTableName gives %v and error %v", ok, err))
		}
		return nil, -1, err
	})
	add("NewTable", false, false, func(n string) (*g.Table, int, error) { return self(g.NewTable(n)) })
	add("SetName", false, false, func(n string) (*g.Table, int, error) { t := baseT(); return self(t, t.SetName(n)) })
	add("SetName of a nil table", false, false, func(n string) (*g.Table, int, error) { t := g.NewNilTable(); return self(t, t.SetName(n)) })
	add("RenameTable", false, false, func(n string) (*g.Table, int, error) { t := baseT(); return self(t, t.RenameTable(n)) })
	add("TableSet.RenameTable", false, false, func(n string) (*g.Table, int, error) {
		ts, err := g.NewTableSet("S")
		must(err)
		t := baseT()
		must(ts.AppendTable(t))
		err = ts.RenameTable("Base", n)
		if err == nil {
			x, err2 := ts.GetTable(n)
			if err2 != nil || x != t {
				panic(fmt.Sprintf("not found in its set after renaming: %v", err2))
			}
		}
		return t, -1, err
	})
	add("NewTableFromMetadata", false, false, func(n string) (*g.Table, int, error) {
		return self(g.NewTableFromMetadata(n, []string{"k", "s"}, []string{"int", "string"}))
	})
	add("NewTableFromMetadata without columns", false, false, func(n string) (*g.Table, int, error) {
		return self(g.NewTableFromMetadata(n, []string{}, []string{}))
	})
	add("NewTableFromRows", false, false, func(n string) (*g.Table, int, error) { return self(baseT().NewTableFromRows(n, 0, 1)) })
	add("NewTableFromRowsBySearchRange", false, false, func(n string) (*g.Table, int, error) {
		t := baseT()
		must(t.Sort())
		return self(t.NewTableFromRowsBySearchRange(n, 2))
	})
	add("text, tabular", true, false, func(n string) (*g.Table, int, error) {
		return self(g.NewTableFromString("[" + n + "]\nk s\nint string\n1 \"x\"\n"))
	})
	add("text, struct", true, false, func(n string) (*g.Table, int, error) {
		return self(g.NewTableFromString("[" + n + "]\nk int = 1\ns string = \"x\"\n"))
	})
	add("text, no columns", true, false, func(n string) (*g.Table, int, error) { return self(g.NewTableFromString("[" + n + "]\n")) })
	add("text, second table of a set", true, false, func(n string) (*g.Table, int, error) {
		ts, err := g.NewTableSetFromString("[[Set]]\n\n[First]\nk\nint\n\n[" + n + "]\nk int\n")
		if err != nil {
			return nil, -1, err
		}
		if ts.TableCount() != 2 {
			return nil, -1, fmt.Errorf("%d tables", ts.TableCount())
		}
		return self(ts.GetTableByTableIndex(1))
	})
	add("text, nested cell", true, false, func(n string) (*g.Table, int, error) {
		t, err := g.NewTableFromString("[T]\nn k\n*Table int\n[" + n + "] 1\n")
		return t, -2, err
	})
	add("text, nested cell of a struct", true, false, func(n string) (*g.Table, int, error) {
		t, err := g.NewTableFromString("[T]\nn *Table = [" + n + "]\nk int = 1\n")
		return t, -2, err
	})
	add("JSON table", false, true, func(n string) (*g.Table, int, error) {
		return self(g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":` + jsonStr(n) + `,"isStructShape":false,"metadata":[{"k":"int"}],"data":[[{"k":1}]]}]}`))
	})
	add("JSON nested table", false, true, func(n string) (*g.Table, int, error) {
		t, err := g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":"T","isStructShape":false,"metadata":[{"n":"*Table"}],"data":[[{"n":{"tableName":` + jsonStr(n) + `,"isStructShape":false,"metadata":[{"k":"int"}],"data":[[{"k":1}]]}}]]}]}`)
		return t, -2, err
	})
	add("JSON set", false, true, func(n string) (*g.Table, int, error) {
		ts, err := g.NewTableSetFromJSON(`{"tableSetName":"","tables":[{"tableName":"First_one","isStructShape":false,"metadata":[],"data":[]},{"tableName":` + jsonStr(n) + `,"isStructShape":false,"metadata":[{"k":"int"}],"data":[[{"k":1}]]}]}`)
		if err != nil {
			return nil, -1, err
		}
		return self(ts.GetTableByTableIndex(1))
	})
	add("YAML set", false, true, func(n string) (*g.Table, int, error) {
		ts, err := g.NewTableSetFromYAML("tableSetName: \"\"\ntables:\n  - tableName: " + jsonStr(n) + "\n    isStructShape: false\n    metadata:\n      - k: int\n    data:\n      - - 1\n")
		if err != nil {
			return nil, -1, err
		}
		return self(ts.GetTableByTableIndex(0))
	})
	add("YAML nested table", false, true, func(n string) (*g.Table, int, error) {
		ts, err := g.NewTableSetFromYAML("tableSetName: \"\"\ntables:\n  - tableName: T\n    isStructShape: false\n    metadata:\n      - n: \"*Table\"\n    data:\n      - - tableName: " + jsonStr(n) + "\n          isStructShape: false\n          metadata:\n            - k: int\n          data:\n            - - 1\n")
		if err != nil {
			return nil, -1, err
		}
		t, err := ts.GetTableByTableIndex(0)
		return t, -2, err
	})
	return
}

func colNameEntries() (es []nameEntry) {
	add := func(where string, text, enc bool, col int, do func(n string) (*g.Table, error)) {
		es = append(es, nameEntry{where: where, text: text, enc: enc, do: func(n string) (*g.Table, int, error) { t, err := do(n); return t, col, err }})
	}
	add("IsValidColName", false, false, 0, func(n string) (*g.Table, error) {
		ok, err := g.IsValidColName(n)
		if ok != (err == nil) {
			panic(fmt.Sprintf("IsValidColName gives %v and error %v", ok, err))
		}
		return nil, err
	})
	add("AppendCol", false, false, 2, func(n string) (*g.Table, error) {
		t := baseT()
		must(t.RenameCol("k", "first_one"))
		must(t.RenameCol("s", "second_one"))
		return t, t.AppendCol(n, "int")
	})
	edit := func(f func(t *g.Table, n string) error) func(n string) (*g.Table, error) {
		return func(n string) (*g.Table, error) {
			t := baseT()
			must(t.RenameCol("k", "first_one"))
			must(t.RenameCol("s", "second_one"))
			return t, f(t, n)
		}
	}
	add("RenameCol", false, false, 0, edit(func(t *g.Table, n string) error { return t.RenameCol("first_one", n) }))
	add("RenameColByColIndex", false, false, 0, edit(func(t *g.Table, n string) error { return t.RenameColByColIndex(0, n) }))
	add("NewTableFromMetadata", false, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromMetadata("T", []string{n, "second_one"}, []string{"int", "string"})
	})
	add("NewTableFromMetadata, last", false, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromMetadata("T", []string{"first_one", n}, []string{"int", "string"})
	})
	add("Nest", false, false, 2, func(n string) (*g.Table, error) {
		t := baseT()
		must(t.RenameCol("k", "first_one"))
		must(t.RenameCol("s", "second_one"))
		in := build(&MTable{Name: "In", Cols: []MCol{{"first_one", "int"}, {"v", "int"}}, Rows: [][]interface{}{{1, 1}, {2, 2}}, Keys: []MKey{{"first_one", false}}})
		return t, t.Nest(in, n)
	})
	add("text, tabular", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\n" + n + " second_one\nint string\n1 \"x\"\n")
	})
	add("text, tabular, last", true, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\nfirst_one " + n + "\nint string\n1 \"x\"\n")
	})
	add("text, tabular, alone and without rows", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\n" + n + "\nint\n")
	})
	add("text, struct", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\n" + n + " int = 1\nsecond_one string = \"x\"\n")
	})
	add("text, struct, last", true, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\nfirst_one int = 1\n" + n + " string = \"x\"\n")
	})
	add("text, struct without values", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\n" + n + " int\nsecond_one string\n")
	})
	add("JSON", false, true, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":"T","isStructShape":false,"metadata":[{` + jsonStr(n) + `:"int"}],"data":[[{` + jsonStr(n) + `:1}]]}]}`)
	})
	add("JSON without rows", false, true, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":"T","isStructShape":false,"metadata":[{` + jsonStr(n) + `:"int"}],"data":[]}]}`)
	})
	add("YAML", false, true, 0, func(n string) (*g.Table, error) {
		ts, err := g.NewTableSetFromYAML("tableSetName: \"\"\ntables:\n  - tableName: T\n    isStructShape: false\n    metadata:\n      - ? " + jsonStr(n) + "\n        : int\n    data:\n      - - 1\n")
		if err != nil {
			return nil, err
		}
		return ts.GetTableByTableIndex(0)
	})
	return
}

func typeEntries() (es []nameEntry) {
	add := func(where string, text, enc bool, col int, do func(n string) (*g.Table, error)) {
		es = append(es, nameEntry{where: where, text: text, enc: enc, quote: strings.HasPrefix(where, "YAML"), do: func(n string) (*g.Table, int, error) { t, err := do(n); return t, col, err }})
	}
	add("IsValidColType", false, false, 0, func(n string) (*g.Table, error) {
		ok, err := g.IsValidColType(n)
		if ok != (err == nil) {
			panic(fmt.Sprintf("IsValidColType gives %v and error %v", ok, err))
		}
		return nil, err
	})
	add("AppendCol", false, false, 2, func(n string) (*g.Table, error) { t := baseT(); return t, t.AppendCol("new_one", n) })
	add("AppendCol, first", false, false, 0, func(n string) (*g.Table, error) {
		t, err := g.NewTable("T")
		must(err)
		return t, t.AppendCol("new_one", n)
	})
	add("NewTableFromMetadata", false, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromMetadata("T", []string{"k", "s"}, []string{n, "string"})
	})
	add("NewTableFromMetadata, last", false, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromMetadata("T", []string{"k", "s"}, []string{"int", n})
	})
	add("text, tabular", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\nk s\n" + n + " string\n")
	})
	add("text, tabular, last", true, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\nk s\nint " + n + "\n")
	})
	add("text, struct without values", true, false, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\nk " + n + "\ns string\n")
	})
	add("text, struct without values, last", true, false, 1, func(n string) (*g.Table, error) {
		return g.NewTableFromString("[T]\ns string\nk " + n + "\n")
	})
	add("text, struct", true, false, 1, func(n string) (*g.Table, error) {
		v := "1"
		switch n {
		case "string":
			v = `"x"`
		case "rune":
			v = `'x'`
		case "bool":
			v = "true"
		case "[]byte", "[]uint8":
			v = "[1 2]"
		case "*Table":
			v = "[]"
		case "time.Time":
			v = "2020-01-01T00:00:00Z"
		}
		return g.NewTableFromString("[T]\ns string = \"x\"\nk " + n + " = " + v + "\n")
	})
	add("JSON", false, true, 0, func(n string) (*g.Table, error) {
		return g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":"T","isStructShape":false,"metadata":[{"k":` + jsonStr(n) + `}],"data":[]}]}`)
	})
	add("JSON nested", false, true, 9, func(n string) (*g.Table, error) {
		t, err := g.NewTableFromJSON(`{"tableSetName":"","tables":[{"tableName":"T","isStructShape":false,"metadata":[{"n":"*Table"}],"data":[[{"n":{"tableName":"N","isStructShape":false,"metadata":[{"k":` + jsonStr(n) + `}],"data":[]}}]]}]}`)
		return t, err
	})
	add("YAML", false, true, 0, func(n string) (*g.Table, error) {
		ts, err := g.NewTableSetFromYAML("tableSetName: \"\"\ntables:\n  - tableName: T\n    isStructShape: false\n    metadata:\n      - k: " + jsonStr(n) + "\n    data: []\n")
		if err != nil {
			return nil, err
		}
		return ts.GetTableByTableIndex(0)
	})
	return
}

// allNamesValid looks at every name and type that can be reached.
func allNamesValid(m *MTable) string {
	if !(validNameM(m.Name) || m.Nil && m.Name == "") {
		return "table name " + fmt.Sprintf("%q", m.Name)
	}
	for _, c := range m.Cols {
		if !validNameM(c.Name) {
			return fmt.Sprintf("column name %q", c.Name)
		}
		if !isTypeM(c.Type) {
			return fmt.Sprintf("column type %q", c.Type)
		}
	}
	for _, r := range m.Rows {
		for _, v := range r {
			if n, ok := v.(*MTable); ok {
				if s := allNamesValid(n); s != "" {
					return s
				}
			}
		}
	}
	return ""
}

func nameCheck(t *T, kind string, e nameEntry, n string) {
	valid := validNameM(n)
	if kind == "type" {
		valid = isTypeM(n)
	}
	if e.enc && !utf8.ValidString(n) {
		return
	}
	if e.quote && strings.Contains(n, `"`) {
		return
	}
	var before string
	var tab *g.Table
	var col int
	if strings.HasPrefix(e.where, "SetName") || strings.HasPrefix(e.where, "Rename") || e.where == "TableSet.RenameTable" || strings.HasPrefix(e.where, "AppendCol") || e.where == "Nest" {
		// what the table is when the name is refused, known from a name that surely is
		x, _, err := e.do("no name")
		if err == nil {
			t.Failf("%s accepts %s %q", e.where, kind, "no name")
			return
		}
		before = observe(x).Full()
	}
	var err error
	tab, col, err = e.do(n)
	t.Step(1)
	if (err == nil) != valid {
		if !(e.text && err == nil) {
			t.Failf("%s: %s %q: error is %v, but the name is valid: %v", e.where, kind, n, err, valid)
			return
		}
	}
	if err != nil {
		t.Outcome("refused by " + e.where)
		if before != "" {
			if after := observe(tab).Full(); after != before {
				t.Failf("%s: %s %q is refused with %v but the table becomes %s (was %s)", e.where, kind, n, err, after, before)
			}
		}
		return
	}
	if strings.HasPrefix(e.where, "IsValid") {
		t.Outcome("accepted by " + e.where)
		return
	}
	m := observe(tab)
	if s := allNamesValid(m); s != "" {
		t.Failf("%s: %s %q is accepted and gives a table with %s: %s", e.where, kind, n, s, m.Full())
		return
	}
	if ok, err := tab.IsValidTable(); !ok {
		t.Failf("%s: %s %q is accepted but the table is not valid: %v", e.where, kind, n, err)
		return
	}
	if !valid {
		t.Outcome("read otherwise by " + e.where)
		return
	}
	got := ""
	switch {
	case kind == "type" && col == 9:
		in, err := tab.GetTableByColIndex(0, 0)
		must(err)
		got, _ = in.ColTypeByColIndex(0)
	case kind == "type":
		got, _ = tab.ColTypeByColIndex(col)
	case col == -1:
		got = tab.Name()
	case col == -2:
		in, err := tab.GetTableByColIndex(0, 0)
		must(err)
		got = in.Name()
	default:
		got, _ = tab.ColNameByColIndex(col)
		if i, err := tab.ColIndex(n); err != nil || i != col {
			t.Failf("%s: column %q is not found by its name: %d, %v", e.where, n, i, err)
			return
		}
	}
	if got != n {
		t.Failf("%s: %s %q became %q", e.where, kind, n, got)
		return
	}
	t.Outcome("accepted by " + e.where)
}

// nameUnits are the single chars of enumerated names: every ASCII char and some others, invalid UTF-8 included.
func nameUnits() (u []string) {
	for c := 0; c < 128; c++ {
		u = append(u, string(rune(c)))
	}
	return append(u, "\x80", "\xc3", "\xff", "\u00e9", "\u754c", "\u212a", "\u017f", "\uff11", "\u0660", "\u00a0", "\u2028", "\ufeff", "\u00aa", "\U0001d7d8", "\u203f")
}

func nearTypes(thorough bool) (l []string) {
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	chars := "abtz08_ *[].TI"
	if thorough {
		chars = ""
		for c := 32; c < 127; c++ {
			chars += string(rune(c))
		}
	}
	for _, ty := range allTypes {
		add(ty)
		add(strings.ToUpper(ty))
		add(strings.Title(ty))
		add(ty + ty)
		for _, p := range []string{"[]", "*", "**", "[2]", "gotables.", " ", "\t", "&", "map[string]", "chan ", "...", "\""} {
			add(p + ty)
		}
		for _, p := range []string{"[]", "*", " ", "\t", "\n", "\x00", ".Time", "{}", "\""} {
			add(ty + p)
		}
		for i := 0; i <= len(ty); i++ {
			if i < len(ty) {
				add(ty[:i] + ty[i+1:])
				add(ty[:i] + string(ty[i]^0x20) + ty[i+1:])
				add(ty[i:])
				add(ty[:i])
				if i+1 < len(ty) {
					add(ty[:i] + string(ty[i+1]) + string(ty[i]) + ty[i+2:])
				}
			}
			for _, c := range chars {
				add(ty[:i] + string(c) + ty[i:])
				if i < len(ty) {
					add(ty[:i] + string(c) + ty[i+1:])
				}
			}
		}
	}
	for _, s := range []string{"float", "complex64", "complex128", "uintptr", "error", "any", "interface{}", "[]int", "[]string", "[]rune", "*gotables.Table", "gotables.Table", "Table", "TableSet", "*TableSet", "Time", "time",
		"time.Duration", "int128", "uint128", "float16", "double", "char", "number", "object", "array", "null", "nil", "true", "struct", "func", "map", "date", "text", "[]byte[]", "[] byte", "[ ]byte"} {
		add(s)
	}
	return
}

func init() {
	register(&Checker{
		ID: "G25",
		Rule: "Names: every string of up to 2 chars over all 128 ASCII chars and 15 others (non-ASCII letters and digits, spaces, invalid UTF-8), every string of 3 (thorough 4) chars over 16 (thorough 12) telling ones, " +
			"Go keywords, all type names and all their single edits (insert, delete, replace, swap, change case), very long names; each through every entry point: 21 for table names, 16 for column names, " +
			"13 for types (checks, constructors, renames, append, nest, extracts, text in both forms, nested cells, JSON, YAML, nested in them). Oracle: accepted if and only if the model grammar accepts " +
			"(text: an invalid name may be read as something else, all of whose names are valid), kept unchanged, found by lookup, table valid; when refused, an edited table is unchanged.",
		Assumptions: []string{"table set names have no validity check in the API and are not covered", "in YAML a type name may be inside quotes"},
		Run: func(c *Ctx) {
			tn, cn, ty := tableNameEntries(), colNameEntries(), typeEntries()
			do := func(n string) {
				c.Do(func() string { return fmt.Sprintf("name %q everywhere", clip(n, 200)) }, func(t *T) {
					t.State(n)
					for _, e := range tn {
						if !t.Failed() {
							nameCheck(t, "table name", e, n)
						}
					}
					for _, e := range cn {
						if !t.Failed() {
							nameCheck(t, "column name", e, n)
						}
					}
					for _, e := range ty {
						if !t.Failed() {
							nameCheck(t, "type", e, n)
						}
					}
					known := false
					for _, x := range allTypes {
						known = known || x == n
					}
					slice, table := n == "[]byte" || n == "[]uint8", n == "*Table"
					numeric := known && !slice && !table && n != "bool" && n != "string" && n != "time.Time" && n != "rune"
					if a, b, c := g.IsNumericColType(n), g.IsSliceColType(n), g.IsTableColType(n); !t.Failed() && known && (a != numeric || b != slice || c != table) {
						t.Failf("type %q: numeric %v, slice %v, table %v, want %v %v %v", n, a, b, c, numeric, slice, table)
					}
				})
			}
			c.Do(func() string { return "TypesList()" }, func(t *T) {
				want := append([]string{}, allTypes...)
				sort.Strings(want)
				if got := g.TypesList(); got != strings.Join(want, " ") {
					t.Failf("%q, want %q", got, strings.Join(want, " "))
				}
			})
			units := nameUnits()
			do("")
			for _, a := range units {
				do(a)
				for _, b := range units {
					do(a + b)
				}
				if c.Stopped() {
					return
				}
			}
			few := []string{"a", "Z", "_", "0", "9", " ", "-", ".", "[", "]", "\u00e9", "=", "#", "\n", "*", "\""}
			n := 3
			if c.Thorough {
				few = few[:12]
				n = 4
			}
			var rec func(s string, k int)
			rec = func(s string, k int) {
				if k == 0 {
					do(s)
					return
				}
				for _, f := range few {
					if c.Stopped() {
						return
					}
					rec(s+f, k-1)
				}
			}
			rec("", n)
			for _, k := range nearTypes(c.Thorough) {
				do(k)
				do("x" + k)
				do(k + "_x")
			}
			for _, k := range append(append([]string{}, goKeywords...), genNames...) {
				do(k)
			}
			for _, l := range []int{10, 100, 1000, 70000} {
				s := strings.Repeat("aZ_9", l/4)
				do(s)
				do("_" + s + "\u00e9")
				do(s + "-")
				do("9" + s)
			}
		},
	})
}
