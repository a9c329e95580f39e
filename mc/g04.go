package main

import (
	"fmt"

	g "github.com/urban-wombat/gotables"
)

func init() {
	register(&Checker{
		ID: "G04",
		Rule: "Every table set of the bounded universe (one column per type with all sequences of 0..3 boundary values (thorough 4); all ordered type pairs with all pairs of boundary values; " +
			"all ordered type triples with 0..2 rows; all sequences of 0..3 tables (thorough 5) from a palette with 3 set names; all strings of 0..2 (thorough 3) awkward characters and of 1..4 (5) layout characters; whole-type sweeps of 8/16-bit integers, " +
			"runes (thorough: every code point), powers of two and all float exponents, times over years, offsets and fraction lengths; sizes one dimension at a time as in G07) is printed padded and unpadded, parsed, and compared cell by cell with the model, as a set and table by table. " +
			"A case is distinct by its model state.",
		Assumptions: []string{"rune cells hold Unicode code points, times have years 1..9999 and whole-minute offsets (nothing else has a literal)", "tables without columns have no rows"},
		Run:         runG04,
	})
}

func sameData(got, want *MTable) string {
	if got.Data() == want.Data() {
		return ""
	}
	// point at the first difference
	if got.Name != want.Name {
		return fmt.Sprintf("table name %q, want %q", got.Name, want.Name)
	}
	if len(got.Cols) != len(want.Cols) {
		return fmt.Sprintf("%d cols, want %d", len(got.Cols), len(want.Cols))
	}
	for i := range got.Cols {
		if got.Cols[i] != want.Cols[i] {
			return fmt.Sprintf("col %v, want %v", got.Cols[i], want.Cols[i])
		}
	}
	if len(got.Rows) != len(want.Rows) {
		return fmt.Sprintf("%d rows, want %d", len(got.Rows), len(want.Rows))
	}
	for r := range got.Rows {
		for j := range got.Rows[r] {
			if a, b := val(got.Rows[r][j]), val(want.Rows[r][j]); a != b {
				return fmt.Sprintf("cell [%s][%d] is %s, want %s", want.Cols[j].Name, r, a, b)
			}
		}
	}
	return "differs: " + got.Data() + ", want " + want.Data()
}

func sameSet(got, want *MSet) string {
	if got.Name != want.Name {
		return fmt.Sprintf("set name %q, want %q", got.Name, want.Name)
	}
	if len(got.Tables) != len(want.Tables) {
		return fmt.Sprintf("%d tables, want %d", len(got.Tables), len(want.Tables))
	}
	for i := range want.Tables {
		if d := sameData(got.Tables[i], want.Tables[i]); d != "" {
			return fmt.Sprintf("table %d: %s", i, d)
		}
	}
	return ""
}

// textRoundTrip checks the set's and every table's text forms.
func textRoundTrip(t *T, m *MSet, after func(form string, got *g.TableSet)) {
	ts := buildSet(m)
	t.State(m.Full())
	forms := map[string]func() string{"StringPadded": ts.StringPadded, "StringUnpadded": ts.StringUnpadded, "String": ts.String}
	for _, form := range []string{"StringPadded", "StringUnpadded", "String"} {
		text := forms[form]()
		t.Step(2)
		got, err := g.NewTableSetFromString(text)
		if err != nil {
			t.Failf("TableSet.%s() does not parse: %v\n%s", form, err, clip(text, 700))
			return
		}
		if d := sameSet(observeSet(got), m); d != "" {
			t.Failf("TableSet.%s() parses to a different set: %s\n%s", form, d, clip(text, 700))
			return
		}
		if ok, err := got.IsValidTableSet(); !ok || err != nil {
			t.Failf("parsed set is not valid: %v", err)
			return
		}
		if after != nil {
			after(form, got)
		}
	}
	for i, mt := range m.Tables {
		if i > 20 && i < len(m.Tables)-3 && i&(i-1) != 0 {
			continue // in a large set, each reading costs all of it
		}
		tab, err := ts.GetTableByTableIndex(i)
		must(err)
		tforms := map[string]func() string{"StringPadded": tab.StringPadded, "StringUnpadded": tab.StringUnpadded, "String": tab.String}
		for _, form := range []string{"StringPadded", "StringUnpadded", "String"} {
			text := tforms[form]()
			t.Step(2)
			got, err := g.NewTableFromString(text)
			if err != nil {
				t.Failf("Table.%s() does not parse: %v\n%s", form, err, clip(text, 700))
				return
			}
			if d := sameData(observe(got), mt); d != "" {
				t.Failf("Table.%s() parses to a different table: %s\n%s", form, d, clip(text, 700))
				return
			}
		}
		got, err := g.NewTableFromStringByTableName(ts.String(), mt.Name)
		t.Step(1)
		if err != nil {
			t.Failf("NewTableFromStringByTableName(%q): %v", mt.Name, err)
			return
		}
		if d := sameData(observe(got), mt); d != "" {
			t.Failf("NewTableFromStringByTableName(%q): %s", mt.Name, d)
			return
		}
		got, err = g.NewTableFromStringByTableIndex(ts.String(), i)
		t.Step(1)
		if err != nil {
			t.Failf("NewTableFromStringByTableIndex(%d): %v", i, err)
			return
		}
		if d := sameData(observe(got), mt); d != "" {
			t.Failf("NewTableFromStringByTableIndex(%d): %s", i, d)
			return
		}
	}
	// the readers of one table
	text := ts.String()
	one, err := g.NewTableFromString(text)
	var made *g.Table
	_, p := try(func() error { made = g.NewTableFromStringMustMake(text); return nil })
	t.Step(2)
	if (err == nil) != (len(m.Tables) == 1) || (p == "") != (err == nil) || (one != nil) != (err == nil) {
		t.Failf("NewTableFromString of %d tables: %v; MustMake: panic %q", len(m.Tables), err, p)
		return
	}
	if err == nil {
		if d := sameData(observe(made), m.Tables[0]); d != "" {
			t.Failf("NewTableFromStringMustMake: %s", d)
			return
		}
	}
	for _, i := range []int{-1, len(m.Tables)} {
		if x, err := g.NewTableFromStringByTableIndex(text, i); err == nil || x != nil {
			t.Failf("NewTableFromStringByTableIndex(%d) of %d tables finds something", i, len(m.Tables))
			return
		}
	}
	if x, err := g.NewTableFromStringByTableName(text, "NoSuchTable"); err == nil || x != nil {
		t.Failf("NewTableFromStringByTableName of an unknown table finds something")
	}
}

func runG04(c *Ctx) {
	// The library takes any text as the name of a table set, but the text form has room for names only.
	for _, name := range []string{"two words", "1st", "a]]\n[U]\n#"} {
		name := name
		c.Do(func() string { return fmt.Sprintf("a table set named %q", name) }, func(t *T) {
			ts, err := g.NewTableSet(name)
			if err != nil || ts.SetName(name) != nil {
				t.Outcome("refused")
				return
			}
			must(ts.Append(build(table1("T", "v", "int", 1))))
			for i, text := range []string{ts.String(), ts.StringUnpadded()} {
				got, err := g.NewTableSetFromString(text)
				t.Step(1)
				if err != nil || got.Name() != name || got.TableCount() != 1 {
					t.Key("the text of a table set named %q", name)
					t.Failf("a table set named %q is accepted, but its text (form %d) is not read back: %v\n%s", name, i, err, text)
					return
				}
			}
		})
	}
	histories(c, c.pick(2, 3), roNamed("String", "StringPadded", "StringUnpadded", "fmt %v %s %+v", "set.String", "set.StringUnpadded"))
	universe(c, uniOpt{Types: plainTypes, Inf: true, Struct: false}, func(desc func() string, mk func() *MSet) {
		c.Do(desc, func(t *T) { textRoundTrip(t, mk(), nil) })
	})
}
