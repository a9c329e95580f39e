package main

import (
	"encoding/json"
	"fmt"
	"unicode/utf8"

	g "github.com/urban-wombat/gotables"
)

const uniRule = "one column per type with all sequences of 0..3 boundary values (thorough 4); all ordered type pairs with all pairs of boundary values; all ordered type triples with 0..2 rows; " +
	"all sequences of 0..3 tables (thorough 5) from a palette with 3 set names, and 8000 other set names; all strings of 0..2 (thorough 3) awkward characters and of 1..4 (5) layout characters; whole-type sweeps of 8/16-bit integers, runes, powers of two, float exponents, times; " +
	"every number of rows up to 64 (thorough 300) and around the powers of two up to 1100 (10000), of columns up to 64 (300) and around 300 (1100), of tables in a set likewise, strings of 12 patterns of every length up to 100 (300) and around the powers of two up to 5000, three of them 70000 (1 MB), byte slices up to 5000 (70000), nestings up to 66 (102) deep"

func init() {
	register(&Checker{
		ID: "G07",
		Rule: "Every table set of the bounded universe (" + uniRule + "; nestings of *Table cells three deep with every type at the leaves; nested tables named like their outer table, column-less and struct-shaped) is exported as JSON, plain and indented, per set and per table; " +
			"encoding/json decides validity; the import is compared with the model cell by cell, including nested tables and struct shape. A set with a string that is not UTF-8 must be refused by the export.",
		Assumptions: []string{"rune cells hold Unicode code points, times have years 1..9999 and whole-minute offsets", "tables without columns have no rows"},
		Run: func(c *Ctx) {
			histories(c, c.pick(1, 2), roNamed("GetTableAsJSON", "GetTableAsJSONIndent", "set.GetTableSetAsJSON", "set.GetTableSetAsJSONIndent"))
			universe(c, uniOpt{Types: allTypes, Nested: true, Inf: true, Struct: true, SetNames: true}, func(desc func() string, mk func() *MSet) {
				c.Do(desc, func(t *T) { jsonRoundTrip(t, mk()) })
			})
			for _, sn := range []string{"\xff", "a\xc3", "\xed\xa0\x80b"} {
				m := &MSet{Name: sn, Tables: []*MTable{table1("T", "v", "int", 1)}}
				c.Do(func() string { return fmt.Sprintf("set named %q", m.Name) }, func(t *T) { jsonRoundTrip(t, m) })
			}
		},
	})
	register(&Checker{
		ID: "G08",
		Rule: "Every table set of the bounded universe (" + uniRule + "; nestings of *Table cells three deep with every type at the leaves; nested tables named like their outer table, column-less and struct-shaped) is exported as YAML and imported again; " +
			"the import is compared with the model cell by cell (-0 counting as 0), including nested tables and struct shape, and the exported map form must agree with a second export.",
		Assumptions: []string{"times have years 1..9999 and whole-minute offsets", "tables without columns have no rows", "gopkg.in/yaml.v3 as vendored in the module cache is trusted as YAML codec"},
		Run: func(c *Ctx) {
			histories(c, c.pick(1, 2), roNamed("set.GetTableSetAsYAML", "set.GetTableSetAsMap"))
			universe(c, uniOpt{Types: allTypes, Nested: true, Inf: true, Struct: true, SetNames: true}, func(desc func() string, mk func() *MSet) {
				c.Do(desc, func(t *T) { yamlRoundTrip(t, mk()) })
			})
		},
	})
	register(&Checker{
		ID: "G09",
		Rule: "Every table set of the bounded universe (" + uniRule + ", without time and nested tables; struct-shaped tables; tables with sort keys; every list of up to 4 keys in which columns repeat; every three tables with and without columns in either shape) and every sort-key list of up to 3 keys with all reversals over 3 sortable columns of every type " +
			"is encoded to GOB and decoded twice from the same bytes, per set and per table, with file names; the result is compared with the model including sort keys and struct shape, and both must then sort alike.",
		Assumptions: []string{"time and nested-table columns are documented as unsupported: they must be refused with an error", "encoding/gob is trusted as codec"},
		Run:         runG09,
	})
}

// structSame compares the struct-shape marks at every nesting level.
func structSame(got, want *MTable) string {
	if got.Struct != want.Struct {
		return fmt.Sprintf("table [%s] struct shape is %v, want %v", want.Name, got.Struct, want.Struct)
	}
	for r := range want.Rows {
		for j, v := range want.Rows[r] {
			if w, ok := v.(*MTable); ok {
				if d := structSame(got.Rows[r][j].(*MTable), w); d != "" {
					return d
				}
			}
		}
	}
	return ""
}

func sameSetShape(got, want *MSet) string {
	if d := sameSet(got, want); d != "" {
		return d
	}
	for i := range want.Tables {
		if d := structSame(got.Tables[i], want.Tables[i]); d != "" {
			return d
		}
	}
	return ""
}

func hasInvalidUTF8(m *MTable) bool {
	for _, r := range m.Rows {
		for _, v := range r {
			switch x := v.(type) {
			case string:
				if !utf8.ValidString(x) {
					return true
				}
			case *MTable:
				if hasInvalidUTF8(x) {
					return true
				}
			}
		}
	}
	return false
}

func jsonRoundTrip(t *T, m *MSet) {
	ts := buildSet(m)
	t.State(m.Full())
	anyBad := !utf8.ValidString(m.Name)
	for i, mt := range m.Tables {
		tab, err := ts.GetTableByTableIndex(i)
		must(err)
		bad := hasInvalidUTF8(mt)
		anyBad = anyBad || bad
		for form, f := range map[string]func() (string, error){"GetTableAsJSON": tab.GetTableAsJSON, "GetTableAsJSONIndent": tab.GetTableAsJSONIndent} {
			text, err := f()
			t.Step(2)
			if bad {
				if err == nil {
					t.Failf("%s() accepts a string that is not UTF-8: %s", form, clip(text, 500))
					return
				}
				t.Outcome("refused: not UTF-8")
				continue
			}
			if err != nil {
				t.Failf("%s(): %v", form, err)
				return
			}
			if !json.Valid([]byte(text)) {
				t.Failf("%s() is not valid JSON: %s", form, clip(text, 500))
				return
			}
			got, err := g.NewTableFromJSON(text)
			if err != nil {
				t.Failf("NewTableFromJSON(%s()): %v\n%s", form, err, clip(text, 500))
				return
			}
			o := observe(got)
			if d := sameData(o, mt); d != "" {
				t.Failf("NewTableFromJSON(%s()) differs: %s\n%s", form, d, clip(text, 500))
				return
			}
			if d := structSame(o, mt); d != "" {
				t.Failf("NewTableFromJSON(%s()) differs: %s\n%s", form, d, clip(text, 500))
				return
			}
			if ok, err := got.IsValidTable(); !ok || err != nil {
				t.Failf("imported table is not valid: %v", err)
				return
			}
		}
	}
	for form, f := range map[string]func() (string, error){"GetTableSetAsJSON": ts.GetTableSetAsJSON, "GetTableSetAsJSONIndent": ts.GetTableSetAsJSONIndent} {
		text, err := f()
		t.Step(2)
		if anyBad {
			if err == nil {
				t.Failf("%s() accepts a string that is not UTF-8: %s", form, clip(text, 500))
				return
			}
			continue
		}
		if err != nil {
			t.Failf("%s(): %v", form, err)
			return
		}
		if !json.Valid([]byte(text)) {
			t.Failf("%s() is not valid JSON: %s", form, clip(text, 500))
			return
		}
		got, err := g.NewTableSetFromJSON(text)
		if err != nil {
			t.Failf("NewTableSetFromJSON(%s()): %v\n%s", form, err, clip(text, 500))
			return
		}
		if d := sameSetShape(observeSet(got), m); d != "" {
			t.Failf("NewTableSetFromJSON(%s()) differs: %s\n%s", form, d, clip(text, 500))
			return
		}
		for _, mt := range m.Tables {
			one, err := g.NewTableFromJSONByTableName(text, mt.Name)
			t.Step(1)
			if err != nil {
				t.Failf("NewTableFromJSONByTableName(%q): %v", mt.Name, err)
				return
			}
			if d := sameData(observe(one), mt); d != "" {
				t.Failf("NewTableFromJSONByTableName(%q): %s", mt.Name, d)
				return
			}
		}
		if _, err := g.NewTableFromJSONByTableName(text, "NoSuchTable"); err == nil {
			t.Failf("NewTableFromJSONByTableName of an unknown table gives no error")
			return
		}
	}
	t.Outcome("round trip")
}

func yamlRoundTrip(t *T, m *MSet) {
	ts := buildSet(m)
	t.State(m.Full())
	text, err := ts.GetTableSetAsYAML()
	t.Step(2)
	if err != nil {
		t.Failf("GetTableSetAsYAML(): %v", err)
		return
	}
	got, err := g.NewTableSetFromYAML(text)
	if err != nil {
		t.Failf("NewTableSetFromYAML(): %v\n%s", err, clip(text, 700))
		return
	}
	if d := sameSetShape(plainZeros(observeSet(got)), plainZeros(m)); d != "" {
		t.Failf("NewTableSetFromYAML() differs: %s\n%s", d, clip(text, 700))
		return
	}
	if ok, err := got.IsValidTableSet(); !ok || err != nil {
		t.Failf("imported set is not valid: %v", err)
		return
	}
	again, err := buildSet(plainZeros(m)).GetTableSetAsYAML()
	t.Step(1)
	var again2 string
	if err == nil {
		again2, err = got.GetTableSetAsYAML()
	}
	if err != nil || again != again2 {
		t.Failf("second export differs (error %v):\n%s\n----\n%s", err, clip(again, 300), clip(again2, 300))
		return
	}
	mp, err := ts.GetTableSetAsMap()
	if err != nil || mp["tableSetName"] != m.Name {
		t.Failf("GetTableSetAsMap(): %v, %v", mp["tableSetName"], err)
	}
	t.Outcome("round trip")
}

// plainZeros replaces -0 by 0: YAML has no negative zero integer, and -0 equals 0.
func plainZeros(s *MSet) *MSet {
	n := &MSet{Name: s.Name}
	for _, t := range s.Tables {
		n.Tables = append(n.Tables, plainZerosT(t))
	}
	return n
}

func plainZerosT(t *MTable) *MTable {
	n := t.Clone()
	for _, r := range n.Rows {
		for j, v := range r {
			switch x := v.(type) {
			case float32:
				if x == 0 {
					r[j] = float32(0)
				}
			case float64:
				if x == 0 {
					r[j] = float64(0)
				}
			case *MTable:
				r[j] = plainZerosT(x)
			}
		}
	}
	return n
}

func hasTypes(m *MTable, types ...string) bool {
	for _, c := range m.Cols {
		for _, ty := range types {
			if c.Type == ty {
				return true
			}
		}
	}
	return false
}

func gobRoundTrip(t *T, m *MSet) {
	ts := buildSet(m)
	t.State(m.Full())
	unsupported := false
	for i, mt := range m.Tables {
		tab, err := ts.GetTableByTableIndex(i)
		must(err)
		b, err := tab.GobEncode()
		t.Step(2)
		if len(mt.Rows) > 0 && hasTypes(mt, "time.Time", "*Table") {
			unsupported = true
			if err == nil {
				// The limitation is documented; if it is lifted, the round trip must hold.
				if got, err := g.NewTableFromGob(b); err == nil {
					if o := observe(got); o.Full() != mt.Full() {
						t.Failf("GOB accepts an unsupported type and returns %s, want %s", o.Full(), mt.Full())
						return
					}
				}
			}
			continue
		}
		if err != nil {
			t.Failf("GobEncode(): %v", err)
			return
		}
		for form, f := range map[string]func([]byte) (*g.Table, error){"NewTableFromGob": g.NewTableFromGob, "GobDecodeTable": g.GobDecodeTable} {
			got, err := f(append([]byte{}, b...))
			if err != nil {
				t.Failf("%s(): %v", form, err)
				return
			}
			o := observe(got)
			if d := sameData(o, mt); d != "" {
				t.Failf("%s(): %s", form, d)
				return
			}
			if o.Full() != mt.Full() {
				t.Failf("%s(): sort keys or struct shape differ: %s, want %s", form, o.Full(), mt.Full())
				return
			}
			if ok, err := got.IsValidTable(); !ok || err != nil {
				t.Failf("decoded table is not valid: %v", err)
				return
			}
			if err := lookupsAgree(got, mt, []string{"zz"}); err != nil {
				t.Failf("decoded table: %v", err)
				return
			}
			// The keys must work: sort both.
			if len(mt.Keys) > 0 {
				orig := build(mt)
				e1, e2 := orig.Sort(), got.Sort()
				t.Step(2)
				if (e1 == nil) != (e2 == nil) {
					t.Failf("Sort() after decoding: %v, before: %v", e2, e1)
					return
				}
				if e1 == nil && strictlyOrderable(mt) && observe(orig).Full() != observe(got).Full() {
					t.Failf("the decoded table sorts differently: %s, want %s", observe(got).Full(), observe(orig).Full())
					return
				}
			}
		}
	}
	bufs, err := ts.GobEncode()
	t.Step(2)
	if unsupported {
		t.Outcome("unsupported type")
		return
	}
	if err != nil {
		t.Failf("TableSet.GobEncode(): %v", err)
		return
	}
	got, err := g.NewTableSetFromGob(bufs)
	if err != nil {
		t.Failf("NewTableSetFromGob(): %v", err)
		return
	}
	o := observeSet(got)
	if d := sameSet(o, m); d != "" {
		t.Failf("NewTableSetFromGob(): %s", d)
		return
	}
	if o.Full() != m.Full() {
		t.Failf("NewTableSetFromGob(): %s, want %s", o.Full(), m.Full())
		return
	}
	for _, name := range []string{"", "f.got", "dir/a b"} {
		ts.SetFileName(name)
		bufs, err := ts.GobEncode()
		if err != nil {
			t.Failf("TableSet.GobEncode() with file name %q: %v", name, err)
			return
		}
		for i := 1; i <= 2; i++ {
			again, err := g.GobDecodeTableSet(bufs)
			t.Step(1)
			if err != nil {
				t.Failf("GobDecodeTableSet() of the same buffers, time %d: %v", i, err)
				return
			}
			if o := observeSet(again); o.Full() != m.Full() || again.FileName() != name {
				t.Failf("GobDecodeTableSet() of the same buffers, time %d: file name %q, want %q; %s", i, again.FileName(), name, o.Full())
				return
			}
		}
	}
	t.Outcome("round trip")
}

func runG09(c *Ctx) {
	histories(c, c.pick(1, 2), gobOp())
	types := []string{}
	for _, ty := range allTypes {
		if ty != "time.Time" && ty != "*Table" {
			types = append(types, ty)
		}
	}
	universe(c, uniOpt{Types: types, Inf: true, Struct: true, Keys: true, SetNames: true}, func(desc func() string, mk func() *MSet) {
		c.Do(desc, func(t *T) { gobRoundTrip(t, mk()) })
	})
	// Sort keys: every list of 1..3 keys (repeats excluded) with all reversals, over three columns of every sortable type.
	for _, ty := range sortableTypes {
		for _, ty2 := range sortableTypes {
			for l := 1; l <= 3; l++ {
				for _, p := range perms(3) {
					for rev := 0; rev < 1<<l; rev++ {
						if c.Stopped() {
							return
						}
						mk := func() *MSet {
							m := &MTable{Name: "T", Struct: rev == 1, Cols: []MCol{{"a", ty}, {"b", ty2}, {"c", "int"}}}
							for r := 0; r < 3; r++ {
								m.Rows = append(m.Rows, []interface{}{ordinary(ty, (r*2)%3), ordinary(ty2, r%2), 7 - r})
							}
							for k := 0; k < l; k++ {
								m.Keys = append(m.Keys, MKey{m.Cols[p[k]].Name, rev&(1<<k) != 0})
							}
							return &MSet{Name: "S", Tables: []*MTable{m, {Name: "U"}}}
						}
						c.Do(func() string { return "keys " + mk().Full() }, func(t *T) { gobRoundTrip(t, mk()) })
					}
				}
			}
		}
	}
	// A column listed twice among the keys, the second time in either direction.
	for l := 2; l <= 4; l++ {
		seqs(4, l, func(s []int) bool {
			mk := func() *MSet {
				m := &MTable{Name: "T", Cols: []MCol{{"a", "int"}, {"b", "string"}}}
				for r := 0; r < 3; r++ {
					m.Rows = append(m.Rows, []interface{}{(r * 2) % 3, fmt.Sprint(r)})
				}
				for _, x := range s {
					n := "ab"[x/2 : x/2+1]
					// Reversing a key reverses every listing of it so far.
					if x%2 == 1 {
						for i := range m.Keys {
							if m.Keys[i].Col == n {
								m.Keys[i].Rev = true
							}
						}
					}
					m.Keys = append(m.Keys, MKey{n, x%2 == 1})
				}
				return oneSet(m)
			}
			c.Do(func() string { return "keys listed twice " + mk().Full() }, func(t *T) { gobRoundTrip(t, mk()) })
			return !c.Stopped()
		})
	}
	// Tables without columns, in struct shape and not, among others.
	seqs(4, 3, func(s []int) bool {
		mk := func() *MSet {
			set := &MSet{Name: "S"}
			for i, x := range s {
				m := &MTable{Name: fmt.Sprint("T", i), Struct: x%2 == 1}
				if x >= 2 {
					m.Cols = []MCol{{"a", "int"}}
					m.Rows = [][]interface{}{{i + 5}}
				}
				set.Tables = append(set.Tables, m)
			}
			return set
		}
		c.Do(func() string { return "shapes " + mk().Full() }, func(t *T) { gobRoundTrip(t, mk()) })
		return !c.Stopped()
	})
	// Unsupported types must be refused, not damaged.
	for _, ty := range []string{"time.Time", "*Table"} {
		for _, v := range domain(ty) {
			mk := func() *MSet { return oneSet(table1("T", "c", ty, fresh(v))) }
			c.Do(func() string { return "unsupported " + mk().Full() }, func(t *T) { gobRoundTrip(t, mk()) })
		}
	}
}
