package main

// G10, GOB part: exported tables whose parts disagree. The buffers decode as GOB; the table in them is not one.

import (
	"bytes"
	"encoding/gob"
	"fmt"

	g "github.com/urban-wombat/gotables"
)

type gobKey struct {
	ColName, ColType string
	Reverse          bool
}

// gobTab has the exported fields of gotables.TableExported (GOB matches fields by name).
type gobTab struct {
	TableName   string
	ColNames    []string
	ColTypes    []string
	ColNamesMap map[string]int
	Rows        [][]interface{}
	SortKeys    []gobKey
	StructShape bool
	IsNilTable  bool
}

func gobOf(m *MTable) *gobTab {
	x := &gobTab{TableName: m.Name, ColNamesMap: map[string]int{}, StructShape: m.Struct}
	for i, c := range m.Cols {
		x.ColNames = append(x.ColNames, c.Name)
		x.ColTypes = append(x.ColTypes, c.Type)
		x.ColNamesMap[c.Name] = i
	}
	for _, r := range m.Rows {
		x.Rows = append(x.Rows, append([]interface{}{}, r...))
	}
	for _, k := range m.Keys {
		x.SortKeys = append(x.SortKeys, gobKey{k.Col, m.Cols[m.Col(k.Col)].Type, k.Rev})
	}
	return x
}

func (x *gobTab) bytes() []byte {
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(x))
	return b.Bytes()
}

type gobEdit struct {
	what string
	f    func(x *gobTab)
}

// gobEdits are the single changes that make the parts of an exported table disagree.
func gobEdits(m *MTable) (out []gobEdit) {
	add := func(f func(x *gobTab), format string, a ...interface{}) {
		out = append(out, gobEdit{fmt.Sprintf(format, a...), f})
	}
	for _, n := range []string{"1a", "a b", "a\n", "[T]"} {
		n := n
		add(func(x *gobTab) { x.TableName = n }, "table name %q", n)
	}
	for i, c := range m.Cols {
		i, c := i, c
		add(func(x *gobTab) { x.ColNames = append(x.ColNames[:i:i], x.ColNames[i+1:]...) }, "column name %d missing", i)
		add(func(x *gobTab) { x.ColTypes = append(x.ColTypes[:i:i], x.ColTypes[i+1:]...) }, "column type %d missing", i)
		add(func(x *gobTab) { delete(x.ColNamesMap, c.Name) }, "lookup of column %d missing", i)
		add(func(x *gobTab) { delete(x.ColNamesMap, c.Name); x.ColNamesMap["other"] = i }, "lookup of column %d under another name", i)
		for _, n := range []int{-1, i + 1, i - 1, len(m.Cols)} {
			n := n
			add(func(x *gobTab) { x.ColNamesMap[c.Name] = n }, "lookup of column %d says %d", i, n)
		}
		for _, n := range []string{"", "1a", "a b", "other"} {
			n := n
			add(func(x *gobTab) { x.ColNames[i] = n }, "column %d named %q", i, n)
			if n != "other" {
				add(func(x *gobTab) { x.ColNames[i] = n; delete(x.ColNamesMap, c.Name); x.ColNamesMap[n] = i }, "column %d named %q everywhere", i, n)
			}
		}
		for _, typ := range []string{"", "Int", "int128", "[]int"} {
			typ := typ
			add(func(x *gobTab) { x.ColTypes[i] = typ }, "column %d of type %q", i, typ)
		}
		for j := range m.Cols {
			j := j
			if i == j {
				continue
			}
			add(func(x *gobTab) { x.ColNames[i] = m.Cols[j].Name }, "column %d named like column %d", i, j)
			add(func(x *gobTab) { x.ColNamesMap[c.Name] = j }, "lookup of column %d says %d", i, j)
			if len(m.Rows) > 0 && goTypeOf(m.Cols[j].Type) != goTypeOf(c.Type) {
				add(func(x *gobTab) { x.ColTypes[i] = m.Cols[j].Type }, "type of column %d is that of %d", i, j)
			}
		}
	}
	add(func(x *gobTab) { x.ColNames = append(x.ColNames, "other") }, "one column name too many")
	add(func(x *gobTab) { x.ColTypes = append(x.ColTypes, "int") }, "one column type too many")
	add(func(x *gobTab) { x.ColNamesMap["other"] = len(m.Cols) }, "one lookup too many")
	for r := range m.Rows {
		r := r
		add(func(x *gobTab) { x.Rows[r] = nil }, "row %d without cells", r)
		add(func(x *gobTab) { x.Rows[r] = append(x.Rows[r], 1) }, "row %d with a cell too many", r)
		for j := range m.Cols {
			j := j
			add(func(x *gobTab) { x.Rows[r] = x.Rows[r][:j] }, "row %d with %d cells", r, j)
			for _, v := range []interface{}{1, "x", 1.5, true, []byte{1}, uint8(1), int32(1), int64(1), uint64(1), float32(1), int8(1), uint(1), uint16(1), uint32(1), int16(1), complex(1, 1), []string{"x"}, map[string]interface{}{}} {
				v := v
				if fmt.Sprintf("%T", v) == goTypeOf(m.Cols[j].Type) {
					continue
				}
				add(func(x *gobTab) { x.Rows[r][j] = v }, "cell %d of row %d is a %T", j, r, v)
			}
		}
	}
	if len(m.Cols) == 0 {
		add(func(x *gobTab) { x.Rows = [][]interface{}{{1}} }, "a row with a cell and no columns")
	}
	for _, n := range []string{"", "other", "A"} {
		n := n
		add(func(x *gobTab) { x.SortKeys = append(x.SortKeys, gobKey{n, "int", false}) }, "sort key %q", n)
	}
	return
}

func runG10GobParts(c *Ctx, fam []*MTable) {
	gob.Register([]string{})
	gob.Register(map[string]interface{}{})
	gob.Register(complex(1, 1))
	for fi, m := range fam {
		m := m
		c.Do(func() string { return fmt.Sprintf("GOB table %d rebuilt from its parts", fi) }, func(t *T) {
			checkGobBytes(t, gobOf(m).bytes())
		})
		// The edits say something only as long as the unedited parts are read as the table they came from.
		if got, err := g.NewTableFromGob(gobOf(m).bytes()); err != nil || observe(got).Full() != observe(build(m)).Full() {
			c.Do(func() string { return fmt.Sprintf("GOB table %d: not rebuilt from its parts, no edits", fi) }, func(t *T) { t.Outcome("GOB with other fields") })
			continue
		}
		for _, e := range gobEdits(m) {
			e := e
			c.Do(func() string { return fmt.Sprintf("GOB table %d: %s", fi, e.what) }, func(t *T) {
				x := gobOf(m)
				e.f(x)
				checkGobRejected(t, x.bytes())
			})
		}
	}
}

// checkGobRejected wants an error for a buffer that is GOB of a table whose parts disagree.
func checkGobRejected(t *T, b []byte) {
	t.Step(1)
	for form, f := range map[string]func([]byte) (*g.Table, error){"NewTableFromGob": g.NewTableFromGob, "GobDecodeTable": g.GobDecodeTable} {
		var got *g.Table
		err, pan := try(func() (err error) { got, err = f(b); return })
		switch {
		case pan != "":
			t.Failf("%s panics: %s", form, pan)
		case err == nil:
			t.Failf("%s accepts it: %s", form, observe(got).Full())
		}
	}
	t.Outcome("GOB with disagreeing parts rejected")
}
