package main

// The reference model: a plain grid, and the bridge to the implementation through its public API.

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	g "github.com/urban-wombat/gotables"
)

type MCol struct{ Name, Type string }
type MKey struct {
	Col string
	Rev bool
}
type MTable struct {
	Name   string
	Cols   []MCol
	Rows   [][]interface{}
	Keys   []MKey
	Struct bool
	Nil    bool // an unnamed placeholder table
}
type MSet struct {
	Name   string
	Tables []*MTable
}

var allTypes = []string{"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "rune", "int64", "int8",
	"string", "uint", "uint16", "uint32", "uint64", "uint8", "*Table", "time.Time"}

var sortableTypes = []string{"bool", "float32", "float64", "int", "int16", "int32", "int64", "int8", "string", "uint", "uint16", "uint32", "uint64", "uint8"}

// goTypeOf maps a column type to the Go type it stores.
func goTypeOf(colType string) string {
	switch colType {
	case "[]byte":
		return "[]uint8"
	case "byte":
		return "uint8"
	case "rune":
		return "int32"
	}
	return colType
}

func sameStorage(a, b string) bool { return goTypeOf(a) == goTypeOf(b) }

func zeroOf(colType string) interface{} {
	switch colType {
	case "[]byte", "[]uint8":
		return []byte{}
	case "bool":
		return false
	case "byte", "uint8":
		return uint8(0)
	case "float32":
		return float32(0)
	case "float64":
		return float64(0)
	case "int":
		return int(0)
	case "int16":
		return int16(0)
	case "int32", "rune":
		return int32(0)
	case "int64":
		return int64(0)
	case "int8":
		return int8(0)
	case "string":
		return ""
	case "uint":
		return uint(0)
	case "uint16":
		return uint16(0)
	case "uint32":
		return uint32(0)
	case "uint64":
		return uint64(0)
	case "*Table":
		return &MTable{Nil: true}
	case "time.Time":
		return g.MinTime
	}
	panic("zeroOf " + colType)
}

func fresh(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		return append([]byte{}, x...)
	case *MTable:
		return x.Clone()
	}
	return v
}

func (m *MTable) Clone() *MTable {
	if m == nil {
		return nil
	}
	n := &MTable{Name: m.Name, Struct: m.Struct, Nil: m.Nil}
	n.Cols = append([]MCol{}, m.Cols...)
	n.Keys = append([]MKey{}, m.Keys...)
	for _, r := range m.Rows {
		nr := make([]interface{}, len(r))
		for i, v := range r {
			nr[i] = fresh(v)
		}
		n.Rows = append(n.Rows, nr)
	}
	return n
}

func (m *MTable) Col(name string) int {
	for i, c := range m.Cols {
		if c.Name == name {
			return i
		}
	}
	return -1
}

// Canonical text of a value. loose: -0 equals 0, times compare by instant, used for round trips through text formats.
func canonVal(b *strings.Builder, v interface{}, loose bool) {
	switch x := v.(type) {
	case nil:
		b.WriteString("<nil>")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	case string:
		b.WriteString("s")
		b.WriteString(strconv.QuoteToASCII(x))
		for i := 0; i < len(x); i++ {
			if x[i] >= 0x80 { // make invalid UTF-8 distinguishable
				fmt.Fprintf(b, "~%x", x)
				break
			}
		}
	case []byte:
		fmt.Fprintf(b, "b[%x]", x)
	case float32:
		canonFloat(b, "f32:", float64(x), loose)
	case float64:
		canonFloat(b, "f64:", x, loose)
	case int:
		b.WriteString("i:")
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case int8:
		b.WriteString("i8:")
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case int16:
		b.WriteString("i16:")
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case int32:
		b.WriteString("i32:")
		b.WriteString(strconv.FormatInt(int64(x), 10))
	case int64:
		b.WriteString("i64:")
		b.WriteString(strconv.FormatInt(x, 10))
	case uint:
		b.WriteString("u:")
		b.WriteString(strconv.FormatUint(uint64(x), 10))
	case uint8:
		b.WriteString("u8:")
		b.WriteString(strconv.FormatUint(uint64(x), 10))
	case uint16:
		b.WriteString("u16:")
		b.WriteString(strconv.FormatUint(uint64(x), 10))
	case uint32:
		b.WriteString("u32:")
		b.WriteString(strconv.FormatUint(uint64(x), 10))
	case uint64:
		b.WriteString("u64:")
		b.WriteString(strconv.FormatUint(x, 10))
	case time.Time:
		// The instant; and the offset unless loose.
		fmt.Fprintf(b, "t:%d.%09d", x.Unix(), x.Nanosecond())
		if !loose {
			_, off := x.Zone()
			fmt.Fprintf(b, "%+d", off)
		}
	case *MTable:
		b.WriteString("T{")
		x.canon(b, loose, false)
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "?%T:%v", v, v)
	}
}

func canonFloat(b *strings.Builder, p string, f float64, loose bool) {
	b.WriteString(p)
	if math.IsNaN(f) {
		b.WriteString("NaN")
		return
	}
	if loose && f == 0 {
		f = 0
		b.WriteString("0")
		return
	}
	b.WriteString(strconv.FormatFloat(f, 'g', -1, 64))
}

// canon writes a canonical form; meta adds sort keys and shape.
func (m *MTable) canon(b *strings.Builder, loose, meta bool) {
	if m == nil {
		b.WriteString("<nil>")
		return
	}
	if m.Nil {
		b.WriteString("nil-table ")
	}
	b.WriteString("[")
	b.WriteString(m.Name)
	b.WriteString("]")
	for _, c := range m.Cols {
		b.WriteString(" ")
		b.WriteString(c.Name)
		b.WriteString(":")
		b.WriteString(c.Type)
	}
	fmt.Fprintf(b, " rows=%d", len(m.Rows))
	for _, r := range m.Rows {
		b.WriteString(" (")
		for j, v := range r {
			if j > 0 {
				b.WriteString(", ")
			}
			canonVal(b, v, loose)
		}
		b.WriteString(")")
	}
	if meta {
		b.WriteString(" keys=")
		for _, k := range m.Keys {
			b.WriteString(k.Col)
			if k.Rev {
				b.WriteString("-")
			}
			b.WriteString(",")
		}
		if m.Struct {
			b.WriteString(" struct")
		}
	}
}

// Full is the complete canonical form, Data the data only, Loose for textual round trips.
func (m *MTable) Full() string  { var b strings.Builder; m.canon(&b, false, true); return b.String() }
func (m *MTable) Data() string  { var b strings.Builder; m.canon(&b, false, false); return b.String() }
func (m *MTable) Loose() string { var b strings.Builder; m.canon(&b, true, false); return b.String() }

func (s *MSet) str(f func(*MTable) string) string {
	var b strings.Builder
	b.WriteString("[[" + s.Name + "]]")
	for _, t := range s.Tables {
		b.WriteString("; ")
		b.WriteString(f(t))
	}
	return b.String()
}
func (s *MSet) Full() string  { return s.str((*MTable).Full) }
func (s *MSet) Data() string  { return s.str((*MTable).Data) }
func (s *MSet) Loose() string { return s.str((*MTable).Loose) }

func val(v interface{}) string { var b strings.Builder; canonVal(&b, v, false); return b.String() }

func vals(vs []interface{}) string {
	var p []string
	for _, v := range vs {
		p = append(p, val(v))
	}
	return "(" + strings.Join(p, ", ") + ")"
}

// ---- bridge ----

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("unexpected error: %v", err))
	}
}

// implVal converts a model value to what the implementation stores.
func implVal(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		return append(make([]byte, 0, len(x)), x...)
	case *MTable:
		return build(x)
	}
	return v
}

// build makes the implementation table for a model table, through the public API.
func build(m *MTable) *g.Table {
	if m.Nil {
		return g.NewNilTable()
	}
	t, err := g.NewTable(m.Name)
	must(err)
	for _, c := range m.Cols {
		must(t.AppendCol(c.Name, c.Type))
	}
	must(t.AppendRows(len(m.Rows)))
	for r, row := range m.Rows {
		for c, v := range row {
			setCell(t, m.Cols[c].Type, c, r, implVal(v))
		}
	}
	if m.Struct {
		must(t.SetStructShape(true))
	}
	if len(m.Keys) > 0 {
		setKeys(t, m.Keys)
	}
	return t
}

func setKeys(t *g.Table, keys []MKey) {
	if dupKeys(keys) {
		// A column listed twice: the second is appended once the first has its direction.
		must(t.SetSortKeys(keys[0].Col))
		if keys[0].Rev {
			must(t.SetSortKeysReverse(keys[0].Col))
		}
		for _, k := range keys[1:] {
			must(t.AppendSortKey(k.Col))
			if k.Rev {
				must(t.SetSortKeysReverse(k.Col))
			}
		}
		return
	}
	var names, revs []string
	for _, k := range keys {
		names = append(names, k.Col)
		if k.Rev {
			revs = append(revs, k.Col)
		}
	}
	must(t.SetSortKeys(names...))
	if len(revs) > 0 {
		must(t.SetSortKeysReverse(revs...))
	}
}

func dupKeys(keys []MKey) bool {
	seen := map[string]bool{}
	for _, k := range keys {
		if seen[k.Col] {
			return true
		}
		seen[k.Col] = true
	}
	return false
}

// setCell uses the typed setter of the column's type.
func setCell(t *g.Table, typ string, c, r int, v interface{}) {
	switch typ {
	case "*Table":
		must(t.SetTableByColIndex(c, r, v.(*g.Table)))
	case "time.Time":
		must(t.SetTimeByColIndex(c, r, v.(time.Time)))
	default:
		must(t.SetValByColIndex(c, r, v))
	}
}

func buildSet(s *MSet) *g.TableSet {
	ts, err := g.NewTableSet(s.Name)
	must(err)
	for _, m := range s.Tables {
		must(ts.AppendTable(build(m)))
	}
	return ts
}

// observe reads a table completely through the public API.
func observe(t *g.Table) *MTable { return observeBelow(t, nil) }

// observeBelow is told the tables it is nested in.
func observeBelow(t *g.Table, above []*g.Table) *MTable {
	if t == nil {
		return nil
	}
	above = append(above[:len(above):len(above)], t)
	m := &MTable{Name: t.Name()}
	if n, err := t.IsNilTable(); err == nil {
		m.Nil = n
	}
	nc := t.ColCount()
	for c := 0; c < nc; c++ {
		name, err := t.ColNameByColIndex(c)
		must(err)
		typ, err := t.ColTypeByColIndex(c)
		must(err)
		m.Cols = append(m.Cols, MCol{name, typ})
	}
	nr := t.RowCount()
	for r := 0; r < nr; r++ {
		row := make([]interface{}, nc)
		for c := 0; c < nc; c++ {
			v, err := t.GetValByColIndex(c, r)
			must(err)
			row[c] = modelVal(v, above)
		}
		m.Rows = append(m.Rows, row)
	}
	if !m.Nil {
		m.Keys = observeKeys(t)
		s, err := t.IsStructShape()
		must(err)
		m.Struct = s
	}
	return m
}

func modelVal(v interface{}, above []*g.Table) interface{} {
	switch x := v.(type) {
	case *g.Table:
		for i, a := range above {
			if a == x {
				return fmt.Sprintf("circular: the table %d levels above", len(above)-i)
			}
		}
		return observeBelow(x, above)
	case []byte:
		if x == nil {
			return []byte{}
		}
		return append([]byte{}, x...)
	}
	return v
}

func observeKeys(t *g.Table) (keys []MKey) {
	if t.SortKeyCount() == 0 {
		return nil
	}
	kt, err := t.GetSortKeysAsTable()
	must(err)
	for r := 0; r < kt.RowCount(); r++ {
		name, err := kt.GetString("colName", r)
		must(err)
		rev, err := kt.GetBool("reverse", r)
		must(err)
		keys = append(keys, MKey{name, rev})
	}
	if len(keys) != t.SortKeyCount() {
		panic(fmt.Sprintf("SortKeyCount() is %d but %d sort keys are listed", t.SortKeyCount(), len(keys)))
	}
	return
}

func observeSet(ts *g.TableSet) *MSet {
	if ts == nil {
		return nil
	}
	s := &MSet{Name: ts.Name()}
	for i := 0; i < ts.TableCount(); i++ {
		t, err := ts.GetTableByTableIndex(i)
		must(err)
		s.Tables = append(s.Tables, observe(t))
	}
	return s
}

// lookupsAgree checks every lookup of the public API against the model of the table.
func lookupsAgree(t *g.Table, m *MTable, otherNames []string) error {
	if t.ColCount() != len(m.Cols) {
		return fmt.Errorf("ColCount()=%d, want %d", t.ColCount(), len(m.Cols))
	}
	if t.RowCount() != len(m.Rows) {
		return fmt.Errorf("RowCount()=%d, want %d", t.RowCount(), len(m.Rows))
	}
	names, types, err := t.GetColInfoAsSlices()
	if err != nil || len(names) != len(m.Cols) || len(types) != len(m.Cols) {
		return fmt.Errorf("GetColInfoAsSlices() = %v, %v, %v", names, types, err)
	}
	for i, c := range m.Cols {
		if names[i] != c.Name || types[i] != c.Type {
			return fmt.Errorf("GetColInfoAsSlices()[%d] = %s %s, want %s %s", i, names[i], types[i], c.Name, c.Type)
		}
		ci, err := t.ColIndex(c.Name)
		if err != nil || ci != i {
			return fmt.Errorf("ColIndex(%q) = %d, %v, want %d", c.Name, ci, err, i)
		}
		ty, err := t.ColType(c.Name)
		if err != nil || ty != c.Type {
			return fmt.Errorf("ColType(%q) = %q, %v, want %q", c.Name, ty, err, c.Type)
		}
		ty, err = t.ColTypeByColIndex(i)
		if err != nil || ty != c.Type {
			return fmt.Errorf("ColTypeByColIndex(%d) = %q, %v, want %q", i, ty, err, c.Type)
		}
		nm, err := t.ColName(i)
		if err != nil || nm != c.Name {
			return fmt.Errorf("ColName(%d) = %q, %v, want %q", i, nm, err, c.Name)
		}
		if has, err := t.HasCol(c.Name); !has || err != nil {
			return fmt.Errorf("HasCol(%q) = %v, %v", c.Name, has, err)
		}
		if has, err := t.HasColByColIndex(i); !has || err != nil {
			return fmt.Errorf("HasColByColIndex(%d) = %v, %v", i, has, err)
		}
		if is, err := t.IsColType(c.Name, c.Type); !is || err != nil {
			return fmt.Errorf("IsColType(%q, %q) = %v, %v", c.Name, c.Type, is, err)
		}
		if is, err := t.IsColTypeByColIndex(i, c.Type); !is || err != nil {
			return fmt.Errorf("IsColTypeByColIndex(%d, %q) = %v, %v", i, c.Type, is, err)
		}
		if i < 3 {
			for _, o := range allTypes {
				is, err := t.IsColType(c.Name, o)
				is2, err2 := t.IsColTypeByColIndex(i, o)
				if want := o == c.Type; is != want || is2 != want || err != nil || err2 != nil {
					return fmt.Errorf("IsColType(%q, %q) = %v, %v, ByColIndex %v, %v for a column of type %s", c.Name, o, is, err, is2, err2, c.Type)
				}
			}
		}
		is, err := t.IsTableCol(c.Name)
		is2, err2 := t.IsTableColByColIndex(i)
		if want := c.Type == "*Table"; is != want || is2 != want || err != nil || err2 != nil {
			return fmt.Errorf("IsTableCol(%q) = %v, %v, ByColIndex %v, %v for a column of type %s", c.Name, is, err, is2, err2, c.Type)
		}
		for r := range m.Rows {
			want := m.Rows[r][i]
			v, err := t.GetVal(c.Name, r)
			if err != nil || val(modelVal(v, nil)) != val(want) {
				return fmt.Errorf("GetVal(%q, %d) = %s, %v, want %s", c.Name, r, val(modelVal(v, nil)), err, val(want))
			}
			v, err = t.GetValByColIndex(i, r)
			if err != nil || val(modelVal(v, nil)) != val(want) {
				return fmt.Errorf("GetValByColIndex(%d, %d) = %s, %v, want %s", i, r, val(modelVal(v, nil)), err, val(want))
			}
			if has, err := t.HasCell(c.Name, r); !has || err != nil {
				return fmt.Errorf("HasCell(%q, %d) = %v, %v", c.Name, r, has, err)
			}
			if has, err := t.HasCellByColIndex(i, r); !has || err != nil {
				return fmt.Errorf("HasCellByColIndex(%d, %d) = %v, %v", i, r, has, err)
			}
		}
		for _, r := range []int{-1, len(m.Rows)} {
			if _, err := t.GetVal(c.Name, r); err == nil {
				return fmt.Errorf("GetVal(%q, %d) gave no error", c.Name, r)
			}
			if _, err := t.GetValByColIndex(i, r); err == nil {
				return fmt.Errorf("GetValByColIndex(%d, %d) gave no error", i, r)
			}
			if has, _ := t.HasCell(c.Name, r); has {
				return fmt.Errorf("HasCell(%q, %d) is true", c.Name, r)
			}
		}
	}
	for _, i := range picks(len(m.Cols), 3) {
		if i >= 0 && i < len(m.Cols) {
			otherNames = append(otherNames[:len(otherNames):len(otherNames)], nearNamesOf(m.Cols[i].Name)...)
		}
	}
	for _, n := range otherNames {
		if m.Col(n) >= 0 {
			continue
		}
		if has, _ := t.HasCol(n); has {
			return fmt.Errorf("HasCol(%q) is true", n)
		}
		if ci, err := t.ColIndex(n); err == nil {
			return fmt.Errorf("ColIndex(%q) = %d without error", n, ci)
		}
		if _, err := t.ColType(n); err == nil {
			return fmt.Errorf("ColType(%q) gave no error", n)
		}
		if len(m.Rows) > 0 {
			if _, err := t.GetVal(n, 0); err == nil {
				return fmt.Errorf("GetVal(%q, 0) gave no error", n)
			}
		}
	}
	for _, i := range []int{-1, len(m.Cols)} {
		if has, _ := t.HasColByColIndex(i); has {
			return fmt.Errorf("HasColByColIndex(%d) is true", i)
		}
		if _, err := t.ColName(i); err == nil {
			return fmt.Errorf("ColName(%d) gave no error", i)
		}
		if _, err := t.ColTypeByColIndex(i); err == nil {
			return fmt.Errorf("ColTypeByColIndex(%d) gave no error", i)
		}
		if len(m.Rows) > 0 {
			if _, err := t.GetValByColIndex(i, 0); err == nil {
				return fmt.Errorf("GetValByColIndex(%d, 0) gave no error", i)
			}
		}
	}
	for r := -1; r <= len(m.Rows); r++ {
		want := r >= 0 && r < len(m.Rows)
		if has, _ := t.HasRow(r); has != want {
			return fmt.Errorf("HasRow(%d) = %v", r, has)
		}
	}
	for i := 0; i < len(m.Rows); i++ {
		if ok, err := t.IsValidRow(i); !ok || err != nil {
			return fmt.Errorf("IsValidRow(%d) = %v, %v", i, ok, err)
		}
	}
	if ok, err := t.IsValidTable(); !ok || err != nil {
		return fmt.Errorf("IsValidTable() = %v, %v", ok, err)
	}
	info, err := t.GetColInfoAsTable()
	if err != nil || info.RowCount() != len(m.Cols) {
		return fmt.Errorf("GetColInfoAsTable() has wrong size or error %v", err)
	}
	for i, c := range m.Cols {
		x, err1 := info.GetInt("index", i)
		n, err2 := info.GetString("colName", i)
		y, err3 := info.GetString("colType", i)
		if err1 != nil || err2 != nil || err3 != nil || x != i || n != c.Name || y != c.Type {
			return fmt.Errorf("GetColInfoAsTable() row %d: %d %q %q, want %d %q %q (%v %v %v)", i, x, n, y, i, c.Name, c.Type, err1, err2, err3)
		}
	}
	return nil
}

func sortedKeys(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// quiet runs f, turning a panic into an error text.
func try(f func() error) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprint(r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	return f(), ""
}
