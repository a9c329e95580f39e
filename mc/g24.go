package main

// G24: reading, printing, exporting or comparing a table never changes it.
//
// For every bounded table (in a set, with neighbours) and every read-only operation A: run A on a fresh copy of the input,
// then every read-only operation in turn. Each result must be what the operation gives on an untouched copy, and the complete
// content of everything reachable, object identities included, must stay as it was.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"

	g "github.com/urban-wombat/gotables"
)

type roWorld struct {
	ts      *g.TableSet
	t       *g.Table // a table of ts
	other   *g.Table // an equal table, elsewhere
	scratch string
}

// roDump writes down everything that can be observed, tables inside tables by reference.
func roDump(w *roWorld) string {
	var b strings.Builder
	ids := map[*g.Table]int{}
	var table func(t *g.Table)
	table = func(t *g.Table) {
		if t == nil {
			b.WriteString("<nil>")
			return
		}
		if id, ok := ids[t]; ok {
			fmt.Fprintf(&b, "#%d", id)
			return
		}
		ids[t] = len(ids)
		m := observeShallow(t)
		fmt.Fprintf(&b, "#%d=%s{", ids[t], m.Full())
		for c, col := range m.Cols {
			if col.Type != "*Table" {
				continue
			}
			for r := range m.Rows {
				n, err := t.GetTableByColIndex(c, r)
				fmt.Fprintf(&b, "(%d,%d,%v)", c, r, err)
				table(n)
			}
		}
		b.WriteString("}")
		if p := t.ParentTable(); p != nil {
			fmt.Fprintf(&b, "^%s", p.Name())
			if id, ok := ids[p]; ok {
				fmt.Fprintf(&b, "#%d", id)
			}
		}
	}
	fmt.Fprintf(&b, "set %q file %q: ", w.ts.Name(), w.ts.FileName())
	for i := 0; i < w.ts.TableCount(); i++ {
		t, err := w.ts.GetTableByTableIndex(i)
		must(err)
		table(t)
		b.WriteString("; ")
	}
	table(w.t)
	b.WriteString(" other ")
	table(w.other)
	return b.String()
}

// observeShallow is observe without the contents of nested tables.
func observeShallow(t *g.Table) *MTable {
	return observeWith(t, func(v interface{}) interface{} {
		if n, ok := v.(*g.Table); ok {
			if n == nil {
				return &MTable{Name: "<nil>"}
			}
			return &MTable{Name: n.Name()}
		}
		return modelVal(v, nil)
	})
}

func observeWith(t *g.Table, cell func(interface{}) interface{}) *MTable {
	m := &MTable{Name: t.Name()}
	if n, err := t.IsNilTable(); err == nil {
		m.Nil = n
	}
	for c := 0; c < t.ColCount(); c++ {
		name, err := t.ColNameByColIndex(c)
		must(err)
		typ, err := t.ColTypeByColIndex(c)
		must(err)
		m.Cols = append(m.Cols, MCol{name, typ})
	}
	for r := 0; r < t.RowCount(); r++ {
		var row []interface{}
		for c := range m.Cols {
			v, err := t.GetValByColIndex(c, r)
			must(err)
			row = append(row, cell(v))
		}
		m.Rows = append(m.Rows, row)
	}
	if !m.Nil {
		m.Keys = observeKeys(t)
		s, err := t.IsStructShape()
		must(err)
		m.Struct = s
	}
	return m
}

var addrRe = regexp.MustCompile(`0x[0-9a-f]{6,}|0xc[0-9a-f]+|Generated [0-9][^\n]*`)

func roScrub(s string) string {
	if strings.Contains(s, "0x") || strings.Contains(s, "Generated ") {
		return addrRe.ReplaceAllString(s, "@")
	}
	return s
}

func roStr(vs ...interface{}) string {
	var b strings.Builder
	for _, v := range vs {
		switch x := v.(type) {
		case *g.Table:
			if x == nil {
				b.WriteString("<nil table>")
			} else {
				b.WriteString(observeShallow(x).Full())
			}
		case *g.TableSet:
			if x == nil {
				b.WriteString("<nil set>")
			} else {
				fmt.Fprintf(&b, "set %q %q", x.Name(), x.FileName())
				for i := 0; i < x.TableCount(); i++ {
					t, err := x.GetTableByTableIndex(i)
					must(err)
					b.WriteString(observeShallow(t).Full())
				}
			}
		case error:
			b.WriteString("error: " + roScrub(x.Error()))
		case string:
			b.WriteString(roScrub(x))
		case []byte, bool, int, []string:
			fmt.Fprintf(&b, "%q", x)
		case nil:
			b.WriteString("nil")
		default:
			if reflect.TypeOf(v).Kind() == reflect.Map {
				j, err := json.Marshal(v)
				fmt.Fprintf(&b, "%s %v", j, err)
			} else {
				b.WriteString(val(modelVal(v, nil)))
			}
		}
		b.WriteByte('|')
	}
	return b.String()
}

type roOp struct {
	name string
	do   func(w *roWorld) string
}

var roOpList []roOp

func roOps() []roOp {
	if roOpList != nil {
		return roOpList
	}
	add := func(name string, f func(w *roWorld) string) { roOpList = append(roOpList, roOp{name, f}) }
	colNames := func(w *roWorld) []string {
		var l []string
		for c := 0; c < w.t.ColCount(); c++ {
			n, _ := w.t.ColNameByColIndex(c)
			l = append(l, n)
		}
		return append(l, "nope", "")
	}
	// over all columns (and wrong ones), by name and by index
	perCol := func(name string, f func(w *roWorld, col string) string) {
		add(name, func(w *roWorld) string {
			var b strings.Builder
			for _, n := range colNames(w) {
				b.WriteString(f(w, n))
			}
			return b.String()
		})
	}
	perIdx := func(name string, f func(w *roWorld, c int) string) {
		add(name, func(w *roWorld) string {
			var b strings.Builder
			for c := -1; c <= w.t.ColCount(); c++ {
				b.WriteString(f(w, c))
			}
			return b.String()
		})
	}
	perRow := func(name string, f func(w *roWorld, r int) string) {
		add(name, func(w *roWorld) string {
			var b strings.Builder
			for r := -1; r <= w.t.RowCount(); r++ {
				b.WriteString(f(w, r))
			}
			return b.String()
		})
	}
	perCell := func(name string, f func(w *roWorld, c string, r int) string) {
		perCol(name, func(w *roWorld, c string) string {
			var b strings.Builder
			for r := -1; r <= w.t.RowCount(); r++ {
				b.WriteString(f(w, c, r))
			}
			return b.String()
		})
	}
	perCellIdx := func(name string, f func(w *roWorld, c int, r int) string) {
		perIdx(name, func(w *roWorld, c int) string {
			var b strings.Builder
			for r := -1; r <= w.t.RowCount(); r++ {
				b.WriteString(f(w, c, r))
			}
			return b.String()
		})
	}
	s := func(name string, f func(t *g.Table) string) { add(name, func(w *roWorld) string { return f(w.t) }) }
	ss := func(name string, f func(ts *g.TableSet) string) {
		add("set."+name, func(w *roWorld) string { return f(w.ts) })
	}

	s("Name", func(t *g.Table) string { return roStr(t.Name()) })
	s("RowCount", func(t *g.Table) string { return roStr(t.RowCount()) })
	s("ColCount", func(t *g.Table) string { return roStr(t.ColCount()) })
	s("String", func(t *g.Table) string { return roStr(t.String()) })
	s("StringPadded", func(t *g.Table) string { return roStr(t.StringPadded()) })
	s("StringUnpadded", func(t *g.Table) string { return roStr(t.StringUnpadded()) })
	s("StringNested", func(t *g.Table) string { return roStr(t.StringNested()) })
	s("fmt %v %s %+v", func(t *g.Table) string { return roStr(fmt.Sprintf("%v %s", t, t)) })
	s("GetTableAsCSV", func(t *g.Table) string { x, err := t.GetTableAsCSV(); return roStr(x, err) })
	s("GetTableAsCSV with headings", func(t *g.Table) string {
		var h []string
		for c := 0; c < t.ColCount(); c++ {
			h = append(h, fmt.Sprintf("head %d", c))
		}
		x, err := t.GetTableAsCSV(h...)
		y, err2 := t.GetTableAsCSV(append(h, "more")...)
		return roStr(x, err, y, err2)
	})
	perCol("HasCol", func(w *roWorld, c string) string { x, err := w.t.HasCol(c); return roStr(x, err) })
	perIdx("HasColByColIndex", func(w *roWorld, c int) string { x, err := w.t.HasColByColIndex(c); return roStr(x, err) })
	s("GetColInfoAsTable", func(t *g.Table) string { x, err := t.GetColInfoAsTable(); return roStr(x, err) })
	s("GetColInfoAsSlices", func(t *g.Table) string { x, y, err := t.GetColInfoAsSlices(); return roStr(x, y, err) })
	perCol("ColType", func(w *roWorld, c string) string { x, err := w.t.ColType(c); return roStr(x, err) })
	perIdx("ColTypeByColIndex", func(w *roWorld, c int) string { x, err := w.t.ColTypeByColIndex(c); return roStr(x, err) })
	perCol("ColIndex", func(w *roWorld, c string) string { x, err := w.t.ColIndex(c); return roStr(x, err) })
	perIdx("ColName", func(w *roWorld, c int) string {
		x, err := w.t.ColName(c)
		y, err2 := w.t.ColNameByColIndex(c)
		return roStr(x, err, y, err2)
	})
	perCell("GetVal", func(w *roWorld, c string, r int) string { x, err := w.t.GetVal(c, r); return roStr(x, err) })
	perCellIdx("GetValByColIndex", func(w *roWorld, c int, r int) string { x, err := w.t.GetValByColIndex(c, r); return roStr(x, err) })
	perCell("HasCell", func(w *roWorld, c string, r int) string { x, err := w.t.HasCell(c, r); return roStr(x, err) })
	perCellIdx("HasCellByColIndex", func(w *roWorld, c int, r int) string {
		x, err := w.t.HasCellByColIndex(c, r)
		return roStr(x, err)
	})
	perRow("HasRow", func(w *roWorld, r int) string { x, err := w.t.HasRow(r); return roStr(x, err) })
	perCol("IsColType", func(w *roWorld, c string) string {
		x, err := w.t.IsColType(c, "int")
		y, err2 := w.t.IsColType(c, "nope")
		return roStr(x, err, y, err2)
	})
	perIdx("IsColTypeByColIndex", func(w *roWorld, c int) string { x, err := w.t.IsColTypeByColIndex(c, "string"); return roStr(x, err) })
	perRow("IsValidRow", func(w *roWorld, r int) string { x, err := w.t.IsValidRow(r); return roStr(x, err) })
	s("IsValidTable", func(t *g.Table) string { x, err := t.IsValidTable(); return roStr(x, err) })
	s("IsNilTable", func(t *g.Table) string { x, err := t.IsNilTable(); return roStr(x, err) })
	perCell("GetValAsString", func(w *roWorld, c string, r int) string { x, err := w.t.GetValAsString(c, r); return roStr(x, err) })
	perCellIdx("GetValAsStringByColIndex", func(w *roWorld, c int, r int) string {
		x, err := w.t.GetValAsStringByColIndex(c, r)
		return roStr(x, err)
	})
	s("IsStructShape", func(t *g.Table) string { x, err := t.IsStructShape(); return roStr(x, err) })
	perCol("JoinColVals", func(w *roWorld, c string) string { x, err := w.t.JoinColVals(c, ", "); return roStr(x, err) })
	perIdx("JoinColValsByColIndex", func(w *roWorld, c int) string { x, err := w.t.JoinColValsByColIndex(c, ";"); return roStr(x, err) })
	perCol("GetColValsAsStrings", func(w *roWorld, c string) string { x, err := w.t.GetColValsAsStrings(c); return roStr(x, err) })
	perCol("IsValidColValue", func(w *roWorld, c string) string {
		x, err := w.t.IsValidColValue(c, 3)
		y, err2 := w.t.IsValidCellValue(c, "s")
		return roStr(x, err, y, err2)
	})
	perCol("IsTableCol", func(w *roWorld, c string) string { x, err := w.t.IsTableCol(c); return roStr(x, err) })
	perIdx("IsTableColByColIndex", func(w *roWorld, c int) string { x, err := w.t.IsTableColByColIndex(c); return roStr(x, err) })
	perCell("GetCellInfo", func(w *roWorld, c string, r int) string {
		x, err := w.t.GetCellInfo(c, r)
		return roStr(x.Table == w.t || x.Table == nil, x.ColName, x.ColType, x.ColIndex, x.RowIndex, err)
	})
	perCellIdx("GetCellInfoByColIndex", func(w *roWorld, c int, r int) string {
		x, err := w.t.GetCellInfoByColIndex(c, r)
		return roStr(x.Table == w.t || x.Table == nil, x.ColName, x.ColType, x.ColIndex, x.RowIndex, err)
	})
	perRow("RowByRowIndex", func(w *roWorld, r int) string {
		x, err := w.t.RowByRowIndex(r)
		return roStr(x.Table == w.t || x.Table == nil, x.RowIndex, err)
	})
	// every typed getter, by name and by index, error-returning and must-get
	for _, kind := range []string{"", "ByColIndex", "MustGet", "ByColIndexMustGet"} {
		kind := kind
		add("Get<Type>"+kind, func(w *roWorld) string {
			var b strings.Builder
			tv := reflect.ValueOf(w.t)
			names := colNames(w)
			for _, ty := range []string{"ByteSlice", "Uint8Slice", "Bool", "Byte", "Float32", "Float64", "Int", "Int16", "Int32", "Rune", "Int64", "Int8", "String", "Uint", "Uint16", "Uint32", "Uint64", "Uint8", "Table", "Time", "Val"} {
				m := tv.MethodByName("Get" + ty + kind)
				if !m.IsValid() {
					continue
				}
				for c := -1; c <= w.t.ColCount(); c++ {
					for _, r := range []int{-1, 0, w.t.RowCount() - 1, w.t.RowCount()} {
						var arg reflect.Value
						if m.Type().In(0).Kind() == reflect.String {
							if c < 0 {
								continue
							}
							arg = reflect.ValueOf(names[c])
						} else {
							arg = reflect.ValueOf(c)
						}
						func() {
							defer func() {
								if e := recover(); e != nil {
									b.WriteString("panic ")
								}
							}()
							for _, o := range m.Call([]reflect.Value{arg, reflect.ValueOf(r)}) {
								b.WriteString(roStr(o.Interface()))
							}
						}()
					}
				}
			}
			return b.String()
		})
	}
	add("Equals", func(w *roWorld) string {
		x, err := w.t.Equals(w.other)
		y, err2 := w.other.Equals(w.t)
		z, err3 := w.t.Equals(w.t)
		return roStr(x, err, y, err2, z, err3)
	})
	add("Equals a table unlike it inside", func(w *roWorld) string {
		var b strings.Builder
		for c := 0; c < w.other.ColCount() && c < w.t.ColCount(); c++ {
			if is, _ := w.other.IsTableColByColIndex(c); !is {
				continue
			}
			for r := 0; r < w.other.RowCount(); r++ {
				n, err := w.other.CopyDeep()
				if err != nil {
					b.WriteString(roStr(err))
					continue
				}
				in, err := n.GetTableByColIndex(c, r)
				if err != nil || in.SetName("Unlike") != nil {
					continue
				}
				x, err := w.t.Equals(n)
				y, err2 := n.Equals(w.t)
				b.WriteString(roStr(x, err, y, err2))
			}
		}
		return b.String()
	})
	add("Equals neighbour", func(w *roWorld) string {
		n, err := w.ts.GetTableByTableIndex(w.ts.TableCount() - 1)
		must(err)
		x, err := w.t.Equals(n)
		y, err2 := n.Equals(w.t)
		return roStr(x, err, y, err2)
	})
	s("NewTableFromRows", func(t *g.Table) string {
		x, err := t.NewTableFromRows("New", 0, t.RowCount()-1)
		y, err2 := t.NewTableFromRows("New", 0, 0)
		z, err3 := t.NewTableFromRows("New", 1, 0)
		return roStr(x, err, y, err2, z, err3)
	})
	s("Copy", func(t *g.Table) string { x, err := t.Copy(); return roStr(x, err) })
	s("CopyCols", func(t *g.Table) string { x, err := t.CopyCols(); return roStr(x, err) })
	s("CopyDeep", func(t *g.Table) string { x, err := t.CopyDeep(); return roStr(x, err) })
	add("NewTableReorderCols", func(w *roWorld) string {
		n := colNames(w)
		n = n[:len(n)-2]
		var idx []int
		for i, j := 0, len(n)-1; i < j; i, j = i+1, j-1 {
			n[i], n[j] = n[j], n[i]
		}
		for i := range n {
			idx = append(idx, len(n)-1-i)
		}
		x, err := w.t.NewTableReorderCols(n...)
		y, err2 := w.t.NewTableReorderColsByColIndex(idx...)
		z, err3 := w.t.NewTableReorderCols("nope")
		return roStr(x, err, y, err2, z, err3)
	})
	s("GetTableAsJSON", func(t *g.Table) string { x, err := t.GetTableAsJSON(); return roStr(x, err) })
	s("GetTableAsJSONIndent", func(t *g.Table) string { x, err := t.GetTableAsJSONIndent(); return roStr(x, err) })
	s("GetSortKeysAsTable", func(t *g.Table) string { x, err := t.GetSortKeysAsTable(); return roStr(x, err) })
	s("SortKeyCount", func(t *g.Table) string { return roStr(t.SortKeyCount()) })
	perCol("IsSortKey", func(w *roWorld, c string) string { x, err := w.t.IsSortKey(c); return roStr(x, err) })
	perRow("CompareRows", func(w *roWorld, r int) string {
		var b strings.Builder
		for r2 := -1; r2 <= w.t.RowCount(); r2++ {
			x, err := w.t.CompareRows(r, r2)
			b.WriteString(roStr(x, err))
		}
		return b.String()
	})
	// searching by the key values of every row
	keyVals := func(t *g.Table, r int) []interface{} {
		var l []interface{}
		for _, k := range observeKeys(t) {
			v, err := t.GetVal(k.Col, r)
			must(err)
			l = append(l, v)
		}
		return l
	}
	s("Search", func(t *g.Table) string {
		var b strings.Builder
		for r := 0; r < t.RowCount(); r++ {
			kv := keyVals(t, r)
			a, err := t.Search(kv...)
			c, err2 := t.SearchFirst(kv...)
			d, err3 := t.SearchLast(kv...)
			e, f, err4 := t.SearchRange(kv...)
			x, err5 := t.NewTableFromRowsBySearchRange("Found", kv...)
			b.WriteString(roStr(a, err, c, err2, d, err3, e, f, err4, x, err5))
		}
		a, err := t.Search()
		e, f, err4 := t.SearchRange("nope")
		x, err5 := t.NewTableFromRowsBySearchRange("Found", 99, 98, 97, 96)
		b.WriteString(roStr(a, err, e, f, err4, x, err5))
		return b.String()
	})
	walk := func(f func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error) string {
		var b strings.Builder
		err := f(func(t *g.Table) error { b.WriteString("T" + t.Name()); return nil },
			func(r g.Row) error { fmt.Fprintf(&b, "R%s%d", r.Table.Name(), r.RowIndex); return nil },
			func(n bool, c g.CellInfo) error {
				fmt.Fprintf(&b, "C%s%s%d%d%s%v", c.Table.Name(), c.ColName, c.ColIndex, c.RowIndex, c.ColType, n)
				return nil
			})
		return b.String() + roStr(err)
	}
	for _, deep := range []bool{false, true} {
		deep := deep
		add(fmt.Sprintf("Walk %v", deep), func(w *roWorld) string {
			safe := g.WalkSafe{}
			x := walk(func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error {
				return w.t.Walk(deep, safe, vt, vr, vc)
			})
			return x + fmt.Sprint(len(safe) > 0, w.t.Walk(deep, g.WalkSafe{}, nil, nil, nil) != nil)
		})
		add(fmt.Sprintf("set.Walk %v", deep), func(w *roWorld) string {
			return walk(func(vt func(*g.Table) error, vr func(g.Row) error, vc func(bool, g.CellInfo) error) error {
				return w.ts.Walk(deep, nil, vt, vr, vc)
			})
		})
	}
	s("HasCircularReference", func(t *g.Table) string { x, err := t.HasCircularReference(); return roStr(x, err) })
	s("IsValidTableNesting", func(t *g.Table) string { x, err := t.IsValidTableNesting(); return roStr(x, err) })
	s("GobEncode", func(t *g.Table) string {
		x, err := t.GobEncode()
		if err != nil {
			return roStr(err)
		}
		y, err := g.GobDecodeTable(x)
		return roStr(y, err)
	})
	s("GenerateTypeStruct", func(t *g.Table) string { x, err := t.GenerateTypeStruct(); return roStr(x, err) })
	s("GenerateTypeStructSliceFromTable", func(t *g.Table) string { x, err := t.GenerateTypeStructSliceFromTable(); return roStr(x, err) })
	s("GenerateTypeStructSliceToTable", func(t *g.Table) string { x, err := t.GenerateTypeStructSliceToTable(); return roStr(x, err) })
	add("WriteFile", func(w *roWorld) string {
		f := filepath.Join(w.scratch, "t.got")
		err := w.t.WriteFile(f, 0600)
		b, _ := os.ReadFile(f)
		os.Remove(f)
		err2 := w.t.WriteFile(filepath.Join(w.scratch, "no", "t.got"), 0600)
		return roStr(string(b), err, err2 != nil)
	})
	// as the source of another table's edits
	add("AppendRowsFromTable source", func(w *roWorld) string {
		x, err := w.t.CopyCols()
		if err != nil {
			return roStr(err)
		}
		err = x.AppendRowsFromTable(w.t, 0, w.t.RowCount()-1)
		return roStr(x, err)
	})
	add("AppendColsFromTable source", func(w *roWorld) string {
		x, err := g.NewTable("Dest")
		must(err)
		err = x.AppendColsFromTable(w.t)
		return roStr(x, err)
	})

	ss("Name", func(ts *g.TableSet) string { return roStr(ts.Name(), ts.FileName(), ts.TableCount()) })
	ss("String", func(ts *g.TableSet) string { return roStr(ts.String(), ts.StringPadded()) })
	ss("StringUnpadded", func(ts *g.TableSet) string { return roStr(ts.StringUnpadded()) })
	ss("HasTable", func(ts *g.TableSet) string {
		x, err := ts.HasTable("T")
		y, err2 := ts.HasTable("Nope")
		return roStr(x, err, y, err2)
	})
	ss("GetTable", func(ts *g.TableSet) string {
		var b strings.Builder
		for i := -1; i <= ts.TableCount(); i++ {
			x, err := ts.GetTableByTableIndex(i)
			b.WriteString(roStr(x, err))
			if err == nil {
				y, err := ts.GetTable(x.Name())
				z, err2 := ts.TableIndex(x.Name())
				b.WriteString(roStr(x == y, err, z, err2))
			}
		}
		x, err := ts.GetTable("Nope")
		z, err2 := ts.TableIndex("Nope")
		return b.String() + roStr(x, err, z, err2)
	})
	ss("IsValidTableSet", func(ts *g.TableSet) string { x, err := ts.IsValidTableSet(); return roStr(x, err) })
	ss("Copy", func(ts *g.TableSet) string { x, err := ts.Copy(); return roStr(x, err) })
	ss("Equals", func(ts *g.TableSet) string { x, err := ts.Equals(ts); return roStr(x, err) })
	ss("GobEncode", func(ts *g.TableSet) string {
		x, err := ts.GobEncode()
		if err != nil {
			return roStr(err)
		}
		y, err := g.GobDecodeTableSet(append([]bytes.Buffer{}, x...))
		return roStr(y, err)
	})
	ss("GetTableSetAsJSON", func(ts *g.TableSet) string { x, err := ts.GetTableSetAsJSON(); return roStr(x, err) })
	ss("GetTableSetAsJSONIndent", func(ts *g.TableSet) string { x, err := ts.GetTableSetAsJSONIndent(); return roStr(x, err) })
	ss("GetTableSetAsYAML", func(ts *g.TableSet) string { x, err := ts.GetTableSetAsYAML(); return roStr(x, err) })
	ss("GetTableSetAsMap", func(ts *g.TableSet) string { x, err := ts.GetTableSetAsMap(); return roStr(x, err) })
	add("set.WriteFile", func(w *roWorld) string {
		f := filepath.Join(w.scratch, "ts.got")
		err := w.ts.WriteFile(f, 0600)
		b, _ := os.ReadFile(f)
		os.Remove(f)
		err2 := w.ts.WriteFile(filepath.Join(w.scratch, "no", "t.got"), 0600)
		return roStr(string(b), err, err2 != nil)
	})
	// adding to another set
	add("AppendTable source", func(w *roWorld) string {
		x, err := g.NewTableSet("Dest")
		must(err)
		err = x.AppendTable(w.t)
		return roStr(x, err)
	})
	return roOpList
}

// roInputs: descriptions and builders of the worlds.
type roInput struct {
	desc string
	full bool // all pairs of operations also in the quick check
	mk   func() (*g.TableSet, *g.Table, *g.Table)
}

func roInputs(thorough bool, yield func(in roInput) bool) {
	neighbour := &MTable{Name: "Neighbour", Cols: []MCol{{"k", "int"}, {"s", "string"}}, Rows: [][]interface{}{{2, "b"}, {1, "a"}}, Keys: []MKey{{"k", false}}}
	full := false
	world := func(m *MTable, how int) roInput {
		full := full
		return roInput{fmt.Sprintf("%s made in way %d", m.Full(), how), full, func() (*g.TableSet, *g.Table, *g.Table) {
			ts, err := g.NewTableSet("Set")
			must(err)
			var t *g.Table
			switch how {
			case 0:
				t = build(m)
			case 1:
				t, err = build(m).Copy()
				must(err)
			case 2: // parsed
				x := m.Clone()
				t, err = g.NewTableFromString(build(x).String())
				must(err)
				if len(m.Keys) > 0 {
					setKeys(t, m.Keys)
				}
			case 3: // after edits that were undone
				t = build(m)
				if !m.Struct {
					must(t.AppendRows(2))
					must(t.DeleteRows(t.RowCount()-2, t.RowCount()-1))
				}
				must(t.AppendCol("undone", "string"))
				must(t.DeleteCol("undone"))
				must(t.RenameTable("Other"))
				must(t.RenameTable(m.Name))
			case 4: // sorted
				t = build(m)
				if len(m.Keys) > 0 {
					t.Sort()
				}
			case 5: // from JSON
				js, err := build(m).GetTableAsJSON()
				must(err)
				t, err = g.NewTableFromJSON(js)
				must(err)
				if len(m.Keys) > 0 {
					setKeys(t, m.Keys)
				}
			}
			must(ts.AppendTable(t))
			must(ts.AppendTable(build(neighbour)))
			return ts, t, build(m)
		}}
	}
	var ms []*MTable
	var ok = true
	put := func(m *MTable, hows ...int) {
		for _, h := range hows {
			if ok {
				ok = yield(world(m, h))
			}
		}
		ms = append(ms, m)
	}
	for _, ty := range allTypes {
		d := domain(ty)
		put(table1("T", "c", ty), 0, 3)
		all := table1("T", "c", ty, d...)
		full = true
		put(all, 0)
		full = false
		put(all, 1, 3)
		for _, v := range d {
			put(table1("T", "c", ty, v), 0)
		}
		m := &MTable{Name: "T", Cols: []MCol{{"c", ty}, {"k", "int"}}, Struct: true, Rows: [][]interface{}{{d[len(d)-1], 1}}}
		put(m, 0, 1, 3)
	}
	for _, ty := range sortableTypes {
		d := domain(ty)
		for _, rev := range []bool{false, true} {
			m := table1("T", "c", ty, d...)
			for i := range m.Rows {
				m.Rows[i] = append(m.Rows[i], i%2)
			}
			m.Cols = append(m.Cols, MCol{"k", "int"})
			m.Keys = []MKey{{"k", !rev}, {"c", rev}}
			put(m, 0, 3, 4)
			if ty != "string" {
				put(m, 5)
			}
			m1 := table1("T", "c", ty, d...)
			m1.Keys = []MKey{{"c", rev}}
			put(m1, 0, 4)
		}
	}
	for _, m := range setPalette(uniOpt{Struct: true, Keys: true, Nested: true}) {
		nested := false
		for _, c := range m.Cols {
			nested = nested || c.Type == "*Table"
		}
		full = true
		put(m, 0)
		full = false
		put(m, 1, 3, 4, 5)
		if !nested {
			put(m, 2)
		}
	}
	o := uniOpt{Types: []string{"int", "string", "[]byte", "time.Time"}}
	if thorough {
		o.Types = allTypes
	}
	for i, m := range nestings(false, o) {
		put(m, 0)
		if i%5 == 0 {
			put(m, 1, 3)
		}
	}
	if thorough {
		for _, a := range allTypes {
			for _, b := range allTypes {
				for k := 0; k < 3; k++ {
					da, db := domain(a), domain(b)
					m := &MTable{Name: "T", Cols: []MCol{{"a", a}, {"b", b}}}
					for r := 0; r <= k; r++ {
						m.Rows = append(m.Rows, []interface{}{da[(k+r)%len(da)], db[(k*2+r)%len(db)]})
					}
					put(m, 0)
				}
			}
		}
	}
	// graphs of tables that contain each other, circular ones included
	graphs := func(n, slots int) {
		nestGraphs(n, slots, func(sl [][]int) bool {
			cp := fmt.Sprint(sl)
			for how := 0; how < 2 && ok; how++ {
				how := how
				sl2 := append([][]int{}, sl...)
				ok = yield(roInput{fmt.Sprintf("tables referring to each other %s, layout %d", cp, how), n*slots < 4, func() (*g.TableSet, *g.Table, *g.Table) {
					mk := func() []*g.Table {
						var l []*g.Table
						for i := 0; i < n; i++ {
							t, err := g.NewTable(fmt.Sprintf("G%d", i))
							must(err)
							must(t.AppendCol("k", "int"))
							if how == 0 {
								must(t.AppendCol("t", "*Table"))
								must(t.AppendRows(slots))
							} else {
								for s := 0; s < slots; s++ {
									must(t.AppendCol(fmt.Sprintf("t%d", s), "*Table"))
								}
								must(t.AppendRows(1))
							}
							l = append(l, t)
						}
						for i := 0; i < n; i++ {
							for s := 0; s < slots; s++ {
								if j := sl2[i][s]; j < n && j >= 0 {
									if how == 0 {
										must(l[i].SetTable("t", s, l[j]))
									} else {
										must(l[i].SetTable(fmt.Sprintf("t%d", s), 0, l[j]))
									}
								}
							}
						}
						return l
					}
					ts, err := g.NewTableSet("Set")
					must(err)
					l := mk()
					for _, t := range l {
						must(ts.AppendTable(t))
					}
					return ts, l[0], mk()[0]
				}})
			}
			return ok
		})
	}
	graphs(1, 1)
	graphs(1, 2)
	graphs(2, 1)
	graphs(2, 2)
	if thorough {
		graphs(3, 1)
		graphs(3, 2)
	}
}

func init() {
	register(&Checker{
		ID: "G24",
		Rule: "Inputs: tables of every column type with all boundary values, keyed, sorted, struct-shaped, nested up to three levels, made in six ways, and all graphs of up to 2 (thorough 3) tables " +
			"with up to 2 references each, circular ones included; each in a set with a neighbour. For each input and every read-only operation A (85 operations over all arguments within and just outside " +
			"the table: every getter, lookup, check, print, export, comparison, search, walk, copy, extract, generator, and being the source of another table's edit): A, then A again, then every operation in turn " +
			"(so every ordered pair, and every run of operations in list order after A; in the quick check every eighth operation on the larger part of the inputs). Oracle: each result equals that of the operation on an untouched twin, and a dump of everything reachable, " +
			"with object identities, is the same after A, and at the end.",
		Assumptions: []string{"time stamps in generated code are ignored", "GOB and map results are compared by their content, not their byte order"},
		Run: func(c *Ctx) {
			scratch, done := c.Scratch()
			defer done()
			ops := roOps()
			roInputs(c.Thorough, func(in roInput) bool {
				mk := func() *roWorld {
					w := &roWorld{scratch: scratch}
					w.ts, w.t, w.other = in.mk()
					return w
				}
				var base []string
				var baseDump string
				run := func(o roOp, w *roWorld) (r string) {
					defer func() {
						if e := recover(); e != nil {
							r = fmt.Sprintf("panic: %v", e)
						}
					}()
					return o.do(w)
				}
				reference := func() {
					if base != nil {
						return
					}
					for _, o := range ops {
						base = append(base, run(o, mk()))
					}
					baseDump = roDump(mk())
				}
				c.Do(func() string { return in.desc }, func(t *T) {
					reference()
					t.State(baseDump)
					for i, a := range ops {
						w := mk()
						if d := roDump(w); d != baseDump {
							t.Failf("observing the same new table twice differs:\n%s\n%s", baseDump, d)
							return
						}
						for n := 0; n < 2; n++ {
							if r := run(a, w); r != base[i] {
								t.Failf("call %d of %s gives\n%s\nnot\n%s", n+1, a.name, r, base[i])
								return
							}
							t.Step(1)
							if d := roDump(w); d != baseDump {
								t.Failf("%s (call %d) changed\n%s\nto\n%s", a.name, n+1, baseDump, d)
								return
							}
						}
						for j, b := range ops {
							if !in.full && !c.Thorough && (i+j)%8 != 0 {
								continue
							}
							if r := run(b, w); r != base[j] {
								t.Failf("after %s, %s gives\n%s\nnot\n%s", a.name, b.name, r, base[j])
								return
							}
							t.Step(1)
						}
						if d := roDump(w); d != baseDump {
							t.Failf("%s and then others changed\n%s\nto\n%s", a.name, baseDump, d)
							return
						}
						if strings.HasPrefix(base[i], "panic") {
							t.Outcome("panics: " + a.name)
						} else if strings.Contains(base[i], "error:") {
							t.Outcome("some error: " + a.name)
						} else {
							t.Outcome("no error: " + a.name)
						}
					}
				})
				return !c.Stopped()
			})
		},
	})
	_ = sort.Strings
}
