package main

import (
	"fmt"
	"math"
	"reflect"
	"time"

	g "github.com/urban-wombat/gotables"
)

var methodStem = map[string]string{"[]byte": "ByteSlice", "[]uint8": "Uint8Slice", "bool": "Bool", "byte": "Byte", "float32": "Float32", "float64": "Float64",
	"int": "Int", "int16": "Int16", "int32": "Int32", "rune": "Rune", "int64": "Int64", "int8": "Int8", "string": "String", "uint": "Uint", "uint16": "Uint16",
	"uint32": "Uint32", "uint64": "Uint64", "uint8": "Uint8", "*Table": "Table", "time.Time": "Time"}

// accessor variants: by name / by index, error-returning / must
type variant struct {
	byIndex, must bool
}

var variants = []variant{{false, false}, {true, false}, {false, true}, {true, true}}

func setterName(stem string, v variant) string {
	n := "Set" + stem
	if v.byIndex {
		n += "ByColIndex"
	}
	if v.must {
		n += "MustSet"
	}
	return n
}
func getterName(stem string, v variant) string {
	n := "Get" + stem
	if v.byIndex {
		n += "ByColIndex"
	}
	if v.must {
		n += "MustGet"
	}
	return n
}

// callAcc calls a setter or getter by reflection. refused: error returned (or panic, must variants only).
func callAcc(t *g.Table, method string, must bool, args ...interface{}) (out interface{}, refused bool, bad string) {
	mv := reflect.ValueOf(t).MethodByName(method)
	if !mv.IsValid() {
		return nil, false, "no method " + method
	}
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		if a == nil {
			in[i] = reflect.Zero(mv.Type().In(i))
		} else {
			in[i] = reflect.ValueOf(a)
		}
	}
	var res []reflect.Value
	_, p := try(func() error { res = mv.Call(in); return nil })
	if p != "" {
		if must {
			return nil, true, ""
		}
		return nil, true, method + " panics: " + p
	}
	for _, r := range res {
		if r.Type() == reflect.TypeOf((*error)(nil)).Elem() {
			if !r.IsNil() {
				refused = true
			}
		} else {
			out = r.Interface()
		}
	}
	return out, refused, ""
}

// cellTypeCompatible: the accessor of type st works on a column of type ct.
func compatible(st, ct string) bool { return st == ct || sameStorage(st, ct) }

// wideTable has one column per type (in the given rotation) and rows of ordinary values.
func wideTable(rot, rows int) *MTable {
	m := &MTable{Name: "W"}
	for i := range allTypes {
		ty := allTypes[(i+rot)%len(allTypes)]
		m.Cols = append(m.Cols, MCol{"c_" + methodStem[ty], ty})
	}
	for r := 0; r < rows; r++ {
		var row []interface{}
		for _, c := range m.Cols {
			row = append(row, ordinary(c.Type, r))
		}
		m.Rows = append(m.Rows, row)
	}
	return m
}

// checkGetters reads cell (c,r) with every getter of every type and every variant.
func checkGetters(t *T, tab *g.Table, m *MTable, c, r int) {
	want := ""
	inRow := r >= 0 && r < len(m.Rows)
	name := "nosuch"
	ct := ""
	if c >= 0 && c < len(m.Cols) {
		name = m.Cols[c].Name
		ct = m.Cols[c].Type
		if inRow {
			want = val(m.Rows[r][c])
		}
	}
	try1 := func(st, method string, v variant) {
		var col interface{} = name
		if v.byIndex {
			col = c
		}
		t.Step(1)
		out, refused, bad := callAcc(tab, method, v.must, col, r)
		if bad != "" {
			t.Failf("%s(%v, %d) of %s column: %s", method, col, r, ct, bad)
			return
		}
		ok := ct != "" && inRow && (st == "" || compatible(st, ct))
		if ok && refused {
			t.Failf("%s(%v, %d) of %s column is refused", method, col, r, ct)
		}
		if !ok && !refused {
			t.Failf("%s(%v, %d) of %s column in a table of %d rows gives %s instead of being refused", method, col, r, ct, len(m.Rows), val(modelVal(out, nil)))
		}
		if ok && !refused && val(modelVal(out, nil)) != want {
			t.Failf("%s(%v, %d) = %s, want %s", method, col, r, val(modelVal(out, nil)), want)
		}
	}
	for _, st := range allTypes {
		for _, v := range variants {
			try1(st, getterName(methodStem[st], v), v)
		}
	}
	for _, v := range variants {
		try1("", getterName("Val", v), v)
	}
}

// namesakes are values of types that are only named like column types.
func namesakes() []interface{} {
	type int int8
	type string []byte
	type float64 float32
	type bool uint8
	type Table struct{}
	type Time struct{}
	return []interface{}{int(1), string("x"), float64(1), bool(1), &Table{}, Time{}}
}

func runG03(c *Ctx) {
	histories(c, c.pick(1, 2), roNamed("GetVal", "GetValByColIndex", "Get<Type>", "Get<Type>ByColIndex", "GetValAsString", "GetValAsStringByColIndex", "IsValidColValue"))
	bigStores(c)
	rots := []int{0, 7}
	if c.Thorough {
		rots = []int{0, 1, 2, 3, 5, 7, 11, 13, 17, 19}
	}
	// (A) one store through every setter/variant/value, then read through every getter/variant
	for _, rot := range rots {
		m := wideTable(rot, 2)
		for ci := -1; ci <= len(m.Cols); ci++ {
			for r := -1; r <= 2; r++ {
				for _, st := range append(append([]string{}, allTypes...), "Val") {
					ci, r, st := ci, r, st
					var vs []interface{}
					dt := st
					if st == "Val" {
						// the generic setter: values of every Go type
						for _, ty := range allTypes {
							d := domain(ty)
							vs = append(vs, d[len(d)-1])
						}
						if ci >= 0 && ci < len(m.Cols) {
							vs = append(vs, domain(m.Cols[ci].Type)...)
						}
						vs = append(vs, nil, int64(5), []string{"x"}, map[string]int{}, struct{}{}, complex(1, 2), time.Second, [2]byte{1, 2}, []int{1}, (*g.Table)(nil), &MSet{})
						vs = append(vs, namesakes()...)
					} else {
						vs = domain(st)
					}
					stem := "Val"
					if st != "Val" {
						stem = methodStem[st]
					}
					for vi, v := range vs {
						if rot > 0 && !c.Thorough && vi > 1 {
							break
						}
						for _, va := range variants {
							v, va := v, va
							if st == "Val" && va.must {
								continue // there is no SetValMustSet
							}
							method := setterName(stem, va)
							c.Do(func() string {
								return fmt.Sprintf("table with columns %v (2 rows of ordinary values): %s(col %d, row %d, %s)", m.Cols, method, ci, r, val(v))
							}, func(t *T) {
								tab := build(m)
								want := m.Clone()
								ct := ""
								var col interface{} = "nosuch"
								if ci >= 0 && ci < len(m.Cols) {
									ct = m.Cols[ci].Type
									col = m.Cols[ci].Name
								}
								if va.byIndex {
									col = ci
								}
								ok := ct != "" && r >= 0 && r < 2
								if st == "Val" {
									gt := fmt.Sprintf("%T", v)
									if _, isT := v.(*MTable); isT {
										gt = "*Table"
									}
									ok = ok && goTypeOf(ct) == gt
								} else {
									ok = ok && compatible(dt, ct)
								}
								if st == "Val" && !va.byIndex && r == 0 {
									for _, f := range []func(string, interface{}) (bool, error){tab.IsValidCellValue, tab.IsValidColValue} {
										t.Step(1)
										valid, err := f(col.(string), implVal(v))
										if valid != ok || valid != (err == nil) {
											t.Failf("IsValidCellValue of a %s column is %v, %v; storing it should be accepted: %v", ct, valid, err, ok)
											return
										}
									}
								}
								t.Step(1)
								_, refused, bad := callAcc(tab, method, va.must, col, r, implVal(v))
								if bad != "" {
									t.Failf("%s", bad)
									return
								}
								if ok == refused {
									t.Failf("%s of a %s column, row %d of 2: refused=%v, want refused=%v", method, ct, r, refused, !ok)
									return
								}
								if ok {
									want.Rows[r][ci] = v
								}
								if got := observe(tab).Full(); got != want.Full() {
									t.Failf("table is\n  %s\n want\n  %s", got, want.Full())
									return
								}
								t.State(want.Full())
								t.Outcome(fmt.Sprintf("%s refused=%v", ct, refused))
								checkGetters(t, tab, want, ci, r)
							})
						}
					}
				}
			}
		}
	}
	// (B) nil values are refused
	{
		m := wideTable(0, 1)
		for ci := range m.Cols {
			for _, method := range []string{"SetVal", "SetValByColIndex", "SetTable", "SetTableByColIndex", "SetByteSlice", "SetUint8Slice", "SetByteSliceByColIndex", "SetUint8SliceByColIndex"} {
				ci, method := ci, method
				c.Do(func() string { return fmt.Sprintf("%s(col %s, 0, nil)", method, m.Cols[ci].Name) }, func(t *T) {
					tab := build(m)
					var col interface{} = m.Cols[ci].Name
					if len(method) > 10 && method[len(method)-10:] == "ByColIndex" {
						col = ci
					}
					t.Step(1)
					_, refused, bad := callAcc(tab, method, false, col, 0, nil)
					if bad != "" || !refused {
						t.Failf("%s of nil: refused=%v %s", method, refused, bad)
					}
					if got := observe(tab).Full(); got != m.Full() {
						t.Failf("table is\n  %s\n want\n  %s", got, m.Full())
					}
				})
			}
		}
	}
	// (C) sequences of two stores into a table whose rows came about in different ways; then the whole table is compared
	type mk struct {
		name string
		f    func(m *MTable) *g.Table
	}
	emptyCols := func(m *MTable) *g.Table {
		t := mustT(g.NewTable(m.Name))
		for _, col := range m.Cols {
			must(t.AppendCol(col.Name, col.Type))
		}
		return t
	}
	mks := []mk{
		{"AppendRows(3)", func(m *MTable) *g.Table { t := emptyCols(m); must(t.AppendRows(3)); return t }},
		{"AppendRow() x3", func(m *MTable) *g.Table {
			t := emptyCols(m)
			for i := 0; i < 3; i++ {
				must(t.AppendRow())
			}
			return t
		}},
		{"columns after rows", func(m *MTable) *g.Table {
			t := mustT(g.NewTable(m.Name))
			must(t.AppendRows(2))
			for _, col := range m.Cols {
				must(t.AppendCol(col.Name, col.Type))
			}
			must(t.AppendRow())
			return t
		}},
		{"NewTableFromMetadata", func(m *MTable) *g.Table {
			var n, ty []string
			for _, col := range m.Cols {
				n = append(n, col.Name)
				ty = append(ty, col.Type)
			}
			t := mustT(g.NewTableFromMetadata(m.Name, n, ty))
			must(t.AppendRows(3))
			return t
		}},
		{"AppendColsFromTable+AppendRows", func(m *MTable) *g.Table {
			t := mustT(g.NewTable(m.Name))
			must(t.AppendColsFromTable(emptyCols(m)))
			must(t.AppendRows(3))
			return t
		}},
		{"after deleting and re-adding rows", func(m *MTable) *g.Table {
			t := emptyCols(m)
			must(t.AppendRows(4))
			must(t.DeleteRow(1))
			must(t.DeleteRows(0, 1))
			must(t.AppendRows(2))
			return t
		}},
	}
	zero := wideTable(0, 0)
	addRowsM(zero, 3)
	for _, k := range mks {
		k := k
		c.Do(func() string { return "zero values after " + k.name }, func(t *T) {
			tab := k.f(zero)
			t.Step(1)
			if got := observe(tab).Full(); got != zero.Full() {
				t.Failf("table is\n  %s\n want\n  %s", got, zero.Full())
			}
			for r := 0; r < 3; r++ {
				for ci := range zero.Cols {
					checkGetters(t, tab, zero, ci, r)
				}
			}
		})
		n := len(zero.Cols)
		for c1 := 0; c1 < n*3; c1++ {
			for c2 := 0; c2 < n*3; c2++ {
				c1, c2 := c1, c2
				if !c.Thorough && c1%n != c2%n && (c1+c2)%5 != 0 {
					continue
				}
				c.Do(func() string {
					return fmt.Sprintf("%s; store in (%s, row %d), then in (%s, row %d)", k.name, zero.Cols[c1%n].Name, c1/n, zero.Cols[c2%n].Name, c2/n)
				}, func(t *T) {
					tab := k.f(zero)
					want := zero.Clone()
					for i, x := range []int{c1, c2} {
						ci, r := x%n, x/n
						v := ordinary(want.Cols[ci].Type, i+1)
						t.Step(1)
						_, refused, bad := callAcc(tab, setterName(methodStem[want.Cols[ci].Type], variant{byIndex: i == 1}), false, map[bool]interface{}{true: ci, false: want.Cols[ci].Name}[i == 1], r, implVal(v))
						if refused {
							t.Failf("store refused %s", bad)
							return
						}
						want.Rows[r][ci] = v
					}
					if got := observe(tab).Full(); got != want.Full() {
						t.Failf("table is\n  %s\n want\n  %s", got, want.Full())
					}
				})
			}
		}
	}
	// (D) zero and NaN fills
	fills := []struct {
		method string
		kind   string // which cells: row, col, colidx, cell, cellidx, all
		nan    bool
	}{
		{"SetRowFloatCellsToNaN", "row", true}, {"SetAllFloatCellsToNaN", "all", true}, {"SetColFloatCellsToNaN", "col", true}, {"SetColFloatCellsToNaNByColIndex", "colidx", true},
		{"SetFloatCellToNaN", "cell", true}, {"SetFloatCellToNaNByColIndex", "cellidx", true},
		{"SetRowCellsToZeroValue", "row", false}, {"SetColCellsToZeroValue", "col", false}, {"SetColCellsToZeroValueByColIndex", "colidx", false},
		{"SetCellToZeroValue", "cell", false}, {"SetCellToZeroValueByColIndex", "cellidx", false},
	}
	var filled []*MTable
	for _, rot := range rots {
		for rows := 0; rows <= 3; rows++ {
			filled = append(filled, wideTable(rot, rows))
		}
	}
	for n := 1; n <= 24; n++ { // every width, with a float of either kind first, last and in the middle
		for _, f := range []string{"float32", "float64"} {
			for _, at := range []int{0, n / 2, n - 1} {
				var types []string
				for i := 0; i < n; i++ {
					typ := allTypes[i*7%len(allTypes)]
					if i == at {
						typ = f
					}
					types = append(types, typ)
				}
				filled = append(filled, sizedTable(2, types...))
			}
		}
	}
	for _, n := range []int{64, 255, 256, 257, 1023, 1024, 1025, 2049, c.pick(3100, 10002)} {
		filled = append(filled, sizedTable(n, "float64", "int", "float32", "string"))
	}
	for _, n := range []int{65, 257, c.pick(300, 1025)} {
		var types []string
		for i := 0; i < n; i++ {
			types = append(types, allTypes[i*7%len(allTypes)])
		}
		filled = append(filled, sizedTable(2, types...))
	}
	{
		for _, m := range filled {
			rows := len(m.Rows)
			for _, f := range fills {
				f := f
				cols := []int{0}
				rws := []int{0}
				if f.kind == "col" || f.kind == "colidx" || f.kind == "cell" || f.kind == "cellidx" {
					cols = nil
					cols = picks(len(m.Cols), 30)
				}
				if f.kind == "row" || f.kind == "cell" || f.kind == "cellidx" {
					rws = picks(rows, 30)
				}
				for _, ci := range cols {
					for _, r := range rws {
						ci, r, m := ci, r, m
						c.Do(func() string { return fmt.Sprintf("%s(col %d, row %d) on %s", f.method, ci, r, clip(m.Full(), 600)) }, func(t *T) {
							tab := build(m)
							want := m.Clone()
							var args []interface{}
							var col interface{} = ci
							if f.kind == "col" || f.kind == "cell" {
								col = "nosuch"
								if ci >= 0 && ci < len(m.Cols) {
									col = m.Cols[ci].Name
								}
							}
							inCol := func(i int) bool { return true }
							inRow := func(i int) bool { return true }
							okCol := ci >= 0 && ci < len(m.Cols)
							okRow := r >= 0 && r < len(m.Rows)
							ok := true
							switch f.kind {
							case "row":
								args = []interface{}{r}
								inRow = func(i int) bool { return i == r }
								ok = okRow
							case "col", "colidx":
								args = []interface{}{col}
								inCol = func(i int) bool { return i == ci }
								ok = okCol
							case "cell", "cellidx":
								args = []interface{}{col, r}
								inRow = func(i int) bool { return i == r }
								inCol = func(i int) bool { return i == ci }
								ok = okRow && okCol
							}
							isF := func(i int) bool { return m.Cols[i].Type == "float32" || m.Cols[i].Type == "float64" }
							if f.nan && f.kind != "row" && f.kind != "all" && ok && !isF(ci) {
								ok = false
							}
							if ok {
								for i := range m.Rows {
									for j := range m.Cols {
										if inRow(i) && inCol(j) {
											if f.nan {
												if m.Cols[j].Type == "float32" {
													want.Rows[i][j] = float32(math.NaN())
												} else if m.Cols[j].Type == "float64" {
													want.Rows[i][j] = math.NaN()
												}
											} else {
												want.Rows[i][j] = zeroOf(m.Cols[j].Type)
											}
										}
									}
								}
							}
							t.Step(1)
							_, refused, bad := callAcc(tab, f.method, false, args...)
							if bad != "" {
								t.Failf("%s", bad)
								return
							}
							// filling a column of a table without rows touches nothing, whether or not it complains
							if refused == ok && !(f.kind == "col" || f.kind == "colidx" || f.kind == "all") || ok && refused || (!ok && !refused && rows > 0) {
								t.Failf("refused=%v, want refused=%v", refused, !ok)
								return
							}
							if got := observe(tab).Full(); got != want.Full() {
								t.Failf("table is\n  %s\n want\n  %s", got, want.Full())
							}
							t.State(want.Full())
						})
					}
				}
			}
		}
	}
}

func init() {
	register(&Checker{ID: "G03", Run: runG03,
		Rule:        "a table with one column of each of the 20 types: (A) every setter (20 types and the generic one; by name/by index; error-returning/must) x every column incl. unknown x every row incl. out of range x boundary values of the type, then every getter of every type and variant on that cell; (B) nil; (C) pairs of stores into tables whose rows arose in 6 ways, whole table compared; (D) every zero/NaN fill x column x row x 0..3 rows, and on tables of up to 3100 (10002) rows or 300 (1025) columns; stores and reads by all variants in tables of every number of rows and of columns up to 40 (80) and around the powers of two up to 300 (1100)",
		Assumptions: []string{"values outside the boundary domains are stored like those inside"}})
}
