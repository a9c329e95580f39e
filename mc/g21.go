package main

// G21: generated Go code converts tables to structs and back without loss.
//
// Phase A (shards): for every table shape within the bounds, the three generators are called, the result is parsed and
// type-checked as one Go package with go/types, and the struct type and function signatures are compared with the shape.
// Phase B (supervisor): the generated code of a bounded set of shapes is compiled together with this explorer into a second
// program, which runs it on every bounded table of every shape and compares the structs and the table made back from them
// with the model.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// genConv is what the second program knows of one generated shape.
type genConv struct {
	FromTable func(t *g.Table) (rows [][]interface{}, err error)                // struct fields, row by row
	ThereBack func(t *g.Table) (rows [][]interface{}, back *g.Table, err error) // and the slice converted back
	ToTable   func(rows [][]interface{}) (*g.Table, error)                      // a slice made from these values
	Nil       func() (err1, err2 error)                                         // nil table, nil slice
}

var genReg map[string]genConv // filled in the second program only

var goKeywords = []string{"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto",
	"if", "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var"}

// names that the generated code, or Go itself, might use otherwise
var genNames = []string{"c", "X", "_x", "x_", "x1", "__", "table", "slice", "err", "rowIndex", "tableName", "colNames", "colTypes", "colName",
	"typeStruct", "i", "n", "ok", "row", "rows", "val", "Table", "TableSet", "NewTableFromMetadata", "AppendRow", "RowCount", "T", "MyTable", "_table", "err_", "table_", "rowIndex_",
	"error", "nil", "make", "len", "cap", "append", "new", "panic", "true", "false", "iota", "copy", "close", "delete", "print", "println", "recover", "real", "imag", "complex",
	"complex64", "complex128", "uintptr", "any", "comparable", "min", "max", "clear",
	"fmt", "gotables", "time", "Errorf", "init", "main", "_", "TypeStructSliceFromTable_T", "TypeStructSliceToTable_T", "a0_B9", "If", "GO", "Var", "Type", "Struct", "Error", "String", "Nil", "Fmt", "Init", "Slice", "Err", strings.Repeat("long", 60)}

func genMayRefuse(m *MTable) bool {
	n := m.Name
	if token.IsKeyword(n) || types.Universe.Lookup(n) != nil || n == "_" || n == "init" || n == "main" || n == "fmt" || n == "time" || n == "gotables" {
		return true
	}
	for _, c := range m.Cols {
		if token.IsKeyword(c.Name) || c.Name == "_" {
			return true
		}
	}
	return false
}

func shape(name string, cols ...string) *MTable { // cols: name, type, name, type...
	m := &MTable{Name: name}
	for i := 0; i < len(cols); i += 2 {
		m.Cols = append(m.Cols, MCol{cols[i], cols[i+1]})
	}
	return m
}

const genHead = "package gen\n\nimport (\n\t\"fmt\"\n\t\"time\"\n\n\tgotables \"github.com/urban-wombat/gotables\"\n)\n\nvar _ = fmt.Errorf\nvar _ time.Time\nvar _ *gotables.Table\n\n"

// generate calls the three generators.
func generate(t *g.Table) (parts [3]string, errs [3]error) {
	parts[0], errs[0] = t.GenerateTypeStruct()
	parts[1], errs[1] = t.GenerateTypeStructSliceFromTable()
	parts[2], errs[2] = t.GenerateTypeStructSliceToTable()
	return
}

func genNoComments(src string) (string, *ast.File, *token.FileSet, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", src, 0)
	if err != nil {
		return "", nil, nil, err
	}
	var b bytes.Buffer
	err = printer.Fprint(&b, fset, f)
	return b.String(), f, fset, err
}

// genImporter reads the export data that the go command has built.
func genImporter() types.Importer {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export", "fmt", "time", "github.com/urban-wombat/gotables")
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	cmd.Dir = filepath.Join(verif, "mc")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		panic(fmt.Sprintf("go list: %v: %s", err, eb.String()))
	}
	files := map[string]string{}
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var e struct{ ImportPath, Export string }
		if d.Decode(&e) != nil {
			break
		}
		files[e.ImportPath] = e.Export
	}
	return importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) { return os.Open(files[path]) })
}

// genCheck decides one shape; rows of m are carried along to see that they do not matter.
func genCheck(t *T, m *MTable, imp types.Importer) {
	tab := build(m)
	before := observe(tab).Full()
	parts, errs := generate(tab)
	t.Step(3)
	t.State(m.Full())
	nerr := 0
	for _, e := range errs {
		if e != nil {
			nerr++
		}
	}
	if after := observe(tab).Full(); after != before {
		t.Failf("generating code changed the table: %s to %s", before, after)
		return
	}
	if nerr != 0 && nerr != 3 {
		t.Failf("only some generators refuse: %v", errs)
		return
	}
	if nerr == 3 {
		t.Outcome("refused")
		if !genMayRefuse(m) {
			t.Failf("refused: %v", errs[0])
		}
		return
	}
	src := genHead + parts[0] + "\n" + parts[1] + "\n" + parts[2]
	text, f, _, err := genNoComments(src)
	if err != nil {
		t.Failf("generated code does not parse: %v\n%s", err, src)
		return
	}
	parts2, errs2 := generate(tab)
	if errs2 != [3]error{} {
		t.Failf("second generation fails: %v", errs2)
		return
	}
	text2, _, _, err := genNoComments(genHead + parts2[0] + "\n" + parts2[1] + "\n" + parts2[2])
	if err != nil || text2 != text {
		t.Failf("second generation gives other code: %v\n%s", err, text2)
		return
	}
	var terr []string
	conf := types.Config{Importer: imp, Error: func(err error) {
		if len(terr) < 4 {
			terr = append(terr, err.Error())
		}
	}}
	fset := token.NewFileSet()
	f, _ = parser.ParseFile(fset, "gen.go", src, 0)
	pkg, _ := conf.Check("gen", fset, []*ast.File{f}, nil)
	if len(terr) > 0 {
		t.Failf("generated code does not compile: %s\n%s", strings.Join(terr, "; "), src)
		return
	}
	// the declared struct
	obj := pkg.Scope().Lookup(m.Name)
	if obj == nil {
		t.Failf("no type %s declared\n%s", m.Name, src)
		return
	}
	st, ok := obj.Type().Underlying().(*types.Struct)
	if _, isType := obj.(*types.TypeName); !isType || !ok {
		t.Failf("%s is not a struct type", m.Name)
		return
	}
	if st.NumFields() != len(m.Cols) {
		t.Failf("%d fields for %d cols\n%s", st.NumFields(), len(m.Cols), parts[0])
		return
	}
	for i, c := range m.Cols {
		fl := st.Field(i)
		want := goTypeOf(c.Type)
		got := types.TypeString(fl.Type(), func(p *types.Package) string { return p.Name() })
		got = strings.Replace(got, "byte", "uint8", 1)
		if want == "*Table" {
			want = "*gotables.Table"
		}
		if got == "rune" {
			got = "int32"
		}
		if fl.Name() != c.Name || got != strings.Replace(want, "byte", "uint8", 1) {
			t.Failf("field %d is %s %s, column is %s %s", i, fl.Name(), got, c.Name, c.Type)
			return
		}
	}
	q := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		return p.Name()
	}
	for fn, want := range map[string]string{
		"TypeStructSliceFromTable_" + m.Name: "func(*gotables.Table) ([]" + m.Name + ", error)",
		"TypeStructSliceToTable_" + m.Name:   "func([]" + m.Name + ") (*gotables.Table, error)",
	} {
		o := pkg.Scope().Lookup(fn)
		if o == nil {
			t.Failf("no function %s\n%s", fn, src)
			return
		}
		sig, ok := o.Type().(*types.Signature)
		if !ok {
			t.Failf("%s is not a function", fn)
			return
		}
		// without the parameter names
		str := func(tp *types.Tuple) (l []string) {
			for i := 0; i < tp.Len(); i++ {
				l = append(l, types.TypeString(tp.At(i).Type(), q))
			}
			return
		}
		got := "func(" + strings.Join(str(sig.Params()), ", ") + ") (" + strings.Join(str(sig.Results()), ", ") + ")"
		if got != want {
			t.Failf("%s has type %s, not %s", fn, got, want)
			return
		}
	}
	t.Outcome(fmt.Sprintf("compiles, %d cols", len(m.Cols)))
}

// genShapes lists the shapes whose code phase B compiles and runs. Names of tables are unique.
func genShapes(thorough bool) (shapes []*MTable) {
	id := 0
	add := func(cols ...string) {
		shapes = append(shapes, shape(fmt.Sprintf("T%d", id), cols...))
		id++
	}
	add()
	for _, ty := range allTypes {
		add("c", ty)
	}
	for _, a := range allTypes {
		for _, b := range allTypes {
			add("a", a, "b", b)
		}
	}
	for _, n := range genNames {
		if n != "_" {
			add(n, "int", "s", "string")
			add("s", "string", n, "[]byte")
		}
	}
	for _, n := range []string{"table", "slice", "err", "rowIndex", "tableName", "colNames", "colTypes", "table_", "err_", "rowIndex_", "val", "x", "Table", "i"} {
		shapes = append(shapes, shape(n, "c", "int"), shape(n+"_2", n, "float64", "s", "string"))
	}
	shapes = append(shapes, shape("same", "same", "int", "t", "time.Time"), shape("same2", "x", "*Table", "same2", "string"))
	var l1, l2 []string
	for i, ty := range allTypes {
		l1 = append(l1, fmt.Sprintf("f%d", i), ty)
		l2 = append(l2, fmt.Sprintf("f%d", i), allTypes[len(allTypes)-1-i])
	}
	add(l1...)
	add(l2...)
	if thorough {
		tr := []string{"int", "string", "[]byte", "float64", "bool", "rune", "*Table", "time.Time", "uint8"}
		for _, a := range tr {
			for _, b := range tr {
				for _, c := range tr {
					add("a", a, "b", b, "c", c)
				}
			}
		}
	}
	return
}

// genRows enumerates the row contents that phase B runs a shape on.
func genRows(m *MTable, thorough bool, yield func(rows [][]interface{})) {
	yield(nil)
	switch len(m.Cols) {
	case 0:
		return
	case 1:
		d := domain(m.Cols[0].Type)
		max := 2
		if thorough {
			max = 3
		}
		for l := 1; l <= max; l++ {
			total := 1
			for i := 0; i < l; i++ {
				total *= len(d)
			}
			for k := 0; k < total; k++ {
				var rows [][]interface{}
				for i, x := 0, k; i < l; i++ {
					rows = append(rows, []interface{}{fresh(d[x%len(d)])})
					x /= len(d)
				}
				yield(rows)
			}
		}
	case 2:
		for _, a := range domain(m.Cols[0].Type) {
			for _, b := range domain(m.Cols[1].Type) {
				yield([][]interface{}{{fresh(a), fresh(b)}})
				if thorough {
					yield([][]interface{}{{ordinary(m.Cols[0].Type, 1), ordinary(m.Cols[1].Type, 2)}, {fresh(a), fresh(b)}, {zeroOf(m.Cols[0].Type), zeroOf(m.Cols[1].Type)}})
				}
			}
		}
		fallthrough
	default:
		for n := 1; n <= 3; n++ {
			for rot := 0; rot < 4; rot++ {
				var rows [][]interface{}
				for r := 0; r < n; r++ {
					var row []interface{}
					for c, col := range m.Cols {
						d := domain(col.Type)
						if rot == 0 {
							row = append(row, ordinary(col.Type, r))
						} else {
							row = append(row, fresh(d[(r*7+c*3+rot)%len(d)]))
						}
					}
					rows = append(rows, row)
				}
				yield(rows)
			}
		}
	}
}

func genRowsStr(rows [][]interface{}) string {
	var l []string
	for _, r := range rows {
		l = append(l, vals(r))
	}
	return strings.Join(l, " / ")
}

// genExec decides one table of one compiled shape.
func genExec(t *T, m *MTable, cv genConv) {
	tab := build(m)
	before := observe(tab).Full()
	want := genRowsStr(m.Rows)
	model := func(rows [][]interface{}) [][]interface{} {
		var o [][]interface{}
		for _, r := range rows {
			var l []interface{}
			for _, v := range r {
				l = append(l, modelVal(v, nil))
			}
			o = append(o, l)
		}
		return o
	}
	t.State(before)
	rows, back, err := cv.ThereBack(tab)
	t.Step(2)
	if err != nil {
		t.Failf("conversion fails: %v", err)
		return
	}
	if got := genRowsStr(model(rows)); got != want {
		t.Failf("the structs hold %s\nthe table %s", got, want)
		return
	}
	if after := observe(tab).Full(); after != before {
		t.Failf("converting changed the table: %s to %s", before, after)
		return
	}
	if got := observe(back).Data(); got != m.Data() {
		t.Failf("the table made from the structs is\n%s\nnot\n%s", got, m.Data())
		return
	}
	if eq, err := tab.Equals(back); !eq {
		t.Failf("Equals says no: %v", err)
		return
	}
	if ok, err := back.IsValidTable(); !ok {
		t.Failf("the table made from the structs is invalid: %v", err)
		return
	}
	// a slice that never was a table
	var vs [][]interface{}
	for _, r := range m.Rows {
		var l []interface{}
		for _, v := range r {
			l = append(l, implVal(v))
		}
		vs = append(vs, l)
	}
	made, err := cv.ToTable(vs)
	t.Step(1)
	if err != nil {
		t.Failf("a slice of structs is refused: %v", err)
		return
	}
	if got := observe(made).Data(); got != m.Data() {
		t.Failf("the table made from a slice is\n%s\nnot\n%s", got, m.Data())
		return
	}
	if len(m.Rows) == 0 {
		e1, e2 := cv.Nil()
		if e1 == nil || e2 == nil {
			t.Failf("nil table gives error %v, nil slice gives error %v", e1, e2)
		}
	}
	// a table without the columns
	other, err := g.NewTable("Other")
	must(err)
	must(other.AppendCol("zz_other", "bool"))
	must(other.AppendRows(1))
	if len(m.Cols) > 0 {
		if rows, err := cv.FromTable(other); err == nil {
			t.Failf("a table without the columns converts to %d rows", len(rows))
		}
	}
	t.Outcome(fmt.Sprintf("%d cols %d rows", len(m.Cols), len(m.Rows)))
}

func genRunExec(c *Ctx) {
	for _, s := range genShapes(c.Thorough) {
		cv, ok := genReg[s.Name]
		if !ok {
			continue
		}
		genRows(s, c.Thorough, func(rows [][]interface{}) {
			if c.Stopped() {
				return
			}
			m := &MTable{Name: s.Name, Cols: s.Cols, Rows: rows}
			c.Do(func() string { return "compiled " + m.Full() }, func(t *T) { genExec(t, m, cv) })
		})
	}
}

// genBuild writes and compiles the second program. Shapes whose code cannot be generated are left out (phase A reports them).
func genBuild(dir, verif string, thorough bool) (bin string, n int, err error) {
	src := filepath.Join(verif, "mc")
	out := filepath.Join(dir, "second")
	if err = os.MkdirAll(filepath.Join(out, "gen"), 0755); err != nil {
		return
	}
	files, _ := filepath.Glob(src + "/*.go")
	files = append(files, src+"/go.mod", src+"/go.sum")
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return "", 0, e
		}
		if e = os.WriteFile(filepath.Join(out, filepath.Base(f)), b, 0644); e != nil {
			return "", 0, e
		}
	}
	goType := func(ty string) string {
		if ty == "*Table" {
			return "*gotables.Table"
		}
		return ty
	}
	var reg bytes.Buffer
	reg.WriteString(genHead)
	reg.WriteString("type Conv = struct {\n\tFromTable func(t *gotables.Table) (rows [][]interface{}, err error)\n\tThereBack func(t *gotables.Table) (rows [][]interface{}, back *gotables.Table, err error)\n\tToTable func(rows [][]interface{}) (*gotables.Table, error)\n\tNil func() (err1, err2 error)\n}\n\nvar Reg = map[string]Conv{}\n")
	for k, s := range genShapes(thorough) {
		parts, errs := generate(build(s))
		if errs != [3]error{} {
			continue
		}
		n++
		os.WriteFile(filepath.Join(out, "gen", fmt.Sprintf("g%d.go", k)), []byte(genHead+parts[0]+"\n"+parts[1]+"\n"+parts[2]), 0644)
		var get, set []string
		for i, c := range s.Cols {
			get = append(get, "s[i]."+c.Name)
			set = append(set, fmt.Sprintf("s[i].%s = rows[i][%d].(%s)", c.Name, i, goType(c.Type)))
		}
		N := s.Name
		list := "for i := range s {\n_ = i\nrows = append(rows, []interface{}{" + strings.Join(get, ", ") + "})\n}\n"
		fmt.Fprintf(&reg, "func init() {\nReg[%q] = Conv{\n", N)
		fmt.Fprintf(&reg, "FromTable: func(t *gotables.Table) (rows [][]interface{}, e error) {\ns, e := TypeStructSliceFromTable_%s(t)\nif e != nil {\nreturn nil, e\n}\n%sreturn\n},\n", N, list)
		fmt.Fprintf(&reg, "ThereBack: func(t *gotables.Table) (rows [][]interface{}, back *gotables.Table, e error) {\ns, e := TypeStructSliceFromTable_%s(t)\nif e != nil {\nreturn nil, nil, e\n}\n%sback, e = TypeStructSliceToTable_%s(s)\nreturn\n},\n", N, list, N)
		fmt.Fprintf(&reg, "ToTable: func(rows [][]interface{}) (*gotables.Table, error) {\ns := make([]%s, len(rows))\nfor i := range s {\n_ = i\n%s\n}\nreturn TypeStructSliceToTable_%s(s)\n},\n", N, strings.Join(set, "\n"), N)
		fmt.Fprintf(&reg, "Nil: func() (e1, e2 error) {\n_, e1 = TypeStructSliceFromTable_%s(nil)\n_, e2 = TypeStructSliceToTable_%s(nil)\nreturn\n},\n}\n}\n", N, N)
	}
	os.WriteFile(filepath.Join(out, "gen", "reg.go"), reg.Bytes(), 0644)
	os.WriteFile(filepath.Join(out, "zz_second.go"), []byte("package main\n\nimport \"mc/gen\"\n\nfunc init() {\n\tgenReg = map[string]genConv{}\n\tfor k, v := range gen.Reg {\n\t\tgenReg[k] = genConv(v)\n\t}\n}\n"), 0644)
	bin = filepath.Join(dir, "mc2")
	cmd := exec.Command("go", "build", "-gcflags=-N -l", "-o", bin, ".")
	cmd.Dir = out
	b, e := cmd.CombinedOutput()
	if e != nil {
		return "", n, fmt.Errorf("%v: %s", e, b)
	}
	os.RemoveAll(out)
	return bin, n, nil
}

func genSupervised(p *Parent) {
	defer func() {
		if r := recover(); r != nil {
			p.add(&ShardResult{NFail: 1, Failures: []Failure{{Case: supBase, Key: "generate", Desc: "generating the code to compile", Msg: fmt.Sprint("panic: ", r)}}})
		}
	}()
	bin, n, err := genBuild(p.Dir, p.Verif, p.Tier == "thorough")
	if err != nil {
		p.add(&ShardResult{NFail: 1, Failures: []Failure{{Case: supBase, Key: "compile", Desc: "compiling the generated code of all shapes", Msg: clip(err.Error(), 3000)}}})
		return
	}
	p.Extra["shapes_compiled"] = n
	id, old := p.ID, p.Bin
	p.ID, p.Bin = "G21X", bin
	before := p.Total.Cases
	p.runShards(supBase)
	p.ID, p.Bin = id, old
	p.Extra["tables_run_through_compiled_code"] = p.Total.Cases - before
}

func genReplay(tier string, k int64) (f Failure, failed bool) {
	dir, err := os.MkdirTemp("", "mcreplay-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	verif := os.Getenv("VERIF_DIR")
	bin, _, err := genBuild(dir, verif, tier == "thorough")
	if err != nil {
		return Failure{Desc: "compiling", Msg: err.Error()}, true
	}
	p := &Parent{ID: "G21X", Tier: tier, Dir: dir, Bin: bin, Verif: verif, States: map[uint64]struct{}{}}
	r, _, why := p.runChild("replay", 200, supHang, "-only", fmt.Sprint(k))
	if r == nil {
		return Failure{Desc: p.describe(k), Msg: why}, true
	}
	if len(r.Failures) > 0 {
		return r.Failures[0], true
	}
	return
}

func init() {
	register(&Checker{ID: "G21X", Run: genRunExec})
	register(&Checker{
		ID: "G21",
		Rule: "Phase A: every shape out of: all sequences of 0..2 (thorough 3) of the 20 column types; every table name and every column name of a list of 90 awkward names " +
			"(Go keywords, predeclared names, names of imports, functions, parameters and variables) with every column type; all ordered pairs of these names as two columns " +
			"and as table and column (thorough: all triples table/column/column over the clash-prone ones); 0 and 2 rows. Oracle: all three generators refuse (only where a name cannot be used in Go) " +
			"or all give code; the code parses, type-checks with go/types, declares exactly the struct and signatures of the shape, is the same when generated again, and the table is unchanged. " +
			"Phase B: the generated code of every shape of 0, 1 and 2 columns over the 20 types (thorough: 3 over 9 types), of awkward names and of all 20 types at once is compiled and run on all " +
			"sequences of up to 2 (thorough 3) boundary values, or all pairs of boundary values. Oracle: struct fields equal the model's cells, the table made back equals the model, nil is an error.",
		Assumptions: []string{"go/types and the gc compiler of the installed toolchain decide whether code compiles", "the time stamp in the generated comment is not part of the code"},
		Run: func(c *Ctx) {
			imp := genImporter()
			do := func(m *MTable) {
				c.Do(func() string { return "shape " + m.Full() }, func(t *T) { genCheck(t, m, imp) })
			}
			histories(c, c.pick(1, 2), roNamed("GenerateTypeStruct", "GenerateTypeStructSliceFromTable", "GenerateTypeStructSliceToTable"))
			maxCols := c.pick(2, 3)
			for l := 0; l <= maxCols; l++ {
				total := 1
				for i := 0; i < l; i++ {
					total *= len(allTypes)
				}
				for k := 0; k < total && !c.Stopped(); k++ {
					m := &MTable{Name: "T"}
					for i, x := 0, k; i < l; i++ {
						m.Cols = append(m.Cols, MCol{fmt.Sprintf("c%d", i), allTypes[x%len(allTypes)]})
						x /= len(allTypes)
					}
					do(m)
					if l == 1 {
						m2 := &MTable{Name: "T", Cols: m.Cols, Rows: [][]interface{}{{ordinary(m.Cols[0].Type, 0)}, {ordinary(m.Cols[0].Type, 1)}}}
						do(m2)
						m3 := &MTable{Name: "T", Cols: m.Cols, Rows: [][]interface{}{{ordinary(m.Cols[0].Type, 0)}}, Struct: true}
						do(m3)
					}
				}
			}
			names := append(append([]string{}, genNames...), goKeywords...)
			for _, n := range names {
				do(shape(n))
				for _, ty := range allTypes {
					do(shape(n, "c", ty))
					do(shape("T", n, ty))
				}
			}
			for _, a := range names {
				for _, b := range names {
					do(shape(a, b, "string"))
					if a != b {
						do(shape("T", a, "int", b, "string"))
					}
				}
			}
			if c.Thorough {
				hot := []string{"table", "err", "rowIndex", "slice", "T", "nil", "len", "make", "error", "fmt", "gotables", "time", "i", "tableName", "colNames", "colTypes", "table_", "err_", "rowIndex_", "type"}
				for _, tn := range hot {
					for _, a := range hot {
						for _, b := range hot {
							if a != b {
								do(shape(tn, a, "time.Time", b, "*Table"))
							}
						}
					}
				}
			}
			c.Do(func() string { return "nil table" }, func(t *T) {
				_, errs := generate(nil)
				for _, e := range errs {
					if e == nil {
						t.Failf("code generated from a nil table: %v", errs)
					}
				}
			})
		},
		Supervised: genSupervised,
		Replay:     genReplay,
	})
	sort.Strings(goKeywords)
}
