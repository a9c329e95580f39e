package main

import (
	"fmt"
	"sort"

	g "github.com/urban-wombat/gotables"
)

// Op is one edit: its effect on the plain grid (nil = the grid refuses it) and the call on the implementation.
type Op struct {
	Desc  string
	Model func(m *MTable) *MTable // returns the new grid, or nil if the edit must be refused
	Impl  func(t *g.Table) error
	// Unchecked column index: the typed/indexed accessor may panic instead of returning an error.
	MayPanic bool
}

func upd(f func(n *MTable) bool) func(*MTable) *MTable {
	return func(m *MTable) *MTable {
		n := m.Clone()
		if f(n) {
			return n
		}
		return nil
	}
}

var validNames = map[string]bool{"a": true, "A": true, "aA": true, "d": true, "U": true, "V": true, "T": true}

func isValidColNameM(n string) bool { return validNames[n] }

func okType(t string) bool {
	for _, x := range allTypes {
		if x == t {
			return true
		}
	}
	return false
}

func dropKey(m *MTable, col string) {
	var ks []MKey
	for _, k := range m.Keys {
		if k.Col != col {
			ks = append(ks, k)
		}
	}
	m.Keys = ks
}

func delColM(n *MTable, i int) bool {
	if i < 0 || i >= len(n.Cols) {
		return false
	}
	dropKey(n, n.Cols[i].Name)
	n.Cols = append(n.Cols[:i:i], n.Cols[i+1:]...)
	for r := range n.Rows {
		n.Rows[r] = append(n.Rows[r][:i:i], n.Rows[r][i+1:]...)
	}
	return true
}

func renameColM(n *MTable, i int, to string) bool {
	if i < 0 || i >= len(n.Cols) || n.Col(to) >= 0 || !isValidColNameM(to) {
		return false
	}
	from := n.Cols[i].Name
	n.Cols[i].Name = to
	for k := range n.Keys {
		if n.Keys[k].Col == from {
			n.Keys[k].Col = to
		}
	}
	return true
}

func addColM(n *MTable, name, typ string) bool {
	if !isValidColNameM(name) || !okType(typ) || n.Col(name) >= 0 {
		return false
	}
	n.Cols = append(n.Cols, MCol{name, typ})
	for r := range n.Rows {
		n.Rows[r] = append(n.Rows[r], zeroOf(typ))
	}
	return true
}

func addRowsM(n *MTable, k int) bool {
	if k < 0 {
		return false
	}
	for ; k > 0; k-- {
		var row []interface{}
		for _, c := range n.Cols {
			row = append(row, zeroOf(c.Type))
		}
		n.Rows = append(n.Rows, row)
	}
	return true
}

func delRowsM(n *MTable, i, j int) bool {
	if i < 0 || j < i || j >= len(n.Rows) {
		return false
	}
	n.Rows = append(n.Rows[:i:i], n.Rows[j+1:]...)
	return true
}

func permuteM(n *MTable, p []int) bool {
	if len(p) != len(n.Cols) {
		return false
	}
	s := append([]int{}, p...)
	sort.Ints(s)
	for i := range s {
		if s[i] != i {
			return false
		}
	}
	oc := append([]MCol{}, n.Cols...)
	for i := range p {
		n.Cols[i] = oc[p[i]]
	}
	for r := range n.Rows {
		or := append([]interface{}{}, n.Rows[r]...)
		for i := range p {
			n.Rows[r][i] = or[p[i]]
		}
	}
	return true
}

func swapM(n *MTable, i, j int) bool {
	if i < 0 || j < 0 || i >= len(n.Cols) || j >= len(n.Cols) || i == j {
		return false
	}
	p := make([]int, len(n.Cols))
	for k := range p {
		p[k] = k
	}
	p[i], p[j] = j, i
	return permuteM(n, p)
}

func perms(n int) (r [][]int) {
	if n > 5 { // some of the many
		for _, p := range patterns {
			var perm []int
			seen := map[int]bool{}
			for i := 0; i < n; i++ {
				k := p.f(i, n) % n
				perm, seen[k] = append(perm, k), true
			}
			if len(seen) == n {
				r = append(r, perm)
			}
		}
		return
	}
	if n == 0 {
		return [][]int{{}}
	}
	var rec func(cur []int, used []bool)
	rec = func(cur []int, used []bool) {
		if len(cur) == n {
			r = append(r, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				rec(append(cur, i), used)
				used[i] = false
			}
		}
	}
	rec(nil, make([]bool, n))
	return
}

// other tables used as sources of rows and columns
var srcTables = []*MTable{
	{Name: "S", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{7}, {8}}},
	{Name: "S", Cols: []MCol{{"A", "string"}, {"aA", "float64"}}, Rows: [][]interface{}{{"s", 2.5}}},
	{Name: "S", Cols: []MCol{{"aA", "float64"}, {"a", "string"}}, Rows: [][]interface{}{{1.5, "q"}}},
}

func addColsFromM(n *MTable, src *MTable) bool {
	for _, c := range src.Cols {
		if i := n.Col(c.Name); i >= 0 {
			if n.Cols[i].Type != c.Type {
				return false
			}
			continue
		}
		if !addColM(n, c.Name, c.Type) {
			return false
		}
	}
	return true
}

func addRowsFromM(n *MTable, src *MTable, first, last int) bool {
	if first > last {
		return true
	}
	if first < 0 || last >= len(src.Rows) {
		return false
	}
	for _, c := range src.Cols {
		i := n.Col(c.Name)
		if i < 0 || !sameStorage(n.Cols[i].Type, c.Type) {
			return false
		}
	}
	for r := first; r <= last; r++ {
		addRowsM(n, 1)
		row := n.Rows[len(n.Rows)-1]
		for ci, c := range src.Cols {
			row[n.Col(c.Name)] = fresh(src.Rows[r][ci])
		}
	}
	return true
}

func strs(p []string) string {
	s := ""
	for i, x := range p {
		if i > 0 {
			s += ", "
		}
		s += fmt.Sprintf("%q", x)
	}
	return s
}

func sampleVal(typ string) interface{} {
	switch typ {
	case "int":
		return 5
	case "string":
		return "z"
	case "float64":
		return 0.5
	}
	return zeroOf(typ)
}

func setKeysM(n *MTable, keys []string) bool {
	var ks []MKey
	for _, k := range keys {
		i := n.Col(k)
		if i < 0 || !isSortable(n.Cols[i].Type) {
			return false
		}
		ks = append(ks, MKey{k, false})
	}
	n.Keys = ks
	return true
}

func isSortable(t string) bool {
	for _, s := range sortableTypes {
		if s == t {
			return true
		}
	}
	return false
}

func setRevM(n *MTable, keys []string) bool {
	if len(keys) > 0 && len(n.Keys) == 0 {
		return false
	}
	for _, k := range keys {
		found := false
		for i := range n.Keys {
			if n.Keys[i].Col == k {
				n.Keys[i].Rev = true
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

func orderByKeysM(n *MTable) bool {
	var p []int
	used := map[int]bool{}
	for _, k := range n.Keys {
		i := n.Col(k.Col)
		if i >= 0 && !used[i] {
			used[i] = true
			p = append(p, i)
		}
	}
	for i := range n.Cols {
		if !used[i] {
			p = append(p, i)
		}
	}
	return permuteM(n, p)
}

// editOps lists the edits tried in state m. small=true is the reduced alphabet used for deeper sequences.
func editOps(m *MTable, maxCols, maxRows int, small bool) []Op {
	var ops []Op
	add := func(desc string, model func(*MTable) *MTable, impl func(*g.Table) error) {
		ops = append(ops, Op{Desc: desc, Model: model, Impl: impl})
	}
	names := []string{"a", "A", "aA"}
	nc, nr := len(m.Cols), len(m.Rows)

	// columns
	addCol := func(n, ty string) {
		add(fmt.Sprintf("AppendCol(%q, %q)", n, ty), upd(func(x *MTable) bool { return addColM(x, n, ty) }), func(t *g.Table) error { return t.AppendCol(n, ty) })
	}
	for _, n := range names {
		if nc < maxCols || m.Col(n) >= 0 {
			addCol(n, "int")
			if !small || n != "a" {
				addCol(n, "string")
			}
		}
	}
	if nc < maxCols {
		if !small {
			addCol("aA", "float64")
		}
		for _, bad := range []string{"", "1x", "a b", "int", "x-"} {
			if small && bad != "int" {
				continue
			}
			addCol(bad, "int")
		}
		for _, bad := range []string{"", "integer", "Int", "complex64"} {
			if small && bad != "integer" {
				continue
			}
			addCol("aA", bad)
		}
	}
	for _, n := range append([]string{"zz"}, names...) {
		n := n
		if small && n == "zz" {
			continue
		}
		add(fmt.Sprintf("DeleteCol(%q)", n), upd(func(x *MTable) bool { return delColM(x, x.Col(n)) }), func(t *g.Table) error { return t.DeleteCol(n) })
	}
	for i := -1; i <= nc; i++ {
		i := i
		if small && i != 0 {
			continue
		}
		add(fmt.Sprintf("DeleteColByColIndex(%d)", i), upd(func(x *MTable) bool { return delColM(x, i) }), func(t *g.Table) error { return t.DeleteColByColIndex(i) })
	}
	ren := []string{"a", "A", "aA", "U", "", "int", "9"}
	if small {
		ren = []string{"a", "aA"}
	}
	for _, from := range append([]string{"zz"}, names...) {
		if small && from == "zz" {
			continue
		}
		for _, to := range ren {
			from, to := from, to
			add(fmt.Sprintf("RenameCol(%q, %q)", from, to), upd(func(x *MTable) bool { return renameColM(x, x.Col(from), to) }), func(t *g.Table) error { return t.RenameCol(from, to) })
		}
	}
	if !small {
		for i := -1; i <= nc; i++ {
			for _, to := range []string{"a", "U", "int"} {
				i, to := i, to
				add(fmt.Sprintf("RenameColByColIndex(%d, %q)", i, to), upd(func(x *MTable) bool { return renameColM(x, i, to) }), func(t *g.Table) error { return t.RenameColByColIndex(i, to) })
			}
		}
	}
	for _, p := range perms(nc) {
		p := p
		var pn []string
		id := true
		for i, k := range p {
			pn = append(pn, m.Cols[k].Name)
			if i != k {
				id = false
			}
		}
		if id && small {
			continue
		}
		add(fmt.Sprintf("ReorderColsByColIndex(%v)", p), upd(func(x *MTable) bool { return permuteM(x, p) }), func(t *g.Table) error { return t.ReorderColsByColIndex(p...) })
		if !small {
			add(fmt.Sprintf("ReorderCols(%s)", strs(pn)), upd(func(x *MTable) bool { return permuteM(x, p) }), func(t *g.Table) error { return t.ReorderCols(pn...) })
		}
	}
	if !small {
		bads := [][]int{{0}, {0, 0}, {1, 2}, {-1, 0}, {0, 1, 2, 3}, {0, 0, 1}, {2, 1, 1}, {0, 1, 3}}
		for _, p := range bads {
			p := p
			if probe := m.Clone(); permuteM(probe, p) {
				continue
			}
			add(fmt.Sprintf("ReorderColsByColIndex(%v)", p), func(*MTable) *MTable { return nil }, func(t *g.Table) error { return t.ReorderColsByColIndex(p...) })
		}
		for _, pn := range [][]string{{"a"}, {"a", "a"}, {"a", "zz"}, {"a", "A", "A"}, {"a", "A", "aA", "a"}} {
			pn := pn
			var p []int
			for _, n := range pn {
				p = append(p, m.Col(n))
			}
			if probe := m.Clone(); permuteM(probe, p) {
				continue
			}
			add(fmt.Sprintf("ReorderCols(%s)", strs(pn)), func(*MTable) *MTable { return nil }, func(t *g.Table) error { return t.ReorderCols(pn...) })
		}
	}
	for _, x := range names {
		for _, y := range names {
			x, y := x, y
			if small && x >= y {
				continue
			}
			add(fmt.Sprintf("SwapCols(%q, %q)", x, y), upd(func(n *MTable) bool { return swapM(n, n.Col(x), n.Col(y)) }), func(t *g.Table) error { return t.SwapCols(x, y) })
		}
	}
	for i := -1; i <= nc; i++ {
		for j := -1; j <= nc; j++ {
			i, j := i, j
			if small && !(i == 0 && j == nc-1) {
				continue
			}
			add(fmt.Sprintf("SwapColsByColIndex(%d, %d)", i, j), upd(func(n *MTable) bool { return swapM(n, i, j) }), func(t *g.Table) error { return t.SwapColsByColIndex(i, j) })
		}
	}
	add("OrderColsBySortKeys()", upd(orderByKeysM), func(t *g.Table) error { return t.OrderColsBySortKeys() })

	// rows
	if nr < maxRows {
		add("AppendRow()", upd(func(x *MTable) bool { return addRowsM(x, 1) }), func(t *g.Table) error { return t.AppendRow() })
	}
	if !small {
		for _, k := range []int{-1, 0, 2} {
			k := k
			if nr+k <= maxRows {
				add(fmt.Sprintf("AppendRows(%d)", k), upd(func(x *MTable) bool { return addRowsM(x, k) }), func(t *g.Table) error { return t.AppendRows(k) })
			}
		}
	}
	for i := -1; i <= nr; i++ {
		i := i
		if small && (i < 0 || i == nr) {
			continue
		}
		add(fmt.Sprintf("DeleteRow(%d)", i), upd(func(x *MTable) bool { return delRowsM(x, i, i) }), func(t *g.Table) error { return t.DeleteRow(i) })
		if small {
			continue
		}
		for j := -1; j <= nr; j++ {
			j := j
			add(fmt.Sprintf("DeleteRows(%d, %d)", i, j), upd(func(x *MTable) bool { return delRowsM(x, i, j) }), func(t *g.Table) error { return t.DeleteRows(i, j) })
		}
	}
	if small && nr >= 2 {
		add(fmt.Sprintf("DeleteRows(%d, %d)", nr-2, nr-1), upd(func(x *MTable) bool { return delRowsM(x, nr-2, nr-1) }), func(t *g.Table) error { return t.DeleteRows(nr-2, nr-1) })
	}
	if !small || nr == 2 {
		add("DeleteRowsAll()", upd(func(x *MTable) bool { x.Rows = nil; return true }), func(t *g.Table) error { return t.DeleteRowsAll() })
	}
	if nr > 1 || !small {
		add("Reverse()", upd(func(x *MTable) bool {
			for l, r := 0, len(x.Rows)-1; l < r; l, r = l+1, r-1 {
				x.Rows[l], x.Rows[r] = x.Rows[r], x.Rows[l]
			}
			return true
		}), func(t *g.Table) error { return t.Reverse() })
	}
	// cells
	for _, n := range names {
		ci := m.Col(n)
		for r := -1; r <= nr; r++ {
			if small && (ci < 0 || r != nr-1) {
				continue
			}
			for _, v := range []interface{}{5, "z", 0.5} {
				n, r, v := n, r, v
				if small && fmt.Sprintf("%T", v) != m.Cols[ci].Type {
					continue
				}
				model := upd(func(x *MTable) bool {
					c := x.Col(n)
					if c < 0 || r < 0 || r >= len(x.Rows) || x.Cols[c].Type != fmt.Sprintf("%T", v) {
						return false
					}
					x.Rows[r][c] = v
					return true
				})
				add(fmt.Sprintf("SetVal(%q, %d, %#v)", n, r, v), model, func(t *g.Table) error { return t.SetVal(n, r, v) })
				if !small && ci >= 0 {
					add(fmt.Sprintf("SetValByColIndex(%d, %d, %#v)", ci, r, v), model, func(t *g.Table) error { return t.SetValByColIndex(ci, r, v) })
				}
			}
		}
	}
	// taking from other tables
	for si, src := range append(srcTables, nil) {
		si, src := si, src
		if small && si != 1 {
			continue
		}
		name := fmt.Sprintf("S%d", si)
		mk := func(t *g.Table) *g.Table {
			if src == nil {
				return t
			}
			return build(src)
		}
		if src == nil {
			name = "itself"
		}
		if src == nil || len(m.Cols) < maxCols || m.Col("aA") >= 0 {
			add(fmt.Sprintf("AppendColsFromTable(%s)", name), upd(func(x *MTable) bool {
				s := src
				if s == nil {
					s = x.Clone()
				}
				return addColsFromM(x, s)
			}), func(t *g.Table) error { return t.AppendColsFromTable(mk(t)) })
		}
		n := 0
		if src != nil {
			n = len(src.Rows)
		} else {
			n = nr
		}
		for f := -1; f <= n; f++ {
			for l := f; l <= n; l++ {
				f, l := f, l
				if small && (f != 0 || l != 0) {
					continue
				}
				if src == nil && small {
					continue
				}
				if nr+(l-f+1) > maxRows {
					continue
				}
				add(fmt.Sprintf("AppendRowsFromTable(%s, %d, %d)", name, f, l), upd(func(x *MTable) bool {
					s := src
					if s == nil {
						s = x.Clone()
					}
					return addRowsFromM(x, s, f, l)
				}), func(t *g.Table) error { return t.AppendRowsFromTable(mk(t), f, l) })
			}
		}
	}
	// sort keys (they are tied to columns, so column edits must keep them consistent)
	keySets := [][]string{{}, {"a"}, {"A", "a"}}
	if !small {
		keySets = append(keySets, []string{"aA"}, []string{"zz"}, []string{"a", "zz"}, []string{"a", "a"})
	}
	for _, ks := range keySets {
		ks := ks
		add(fmt.Sprintf("SetSortKeys(%s)", strs(ks)), upd(func(x *MTable) bool { return setKeysM(x, ks) }), func(t *g.Table) error { return t.SetSortKeys(ks...) })
	}
	if !small || len(m.Keys) > 0 {
		for _, ks := range [][]string{{"a"}, {"A", "a"}} {
			ks := ks
			if small && len(ks) > 1 {
				continue
			}
			add(fmt.Sprintf("SetSortKeysReverse(%s)", strs(ks)), upd(func(x *MTable) bool { return setRevM(x, ks) }), func(t *g.Table) error { return t.SetSortKeysReverse(ks...) })
		}
	}
	if strictlyOrderable(m) {
		add("Sort()", upd(func(x *MTable) bool { sortM(x); return true }), func(t *g.Table) error { return t.Sort() })
	}
	if !small {
		for _, n := range []string{"V", "T", "", "1", "a b"} {
			n := n
			add(fmt.Sprintf("SetName(%q)", n), upd(func(x *MTable) bool {
				if !validNames[n] {
					return false
				}
				x.Name = n
				return true
			}), func(t *g.Table) error { return t.SetName(n) })
		}
	}
	return ops
}

// strictlyOrderable: the sort keys put all rows in one definite order (no ties), so that the result is unique.
func strictlyOrderable(m *MTable) bool {
	if len(m.Keys) == 0 {
		return false
	}
	for i := range m.Rows {
		for j := range m.Rows {
			if i < j && cmpRowsM(m, m.Rows[i], m.Rows[j]) == 0 {
				return false
			}
		}
	}
	return true
}

func sortM(m *MTable) {
	sort.SliceStable(m.Rows, func(i, j int) bool { return cmpRowsM(m, m.Rows[i], m.Rows[j]) < 0 })
}

func cmpRowsM(m *MTable, x, y []interface{}) int {
	for _, k := range m.Keys {
		c := m.Col(k.Col)
		if c < 0 {
			continue
		}
		r := cmpVal(x[c], y[c])
		if k.Rev {
			r = -r
		}
		if r != 0 {
			return r
		}
	}
	return 0
}

func sortStrings(s []string) { sort.Strings(s) }
