package main

// Histories: an operation does not remember what the table held at an earlier call of it.

import (
	"fmt"
	"strings"

	g "github.com/urban-wombat/gotables"
)

// histDepth: the checks that call histories, and how deep (thorough in brackets).
var histDepth = map[string]string{"G03": "1 (2)", "G04": "2 (3)", "G05": "1 (2)", "G07": "1 (2)", "G08": "1 (2)", "G09": "1 (2)", "G11": "2", "G12": "2", "G13": "1 (2)", "G14": "2",
	"G15": "1 (2)", "G16": "2", "G18": "1 (2)", "G19": "2", "G20": "1 (2)", "G21": "1 (2)", "G23": "2", "G29": "2"}

type histOp struct {
	name string
	do   func(w *roWorld) string
}

// roNamed picks read-only operations by name.
func roNamed(names ...string) histOp {
	var ops []roOp
	for _, n := range names {
		found := false
		for _, o := range roOps() {
			if o.name == n {
				ops, found = append(ops, o), true
			}
		}
		if !found {
			panic("no operation " + n)
		}
	}
	return histOp{strings.Join(names, ", "), func(w *roWorld) string {
		var b strings.Builder
		for _, o := range ops {
			b.WriteString(o.do(w))
		}
		return b.String()
	}}
}

func histSources() (ms []*MTable) {
	ms = copySources()
	for i, typ := range sortableTypes {
		m := &MTable{Name: "H", Cols: []MCol{{"c", typ}, {"k", "int"}}, Keys: []MKey{{"c", i%2 == 1}}}
		if i%3 == 0 {
			m.Keys = append(m.Keys, MKey{"k", i%2 == 0})
		}
		for r := 0; r < 4; r++ {
			m.Rows = append(m.Rows, []interface{}{ordinary(typ, (r*7+3)%3), 9 - r})
		}
		ms = append(ms, m)
	}
	return
}

// histories: on every source, the operation, an edit, the operation, another edit, ... the operation; the last answer
// must be that of a table built directly with what the table holds then.
func histories(c *Ctx, depth int, ops ...histOp) {
	scratch, done := c.Scratch()
	defer done()
	for _, op := range ops {
		op := op
		run := func(w *roWorld) (r string) {
			defer func() {
				if e := recover(); e != nil {
					r = fmt.Sprintf("panic: %v", e)
				}
				r = strings.ReplaceAll(r, "null", `""`) + observe(w.t).Full()
			}()
			return op.do(w)
		}
		memo := map[string]string{}
		for _, m := range histSources() {
			m := m
			edits := tableEdits(m, true)
			world := func(x *MTable) *roWorld {
				w := &roWorld{t: build(x), other: build(m), scratch: scratch}
				ts, err := g.NewTableSet("World")
				must(err)
				must(ts.AppendTable(w.t))
				must(ts.AppendTable(build(&MTable{Name: "Neighbour_of_it", Cols: []MCol{{"a", "int"}}, Rows: [][]interface{}{{1}}})))
				w.ts = ts
				return w
			}
			for l := 1; l <= depth; l++ {
				seqs(len(edits), l, func(s []int) bool {
					c.Do(func() string {
						x := m.Full() + "; " + op.name
						for _, e := range s {
							x += "; " + edits[e].desc + "; " + op.name
						}
						return x
					}, func(t *T) {
						w := world(m)
						run(w)
						for i, e := range s {
							if i > 0 {
								run(w)
								t.Step(1)
							}
							edits[e].do(w.t, w.other)
							t.Step(1)
						}
						o := observe(w.t)
						key := o.Full()
						t.State(op.name + m.Name + key)
						k2 := m.Full() + key
						want, ok := memo[k2]
						if !ok {
							want = run(world(o))
							if len(memo) > 100000 {
								memo = map[string]string{}
							}
							memo[k2] = want
						}
						if got := run(w); got != want {
							t.Failf("after this %s gives\n%s\n; on a table built directly with the same contents %s it gives\n%s", op.name, clip(got, 600), clip(key, 400), clip(want, 600))
						}
					})
					return !c.Stopped()
				})
			}
		}
	}
}

// sortOps: the sorting operations, for histories.
func keysFor(t *g.Table) (ks []string) {
	ns, ts, _ := t.GetColInfoAsSlices()
	for i, n := range ns {
		if isSortable(ts[i]) {
			ks = append(ks, n)
		}
	}
	return
}

func sortOps() []histOp {
	return []histOp{
		{"Sort()", func(w *roWorld) string { return roStr(w.t.Sort()) }},
		{"Sort(first column)", func(w *roWorld) string {
			k := keysFor(w.t)
			return roStr(w.t.Sort(k[:min(len(k), 1)]...))
		}},
		{"SortSimple(all columns)", func(w *roWorld) string { return roStr(w.t.SortSimple(keysFor(w.t)...)) }},
		{"Reverse()", func(w *roWorld) string { return roStr(w.t.Reverse()) }},
		{"ShufflePseudorandom()", func(w *roWorld) string { return roStr(w.t.ShufflePseudorandom()) }},
		{"OrderColsBySortKeys()", func(w *roWorld) string { return roStr(w.t.OrderColsBySortKeys()) }},
		roNamed("CompareRows", "GetSortKeysAsTable", "SortKeyCount", "IsSortKey"),
	}
}

func searchOps() []histOp {
	s := roNamed("Search")
	return []histOp{s, {"Sort(), Search", func(w *roWorld) string { return roStr(w.t.Sort()) + s.do(w) }}}
}

func mergeOps() []histOp {
	with := func(f func(a, b *g.Table) (*g.Table, error)) func(w *roWorld) string {
		return func(w *roWorld) string {
			if w.other.SortKeyCount() == 0 || w.t.SortKeyCount() > 0 {
				ign(w.other.SetSortKeysFromTable(w.t))
			}
			x, err := f(w.t, w.other)
			return roStr(x, err)
		}
	}
	return []histOp{
		{"Merge(another)", with(func(a, b *g.Table) (*g.Table, error) { return a.Merge(b) })},
		{"another.Merge()", with(func(a, b *g.Table) (*g.Table, error) { return b.Merge(a) })},
	}
}

func uniqueOps() []histOp {
	return []histOp{
		{"SortUnique()", func(w *roWorld) string { x, err := w.t.SortUnique(); return roStr(x, err) }},
		{"SortUnique(first column)", func(w *roWorld) string {
			k := keysFor(w.t)
			x, err := w.t.SortUnique(k[:min(len(k), 1)]...)
			return roStr(x, err)
		}},
	}
}

func nestOp() histOp {
	return histOp{"Nest(another); DeleteCol", func(w *roWorld) string {
		in := build(observe(w.other))
		ign(in.SetSortKeysFromTable(w.t))
		err := w.t.Nest(in, "nested")
		s := roStr(err) + observe(w.t).Full()
		if err == nil {
			ign(w.t.DeleteCol("nested"))
		}
		return s
	}}
}

// gobOp: the GOB form may order its parts at will, so what it decodes to is taken.
func gobOp() histOp {
	return histOp{"GOB", func(w *roWorld) string {
		b, err := w.t.GobEncode()
		if err != nil {
			return roStr(err)
		}
		x, err := g.GobDecodeTable(b)
		s := roStr(x, err)
		bs, err := w.ts.GobEncode()
		if err != nil {
			return s + roStr(err)
		}
		ts, err := g.GobDecodeTableSet(bs)
		return s + roStr(ts, err)
	}}
}
