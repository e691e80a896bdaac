package main

import (
	"context"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C04", Rule: "distinct (query, data) pairs whose recorded function calls were compared with the minimum the semantics needs",
		Groups: []Group{
			{"rows", 3000, 60000, c04rows},
			{"lets", 2000, 30000, c04lets},
			{"args", 1500, 20000, c04args},
			{"columns", 1500, 20000, c04columns},
			{"chain", 2500, 40000, c04chain},
		}})
	register(&Property{ID: "C05", Rule: "distinct (grouped query, data) pairs that produced a group",
		Groups: []Group{
			{"group", 5000, 100000, c05group},
			{"keys", 1500, 30000, c05keys},
			{"again", 1000, 20000, c05again},
			{"large", 24, 400, c05large},
			{"times", 400, 8000, c05times},
		}})
	register(&Property{ID: "C06", Rule: "distinct (ordered query, data) pairs that produced a row",
		Groups: []Group{
			{"order", 4000, 80000, c06order},
			{"mixed", 2000, 40000, c06mixed},
			{"large", 24, 400, c06large},
			{"times", 400, 8000, c06times},
		}})
}

// ---------------------------------------------------------------- C04

// compareCalls: the engine must not call a probe more often than the strict minimum of the reference semantics.
func (c *Case) compareCalls(e *Engine, m *Model, got [][]string) {
	if e == nil || got == nil || m.Unsure {
		return
	}
	n := 0
	for id, k := range e.Calls {
		n += k
		if k > m.Calls[id] {
			c.Fail("function %s was called %d times, %d calls were needed", id, k, m.Calls[id])
		}
	}
	for id, k := range m.Calls {
		if e.Calls[id] < k {
			c.Count("fewer_calls_than_model", k-e.Calls[id])
		}
	}
	c.Count("probe_calls", n)
}

func c04gen(c *Case) (*Gen, *Host) {
	g, h := stdGen(c)
	g.Probe = true
	// a limited source is read a bounded number of rows ahead, so its calls are not determined
	g.NoLimit = true
	return g, h
}

func c04rows(c *Case) {
	g, h := c04gen(c)
	var stmts []*Stmt
	if g.one(3) {
		stmts = append(stmts, g.lets(1+g.R.Intn(2))...)
	}
	q := g.query(QOpt{Where: g.R.Intn(4) > 0, Sub: g.one(3), Depth: 1, Nested: g.one(3)})
	if g.one(4) {
		q.OrderBy = "a"
		if !q.Cols[0].Star {
			q.OrderBy = colName(q.Cols[0])
		}
	}
	if g.one(5) {
		n := g.withColumns()
		q.GroupBy = []Expr{n.Expr("int", 1)}
		g.merge(n)
	}
	if q.OrderBy != "" && strings.ContainsAny(q.OrderBy, " (") {
		q.OrderBy = ""
	}
	stmts = append(stmts, &Stmt{Q: q})
	e, m, got := c.Differential(h, stmts, "")
	c.compareCalls(e, m, got)
}

func c04lets(c *Case) {
	g, h := c04gen(c)
	var stmts []*Stmt
	// a lazily defined query and value, sometimes used and sometimes not
	stmts = append(stmts, g.lets(2+g.R.Intn(3))...)
	n := g.withColumns()
	sub := &Select{Cols: []Col{{Star: true}, {E: n.Expr("any", 2), As: "e1"}}, From: From{Path: []string{"t1"}, Call: true}}
	if g.one(2) {
		sub.Where = n.Expr("bool", 1)
	}
	stmts = append(stmts, &Stmt{Let: "LQ", Op: g.pick("=", "=", "<="), Q: sub})
	g.merge(n)
	n = g.withColumns()
	q := &Select{From: From{Path: []string{g.pick("LQ", "LQ", "t2")}}}
	if q.From.Path[0] == "t2" {
		q.From.Call = true
	}
	q.Cols = []Col{{E: n.Expr("any", 2), As: "x"}}
	if g.one(2) {
		q.Cols = append(q.Cols, Col{E: call("if", arg("condition", n.Expr("bool", 1)), arg("then", sym("LQ", "a")), arg("else", strL("no"))), As: "y"})
	}
	if g.one(2) {
		q.Where = n.Expr("bool", 1)
	}
	g.merge(n)
	stmts = append(stmts, &Stmt{Q: q})
	e, m, got := c.Differential(h, stmts, "")
	c.compareCalls(e, m, got)
}

// operands of AND and OR chains, and branches, each of them observed
func c04chain(c *Case) {
	g, h := c04gen(c)
	n := g.withColumns()
	n.Probe = false
	k := 0
	probe := func() Expr {
		k++
		var v Expr
		switch n.R.Intn(4) {
		case 0:
			v = sym(n.pick("a", "b", "c", "d", "l", "n"))
		case 1:
			v = boolLit(n.one(2))
		default:
			v = n.Expr(n.pick("any", "bool", "int", "str"), 1)
		}
		return call("probe", arg("id", strL(fmt.Sprintf("q%d", k))), arg("v", v))
	}
	var build func(d int) Expr
	build = func(d int) Expr {
		if d == 0 {
			return probe()
		}
		switch n.R.Intn(6) {
		case 0:
			return &Not{E: build(d - 1)}
		case 1:
			return call("if", arg("condition", build(d-1)), arg("then", build(d-1)), arg("else", build(d-1)))
		case 2:
			return probe()
		}
		ops := [][]string{{"AND"}, {"AND", "&&"}, {"OR"}, {"OR", "||"}, {"&&"}, {"||"}}[n.R.Intn(6)]
		e := build(d - 1)
		for i := 1 + n.R.Intn(4); i > 0; i-- {
			e = bin(ops[n.R.Intn(len(ops))], e, build(d-1))
		}
		return e
	}
	q := &Select{Cols: []Col{{E: build(2), As: "x"}, {E: build(1), As: "y"}}, From: From{Path: []string{"t1"}, Call: true}}
	if n.one(2) {
		q.Where = build(1)
	}
	e, m, got := c.Differential(h, []*Stmt{{Q: q}}, "")
	c.compareCalls(e, m, got)
}

// functions which read only some of their arguments
func c04args(c *Case) {
	g, h := c04gen(c)
	n := g.withColumns()
	q := &Select{From: From{Path: []string{"t1"}, Call: true}}
	for i := 0; i < 3; i++ {
		var e Expr
		switch g.R.Intn(3) {
		case 0:
			e = call("pick", arg("use", strL(g.pick("a", "b", "none"))), arg("a", n.Expr("any", 1)), arg("b", n.Expr("any", 1)))
		case 1:
			e = call("if", arg("condition", n.Expr("bool", 1)), arg("then", n.Expr("any", 1)), arg("else", n.Expr("any", 1)))
		case 2:
			e = bin(g.pick("AND", "OR", "&&", "||"), n.Expr("any", 1), bin(g.pick("AND", "OR"), n.Expr("any", 1), n.Expr("any", 1)))
		}
		q.Cols = append(q.Cols, Col{E: e, As: fmt.Sprintf("c%d", i)})
	}
	if g.one(2) {
		q.Where = bin(g.pick("AND", "OR"), sym(fmt.Sprintf("c%d", g.R.Intn(3))), n.Expr("any", 1))
	}
	e, m, got := c.Differential(h, []*Stmt{{Q: q}}, "")
	c.compareCalls(e, m, got)
}

// the headline guarantee: a column read many times, and by WHERE, costs one call per row
func c04columns(c *Case) {
	g, h := c04gen(c)
	g.Probe = false
	n := g.withColumns()
	var cols []Col
	if g.one(3) {
		cols = append(cols, Col{Star: true})
	}
	name := g.pick("a", "b", "out", "my col")
	p := call("probe", arg("id", strL("p")), arg("v", n.Expr(g.pick("int", "str", "bool", "null"), 1)))
	cols = append(cols, Col{E: p, As: name})
	cols = append(cols, Col{E: call("probe", arg("id", strL("q")), arg("v", sym("a"))), As: "other"})
	if g.one(3) {
		cols = append(cols, Col{Star: true})
	}
	q := &Select{Cols: cols, From: From{Path: []string{"t1"}, Call: true}}
	mentions := g.R.Intn(4)
	var w Expr
	for i := 0; i < mentions; i++ {
		t := bin(g.pick("=", "!=", "<", ">"), sym(name), sym(name))
		if g.one(3) {
			t = bin("=", sym(name), n.Expr("any", 1))
		}
		if w == nil {
			w = t
		} else {
			w = bin(g.pick("AND", "OR"), w, t)
		}
	}
	if w == nil && g.one(2) {
		w = bin(">", sym("a"), intLit(1))
		if name == "a" {
			w = bin(">", sym("c"), intLit(5))
		}
	}
	q.Where = w
	stmts := []*Stmt{{Q: q}}
	if g.one(3) {
		// read the columns again from outside
		stmts = []*Stmt{{Let: "LQ", Op: g.pick("=", "<="), Q: q}, {Q: &Select{Cols: []Col{{Star: true}, {E: sym(name), As: "again"}},
			From: From{Path: []string{"LQ"}}, Where: bin("OR", sym(name), boolLit(true))}}}
	}
	if g.one(4) {
		q.GroupBy = []Expr{sym(name)}
	}
	e, m, got := c.Differential(h, stmts, "")
	c.compareCalls(e, m, got)
	if e != nil {
		rows := len(h.Tables["t1"])
		for _, id := range []string{"p", "q"} {
			if e.Calls[id] > rows {
				c.Fail("column function %s called %d times for %d source rows", id, e.Calls[id], rows)
			}
		}
	}
}

// ---------------------------------------------------------------- C05

func (g *Gen) aggregate(n *Gen) Expr {
	switch g.R.Intn(7) {
	case 0, 1:
		return call("count")
	case 2:
		return call("sum", arg("item", n.safeInt()))
	case 3:
		return call("min", arg("item", n.safeInt()))
	case 4:
		return call("max", arg("item", n.safeInt()))
	case 5:
		return call("enumerate", arg("items", n.Expr("any", 1)))
	}
	return call("count", arg("items", sym("a")))
}

// an expression that is certainly an integer for generated tables
func (g *Gen) safeInt() Expr {
	switch g.R.Intn(5) {
	case 4:
		if g.one(2) {
			return bin("+", sym("a"), intLit([]int64{1<<53 + 1, 1<<55 + 3, -(1<<53 + 1), 1 << 31, 1<<32 - 1, 1<<58 + 7}[g.R.Intn(6)]))
		}
	case 0:
		return intLit(int64(g.R.Intn(7)) - 3)
	case 1:
		return bin("*", sym("a"), intLit(int64(g.R.Intn(5)-2)))
	case 2:
		return bin("+", sym("a"), sym("vi"))
	}
	return sym("a")
}

func (g *Gen) aggExpr(n *Gen) Expr {
	switch g.R.Intn(8) {
	case 0:
		return bin("+", call("sum", arg("item", n.safeInt())), bin("*", call("count"), intLit(100)))
	case 1:
		return call("if", arg("condition", n.Expr("bool", 1)), arg("then", call("count")), arg("else", call("count")))
	case 2:
		return bin("/", call("sum", arg("item", sym("a"))), call("count"))
	case 3:
		return call("dict", arg("x", g.aggregate(n)), arg("y", g.aggregate(n)))
	}
	return g.aggregate(n)
}

func (g *Gen) groupQuery(nested bool) *Select {
	n := g.withColumns()
	q := &Select{From: g.from(QOpt{Nested: nested, Depth: 1})}
	used := map[string]bool{}
	k := 1 + g.R.Intn(4)
	for i := 0; i < k; i++ {
		as := g.pick("g1", "g2", "g3", "a", "b", "Total", "my col")
		if used[as] {
			continue
		}
		used[as] = true
		switch g.R.Intn(4) {
		case 0, 1:
			q.Cols = append(q.Cols, Col{E: g.aggExpr(n), As: as})
		case 2:
			q.Cols = append(q.Cols, Col{E: n.Expr("any", 1), As: as})
		case 3:
			q.Cols = append(q.Cols, Col{E: sym(g.pick("a", "b", "c", "d", "l")), As: as})
		}
	}
	if g.one(6) {
		q.Cols = append(q.Cols, Col{Star: true})
	}
	if g.one(2) {
		q.Where = n.Expr("bool", 1)
	}
	for i := 1 + g.R.Intn(2); i > 0; i-- {
		q.GroupBy = append(q.GroupBy, g.groupKey(n))
	}
	return q
}

func (g *Gen) groupKey(n *Gen) Expr {
	switch g.R.Intn(6) {
	case 0:
		return sym("b")
	case 1:
		return sym("n")
	case 2:
		return n.Expr("any", 1)
	case 3:
		return bin("<", sym("a"), intLit(2))
	}
	return sym("a")
}

// groups with an output column that is itself an aggregate as a key would observe the aggregate before the group exists
func aggregateKey(q *Select) bool {
	for _, k := range q.GroupBy {
		bad := false
		walkExpr(k, func(e Expr) {
			if s, ok := e.(*Sym); ok {
				for _, c := range q.Cols {
					if !c.Star && c.As == s.Path[0] && hasAggregate(c.E) {
						bad = true
					}
				}
			}
		})
		if bad {
			return true
		}
	}
	if q.Where != nil {
		bad := false
		walkExpr(q.Where, func(e Expr) {
			if s, ok := e.(*Sym); ok {
				for _, c := range q.Cols {
					if !c.Star && c.As == s.Path[0] && hasAggregate(c.E) {
						bad = true
					}
				}
			}
		})
		return bad
	}
	return false
}

var aggNames = map[string]bool{"count": true, "sum": true, "min": true, "max": true, "enumerate": true}

func hasAggregate(e Expr) bool {
	found := false
	walkExpr(e, func(x Expr) {
		if c, ok := x.(*CallE); ok && len(c.Path) == 1 && aggNames[c.Path[0]] {
			found = true
		}
	})
	return found
}

func walkExpr(e Expr, f func(Expr)) {
	if e == nil {
		return
	}
	f(e)
	switch t := e.(type) {
	case *Par:
		walkExpr(t.E, f)
	case *Not:
		walkExpr(t.E, f)
	case *Comma:
		for _, x := range t.Items {
			walkExpr(x, f)
		}
	case *Bin:
		walkExpr(t.L, f)
		walkExpr(t.R, f)
	case *Mem:
		walkExpr(t.Base, f)
		for _, s := range t.Steps {
			if s.Index != nil {
				walkExpr(s.Index, f)
			}
			if s.Lo != nil {
				walkExpr(s.Lo, f)
			}
			if s.Hi != nil {
				walkExpr(s.Hi, f)
			}
		}
	case *CallE:
		for _, a := range t.Args {
			if a.E != nil {
				walkExpr(a.E, f)
			}
			for _, x := range a.Arr {
				walkExpr(x, f)
			}
		}
	}
}

func c05group(c *Case) {
	g, h := stdGen(c)
	h.Tables["t1"] = g.table(g.R.Intn(14))
	q := g.groupQuery(g.one(3))
	if aggregateKey(q) {
		c.Count("skipped_aggregate_key", 1)
		return
	}
	c.Differential(h, []*Stmt{{Q: q}}, "")
}

// keys that are easily confused: same text, different type; separators inside strings
var confusable = []V{int64(1), "1", true, "true", "TRUE", false, Null{}, "NULL", "Null", "null", "", []V{}, "[]", []V{int64(1)}, []V{"1"}, "[1]", "1, 2", []V{int64(1), int64(2)},
	[]V{"1, 2"}, "a", "a b", []V{"a", "b"}, []V{"a b"}, 1.5, "1.5", "\x00", "a\x00b", []V{"a", Null{}}, "A", int64(-1), "-1", []V{[]V{int64(1)}, int64(2)}, []V{int64(1), []V{int64(2)}}}

func c05keys(c *Case) {
	g := newGen(c.R)
	h := NewHost()
	var rows []V
	pool := confusable
	if g.one(3) {
		// long keys which agree in a long prefix or suffix, alone and inside lists
		n := 1 << uint(3+g.R.Intn(9))
		pad := strings.Repeat(g.pick("k", "é", "0"), n)
		pool = nil
		for _, x := range []string{"", "a", "b", "A"} {
			pool = append(pool, pad+x, x+pad, pad+x+pad, []V{pad + x}, []V{x, pad}, []V{pad, x})
		}
		pool = append(pool, int64(n), strconv.Itoa(n))
	}
	for i := 4 + g.R.Intn(16); i > 0; i-- {
		rows = append(rows, NewD().Set("a", int64(i)).Set("k", pool[g.R.Intn(len(pool))]).Set("k2", pool[g.R.Intn(len(pool))]))
	}
	h.Tables["t"] = rows
	h.Kind["t"] = g.pick("", "lazy")
	q := &Select{Cols: []Col{{E: sym("k")}, {E: sym("k2")}, {E: call("count"), As: "n"}, {E: call("enumerate", arg("items", sym("a"))), As: "rows"},
		{E: call("sum", arg("item", sym("a"))), As: "s"}}, From: From{Path: []string{"t"}, Call: true}, GroupBy: []Expr{sym("k")}}
	if g.one(2) {
		q.GroupBy = append(q.GroupBy, sym("k2"))
	}
	c.Differential(h, []*Stmt{{Q: q}}, "")
}

// re-running a grouped query starts afresh: through a definition, through foreach, and by evaluating it again
func c05again(c *Case) {
	g, h := stdGen(c)
	h.Tables["t1"] = g.table(g.R.Intn(8))
	q := g.groupQuery(false)
	if aggregateKey(q) {
		return
	}
	star := func(f From) *Stmt { return &Stmt{Q: &Select{Cols: []Col{{Star: true}}, From: f}} }
	stmts := []*Stmt{{Let: "GQ", Op: "=", Q: q}, star(From{Path: []string{"GQ"}}), star(From{Path: []string{"GQ"}}),
		star(From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", &Select{Cols: []Col{{E: sym("_value"), As: "zz"}}, From: From{Path: []string{"range"}, Call: true,
			Args: []Arg{arg("start", intLit(0)), arg("end", intLit(3))}}}), argQ("query", q)}}),
		{Q: q}, {Q: q}}
	c.Differential(h, stmts, "")
	// the same parsed statement twice in one scope
	text := SelText(q)
	e := NewEngine(h)
	defer e.Close()
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	one, two := e.Query(vqls[0]), e.Query(vqls[0])
	c.Eval(2)
	if d := diffRows(one, two); d != "" {
		c.Desc("%s\n%s", h.String(), text)
		c.Fail("the same grouped statement evaluated twice differs: %s", d)
	}
}

// timeRows: rows i, k with points in time which are close to each other, or NULL
func (c *Case) timeRows() (rows []types.Row, times []*time.Time) {
	base := time.Unix(int64(c.R.Intn(2000000000)), int64(c.R.Intn(1000000000))).UTC()
	step := []time.Duration{1, 1000, time.Millisecond, time.Second, time.Hour, 24 * time.Hour, 400 * 24 * time.Hour}[c.R.Intn(7)]
	n := c.R.Intn(20)
	if c.R.Intn(10) == 0 {
		n = 100 + c.R.Intn(200)
	}
	rows = []types.Row{} // nil is a NULL
	ptr, nulls := c.R.Intn(4) == 0, c.R.Intn(3) == 0
	for i := 0; i < n; i++ {
		row := ordereddict.NewDict().Set("i", int64(i))
		if nulls && c.R.Intn(4) == 0 {
			row.Set("k", types.Null{})
			times = append(times, nil)
		} else {
			t := base.Add(step * time.Duration(c.R.Intn(9)-4))
			times = append(times, &t)
			if ptr {
				row.Set("k", &t)
			} else {
				row.Set("k", t)
			}
		}
		rows = append(rows, row)
	}
	return rows, times
}

func (c *Case) timeQuery(rows []types.Row, text string) (out []*ordereddict.Dict) {
	scope := vfilter.NewScope()
	defer scope.Close()
	scope.AppendVars(ordereddict.NewDict().Set("rows", rows))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	for row := range mustParse(text)[0].Eval(ctx, scope) {
		out = append(out, vfilter.RowToDict(ctx, scope, row))
	}
	c.Eval(1)
	return out
}

func c05times(c *Case) {
	rows, times := c.timeRows()
	text := "SELECT k, count() AS n, enumerate(items=i) AS ids FROM rows GROUP BY " + c.one("k", "k, 1", "'x', k")
	c.Desc("%s over %v", text, rows)
	want := map[string][]string{}
	for i, t := range times {
		key := "NULL"
		if t != nil {
			key = fmt.Sprint(t.UnixNano())
		}
		want[key] = append(want[key], fmt.Sprint(i))
	}
	var wants, gots []string
	for _, ids := range want {
		wants = append(wants, fmt.Sprintf("%d %v", len(ids), ids))
	}
	for _, row := range c.timeQuery(rows, text) {
		n, _ := row.Get("n")
		ids, _ := row.Get("ids")
		gots = append(gots, fmt.Sprintf("%v %v", n, ids))
	}
	sort.Strings(wants)
	sort.Strings(gots)
	if strings.Join(wants, ";") != strings.Join(gots, ";") {
		c.Fail("groups %v, want %v", gots, wants)
	}
	c.Seen(c.desc)
	c.Count("time_groups", len(want))
}

func c06times(c *Case) {
	rows, times := c.timeRows()
	desc := c.R.Intn(2) == 0
	text := "SELECT i, k FROM rows ORDER BY k"
	if desc {
		text += " DESC"
	}
	c.Desc("%s over %v", text, rows)
	seen := map[int]bool{}
	var last *time.Time
	got := c.timeQuery(rows, text)
	for x, row := range got {
		v, _ := row.Get("i")
		i64, _ := v.(int64)
		i := int(i64)
		if seen[i] || i >= len(times) {
			c.Fail("row %d comes twice", i)
			return
		}
		seen[i] = true
		a, b := last, times[i]
		if desc {
			a, b = b, a
		}
		// NULL is below everything
		if x > 0 && a != nil && (b == nil || b.Before(*a)) {
			c.Fail("row %d of the result (%v) is out of order behind %v", x, times[i], last)
			return
		}
		last = times[i]
	}
	if len(got) != len(times) {
		c.Fail("%d rows, want %d", len(got), len(times))
	}
	c.Seen(c.desc)
	c.Count("time_rows_sorted", len(got))
}

// ---------------------------------------------------------------- C06

func isPermutation(a, b []string) bool {
	x, y := sorted(a), sorted(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// missing returns a member of sub which is not (often enough) in all.
func missing(sub, all []string) string {
	n := map[string]int{}
	for _, r := range all {
		n[r]++
	}
	for _, r := range sub {
		if n[r]--; n[r] < 0 {
			return r
		}
	}
	return ""
}

// orderOracle: permutation of the unordered result and adjacent rows in order, by the values of the engine's own rows.
func (c *Case) orderOracle(h *Host, lets []*Stmt, q *Select) {
	un := *q
	un.OrderBy, un.Desc, un.Limit = "", false, nil
	full := *q
	full.Limit = nil
	pre := ""
	if len(lets) > 0 {
		pre = StmtsText(lets) + "\n"
	}
	c.Desc("%s\n%s%s", h.String(), pre, SelText(q))
	run := func(s *Select) (rows []string, keys []V, ok bool) {
		e := NewEngine(h)
		defer e.Close()
		vqls, err := parseText(pre + SelText(s))
		if err != nil {
			c.Fail("does not parse: %v", err)
			return nil, nil, false
		}
		for i, v := range vqls {
			for r := range v.Eval(e.ctx, e.Scope) {
				if i == len(vqls)-1 {
					rows = append(rows, canonRow(e.ctx, e.Scope, r))
					k, pres := e.Scope.Associative(r, q.OrderBy)
					if !pres {
						k = nil
					}
					keys = append(keys, fromE(k))
				}
			}
		}
		return rows, keys, true
	}
	base, _, ok := run(&un)
	if !ok {
		return
	}
	rows, keys, ok := run(&full)
	if !ok {
		return
	}
	c.Eval(2)
	if !isPermutation(base, rows) {
		c.Fail("not a permutation of the unordered result: %s", diffRows(sorted(base), sorted(rows)))
	}
	for i := 1; i < len(keys); i++ {
		a, b := keys[i-1], keys[i]
		if q.Desc {
			a, b = b, a
		}
		if isNull(a) {
			continue
		}
		if isNull(b) {
			c.Fail("rows %d and %d out of order: NULL is not lowest (%s, %s)", i-1, i, canonM(keys[i-1]), canonM(keys[i]))
			continue
		}
		if lt, ok := ltV(b, a); ok && lt {
			c.Fail("rows %d and %d out of order: %s, %s", i-1, i, canonM(keys[i-1]), canonM(keys[i]))
		}
	}
	if q.Limit != nil {
		lim, lkeys, ok := run(q)
		if !ok {
			return
		}
		n := int(*q.Limit)
		if n < 0 {
			n = 0
		}
		if n > len(rows) {
			n = len(rows)
		}
		if len(lim) != n {
			c.Fail("LIMIT %d after ORDER BY gave %d rows of %d", *q.Limit, len(lim), len(rows))
		} else {
			for i := range lim {
				l1, ok1 := ltV(keys[i], lkeys[i])
				l2, ok2 := ltV(lkeys[i], keys[i])
				if isNull(keys[i]) != isNull(lkeys[i]) || ok1 && ok2 && (l1 || l2) {
					c.Fail("LIMIT %d after ORDER BY: row %d has key %s, the ordered query has %s", *q.Limit, i, canonM(lkeys[i]), canonM(keys[i]))
				}
			}
			if extra := missing(lim, rows); extra != "" {
				c.Fail("LIMIT emitted a row that the ordered query does not have: %s", extra)
			}
		}
		c.Eval(1)
	}
	c.Count("ordered_rows", len(rows))
	if len(rows) > 0 {
		c.Seen(pre + SelText(q) + h.String())
		c.Sample("%s ⇒ %d rows in order", SelText(q), len(rows))
	}
}

// fromE converts a library value back into a model value.
func fromE(v V) V {
	switch t := v.(type) {
	case uint64:
		return int64(t)
	case int:
		return int64(t)
	case uint8:
		return int64(t)
	case float32:
		return float64(t)
	}
	if canonE(v) == "null" {
		return Null{}
	}
	return v
}

func c06order(c *Case) {
	g, h := stdGen(c)
	h.Tables["t1"] = g.table(g.R.Intn(14))
	var q *Select
	if g.one(3) {
		q = g.groupQuery(false)
		if aggregateKey(q) {
			return
		}
	} else {
		q = g.query(QOpt{Where: g.one(2), Sub: g.one(4), Depth: 1, Nested: g.one(4)})
	}
	for i := range q.Cols {
		if q.Cols[i].As == "" && !q.Cols[i].Star {
			q.Cols[i].As = "x" + fmt.Sprint(i)
		}
	}
	// the sort column may have any name: quoted, with dots, spaces, of keywords
	key := g.pick("key", "key", "key", "a.b", "sort key", "order by", "t1.a", "k.l.m", "Limit", "x'y", "-k")
	q.Cols = append(q.Cols, Col{E: sym(g.pick("a", "b", "c", "a", "b", "c", "vi")), As: key})
	q.OrderBy = g.pick(key, key, key, key, key, "nope", "a", "no.pe")
	q.Desc = g.one(2)
	if g.one(3) {
		q.Limit = i64(int64(g.R.Intn(8)))
	}
	c.orderOracle(h, nil, q)
	// where the sort keys are all distinct the result is fully determined: compare with the reference
	c.Count("cases", 1)
}

// numbers of any mix, with NULL and missing keys
func c06mixed(c *Case) {
	g := newGen(c.R)
	h := NewHost()
	var rows []V
	strs := g.one(3)
	for i := 2 + g.R.Intn(20); i > 0; i-- {
		d := NewD().Set("id", int64(i))
		switch {
		case g.one(8):
			d.Set("k", Null{})
		case g.one(8):
		case strs:
			d.Set("k", g.word())
		default:
			switch g.R.Intn(4) {
			case 0:
				d.Set("k", g.floatVal())
			case 1:
				d.Set("k", g.one(2))
			default:
				d.Set("k", int64(g.R.Intn(9)-3))
			}
		}
		rows = append(rows, d)
	}
	h.Tables["t"] = rows
	h.Kind["t"] = g.pick("", "lazy")
	q := &Select{Cols: []Col{{E: sym("id")}, {E: sym("k"), As: "k"}}, From: From{Path: []string{"t"}, Call: true}, OrderBy: "k", Desc: g.one(2)}
	switch g.R.Intn(6) {
	case 0, 1:
		q.Cols = []Col{{Star: true}}
	case 2:
		// two columns whose names start or end alike
		q.OrderBy = g.pick("k.id", "id.k", "k id", "kk")
		q.Cols = append(q.Cols, Col{E: sym("k"), As: q.OrderBy})
		q.Cols[1].E = sym("id")
	}
	if g.one(4) {
		q.Limit = i64(int64(g.R.Intn(10)))
	}
	c.orderOracle(h, nil, q)
}

// many rows and many groups, checked against a direct computation
func c05large(c *Case) {
	n := 500 + c.R.Intn(6000)
	groups := int64(1 + c.R.Intn(n))
	if c.R.Intn(2) == 0 {
		groups = int64(1 + c.R.Intn(4))
	}
	mul := int64(1 + c.R.Intn(1000))
	h := NewHost()
	var rows []V
	count, sum := map[int64]int64{}, map[int64]int64{}
	last := map[int64]int64{}
	var order []int64
	for i := int64(0); i < int64(n); i++ {
		k := i * mul % groups
		if count[k] == 0 {
			order = append(order, k)
		}
		count[k]++
		sum[k] += i
		last[k] = i
		rows = append(rows, NewD().Set("i", i).Set("k", k))
	}
	h.Tables["t1"] = rows
	var want []string
	for _, k := range order {
		want = append(want, canonM(NewD().Set("k", k).Set("n", count[k]).Set("s", sum[k]).Set("i", last[k])))
	}
	text := "SELECT k, count() AS n, sum(item=i) AS s, i FROM t1() GROUP BY k"
	ordered := c.R.Intn(2) == 0
	if ordered {
		text += " ORDER BY k"
	}
	c.Desc("%d rows, %d groups: %s", n, groups, text)
	e := NewEngine(h)
	defer e.Close()
	got, err := e.Last(text)
	c.Eval(1)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	if ordered {
		want, got = sorted(want), sorted(got)
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("%s", d)
		return
	}
	c.Seen(fmt.Sprint(n, groups, mul, text))
	c.Count("rows_grouped", n)
}

// many rows through ORDER BY
func c06large(c *Case) {
	n := 500 + c.R.Intn(8000)
	h := NewHost()
	var rows []V
	keys := make([]int64, n)
	for i := range keys {
		keys[i] = int64(c.R.Intn(1 + c.R.Intn(2*n)))
		rows = append(rows, NewD().Set("i", int64(i)).Set("k", keys[i]))
	}
	h.Tables["t1"] = rows
	desc := c.R.Intn(2) == 0
	limit := -1
	text := "SELECT k, i FROM t1() ORDER BY k"
	if desc {
		text += " DESC"
	}
	if c.R.Intn(3) == 0 {
		limit = c.R.Intn(n + 10)
		text += fmt.Sprintf(" LIMIT %d", limit)
	}
	c.Desc("%d rows: %s", n, text)
	e := NewEngine(h)
	defer e.Close()
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	c.Eval(1)
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] != desc && keys[i] != keys[j] })
	want := keys
	if limit >= 0 && limit < len(want) {
		want = want[:limit]
	}
	seen := map[int64]bool{}
	at := 0
	for r := range vqls[0].Eval(e.ctx, e.Scope) {
		kv, _ := e.Scope.Associative(r, "k")
		iv, _ := e.Scope.Associative(r, "i")
		k, i := kv.(int64), iv.(int64)
		if at >= len(want) || want[at] != k {
			c.Fail("row %d has key %d", at, k)
			return
		}
		if seen[i] || rows[i].(*D).M["k"] != k {
			c.Fail("row %d: tag %d appears twice or with another key", at, i)
			return
		}
		seen[i] = true
		at++
	}
	if at != len(want) {
		c.Fail("%d rows, want %d", at, len(want))
		return
	}
	c.Seen(fmt.Sprint(n, text, keys[0], keys[n-1]))
	c.Count("rows_sorted", at)
}
