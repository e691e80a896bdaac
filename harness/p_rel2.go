package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strings"
	"sync/atomic"
	"unicode/utf16"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C07", Rule: "distinct (query, limit) pairs whose unlimited query produced a row, plus distinct limited queries over endless sources",
		Groups: []Group{
			{"prefix", 2500, 50000, c07prefix},
			{"endless", 1500, 30000, c07endless},
		}})
	register(&Property{ID: "C08", Rule: "distinct statement sequences which produced a row",
		Groups: []Group{
			{"history", 4000, 80000, c08history},
			{"once", 1500, 20000, c08once},
			{"params", 2500, 40000, c08params},
			{"large", 24, 200, c08large},
			{"calls", 1200, 20000, c08calls},
		}})
	register(&Property{ID: "C10", Rule: "distinct (combinator nesting, data) pairs which produced a row",
		Groups: []Group{
			{"nest", 4000, 80000, c10nest},
			{"stored", 1500, 30000, c10stored},
			{"range", 1500, 20000, c10range},
			{"flatten", 1500, 20000, c10flatten},
			{"workers", 1200, 20000, c10workers},
		}})
	register(&Property{ID: "C34", Rule: "distinct (query with sub-queries, data) pairs which produced a row",
		Groups: []Group{
			{"columns", 2500, 50000, c34columns},
			{"args", 2500, 50000, c34args},
			{"shared", 2000, 40000, c34shared},
		}})
	register(&Property{ID: "C36", Rule: "distinct histories of evaluations of one parsed query",
		Groups: []Group{
			{"same", 2000, 40000, c36same},
			{"other", 2000, 40000, c36other},
		}})
}

// ---------------------------------------------------------------- C07

func c07prefix(c *Case) {
	g, h := stdGen(c)
	h.Tables["t1"] = g.table(g.R.Intn(13))
	// distinct sort keys make the order of rows unique
	perm := g.R.Perm(len(h.Tables["t1"]))
	for i, r := range h.Tables["t1"] {
		r.(*D).Set("c", float64(perm[i])+0.5)
	}
	q := g.query(QOpt{Where: g.one(2), Depth: 1, Nested: g.one(3)})
	switch g.R.Intn(4) {
	case 0:
		q = &Select{Cols: []Col{{Star: true}, {E: g.Expr("any", 1), As: "o1"}}, From: From{Path: []string{"t1"}, Call: true}, OrderBy: "c", Desc: g.one(2)}
		if g.one(2) {
			n := g.withColumns()
			q.Where = n.Expr("bool", 1)
		}
	case 1:
		q = &Select{Cols: []Col{{E: sym("a")}, {E: call("count"), As: "n"}, {E: call("sum", arg("item", sym("a"))), As: "s"}}, From: From{Path: []string{"t1"}, Call: true}, GroupBy: []Expr{sym("a")}}
		if g.one(2) {
			q.OrderBy = "a"
			q.Desc = g.one(2)
		}
	}
	if g.one(60) {
		// many rows
		n := int64(500 + g.R.Intn(3000))
		q = &Select{Cols: []Col{{E: sym("_value"), As: "a"}, {E: bin("*", sym("_value"), intLit(3)), As: "n"}},
			From: From{Path: []string{"range"}, Call: true, Args: []Arg{arg("start", intLit(0)), arg("end", intLit(n))}}}
		switch g.R.Intn(4) {
		case 0:
			q.OrderBy, q.Desc = "a", g.one(2)
		case 1:
			q.Cols[1].E = call("count")
			q.GroupBy = []Expr{g.pickE(sym("_value"), strL("x"), bin("<", sym("_value"), intLit(n/2)))}
			if g.one(2) {
				q.OrderBy = "a"
			}
		}
	}
	base := SelText(q)
	e := NewEngine(h)
	defer e.Close()
	all, err := e.Last(base)
	if err != nil {
		c.Fail("does not parse: %s: %v", base, err)
		return
	}
	c.Desc("%s\n%s", h.String(), base)
	c.Eval(1)
	limits := []int64{-1, 0, 1, 2, int64(len(all)) - 1, int64(len(all)), int64(len(all)) + 1, int64(g.R.Intn(1000)), int64(g.R.Intn(4000)), math.MaxInt64, math.MinInt64 + 1}
	for _, n := range limits {
		want := n
		if want < 0 {
			want = 0
		}
		if want > int64(len(all)) {
			want = int64(len(all))
		}
		q.Limit = i64(n)
		text := SelText(q)
		got, err := e.Last(text)
		if err != nil {
			c.Fail("does not parse: %s: %v", text, err)
			return
		}
		c.Eval(1)
		if d := diffRows(all[:want], got); d != "" {
			c.Fail("%s: not the first %d of %d rows: %s", text, want, len(all), d)
			return
		}
		if len(all) > 0 {
			c.Seen(fmt.Sprint(text, h.String()))
			c.Count("limited_queries", 1)
		}
	}
	if len(all) > 0 {
		c.Sample("%s has %d rows; the limits %v each gave the exact prefix", base, len(all), limits)
	}
}

// source is a table plugin which never ends by itself; a run which asks for more than cap rows is stopped.
type source struct {
	asked, closed, opened int64
	cap                   int64
	over                  int64
}

func (s *source) plugin(name string) *tablePlugin {
	return &tablePlugin{name: name, f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		atomic.AddInt64(&s.opened, 1)
		go func() {
			defer atomic.AddInt64(&s.closed, 1)
			defer close(out)
			for i := int64(0); ; i++ {
				n := atomic.AddInt64(&s.asked, 1)
				if n > s.cap {
					atomic.StoreInt64(&s.over, 1)
					return
				}
				select {
				case <-ctx.Done():
					return
				case out <- ordereddict.NewDict().Set("i", i).Set("l", []types.Any{i, i}):
				}
			}
		}()
		return out
	}}
}

func c07endless(c *Case) {
	g := newGen(c.R)
	n := int64(1 + g.R.Intn(6))
	skip := int64(0)
	src := &source{cap: 4000}
	// each layer keeps the number of rows (mult rows per source row at most)
	from := "src()"
	mult := int64(1)
	var shape []string
	var lets []string
	for d := g.R.Intn(4); d > 0; d-- {
		switch g.R.Intn(6) {
		case 0:
			from = fmt.Sprintf("foreach(row={ SELECT * FROM %s })", from)
			shape = append(shape, "foreach-row")
		case 1:
			from = fmt.Sprintf("chain(a={ SELECT * FROM %s }, b={ SELECT * FROM src() })", from)
			shape = append(shape, "chain")
		case 2:
			from = fmt.Sprintf("if(condition=1, then={ SELECT * FROM %s })", from)
			shape = append(shape, "if")
		case 3:
			from = fmt.Sprintf("foreach(row={ SELECT * FROM %s }, query={ SELECT i, l FROM range(end=%d) })", from, 2)
			mult *= 2
			shape = append(shape, "foreach-body")
		case 4:
			name := fmt.Sprintf("Q%d", len(lets))
			lets = append(lets, fmt.Sprintf("LET %s = SELECT * FROM %s", name, from))
			from = name
			shape = append(shape, "let")
		case 5:
			from = fmt.Sprintf("foreach(row={ SELECT * FROM range(end=3) }, query={ SELECT * FROM %s LIMIT %d })", from, n)
			shape = append(shape, "limited-body")
			mult *= 1
		}
	}
	where := ""
	if g.one(2) && !strings.Contains(strings.Join(shape, " "), "limited") {
		skip = int64(g.R.Intn(30))
		where = fmt.Sprintf(" WHERE i >= %d", skip)
	}
	text := strings.Join(lets, "\n") + fmt.Sprintf("\nSELECT i FROM %s%s LIMIT %d", from, where, n)
	c.Desc("%s", text)
	e := NewEngine(NewHost())
	defer e.Close()
	e.Scope.AppendPlugins(src.plugin("src"))
	rows, err := e.Last(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	c.Eval(1)
	if int64(len(rows)) != n {
		c.Fail("%d rows from an endless source with LIMIT %d", len(rows), n)
		return
	}
	asked := atomic.LoadInt64(&src.asked)
	// rows needed from the source plus what each layer may hold
	bound := skip + n*4 + 300
	if sh := strings.Join(shape, " "); !strings.Contains(sh, "body") {
		// every row read is one row out: a few in flight per layer
		bound = skip + n + 4*int64(len(shape)+2)
		c.Count("tight_bounds", 1)
	}
	if asked > bound {
		c.Fail("LIMIT %d (first %d rows filtered out) asked the source for %d rows", n, skip, asked)
	}
	if atomic.LoadInt64(&src.over) != 0 {
		c.Fail("the endless source was not stopped after %d rows", src.cap)
	}
	if strings.Join(shape, "") == "" {
		for i, r := range rows {
			if r != fmt.Sprintf("{\"i\": i:%d}", skip+int64(i)) {
				c.Fail("row %d is %s", i, r)
			}
		}
	}
	c.Count("source_rows_asked", int(asked))
	c.Seen(text)
	c.Sample("%s: %d rows, source asked for %d", text, len(rows), asked)
}

// ---------------------------------------------------------------- C08

type defs struct {
	g     *Gen
	names []string
	tabs  []string
	funcs map[string][]Param
	below string
}

func (d *defs) ref() Expr {
	g := d.g
	if len(d.names) == 0 || g.one(4) {
		return g.Expr("num", 1)
	}
	// lazy definitions only mention names which sort before them, so there are no cycles
	var names []string
	for _, n := range d.names {
		if d.below == "" || n < d.below {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return g.Expr("num", 1)
	}
	n := g.pick(names...)
	if ps, ok := d.funcs[n]; ok && !g.one(4) {
		return d.call(n, ps)
	}
	return sym(n)
}

func (d *defs) call(n string, ps []Param) Expr {
	ce := &CallE{Path: []string{n}}
	for _, p := range ps {
		if p.Def != nil && d.g.one(2) {
			continue
		}
		ce.Args = append(ce.Args, arg(p.Name, d.g.Expr("num", 1)))
	}
	return ce
}

func (d *defs) expr() Expr {
	g := d.g
	switch g.R.Intn(4) {
	case 0:
		return bin(g.pick("+", "-", "*"), d.ref(), d.ref())
	case 1:
		return call("if", arg("condition", d.ref()), arg("then", d.ref()), arg("else", d.ref()))
	case 2:
		return call("dict", arg("a", d.ref()), arg("x", d.ref()))
	}
	return d.ref()
}

func c08history(c *Case) {
	g, h := stdGen(c)
	d := &defs{g: g, funcs: map[string][]Param{}}
	var stmts []*Stmt
	for i := 3 + g.R.Intn(6); i > 0; i-- {
		switch g.R.Intn(7) {
		case 0, 1, 2:
			n := g.pick("N1", "N2", "N3", "vi")
			s := &Stmt{Let: n, Op: g.pick("=", "<=", "=")}
			if n == "vi" {
				s.Op = "<="
			}
			if s.Op == "=" {
				d.below = n
			}
			s.E = d.expr()
			delete(d.funcs, n)
			if s.Op == "=" && g.one(3) {
				s.Params = []Param{{Name: "p"}}
				if g.one(2) {
					a := arg("q", g.Expr("num", 1))
					s.Params = append(s.Params, Param{Name: "q", Def: &a})
				}
				s.E = bin("+", sym("p"), d.expr())
				if len(s.Params) > 1 {
					s.E = bin("*", s.E, sym("q"))
				}
				d.funcs[n] = s.Params
			}
			d.below = ""
			stmts = append(stmts, s)
			d.names = dedupSorted(append(d.names, n))
		case 3:
			n := g.pick("T1", "T2", "T3")
			if len(d.tabs) > 0 {
				// tables only mention tables defined first
				n = fmt.Sprintf("T%d", len(d.tabs)+1)
			}
			q := &Select{Cols: []Col{{E: sym("a")}, {E: d.expr(), As: "x"}}, From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
			if len(d.tabs) > 0 && g.one(2) {
				q.From = From{Path: []string{g.pick(d.tabs...)}}
			}
			if g.one(3) {
				q.Where = bin(g.pick("<", ">"), sym("a"), intLit(int64(g.R.Intn(5))))
			}
			stmts = append(stmts, &Stmt{Let: n, Op: g.pick("=", "<="), Q: q})
			d.tabs = append(d.tabs, n)
		default:
			q := &Select{From: From{Path: []string{g.pick("t1", "t2")}, Call: true}, Cols: []Col{{E: d.expr(), As: "u"}, {E: d.ref(), As: "v"}}}
			if len(d.tabs) > 0 && g.one(2) {
				t := g.pick(d.tabs...)
				q.From = From{Path: []string{t}}
				q.Cols = append(q.Cols, Col{E: sym("x")})
				if g.one(2) {
					t = g.pick(d.tabs...)
					q.Cols = append(q.Cols, Col{E: &Mem{Base: sym(t), Steps: []Step{{Index: intLit(int64(g.R.Intn(2)))}}}, As: "idx"},
						Col{E: sym(t, "x"), As: "fld"}, Col{E: sym(t), As: "all"})
				}
			}
			stmts = append(stmts, &Stmt{Q: q})
		}
	}
	stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{E: sym("vi")}, {E: d.ref(), As: "z"}}, From: From{Path: []string{"range"}, Call: true, Args: []Arg{arg("end", intLit(1))}}}})
	c.Differential(h, stmts, "")
}

// <= evaluates once, = on every use
func c08once(c *Case) {
	g, h := stdGen(c)
	lazy := g.one(2)
	op := "<="
	if lazy {
		op = "="
	}
	probe := func(e Expr) Expr { return call("probe", arg("id", strL("p")), arg("v", e)) }
	var stmts []*Stmt
	uses := 1 + g.R.Intn(4)
	rows := len(h.Tables["t1"])
	wantLet := 0
	perUse := 0
	if g.one(2) {
		stmts = append(stmts, &Stmt{Let: "X", Op: op, E: probe(g.Expr("num", 1))})
		wantLet, perUse = 1, 1
		if lazy {
			wantLet = 0
		}
		for i := 0; i < uses; i++ {
			stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{E: bin("+", sym("X"), intLit(int64(i))), As: "x"}}, From: From{Path: []string{"range"}, Call: true, Args: []Arg{arg("end", intLit(1))}}}})
		}
	} else {
		stmts = append(stmts, &Stmt{Let: "X", Op: op, Q: &Select{Cols: []Col{{E: sym("a")}, {E: probe(sym("a")), As: "y"}}, From: From{Path: []string{"t1"}, Call: true}}})
		wantLet, perUse = rows, rows
		if lazy {
			wantLet = 0
		}
		for i := 0; i < uses; i++ {
			stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"X"}}}})
		}
	}
	if !lazy {
		perUse = 0
	}
	e, _, got := c.Differential(h, stmts, "")
	if got == nil {
		return
	}
	want := wantLet + perUse*uses
	if e.Calls["p"] != want {
		c.Fail("the definition was evaluated %d times, expected %d (%d uses)", e.Calls["p"], want, uses)
	}
	c.Count("definition_evaluations", e.Calls["p"])
}

// results of many rows are kept whole
func c08large(c *Case) {
	g := newGen(c.R)
	n := []int{5, 9999, 10000, 10001, 10002, 12000 + g.R.Intn(3000), 1000 + g.R.Intn(500)}[c.Index%7]
	e := NewEngine(plainHost())
	defer e.Close()
	at := g.R.Intn(n)
	step := int64(1 + g.R.Intn(3))
	src := fmt.Sprintf("SELECT _value AS a, probe(id='p', v=_value) AS b FROM range(start=0, end=%d, step=%d)", int64(n)*step, step)
	form := g.R.Intn(3)
	text := "LET X <= " + src
	calls := n
	switch form {
	case 1:
		// an argument of a definition is expanded once
		text = "LET F(src) = SELECT len(list=src.a) AS n, src[" + fmt.Sprint(at) + "].b AS v, len(list=src.a) + 0 AS m FROM one() LET X <= SELECT * FROM F(src={ " + src + " })"
	case 2:
		text = "LET F(q) = len(list=q.b) LET X <= SELECT F(q={ " + src + " }) AS n FROM one()"
	}
	c.Desc("%s", text)
	if _, err := e.Run(text); err != nil {
		c.Fail("%v", err)
		return
	}
	c.Eval(1)
	var want []string
	var use string
	switch form {
	case 0:
		use = fmt.Sprintf("SELECT len(list=X) AS n, X[%d].a AS v, len(list=X.b) AS m, X[-1].b AS l FROM one()", at)
		want = []string{fmt.Sprintf(`{"n": i:%d, "v": i:%d, "m": i:%d, "l": i:%d}`, n, int64(at)*step, n, int64(n-1)*step)}
	case 1:
		use = "SELECT * FROM X"
		want = []string{fmt.Sprintf(`{"n": i:%d, "v": i:%d, "m": i:%d}`, n, int64(at)*step, n)}
	case 2:
		use = "SELECT * FROM X"
		want = []string{fmt.Sprintf(`{"n": i:%d}`, n)}
	}
	got, err := e.Last(use)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("%s: %s", use, d)
	}
	if e.Calls["p"] != calls {
		c.Fail("the query of %d rows was evaluated for %d rows", calls, e.Calls["p"])
	}
	c.Count("rows_kept", n)
	c.Seen(text)
}

// definitions with parameters, as values and as tables
func c08params(c *Case) {
	g, h := stdGen(c)
	names := []string{"p", "q", "vi", "a", "my par"}
	var params []Param
	used := map[string]bool{}
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		n := names[g.R.Intn(len(names))]
		if used[n] {
			continue
		}
		used[n] = true
		p := Param{Name: n}
		if g.one(2) {
			a := arg(n, g.Expr(g.pick("num", "num", "any"), 1))
			if g.one(3) {
				// a list in brackets, possibly empty
				a = Arg{Name: n, IsA: true}
				for j := g.R.Intn(4); j > 0; j-- {
					a.Arr = append(a.Arr, g.Expr("any", 1))
				}
			}
			p.Def = &a
		}
		params = append(params, p)
	}
	n := &Gen{R: g.R, Names: map[string][]string{}}
	for k, v := range g.Names {
		n.Names[k] = append([]string{}, v...)
	}
	for _, p := range params {
		for i := 0; i < 3; i++ {
			n.Names["int"] = append(n.Names["int"], p.Name)
			n.Names["float"] = append(n.Names["float"], p.Name)
		}
	}
	args := func(o *Gen) []Arg {
		var out []Arg
		for _, p := range params {
			if p.Def != nil && g.one(2) {
				continue
			}
			out = append(out, arg(p.Name, o.Expr(g.pick("num", "num", "int", "str", "list"), 1)))
		}
		g.R.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	var stmts []*Stmt
	body := n.Expr("num", 3)
	if g.one(2) {
		// all the parameters as they are
		show := []Arg{arg("value", body)}
		for i, p := range params {
			show = append(show, arg(fmt.Sprintf("p%d", i), sym(p.Name)))
		}
		body = &CallE{Path: []string{"dict"}, Args: show}
	}
	stmts = append(stmts, &Stmt{Let: "F", Op: "=", Params: params, E: body})
	o := g.withColumns()
	if g.one(2) {
		q := &Select{Cols: []Col{{E: sym("a")}, {E: n.Expr("any", 2), As: "x"}}, From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
		if g.one(2) {
			q.Where = n.Expr("bool", 1)
		}
		stmts = append(stmts, &Stmt{Let: "TF", Op: "=", Params: params, Q: q})
		stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"TF"}, Call: true, Args: args(g)}}})
	}
	cols := []Col{{E: &CallE{Path: []string{"F"}, Args: args(o)}, As: "f1"}, {E: bin("+", &CallE{Path: []string{"F"}, Args: args(o)}, intLit(1)), As: "f2"}}
	if g.one(2) {
		cols = append(cols, Col{E: sym("vi"), As: "outer"})
	}
	stmts = append(stmts, &Stmt{Q: &Select{Cols: cols, From: From{Path: []string{"t1"}, Call: true}}})
	c.Differential(h, stmts, "")
}

// a query definition called with the same arguments gives the same rows however it is called: as a table, as a value
// handed to a function, through another definition, materialized, or with its defaults written out
func c08calls(c *Case) {
	g, h := stdGen(c)
	h.Tables["one"] = []V{NewD().Set("z_", int64(1))}
	names := []string{"p", "q", "vi", "my par"}
	var params []Param
	var all, part []Arg
	n := &Gen{R: g.R, Names: map[string][]string{}}
	for k, v := range g.Names {
		n.Names[k] = append([]string{}, v...)
	}
	g.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	for _, nm := range names[:1+g.R.Intn(3)] {
		e := g.Expr(g.pick("num", "str", "int", "list"), 1)
		a := arg(nm, e)
		if g.one(5) {
			a = Arg{Name: nm, IsA: true}
			for j := g.R.Intn(3); j > 0; j-- {
				a.Arr = append(a.Arr, g.Expr("any", 1))
			}
		}
		p := Param{Name: nm}
		if g.R.Intn(3) > 0 {
			p.Def = &a
			if g.one(3) {
				part = append(part, a)
			}
		} else {
			part = append(part, a)
		}
		all = append(all, a)
		params = append(params, p)
		n.Names["int"] = append(n.Names["int"], nm, nm)
	}
	q := &Select{Cols: []Col{{E: sym("a")}, {E: sym(params[0].Name), As: "p0"}, {E: n.Expr("any", 2), As: "x"}}, From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
	if g.one(3) {
		q.Where = n.Expr("bool", 1)
	}
	def := StmtText(&Stmt{Let: "TF", Op: "=", Params: params, Q: q})
	callT := func(as []Arg) string { return ExprText(&CallE{Path: []string{"TF"}, Args: as}) }
	forms := []string{
		"SELECT * FROM " + callT(part),
		"SELECT * FROM " + callT(all),
		"SELECT allrows(query=" + callT(part) + ") AS v FROM one()",
		"SELECT allrows(query=" + callT(all) + ") AS v FROM one()",
		"LET V = " + callT(part) + " SELECT * FROM V",
		"LET V <= " + callT(part) + " SELECT * FROM V",
		"LET V = SELECT * FROM " + callT(part) + " SELECT allrows(query=V) AS v FROM one()",
		"LET W(y) = SELECT * FROM y SELECT * FROM W(y=" + callT(part) + ")",
		"SELECT * FROM foreach(row=" + callT(part) + ")",
		"SELECT * FROM chain(a=" + callT(part) + ")",
	}
	c.Desc("%s\n%s\n%s", h.String(), def, strings.Join(forms, "\n"))
	var first []string
	for i, f := range forms {
		e := NewEngine(h)
		got, err := e.Last(def + "\n" + f)
		e.Close()
		if err != nil {
			c.Fail("%s: %v", f, err)
			return
		}
		c.Eval(1)
		if strings.Contains(f, "AS v FROM one") {
			if len(got) != 1 {
				c.Fail("%s: %d rows", f, len(got))
				return
			}
			want := `{"v": [` + strings.Join(first, ", ") + `]}`
			if got[0] != want {
				c.Fail("%s:\nas a table %.500s\nhere       %.500s\nlogs %.300q", f, want, got[0], e.Logs)
			}
			continue
		}
		if i == 0 {
			first = got
			if len(got) > 0 {
				c.Seen(def + strings.Join(forms, "") + h.String())
			}
			continue
		}
		if d := diffRows(first, got); d != "" {
			c.Fail("%s\ngives different rows from %s: %s\nlogs %.300q", f, forms[0], d, e.Logs)
		}
	}
	c.Count("call_forms_compared", len(forms))
	c.Sample("%s: %d rows through %d forms", def, len(first), len(forms))
}

// ---------------------------------------------------------------- C10

func (g *Gen) comb(d int) *Select {
	s := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
	if d > 0 {
		f := From{Call: true}
		switch g.R.Intn(8) {
		case 0, 1:
			f.Path = []string{"chain"}
			if d == 1 && g.one(12) {
				// many branches, named in no particular order
				for i, k := range g.R.Perm(4 + g.R.Intn(12)) {
					f.Args = append(f.Args, argQ(fmt.Sprintf("%c%d", "abXY"[i%4], k), g.comb(0)))
				}
				break
			}
			for i := 0; i < g.R.Intn(4); i++ {
				f.Args = append(f.Args, argQ(fmt.Sprintf("%c%d", "zyxw"[i], i), g.comb(d-1)))
			}
		case 2, 3:
			f.Path = []string{"foreach"}
			f.Args = []Arg{argQ("row", g.comb(d-1)), argQ("query", g.comb(d-1))}
		case 4:
			f.Path = []string{"if"}
			f.Args = []Arg{arg("condition", g.Expr("any", 1)), argQ("then", g.comb(d-1)), argQ("else", g.comb(d-1))}
		case 5:
			f.Path = []string{"foreach"}
			f.Args = []Arg{arg("row", g.Expr(g.pick("list", "dict", "num"), 1)), argQ("query", g.comb(d-1))}
		case 6:
			f.Path = []string{"range"}
			f.Args = []Arg{arg("start", intLit(int64(g.R.Intn(3)))), arg("end", intLit(int64(g.R.Intn(5)))), arg("step", intLit(int64(1+g.R.Intn(2))))}
		case 7:
			f.Path = []string{"foreach"}
			f.Args = []Arg{argQ("row", g.comb(d-1))}
			if g.one(2) {
				q := &Select{Cols: []Col{{E: call("dict", arg("a", sym("a")), arg("tag", strL(g.word()))), As: "X"}}, From: From{Path: []string{"t1"}, Call: true}}
				f.Args = []Arg{argQ("row", q), arg("column", strL("X"))}
				if g.one(2) {
					f.Args = append(f.Args, argQ("query", g.comb(d-1)))
				}
			}
		}
		if g.Workers && f.Path[0] == "foreach" && g.R.Intn(4) > 0 {
			if g.one(8) {
				f.Args = append(f.Args, arg("async", boolLit(true)))
			} else {
				f.Args = append(f.Args, arg("workers", intLit(int64(2+g.R.Intn(7)))))
			}
		}
		s.From = f
	}
	n := g.withColumns()
	switch g.R.Intn(5) {
	case 0:
		s.Cols = append(s.Cols, Col{E: n.Expr("any", 1), As: g.pick("tag", "o1", "a")})
	case 1:
		s.Cols = []Col{{E: sym("a")}, {E: sym("tag")}, {E: sym("_value"), As: "v"}}
	case 2:
		s.Where = n.Expr("bool", 1)
	}
	return s
}

func c10host(c *Case) (*Gen, *Host) {
	g, h := stdGen(c)
	h.Tables["t1"] = g.table(g.R.Intn(4))
	h.Tables["t2"] = g.table(g.R.Intn(3))
	h.Vars.Set("tag", "none").Set("_value", int64(-7))
	return g, h
}

func c10nest(c *Case) {
	g, h := c10host(c)
	c.Differential(h, []*Stmt{{Q: g.comb(1 + g.R.Intn(3))}}, "")
}

// stored queries given to the combinators by name, the same one several times over
func c10stored(c *Case) {
	g, h := c10host(c)
	var stmts []*Stmt
	for _, n := range []string{"QA", "QB"} {
		stmts = append(stmts, &Stmt{Let: n, Op: g.pick("=", "=", "<="), Q: g.comb(g.R.Intn(2))})
	}
	ref := func(n string) Arg {
		switch g.R.Intn(5) {
		case 0:
			return argQ(n, &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{g.pick("QA", "QB")}}})
		case 1:
			return argQ(n, g.comb(0))
		}
		return arg(n, sym(g.pick("QA", "QA", "QB")))
	}
	f := From{Call: true}
	switch g.R.Intn(6) {
	case 0, 1, 2:
		f.Path = []string{"chain"}
		for i := 1 + g.R.Intn(5); i > 0; i-- {
			f.Args = append(f.Args, ref(fmt.Sprintf("x%d", i)))
		}
	case 3, 4:
		f.Path = []string{"foreach"}
		f.Args = []Arg{ref("row"), ref("query")}
	default:
		f.Path = []string{"if"}
		f.Args = []Arg{arg("condition", g.Expr("any", 1)), ref("then"), ref("else")}
	}
	stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{Star: true}}, From: f}})
	c.Differential(h, stmts, "")
}

func c10range(c *Case) {
	g := newGen(c.R)
	start := int64(g.R.Intn(21) - 10)
	end := start + int64(g.R.Intn(40)-8)
	step := int64(1 + g.R.Intn(7))
	if g.one(4) {
		base := []int64{math.MaxInt64 - 20, math.MinInt64 + 1, -3, 1 << 53}[g.R.Intn(4)]
		start = base + int64(g.R.Intn(10))
		end = start + int64(g.R.Intn(10))
		if g.one(3) && base > 0 {
			step = math.MaxInt64 - int64(g.R.Intn(3))
		}
	}
	var want []string
	n := 0
	for i := start; i < end; i += step {
		want = append(want, fmt.Sprintf("{\"_value\": i:%d}", i))
		if i+step < i {
			break
		}
		n++
	}
	text := fmt.Sprintf("SELECT * FROM range(start=%d, end=%d, step=%d)", start, end, step)
	if g.one(3) {
		text = fmt.Sprintf("SELECT * FROM range(step=S, start=A, end=E)")
	}
	if step == 1 && g.one(2) {
		text = fmt.Sprintf("SELECT * FROM range(start=%d, end=%d)", start, end)
		if start == 0 {
			text = fmt.Sprintf("SELECT * FROM range(end=%d)", end)
		}
	}
	h := NewHost()
	h.Vars.Set("S", step).Set("A", start).Set("E", end)
	c.Desc("%s with A=%d E=%d S=%d", text, start, end, step)
	e := NewEngine(h)
	defer e.Close()
	got, err := e.Last(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("%s", d)
	}
	if len(want) > 0 {
		c.Seen(fmt.Sprint(start, end, step))
	}
}

func c10flatten(c *Case) {
	g, h := c10host(c)
	var rows []V
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		d := NewD()
		for j := 0; j < 1+g.R.Intn(3); j++ {
			var v V = g.value(g.pick("int", "str", "bool"), 0)
			if g.one(2) {
				l := []V{}
				for k := g.R.Intn(4); k > 0; k-- {
					if g.one(5) {
						l = append(l, NewD().Set("k", int64(k)))
					} else {
						l = append(l, g.value(g.pick("int", "str"), 0))
					}
				}
				v = l
			}
			d.Set(fmt.Sprintf("k%d", j), v)
		}
		rows = append(rows, d)
	}
	h.Tables["ft"] = rows
	inner := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"ft"}, Call: true}}
	if g.one(3) {
		inner.Cols = append(inner.Cols, Col{E: g.leaf("list"), As: "extra"})
	}
	q := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"flatten"}, Call: true, Args: []Arg{argQ("query", inner)}}}
	if g.one(3) {
		q = &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"foreach"}, Call: true,
			Args: []Arg{argQ("row", &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"t1"}, Call: true}}), argQ("query", q)}}}
	}
	c.Differential(h, []*Stmt{{Q: q}}, "")
}

// parallel loops: the same multiset, never more bodies at once than asked for
func c10workers(c *Case) {
	g, h := c10host(c)
	h.Tables["t1"] = g.table(2 + g.R.Intn(12))
	for i, r := range h.Tables["t1"] {
		r.(*D).Set("u", int64(i))
	}
	h.Tables["body"] = g.table(1 + g.R.Intn(3))
	for i, r := range h.Tables["body"] {
		r.(*D).Set("w", int64(i))
	}
	workers := 2 + g.R.Intn(6)
	n := g.withColumns()
	row := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"t1"}, Call: true}}
	body := &Select{Cols: []Col{{E: sym("u")}, {E: sym("w")}, {E: n.Expr("any", 2), As: "x"}}, From: From{Path: []string{"body"}, Call: true}}
	if g.one(3) {
		body.Where = n.Expr("bool", 1)
	}
	from := From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", row), argQ("query", body), arg("workers", intLit(int64(workers)))}}
	limit := workers
	if g.one(6) {
		from.Args[2] = arg("async", boolLit(true))
		limit = 100
	}
	q := &Select{Cols: []Col{{Star: true}}, From: from}
	stmts := []*Stmt{{Q: q}}
	m, want := h.Expect(stmts)
	_ = m
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h.String(), text)
	e := NewEngine(h)
	defer e.Close()
	seed := uint64(c.R.Int63())
	var k atomic.Uint64
	e.Delay = func(string) {
		for j := (seed >> (k.Add(1) % 48)) % 4; j > 0; j-- {
			runtime.Gosched()
		}
	}
	got, err := e.Last(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if d := diffRows(sorted(want[0]), sorted(got)); d != "" {
		c.Fail("parallel loop with %d workers: %s", workers, d)
	}
	if e.MaxAct["body"] > limit {
		c.Fail("%d bodies ran at once with workers=%d", e.MaxAct["body"], workers)
	}
	c.Count("rows_compared", len(got))
	if e.MaxAct["body"] > 1 {
		c.Count("loops_with_overlapping_bodies", 1)
	}
	if strings.Join(want[0], "") != strings.Join(got, "") {
		c.Count("loops_observed_out_of_order", 1)
	}
	if len(got) > 0 {
		c.Seen(text + h.String())
		c.Sample("%s ⇒ %d rows as a multiset, at most %d bodies at once", text, len(got), e.MaxAct["body"])
	}
}

// ---------------------------------------------------------------- C34

func (g *Gen) corr(n *Gen) *Select {
	q := &Select{From: From{Path: []string{g.pick("t2", "t2", "t1")}, Call: true}}
	switch g.R.Intn(4) {
	case 0:
		q.Cols = []Col{{E: sym("a")}}
	case 1:
		q.Cols = []Col{{E: sym("b")}, {E: n.Expr("any", 1), As: "z"}}
	case 2:
		q.Cols = []Col{{Star: true}}
	case 3:
		q.From = From{Path: []string{"range"}, Call: true, Args: []Arg{arg("end", sym("a"))}}
		q.Cols = []Col{{E: bin("+", sym("_value"), sym("a")), As: "v"}}
		if g.one(2) {
			q.Cols = append(q.Cols, Col{E: sym("oa"), As: "up"})
		}
		return q
	}
	if g.one(2) {
		q.Where = bin(g.pick("<", "=", ">", "!="), sym("a"), g.pickE(sym("oa"), intLit(int64(g.R.Intn(4)))))
	}
	return q
}

func (g *Gen) pickE(es ...Expr) Expr { return es[g.R.Intn(len(es))] }

func c34columns(c *Case) {
	g, h := stdGen(c)
	for _, r := range h.Tables["t1"] {
		r.(*D).Set("oa", int64(g.R.Intn(4)))
	}
	h.Vars.Set("oa", int64(2))
	n := g.withColumns()
	q := &Select{From: From{Path: []string{"t1"}, Call: true}, Cols: []Col{{E: sym("a")}}}
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		q.Cols = append(q.Cols, Col{Sub: g.corr(n), As: fmt.Sprintf("s%d", i)})
	}
	if g.one(2) {
		q.Where = n.Expr("bool", 1)
	}
	stmts := []*Stmt{{Q: q}}
	if g.one(3) {
		stmts = []*Stmt{{Let: "LT", Op: g.pick("=", "<="), Q: q}, {Q: &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"LT"}}}}}
	}
	c.Differential(h, stmts, "")
}

func c34args(c *Case) {
	g, h := stdGen(c)
	for _, r := range h.Tables["t1"] {
		r.(*D).Set("oa", int64(g.R.Intn(4)))
	}
	h.Vars.Set("oa", int64(2))
	n := g.withColumns()
	q := &Select{From: From{Path: []string{"t1"}, Call: true}, Cols: []Col{{E: sym("a")}}}
	for i := 1 + g.R.Intn(2); i > 0; i-- {
		var e Expr
		switch g.R.Intn(4) {
		case 0:
			e = &CallE{Path: []string{"dict"}, Args: []Arg{argQ("x", g.corr(n)), arg("y", sym("a"))}}
		case 1:
			e = &CallE{Path: []string{"if"}, Args: []Arg{arg("condition", n.Expr("any", 1)), argQ("then", g.corr(n)), argQ("else", g.corr(n))}}
		case 2:
			e = &CallE{Path: []string{"allrows"}, Args: []Arg{argQ("query", g.corr(n))}}
		case 3:
			e = &CallE{Path: []string{"allrows"}, Args: []Arg{arg("query", sym(g.pick("LQ", "LM")))}}
		}
		q.Cols = append(q.Cols, Col{E: e, As: fmt.Sprintf("s%d", i)})
	}
	if g.one(3) {
		q.From = From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", &Select{Cols: []Col{{Star: true}}, From: q.From}), argQ("query", &Select{Cols: []Col{{Star: true}, {E: sym("oa"), As: "ob"}}, From: From{Path: []string{g.pick("LQ", "LM")}}})}}
	}
	lq := g.corr(n)
	stmts := []*Stmt{{Let: "LQ", Op: "=", Q: lq}, {Let: "LM", Op: "<=", Q: g.corr(n)}, {Q: q}}
	c.Differential(h, stmts, "")
}

// one stored query read from several places
func c34shared(c *Case) {
	g, h := stdGen(c)
	q := g.query(QOpt{Where: g.one(2), Depth: 1, NoStar: true})
	for i := range q.Cols {
		q.Cols[i].As = fmt.Sprintf("k%d", i)
	}
	k := fmt.Sprintf("k%d", g.R.Intn(len(q.Cols)))
	if g.one(3) {
		// rows which lack some of the columns
		less := *q
		less.Cols = nil
		for _, col := range q.Cols {
			if g.one(2) {
				less.Cols = append(less.Cols, col)
			}
		}
		less.Cols = append(less.Cols, Col{E: g.leaf("num"), As: "other"})
		args := []Arg{argQ("p", q), argQ("q", &less)}
		if g.one(2) {
			args[0], args[1] = args[1], args[0]
		}
		q = &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"chain"}, Call: true, Args: args}}
	}
	stmts := []*Stmt{{Let: "S", Op: g.pick("=", "=", "<="), Q: q}}
	tab := func() From { return From{Path: []string{"S"}} }
	use := func() *Select {
		switch g.R.Intn(5) {
		case 0:
			return &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"chain"}, Call: true, Args: []Arg{argQ("a", &Select{Cols: []Col{{Star: true}}, From: tab()}), argQ("b", &Select{Cols: []Col{{E: sym(k)}}, From: tab()})}}}
		case 1:
			return &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", &Select{Cols: []Col{{E: sym(k), As: "z"}}, From: tab()}), argQ("query", &Select{Cols: []Col{{E: sym("z")}, {E: sym(k)}}, From: tab()})}}}
		case 2:
			return &Select{Cols: []Col{{E: sym("S", k), As: "f"}, {E: sym("S"), As: "all"}}, From: From{Path: []string{"range"}, Call: true, Args: []Arg{arg("end", intLit(2))}}}
		case 3:
			return &Select{Cols: []Col{{E: sym(k)}, {Sub: &Select{Cols: []Col{{E: sym(k), As: "in"}}, From: tab()}, As: "sub"}}, From: tab()}
		}
		return &Select{Cols: []Col{{Star: true}}, From: tab()}
	}
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		stmts = append(stmts, &Stmt{Q: use()})
	}
	c.Differential(h, stmts, "")
}

// ---------------------------------------------------------------- C36

func (c *Case) reuseStmts(g *Gen) []*Stmt {
	var stmts []*Stmt
	if g.one(2) {
		stmts = append(stmts, g.lets(1+g.R.Intn(2))...)
	}
	switch g.R.Intn(6) {
	case 5:
		stmts = append(stmts, &Stmt{Q: g.wide()})
	case 0:
		n := g.withColumns()
		q := &Select{Cols: []Col{{E: sym("a")}, {E: call(g.pick("count", "enumerate"), arg("items", sym("a"))), As: "agg"}, {E: n.Expr("any", 2), As: "e"}}, From: From{Path: []string{"t1"}, Call: true}}
		if g.one(2) {
			q.GroupBy = []Expr{sym("a")}
		}
		stmts = append(stmts, &Stmt{Q: q})
	case 1:
		stmts = append(stmts, &Stmt{Q: g.comb(2)})
	case 2:
		n := g.withColumns()
		q := &Select{Cols: []Col{{Star: true}, {E: &Not{E: n.Expr("any", 2)}, As: "neg"}, {E: &Sym{Path: []string{"vi"}, Neg: true}, As: "m"}}, From: From{Path: []string{"t1"}, Call: true}, OrderBy: "m"}
		stmts = append(stmts, &Stmt{Q: q})
	default:
		stmts = append(stmts, &Stmt{Q: g.query(QOpt{Where: g.one(2), Sub: g.one(2), Nested: g.one(2), Depth: 1, Limit: g.one(4)})})
	}
	return stmts
}

func fmtVQL(scope types.Scope, v *vfilter.VQL) string { return vfilter.FormatToString(scope, v) }

// evaluating again, and in a fresh scope of equal contents, gives the same rows
func c36same(c *Case) {
	g, h := c10host(c)
	stmts := c.reuseStmts(g)
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h.String(), text)
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	var first [][]string
	var before []string
	total := 0
	for round := 0; round < 3; round++ {
		e := NewEngine(h)
		var rows [][]string
		for i, v := range vqls {
			if round == 0 {
				before = append(before, fmtVQL(e.Scope, v))
			}
			got := e.Query(v)
			if g.one(3) && stmts[i].Let == "" {
				again := e.Query(v)
				if d := diffRows(got, again); d != "" {
					c.Fail("evaluating again in the same scope: %s", d)
				}
				c.Eval(1)
			}
			rows = append(rows, got)
			total += len(got)
			if now := fmtVQL(e.Scope, v); now != before[i] {
				c.Fail("evaluation changed the query from %s to %s", before[i], now)
			}
		}
		c.Eval(1)
		if round == 0 {
			first = rows
		} else {
			for i := range rows {
				if d := diffRows(first[i], rows[i]); d != "" {
					c.Fail("evaluation %d in an equal scope: %s", round+1, d)
				}
			}
		}
		e.Close()
	}
	if total > 0 {
		c.Seen(text + h.String())
		c.Sample("%s: the same %d rows in 3 scopes", text, total/3)
	}
}

// in a scope of other contents the reused query behaves like a fresh parse
func c36other(c *Case) {
	g, h := c10host(c)
	stmts := c.reuseStmts(g)
	text := StmtsText(stmts)
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	total := 0
	for round := 0; round < 3; round++ {
		h2 := h
		if round > 0 {
			g2 := newGen(c.R)
			h2 = g2.host()
			h2.Vars.Set("tag", g.word()).Set("_value", g.intVal())
			// some names are of a different kind, or missing
			for _, k := range append([]string{}, h2.Vars.Keys...) {
				switch g.R.Intn(4) {
				case 0:
					h2.Vars.Set(k, g.value("any", 1))
				case 1:
					if k != "vi" {
						d := NewD()
						for _, kk := range h2.Vars.Keys {
							if kk != k {
								d.Set(kk, h2.Vars.M[kk])
							}
						}
						h2.Vars = d
					}
				}
			}
			if g.one(3) {
				delete(h2.Tables, "t2")
			}
		}
		c.Desc("round %d: %s\n%s", round, h2.String(), text)
		twist := g.R.Intn(3)
		mk := func() *Engine {
			e := NewEngine(h2)
			if round > 0 && twist == 1 {
				// the same names are other functions here
				e.Scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "len", Function: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) types.Any { return int64(77) }},
					&otherIf{})
			}
			return e
		}
		a, b := mk(), mk()
		fresh, err := parseText(text)
		if err != nil {
			c.Fail("does not parse: %v", err)
			return
		}
		for i := range vqls {
			ra, rb := a.Query(vqls[i]), b.Query(fresh[i])
			if d := diffRows(rb, ra); d != "" {
				c.Fail("reused query differs from a fresh parse (expected: fresh) in statement %d: %s", i, d)
			}
			c.Eval(1)
			total += len(ra)
		}
		a.Close()
		b.Close()
	}
	if total > 0 {
		c.Seen(text + h.String())
	}
}

type otherIf struct{}

func (o *otherIf) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "if"}
}
func (o *otherIf) Call(ctx contextT, scope types.Scope, args *ordereddict.Dict) types.Any {
	return "other"
}

var _ = hex.EncodeToString
var _ = utf16.Encode
var _ = sort.Strings
