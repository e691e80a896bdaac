package main

import (
	"fmt"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C35", Rule: "distinct (statements, host data) pairs whose rows and log lines were both compared with the prediction",
		Groups: []Group{
			{"inject", 4000, 100000, c35inject},
			{"clean", 3000, 80000, c35clean},
			{"defs", 800, 20000, c35defs},
			{"badargs", 2500, 60000, c35badargs},
		}})
	register(&Property{ID: "C09", Rule: "distinct scope histories and queries after which the visible bindings were compared with the environment model",
		Groups: []Group{
			{"scopes", 2500, 60000, c09scopes},
			{"rows", 2500, 60000, c09rows},
			{"leak", 2500, 60000, c09leak},
		}})
}

// ---------------------------------------------------------------- C35

// c35stmts: statements of every shape
func (c *Case) anyStmts(g *Gen) []*Stmt {
	var stmts []*Stmt
	if g.one(2) {
		stmts = append(stmts, g.lets(1+g.R.Intn(3))...)
	}
	switch g.R.Intn(6) {
	case 0:
		stmts = append(stmts, &Stmt{Q: g.comb(1 + g.R.Intn(2))})
	case 1:
		n := g.withColumns()
		q := &Select{From: From{Path: []string{"t1"}, Call: true}, Cols: []Col{{E: sym("a")}, {Sub: g.subQuery(n), As: "s1"}, {E: call("allrows", argQ("query", g.subQuery(n))), As: "s2"}}}
		stmts = append(stmts, &Stmt{Q: q})
	case 2:
		q := g.query(QOpt{Where: g.one(2), Sub: true, Nested: true, Depth: 1})
		stmts = append(stmts, &Stmt{Let: "TBL", Op: g.pick("=", "<="), Q: q}, &Stmt{Q: &Select{Cols: []Col{{Star: true}, {E: g.Expr("any", 1), As: "extra"}}, From: From{Path: []string{"TBL"}}}})
	default:
		stmts = append(stmts, &Stmt{Q: g.query(QOpt{Where: g.one(2), Sub: true, Nested: g.one(2), Depth: 1})})
	}
	return stmts
}

func c35inject(c *Case) {
	g, h := stdGen(c)
	g.Unknown = true
	stmts := c.anyStmts(g)
	e, m, got := c.Differential(h, stmts, "")
	if got == nil || e == nil {
		return
	}
	names := map[string]bool{}
	for _, l := range m.Logs {
		var n string
		if strings.HasPrefix(l, "ERROR:") && strings.HasSuffix(l, " not found") {
			n = strings.TrimSuffix(strings.TrimPrefix(l, "ERROR:"), " not found")
		}
		if n != "" {
			names[n] = true
		}
	}
	logs := strings.Join(e.Logs, "\n")
	for n := range names {
		found := false
		for _, l := range e.Logs {
			if strings.Contains(l, n) && strings.Contains(l, "not found") {
				found = true
			}
		}
		if !found {
			c.Fail("unknown name %q was evaluated but no log line names it:\n%s", n, logs)
			return
		}
		c.Count("unknown_names_logged", 1)
	}
	c.Count("log_lines", len(e.Logs))
}

// errorLines drops what is not an error
func errorLines(logs []string) []string {
	var out []string
	for _, l := range logs {
		if strings.HasPrefix(l, "DEBUG:") || strings.HasPrefix(l, "TRACE:") || strings.HasPrefix(l, "Compile regexp") {
			continue
		}
		out = append(out, l)
	}
	return out
}

func c35clean(c *Case) {
	g, h := stdGen(c)
	h.Vars.Set("tag", "none").Set("_value", int64(-7)).Set("nope", int64(1))
	var stmts []*Stmt
	if g.one(4) {
		stmts = c.reuseStmts(g)
	} else {
		stmts = c.anyStmts(g)
	}
	e, m, got := c.Differential(h, stmts, "")
	if got == nil || e == nil {
		return
	}
	if len(m.Logs) > 0 {
		c.Count("model_logs", 1)
		return
	}
	var lines []string
	for _, l := range errorLines(e.Logs) {
		// everything resolves here, but the repetition of a string is refused
		// for its size: a legitimate report
		if !strings.Contains(l, "exceeded memory limits") {
			lines = append(lines, l)
		}
	}
	if len(lines) > 0 {
		c.Fail("a query in which everything resolves logged %q", lines)
		return
	}
	c.Count("clean_queries", 1)
}

// bad calls of definitions, good ones beside them
func c35defs(c *Case) {
	g := newGen(c.R)
	h := plainHost()
	n := g.R.Intn(4)
	var rows []V
	for i := 0; i < n; i++ {
		rows = append(rows, NewD().Set("a", int64(i)))
	}
	h.Tables["t"] = rows
	if rows == nil {
		h.Tables["t"] = []V{}
	}
	h.Vars.Set("v", int64(5))
	e := NewEngine(h)
	defer e.Close()
	type bc struct{ text, want, log string }
	cases := []bc{
		{"SELECT * FROM G(x=7, zz=1)", `{"x": i:7, "a": i:%d}`, "zz"},
		{"SELECT * FROM G()", `{"x": null, "a": i:%d}`, "x not found"},
		{"SELECT * FROM G(zz=1)", `{"x": null, "a": i:%d}`, "zz"},
		{"SELECT F() AS x, a FROM t()", `{"x": null, "a": i:%d}`, "x not found"},
		{"SELECT v(x=1) AS x, a FROM t()", `{"x": null, "a": i:%d}`, "v"},
		{"SELECT nofn(x=1) AS x, a FROM t()", `{"x": null, "a": i:%d}`, "nofn"},
		{"SELECT len(list='abc', nope=1) AS x, a FROM t()", `{"x": null, "a": i:%d}`, "nope"},
		{"SELECT { SELECT * FROM nopl(a=1) } AS x, a FROM t() WHERE 1", `{"x": EMPTY, "a": i:%d}`, "nopl"},
		{"SELECT NULL AS x, a FROM chain(a={SELECT * FROM nopl()}, b={SELECT * FROM t()})", `{"x": null, "a": i:%d}`, "nopl"},
		{"SELECT NULL AS x, a FROM chain(a={SELECT * FROM t()}, b=Unk)", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT NULL AS x, a FROM foreach(row={SELECT * FROM t()}, query={SELECT a FROM one() WHERE len(list=Unk) = 0})", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT NULL AS x, a FROM t() WHERE Unk OR a > -1", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT Unk.b.c AS x, a FROM t()", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT Unk[0].c AS x, a FROM t()", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT -Unk AS x, a FROM t()", `{"x": null, "a": i:%d}`, "Unk"},
		{"SELECT a.nope.b AS x, a FROM t()", `{"x": null, "a": i:%d}`, ""},
		{"SELECT F(x=2) AS x, a FROM t()", `{"x": i:3, "a": i:%d}`, ""},
		{"SELECT D() AS x, a FROM t()", `{"x": i:10, "a": i:%d}`, ""},
		{"SELECT D(y=1) AS x, a FROM t()", `{"x": i:2, "a": i:%d}`, ""},
		{"SELECT * FROM G(x=9)", `{"x": i:9, "a": i:%d}`, ""},
	}
	lets := "LET F(x) = x + 1 LET D(y=9) = y + 1 LET G(x) = SELECT x, a FROM t()"
	if _, err := e.Run(lets); err != nil {
		c.Fail("%v", err)
		return
	}
	for i := 0; i < 4; i++ {
		b := cases[g.R.Intn(len(cases))]
		from := len(e.Logs)
		got, err := e.Last(b.text)
		c.Eval(1)
		if err != nil {
			c.Fail("%v: %s", err, b.text)
			return
		}
		var want []string
		for k := 0; k < n; k++ {
			want = append(want, fmt.Sprintf(b.want, k))
		}
		if strings.Contains(b.want, "EMPTY") {
			// only the other column is specified
			for k := range got {
				if strings.Contains(got[k], fmt.Sprintf(`"a": i:%d`, k)) {
					got[k] = want[k]
				}
			}
		}
		if d := diffRows(want, got); d != "" {
			c.Fail("%s: %s", b.text, d)
			return
		}
		logs := errorLines(e.Logs[from:])
		if b.log == "" && len(logs) > 0 {
			c.Fail("%s logged %q", b.text, logs)
			return
		}
		if b.log != "" && (n > 0 || strings.Contains(b.text, "nopl()") || strings.Contains(b.text, "zz=")) {
			if !strings.Contains(strings.Join(logs, "\n"), b.log) {
				c.Fail("%s: no log line mentions %q: %q", b.text, b.log, logs)
				return
			}
		}
		c.Seen(fmt.Sprint(b.text, n))
		c.Count("calls_of_definitions", 1)
	}
}

// ---------------------------------------------------------------- C09

type mscope struct {
	s        types.Scope
	parent   *mscope
	frames   []map[string]string // canonical values, innermost last
	children []*mscope
	// names whose visibility is unspecified: bound in an ancestor after this scope was made
	vague  map[string]bool
	closed bool
}

func (m *mscope) lookup(n string) string {
	for i := len(m.frames) - 1; i >= 0; i-- {
		if v, ok := m.frames[i][n]; ok {
			return v
		}
	}
	return "<none>"
}

type row09 struct {
	P1 types.Any
	P2 types.Any
}

// a history of copies, bindings and evaluations over a tree of scopes
func c09scopes(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	names := []string{"x", "y", "z", "a b", "P1", "P2"}
	root := &mscope{s: e.Scope, vague: map[string]bool{}}
	all := []*mscope{root}
	var hist []string
	live := func() []*mscope {
		var out []*mscope
		for _, m := range all {
			if !m.closed {
				out = append(out, m)
			}
		}
		return out
	}
	id := func(m *mscope) int {
		for i, x := range all {
			if x == m {
				return i
			}
		}
		return -1
	}
	var taint func(m *mscope, n string)
	taint = func(m *mscope, n string) {
		for _, ch := range m.children {
			own := false
			for i := len(ch.frames) - 1; i >= 0; i-- {
				if _, ok := ch.frames[i][n]; ok {
					own = true
				}
			}
			// a binding of the child's own stays innermost only if it was added by the child itself; others are vague
			_ = own
			ch.vague[n] = true
			taint(ch, n)
		}
	}
	check := func() bool {
		for _, m := range live() {
			for _, n := range names {
				if m.vague[n] {
					continue
				}
				want := m.lookup(n)
				v, ok := m.s.Resolve(n)
				got := "<none>"
				if ok {
					got = canonE(v)
				}
				if got != want {
					c.Desc("%s", strings.Join(hist, "\n"))
					c.Fail("scope %d resolves %s to %s, want %s", id(m), n, got, want)
					return false
				}
			}
		}
		c.Eval(1)
		return true
	}
	for i := 6 + g.R.Intn(14); i > 0; i-- {
		l := live()
		m := l[g.R.Intn(len(l))]
		switch g.R.Intn(8) {
		case 0, 1, 2:
			ch := &mscope{s: m.s.Copy(), parent: m, vague: map[string]bool{}}
			ch.frames = append(ch.frames, m.frames...)
			for n := range m.vague {
				ch.vague[n] = true
			}
			m.children = append(m.children, ch)
			all = append(all, ch)
			hist = append(hist, fmt.Sprintf("scope %d = copy of %d", len(all)-1, id(m)))
		case 3, 4, 5:
			f := map[string]string{}
			d := NewD()
			for k := g.R.Intn(4); k > 0; k-- {
				d.Set(g.pick(names...), g.value("any", 1))
			}
			var row types.Row
			kind := g.pick("dict", "dict", "lazy", "struct", "null", "list")
			switch kind {
			case "struct":
				d = NewD().Set("P1", g.value("any", 1)).Set("P2", g.value("any", 1))
				row = &row09{toE(d.M["P1"]), toE(d.M["P2"])}
			case "null":
				d = NewD()
				row = types.Null{}
			case "list":
				d = NewD()
				row = int64(5)
			default:
				row = e.host.toRow(kind, e.ctx, m.s, d)
			}
			for k, v := range d.M {
				f[k] = canonM(v)
			}
			m.s.AppendVars(row)
			m.frames = append(m.frames, f)
			for k := range f {
				delete(m.vague, k)
				taint(m, k)
			}
			hist = append(hist, fmt.Sprintf("scope %d binds %s as %s", id(m), canonM(d), kind))
		case 6:
			// evaluating a query leaves everything as it was
			q := g.pick("SELECT x, y, 5 AS z FROM one()", "SELECT * FROM foreach(row={SELECT 1 AS x, 2 AS y FROM one()}, query={SELECT x + y AS P1 FROM one() WHERE z OR x})",
				"SELECT F09(x=3, y=4) AS P2, { SELECT 1 AS z FROM one() } AS y FROM one()", "SELECT count() AS x, q AS P1 FROM one() GROUP BY q", "SELECT * FROM G09(y=1) ORDER BY y LIMIT 1")
			hist = append(hist, fmt.Sprintf("scope %d evaluates %s", id(m), q))
			sub := m.s
			if strings.Contains(q, "09") {
				sub = m.s.Copy()
				for _, v := range mustParse("LET F09(x, y) = x + y LET G09(y) = SELECT y, 7 AS z FROM one()") {
					drain(e.ctx, sub, v)
				}
			}
			for _, v := range mustParse(q) {
				drain(e.ctx, sub, v)
			}
			if sub != m.s {
				sub.Close()
			}
		case 7:
			if m == root || m.parent == nil {
				continue
			}
			// closing a scope does not disturb any other
			hist = append(hist, fmt.Sprintf("scope %d is closed", id(m)))
			m.s.Close()
			var mark func(m *mscope)
			mark = func(m *mscope) {
				m.closed = true
				for _, ch := range m.children {
					mark(ch)
				}
			}
			mark(m)
		}
		if !check() {
			return
		}
	}
	c.Seen(strings.Join(hist, "\n"))
	c.Sample("%d scopes: %s", len(all), strings.Join(hist, "; "))
	c.Count("scope_operations", len(hist))
}

func mustParse(text string) []*vfilter.VQL {
	v, err := vfilter.MultiParse(text)
	if err != nil {
		panic(err)
	}
	return v
}

// rows with differing columns: a missing column falls through to the outer binding, never to another row's value
func c09rows(c *Case) {
	g, h := stdGen(c)
	h.Vars.Set("a", "outer a").Set("n", "outer n").Set("o1", "outer o1")
	if g.one(2) {
		h.Vars.Set("b", "outer b")
	}
	for _, t := range []string{"t1", "t2"} {
		for i, r := range h.Tables[t] {
			d := NewD()
			for _, k := range r.(*D).Keys {
				if g.R.Intn(3) > 0 {
					d.Set(k, r.(*D).M[k])
				}
			}
			h.Tables[t][i] = d
		}
	}
	h.Kind["t1"] = g.pick("", "lazy", "")
	n := g.withColumns()
	cols := []Col{{E: sym("a"), As: "x1"}, {E: sym("b"), As: "x2"}, {E: sym("n"), As: "x3"}, {E: n.Expr("any", 1), As: "x4"}}
	var q *Select
	switch g.R.Intn(4) {
	case 0:
		q = &Select{Cols: cols, From: From{Path: []string{"t1"}, Call: true}}
	case 1:
		q = &Select{Cols: cols, From: From{Path: []string{"foreach"}, Call: true, Args: []Arg{
			argQ("row", &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"t1"}, Call: true}}),
			argQ("query", &Select{Cols: []Col{{E: sym("a"), As: "a"}, {E: sym("b"), As: "o1"}}, From: From{Path: []string{"t2"}, Call: true}})}}}
	case 2:
		q = &Select{Cols: append(cols, Col{Sub: &Select{Cols: []Col{{E: sym("a"), As: "i1"}, {E: sym("n"), As: "i2"}}, From: From{Path: []string{"t2"}, Call: true}}, As: "sub"}), From: From{Path: []string{"t1"}, Call: true}}
	case 3:
		q = &Select{Cols: append(cols, Col{E: sym("n"), As: "a"}, Col{E: sym("a"), As: "o1"}), From: From{Path: []string{"t1"}, Call: true}, Where: n.Expr("bool", 1)}
	}
	c.Differential(h, []*Stmt{{Q: q}}, "")
}

// after any statement every variable keeps its value and no column, alias or parameter name has become visible
func c09leak(c *Case) {
	g, h := stdGen(c)
	var stmts []*Stmt
	params := []string{"p", "q"}
	stmts = append(stmts, &Stmt{Let: "Fn", Params: []Param{{Name: "p"}, {Name: "q", Def: &Arg{Name: "q", E: intLit(3)}}}, Op: "=", E: bin("+", sym("p"), sym("q"))},
		&Stmt{Let: "Tn", Params: []Param{{Name: "p"}}, Op: "=", Q: &Select{Cols: []Col{{E: sym("p"), As: "o2"}, {Star: true}}, From: From{Path: []string{"t1"}, Call: true}}})
	stmts = append(stmts, c.anyStmts(g)...)
	stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{E: call("Fn", arg("p", intLit(1))), As: "Out"}, {E: sym("o2")}}, From: From{Path: []string{"Tn"}, Call: true, Args: []Arg{arg("p", intLit(4))}}}})
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h.String(), text)
	e := NewEngine(h)
	defer e.Close()
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	defined := map[string]bool{}
	names := append([]string{"o1", "o2", "a", "b", "c", "d", "l", "n", "Out", "my col", "_value", "v", "w", "z", "tag", "extra", "s1", "s2", "x1", "$Query"}, params...)
	names = append(names, h.Vars.Keys...)
	state := func() map[string]string {
		out := map[string]string{}
		for _, n := range names {
			if v, ok := e.Scope.Resolve(n); ok {
				out[n] = canonE(v)
			}
		}
		return out
	}
	before := state()
	for i, v := range vqls {
		drain(e.ctx, e.Scope, v)
		c.Eval(1)
		if i < len(stmts) && stmts[i].Let != "" {
			defined[stmts[i].Let] = true
		}
		after := state()
		for _, n := range names {
			if !defined[n] && before[n] != after[n] {
				c.Fail("statement %d changed %s from %q to %q", i, n, before[n], after[n])
				return
			}
		}
	}
	c.Seen(text + h.String())
	c.Count("statements_checked_for_leaks", len(vqls))
	c.Sample("%s left %d names as they were", text, len(names))
}

var _ = ordereddict.NewDict
