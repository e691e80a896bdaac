package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Property{ID: "C01", Rule: "distinct (query, host data) pairs whose execution produced at least one row",
		Groups: []Group{
			{"select", 5000, 100000, c01select},
			{"nested", 2000, 40000, c01nested},
			{"wide", 1000, 20000, c01wide},
		}})
	register(&Property{ID: "C02", Rule: "distinct expression texts evaluated in an execution that produced a row",
		Groups: []Group{
			{"expr", 6000, 200000, c02expr},
			{"wild", 3000, 60000, c02wild},
			{"pairs", 24, 24, c02pairs},
			{"prec", 1, 1, c02prec},
		}})
}

func stdGen(c *Case) (*Gen, *Host) {
	g := newGen(c.R)
	h := g.host()
	g.hostNames()
	if g.one(3) {
		h.Salt = 1 + uint64(g.R.Intn(1<<30))
	}
	return g, h
}

func c01select(c *Case) {
	g, h := stdGen(c)
	var stmts []*Stmt
	if g.one(3) {
		stmts = append(stmts, g.lets(1+g.R.Intn(2))...)
	}
	q := g.query(QOpt{Where: g.R.Intn(3) > 0, Sub: true, Depth: 1})
	if g.one(4) {
		stmts = append(stmts, &Stmt{Let: "TBL", Op: g.pick("=", "<="), Q: q})
		n := g.withColumns()
		outer := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"TBL"}}}
		if g.one(2) {
			outer.Cols = append(outer.Cols, Col{E: n.Expr("any", 1), As: "extra"})
		}
		if g.one(2) {
			outer.Where = n.Expr("bool", 1)
		}
		q = outer
	}
	stmts = append(stmts, &Stmt{Q: q})
	c.Differential(h, stmts, "")
}

func c01nested(c *Case) {
	g, h := stdGen(c)
	q := g.query(QOpt{Where: g.one(2), Sub: true, Nested: true, Depth: 2})
	c.Differential(h, []*Stmt{{Q: q}}, "")
}

func c01wide(c *Case) {
	g, h := stdGen(c)
	c.Differential(h, []*Stmt{{Q: g.wide()}}, "")
}

func c02one(c *Case, wild bool) {
	g, h := stdGen(c)
	g.Wild = wild
	var stmts []*Stmt
	if g.one(3) {
		stmts = g.lets(1 + g.R.Intn(3))
	}
	h.Tables["t1"] = g.table(2)
	n := g.withColumns()
	q := &Select{From: From{Path: []string{"t1"}, Call: true}}
	for i := 0; i < 4; i++ {
		q.Cols = append(q.Cols, Col{E: n.Expr("any", 4), As: fmt.Sprintf("e%d", i)})
	}
	stmts = append(stmts, &Stmt{Q: q})
	c.Differential(h, stmts, "")
}

func c02expr(c *Case) { c02one(c, false) }
func c02wild(c *Case) { c02one(c, true) }

// every operator on every ordered pair of a pool of values of all kinds
var pairPool = []V{Null{}, true, false, int64(0), int64(1), int64(-1), int64(2), int64(7), int64(-3), int64(1 << 40), 0.0, 1.0, 1.5, -0.25, 2.0, 1e10,
	"", "a", "b", "ab", "1", "TRUE", []V{}, []V{int64(1)}, []V{int64(1), "a"}, []V{[]V{int64(1)}}, NewD().Set("a", int64(1)), NewD()}

func c02pairs(c *Case) {
	op := []string{"+", "-", "*", "/", "AND", "OR"}[c.Index%6]
	h := NewHost()
	h.Salt = uint64(c.Index / 6 * 7) // other Go kinds of the same numbers
	for i, v := range pairPool {
		h.Vars.Set(fmt.Sprintf("v%d", i), v)
	}
	h.Tables["one"] = []V{NewD().Set("q", int64(1))}
	for i := range pairPool {
		for _, o := range append([]string{op}, map[string][]string{"AND": {"&&"}, "OR": {"||"}}[op]...) {
			q := &Select{From: From{Path: []string{"one"}, Call: true}}
			for j := range pairPool {
				e := bin(o, sym(fmt.Sprintf("v%d", i)), sym(fmt.Sprintf("v%d", j)))
				// skip what the model leaves undefined
				m, vars, env := h.Model()
				_ = vars
				m.Eval(e, env)
				if m.Unsure {
					continue
				}
				q.Cols = append(q.Cols, Col{E: e, As: fmt.Sprintf("r%d", j)})
			}
			c.Differential(h, []*Stmt{{Q: q}}, "")
		}
	}
}

// precedence and associativity: unparenthesised chains against explicitly grouped ones, as stated by the property
func c02prec(c *Case) {
	cases := [][2]string{
		{"1 + 2 * 3", "1 + (2 * 3)"}, {"2 * 3 + 1", "(2 * 3) + 1"}, {"10 - 3 - 2", "(10 - 3) - 2"}, {"100 / 5 / 2", "(100 / 5) / 2"},
		{"2 * 6 / 3", "(2 * 6) / 3"}, {"7 - 2 + 1", "(7 - 2) + 1"}, {"1 + 1 = 2", "(1 + 1) = 2"}, {"NOT 1 = 2", "NOT (1 = 2)"},
		{"NOT FALSE AND FALSE", "(NOT FALSE) AND FALSE"}, {"NOT TRUE OR TRUE", "(NOT TRUE) OR TRUE"},
		{"TRUE OR TRUE AND FALSE", "(TRUE OR TRUE) AND FALSE"}, {"FALSE AND TRUE OR TRUE", "FALSE AND (TRUE OR TRUE)"},
		{"1 < 2 AND 2 < 1", "(1 < 2) AND (2 < 1)"}, {"2 < 1 OR 1 < 2", "(2 < 1) OR (1 < 2)"},
		{"vd.x + 1", "(vd.x) + 1"}, {"vl[0] * 3 + vl[1]", "((vl[0]) * 3) + (vl[1])"},
		{"1 + 2 IN (3, 4)", "(1 + 2) IN (3, 4)"}, {"'a' + 'b' =~ 'ab'", "('a' + 'b') =~ 'ab'"},
		{"1 AND 0 || 5", "1 AND (0 || 5)"}, {"3 && 0 OR 2", "3 && (0 OR 2)"}, {"5 - 2 * 2 - 1", "(5 - (2 * 2)) - 1"},
		{"NOT vl[0] > 3", "NOT (vl[0] > 3)"}, {"1 + 2 < 3 * 2 AND NOT 5 - 5 OR 0", "((1 + 2) < (3 * 2)) AND ((NOT (5 - 5)) OR 0)"},
	}
	h := NewHost()
	h.Vars.Set("vd", NewD().Set("x", int64(4)))
	h.Vars.Set("vl", []V{int64(5), int64(3), int64(2)})
	h.Tables["one"] = []V{NewD().Set("q", int64(1))}
	for _, p := range cases {
		e := NewEngine(h)
		c.Desc("%s  vs  %s", p[0], p[1])
		a, err1 := e.Last("SELECT " + p[0] + " AS r FROM one()")
		b, err2 := e.Last("SELECT " + p[1] + " AS r FROM one()")
		c.Eval(2)
		if err1 != nil || err2 != nil || strings.Join(a, "") != strings.Join(b, "") {
			c.Fail("%s gives %v (%v) but %s gives %v (%v)", p[0], a, err1, p[1], b, err2)
		}
		c.Seen(p[0])
		e.Close()
	}
}
