package main

import (
	"fmt"
	"strings"
)

// Query generation.

type QOpt struct {
	Where, Group, Order, Limit, Sub, Nested bool
	Depth                                   int
	NoStar                                  bool
}

// fresh generator with the column names visible in addition
func (g *Gen) withColumns() *Gen {
	n := &Gen{R: g.R, Names: map[string][]string{}, Probe: g.Probe, pn: g.pn, Ids: g.Ids, Wild: g.Wild, NoLimit: g.NoLimit, Unknown: g.Unknown}
	for k, v := range g.Names {
		n.Names[k] = append([]string{}, v...)
	}
	n.columns()
	return n
}

func (g *Gen) merge(n *Gen) { g.pn, g.Ids = n.pn, n.Ids }

var outNames = []string{"o1", "o2", "a", "b", "c", "l", "Out", "my col", "n", "vi", "A", "B", "L", "O1", "out", "My Col"}

// from generates a table expression with the standard schema.
func (g *Gen) from(o QOpt) From {
	t := From{Path: []string{g.pick("t1", "t1", "t2")}, Call: true}
	if g.Unknown && g.one(12) {
		t = From{Path: []string{g.pick("nopl1", "T1", "nopl2")}, Call: g.one(2)}
	}
	if !o.Nested || o.Depth <= 0 {
		return t
	}
	o.Depth--
	switch g.R.Intn(6) {
	case 0:
		return From{Path: []string{"chain"}, Call: true, Args: []Arg{argQ("x1", g.plainQuery()), argQ("x2", g.plainQuery())}}
	case 1:
		return From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", g.plainQuery()), argQ("query", g.plainQuery())}}
	case 2:
		return From{Path: []string{"if"}, Call: true, Args: []Arg{arg("condition", g.Expr("any", 1)), argQ("then", g.plainQuery()), argQ("else", g.plainQuery())}}
	case 3:
		return From{Path: []string{"foreach"}, Call: true, Args: []Arg{argQ("row", g.plainQuery())}}
	}
	return t
}

// plainQuery keeps the standard schema.
func (g *Gen) plainQuery() *Select {
	s := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
	if g.Unknown && g.one(8) {
		s.From = From{Path: []string{g.pick("nopl1", "T1", "nopl2")}, Call: g.one(2)}
	}
	if g.one(2) {
		n := g.withColumns()
		s.Where = n.Expr("bool", 1)
		g.merge(n)
	}
	if !g.NoLimit && g.one(4) {
		s.Limit = g.limit(int64(g.R.Intn(4)))
	}
	return s
}

func (g *Gen) query(o QOpt) *Select {
	s := &Select{From: g.from(o)}
	n := g.withColumns()
	used := map[string]bool{}
	cols := 1 + g.R.Intn(4)
	starAt := -1
	if !o.NoStar && g.one(3) {
		starAt = g.R.Intn(cols)
	}
	for i := 0; i < cols; i++ {
		if i == starAt {
			s.Cols = append(s.Cols, Col{Star: true})
			continue
		}
		if g.one(4) {
			// a plain column reference without alias
			c := g.pick("a", "b", "c", "d", "l", "vi")
			if !used[c] {
				used[c] = true
				s.Cols = append(s.Cols, Col{E: sym(c)})
				continue
			}
		}
		as := outNames[g.R.Intn(len(outNames))]
		if used[as] {
			continue
		}
		used[as] = true
		if o.Sub && g.one(5) {
			s.Cols = append(s.Cols, Col{Sub: g.subQuery(n), As: as})
			continue
		}
		s.Cols = append(s.Cols, Col{E: n.Expr("any", 2), As: as})
	}
	if len(s.Cols) == 0 {
		s.Cols = []Col{{E: sym("a")}}
	}
	if o.Where {
		// the condition may use output columns as well
		for k := range used {
			n.Names["null"] = append(n.Names["null"], k)
		}
		n.Names["null"] = dedupSorted(n.Names["null"])
		s.Where = n.Expr("bool", 2)
	}
	if o.Limit {
		s.Limit = g.limit(int64(g.R.Intn(6) - 1))
	}
	g.merge(n)
	return s
}

func dedupSorted(ss []string) []string {
	out := sorted(ss)
	n := 0
	for i, s := range out {
		if i == 0 || s != out[n-1] {
			out[n] = s
			n++
		}
	}
	return out[:n]
}

func (g *Gen) subQuery(n *Gen) *Select {
	q := &Select{From: From{Path: []string{g.pick("t1", "t2")}, Call: true}}
	if g.Unknown && g.one(8) {
		q.From = From{Path: []string{g.pick("nopl1", "T1", "nopl2")}, Call: g.one(2)}
	}
	if g.one(3) {
		q.From = From{Path: []string{"range"}, Call: true, Args: []Arg{arg("start", intLit(0)), arg("end", intLit(int64(g.R.Intn(4))))}}
		q.Cols = []Col{{E: bin("+", sym("_value"), intLit(10)), As: "v"}}
		if g.one(2) {
			q.Cols = append(q.Cols, Col{E: n.Expr("num", 1), As: "w"})
		}
		return q
	}
	q.Cols = []Col{{E: sym("a")}}
	if g.one(2) {
		q.Cols = append(q.Cols, Col{E: n.Expr("any", 1), As: "z"})
	}
	if g.one(2) {
		q.Where = n.Expr("bool", 1)
	}
	return q
}

// lets generates definitions and registers their names by kind.
func (g *Gen) lets(n int) []*Stmt {
	var out []*Stmt
	for i := 0; i < n; i++ {
		kind := g.pick("int", "num", "str", "bool", "list", "dict")
		// distinct names: a definition which mentions itself recurses
		g.Lets++
		name := fmt.Sprintf("%s%d_%s", g.pick("L", "L", "L "), g.Lets, kind)
		if i > 0 && g.one(5) {
			// differs from the previous one only in case
			if prev := out[i-1].Let; prev != strings.ToLower(prev) {
				name = strings.ToLower(prev)
			}
		}
		op := g.pick("=", "=", "<=")
		s := &Stmt{Let: name, Op: op, E: g.Expr(kind, 2)}
		out = append(out, s)
		k := kind
		if k == "num" {
			k = "float"
		}
		g.Names[k] = append(g.Names[k], name)
	}
	return out
}

// limit gives n, or once in a while a limit far beyond any number of rows.
func (g *Gen) limit(n int64) *int64 {
	if g.one(15) {
		n = []int64{256, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 + 1, 1 << 53, 1<<53 + 1, 1<<63 - 1}[g.R.Intn(8)]
	}
	return i64(n)
}
