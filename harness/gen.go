package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// Generators of values, expressions, queries and hosts.

type Gen struct {
	R *rand.Rand
	// variable paths by kind
	Names   map[string][]string
	Probe   bool
	pn      int
	Ids     []string
	Wild    bool // mix operand kinds in arithmetic
	Lets    int
	NoFn    bool
	NoLimit bool
	Workers bool // parallel loops in combinators
	Unknown bool // sprinkle unknown variables, functions and plugins
}

func newGen(r *rand.Rand) *Gen { return &Gen{R: r, Names: map[string][]string{}} }

func (g *Gen) pick(ss ...string) string { return ss[g.R.Intn(len(ss))] }
func (g *Gen) one(n int) bool           { return g.R.Intn(n) == 0 }

func quoteStr(s string, q byte) string {
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == q || c == '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case c == '\n':
			b.WriteString("\\n")
		case c == '\r':
			b.WriteString("\\r")
		case c == '\t':
			b.WriteString("\\t")
		case c < 0x20 || c == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte(q)
	return b.String()
}

func (g *Gen) strLit(s string) *Lit {
	switch g.R.Intn(5) {
	case 0:
		if !strings.Contains(s, "'''") && !strings.HasPrefix(s, "'") && !strings.HasSuffix(s, "'") {
			return &Lit{V: s, Text: "'''" + s + "'''"}
		}
	case 1, 2:
		return &Lit{V: s, Text: quoteStr(s, '"')}
	}
	return &Lit{V: s, Text: quoteStr(s, '\'')}
}

func intLit(i int64) *Lit { return &Lit{V: i, Text: fmt.Sprint(i)} }
func floatLit(f float64) *Lit {
	t := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(t, ".") {
		t += ".0"
	}
	return &Lit{V: f, Text: t}
}
func boolLit(b bool) *Lit {
	if b {
		return &Lit{V: true, Text: "TRUE"}
	}
	return &Lit{V: false, Text: "FALSE"}
}
func nullLit() *Lit                        { return &Lit{V: Null{}, Text: "NULL"} }
func strL(s string) *Lit                   { return &Lit{V: s, Text: quoteStr(s, '\'')} }
func sym(p ...string) *Sym                 { return &Sym{Path: p} }
func bin(op string, l, r Expr) *Bin        { return &Bin{Op: op, L: l, R: r} }
func call(name string, args ...Arg) *CallE { return &CallE{Path: []string{name}, Args: args} }
func arg(n string, e Expr) Arg             { return Arg{Name: n, E: e} }
func argQ(n string, q *Select) Arg         { return Arg{Name: n, Sub: q} }
func i64(n int64) *int64                   { return &n }

var wordsPool = []string{"", "a", "b", "ab", "B", "foo", "bar", "foobar", "a b", "c", "it's", "say \"hi\"", "back\\slash", "line\nbreak", "tab\t", "ünïcode", "日本", "%d", "0", "1", "NULL", "Null", "true", "x.y", "`q`", "-- no", "/* no */"}

func (g *Gen) word() string {
	if g.one(40) {
		return g.longWord()
	}
	return wordsPool[g.R.Intn(len(wordsPool))]
}

// longWord: strings beyond any small buffer which share long prefixes and suffixes
func (g *Gen) longWord() string {
	n := 1 << uint(3+g.R.Intn(9))
	return strings.Repeat(g.pick("a", "ab", "é"), n+g.R.Intn(2)) + g.pick("", "x", "y") + strings.Repeat(g.pick("", "z"), g.R.Intn(100))
}

func (g *Gen) intVal() int64 {
	switch g.R.Intn(10) {
	case 0:
		return 0
	case 1:
		return -int64(g.R.Intn(20))
	case 2:
		return int64(g.R.Intn(1 << 30))
	case 3:
		return int64(1)<<uint(g.R.Intn(50)) - int64(g.R.Intn(3))
	}
	return int64(g.R.Intn(12))
}

func (g *Gen) floatVal() float64 {
	switch g.R.Intn(6) {
	case 0:
		return float64(g.R.Intn(5))
	case 1:
		return -float64(g.R.Intn(100)) / 8
	}
	return float64(g.R.Intn(400)) / 16
}

// value makes a plain model value of the given kind ("" = any).
func (g *Gen) value(kind string, depth int) V {
	if kind == "" || kind == "any" {
		ks := []string{"int", "int", "float", "str", "str", "bool", "null"}
		if depth > 0 {
			ks = append(ks, "list", "dict")
		}
		kind = ks[g.R.Intn(len(ks))]
	}
	switch kind {
	case "int":
		return g.intVal()
	case "float":
		return g.floatVal()
	case "num":
		if g.one(3) {
			return g.floatVal()
		}
		return g.intVal()
	case "str":
		return g.word()
	case "bool":
		return g.one(2)
	case "null":
		return Null{}
	case "list":
		out := []V{}
		if g.one(60) {
			for i := g.R.Intn(200); i > 0; i-- {
				out = append(out, g.intVal())
			}
			return out
		}
		for i := g.R.Intn(4); i > 0; i-- {
			out = append(out, g.value("any", depth-1))
		}
		return out
	case "strlist":
		out := []V{}
		for i := g.R.Intn(4); i > 0; i-- {
			out = append(out, g.word())
		}
		return out
	case "dict":
		d := NewD()
		for i := g.R.Intn(4); i > 0; i-- {
			d.Set(g.pick("x", "y", "z", "k", "a b"), g.value("any", depth-1))
		}
		return d
	}
	panic(kind)
}

func (g *Gen) lit(v V) Expr {
	switch t := v.(type) {
	case Null:
		return nullLit()
	case bool:
		return boolLit(t)
	case int64:
		l := intLit(t)
		if t >= 0 && g.one(4) {
			l.Text = fmt.Sprintf("0x%x", t)
		}
		return l
	case float64:
		return floatLit(t)
	case string:
		return g.strLit(t)
	case []V:
		c := &Comma{}
		for _, x := range t {
			c.Items = append(c.Items, g.lit(x))
		}
		if len(t) == 0 {
			return nil
		}
		if len(t) == 1 {
			c.Trailing = true
		}
		return &Par{E: c}
	case *D:
		ce := call("dict")
		for _, k := range t.Keys {
			x := g.lit(t.M[k])
			if x == nil {
				return nil
			}
			ce.Args = append(ce.Args, arg(k, x))
		}
		return ce
	}
	return nil
}

func (g *Gen) name(kind string) Expr {
	ns := g.Names[kind]
	if len(ns) == 0 {
		return nil
	}
	n := ns[g.R.Intn(len(ns))]
	return &Sym{Path: strings.Split(n, "\x00"), Neg: (kind == "int" || kind == "float") && g.one(8)}
}

func (g *Gen) wrap(e Expr) Expr {
	if g.Unknown && g.one(12) {
		if g.one(2) {
			return call(g.pick("nofn1", "nofn2", "no fn"), arg("x", e))
		}
		return call(g.pick("nofn1", "nofn3"))
	}
	if g.Probe && g.one(4) {
		g.pn++
		id := fmt.Sprintf("p%d", g.pn)
		g.Ids = append(g.Ids, id)
		return call("probe", arg("id", strL(id)), arg("v", e))
	}
	if g.one(10) {
		return &Par{E: e}
	}
	return e
}

// Expr generates an expression of a kind: int float num str bool null list dict any.
func (g *Gen) Expr(kind string, d int) Expr {
	if kind == "any" {
		kind = g.pick("int", "num", "str", "bool", "bool", "null", "list", "dict", "num", "str")
	}
	return g.wrap(g.expr(kind, d))
}

func (g *Gen) leaf(kind string) Expr {
	if kind == "strP" {
		kind = "str"
	}
	if kind == "num" {
		kind = g.pick("int", "float")
	}
	if g.Unknown && g.one(6) {
		if g.one(3) {
			return sym(g.pick("Unk1", "Unk 2", "Unk3"), "field", "f2")
		}
		return sym(g.pick("Unk1", "Unk 2", "Unk3", "A", "cOUNT"))
	}
	if g.one(2) {
		if e := g.name(kind); e != nil {
			return e
		}
	}
	for {
		k := kind
		if e := g.lit(g.value(k, 1)); e != nil {
			return e
		}
	}
}

func (g *Gen) ifE(kind string, d int) Expr {
	return call("if", arg("condition", g.Expr("any", d-1)), arg("then", g.Expr(kind, d-1)), arg("else", g.Expr(kind, d-1)))
}

func (g *Gen) expr(kind string, d int) Expr {
	if d <= 0 || g.one(6) {
		return g.leaf(kind)
	}
	operand := func(k string) Expr {
		if g.Wild && g.one(6) {
			return g.Expr("any", d-1)
		}
		return g.Expr(k, d-1)
	}
	switch kind {
	case "int":
		switch g.R.Intn(8) {
		case 0, 1, 2, 3:
			return bin(g.pick("+", "-", "*"), operand("int"), operand("int"))
		case 4:
			return call("len", arg("list", g.Expr(g.pick("str", "list", "dict"), d-1)))
		case 5:
			return &Mem{Base: g.Expr("list", d-1), Steps: []Step{{Index: intLit(int64(g.R.Intn(5) - 2))}}}
		case 6:
			return g.ifE("int", d)
		}
		return g.leaf("int")
	case "float", "num":
		switch g.R.Intn(6) {
		case 0, 1, 2:
			return bin(g.pick("+", "-", "*", "/"), operand("num"), operand("num"))
		case 3:
			return bin("/", operand("num"), operand("num"))
		case 4:
			return g.ifE("num", d)
		}
		return g.leaf(kind)
	case "str":
		switch g.R.Intn(6) {
		case 0, 1:
			return bin("+", operand("str"), operand("str"))
		case 2:
			return bin("*", operand("str"), intLit(int64(g.R.Intn(4))))
		case 3:
			return g.ifE("str", d)
		case 4:
			return &Mem{Base: g.Expr("str", d-1), Steps: []Step{g.sliceStep()}}
		}
		return g.leaf("str")
	case "null":
		switch g.R.Intn(4) {
		case 0:
			return bin(g.pick("+", "-", "*", "/"), nullLit(), g.Expr("num", d-1))
		case 1:
			return bin("/", g.Expr("num", d-1), g.leafZero())
		case 2:
			return bin(g.pick("-", "/"), g.Expr("str", d-1), g.Expr("any", d-1))
		}
		return nullLit()
	case "bool":
		switch g.R.Intn(13) {
		case 12:
			return g.chain(d, 3+g.R.Intn(3))
		case 0, 1:
			return bin(g.pick("AND", "AND", "&&"), g.Expr("any", d-1), g.Expr("any", d-1))
		case 2, 3:
			return bin(g.pick("OR", "OR", "||"), g.Expr("any", d-1), g.Expr("any", d-1))
		case 4:
			return &Not{E: g.Expr("any", d-1)}
		case 5, 6:
			return bin(g.pick("<", "<=", ">", ">=", "=", "!="), g.Expr("num", d-1), g.Expr("num", d-1))
		case 7:
			return bin(g.pick("<", "<=", ">", ">=", "=", "!="), g.Expr("str", d-1), g.Expr("str", d-1))
		case 8:
			return bin(g.pick("=", "!="), g.Expr("any", d-1), g.Expr("any", d-1))
		case 9:
			return bin("IN", g.Expr("any", d-1), g.Expr(g.pick("list", "dict", "str", "any"), d-1))
		case 10:
			return bin("=~", g.Expr("str", d-1), g.lit(g.pick("a", "^f", "o+", "B", "a|b", ".", "", "[", "bar$")))
		}
		return g.leaf("bool")
	case "list":
		switch g.R.Intn(6) {
		case 0:
			return bin("+", g.Expr("list", d-1), g.Expr("list", d-1))
		case 1:
			c := &Comma{}
			n := 2 + g.R.Intn(3)
			if g.one(8) {
				n = 4 + g.R.Intn(9)
			}
			for i := n; i > 0; i-- {
				c.Items = append(c.Items, g.Expr("any", d-1))
			}
			return &Par{E: c}
		case 2:
			return &Par{E: &Comma{Items: []Expr{g.Expr("any", d-1)}, Trailing: true}}
		case 3:
			return &Mem{Base: g.Expr("list", d-1), Steps: []Step{g.sliceStep()}}
		case 4:
			return call("split", arg("string", g.Expr("strP", d-1)), arg("sep_string", strL(g.pick("a", "o", " "))))
		}
		return g.leaf("list")
	case "strP":
		// certainly a string
		if g.one(2) {
			if e := g.name("str"); e != nil {
				return e
			}
		}
		return g.strLit(g.word())
	case "dict":
		if g.one(2) {
			c := call("dict")
			ks := g.R.Perm(4)[:g.R.Intn(4)]
			for _, i := range ks {
				c.Args = append(c.Args, arg([]string{"x", "y", "z", "a b"}[i], g.Expr("any", d-1)))
			}
			return c
		}
		return g.leaf("dict")
	}
	panic(kind)
}

// chain of n operands joined by the same operator without parentheses
func (g *Gen) chain(d, n int) Expr {
	ops := [][]string{{"AND"}, {"AND", "&&"}, {"OR"}, {"OR", "||"}, {"&&"}, {"||"}}[g.R.Intn(6)]
	e := g.Expr(g.pick("bool", "any"), d-1)
	for i := 1; i < n; i++ {
		e = bin(ops[g.R.Intn(len(ops))], e, g.Expr(g.pick("bool", "any"), d-1))
	}
	return e
}

func (g *Gen) leafZero() Expr {
	return []Expr{intLit(0), floatLit(0), boolLit(false)}[g.R.Intn(3)]
}

func (g *Gen) sliceStep() Step {
	s := Step{Slice: true}
	if g.one(2) {
		s.Lo = intLit(int64(g.R.Intn(8) - 3))
	}
	if g.one(2) {
		s.Hi = intLit(int64(g.R.Intn(8) - 3))
	}
	return s
}

// standard column schema of generated tables
var schema = []struct{ name, kind string }{{"a", "int"}, {"b", "str"}, {"c", "num"}, {"d", "dict"}, {"l", "list"}, {"n", "any"}}

func (g *Gen) table(rows int) []V {
	var out []V
	skip := -1
	for i := 0; i < rows; i++ {
		d := NewD()
		for j, s := range schema {
			if j == skip {
				continue
			}
			switch s.kind {
			case "num":
				d.Set(s.name, g.floatVal())
			case "int":
				d.Set(s.name, int64(g.R.Intn(5)))
			default:
				d.Set(s.name, g.value(s.kind, 1))
			}
		}
		out = append(out, d)
	}
	if out == nil {
		out = []V{}
	}
	return out
}

func (g *Gen) columns() {
	g.Names["int"] = append(g.Names["int"], "a", "a")
	g.Names["str"] = append(g.Names["str"], "b")
	g.Names["float"] = append(g.Names["float"], "c")
	g.Names["dict"] = append(g.Names["dict"], "d")
	g.Names["list"] = append(g.Names["list"], "l")
	g.Names["null"] = append(g.Names["null"], "n", "d\x00nope")
}

// host with two tables and some variables of every kind
func (g *Gen) host() *Host {
	h := NewHost()
	h.Tables["t1"] = g.table(g.R.Intn(7))
	h.Tables["t2"] = g.table(g.R.Intn(4))
	h.Kind["t1"] = g.pick("", "", "lazy")
	for _, s := range []struct{ n, k string }{{"vi", "int"}, {"vf", "float"}, {"vs", "str"}, {"vb", "bool"}, {"vn", "null"}, {"vl", "list"}, {"vd", "dict"}, {"my var", "int"}} {
		h.Vars.Set(s.n, g.value(s.k, 2))
	}
	// values and tables several names deep
	rows := []V{}
	for i := g.R.Intn(3); i > 0; i-- {
		rows = append(rows, NewD().Set("a", g.intVal()).Set("b", g.word()).Set("x", g.value("dict", 1)))
	}
	h.Vars.Set("deep", NewD().Set("m", NewD().Set("n", g.intVal()).Set("rows", rows).Set("p", NewD().Set("q", NewD().Set("r", g.word())).Set("rows", rows[:len(rows)/2]))))
	return h
}

// deepName: a dotted name of three or more parts
func (g *Gen) deepName() Expr {
	return [][]Expr{{sym("deep", "m", "n")}, {sym("deep", "m", "p", "q", "r")}, {sym("deep", "m", "p", "q")}, {sym("deep", "m", "rows", "b")}, {sym("deep", "m", "none")}, {sym("deep", "none", "n", "r")}, {sym("deep", "m", "rows")}}[g.R.Intn(7)][0]
}

// wide: a query of which every part is large: long lists, chains, calls, dotted names
func (g *Gen) wide() *Select {
	n := g.withColumns()
	s := &Select{From: From{Path: []string{"deep", "m", "rows"}}}
	switch g.R.Intn(4) {
	case 0:
		s.From = From{Path: []string{"deep", "m", "p", "rows"}}
	case 1:
		s.From = From{Path: []string{"t1"}, Call: true}
	}
	for i := 2 + g.R.Intn(7); i > 0; i-- {
		c := Col{As: fmt.Sprintf("w%d", i)}
		switch g.R.Intn(6) {
		case 0:
			c.E = g.deepName()
		case 1:
			l := &Comma{}
			for j := 4 + g.R.Intn(12); j > 0; j-- {
				l.Items = append(l.Items, n.leaf(g.pick("int", "str", "num", "null")))
			}
			l.Items[g.R.Intn(len(l.Items))] = sym(g.pick("a", "b"))
			c.E = &Par{E: l}
		case 2:
			c.E = n.chain(1, 4+g.R.Intn(6))
		case 3:
			d := call("dict")
			for j := 3 + g.R.Intn(9); j > 0; j-- {
				d.Args = append(d.Args, arg(fmt.Sprintf("k%d", j), n.leaf(g.pick("int", "str", "num"))))
			}
			d.Args[g.R.Intn(len(d.Args))].E = g.deepName()
			c.E = d
		case 4:
			var e Expr = n.leaf("num")
			for j := 3 + g.R.Intn(9); j > 0; j-- {
				e = bin(g.pick("+", "-", "+", "*"), e, n.leaf("num"))
			}
			c.E = e
		default:
			m := &Mem{Base: sym("deep")}
			for _, k := range []string{"m", "p", "q", "r"}[:1+g.R.Intn(4)] {
				m.Steps = append(m.Steps, Step{Field: k})
			}
			c.E = m
		}
		s.Cols = append(s.Cols, c)
	}
	g.merge(n)
	if g.one(3) {
		s.Where = n.chain(1, 3+g.R.Intn(4))
	}
	return s
}

func (g *Gen) hostNames() {
	add := func(k string, ns ...string) { g.Names[k] = append(g.Names[k], ns...) }
	add("int", "vi", "my var")
	add("float", "vf")
	add("str", "vs")
	add("bool", "vb")
	add("null", "vn")
	add("list", "vl")
	add("dict", "vd")
}
