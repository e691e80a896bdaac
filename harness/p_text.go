package main

import (
	"context"
	"fmt"
	"math/rand"
	"slices"
	"strings"

	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C18",
		Rule: "A case is a text that parses. Each of its statements is formatted (FormatToString, and a Visitor with the default, the one-line and random layout options); the harness's own lexer checks that the output consists of exactly the significant tokens of the statement (keywords compared in capitals, numbers by value), the output parses again, formatting that gives the same text, and both texts evaluate to the same rows and error lines on the same host. Odd texts outside the generator's language (mutations) are checked for all but the tokens. Non-trivial: distinct formatted statements.",
		Groups: []Group{
			{"tokens", 6000, 150000, c18tokens},
			{"evaluated", 2500, 60000, c18evaluated},
			{"odd", 4000, 100000, c18odd},
			{"values", 1500, 40000, c18values},
			{"commented", 1500, 40000, c18commented},
			{"fixed", len(c18fixedForms), len(c18fixedForms), c18fixed},
		}})
}

// ---------------------------------------------------------------- syntax for its own sake

// oddNames need quoting, or look like something else
var oddNames = []string{"a", "b", "Foo", "_x", "x1", "my col", "a.b", "a-b", "-a", "1a", "SELECT", "select", "FROM", "NULL", "true", "in", "And", "group", "by", "GROUP BY", "ünï", "日本", "it's", "say \"x\"", "a\nb", "a\\nb", "a,b", "a=b", "(", "*", " ", "--", "/* x */", "$Query", "'''", "0x1", "1.5", "limit 1", "x AS y", "a\tb", "=", "_value", "config_file", "configs", "Artifact2", "my config", "NULLS", "nullable", "selector", "fromage", "android", "ordering", "information", "asleep", "letter", "limits", "descend", "notes", "Select All"}

// oddName takes one of them as it is, or makes a similar one
func oddName(r *rand.Rand) string {
	n := oddNames[r.Intn(len(oddNames))]
	if r.Intn(4) > 0 || strings.HasPrefix(n, "$") {
		return n
	}
	switch r.Intn(11) {
	case 0:
		return "_" + n
	case 1:
		return "__" + n
	case 2:
		return n + "_"
	case 3:
		return n + "__" + n
	case 4:
		return "x" + n
	case 5:
		return n + "s"
	case 6:
		return n + "2"
	case 7:
		return "my " + n
	case 8:
		return n + "." + oddNames[r.Intn(len(oddNames))]
	case 9:
		return strings.Repeat(n, 2+r.Intn(8))
	}
	return strings.ToUpper(n)
}

func (g *Gen) oddName() string {
	if g.one(3) {
		return oddName(g.R)
	}
	return g.pick("a", "b", "c", "foo", "Bar", "x", "some_name", "AnotherLongerName", "_value")
}

func (g *Gen) oddPath() []string {
	p := []string{g.oddName()}
	for g.one(4) {
		p = append(p, g.oddName())
	}
	return p
}

var numTexts = []string{"0", "1", "7", "42", "-1", "-0", "007", "010", "0x1f", "0xFF", "-0x10", "1.5", ".5", "0.1", "-1.5", "1e3", "1E-3", "1.5e+10", "2.0", "1e100", "123456789.123456789", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "0.30000000000000004", "1e-7", "100000000000000000000000", "5e-324", "1.7976931348623157e308"}

func (g *Gen) oddLit() Expr {
	switch g.R.Intn(8) {
	case 0, 1:
		return &Lit{Text: numTexts[g.R.Intn(len(numTexts))]}
	case 2:
		return &Lit{Text: fmt.Sprint(g.R.Int63() - g.R.Int63())}
	case 3:
		return &Lit{Text: strings.TrimSpace(fmt.Sprintf("%20.*f", g.R.Intn(12), g.R.NormFloat64()*1000))}
	case 4:
		return &Lit{Text: g.pick("NULL", "TRUE", "FALSE")}
	}
	return g.strLit(g.word())
}

// syntax makes any expression of the language
func (g *Gen) syntax(d int) Expr {
	if d <= 0 {
		switch g.R.Intn(5) {
		case 0, 1:
			return g.oddLit()
		case 2:
			return &CallE{Path: g.oddPath(), Neg: g.one(8)}
		}
		return &Sym{Path: g.oddPath(), Neg: g.one(8)}
	}
	switch g.R.Intn(9) {
	case 0, 1:
		e := &CallE{Path: g.oddPath(), Neg: g.one(8)}
		for i := g.R.Intn(4); i > 0; i-- {
			e.Args = append(e.Args, g.oddArg(d-1))
		}
		return e
	case 2:
		return &Not{E: g.syntax(d - 1)}
	case 3:
		m := &Mem{Base: g.syntax(d - 1)}
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			switch g.R.Intn(5) {
			case 0, 1:
				m.Steps = append(m.Steps, Step{Field: g.oddName()})
			case 2, 3:
				m.Steps = append(m.Steps, Step{Index: g.syntax(d - 2)})
			default:
				s := Step{Slice: true}
				if g.one(2) {
					s.Lo = g.syntax(d - 2)
				}
				if g.one(2) {
					s.Hi = g.syntax(d - 2)
				}
				m.Steps = append(m.Steps, s)
			}
		}
		// a name followed by .field is a longer name
		switch m.Base.(type) {
		case *Sym, *CallE:
			if m.Steps[0].Field != "" {
				m.Base = &Par{E: m.Base}
			}
		}
		return m
	case 4:
		c := &Comma{Trailing: g.one(4)}
		for i := 1 + g.R.Intn(4); i > 0; i-- {
			c.Items = append(c.Items, g.syntax(d-1))
		}
		return &Par{E: c}
	case 5:
		return &Par{E: g.syntax(d - 1)}
	}
	op := g.pick("+", "+", "-", "*", "/", "<", ">", "<=", ">=", "=", "!=", "<>", "=~", "IN", "AND", "OR", "&&", "||", "AND", "OR")
	return bin(op, g.syntax(d-1), g.syntax(d-1))
}

func (g *Gen) oddArg(d int) Arg {
	n := g.oddName()
	switch g.R.Intn(6) {
	case 0:
		return Arg{Name: n, Sub: g.oddSelect(d - 1)}
	case 1:
		a := Arg{Name: n, IsA: true}
		for i := g.R.Intn(4); i > 0; i-- {
			a.Arr = append(a.Arr, g.syntax(d-1))
		}
		return a
	}
	return Arg{Name: n, E: g.syntax(d)}
}

func (g *Gen) oddSelect(d int) *Select {
	s := &Select{Explain: g.one(10)}
	for i := 1 + g.R.Intn(4); i > 0; i-- {
		c := Col{}
		switch g.R.Intn(7) {
		case 0:
			s.Cols = append(s.Cols, Col{Star: true})
			continue
		case 1:
			c.Sub = g.oddSelect(d - 1)
		default:
			c.E = g.syntax(d)
		}
		if d <= -2 && c.Sub != nil {
			c = Col{E: sym("a")}
		}
		if g.one(2) {
			c.As = g.oddName()
		}
		s.Cols = append(s.Cols, c)
	}
	s.From = From{Path: g.oddPath(), Call: g.one(2)}
	if s.From.Call {
		for i := g.R.Intn(3); i > 0; i-- {
			s.From.Args = append(s.From.Args, g.oddArg(d-1))
		}
	}
	if g.one(3) {
		s.Where = g.syntax(d)
		if g.one(5) {
			s.Where = &Comma{Items: []Expr{s.Where, g.syntax(d - 1)}}
		}
	}
	if g.one(5) {
		for i := 1 + g.R.Intn(2); i > 0; i-- {
			s.GroupBy = append(s.GroupBy, g.syntax(d-1))
		}
	}
	if g.one(5) {
		s.OrderBy = g.oddName()
		s.Desc = g.one(2)
	}
	if g.one(5) {
		s.Limit = g.limit(int64(g.R.Intn(100)) - 3)
	}
	return s
}

func (g *Gen) oddStmt(d int) *Stmt {
	s := &Stmt{}
	if g.one(2) {
		return &Stmt{Q: g.oddSelect(d)}
	}
	s.Let, s.Op = g.oddName(), g.pick("=", "=", "<=")
	s.Called = g.one(3)
	if s.Called {
		used := map[string]bool{}
		for i := g.R.Intn(4); i > 0; i-- {
			n := g.oddName()
			if used[n] {
				continue
			}
			used[n] = true
			p := Param{Name: n}
			if g.one(2) {
				a := g.oddArg(d - 1)
				a.Name = n
				p.Def = &a
			}
			s.Params = append(s.Params, p)
		}
	}
	if g.one(2) {
		s.Q = g.oddSelect(d)
	} else {
		s.E = g.syntax(d)
	}
	return s
}

// layouts to format with
func (c *Case) layouts() map[string]vfilter.FormatOptions {
	return map[string]vfilter.FormatOptions{
		"one line": vfilter.ToStringOptions,
		"default":  vfilter.DefaultFormatOptions,
		"random":   {BreakLines: c.R.Intn(4) > 0, MaxWidthThreshold: c.R.Intn(120), IndentWidthThreshold: c.R.Intn(80), CollectCallSites: c.R.Intn(3) == 0, CollectDefinitionSites: c.R.Intn(3) == 0, CollectComments: c.R.Intn(3) == 0},
	}
}

func formatWith(scope types.Scope, v *vfilter.VQL, o vfilter.FormatOptions) string {
	vis := vfilter.NewVisitor(scope, o)
	vis.Visit(v)
	return vis.ToString()
}

// formats checks one parsed statement against its tokens (nil: not compared) in every layout.
func (c *Case) formats(scope types.Scope, v *vfilter.VQL, want []string) (first string) {
	texts := map[string]string{"FormatToString": vfilter.FormatToString(scope, v)}
	lay := c.layouts()
	for n, o := range lay {
		texts[n] = formatWith(scope, v, o)
	}
	for _, n := range []string{"FormatToString", "one line", "default", "random"} {
		t := texts[n]
		if want != nil {
			got, _ := significant(refLex(t))
			if d := diffToks(want, got); d != "" {
				c.Fail("%s: %s\nwritten as %s", n, d, t)
				return ""
			}
		}
		again, err := vfilter.Parse(t)
		if err != nil {
			c.Fail("%s: the formatted text does not parse: %v\nformatted as %s", n, err, t)
			return ""
		}
		var t2 string
		if n == "FormatToString" {
			t2 = vfilter.FormatToString(scope, again)
		} else {
			t2 = formatWith(scope, again, lay[n])
		}
		if t2 != t {
			c.Fail("%s: formatting the formatted text again gives something else\nfirst  %q\nsecond %q", n, t, t2)
			return ""
		}
		if many, err := vfilter.MultiParse(t); err != nil || len(many) != 1 {
			c.Fail("%s: MultiParse of the formatted text gives %d statements and %v\n%s", n, len(many), err, t)
			return ""
		}
		c.Eval(1)
	}
	c.Seen(texts["FormatToString"])
	return texts["FormatToString"]
}

func c18tokens(c *Case) {
	g := newGen(c.R)
	scope := vfilter.NewScope()
	defer scope.Close()
	s := g.oddStmt(1 + g.R.Intn(3))
	p := &Printer{R: c.R}
	if g.one(3) {
		p.R = nil
	}
	p.stmt(s)
	text := p.text()
	c.Desc("%s", text)
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	v, err := vfilter.Parse(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	want, _ := significant(refLex(text))
	c.Count("tokens", len(want))
	if got := c.formats(scope, v, want); got != "" {
		c.Sample("%s  ->  %s", text, got)
	}
}

// evaluateBoth runs two texts on two engines over the same host
func (c *Case) evaluateBoth(h *Host, what, a, b string) bool {
	run := func(text string) ([][]string, []string, error) {
		e := NewEngine(h)
		defer e.Close()
		rows, err := e.Run(text)
		lines := errorLines(e.Logs)
		for i, l := range lines {
			// what follows lists the names of the scope in no particular order
			if k := strings.Index(l, "Current Scope is"); k >= 0 {
				lines[i] = l[:k]
			}
		}
		return rows, lines, err
	}
	r1, l1, err1 := run(a)
	r2, l2, err2 := run(b)
	if (err1 == nil) != (err2 == nil) {
		c.Fail("%s: the first gives error %v, the second %v\nsecond: %s", what, err1, err2, b)
		return false
	}
	if len(r1) != len(r2) {
		c.Fail("%s: %d statements and %d\nsecond: %s", what, len(r1), len(r2), b)
		return false
	}
	for i := range r1 {
		if strings.Join(r1[i], "\n") != strings.Join(r2[i], "\n") {
			c.Fail("%s: statement %d evaluates differently\nfirst  %.2000q\nsecond %.2000q\nsecond: %s", what, i, r1[i], r2[i], b)
			return false
		}
		c.Count("rows_compared", len(r1[i]))
	}
	// how far the source of a LIMIT reads ahead, and what that logs, is a matter of scheduling
	sig, _ := significant(refLex(a))
	limited := slices.Contains(sig, "LIMIT")
	x, y := strings.Join(slices.Compact(sorted(l1)), "\n"), strings.Join(slices.Compact(sorted(l2)), "\n")
	if x != y && !limited {
		c.Fail("%s: other log lines\nfirst  %.1500s\nsecond %.1500s\nsecond: %s", what, x, y, b)
		return false
	}
	c.Eval(1)
	return true
}

func formatAll(vqls []*vfilter.VQL, o vfilter.FormatOptions) string {
	scope := vfilter.NewScope()
	defer scope.Close()
	var out []string
	for _, v := range vqls {
		out = append(out, formatWith(scope, v, o))
	}
	return strings.Join(out, "\n")
}

// c.program: statements which mean something on a host
func (c *Case) textProgram() ([]*Stmt, *Host) {
	g, h := stdGen(c)
	g.Unknown = g.one(4)
	g.Wild = g.one(3)
	var stmts []*Stmt
	switch c.R.Intn(6) {
	case 0:
		stmts = c.reuseStmts(g)
	case 1:
		stmts = []*Stmt{{Q: g.groupQuery(false)}}
	default:
		stmts = c.anyStmts(g)
	}
	if c.R.Intn(3) == 0 {
		g2 := g.withColumns()
		stmts = append(stmts, &Stmt{Let: "Fn x", Op: "=", Params: []Param{{Name: "p"}, {Name: "my par", Def: &Arg{Name: "my par", E: g.Expr("any", 1)}}, {Name: "-q", Def: &Arg{Name: "-q", IsA: true, Arr: []Expr{intLit(1), strL("x")}}}}, E: &Par{E: &Comma{Items: []Expr{sym("p"), sym("my par"), sym("-q"), g2.Expr("any", 1)}}}},
			&Stmt{Q: &Select{Cols: []Col{{E: call("Fn x", arg("p", intLit(3))), As: "x y"}, {E: call("Fn x", arg("p", strL("a'b")), arg("my par", sym("a")), arg("-q", nullLit())), As: "b"}}, From: From{Path: []string{"t1"}, Call: true}}})
	}
	if g.one(3) {
		stmts = append(stmts, &Stmt{Let: "Qn", Called: true, Op: "=", Q: &Select{Cols: []Col{{E: sym("a"), As: "SELECT"}, {Sub: &Select{Cols: []Col{{E: sym("b"), As: "q z"}}, From: From{Path: []string{"t2"}, Call: true}}, As: "from"}}, From: From{Path: []string{"t1"}, Call: true}, OrderBy: "SELECT", Desc: true}},
			&Stmt{Q: &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{"Qn"}, Call: g.one(2)}}})
	}
	return stmts, h
}

func c18evaluated(c *Case) {
	stmts, h := c.textProgram()
	p := []string{}
	for _, s := range stmts {
		pr := &Printer{R: c.R}
		pr.stmt(s)
		p = append(p, pr.text())
	}
	text := strings.Join(p, "\n")
	c.Desc("%s", text)
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	for i, v := range vqls {
		want, _ := significant(refLex(p[i]))
		if c.formats(scope, v, want) == "" {
			return
		}
	}
	for n, o := range c.layouts() {
		if !c.evaluateBoth(h, n, text, formatAll(vqls, o)) {
			return
		}
	}
	c.Sample("%s", text)
}

// texts outside the generator's language that happen to parse
func c18odd(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	g := newGen(c.R)
	base := c.corpus()
	for k := 0; k < 6; k++ {
		text := base
		if c.R.Intn(3) == 0 {
			p := &Printer{R: c.R}
			p.stmt(g.oddStmt(2))
			text = p.text()
		}
		for i := c.R.Intn(3); i >= 0; i-- {
			text = c.mutate(text, soup)
		}
		c.desc = ""
		c.Desc("%s", text)
		if nestingOf(text) > 30 {
			continue
		}
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			c.Count("mutants_refused", 1)
			continue
		}
		for _, v := range vqls {
			if c.formats(scope, v, nil) == "" {
				return
			}
		}
		c.Count("mutants_formatted", len(vqls))
	}
}

// things other than statements are formatted too: lambdas, lazy expressions, definitions
func c18values(c *Case) {
	g := newGen(c.R)
	scope := vfilter.NewScope()
	defer scope.Close()
	e := g.syntax(1 + g.R.Intn(3))
	body := func(p *Printer) string { p.expr(e, 1); return p.text() }
	text := body(&Printer{R: c.R})
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	want, _ := significant(refLex(text))

	// a lambda
	params := []string{}
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		params = append(params, ident(g.oddName()))
	}
	ltext := strings.Join(params, ", ") + " => " + text
	c.Desc("%s", ltext)
	l, err := vfilter.ParseLambda(ltext)
	if err != nil {
		c.Fail("lambda does not parse: %v", err)
		return
	}
	lwant, _ := significant(refLex(ltext))
	got := vfilter.FormatToString(scope, l)
	gotToks, _ := significant(refLex(got))
	if d := diffToks(lwant, gotToks); d != "" {
		c.Fail("lambda: %s\nwritten as %s", d, got)
		return
	}
	l2, err := vfilter.ParseLambda(got)
	if err != nil || vfilter.FormatToString(scope, l2) != got {
		c.Fail("the formatted lambda %s parses as %v", got, err)
		return
	}

	// the definition found in the scope after LET
	vql, err := vfilter.Parse("LET Def = " + text)
	if err != nil {
		c.Fail("LET Def = %s: %v", text, err)
		return
	}
	for range vql.Eval(context.Background(), scope) {
	}
	def, _ := scope.Resolve("Def")
	got = vfilter.FormatToString(scope, def)
	gotToks, _ = significant(refLex(got))
	if d := diffToks(want, gotToks); d != "" {
		c.Fail("stored expression: %s\nwritten as %s", d, got)
		return
	}
	q := g.oddSelect(2)
	qtext := SelText(q)
	if nestingOf(qtext) > 30 {
		c.Count("too_nested", 1)
		return
	}
	qwant, _ := significant(refLex(qtext))
	c.Desc("LET Q = %s", qtext)
	vql, err = vfilter.Parse("LET Q = " + qtext)
	if err != nil {
		c.Fail("LET Q = %s: %v", qtext, err)
		return
	}
	for range vql.Eval(context.Background(), scope) {
	}
	def, _ = scope.Resolve("Q")
	got = vfilter.FormatToString(scope, def)
	gotToks, _ = significant(refLex(got))
	if d := diffToks(qwant, gotToks); d != "" {
		c.Fail("stored query: %s\nwritten as %s", d, got)
		return
	}
	c.Eval(3)
	c.Seen(ltext)
	c.Sample("%s", ltext)
}

// statements read by the parser that keeps comments are formatted and evaluated like any other
func c18commented(c *Case) {
	stmts, h := c.textProgram()
	var p []string
	for _, s := range stmts {
		pr := &Printer{R: c.R, Placed: 3 + c.R.Intn(12)}
		pr.stmt(s)
		p = append(p, pr.text())
	}
	text := strings.Join(p, "\n")
	c.Desc("%s", text)
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	vqls, err := vfilter.MultiParseWithComments(text)
	if err != nil {
		c.Count("comments_refused", 1)
		return
	}
	c.Count("comments_accepted", 1)
	for _, o := range c.layouts() {
		got := formatAll(vqls, o)
		want, _ := significant(refLex(text))
		have, _ := significant(refLex(got))
		if d := diffToks(want, have); d != "" {
			c.Fail("%+v: %s\nwritten as\n%s", o, d, got)
			return
		}
	}
	c.evaluateBoth(h, "commented", text, formatAll(vqls, vfilter.ToStringOptions))
	c.Seen(text)
	c.Sample("%s", text)
}

var c18fixedForms = []string{
	"LET X() = 1",
	"LET X() = SELECT * FROM one()",
	"LET F(`a b`) = `a b`",
	"LET F(`a b`, c=1, `d e`=[1,2], f={SELECT * FROM one()}) = 1",
	"LET `a b`(`SELECT`, x) = SELECT * FROM one()",
	"LET X <= (1, 2, )",
	"LET X <= 1,",
	"SELECT * FROM one() WHERE a, b, c",
	"SELECT FROM one()",
	"SELECT *, * FROM one()",
	"SELECT *, a, * FROM one()",
	"SELECT * a FROM one()",
	"SELECT a, * AS x FROM one()",
	"SELECT a[] FROM one()",
	"SELECT a[:] FROM one()",
	"SELECT a[1:] FROM one()",
	"SELECT a[1 2] FROM one()",
	"SELECT a[1::2] FROM one()",
	"SELECT f(a=1)(b=2) FROM one()",
	"SELECT f()() FROM one()",
	"SELECT f(a=[]), f(a=[1,]), f(a=[(1,2),3]) FROM one()",
	"EXPLAIN EXPLAIN SELECT 1 FROM one()",
	"explain select 1 as a from one() where 1 and 2 or not 3 order by a desc limit 3",
	"SELECT a = b = c FROM one()",
	"SELECT NOT a = b FROM one()",
	"SELECT NOT NOT a FROM one()",
	"SELECT NOT (a) = b FROM one()",
	"SELECT (NOT a) = b FROM one()",
	"SELECT a | b, a || b, a ||| b, a && b FROM one()",
	"SELECT 1e999, -1e999, 1e-999 FROM one()",
	"SELECT -0, -0.0, 0x7fffffffffffffff, 0xffffffffffffffff FROM one()",
	"SELECT (1, 2 3) FROM one()",
	"SELECT (1,), (1,,2), (a,b) + (c,) FROM one()",
	"SELECT '''a\nb''' AS `x\ny` FROM one()",
	"SELECT -a, -`b c`, a - -b, a - -1, -f(x=1) FROM one()",
	"SELECT * FROM a.b.c(x=1), d",
	"SELECT * FROM `a b`.c(x=1)",
	"SELECT a.b.`c d`.e[1].f, `a.b`.c FROM one()",
	"SELECT * FROM one() GROUP BY a, b ORDER BY `c d` DESC LIMIT 0x10",
	"SELECT * FROM one() LIMIT -5",
	"SELECT 'a' 'b' FROM one()",
	"SELECT { SELECT { SELECT * FROM c } AS b FROM b } AS a FROM a",
	"SELECT f(x={ EXPLAIN SELECT 1 FROM one() }) FROM one()",
	"SELECT \"a\\\"b\", 'a\\'b', '\\n' FROM one()",
	"SELECT a AS `AS` FROM `FROM`(`IN`=1)",
	"SELECT a FROM one() WHERE a IN b AND NOT c IN (1, 2)",
	"SELECT a <> b FROM one()",
	"SELECT a.`b`, a.b.c(d=1).e FROM one()",
}

func c18fixed(c *Case) {
	text := c18fixedForms[c.Index]
	c.Desc("%s", text)
	scope := vfilter.NewScope()
	defer scope.Close()
	v, err := vfilter.MultiParse(text)
	c.Seen(text)
	c.Eval(1)
	if err != nil {
		c.Count("fixed_forms_that_do_not_parse", 1)
		return
	}
	for _, x := range v {
		got := c.formats(scope, x, nil)
		if got != "" && c.evaluateBoth(plainHost(), "formatted", text, got) {
			c.Sample("%s  ->  %s", text, got)
		}
	}
}
