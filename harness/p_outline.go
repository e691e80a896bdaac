package main

import (
	"fmt"
	"strings"

	"www.velocidex.com/golang/vfilter"
)

func init() {
	register(&Property{ID: "C30",
		Rule: "A case is a sequence of generated statements (programs and arbitrary syntax, random layout, with and without comments). The harness's own lexer finds in the text every called name, bare name, argument name, definition, parameter, column and alias by matching brackets; the call sites and definitions collected by the visitor (in every layout) and the outline must be exactly these, in order, with every reported range holding exactly the tokens of the thing it describes, at true lines and columns. Non-trivial: distinct texts with at least one entry.",
		Groups: []Group{
			{"programs", 2000, 60000, c30programs},
			{"odd", 3000, 120000, c30odd},
			{"deep", 300, 8000, c30deep},
			{"fixed", len(c30fixedForms), len(c30fixedForms), c30fixed},
		}})
}

// site is something found in the tokens from..to (exclusive)
type site struct {
	kind, name string
	args       []string
	argSpan    [][2]int
	defaults   []string
	from, to   int
	inner      []*site // outermost calls (outline)
}

func (s *site) String() string {
	return fmt.Sprintf("%s %s(%s)", s.kind, s.name, strings.Join(s.args, ", "))
}

type scan struct {
	text     string
	comments bool  // as the comment-keeping parser sees it
	toks     []Tok // significant ones
	match    map[int]int
}

func newScan(text string) *scan {
	s := &scan{text: text, match: map[int]int{}}
	var open []int
	for _, t := range refLex(text) {
		if t.Kind == "space" || t.Kind == "comment" {
			continue
		}
		i := len(s.toks)
		s.toks = append(s.toks, t)
		if t.Kind == "op" {
			switch t.Text {
			case "(", "[", "{":
				open = append(open, i)
			case ")", "]", "}":
				s.match[open[len(open)-1]] = i
				open = open[:len(open)-1]
			}
		}
	}
	return s
}

func (s *scan) is(i int, kind, text string) bool {
	return i >= 0 && i < len(s.toks) && s.toks[i].Kind == kind && (text == "" || s.toks[i].normal() == text)
}

// path: a dotted name starting here; gives the name and the token after it
func (s *scan) path(i int) (string, int) {
	name := s.toks[i].Text
	for s.is(i+1, "op", ".") && s.is(i+2, "name", "") {
		name += "." + s.toks[i+2].Text
		i += 2
	}
	return name, i + 1
}

func unquoted(s string) string {
	if s[0] == '`' {
		return s[1 : len(s)-1]
	}
	return s
}

// args of the call whose bracket opens at i
func (s *scan) args(x *site, i int) {
	end := s.match[i]
	start := i + 1
	for j := i + 1; j <= end; j++ {
		if m, ok := s.match[j]; ok {
			j = m
			continue
		}
		if j == end || s.is(j, "op", ",") {
			if j > start {
				x.args = append(x.args, unquoted(s.toks[start].Text))
				x.argSpan = append(x.argSpan, [2]int{start, j})
				if s.is(start+1, "op", "=") {
					x.defaults = append(x.defaults, unquoted(s.toks[start].Text))
				}
			}
			start = j + 1
		}
	}
}

// calls finds the call sites in the tokens from..to
func (s *scan) calls(from, to int, defs *[]*site) (out []*site) {
	for i := from; i < to; i++ {
		t := s.toks[i]
		switch {
		case s.is(i, "kw", "LET"):
			d := &site{kind: "definition", name: s.toks[i+1].Text, from: i}
			j := i + 2
			if s.is(j, "op", "(") {
				s.args(d, j)
				end := s.match[j]
				// the defaults call things too
				for _, sp := range d.argSpan {
					if s.is(sp[0]+1, "op", "=") {
						out = append(out, s.calls(sp[0]+2, sp[1], nil)...)
					}
				}
				j = end + 1
			}
			d.to = to
			if defs != nil {
				*defs = append(*defs, d)
			}
			i = j
		case s.is(i, "kw", "AS"), s.is(i, "kw", "ORDER BY"):
			i++
		case s.is(i, "op", ".") && s.is(i+1, "name", ""):
			i++ // a field
		case s.is(i, "kw", "FROM"):
			x := &site{kind: "plugin", from: i + 1}
			var next int
			x.name, next = s.path(i + 1)
			x.to = next
			if s.is(next, "op", "(") {
				out = append(out, x)
				out = append(out, s.bracket(x, next)...)
				x.to = s.match[next] + 1
			} else {
				x.kind = "symbol"
				out = append(out, x)
			}
			i = x.to - 1
		case t.Kind == "name":
			x := &site{kind: "function", from: i}
			var next int
			x.name, next = s.path(i)
			x.to = next
			out = append(out, x)
			if s.is(next, "op", "(") {
				out = append(out, s.bracket(x, next)...)
				x.to = s.match[next] + 1
			} else {
				x.kind = "symbol"
			}
			i = x.to - 1
		}
	}
	return out
}

// bracket: the arguments of a call, and what they call
func (s *scan) bracket(x *site, open int) (out []*site) {
	s.args(x, open)
	for _, sp := range x.argSpan {
		out = append(out, s.calls(sp[0]+2, sp[1], nil)...)
	}
	return out
}

// statements splits the tokens at the statements: LET, EXPLAIN and SELECT outside all brackets
func (s *scan) statements() (out [][2]int) {
	start := 0
	for i := 1; i < len(s.toks); i++ {
		if m, ok := s.match[i]; ok {
			i = m
			continue
		}
		first := s.is(i, "kw", "LET")
		if s.is(i, "kw", "SELECT") || s.is(i, "kw", "EXPLAIN") {
			prev := s.toks[i-1]
			first = !(prev.Kind == "op" && (prev.Text == "=" || prev.Text == "<=")) && !s.is(i-1, "kw", "EXPLAIN")
		}
		if first {
			out = append(out, [2]int{start, i})
			start = i
		}
	}
	return append(out, [2]int{start, len(s.toks)})
}

// statementKind: what a statement is, by its first tokens
func (s *scan) statementKind(from, to int) string {
	if !s.is(from, "kw", "LET") {
		if s.is(from, "kw", "EXPLAIN") {
			return "EXPLAIN"
		}
		return "SELECT"
	}
	for i := from; i < to; i++ {
		if m, ok := s.match[i]; ok {
			i = m // the parameters
		} else if s.is(i, "op", "=") {
			return "LAZY_LET"
		} else if s.is(i, "op", "<=") {
			return "MATERIALIZED_LET"
		}
	}
	return ""
}

// outermost calls of an expression
func (s *scan) outermost(from, to int) (out []*site) {
	for i := from; i < to; i++ {
		switch {
		case s.is(i, "kw", "AS"):
			return
		case s.is(i, "op", ".") && s.is(i+1, "name", ""):
			i++
		case s.toks[i].Kind == "name":
			name, next := s.path(i)
			i = next - 1
			if s.is(next, "op", "(") {
				i = s.match[next]
				out = append(out, &site{kind: "function", name: name, from: next - 1 - 2*strings.Count(pathDots(s, next), "."), to: i + 1})
			}
		}
	}
	return
}

// pathDots: the dotted name which ends before token next
func pathDots(s *scan, next int) string {
	n := ""
	for i := next - 1; i >= 2 && s.is(i-1, "op", ".") && s.is(i-2, "name", ""); i -= 2 {
		n += "."
	}
	return n
}

func (s *scan) outline(from, to int) *site {
	if s.is(from, "kw", "LET") {
		x := &site{kind: "let", name: s.toks[from+1].Text, from: from, to: to}
		j := from + 2
		if s.is(j, "op", "(") {
			j = s.match[j] + 1
		}
		j++ // = or <=
		if s.is(j, "kw", "SELECT") || s.is(j, "kw", "EXPLAIN") {
			x.inner = []*site{s.outline(j, to)}
		} else {
			x.inner = []*site{{kind: "query", from: j, to: to, inner: s.outermost(j, to)}}
		}
		return x
	}
	x := &site{kind: "query", from: from, to: to}
	i := from
	for !s.is(i, "kw", "SELECT") {
		i++
	}
	start := i + 1
	between := s.text[s.toks[i].Off+len(s.toks[i].Text) : s.toks[start].Off]
	if s.is(start, "op", "*") && (!s.comments || strings.TrimSpace(between) == "") { // the leading star has no entry of its own
		start++
		if s.is(start, "op", ",") {
			start++
		}
	}
	for j := start; j < to; j++ {
		if m, ok := s.match[j]; ok {
			j = m
			continue
		}
		from := s.is(j, "kw", "FROM")
		if from || s.is(j, "op", ",") {
			if j > start {
				if s.is(start, "op", "{") {
					x.inner = append(x.inner, s.outline(start+1, s.match[start]))
				} else {
					c := &site{kind: "column", from: start, to: j, inner: s.outermost(start, j)}
					if s.is(j-2, "kw", "AS") {
						c.name = s.toks[j-1].Text
					}
					x.inner = append(x.inner, c)
				}
			}
			start = j + 1
		}
		if from {
			x.name, _ = s.path(j + 1)
			break
		}
	}
	return x
}

// span checks that a reported range holds the tokens from..to
func (c *Case) span(text string, s *scan, what string, p vfilter.RangePosition, from, to int, plain bool) bool {
	a, b := p.Pos.Offset, p.EndPos.Offset
	if a < 0 || b > len(text) || a > b {
		c.Fail("%s: the range %d..%d is not in the text", what, a, b)
		return false
	}
	want := []string{}
	for _, t := range s.toks[from:to] {
		want = append(want, t.normal())
	}
	got, _ := significant(refLex(text[a:b]))
	if d := diffToks(want, got); d != "" || plain && a != s.toks[from].Off {
		c.Fail("%s: the range %d..%d holds %q, want %q at %d", what, a, b, text[a:b], want, s.toks[from].Off)
		return false
	}
	if l, col := place(text, a); p.Pos.Line != l || p.Pos.Column != col {
		c.Fail("%s: offset %d is reported at %d:%d, want %d:%d", what, a, p.Pos.Line, p.Pos.Column, l, col)
		return false
	}
	if l, col := place(text, b); p.EndPos.Line != l || p.EndPos.Column != col {
		c.Fail("%s: end offset %d is reported at %d:%d, want %d:%d", what, b, p.EndPos.Line, p.EndPos.Column, l, col)
		return false
	}
	c.Count("ranges_checked", 1)
	return true
}

func (c *Case) sameOutline(text string, s *scan, got *vfilter.OutlineInfo, want *site, plain bool) bool {
	if got == nil {
		c.Fail("no outline entry for %v", want)
		return false
	}
	if string(got.Kind) != want.kind || strings.ReplaceAll(got.Name, " ", "") != strings.ReplaceAll(want.name, " ", "") {
		c.Fail("outline entry %s %q, want %s %q", got.Kind, got.Name, want.kind, want.name)
		return false
	}
	if !c.span(text, s, "outline entry "+want.kind+" "+want.name, vfilter.RangePosition{Pos: got.Pos, EndPos: got.EndPos}, want.from, want.to, plain) {
		return false
	}
	if len(got.Children) != len(want.inner) {
		c.Fail("outline entry %s %q has %d children, want %d: %v", want.kind, want.name, len(got.Children), len(want.inner), want.inner)
		return false
	}
	for i, k := range got.Children {
		if !c.sameOutline(text, s, k, want.inner[i], plain) {
			return false
		}
	}
	c.Count("outline_entries", 1)
	return true
}

func (c *Case) reports(text string, vqls []*vfilter.VQL, plain bool) bool {
	s := newScan(text)
	s.comments = !plain
	stmts := s.statements()
	if len(stmts) != len(vqls) {
		c.Fail("%d statements parsed, the text has %d", len(vqls), len(stmts))
		return false
	}
	scope := vfilter.NewScope()
	defer scope.Close()
	var wantAll, defsAll []*site
	for i, v := range vqls {
		from, to := stmts[i][0], stmts[i][1]
		var defs []*site
		want := s.calls(from, to, &defs)
		wantAll = append(wantAll, want...)
		defsAll = append(defsAll, defs...)
		if k := s.statementKind(from, to); v.Type() != k {
			c.Fail("statement %d has the type %q, the text gives %q", i, v.Type(), k)
			return false
		}
		c.Count("type "+v.Type(), 1)
		if !c.sameOutline(text, s, vfilter.Outline(v), s.outline(from, to), plain) {
			return false
		}
	}
	opts := map[string]vfilter.FormatOptions{"CollectAllInfo": vfilter.CollectAllInfo}
	pretty := vfilter.DefaultFormatOptions
	pretty.CollectCallSites, pretty.CollectDefinitionSites = true, true
	opts["pretty"] = pretty
	r := c.layouts()["random"]
	r.CollectCallSites, r.CollectDefinitionSites = true, true
	opts["random"] = r
	for _, n := range []string{"CollectAllInfo", "pretty", "random"} {
		vis := vfilter.NewVisitor(scope, opts[n])
		if c.R.Intn(2) == 0 {
			vis.Visit(vqls)
		} else {
			for _, v := range vqls {
				vis.Visit(v)
			}
		}
		for i, g := range vis.CallSites {
			if i >= len(wantAll) {
				c.Fail("%s: call site %d is extra: %s %s", n, i, g.Type, g.Name)
				return false
			}
			w := wantAll[i]
			var names []string
			for _, a := range g.Args {
				names = append(names, a.Name)
			}
			if g.Type != w.kind || g.Name != w.name || strings.Join(names, "\x00") != strings.Join(w.args, "\x00") {
				c.Fail("%s: call site %d is %s %s(%s), want %v", n, i, g.Type, g.Name, strings.Join(names, ", "), w)
				return false
			}
			if !c.span(text, s, fmt.Sprintf("%s: call site %v", n, w), g.Pos, w.from, w.to, plain) {
				return false
			}
			for k, a := range g.Args {
				if !c.span(text, s, fmt.Sprintf("%s: argument %s of call site %v", n, a.Name, w), a.Pos, w.argSpan[k][0], w.argSpan[k][1], plain) {
					return false
				}
			}
		}
		if len(vis.CallSites) < len(wantAll) {
			c.Fail("%s: %d call sites, want %d; missing %v", n, len(vis.CallSites), len(wantAll), wantAll[len(vis.CallSites)])
			return false
		}
		c.Count("call_sites", len(wantAll))
		if len(vis.Definitions) != len(defsAll) {
			c.Fail("%s: %d definitions, want %d", n, len(vis.Definitions), len(defsAll))
			return false
		}
		for i, g := range vis.Definitions {
			w := defsAll[i]
			var names []string
			for _, a := range g.Args {
				names = append(names, a.Name)
			}
			if g.Type != "definition" || g.Name != w.name || strings.Join(names, "\x00") != strings.Join(w.args, "\x00") || strings.Join(g.Defaults, "\x00") != strings.Join(w.defaults, "\x00") {
				c.Fail("%s: definition %d is %s %s(%s) with defaults %q, want %v with defaults %q", n, i, g.Type, g.Name, strings.Join(names, ", "), g.Defaults, w, w.defaults)
				return false
			}
			if !c.span(text, s, fmt.Sprintf("%s: definition %v", n, w), g.Pos, w.from, w.to, plain) {
				return false
			}
			for k, a := range g.Args {
				if !c.span(text, s, fmt.Sprintf("%s: parameter %s of definition %v", n, a.Name, w), a.Pos, w.argSpan[k][0], w.argSpan[k][1], plain) {
					return false
				}
			}
			c.Count("definitions", 1)
		}
		c.Eval(1)
	}
	c.Seen(text)
	return true
}

func (c *Case) outlined(text string) {
	c.Desc("%s", text)
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if !c.reports(text, vqls, true) {
		return
	}
	if len(vqls) == 1 {
		v, err := vfilter.Parse(text)
		if err != nil {
			c.Fail("Parse: %v", err)
			return
		}
		if !c.reports(text, []*vfilter.VQL{v}, true) {
			return
		}
	}
	if vqls, err = vfilter.MultiParseWithComments(text); err == nil {
		c.Count("with_comments", 1)
		c.reports(text, vqls, false)
	}
	c.Sample("%s", text)
}

func (c *Case) printed(stmts []*Stmt) string {
	var parts []string
	for _, s := range stmts {
		p := c.placed()
		if c.R.Intn(4) == 0 {
			p.Comments = true
		}
		p.stmt(s)
		parts = append(parts, p.text())
	}
	return strings.Join(parts, c.one("\n", "\n\n", " "))
}

func c30programs(c *Case) {
	stmts, _ := c.textProgram()
	c.outlined(c.printed(stmts))
}

func c30odd(c *Case) {
	g := newGen(c.R)
	var stmts []*Stmt
	for i := c.R.Intn(3); i >= 0; i-- {
		stmts = append(stmts, g.oddStmt(1+g.R.Intn(3)))
	}
	c.outlined(c.printed(stmts))
}

// calls everywhere, nested deeply
func c30deep(c *Case) {
	g := newGen(c.R)
	n := 0
	var e func(d int) Expr
	e = func(d int) Expr {
		n++
		x := call(fmt.Sprintf("f%d", n))
		if d <= 0 || n > 60 {
			return x
		}
		for i := g.R.Intn(3); i >= 0; i-- {
			a := Arg{Name: g.oddName()}
			switch g.R.Intn(5) {
			case 0:
				a.Sub = &Select{Cols: []Col{{E: e(d - 2)}, {Sub: &Select{Cols: []Col{{E: e(d - 3)}}, From: From{Path: g.oddPath()}}}}, From: From{Path: g.oddPath(), Call: true, Args: []Arg{arg("x", e(d-2))}}, Where: e(d - 2), GroupBy: []Expr{e(d - 3), e(d - 3)}}
			case 1:
				a.IsA, a.Arr = true, []Expr{e(d - 1), e(d - 2)}
			case 2:
				a.E = &Mem{Base: e(d - 1), Steps: []Step{{Index: e(d - 2)}, {Field: "x"}, {Slice: true, Lo: e(d - 2), Hi: e(d - 3)}}}
			case 3:
				a.E = &Not{E: bin(g.pick("+", "AND", "OR", "=", "*"), e(d-1), &Par{E: &Comma{Items: []Expr{e(d - 2), e(d - 2)}}})}
			default:
				a.E = e(d - 1)
			}
			x.Args = append(x.Args, a)
		}
		return x
	}
	s := &Stmt{Let: "X", Op: "=", E: e(1 + g.R.Intn(4))}
	if g.one(3) {
		s.Params = []Param{{Name: "p", Def: &Arg{Name: "p", E: e(3)}}, {Name: "q"}, {Name: "r s", Def: &Arg{Name: "r s", IsA: true, Arr: []Expr{e(2)}}}}
	}
	c.Count("calls_made", n)
	c.outlined(c.printed([]*Stmt{s}))
}

var c30fixedForms = []string{
	"LET X = SELECT * FROM a()",
	"LET X() = 1",
	"LET X(a, b=f(c=1), `c d`={ SELECT g() FROM h(i=1) }, e=[1, j()]) = k(l=a)",
	"SELECT f(a=g(b=h())) FROM i(j=k())",
	"SELECT a.b.c(d=1), -e(f=2), `x y`.z(w=1) FROM a.`b c`.d(e=1)",
	"SELECT a FROM b",
	"SELECT *, f(), *, g() AS x FROM b() WHERE h() AND NOT i() GROUP BY j(), k() ORDER BY l DESC LIMIT 1",
	"EXPLAIN SELECT f() FROM g()",
	"SELECT { SELECT f() FROM g() } AS x, h() FROM i()",
	"SELECT (f(), g())[h():i()].j + k()[l()] FROM m()",
	"SELECT f(a=[]), f(a=[g(),]), f(a=[(g(), h())]) FROM m()",
	"SELECT\n  f(a='\n日本\n',\n    b=g()),\n  '''é\n''' + h(c=1)\nFROM m(d='日本',\n e=i())",
	"LET A = 1 LET B(x) = f(y=x) SELECT g() FROM h() LET C <= SELECT i() FROM j() SELECT k() FROM l",
}

func c30fixed(c *Case) {
	c.outlined(c30fixedForms[c.Index])
}
