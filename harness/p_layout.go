package main

import (
	"fmt"
	"strings"

	"www.velocidex.com/golang/vfilter"
)

func init() {
	register(&Property{ID: "C31",
		Rule: "A case is a text. The harness's own lexer splits it into tokens and joins them again with other white space, comments and keyword case (checking that the tokens stay the same); both texts must be accepted or both refused, parse to the same statements and evaluate to the same rows; MultiParse, Parse of every statement alone and, on the texts it accepts, the comment-keeping parser must agree. A text that is accepted must say all its tokens again when formatted (a token sequence cut, extended, mixed up or followed by rubbish must therefore be refused), a text with something which is no token must be refused. Non-trivial: distinct texts compared.",
		Groups: []Group{
			{"programs", 2000, 60000, c31programs},
			{"odd", 2000, 120000, c31odd},
			{"broken", 3000, 120000, c31broken},
			{"cuts", 700, 30000, c31cuts},
			{"large", 60, 1000, c31large},
			{"fixed", len(c31forms), len(c31forms), c31fixed},
		}})
}

// relay joins the significant tokens of a text in another layout.
func (c *Case) relay(text string, comments int) string {
	var toks []Tok
	for _, t := range refLex(text) {
		if t.Kind != "space" && t.Kind != "comment" {
			toks = append(toks, t)
		}
	}
	want, _ := significant(toks)
	style := c.R.Intn(5) // 0: as tight as possible, 1: one kind of blank, others: mixed
	blank := c.one(" ", "\n", "\t", "\r\n", "\f")
	ws := func() string {
		switch style {
		case 0, 1:
			return blank
		}
		return c.one(" ", " ", "\n", "\t", "\r\n", "   ", "\n\n\n", " \t\f\r\n ", strings.Repeat(" ", c.R.Intn(200)))
	}
	apart := func(a, b string) bool { // the tokens a and b written together are still a and b
		both := refLex(a + b)
		return len(both) == 2 && both[0].Text == a
	}
	var b strings.Builder
	cm := func(must bool) {
		n := 0
		for comments > 0 && c.R.Intn(comments) == 0 && n < 4 {
			n++
			if must {
				b.WriteString(ws())
			}
			body := c.one("", "x", " SELECT 1 FROM x ", "'", "\"", "''' ", "`", "é日", " /* ", "//", "--", " LET a = 1", "{[(", strings.Repeat("y", c.R.Intn(300)))
			switch c.R.Intn(3) {
			case 0:
				b.WriteString("--" + body + "\n")
			case 1:
				b.WriteString("//" + body + c.one("\n", "\r\n"))
			default:
				b.WriteString("/*" + body + c.one("", "\n", "*\n*", "**") + "*/")
			}
		}
	}
	cm(false)
	prev := ""
	for _, t := range toks {
		s := t.Text
		if t.Kind == "kw" {
			f := strings.Fields(s)
			for i := range f {
				switch c.R.Intn(4) {
				case 0:
					f[i] = strings.ToLower(f[i])
				case 1:
					f[i] = strings.ToUpper(f[i])
				case 2:
					x := []byte(strings.ToLower(f[i]))
					for k := range x {
						if c.R.Intn(2) == 0 {
							x[k] -= 32
						}
					}
					f[i] = string(x)
				}
			}
			s = strings.Join(f, c.one(" ", "\n", "\t ", "\r\n", "    "))
		}
		// names that begin or end with a letter beyond ASCII do not exist outside backticks, so two tokens decide
		need := prev != "" && !apart(prev, s)
		if need || style > 1 && c.R.Intn(3) == 0 || style == 1 {
			b.WriteString(ws())
		}
		// after "-" a comment could turn into something else; blanks keep it apart
		cm(true)
		b.WriteString(s)
		prev = s
		if comments > 0 && c.R.Intn(20) == 0 {
			b.WriteString(ws())
			prev = ""
		}
	}
	if style > 1 {
		b.WriteString(ws())
	}
	cm(true)
	out := b.String()
	if got, _ := significant(refLex(out)); diffToks(want, got) != "" {
		// some neighbours make something else together: one blank everywhere
		b.Reset()
		for _, t := range toks {
			b.WriteString(t.Text + blank)
		}
		out = b.String()
		if got, _ := significant(refLex(out)); diffToks(want, got) != "" {
			c.Count("no_other_layout", 1) // names like Group next to by, kept apart by a comment
			return text
		}
		c.Count("spaced_everywhere", 1)
	}
	return out
}

// says: the tokens that carry meaning (commas and parentheses can be redundant, EXPLAIN can be repeated)
func says(toks []string) (out []string) {
	for _, t := range toks {
		switch t {
		case ",", "(", ")", "EXPLAIN":
			continue
		}
		out = append(out, t)
	}
	return
}

// accepted: what is parsed must be all of the text
func (c *Case) accepted(text string, exact bool) (vqls []*vfilter.VQL, ok bool) {
	toks := refLex(text)
	bad := ""
	for _, t := range toks {
		if t.Kind == "bad" {
			bad = t.Text
		}
	}
	want, comments := significant(toks)
	vqls, err := vfilter.MultiParse(text)
	kept, err2 := vfilter.MultiParseWithComments(text)
	alone, err1 := vfilter.Parse(text)
	if bad != "" && (err == nil || err1 == nil || err2 == nil) {
		c.Fail("accepted although it holds %.40q, which is no token (MultiParse %v, Parse %v, MultiParseWithComments %v)\n%q", bad, err, err1, err2, text)
		return nil, false
	}
	if err != nil {
		if len(vqls) > 0 || err2 == nil || err1 == nil {
			c.Fail("MultiParse gives error %v and %d statements, MultiParseWithComments %v, Parse %v\n%q", err, len(vqls), err2, err1, text)
			return nil, false
		}
		c.Count("texts_refused", 1)
		return nil, true
	}
	if len(vqls) == 0 {
		c.Fail("accepted as no statement at all: %q", text)
		return nil, false
	}
	if (len(vqls) == 1) != (err1 == nil) {
		c.Fail("MultiParse gives %d statements, Parse gives %v\n%q", len(vqls), err1, text)
		return nil, false
	}
	if len(comments) == 0 && err2 != nil {
		c.Fail("a text without comments is refused by the comment-keeping parser: %v\n%q", err2, text)
		return nil, false
	}
	f := formatAll(vqls, vfilter.ToStringOptions)
	have, _ := significant(refLex(f))
	if d := diffToks(want, have); d != "" && (exact || diffToks(says(want), says(have)) != "") {
		c.Fail("the parsed statements are not the text: %s\ntext %q\nparsed as %s", d, text, f)
		return nil, false
	}
	if err1 == nil {
		if f1 := formatAll([]*vfilter.VQL{alone}, vfilter.ToStringOptions); f1 != f {
			c.Fail("Parse and MultiParse differ\nParse      %s\nMultiParse %s", f1, f)
			return nil, false
		}
	}
	if err2 == nil {
		if len(kept) != len(vqls) {
			c.Fail("MultiParse gives %d statements, MultiParseWithComments %d\n%q", len(vqls), len(kept), text)
			return nil, false
		}
		for i := range kept {
			have, _ := significant(refLex(formatAll(kept[i:i+1], vfilter.ToStringOptions)))
			want, _ := significant(refLex(formatAll(vqls[i:i+1], vfilter.ToStringOptions)))
			if d := diffToks(want, have); d != "" {
				c.Fail("statement %d of MultiParse and of MultiParseWithComments: %s\n%q", i, d, text)
				return nil, false
			}
		}
		if len(comments) > 0 {
			c.Count("with_comments", 1)
		}
	}
	c.Seen(text)
	c.Eval(1)
	return vqls, true
}

// same: two layouts of the same tokens
func (c *Case) same(a, b string, exact bool) bool {
	v1, ok := c.accepted(a, exact)
	if !ok {
		return false
	}
	v2, ok := c.accepted(b, exact)
	if !ok {
		return false
	}
	if len(v1) != len(v2) {
		c.Fail("%d statements in one layout, %d in the other\n%q\n%q", len(v1), len(v2), a, b)
		return false
	}
	for i := range v1 {
		x, y := formatAll(v1[i:i+1], vfilter.ToStringOptions), formatAll(v2[i:i+1], vfilter.ToStringOptions)
		if nx, ny := strings.Join(allNormal(x), " "), strings.Join(allNormal(y), " "); nx != ny {
			c.Fail("statement %d is parsed differently in another layout\n%s\n%s\nlayout %q", i, x, y, b)
			return false
		}
		if v1[i].Type() != v2[i].Type() {
			c.Fail("statement %d is a %s in one layout, a %s in the other: %q", i, v1[i].Type(), v2[i].Type(), b)
			return false
		}
	}
	c.Count("layouts_compared", 1)
	return true
}

func allNormal(text string) []string {
	sig, _ := significant(refLex(text))
	return sig
}

func c31programs(c *Case) {
	stmts, h := c.textProgram()
	var parts []string
	for _, s := range stmts {
		p := c.placed()
		p.stmt(s)
		parts = append(parts, p.text())
	}
	text := strings.Join(parts, "\n")
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	c.Desc("%s", text)
	all, ok := c.accepted(text, true)
	if !ok {
		return
	}
	if len(all) != len(parts) {
		c.Fail("%d statements, want %d", len(all), len(parts))
		return
	}
	for i, p := range parts {
		one, err := vfilter.Parse(p)
		if err != nil {
			c.Fail("statement %d alone: %v\n%s", i, err, p)
			return
		}
		x, y := formatAll([]*vfilter.VQL{one}, vfilter.ToStringOptions), formatAll(all[i:i+1], vfilter.ToStringOptions)
		if x != y {
			c.Fail("statement %d alone is\n%s\namong the others\n%s", i, x, y)
			return
		}
	}
	for k := 0; k < 2; k++ {
		other := c.relay(text, c.R.Intn(2)*6)
		if !c.same(text, other, true) {
			return
		}
		if !c.evaluateBoth(h, fmt.Sprintf("layout %d", k), text, other) {
			return
		}
	}
	if kept, err := vfilter.MultiParseWithComments(text); err == nil {
		e, e2 := NewEngine(h), NewEngine(h)
		defer e.Close()
		defer e2.Close()
		for i, v := range kept {
			x, y := e.Query(v), e2.Query(all[i])
			if d := diffRows(y, x); d != "" {
				c.Fail("statement %d of the comment-keeping parser evaluates differently: %s", i, d)
				return
			}
		}
		c.Count("comment_keeping_evaluated", 1)
	} else {
		c.Count("comment_keeping_refused", 1)
	}
	c.Sample("%s", text)
}

func (c *Case) oddText() string {
	g := newGen(c.R)
	var parts []string
	for i := c.R.Intn(4); i >= 0; i-- {
		p := c.placed()
		p.stmt(g.oddStmt(1 + g.R.Intn(3)))
		parts = append(parts, p.text())
	}
	return strings.Join(parts, c.one("\n", " ", "\n\n"))
}

func c31odd(c *Case) {
	text := c.oddText()
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	c.Desc("%s", text)
	for k := 0; k < 3; k++ {
		if !c.same(text, c.relay(text, c.R.Intn(2)*5), true) {
			return
		}
	}
	c.Sample("%s", text)
}

// mutants, most of them no queries: refused in every layout or accepted in every layout
func c31broken(c *Case) {
	for k := 0; k < 6; k++ {
		text := ""
		if c.R.Intn(2) == 0 {
			text = c.corpus()
		} else {
			text = c.oddText()
		}
		for i := c.R.Intn(3); i >= 0; i-- {
			text = c.mutate(text, soup)
		}
		if nestingOf(text) > 30 || len(text) > 20000 || strings.Count(text, "/*") > 60 {
			continue
		}
		c.desc = ""
		c.Desc("%s", text)
		bad := false
		for _, t := range refLex(text) {
			bad = bad || t.Kind == "bad"
		}
		if bad {
			if _, ok := c.accepted(text, false); !ok {
				return
			}
			continue
		}
		if !c.same(text, c.relay(text, c.R.Intn(2)*5), false) {
			return
		}
	}
}

// every token of a statement left out, doubled, followed by another; the statement cut everywhere
func c31cuts(c *Case) {
	g, _ := stdGen(c)
	var s *Stmt
	if c.R.Intn(2) == 0 {
		s = newGen(c.R).oddStmt(1)
	} else {
		l := c.anyStmts(g)
		s = l[len(l)-1]
	}
	text := StmtText(s)
	if nestingOf(text) > 20 || len(text) > 3000 {
		c.Count("too_nested", 1)
		return
	}
	var toks []string
	for _, t := range refLex(text) {
		if t.Kind != "space" {
			toks = append(toks, t.Text)
		}
	}
	if len(toks) > 80 {
		c.Count("too_long", 1)
		return
	}
	try := func(l ...[]string) bool {
		var all []string
		for _, x := range l {
			all = append(all, x...)
		}
		t := strings.Join(all, " ")
		c.desc = ""
		c.Desc("%s", t)
		_, ok := c.accepted(t, false)
		return ok
	}
	if !try(toks) {
		return
	}
	for i := range toks {
		extra := []string{soup[c.R.Intn(len(soup))]}
		if !try(toks[:i]) || !try(toks[:i], toks[i+1:]) || !try(toks[:i], toks[i:i+1], toks[i:]) || !try(toks[:i], extra, toks[i:]) {
			return
		}
	}
	for k := 0; k < 6; k++ {
		if !try(toks, []string{soup[c.R.Intn(len(soup))]}) {
			return
		}
	}
	c.Count("statements_cut", 1)
}

func c31large(c *Case) {
	n := c.one("", "", "x")
	big := 1000 + c.R.Intn(200000)
	text := ""
	switch c.R.Intn(5) {
	case 0: // many statements
		var b strings.Builder
		for i := 0; i < 100+c.R.Intn(500); i++ {
			fmt.Fprintf(&b, "LET x%d = %d%s", i, i, c.one("\n", " ", "\n-- c\n", " /* c */ "))
			if c.R.Intn(3) == 0 {
				fmt.Fprintf(&b, "SELECT x%d FROM t%d()%s", i, i, c.one("\n", " ", "\n-- c\n", " /* c */ "))
			}
		}
		text = b.String()
	case 1: // many columns
		var cols []string
		for i := 0; i < 100+c.R.Intn(300); i++ {
			cols = append(cols, fmt.Sprintf("f(a=%d) AS c%d", i, i))
		}
		text = "SELECT " + strings.Join(cols, ",\n") + " FROM t"
	case 2: // long blanks
		text = "SELECT a" + strings.Repeat(c.one(" ", "\n", "\t"), big) + "FROM" + strings.Repeat(" ", big) + "t LIMIT 3"
	case 3: // long comments
		text = "SELECT a, --" + strings.Repeat("c", big) + "\n b /*" + strings.Repeat("/* x ", big/10) + "*/ FROM t"
	case 4: // long operators
		text = "SELECT 1" + strings.Repeat(c.one(" + a", " AND f(x=1)", " * 2", " OR NOT b"), 100+c.R.Intn(400)) + " AS x FROM t"
	}
	text += n
	c.Desc("%.2000s...", text)
	other := c.relay(text, c.R.Intn(2)*9)
	if !c.same(text, other, true) {
		return
	}
	// what follows a long text is not lost either
	for _, tail := range []string{"\n)", "\n'", " 1 2", "\nLET", "\nFROM", " ;", "\nx y z", "\n§"} {
		if _, ok := c.accepted(text+tail, false); !ok {
			return
		}
	}
}

// texts that are no queries
var c31forms = []string{
	"", " ", "-- x", "SELECT", "SELECT a", "SELECT a FROM", "LET", "LET x", "LET x =", "LET x <=", "x", "1", "EXPLAIN", "EXPLAIN LET x = 1",
	"SELECT a FROM t t", "SELECT a FROM t, u", "SELECT a b FROM t", "SELECT a AS FROM t", "SELECT a AS 'b' FROM t", "SELECT a AS b.c FROM t",
	"SELECT a FROM t WHERE", "SELECT a FROM t LIMIT", "SELECT a FROM t LIMIT x", "SELECT a FROM t ORDER BY", "SELECT a FROM t ORDER BY a, b", "SELECT a FROM t GROUP BY",
	"SELECT a FROM t ORDER BY a DESC DESC", "SELECT a FROM t LIMIT 1 LIMIT 2", "SELECT a FROM t WHERE a WHERE b", "SELECT a FROM t LIMIT 1 WHERE a", "SELECT a FROM t ORDER BY a WHERE b", "SELECT a FROM t LIMIT 1 ORDER BY a",
	"SELECT a FROM t(", "SELECT a FROM t)", "SELECT a FROM t(x)", "SELECT a FROM t(x=)", "SELECT a FROM t(x=1 y=2)", "SELECT a FROM t(x=1,)", "SELECT a FROM t(=1)",
	"SELECT (a FROM t", "SELECT a) FROM t", "SELECT a[1 FROM t", "SELECT a]1 FROM t", "SELECT {a} FROM t", "SELECT { SELECT a FROM t FROM t", "SELECT () FROM t",
	"SELECT a + FROM t", "SELECT + a FROM t", "SELECT a * * b FROM t", "SELECT a AND FROM t", "SELECT NOT FROM t", "SELECT a NOT b FROM t", "SELECT a IN FROM t", "SELECT a = = b FROM t", "SELECT a => b FROM t", "SELECT a =~ FROM t",
	"SELECT a = b = c FROM t", "SELECT a < b < c FROM t", "SELECT a IN b IN c FROM t", "SELECT (a, b c) FROM t", "SELECT (a b) FROM t", "SELECT a[1 2] FROM t", "SELECT a[1:2 3] FROM t", "SELECT a[1::2] FROM t", "SELECT a FROM t WHERE b, c d", "SELECT a FROM t GROUP BY b, c d", "LET x = f(a=[1, 2 3])",
	"SELECT 'a FROM t", "SELECT \"a FROM t", "SELECT `a FROM t", "SELECT '''a FROM t", "SELECT /* a FROM t", "SELECT a FROM t */", "SELECT a; FROM t", "SELECT a FROM t;", "SELECT a FROM t; SELECT b FROM t", "SELECT a ? b FROM t", "SELECT $a FROM t", "SELECT @a FROM t", "SELECT a ~ b FROM t", "SELECT a ! b FROM t", "SELECT a == b FROM t", "SELECT a ^ b FROM t",
	"LET x = 1 1", "LET x = SELECT", "LET x = { SELECT a FROM t }", "LET 'x' = 1", "LET x.y = 1", "LET x( = 1", "LET x(a = 1", "LET x(a b) = 1", "LET x(a,) = 1", "LET x() 1", "LET x => 1", "LET x == 1", "LET LET x = 1", "LET SELECT = 1",
	"SELECT a FROM t SELECT", "SELECT a FROM t LET", "SELECT a FROM t LET x", "LET x = 1 LET y", "LET x = 1 SELECT a", "LET x = 1 x", "LET x = 1)", "LET x = 1 FROM t", "SELECT a FROM t AS b", "SELECT a FROM 't'", "SELECT a FROM 1", "SELECT a FROM (t)", "SELECT a FROM { SELECT b FROM t }", "SELECT a FROM SELECT b FROM t",
	"SELECT a FROM t\x00", "SELECT a\u00a0FROM t", "SELECT é FROM t", "ＳELECT a FROM t", "SELECT a FROM t \u200b",
}

func c31fixed(c *Case) {
	text := c31forms[c.Index]
	c.Desc("%q", text)
	vqls, ok := c.accepted(text, false)
	if !ok {
		return
	}
	c.Seen(text)
	if vqls != nil {
		c.Fail("%q is accepted, as %s", text, formatAll(vqls, vfilter.ToStringOptions))
		return
	}
	bad := false
	for _, t := range refLex(text) {
		bad = bad || t.Kind == "bad"
	}
	if !bad && text != "" {
		c.same(text, c.relay(text, 5), false)
	}
	c.Eval(1)
}
