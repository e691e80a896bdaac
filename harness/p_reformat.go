package main

import (
	"strings"

	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/reformat"
)

func init() {
	register(&Property{ID: "C19",
		Rule: "A case is a text, with comments where the comment-keeping parser accepts them. It is reformatted (with the default, the one-line and random layout options); the harness's own lexer checks that the significant tokens of the output are those of the input and that the comments are the same multiset; reformatting the output must change nothing, and input and output evaluate to the same rows on the same host. Non-trivial: distinct reformatted texts.",
		Groups: []Group{
			{"programs", 2500, 60000, c19programs},
			{"odd", 5000, 120000, c19odd},
			{"mutants", 2500, 60000, c19mutants},
			{"strings", 1500, 40000, c19strings},
			{"large", 40, 1000, c19large},
			{"fixed", len(c19fixedForms), len(c19fixedForms), c19fixed},
		}})
}

// reformats checks the reformatting of one text; nil when refused or wrong.
func (c *Case) reformats(text string, odd bool) map[string]string {
	scope := vfilter.NewScope()
	defer scope.Close()
	want, comments := significant(refLex(text))
	out := map[string]string{}
	lay := c.layouts()
	for _, n := range []string{"default", "one line", "random"} {
		o := lay[n]
		got, err := reformat.ReFormatVQL(scope, text, o)
		if err != nil {
			if len(comments) == 0 {
				if _, err2 := vfilter.MultiParse(text); err2 == nil {
					c.Fail("%s: a text without comments that parses is refused: %v", n, err)
				}
			}
			if got != "" {
				c.Fail("%s: error %v and text %q", n, err, got)
			}
			c.Count("refused", 1)
			return nil
		}
		have, comments2 := significant(refLex(got))
		if d := diffToks(want, have); d != "" && odd {
			// of a repeated part (an index, a comparison) the grammar keeps the last one only
			c.Count("texts_with_repeated_parts", 1)
			vqls, err := vfilter.MultiParse(text)
			if err != nil {
				c.Fail("%s: reformatted, but MultiParse gives %v", n, err)
				return nil
			}
			w2, _ := significant(refLex(formatAll(vqls, vfilter.ToStringOptions)))
			if d := diffToks(w2, have); d != "" {
				c.Fail("%s: reformatted text is not what the parsed statements say: %s\nreformatted as\n%s", n, d, got)
				return nil
			}
			comments = comments2
		} else if d != "" {
			c.Fail("%s: %s\nreformatted as\n%s", n, d, got)
			return nil
		}
		if d := diffToks(sorted(comments), sorted(comments2)); d != "" {
			c.Fail("%s: the comments differ: %s\nreformatted as\n%s", n, d, got)
			return nil
		}
		again, err := reformat.ReFormatVQL(scope, got, o)
		if err != nil {
			c.Fail("%s: the reformatted text is refused: %v\nreformatted as\n%s", n, err, got)
			return nil
		}
		if again != got {
			c.Fail("%s: reformatting again changes the text\nfirst\n%s\nsecond\n%s", n, got, again)
			return nil
		}
		out[n] = got
		c.Eval(1)
		c.Seen(got)
		c.Count("comments_kept", len(comments))
	}
	return out
}

func (c *Case) placed() *Printer {
	p := &Printer{R: c.R}
	if c.R.Intn(4) > 0 {
		p.Placed = 2 + c.R.Intn(14)
	}
	return p
}

func c19programs(c *Case) {
	stmts, h := c.textProgram()
	var parts []string
	for _, s := range stmts {
		p := c.placed()
		p.stmt(s)
		parts = append(parts, p.text())
	}
	text := strings.Join(parts, "\n")
	if c.R.Intn(4) == 0 {
		text += c.one("\n-- the end", " // the end\n", "\n\n/* the\n end */", "\n-- a\n// b\n/* c */\n")
	}
	c.Desc("%s", text)
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	for n, got := range c.reformats(text, false) {
		if !c.evaluateBoth(h, n, text, got) {
			return
		}
	}
	c.Sample("%s", text)
}

// one picks one of the strings
func (c *Case) one(s ...string) string { return s[c.R.Intn(len(s))] }

func c19odd(c *Case) {
	g := newGen(c.R)
	var parts []string
	for i := c.R.Intn(3); i >= 0; i-- {
		p := c.placed()
		p.stmt(g.oddStmt(1 + g.R.Intn(4)))
		parts = append(parts, p.text())
	}
	text := strings.Join(parts, c.one("\n", " ", "\n\n"))
	c.Desc("%s", text)
	if nestingOf(text) > 30 {
		c.Count("too_nested", 1)
		return
	}
	c.reformats(text, false)
	c.Sample("%s", text)
}

func c19mutants(c *Case) {
	base := c.corpus()
	for k := 0; k < 4; k++ {
		text := base
		if c.R.Intn(2) == 0 {
			p := c.placed()
			p.stmt(newGen(c.R).oddStmt(2))
			text = p.text()
		}
		for i := c.R.Intn(3); i >= 0; i-- {
			text = c.mutate(text, append([]string{"-- x\n", "// y\n", "/* z */", "/* \n\n */"}, soup...))
		}
		c.desc = ""
		c.Desc("%s", text)
		if nestingOf(text) > 30 {
			continue
		}
		c.reformats(text, true)
	}
}

// text inside strings, names and comments is nobody's business
func c19strings(c *Case) {
	body := func(bad string) string {
		var b strings.Builder
		for i := c.R.Intn(12); i >= 0; i-- {
			b.WriteString(c.one(" ", "  ", "\n", " \n", "\n  ", "\t", "x", "-- c", "/* c */", "// c", "SELECT", "é", "\r\n", "   \n   ", "\\n", "\\\\", "(", ")", ",", "=", "日本", " AND ", "'", "\"", "*/", "\f"))
		}
		s := b.String()
		for _, x := range strings.Split(bad, " ") {
			s = strings.ReplaceAll(s, x, "")
		}
		if s == "" {
			s = "z"
		}
		return s
	}
	str := func() string {
		switch c.R.Intn(3) {
		case 0:
			return "'''" + body("'") + "'''"
		case 1:
			return "'" + body("'") + "'"
		}
		return "\"" + body("\"") + "\""
	}
	name := func() string { return "`" + body("`") + "`" }
	oneLine := strings.NewReplacer("\n", " ", "\r", " ")
	comment := func() string {
		if c.R.Intn(3) > 0 {
			return ""
		}
		switch c.R.Intn(3) {
		case 0:
			return "\n--" + oneLine.Replace(body("`")) + "\n"
		case 1:
			return "\n//" + oneLine.Replace(body("`")) + "\n"
		}
		return " /*" + body("*/") + "*/ "
	}
	text := comment() + "LET " + name() + " = " + comment() + str() + "\n" +
		comment() + "SELECT " + comment() + str() + " AS " + name() + ", " + comment() + "f(" + comment() + name() + "=" + comment() + str() + ", x=" + c.one("1", "''' '''", "' \n'") + ") FROM one() WHERE " + comment() + name() + " = " + comment() + str() + comment()
	c.Desc("%s", text)
	if got := c.reformats(text, false); got != nil {
		for n, t := range got {
			if !c.evaluateBoth(plainHost(), n, text, t) {
				return
			}
		}
		c.Sample("%q", text)
	}
}

// long and deep texts
func c19large(c *Case) {
	var text string
	n := 5 + c.R.Intn(60)
	switch c.R.Intn(5) {
	case 0:
		text = "SELECT " + strings.Repeat("f(a=1, bcd=", n) + "1" + strings.Repeat(")", n) + " FROM one()"
	case 1:
		n = n/6 + 1
		text = "SELECT * FROM " + strings.Repeat("foreach(row={ -- c\n SELECT * FROM one() }, query={SELECT a, b FROM ", n) + "one()" + strings.Repeat("})", n)
	case 2:
		text = "SELECT " + strings.Repeat("f(x=g(a=h(a=2,b=3)), y=1) AS abc,", n) + "1 FROM a"
	case 3:
		text = "LET X = (" + strings.Repeat("1, -- one\n 2, /* two */ 3,", n) + "4)"
	case 4:
		n = n/4 + 1
		text = "LET X = " + strings.Repeat("a AND (b OR f(x=", n) + "1" + strings.Repeat("))", n)
	}
	c.Desc("%s", text)
	c.reformats(text, false)
}

var c19fixedForms = []string{
	"-- only a comment",
	"/* a */ -- b\n // c\n SELECT 1 FROM one() // d\n -- e\n /* f */",
	"SELECT 1 FROM one() /* a */ SELECT 2 FROM one() /* b */",
	"LET X = -- a\n 1",
	"LET X = -- a\n -- b\n 1 + 2",
	"LET X = /* a */ SELECT * FROM one()",
	"LET X = /* a */ /* b */ EXPLAIN SELECT * FROM one()",
	"LET X(/* a */ p=1, q) = p",
	"LET X(q, -- a\n p=/* b */ 1) = p",
	"SELECT /* a */ * FROM one()",
	"SELECT /* a */ *, /* b */ b FROM one()",
	"SELECT *, /* b */ b FROM one()",
	"SELECT a, /* b */ { /* c */ SELECT * FROM one() } AS x FROM one()",
	"SELECT a, -- b\n b AS c, -- d\n d FROM one()",
	"SELECT a FROM one(-- x\n a=1, /* y */ b=2)",
	"SELECT a FROM one(a=/* x */ 1, b=[/* y */ 1, 2, -- z\n])",
	"SELECT a FROM one(a={ -- x\n SELECT * FROM one() })",
	"SELECT a FROM one() WHERE -- x\n a AND -- y\n b OR /* z */ c",
	"SELECT a FROM one() WHERE NOT /* x */ a = /* y */ b",
	"SELECT a FROM one() GROUP BY /* x */ a, /* y */ b ORDER BY c LIMIT 2",
	"SELECT (/* x */ 1 /* y */, /* z */ 2, /* w */) FROM one()",
	"SELECT 1 + /* x */ 2 * /* y */ 3 FROM one()",
	"SELECT a[/* x */ 1], b[/* y */ 1: /* z */ 2] FROM one()",
	"SELECT f(-- x\n a=1) FROM one()",
	"SELECT f(/* x\n y */ a=1), /* z */ g() FROM one()",
	"SELECT --\n a, //\n b, /**/ c FROM one()",
	"SELECT '''x  \n  y ''' AS `a \n b` FROM one()  \n\n\n",
	"SELECT 'x  \n  y ' + \"a \n\" FROM one()",
	"SELECT a, -- café 日本\n b FROM one()",
	"SELECT a FROM one() -- no newline at the end",
	"SELECT a, -- cr\r\n b FROM one()\r\n",
	"",
	"   ",
}

func c19fixed(c *Case) {
	text := c19fixedForms[c.Index]
	c.Desc("%s", text)
	c.Seen(text)
	c.Eval(1)
	for n, got := range c.reformats(text, true) {
		if !c.evaluateBoth(plainHost(), n, text, got) {
			return
		}
		c.Sample("%s  ->  %s", text, got)
	}
}
