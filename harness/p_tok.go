package main

import (
	"strings"
	"unicode/utf8"

	"www.velocidex.com/golang/vfilter"
)

func init() {
	register(&Property{ID: "C20",
		Rule: "A case is a text: generated programs in random layout with comments, arbitrary syntax, mutations of these, random mixtures of fragments and long texts. Tokenize is compared, token by token (type, text, start and end as offset, line and column), with the harness's own lexer and with positions counted from the raw text; it must refuse exactly the texts that hold something which is no token, and never a text that parses. Non-trivial: distinct texts tokenized.",
		Groups: []Group{
			{"programs", 3000, 80000, c20programs},
			{"odd", 4000, 120000, c20odd},
			{"mutants", 6000, 200000, c20mutants},
			{"soup", 8000, 300000, c20soup},
			{"large", 100, 2000, c20large},
		}})
}

var kwType = map[string]string{"GROUP BY": "GROUPBY", "ORDER BY": "ORDERBY", "TRUE": "BOOL", "FALSE": "BOOL"}

func tokType(t Tok) string {
	switch t.Kind {
	case "kw":
		n := t.normal()
		if k := kwType[n]; k != "" {
			return k
		}
		return n
	case "num":
		return "Number"
	case "name":
		if t.Text[0] == '-' {
			return "SymbolIdent"
		}
		return "Ident"
	case "str":
		if strings.HasPrefix(t.Text, "'''") && len(t.Text) >= 6 {
			return "MultilineString"
		}
		return "String"
	case "comment":
		switch t.Text[:2] {
		case "/*":
			return "MLineComment"
		case "--":
			return "VQLComment"
		}
		return "Comment"
	}
	switch t.Text[0] {
	case '|':
		return "AlternativeOR"
	case '&':
		return "AlternativeAND"
	}
	return "Operators"
}

// place counts the line and column (in characters, from 1) of an offset
func place(s string, off int) (line, col int) {
	before := s[:off]
	line = 1 + strings.Count(before, "\n")
	return line, 1 + utf8.RuneCountInString(before[strings.LastIndexByte(before, '\n')+1:])
}

func (c *Case) tokenizes(text string) bool {
	got, err := vfilter.Tokenize(text)
	ref := refLex(text)
	bad := -1
	var want []Tok
	for _, t := range ref {
		if t.Kind == "bad" {
			bad = t.Off
			break
		}
		if t.Kind != "space" {
			want = append(want, t)
		}
	}
	c.Eval(1)
	if err != nil {
		if bad < 0 {
			c.Fail("refused: %v", err)
			return false
		}
		if _, err := vfilter.MultiParse(text); err == nil {
			c.Fail("text that parses is refused by the tokenizer")
			return false
		}
		if len(got) > 0 {
			c.Fail("an error (%v) and %d tokens", err, len(got))
			return false
		}
		c.Count("texts_refused", 1)
		return true
	}
	if bad >= 0 {
		c.Fail("accepted although at offset %d there is no token: %.40q", bad, text[bad:])
		return false
	}
	last := 0
	for i, t := range got {
		if i >= len(want) {
			c.Fail("token %d is extra: %+v", i, t)
			return false
		}
		w := want[i]
		if t.Value != w.Text || t.Pos.Offset != w.Off {
			c.Fail("token %d is %q at offset %d, want %q at offset %d", i, t.Value, t.Pos.Offset, w.Text, w.Off)
			return false
		}
		if k := tokType(w); t.Type != k {
			c.Fail("token %d, %q, has type %s, want %s", i, t.Value, t.Type, k)
			return false
		}
		end := w.Off + len(w.Text)
		if t.EndPos.Offset != end {
			c.Fail("token %d, %q at offset %d, ends at offset %d, want %d", i, t.Value, w.Off, t.EndPos.Offset, end)
			return false
		}
		if t.Pos.Offset < last || strings.Trim(text[last:t.Pos.Offset], " \t\r\n\f") != "" {
			c.Fail("token %d, %q: between offsets %d and %d there is more than white space", i, t.Value, last, t.Pos.Offset)
			return false
		}
		last = end
		if l, col := place(text, w.Off); t.Pos.Line != l || t.Pos.Column != col {
			c.Fail("token %d, %q at offset %d, starts at line %d column %d, want %d, %d", i, t.Value, w.Off, t.Pos.Line, t.Pos.Column, l, col)
			return false
		}
		if l, col := place(text, end); t.EndPos.Line != l || t.EndPos.Column != col {
			c.Fail("token %d, %q at offset %d, ends at line %d column %d, want %d, %d", i, t.Value, w.Off, t.EndPos.Line, t.EndPos.Column, l, col)
			return false
		}
	}
	if len(got) != len(want) {
		c.Fail("%d tokens, want %d; next is %q", len(got), len(want), want[len(got)].Text)
		return false
	}
	if strings.Trim(text[last:], " \t\r\n\f") != "" {
		c.Fail("after the last token there is %q", text[last:])
		return false
	}
	c.Count("tokens", len(got))
	c.Seen(text)
	return true
}

func c20programs(c *Case) {
	stmts, _ := c.textProgram()
	var parts []string
	for _, s := range stmts {
		p := c.placed()
		p.Comments = c.R.Intn(3) == 0
		p.stmt(s)
		parts = append(parts, p.text())
	}
	text := strings.Join(parts, c.one("\n", " ", "\r\n\t", "\f\n"))
	c.Desc("%q", text)
	c.tokenizes(text)
	c.Sample("%q", text)
}

func c20odd(c *Case) {
	p := c.placed()
	p.Comments = c.R.Intn(3) == 0
	p.stmt(newGen(c.R).oddStmt(2))
	text := p.text()
	if c.R.Intn(3) == 0 {
		text = strings.ReplaceAll(text, c.one("a", "b", "1", "x", "omment"), c.one("日本", "é\n", "𝔘", "\r\n", "'''\n\n'''", "/*\n日*/"))
	}
	c.Desc("%q", text)
	c.tokenizes(text)
}

func c20mutants(c *Case) {
	base := c.corpus()
	for k := 0; k < 4; k++ {
		text := base
		for i := c.R.Intn(4); i >= 0; i-- {
			text = c.mutate(text, append([]string{"-- x\n", "// y\r\n", "/* z */", "/* \n日本\n */", "'''é\n\n'''", "`a\nb`", "'\n'", "\f"}, soup...))
		}
		c.desc = ""
		c.Desc("%q", text)
		if !c.tokenizes(text) {
			return
		}
	}
}

var tokSoup = strings.Split("'~\"~'''~`~/*~*/~--~//~-~+~*~/~|~||~&&~&~!~!=~<>~<=~>=~=>~=~=~~<~>~(~)~[~]~{~}~:~,~.~%~1~0x~0x1F~.5~1.~1e5~1e+~e~-1~-a~-`~a~_~a1~é~日本~𝔘~\n~\r\n~\t~ ~\f~\v~\u00a0~SELECT~select~GROUP~BY~group\n by~ORDER BY~ORDERBY~GROUP BYE~DESC~LIMIT~LET~EXPLAIN~TRUE~false~NULL~in~IN~AS~aSELECT~SELECTé~_AND~AND_~\\~\\'~\\\"~\xff~\xf0\x9f~\x00~@~#~$~;~?~^", "~")

func c20soup(c *Case) {
	var b strings.Builder
	for i := c.R.Intn(14); i >= 0; i-- {
		b.WriteString(tokSoup[c.R.Intn(len(tokSoup))])
		if c.R.Intn(3) == 0 {
			b.WriteString(" ")
		}
	}
	text := b.String()
	c.Desc("%q", text)
	c.tokenizes(text)
	c.Sample("%q", text)
}

func c20large(c *Case) {
	n := 200 + c.R.Intn(3000)
	one := tokSoup[c.R.Intn(len(tokSoup))]
	two := c.one(" ", "\n", "日本語 ", "'é'", "/*\n*/", "-- x\n", "`é\né`")
	text := strings.Repeat(one+two, n)
	if c.R.Intn(3) == 0 {
		text = c.one("'", "'''", "/*", "`", "\"") + text + c.one("'", "'''", "*/", "`", "\"")
	}
	if strings.Count(text, "/*") > 100 && strings.Count(text, "*/") < 10 || strings.Count(text, "'''")%2 == 1 {
		text = text[:min(len(text), 300)] // an unterminated comment is searched for again at every /*
	}
	c.Desc("%.60q x %d", text, n)
	c.tokenizes(text)
}
