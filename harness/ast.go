package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// The harness's own syntax tree: generated, printed as query text, and interpreted by the reference model.

type Expr interface{}

type Lit struct {
	V    V
	Text string // how it is written
}
type Sym struct {
	Path []string
	Neg  bool
}
type CallE struct {
	Path []string
	Neg  bool
	Args []Arg
}
type Bin struct {
	Op   string
	L, R Expr
}
type Not struct{ E Expr }
type Step struct {
	Field  string
	Index  Expr
	Slice  bool
	Lo, Hi Expr
}
type Mem struct {
	Base  Expr
	Steps []Step
}
type Comma struct {
	Items    []Expr
	Trailing bool
}
type Par struct{ E Expr }

type Arg struct {
	Name string
	E    Expr
	Sub  *Select
	Arr  []Expr
	IsA  bool
}

type Col struct {
	Star bool
	Sub  *Select
	E    Expr
	As   string
}

type From struct {
	Path []string
	Call bool
	Args []Arg
}

type Select struct {
	Explain bool
	Cols    []Col
	From    From
	Where   Expr
	GroupBy []Expr
	OrderBy string
	Desc    bool
	Limit   *int64
}

type Param struct {
	Name string
	Def  *Arg // default, Arg.Name = Name
}

type Stmt struct {
	Let    string
	Called bool
	Params []Param
	Op     string // = or <=
	E      Expr
	Q      *Select
}

// ---------------------------------------------------------------- printing

// Printer renders text.  With R set it randomises layout (white space, comments, keyword case, redundant parentheses).
type Printer struct {
	R        *rand.Rand
	Comments bool
	// Placed > 0: one in Placed of the places where the comment-keeping parser accepts comments gets one
	Placed int
	toks   []string
	// comments before the token of this index
	placed map[int][]string
	serial int
}

func (p *Printer) t(s ...string) { p.toks = append(p.toks, s...) }

// mark: a comment may come here (up to n of them)
func (p *Printer) mark(n int) {
	if p.Placed == 0 || p.R.Intn(p.Placed) != 0 || len(p.placed[len(p.toks)]) > 0 {
		return
	}
	if p.placed == nil {
		p.placed = map[int][]string{}
	}
	for i := 0; i < n; i++ {
		if i > 0 && p.R.Intn(4) != 0 {
			break
		}
		p.placed[len(p.toks)] = append(p.placed[len(p.toks)], p.comment())
	}
}

// comment makes a comment that is unlike the others of this text
func (p *Printer) comment() string {
	p.serial++
	body := []string{"", "omment", " comment", " SELECT 'x", " \"q", " AND", " a, b)", "é", " --", " // x", "  two  blanks "}[p.R.Intn(11)]
	id := fmt.Sprint(p.serial)
	switch p.R.Intn(4) {
	case 0, 1:
		return []string{"--", "//"}[p.R.Intn(2)] + id + body + "\n"
	case 2:
		return "/*" + id + body + "*/"
	}
	return "/*\n  " + id + body + "  \n * x\n\n*/"
}

var keywords = map[string]bool{"EXPLAIN": true, "SELECT": true, "WHERE": true, "AND": true, "OR": true, "FROM": true, "NOT": true,
	"AS": true, "IN": true, "LIMIT": true, "NULL": true, "DESC": true, "GROUP": true, "ORDER": true, "BY": true, "TRUE": true, "FALSE": true, "LET": true}

func isPlainIdent(s string) bool {
	if s == "" || keywords[strings.ToUpper(s)] {
		return false
	}
	for i, c := range s {
		if c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9' {
			continue
		}
		return false
	}
	return true
}

func ident(s string) string {
	if isPlainIdent(s) {
		return s
	}
	return "`" + s + "`"
}

// precedence levels: 0 comma 1 and 2 or 3 cond 4 add 5 mul 6 member 7 value
func level(e Expr) int {
	switch t := e.(type) {
	case *Comma:
		return 0
	case *Bin:
		switch t.Op {
		case "AND", "&&":
			return 1
		case "OR", "||", "|":
			return 2
		case "+", "-":
			return 4
		case "*", "/":
			return 5
		}
		return 3
	case *Not:
		return 3
	case *Mem:
		return 6
	}
	return 7
}

func (p *Printer) expr(e Expr, min int) {
	if level(e) < min {
		p.mark(1)
		p.t("(")
		p.expr(e, 0)
		p.t(")")
		return
	}
	switch e.(type) {
	case *Par, *Lit, *Sym, *CallE, *Not:
		if min < 5 {
			p.mark(3)
		} else {
			p.mark(1)
		}
	}
	switch t := e.(type) {
	case *Par:
		p.t("(")
		p.expr(t.E, 0)
		p.t(")")
	case *Lit:
		p.t(t.Text)
	case *Sym:
		p.t(p.path(t.Path, t.Neg))
	case *CallE:
		p.t(p.path(t.Path, t.Neg), "(")
		p.args(t.Args)
		p.t(")")
	case *Comma:
		for i, x := range t.Items {
			if i > 0 {
				p.mark(1)
				p.t(",")
			}
			p.expr(x, 1)
		}
		if t.Trailing {
			p.t(",")
			p.mark(1)
		}
	case *Not:
		p.t("NOT")
		p.expr(t.E, 3)
	case *Bin:
		switch level(e) {
		case 1:
			p.expr(t.L, 1)
			p.t(t.Op)
			p.expr(t.R, 2)
		case 2:
			p.expr(t.L, 2)
			p.t(t.Op)
			p.expr(t.R, 3)
		case 3:
			p.expr(t.L, 4)
			p.t(t.Op)
			p.expr(t.R, 4)
		case 4:
			p.expr(t.L, 4)
			p.t(t.Op)
			p.expr(t.R, 5)
		case 5:
			p.expr(t.L, 5)
			p.t(t.Op)
			p.expr(t.R, 7)
		}
	case *Mem:
		p.expr(t.Base, 7)
		for _, s := range t.Steps {
			if s.Field != "" {
				p.t(".", ident(s.Field))
			} else if s.Slice {
				p.t("[")
				if s.Lo != nil {
					p.expr(s.Lo, 7)
				}
				p.t(":")
				if s.Hi != nil {
					p.expr(s.Hi, 7)
				}
				p.t("]")
			} else {
				p.t("[")
				p.expr(s.Index, 7)
				p.t("]")
			}
		}
	default:
		panic(fmt.Sprintf("printer: %T", e))
	}
}

func (p *Printer) path(path []string, neg bool) string {
	var out []string
	for _, x := range path {
		out = append(out, ident(x))
	}
	s := strings.Join(out, ".")
	if neg {
		s = "-" + s
	}
	return s
}

func (p *Printer) args(args []Arg) {
	for i, a := range args {
		if i > 0 {
			p.t(",")
		}
		p.arg(a)
	}
}

func (p *Printer) arg(a Arg) {
	p.mark(1)
	p.t(ident(a.Name), "=")
	switch {
	case a.Sub != nil:
		p.t("{")
		p.sel(a.Sub)
		p.t("}")
	case a.IsA:
		p.t("[")
		for i, x := range a.Arr {
			if i > 0 {
				p.t(",")
			}
			p.expr(x, 1)
		}
		p.t("]")
	default:
		p.expr(a.E, 1)
	}
}

func (p *Printer) sel(s *Select) {
	p.mark(4)
	if s.Explain {
		p.t("EXPLAIN")
	}
	p.t("SELECT")
	for i, c := range s.Cols {
		if i > 0 {
			p.t(",")
			p.mark(3)
		}
		switch {
		case c.Star:
			p.t("*")
			continue
		case c.Sub != nil:
			p.t("{")
			p.sel(c.Sub)
			p.t("}")
		default:
			p.expr(c.E, 1)
		}
		if c.As != "" {
			p.t("AS", ident(c.As))
		}
	}
	p.t("FROM", p.path(s.From.Path, false))
	if s.From.Call {
		p.t("(")
		p.args(s.From.Args)
		p.t(")")
	}
	if s.Where != nil {
		p.t("WHERE")
		p.expr(s.Where, 0)
	}
	if len(s.GroupBy) > 0 {
		p.t("GROUP BY")
		for i, x := range s.GroupBy {
			if i > 0 {
				p.t(",")
			}
			p.expr(x, 1)
		}
	}
	if s.OrderBy != "" {
		p.t("ORDER BY", ident(s.OrderBy))
		if s.Desc {
			p.t("DESC")
		}
	}
	if s.Limit != nil {
		p.t("LIMIT", fmt.Sprint(*s.Limit))
	}
}

func (p *Printer) stmt(s *Stmt) {
	p.mark(5)
	if s.Let != "" {
		p.t("LET", ident(s.Let))
		if s.Called || len(s.Params) > 0 {
			p.t("(")
			for i, q := range s.Params {
				if i > 0 {
					p.t(",")
				}
				if q.Def != nil {
					p.arg(*q.Def)
				} else {
					p.t(ident(q.Name))
				}
			}
			p.t(")")
		}
		p.t(s.Op)
		if s.E != nil {
			p.expr(s.E, 1)
			return
		}
	}
	p.sel(s.Q)
}

// text joins tokens.  Plain layout: one space between tokens, none around "(", ")", ",", ".", "[", "]", ":".
func (p *Printer) text() string {
	var b strings.Builder
	for i, t := range p.toks {
		gap := ""
		if i > 0 {
			gap = p.gap(p.toks[i-1], t)
		}
		if len(p.placed[i]) > 0 {
			b.WriteString(" ")
			for _, c := range p.placed[i] {
				b.WriteString(c + gap)
			}
		} else {
			b.WriteString(gap)
		}
		b.WriteString(p.caseOf(t))
	}
	for _, c := range p.placed[len(p.toks)] {
		b.WriteString("\n" + c)
	}
	return b.String()
}

func wordy(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80
}

func (p *Printer) gap(a, b string) string {
	must := true
	la, fb := a[len(a)-1], b[0]
	punct := func(s string) bool {
		return s == "(" || s == ")" || s == "," || s == "[" || s == "]" || s == "{" || s == "}" || s == ":" || s == "."
	}
	if punct(a) && !wordyDigit(a, b) || punct(b) && !wordyDigit(a, b) {
		must = false
	}
	// ".5", "5.", "x.5" would lex differently
	if (a == "." && fb >= '0' && fb <= '9') || (b == "." && la >= '0' && la <= '9' && a[0] >= '0' && a[0] <= '9') {
		must = true
	}
	if fb == '-' && !punct(a) {
		must = true
	}
	if p.R == nil {
		if !must {
			if a == "," || a == "{" || b == "{" || b == "}" {
				return " "
			}
			return ""
		}
		return " "
	}
	ws := func() string {
		switch p.R.Intn(7) {
		case 0:
			return "\n"
		case 1:
			return "\t"
		case 2:
			return "  "
		case 3:
			return "\r\n"
		}
		return " "
	}
	out := ""
	if must || p.R.Intn(3) == 0 {
		out = ws()
	}
	if p.Comments && p.R.Intn(6) == 0 {
		switch p.R.Intn(3) {
		case 0:
			out += ws() + "/* c" + []string{"", "omment", " SELECT * ", "\n*\n", " 'x' \"y\" -- "}[p.R.Intn(5)] + " */" + ws()
		case 1:
			out += "\n-- line" + []string{"", " SELECT 'x", " /* ", " \"q"}[p.R.Intn(4)] + "\n"
		case 2:
			out += "\n// line" + []string{"", " SELECT 'x", " /* ", " \"q"}[p.R.Intn(4)] + "\n"
		}
	}
	return out
}

func wordyDigit(a, b string) bool { return false }

func (p *Printer) caseOf(t string) string {
	if p.R == nil {
		return t
	}
	if keywords[t] || t == "GROUP BY" || t == "ORDER BY" {
		switch p.R.Intn(3) {
		case 0:
			t = strings.ToLower(t)
		case 1:
			t = strings.Title(strings.ToLower(t))
		}
		if strings.Contains(t, " ") {
			t = strings.Replace(t, " ", []string{" ", "  ", "\n", "\t"}[p.R.Intn(4)], 1)
		}
	}
	return t
}

func ExprText(e Expr) string {
	p := &Printer{}
	p.expr(e, 1)
	return p.text()
}

func SelText(s *Select) string {
	p := &Printer{}
	p.sel(s)
	return p.text()
}

func StmtText(s *Stmt) string {
	p := &Printer{}
	p.stmt(s)
	return p.text()
}

func StmtsText(ss []*Stmt) string {
	var out []string
	for _, s := range ss {
		out = append(out, StmtText(s))
	}
	return strings.Join(out, "\n")
}
