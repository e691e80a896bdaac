package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"regexp"
	"strings"
	"time"
	"unsafe"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/reformat"
	"www.velocidex.com/golang/vfilter/types"
)

// C17: nothing a query says and no value a host supplies may crash the process.

func init() {
	register(&Property{ID: "C17",
		Rule: "parse: byte strings (random, token soup, mutated and deeply nested queries) go through every parser; nil error comes with statements, an error with none, nothing panics. eval: whatever of it parses is evaluated, formatted, tokenized, outlined and inspected with hostile variables and tables. values/rows/args: every operator, access form, clause, built-in function and plugin (enumerated through the library's own description of itself) is applied to every pair of hostile Go values. A panic in any goroutine kills the crash-isolated child and is reported with the journalled case; afterwards the scope must still evaluate 1 + 1 and hold its variables. Non-trivial: distinct texts that parsed, distinct (form, value) pairs.",
		Assume: []string{"host values do not contain themselves (Go's own formatting does not survive those)",
			"definitions that refer to themselves are left to C16", "reformatting is exercised on up to 8 levels of nesting"},
		Groups: []Group{
			{"parse", 4000, 100000, c17parse},
			{"nesting", len(nestForms) * 3, len(nestForms) * 5, c17nesting},
			{"eval", 6000, 120000, c17eval},
			{"values", len(valueForms), len(valueForms), c17values},
			{"unary", len(unaryForms), len(unaryForms), c17unary},
			{"args", 60, 60, c17args},
			{"rows", len(rowForms), len(rowForms), c17rows},
			{"describe", 4, 40, c17describe},
		}})
}

// ---------------------------------------------------------------- hostile values

type hostileStruct struct {
	A      int
	B      string `json:"bee"`
	C      *int
	hidden int
	D      interface{}
	E      []string
	F      func()
	G      chan int
	H      map[string]int
	I      error
	J      time.Time
}

type embedded struct {
	hostileStruct
	*nilInner
	X int
}

// an embedded pointer that is nil: its promoted fields and methods fault
type nilInner struct{ P, Q int }

func (n *nilInner) Inner() int { return n.P }

func (h hostileStruct) Method() string      { return "m" }
func (h *hostileStruct) PMethod() int       { return h.A }
func (h hostileStruct) WithArg(x int) int   { return x }
func (h hostileStruct) Two() (int, error)   { return 1, errors.New("x") }
func (h *hostileStruct) Nothing()           {}
func (h hostileStruct) List() []interface{} { return []interface{}{1, nil} }

type myInt int
type myString string
type myList []string
type myMap map[string]interface{}
type myBool bool
type stringer struct{ s string }

func (s stringer) String() string { return s.s }

type marshalErr struct{}

func (marshalErr) MarshalJSON() ([]byte, error) { return nil, errors.New("cannot") }

type hostile struct {
	name string
	v    types.Any
}

func hostiles() []hostile {
	one := 1
	var nilInt *int
	var nilStruct *hostileStruct
	var nilDict *ordereddict.Dict
	var nilErr error
	var nilList []interface{}
	var nilMap map[string]interface{}
	var nilFunc func()
	var nilChan chan int
	d := ordereddict.NewDict().Set("a", int64(1)).Set("b", nil).Set("", "empty").Set("q`x", []interface{}{nil, 1}).Set("A", math.NaN())
	s := hostileStruct{A: 5, B: "b", C: &one, D: nilDict, E: []string{"x"}, G: make(chan int), H: map[string]int{"x": 1}}
	pp := &s
	deep := interface{}("bottom")
	for i := 0; i < 60; i++ {
		if i%2 == 0 {
			deep = []interface{}{deep}
		} else {
			deep = ordereddict.NewDict().Set("a", deep)
		}
	}
	return []hostile{
		{"nil", nil}, {"Null", types.Null{}}, {"*Null", &types.Null{}}, {"true", true}, {"int", 3}, {"int8", int8(-3)}, {"int64 min", int64(math.MinInt64)}, {"int64 max", int64(math.MaxInt64)},
		{"uint64 max", uint64(math.MaxUint64)}, {"uint8", uint8(200)}, {"uint", uint(7)}, {"uintptr", uintptr(9)}, {"float", 1.5}, {"float32", float32(2.5)}, {"NaN", math.NaN()}, {"Inf", math.Inf(1)}, {"-Inf", math.Inf(-1)}, {"1e300", 1e300}, {"complex", complex(1, 2)},
		{"rune", 'x'}, {"empty string", ""}, {"string", "a"}, {"bad utf8", "\xff\xfe\x00a"}, {"percent", "%d %s %v %!"}, {"regex", "(["}, {"dot", "a.b.c"}, {"long", strings.Repeat("x", 5000)},
		{"bytes", []byte{0, 255, 'a'}}, {"[0]", []interface{}{}}, {"list", []interface{}{nil, 1, "a", types.Null{}, []interface{}{2.5}}}, {"strings", []string{"b", "a"}}, {"ints", []int{1, 2}}, {"array", [3]int{1, 2, 3}}, {"*array", &[2]string{"x", "y"}},
		{"ptr to list", &[]string{"p"}}, {"list of nil", []interface{}{nil, nil}}, {"list of lists", [][]int{{1}, nil}}, {"list of funcs", []interface{}{func() {}, make(chan int)}}, {"list of dicts", []interface{}{d, nil, nilDict, 5}}, {"rows", []types.Row{d, nil}},
		{"nil list", nilList}, {"map", map[string]interface{}{"a": nil, "b": 1}}, {"map int", map[int]string{1: "x"}}, {"map any", map[interface{}]interface{}{1: 2, "a": nil}}, {"nil map", nilMap},
		{"dict", d}, {"empty dict", ordereddict.NewDict()}, {"nil dict", nilDict}, {"struct", s}, {"*struct", &s}, {"**struct", &pp}, {"nil *struct", nilStruct}, {"embedded", embedded{hostileStruct: s, X: 1}}, {"anonymous", struct{ a, B int }{1, 2}}, {"empty struct", struct{}{}},
		{"nil *int", nilInt}, {"*int", &one}, {"func", func() {}}, {"func() Any", func() types.Any { return 5 }}, {"func() nil", func() types.Any { return nil }}, {"nil func", nilFunc}, {"func(int)", func(x int) int { return x }}, {"chan", make(chan int)}, {"nil chan", nilChan},
		{"error", errors.New("e")}, {"nil error", nilErr}, {"time", time.Unix(1600000000, 5)}, {"*time", &time.Time{}}, {"duration", time.Second}, {"month", time.March}, {"myInt", myInt(4)}, {"myString", myString("s")}, {"myList", myList{"a"}}, {"myMap", myMap{"a": 1}}, {"myBool", myBool(true)},
		{"stringer", stringer{"st"}}, {"marshalErr", marshalErr{}}, {"regexp", regexp.MustCompile("a")}, {"unsafe", unsafe.Pointer(&one)}, {"json", json.RawMessage(`{"a":1}`)}, {"json number", json.Number("12")}, {"deep", deep}, {"logger", log.New(io.Discard, "", 0)},
		{"context", context.Background()}, {"scope", vfilter.NewScope()}, {"huge uint", uint64(1) << 63},
	}
}

// the scope outlives the case: whatever happened it still works
func (c *Case) alive(e *Engine, vars map[string]types.Any) {
	got := []string{}
	for r := range aliveQuery.Eval(context.Background(), e.Scope) {
		got = append(got, canonRow(context.Background(), e.Scope, r))
	}
	if len(got) != 1 || got[0] != `{"x": i:2, "k": i:7}` {
		c.Fail("afterwards the scope gives %.300q for 1 + 1", got)
	}
	c.Count("scopes_checked_afterwards", 1)
}

var aliveQuery, _ = vfilter.Parse("SELECT 1 + 1 AS x, K AS k FROM one()")

// consume runs a statement to the end and everything that is done with its rows
func consume(c *Case, e *Engine, vql *vfilter.VQL, scope types.Scope, limit time.Duration) int {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	n := 0
	for r := range vql.Eval(ctx, scope) {
		n++
		if n > 300 {
			cancel()
			continue
		}
		d := vfilter.RowToDict(ctx, scope, r)
		_, _ = json.Marshal(d)
		_ = scope.GetMembers(r)
		if n < 20 {
			for _, k := range d.Keys() {
				v, _ := d.Get(k)
				_ = scope.Bool(v)
				_ = fmt.Sprintf("%v %#v", r, d)
			}
		}
	}
	return n
}

func hostileEngine() *Engine {
	h := NewHost()
	h.Tables["one"] = []V{NewD().Set("z_", int64(1))}
	h.Tables["t1"] = []V{NewD().Set("a", int64(1)).Set("b", "x"), NewD().Set("a", int64(2)).Set("b", "y"), NewD().Set("a", nil)}
	h.Vars.Set("K", int64(7))
	return NewEngine(h)
}

// ---------------------------------------------------------------- parse

var soup = strings.Fields("SELECT FROM WHERE LET AND OR NOT IN AS LIMIT NULL DESC EXPLAIN TRUE FALSE select from Let GROUP ORDER BY ( ) [ ] { } , . : = <= >= < > != =~ => <> + - * / % | || && ' \" ` ''' -- // /* */ 0 1 -1 1.5 .5 1e9 1e999 0x1f 0xffffffffffffffffff 99999999999999999999 007 08 a b foo `a b` `` 'x' \"y\" '''z''' '\\x4' '\\u12' '\\' \\ # $ @ ! ~ ^ & ; ? é 日 \x00 \xff -a -`b` _value count() dict(a=1) scope() foo.bar a[0] a[1:2] {SELECT 1 FROM one()} (1,2) x=>x")

func init() {
	soup = append(soup, "GROUP BY", "ORDER BY", "\n", "\t", "\r\n", " ", "-- c\n", "/* m */", "//\n", "LET x = ", "LET f(a, b=2) = ", "SELECT * FROM ", "FROM one()", "$Query")
}

var tokenRe = regexp.MustCompile("(?s)'''.*?'''|'(?:[^'\\\\]|\\\\.)*'|\"(?:[^\"\\\\]|\\\\.)*\"|`[^`]*`|[A-Za-z_][A-Za-z_0-9]*|\\d+(?:\\.\\d+)?|=~|<=|>=|!=|=>|\\s+|.")

func (c *Case) mutate(text string, pool []string) string {
	toks := tokenRe.FindAllString(text, -1)
	for k := 1 + c.R.Intn(4); k > 0 && len(toks) > 0; k-- {
		i, j := c.R.Intn(len(toks)), c.R.Intn(len(toks))
		if strings.TrimSpace(toks[i]) == "" {
			i = c.R.Intn(len(toks))
		}
		switch c.R.Intn(7) {
		case 0:
			toks = append(toks[:i:i], toks[i+1:]...)
		case 1:
			toks[i], toks[j] = toks[j], toks[i]
		case 2, 3:
			toks[i] = pool[c.R.Intn(len(pool))]
		case 4:
			toks[i] = toks[i] + " " + pool[c.R.Intn(len(pool))]
		case 5: // a run of tokens again somewhere else
			if i > j {
				i, j = j, i
			}
			if j-i < 40 {
				run := append([]string{" "}, toks[i:j]...)
				k := c.R.Intn(len(toks))
				toks = append(toks[:k:k], append(run, toks[k:]...)...)
			}
		case 6:
			toks[i] = toks[j]
		}
	}
	return strings.Join(toks, "")
}

func (c *Case) corpus() string {
	g, _ := stdGen(c)
	g.Unknown = g.one(4)
	g.Workers = g.one(4)
	g.Wild = g.one(3)
	var stmts []*Stmt
	switch c.R.Intn(6) {
	case 0:
		stmts = c.reuseStmts(g)
	case 1:
		stmts = []*Stmt{{Q: g.groupQuery(false)}}
	default:
		stmts = c.anyStmts(g)
	}
	if c.R.Intn(3) == 0 {
		g2 := g.withColumns()
		stmts = append([]*Stmt{{Let: "Fn", Op: "=", Params: []Param{{Name: "p"}, {Name: "my par", Def: &Arg{Name: "my par", E: g.Expr("any", 1)}}}, E: g2.Expr("any", 2)}}, stmts...)
	}
	var b strings.Builder
	for i, s := range stmts {
		if i > 0 {
			b.WriteString("\n")
		}
		p := &Printer{R: c.R, Comments: c.R.Intn(2) == 0}
		p.stmt(s)
		b.WriteString(p.text())
	}
	return b.String()
}

// parseAll hands the text to every parser.
func (c *Case) parseAll(text string) []*vfilter.VQL {
	one, err := vfilter.Parse(text)
	if err == nil && one == nil {
		c.Fail("Parse(%q) gives neither a statement nor an error", text)
	}
	m, err := vfilter.MultiParse(text)
	if err == nil && len(m) == 0 {
		c.Fail("MultiParse(%q) gives neither statements nor an error", text)
	}
	if err != nil && len(m) > 0 {
		c.Fail("MultiParse(%q) gives %d statements and the error %v", text, len(m), err)
	}
	if err != nil && err.Error() == "" {
		c.Fail("MultiParse(%q) gives an empty error", text)
	}
	for _, v := range m {
		if v == nil {
			c.Fail("MultiParse(%q) gives a nil statement", text)
		}
	}
	mc, err := vfilter.MultiParseWithComments(text)
	if err == nil && len(mc) == 0 {
		c.Fail("MultiParseWithComments(%q) gives neither statements nor an error", text)
	}
	l, err := vfilter.ParseLambda(text)
	if err == nil && l == nil {
		c.Fail("ParseLambda(%q) gives neither a lambda nor an error", text)
	}
	_, _ = vfilter.Tokenize(text)
	if err == nil {
		s := vfilter.NewScope()
		_ = vfilter.FormatToString(s, l)
		_ = l.GetParameters()
		c.Count("lambdas_parsed", 1)
		s.Close()
	}
	c.Eval(1)
	return m
}

// describeAll formats and inspects parsed statements in every way there is.
func (c *Case) describeAll(text string, vqls []*vfilter.VQL, scope types.Scope, pretty bool) {
	for _, v := range vqls {
		_ = vfilter.FormatToString(scope, v)
		_ = vfilter.Outline(v)
		_ = v.Type()
		opts := []vfilter.FormatOptions{vfilter.ToStringOptions, vfilter.CollectCallSites, vfilter.CollectComments, vfilter.CollectDefinitionSites, vfilter.CollectAllInfo}
		if pretty {
			opts = append(opts, vfilter.DefaultFormatOptions, vfilter.FormatOptions{BreakLines: true, MaxWidthThreshold: c.R.Intn(100), IndentWidthThreshold: c.R.Intn(60)})
		}
		for _, o := range opts {
			vis := vfilter.NewVisitor(scope, o)
			vis.Visit(v)
			_ = vis.ToString()
		}
		c.Count("statements_described", 1)
	}
	if pretty {
		_, _ = reformat.ReFormatVQL(scope, text, vfilter.DefaultFormatOptions)
		_, _ = reformat.ReFormatVQL(scope, text, vfilter.ToStringOptions)
	}
}

func c17parse(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	for k := 0; k < 12; k++ {
		var text string
		switch c.R.Intn(7) {
		case 0: // bytes
			b := make([]byte, c.R.Intn(60))
			for i := range b {
				b[i] = byte(c.R.Intn(256))
			}
			text = string(b)
		case 1, 2: // token soup
			var b strings.Builder
			for n := c.R.Intn(30); n > 0; n-- {
				b.WriteString(soup[c.R.Intn(len(soup))])
				if c.R.Intn(3) > 0 {
					b.WriteString(" ")
				}
			}
			text = b.String()
		case 3: // truncated
			text = c.corpus()
			text = text[:c.R.Intn(len(text)+1)]
		case 4: // bytes flipped
			b := []byte(c.corpus())
			for n := 1 + c.R.Intn(4); n > 0 && len(b) > 0; n-- {
				b[c.R.Intn(len(b))] = byte(c.R.Intn(256))
			}
			text = string(b)
		case 5: // runs of one thing
			t := soup[c.R.Intn(len(soup))]
			text = []string{"", "SELECT ", "LET x = ", "SELECT * FROM one() WHERE "}[c.R.Intn(4)] + strings.Repeat(t, 1+c.R.Intn(300))
		default:
			text = c.mutate(c.corpus(), soup)
		}
		c.desc = ""
		c.Desc("parse %q", text)
		m := c.parseAll(text)
		if len(m) > 0 {
			c.describeAll(text, m, scope, len(text) < 1500 && nestingOf(text) <= 40)
			c.Seen(text)
			c.Count("texts_that_parse", 1)
		} else {
			c.Count("texts_refused", 1)
		}
		if k == 0 {
			c.Sample("%q: %d statements", text, len(m))
		}
	}
}

func nestingOf(text string) int {
	d, m := 0, 0
	for _, r := range text {
		switch r {
		case '(', '[', '{':
			d++
			m = max(m, d)
		case ')', ']', '}':
			d--
		}
	}
	return m
}

// ---------------------------------------------------------------- nesting

var nestForms = []struct {
	pre, open, mid, close, post string
}{
	{"SELECT ", "(", "1", ")", " AS x FROM one()"},
	{"SELECT ", "NOT ", "1", "", " AS x FROM one()"},
	{"", "SELECT { ", "SELECT 1 AS x FROM one()", " } AS x FROM one()", ""},
	{"SELECT ", "dict(a=", "1", ")", " AS x FROM one()"},
	{"SELECT dict(a=", "[", "1", "]", ") AS x FROM one()"},
	{"SELECT ", "[", "1", "]", " AS x FROM one()"},
	{"SELECT ", "if(condition=1, then=", "1", ")", " AS x FROM one()"},
	{"", "SELECT * FROM foreach(row={SELECT * FROM one()}, query={ ", "SELECT 1 AS x FROM one()", " })", ""},
	{"", "SELECT * FROM chain(a={ ", "SELECT 1 AS x FROM one()", " })", ""},
	{"SELECT * FROM one() WHERE ", "(1 = ", "1", ")", ""},
	{"SELECT ", "(1 + 2 * ", "1", ")", " AS x FROM one()"},
	{"SELECT ", "(1 IN (1, ", "1", "))", " AS x FROM one()"},
	{"SELECT dict(a=1).a", "[1]", "", "", " AS x FROM one()"},
	{"SELECT dict(a=1)", ".a", "", "", " AS x FROM one()"},
	{"SELECT 1", " + 1", "", "", " AS x FROM one()"},
	{"SELECT 1", " * 1", "", "", " AS x FROM one()"},
	{"SELECT 1", " AND 1", "", "", " AS x FROM one()"},
	{"SELECT 0", " OR 0", "", "", " AS x FROM one()"},
	{"SELECT (1", ", 1", "", "", ") AS x FROM one()"},
	{"SELECT 1 AS x", ", 1", "", "", " FROM one()"},
	{"SELECT dict(a=1", ", a=1", "", "", ") AS x FROM one()"},
	{"", "LET x = 1 ", "", "", "SELECT x FROM one()"},
	{"", "LET x(y) = y ", "", "", "SELECT x FROM one()"},
	{"", "-- comment\n", "", "", "SELECT 1 AS x FROM one()"},
	{"SELECT '", "\\'", "", "", "' AS x FROM one()"},
	{"SELECT ", "((((", "", "", ""},
	{"SELECT * FROM one(", "a={SELECT * FROM one(", "", "", ""},
	{"", "EXPLAIN ", "", "", "SELECT 1 AS x FROM one()"},
	{"LET f(a", ", a", "", "", ") = 1"},
	{"SELECT `", "a ", "", "", "` FROM one()"},
	{"SELECT ", "-", "1", "", " FROM one()"},
	{"SELECT ", "{", "1", "}", " FROM one()"},
	{"SELECT a", "[1:2]", "", "", " FROM one()"},
	{"SELECT a", "[a", "", "]", " FROM one()"},
}

func c17nesting(c *Case) {
	f := nestForms[c.Index%len(nestForms)]
	// evaluated, parsed only, refused
	n := []int{150, 5000, 150000, 1000, 9000}[c.Index/len(nestForms)]
	text := f.pre + strings.Repeat(f.open, n) + f.mid + strings.Repeat(f.close, n) + f.post
	c.Desc("%s %s*%d ...", f.pre, f.open, n)
	m, err := vfilter.MultiParse(text)
	c.Eval(1)
	if err == nil && len(m) == 0 {
		c.Fail("neither statements nor an error")
	}
	if n <= 10000 {
		_, _ = vfilter.MultiParseWithComments(text)
		_, _ = vfilter.Parse(text)
		_, _ = vfilter.Tokenize(text)
	}
	if c.Index%2 == 0 || n <= 10000 {
		_, _ = vfilter.ParseLambda("x=>" + strings.TrimPrefix(strings.TrimSuffix(text, f.post), f.pre))
	}
	c.Seen(fmt.Sprintf("%s%s %d", f.pre, f.open, n))
	c.Sample("%s%s... nested %d times: %d statements, error %v", f.pre, f.open, n, len(m), err != nil)
	if err != nil {
		c.Count("refused", 1)
		return
	}
	c.Count("parsed", 1)
	if n > 1000 {
		return
	}
	e := hostileEngine()
	defer e.Close()
	if n <= 200 {
		for _, v := range m {
			_ = vfilter.Outline(v)
		}
		c.describeAll("", m[:min(3, len(m))], e.Scope, false)
		for _, v := range m {
			consume(c, e, v, e.Scope, 20*time.Second)
		}
	} else if len(m) < 10 {
		_ = vfilter.FormatToString(e.Scope, m[0])
	}
	c.alive(e, nil)
}

// ---------------------------------------------------------------- eval

var letRe = regexp.MustCompile(`(?i)\blet\s+([A-Za-z_][A-Za-z_0-9]*|` + "`[^`]+`" + `)`)

// recursive: could a definition reach itself?  (Conservatively: it mentions a name defined here or later.)
func recursive(text string) bool {
	locs := letRe.FindAllStringSubmatchIndex(text, -1)
	for i, l := range locs {
		end := len(text)
		if i+1 < len(locs) {
			end = locs[i+1][0]
		}
		body := text[l[1]:end]
		for _, o := range locs[i:] {
			name := strings.Trim(text[o[2]:o[3]], "`")
			if regexp.MustCompile(`(^|[^A-Za-z0-9_])` + regexp.QuoteMeta(name) + `($|[^A-Za-z0-9_])`).MatchString(body) {
				return true
			}
		}
	}
	return false
}

var bigRe = regexp.MustCompile(`\d{6,}|[eE]\d|0x`)

func c17eval(c *Case) {
	pool := append([]string{}, soup...)
	hs := hostiles()
	e := hostileEngine()
	defer e.Close()
	vars := ordereddict.NewDict()
	for i, h := range hs {
		n := fmt.Sprintf("h%d", i)
		vars.Set(n, h.v)
		if c.R.Intn(3) == 0 {
			pool = append(pool, n, n+".a", n+"[0]")
		}
	}
	for _, n := range []string{"vi", "vj", "vf", "vs", "vl", "vd", "vb", "vn", "s1", "s2"} {
		vars.Set(n, hs[c.R.Intn(len(hs))].v)
	}
	pool = append(pool, "len(list=h3)", "probe(id='x', v=h5)", "pick(use='a', a=h1)", "allrows(query={SELECT * FROM one()})", "chain(a={SELECT * FROM t1()})", "foreach(row=t1, query={SELECT * FROM one()})", "flatten(query={SELECT * FROM t1()})", "range(start=1, end=3)", "if(condition=h2, then=h3)", "format(format='%v', args=h4)", "enumerate(items=a)", "max(item=a)", "sum(item=a)", "a", "b", "GROUP BY a", "ORDER BY a", "LIMIT 1", "WHERE a")
	e.Scope.AppendVars(vars)
	mode := instruments(c, e)
	for k := 0; k < 8; k++ {
		text := c.mutate(c.corpus(), pool)
		if c.R.Intn(4) == 0 {
			text = c.mutate(text, pool)
		}
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			c.Count("mutants_refused", 1)
			continue
		}
		if recursive(text) || bigRe.MatchString(text) && strings.Contains(text, "range") {
			c.Count("mutants_skipped", 1)
			continue
		}
		c.desc = ""
		c.Desc("[%s] %s", mode, text)
		s := e.Scope.Copy()
		for _, v := range vqls {
			c.Count("rows", consume(c, e, v, s, 3*time.Second))
			c.Count("statements_evaluated", 1)
			c.Eval(1)
		}
		s.Close()
		c.Seen(text)
		c.Sample("%s", text)
	}
	c.alive(e, nil)
}

// ---------------------------------------------------------------- values

var valueForms = []string{"x + y", "x - y", "x * y", "x / y", "x = y", "x != y", "x < y", "x <= y", "x > y", "x >= y", "x IN y", "x =~ y", "x AND y", "x OR y", "x && y", "x || y", "x[y]", "x[y:y]", "x[0:y]", "x[y:]", "(x, y)", "(x, y) + x", "x IN (y, x)",
	"get(item=x, member=y)", "get(item=x, field=y)", "get(item=x, field='a', default=y)", "dict(a=x, b=y).a", "if(condition=x, then=y, else=x)", "format(format=x, args=y)", "format(format='%v %d %s', args=[x, y])", "format(format='%v', args=y)",
	"split(string=x, sep=y)", "split(string=x, sep_string=y)", "encode(string=x, type=y)", "timestamp(epoch=x, winfiletime=y)", "timestamp(string=x, format=y)", "x.a[y]", "(x, y)[0]", "NOT x = y", "x + y + x", "x * y * x", "max(item=x)", "x < y OR y < x"}

// a pair of values bound to x and y for one compiled query
func c17values(c *Case) {
	form := valueForms[c.Index]
	hs := hostiles()
	e := hostileEngine()
	defer e.Close()
	vql, err := vfilter.Parse("SELECT " + form + " AS v FROM one()")
	if err != nil {
		c.Count("forms_that_do_not_parse", 1)
		c.Seen(form)
		return
	}
	lazy, _ := vfilter.MultiParse("LET lx = probe(id='x', v=x) LET ly = probe(id='y', v=y) SELECT " + strings.NewReplacer("x ", "lx ", "y ", "ly ", "x.", "lx.", "[y", "[ly").Replace(form+" ") + " AS v FROM one()")
	for i, a := range hs {
		for j, b := range hs {
			c.desc = ""
			c.Desc("%s with x = %s, y = %s", form, a.name, b.name)
			s := e.Scope.Copy()
			s.AppendVars(ordereddict.NewDict().Set("x", a.v).Set("y", b.v))
			rows := consume(c, e, vql, s, 20*time.Second)
			if rows != 1 {
				c.Fail("%d rows", rows)
			}
			c.Eval(1)
			if (i*31+j)%7 == 0 {
				for _, v := range lazy {
					consume(c, e, v, s, 20*time.Second)
				}
				c.Eval(1)
			}
			s.Close()
		}
		c.Seen(form + a.name)
		e.Logs = nil
	}
	c.Count("value_pairs", len(hs)*len(hs))
	c.Sample("%s on %d pairs of values", form, len(hs)*len(hs))
	c.alive(e, nil)
}

var unaryForms = []string{"SELECT x AS v FROM one()", "SELECT -x AS v FROM one()", "SELECT NOT x AS v FROM one()", "SELECT x.a AS v, x.A AS w, x.bee AS z, x.hidden AS h, x.Method AS m, x.PMethod AS p, x.WithArg AS q, x.Two AS t, x.Nothing AS n, x.List AS l, x.F AS f, x.`q``x` AS u FROM one()",
	"SELECT x.Method.a.b AS v, x.List[0] AS w, x.D.a AS d, x.E[0] AS e, x.H.x AS h FROM one()", "SELECT x.a.b.c[0].d AS v FROM one()",
	"SELECT x[0] AS v, x[-1] AS w, x[9223372036854775807] AS z, x[-9223372036854775808] AS y FROM one()", "SELECT x[0:1] AS v, x[:] AS w, x[-5:] AS z, x[:99999999999] AS y, x[5:1] AS u FROM one()", "SELECT x['a'] AS v, x[1.5] AS w, x[NULL] AS z FROM one()",
	"SELECT x * 3 AS v, x * -1 AS w, 'ab' * x AS z, x * 9223372036854775807 AS y FROM one()", "SELECT x + 1 AS v, 1 - x AS w, x / 0 AS z, x + 'a' AS y, x + (1, 2) AS u FROM one()", "SELECT x() AS v FROM one()", "SELECT x(a=1) AS v FROM one()", "SELECT x.a(b=1) AS v FROM one()", "SELECT x.Method() AS v FROM one()",
	"SELECT * FROM x", "SELECT * FROM x()", "SELECT * FROM x(a=1)", "SELECT * FROM x.a", "SELECT *, a, b FROM x WHERE a OR b", "SELECT * FROM x LIMIT 1", "SELECT a, count() AS n FROM x GROUP BY a", "SELECT * FROM x ORDER BY a DESC",
	"SELECT * FROM t1() WHERE x", "SELECT a, count() AS n, sum(item=x) AS s, max(item=x) AS mx, min(item=x) AS mn, enumerate(items=x) AS en FROM t1() GROUP BY x", "SELECT a, x AS k FROM t1() ORDER BY k", "SELECT a, x AS k FROM t1() ORDER BY k DESC", "SELECT if(condition=a = 1, then=x, else=a) AS k FROM t1() ORDER BY k", "SELECT if(condition=a = 1, then=x, else=b) AS k, max(item=a) AS m FROM t1() GROUP BY k",
	"SELECT max(item=if(condition=a = 1, then=x, else=a)) AS k, min(item=if(condition=a = 2, then=x, else=a)) AS m, sum(item=if(condition=a = 2, then=x, else=a)) AS s FROM t1() GROUP BY 1",
	"SELECT * FROM foreach(row=x, query={ SELECT a, _value FROM one() })", "SELECT * FROM foreach(row=x)", "SELECT * FROM foreach(row=x, column='a')", "SELECT * FROM foreach(row=x, column=x)", "SELECT * FROM foreach(row={SELECT * FROM t1()}, query=x)", "SELECT * FROM foreach(row={SELECT * FROM t1()}, workers=if(condition=x = 3, then=x, else=0), query={SELECT a FROM one()})", "SELECT * FROM foreach(row={SELECT * FROM t1()}, async=x, query={SELECT a FROM one()})",
	"SELECT * FROM chain(a=x, b=x)", "SELECT * FROM chain(a=x, async=x)", "SELECT * FROM flatten(query={SELECT x AS l, 1 AS m FROM one()})", "SELECT * FROM flatten(query=x)", "SELECT * FROM range(start=x, end=5) LIMIT 10", "SELECT * FROM range(start=1, end=x) LIMIT 10", "SELECT * FROM range(start=1, end=5, step=x) LIMIT 10", "SELECT * FROM range(end=x, step=-1) LIMIT 10",
	"SELECT * FROM if(condition=x, then={SELECT 1 FROM one()}, else={SELECT 2 FROM one()})", "SELECT * FROM if(condition=1, then=x)", "LET m <= x SELECT m, m.a, m[0] FROM one()", "LET m <= SELECT x AS v FROM one() SELECT m, m.v, m[0].v.a FROM m", "LET m = SELECT x AS v FROM one() SELECT m, m.v, m[0].v.a FROM m", "LET m(p) = SELECT p FROM one() SELECT m(p=x) AS v FROM m(p=x)", "LET f(p=x) = p SELECT f() AS v FROM one()",
	"SELECT len(list=x) AS v FROM one()", "SELECT format(format=x) AS v, format(format='%s', args=[x, x]) AS w, format(format='%05d|%x|%q|%e|%T|%p|%c', args=[x, x, x, x, x, x, x]) AS z FROM one()", "SELECT encode(string=x, type='base64') AS v, encode(string=x, type='hex') AS w, encode(string=x, type='utf16') AS z FROM one()",
	"SELECT allrows(query=x) AS v FROM one()", "SELECT x =~ 'a' AS v, 'a' =~ x AS w, x IN x AS z, x = x AS y, x < x AS u, x AND x AS t FROM one()", "EXPLAIN SELECT x AS v FROM one() WHERE x", "SELECT scope().x AS v FROM one()", "SELECT * FROM scope() WHERE x", "SELECT dict(`a b`=x, a=dict(b=x)) AS v FROM one()", "SELECT { SELECT x AS y FROM one() } AS v FROM one()", "SELECT { SELECT x AS y, 1 FROM t1() } AS v FROM one()", "LET l = x SELECT l, l.a, l[0], l + 1, l = l, { SELECT l FROM one() } FROM one()",
	"SELECT timestamp(epoch=x) AS v, timestamp(winfiletime=x) AS w, timestamp(string=x) AS z FROM one()", "SELECT count(items=x) AS v, enumerate(items=x) AS e FROM one()"}

func c17unary(c *Case) {
	text := unaryForms[c.Index]
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Count("forms_that_do_not_parse", 1)
		c.Seen(text)
		return
	}
	e := hostileEngine()
	defer e.Close()
	for _, h := range hostiles() {
		for kind := 0; kind < 3; kind++ {
			c.desc = ""
			c.Desc("%s with x = %s (kind %d)", text, h.name, kind)
			s := e.Scope.Copy()
			v := h.v
			switch kind {
			case 0:
				s.AppendVars(ordereddict.NewDict().Set("x", v))
			case 1:
				s.AppendVars(map[string]interface{}{"x": v})
			case 2:
				s.AppendFunctions() // as a member of a struct
				s.AppendVars(struct{ x, X interface{} }{nil, v}).AppendVars(ordereddict.NewDict().Set("x", []interface{}{v, v}))
			}
			for _, vql := range vqls {
				c.Count("rows", consume(c, e, vql, s, 20*time.Second))
			}
			c.Eval(1)
			s.Close()
		}
		c.Seen(text + h.name)
		e.Logs = nil
	}
	c.Sample("%s on every value", text)
	c.alive(e, nil)
}

// ---------------------------------------------------------------- args

// every registered function and plugin, every declared argument and some undeclared ones
func c17args(c *Case) {
	e := hostileEngine()
	defer e.Close()
	tm := types.NewTypeMap()
	d := e.Scope.Describe(tm)
	type target struct {
		name   string
		plugin bool
		args   []string
	}
	var ts []target
	argsOf := func(t string) []string {
		if desc, ok := tm.Get(e.Scope, t); ok && desc != nil && desc.Fields != nil {
			return desc.Fields.Keys()
		}
		return nil
	}
	for _, f := range d.Functions {
		ts = append(ts, target{f.Name, false, argsOf(f.ArgType)})
	}
	for _, p := range d.Plugins {
		ts = append(ts, target{p.Name, true, argsOf(p.ArgType)})
	}
	if c.Index >= len(ts) {
		c.Seen(fmt.Sprint(c.Index))
		return
	}
	t := ts[c.Index]
	c.Count("callables", 1)
	names := append(append([]string{}, t.args...), "nosuch", "a", "`q x`")
	hs := hostiles()
	run := func(text string, x, y hostile) {
		vql, err := vfilter.Parse(text)
		if err != nil {
			c.Fail("%s: %v", text, err)
			return
		}
		c.desc = ""
		c.Desc("%s with x = %s, y = %s", text, x.name, y.name)
		s := e.Scope.Copy()
		s.AppendVars(ordereddict.NewDict().Set("x", x.v).Set("y", y.v))
		consume(c, e, vql, s, 20*time.Second)
		c.Eval(1)
		s.Close()
		c.Seen(text + x.name)
	}
	use := func(args string) string {
		if t.plugin {
			return "SELECT * FROM " + t.name + "(" + args + ") LIMIT 30"
		}
		return "SELECT " + t.name + "(" + args + ") AS v FROM t1()"
	}
	run(use(""), hs[0], hs[0])
	run("SELECT "+t.name+" AS v FROM one()", hs[0], hs[0])
	run("SELECT * FROM "+t.name, hs[0], hs[0])
	for _, n := range names {
		for _, h := range hs {
			run(use(n+"=x"), h, h)
			for _, m := range names {
				if m != n && c.R.Intn(6) == 0 {
					y := hs[c.R.Intn(len(hs))]
					run(use(n+"=x, "+m+"=y"), h, y)
				}
			}
			if c.R.Intn(4) == 0 {
				all := []string{}
				for _, m := range t.args {
					all = append(all, m+"="+[]string{"x", "y", "NULL", "{SELECT x, y FROM one()}", "[x, y]", "'s'", "3"}[c.R.Intn(7)])
				}
				run(use(strings.Join(all, ", ")), h, hs[c.R.Intn(len(hs))])
			}
		}
		run(use(n+"={ SELECT * FROM t1() }"), hs[0], hs[0])
		run(use(n+"=[]"), hs[0], hs[0])
		e.Logs = nil
	}
	c.Count("arguments", len(names))
	c.Sample("%s(%s): plugin %v", t.name, strings.Join(t.args, ", "), t.plugin)
	c.alive(e, nil)
}

// ---------------------------------------------------------------- rows

var rowForms = []string{"SELECT * FROM src()", "SELECT *, a, _value FROM src() WHERE a", "SELECT a, count() AS n, max(item=a) AS m FROM src() GROUP BY a", "SELECT * FROM src() ORDER BY a", "SELECT a, b FROM src() ORDER BY b DESC LIMIT 3", "SELECT * FROM foreach(row={SELECT * FROM src()}, query={SELECT a, _value FROM one()})",
	"SELECT * FROM foreach(row=src, query={SELECT * FROM one()})", "SELECT * FROM foreach(row={SELECT * FROM one()}, query={SELECT * FROM src()})", "SELECT * FROM flatten(query={SELECT * FROM src()})", "SELECT { SELECT * FROM src() } AS v FROM one()", "LET m <= SELECT * FROM src() SELECT m.a, m[0], m[5].a, m FROM m", "LET q = SELECT * FROM src() SELECT q.a, q[0], { SELECT * FROM q } FROM q", "SELECT len(list=allrows(query={SELECT * FROM src()})) FROM one()", "EXPLAIN SELECT * FROM src() WHERE a",
	"SELECT * FROM chain(a={SELECT * FROM src()}, b={SELECT a FROM src()})", "SELECT * FROM foreach(row={SELECT * FROM src()}, workers=3, query={SELECT * FROM one()})", "SELECT *, *, a AS b, * FROM src()", "SELECT * FROM if(condition={SELECT * FROM src()}, then={SELECT * FROM src()})", "SELECT enumerate(items=a) AS e, sum(item=a) AS s FROM src() GROUP BY b", "SELECT * FROM src LIMIT 2", "SELECT * FROM src() WHERE a IN (1, b) AND a =~ b OR a + b > a", "SELECT a.b.c, a[0], a[0:1], -a FROM src()"}

func c17rows(c *Case) {
	text := rowForms[c.Index]
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	hs := hostiles()
	for i := -1; i < len(hs); i++ {
		e := hostileEngine()
		rows := []types.Row{}
		if i < 0 {
			for _, h := range hs {
				rows = append(rows, h.v)
			}
		} else {
			h := hs[i]
			rows = append(rows, h.v, ordereddict.NewDict().Set("a", h.v).Set("b", hs[c.R.Intn(len(hs))].v), map[string]interface{}{"a": h.v}, struct{ A, B interface{} }{h.v, nil}, h.v,
				vfilter.NewLazyRow(context.Background(), e.Scope).AddColumn("a", func(ctx context.Context, scope types.Scope) types.Any { return h.v }))
		}
		name := "all"
		if i >= 0 {
			name = hs[i].name
		}
		c.desc = ""
		c.Desc("%s with rows of %s", text, name)
		e.Scope.AppendPlugins(&tablePlugin{name: "src", f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
			out := make(chan types.Row)
			go func() {
				defer close(out)
				for _, r := range rows {
					select {
					case <-ctx.Done():
						return
					case out <- r:
					}
				}
			}()
			return out
		}})
		if i%3 == 0 {
			e.Scope.SetExplainer(explain.NewLoggingExplainer(e.Scope))
			e.Scope.EnableExplain()
		}
		for _, v := range vqls {
			c.Count("rows", consume(c, e, v, e.Scope, 20*time.Second))
			ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
			for p := range vfilter.GetResponseChannel(v, ctx, e.Scope, jsonRows, 2, 1) {
				_ = p.Payload
			}
			_, _ = vfilter.OutputJSON(v, ctx, e.Scope, jsonRows)
			cancel()
		}
		c.Eval(1)
		c.Seen(text + name)
		c.alive(e, nil)
		e.Close()
	}
	c.Sample("%s over rows of every kind", text)
}

func c17describe(c *Case) {
	e := hostileEngine()
	defer e.Close()
	tm := types.NewTypeMap()
	d := e.Scope.Describe(tm)
	if len(d.Functions) == 0 || len(d.Plugins) == 0 {
		c.Fail("nothing described")
	}
	for _, h := range hostiles() {
		c.desc = ""
		c.Desc("describe and print %s", h.name)
		tm.AddType(e.Scope, h.v)
		s := e.Scope.Copy()
		s.AppendVars(ordereddict.NewDict().Set("x", h.v))
		_ = s.PrintVars()
		_ = s.GetMembers(h.v)
		_ = s.Bool(h.v)
		s.Close()
		c.Eval(1)
		c.Seen(h.name)
	}
	c.Count("functions_described", len(d.Functions))
	c.Count("plugins_described", len(d.Plugins))
	c.Sample("%d functions, %d plugins", len(d.Functions), len(d.Plugins))
	c.alive(e, nil)
}
