package main

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"sync"
	"time"
	"unicode/utf16"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C26", Rule: "distinct (pattern, subject, form) triples matched within a shared history and compared with a freshly compiled pattern",
		Groups: []Group{
			{"history", 400, 8000, c26history},
			{"parallel", 60, 1500, c26parallel},
		}})
	register(&Property{ID: "C27", Rule: "distinct (container, access, form) triples whose value was compared with a direct computation",
		Groups: []Group{
			{"index", 1500, 40000, c27index},
			{"member", 1500, 40000, c27member},
			{"field", 1200, 30000, c27field},
		}})
	register(&Property{ID: "C29", Rule: "distinct (lambda, arguments) pairs reduced and compared with the reference interpreter",
		Groups: []Group{
			{"reduce", 3000, 80000, c29reduce},
			{"parallel", 200, 5000, c29parallel},
			{"names", 600, 12000, c29names},
		}})
	register(&Property{ID: "C33", Rule: "distinct (built-in, arguments, form) triples whose result, log and argument snapshot were checked",
		Groups: []Group{
			{"functions", 3000, 80000, c33functions},
			{"invalid", 600, 12000, c33invalid},
			{"aggregates", 1000, 30000, c33aggregates},
		}})
}

// ---------------------------------------------------------------- evaluation of expressions in every form

// oneRow registers a plugin cmprow() that emits one row.
func oneRow(scope types.Scope, row types.Row) {
	scope.AppendPlugins(&tablePlugin{name: "cmprow", f: func(ctx contextT, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			select {
			case <-ctx.Done():
			case out <- row:
			}
		}()
		return out
	}})
}

var operandForms = []string{"var", "col", "lazy", "mat", "call", "lazycol", "param", "ifform"}

// formOf gives the definitions and the text by which the host value v reaches an expression.
func formOf(f string) (lets, text string) {
	switch f {
	case "col":
		return "", "cv"
	case "lazy":
		return "LET Lv = vv ", "Lv"
	case "mat":
		return "LET Mv <= vv ", "Mv"
	case "call":
		return "", "probe(id='x', v=vv)"
	case "lazycol":
		return "", "probe(id='x', v=cv)"
	case "param":
		return "LET Fv(x) = x ", "Fv(x=vv)"
	case "ifform":
		return "", "if(condition=TRUE, then=vv)"
	case "sub":
		return "", "(vv)"
	}
	return "", "vv"
}

// evalForm evaluates the expressions (where § stands for the operand) with v supplied in form f.
func (e *Engine) evalForm(v types.Any, f string, vars *ordereddict.Dict, exprs []string) ([]types.Any, error) {
	scope := e.Scope.Copy()
	defer scope.Close()
	if vars == nil {
		vars = ordereddict.NewDict()
	}
	scope.AppendVars(vars.Set("vv", v))
	oneRow(scope, ordereddict.NewDict().Set("cv", v))
	lets, t := formOf(f)
	var cols []string
	for i, x := range exprs {
		cols = append(cols, fmt.Sprintf("%s AS r%d", strings.ReplaceAll(x, "§", t), i))
	}
	text := lets + "SELECT " + strings.Join(cols, ", ") + " FROM cmprow()"
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		return nil, fmt.Errorf("%v\n%s", err, text)
	}
	var out []types.Any
	for _, q := range vqls {
		for row := range q.Eval(e.ctx, scope) {
			out = nil
			for i := range exprs {
				r, _ := scope.Associative(row, fmt.Sprintf("r%d", i))
				out = append(out, r)
			}
		}
	}
	if out == nil {
		return nil, fmt.Errorf("no row emitted by %s", text)
	}
	return out, nil
}

func plainHost() *Host {
	h := NewHost()
	h.Tables["one"] = []V{NewD().Set("q", int64(1))}
	return h
}

// ---------------------------------------------------------------- C26

var rePool = []string{"a", "A", "^f", "^F", "o+", "B", "a|b", ".", ".*", "", "[", "(", "*", "a(", "bar$", "\\d", "\\D", "\\s", "\\S", "\\w+", "\\W", "^$", "^.$", "a.c", "(?i)FOO", "(?-i)foo",
	"(?s)a.c", "[[:upper:]]", "[a-c]", "[^a]", "é", "É", "ß", "k", "x{2,3}", "(a)(b)?", "\\bfoo\\b", "\\Qa.c\\E", "a.*z", "^", "$", "..", ".+", "(?m)^bar$", "foo\\.", " ", "\\x41", "+", "a{2", "a**"}

var subjPool = []string{"", "a", "A", "foo", "FOO", "Foobar", "foo bar", "abc", "a\nc", "aXc", "1", "12x", "é", "É", "ß", "SS", "K", "K", "axxz", "xx", "xxxx", "a.c", "FOO.", "\n", "foo\nbar\nbaz", "日本", "[", "("}

func reWant(p string, v V) bool {
	switch p {
	case "", ".", ".*":
		return true
	}
	switch t := v.(type) {
	case string:
		re, err := regexp.Compile("(?i)" + p)
		return err == nil && re.MatchString(t)
	case []V:
		for _, x := range t {
			if reWant(p, x) {
				return true
			}
		}
	}
	return false
}

func (g *Gen) subject() V {
	switch g.R.Intn(9) {
	case 0:
		out := []V{}
		for i := g.R.Intn(4); i > 0; i-- {
			out = append(out, g.subject())
		}
		return out
	case 1:
		return []V{Null{}, int64(1), true, 2.5, NewD().Set("a", "foo")}[g.R.Intn(5)]
	case 2:
		return g.word()
	}
	return subjPool[g.R.Intn(len(subjPool))]
}

func c26history(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	// a small set of patterns so that the cache is used, with near twins
	var pats []string
	for i := 2 + g.R.Intn(8); i > 0; i-- {
		p := rePool[g.R.Intn(len(rePool))]
		if g.one(10) {
			p = g.word()
		}
		if g.one(25) {
			p = strings.Repeat("(x|y)", 1+g.R.Intn(400)) + p
		}
		pats = append(pats, p)
		switch g.R.Intn(5) {
		case 0:
			pats = append(pats, strings.ToUpper(p))
		case 1:
			pats = append(pats, strings.ToLower(p), p+" ")
		case 2:
			pats = append(pats, "^"+p, p+"$")
		}
	}
	var hist []string
	for i := 0; i < 40; i++ {
		p, s := pats[g.R.Intn(len(pats))], g.subject()
		if g.one(3) {
			// a pattern made for a subject which holds it in another case
			w := g.pick("foo", "Bar", "straße", "ÉTÉ", "kelvin", "\u212a", "ǅ", "a.c", "x y", "ΣΑΣ", g.word())
			t := g.pick("%s", "%s", "(?:%s)", "(%s)", "(?s)%s", "(?m)%s", "(?m)^%s$", "(?P<n>%s)", "(?U)%s+", "\\b%s", "%s|zzz", "zzz|%s", "[%s]{2}", "(?i)%s", "(?-i)%s", "(?-s)%s.", "(?sm)(%s)", "(?i:%s)", "(?-i:%s)", "(?s:.)%s",
				"^\\s*%s", "%s(?i)", ".*%s.*", "\\A%s\\z")
			p = strings.Replace(t, "%s", w, 1)
			s = g.pick("", "", "a", "x\n", " ") + g.pick(strings.ToUpper(w), strings.ToLower(w), strings.ToTitle(w), w) + g.pick("", "", "1", "\nx")
			if g.one(3) {
				s = []V{int64(1), s}
			}
		}
		f := operandForms[g.R.Intn(len(operandForms))]
		want := fmt.Sprint(reWant(p, s))
		hist = append(hist, fmt.Sprintf("%q=~%q", canonM(s), p))
		exprs := []string{"§ =~ vp", "§ =~ " + quoteStr(p, '\''), "§ =~ probe(id='p', v=vp)", "if(condition=§ =~ vp, then=TRUE, else=FALSE)", "NOT § =~ vp"}
		got, err := e.evalForm(toE(s), f, ordereddict.NewDict().Set("vp", p), exprs)
		c.Eval(len(exprs))
		if err != nil {
			c.Fail("%v", err)
			return
		}
		for j, x := range got {
			w := want
			if j == 4 {
				w = fmt.Sprint(want == "false")
			}
			if canonE(x) != w {
				c.Desc("history: %s", strings.Join(hist, "; "))
				c.Fail("%s with pattern %q, subject %s as %s: %s, want %s", exprs[j], p, canonM(s), f, canonE(x), w)
				return
			}
		}
		// the API
		if r := e.Scope.Match(p, toE(s)); fmt.Sprint(r) != want {
			c.Fail("scope.Match(%q, %s) = %v", p, canonM(s), r)
			return
		}
		c.Seen(p + "\x00" + canonM(s) + f)
		c.Count("match_"+want, 1)
	}
	c.Sample("%d matches over %d patterns in one scope, e.g. %s", 40, len(pats), hist[len(hist)-1])
	// patterns which are not strings match nothing
	got, err := e.evalForm("foo", "var", nil, []string{"§ =~ 1", "§ =~ NULL", "§ =~ (1, 2)"})
	if err != nil || canonE(got) != "[false, false, false]" {
		c.Fail("a pattern that is not a string matched: %s %v", canonE(got), err)
	}
}

// the cache is shared by scopes that match concurrently
func c26parallel(c *Case) {
	e := NewEngine(plainHost())
	defer e.Close()
	var wg sync.WaitGroup
	seeds := []int64{c.R.Int63(), c.R.Int63(), c.R.Int63(), c.R.Int63()}
	var mu sync.Mutex
	for _, s := range seeds {
		wg.Add(1)
		go func() {
			defer wg.Done()
			g := newGen(rand.New(rand.NewSource(s)))
			scope := e.Scope.Copy()
			defer scope.Close()
			for i := 0; i < 60; i++ {
				p, s := rePool[g.R.Intn(len(rePool))], g.subject()
				if got := scope.Match(p, toE(s)); got != reWant(p, s) {
					mu.Lock()
					c.Fail("concurrent Match(%q, %s) = %v", p, canonM(s), got)
					mu.Unlock()
					return
				}
				c.Seen("par" + p + canonM(s))
			}
		}()
	}
	wg.Wait()
	c.Eval(240)
}

// ---------------------------------------------------------------- C27

// typed wraps a model list in one of the Go list types a host may supply.
func typedList(r *rand.Rand, v []V) (types.Any, string) {
	allS, allI, allD, allF := true, true, true, true
	for _, x := range v {
		_, s := x.(string)
		_, i := x.(int64)
		_, d := x.(*D)
		_, f := x.(float64)
		allS, allI, allD, allF = allS && s, allI && i, allD && d, allF && f
	}
	if r.Intn(2) == 0 {
		return toE(v), "[]any"
	}
	switch {
	case allS:
		out := []string{}
		for _, x := range v {
			out = append(out, x.(string))
		}
		return out, "[]string"
	case allI && r.Intn(2) == 0:
		out := []int{}
		for _, x := range v {
			out = append(out, int(x.(int64)))
		}
		return out, "[]int"
	case allI:
		out := []int64{}
		for _, x := range v {
			out = append(out, x.(int64))
		}
		return &out, "*[]int64"
	case allF:
		out := []float64{}
		for _, x := range v {
			out = append(out, x.(float64))
		}
		return out, "[]float64"
	case allD && r.Intn(2) == 0:
		out := []*ordereddict.Dict{}
		for _, x := range v {
			out = append(out, toE(x).(*ordereddict.Dict))
		}
		return out, "[]*Dict"
	case allD:
		out := []types.Row{}
		for _, x := range v {
			out = append(out, toE(x))
		}
		return out, "[]Row"
	}
	return toE(v), "[]any"
}

func (g *Gen) homoList() []V {
	k := g.pick("any", "str", "int", "float", "dict")
	out := []V{}
	n := g.R.Intn(6)
	if g.one(20) {
		n = 50 + g.R.Intn(300)
	}
	for ; n > 0; n-- {
		x := g.value(k, 1)
		if k == "int" && g.one(2) {
			x = int64(g.R.Intn(4))
		}
		out = append(out, x)
	}
	return out
}

func pyIndex(v []V, i int64) V {
	n := int64(len(v))
	if i < 0 {
		i += n
	}
	if i < 0 || i >= n {
		return Null{}
	}
	return v[i]
}

func pyBounds(n int64, lo, hi *int64) (int64, int64) {
	fix := func(p *int64, def int64) int64 {
		if p == nil {
			return def
		}
		x := *p
		if x < 0 {
			x += n
		}
		return max(0, min(n, x))
	}
	s, e := fix(lo, 0), fix(hi, n)
	if e < s {
		e = s
	}
	return s, e
}

func (g *Gen) idx(n int) int64 {
	switch g.R.Intn(6) {
	case 0:
		return int64(n)
	case 1:
		return -int64(n)
	case 2:
		return []int64{-1, 0, 1, int64(n) - 1, int64(n) + 1, -int64(n) - 1, 1 << 40, -(1 << 40), 9223372036854775807, -9223372036854775808}[g.R.Intn(10)]
	}
	return int64(g.R.Intn(2*n+3) - n - 1)
}

// indexText: an index as a literal, a variable or an expression
func (g *Gen) idxText(i int64, vars *ordereddict.Dict, name string) string {
	vars.Set(name, i)
	switch g.R.Intn(4) {
	case 0:
		return name
	case 1:
		return "(" + name + " + 0)"
	}
	if i == -9223372036854775808 {
		return name
	}
	return fmt.Sprint(i)
}

func c27index(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	list := g.homoList()
	var host types.Any
	var kind string
	str := g.one(4)
	s := ""
	if str {
		s = g.word() + g.word()
		host, kind = s, "string"
	} else {
		host, kind = typedList(c.R, list)
	}
	n := len(list)
	if str {
		n = len(s)
	}
	before := canonE(host)
	vars := ordereddict.NewDict()
	var exprs, want []string
	for i := 0; i < 6; i++ {
		switch g.R.Intn(2) {
		case 0:
			if str {
				continue
			}
			x := g.idx(n)
			exprs = append(exprs, "§["+g.idxText(x, vars, fmt.Sprintf("i%d", i))+"]")
			want = append(want, canonM(pyIndex(list, x)))
		case 1:
			var lo, hi *int64
			t := "§["
			if g.one(2) {
				lo = i64(g.idx(n))
				t += g.idxText(*lo, vars, fmt.Sprintf("lo%d", i))
			}
			t += ":"
			if g.one(2) {
				hi = i64(g.idx(n))
				t += g.idxText(*hi, vars, fmt.Sprintf("hi%d", i))
			}
			exprs = append(exprs, t+"]")
			a, b := pyBounds(int64(n), lo, hi)
			if str {
				want = append(want, canonM(s[a:b]))
			} else {
				want = append(want, canonM(append([]V{}, list[a:b]...)))
			}
		}
	}
	if len(exprs) == 0 {
		return
	}
	c.accessForms(e, host, kind, vars, exprs, want)
	if canonE(host) != before {
		c.Fail("access changed the container from %s to %s", before, canonE(host))
	}
}

// accessForms evaluates the access expressions with the container supplied in every form.
func (c *Case) accessForms(e *Engine, host types.Any, kind string, vars *ordereddict.Dict, exprs, want []string) {
	for _, f := range operandForms {
		c.Desc("%s = %s as %s", kind, canonE(host), f)
		got, err := e.evalForm(host, f, vars, exprs)
		c.Eval(len(exprs))
		if err != nil {
			c.Fail("%v", err)
			return
		}
		for i := range exprs {
			if g := canonE(got[i]); g != want[i] {
				c.Fail("%s with § = %s (%s) supplied as %s gives %s, want %s; variables %v", exprs[i], canonE(host), kind, f, g, want[i], vars)
				return
			}
			c.Seen(kind + canonE(host) + exprs[i] + f)
		}
		c.desc = ""
	}
	c.Count("accesses", len(exprs)*len(operandForms))
	c.Sample("%s on %s %s = %s in %d forms", exprs[0], kind, canonE(host), want[0], len(operandForms))
}

func c27member(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	vars := ordereddict.NewDict()
	var exprs, want []string
	var host types.Any
	var kind string
	add := func(x V, in bool) {
		n := fmt.Sprintf("x%d", len(exprs))
		vars.Set(n, toE(x))
		t := n
		if l := g.lit(x); l != nil && g.one(2) {
			t = ExprText(l)
		}
		exprs = append(exprs, t+" IN §")
		want = append(want, fmt.Sprint(in))
		if g.one(4) {
			exprs = append(exprs, "NOT "+t+" IN §")
			want = append(want, fmt.Sprint(!in))
		}
	}
	switch g.R.Intn(5) {
	case 0, 1:
		list := g.homoList()
		host, kind = typedList(c.R, list)
		if p, ok := host.(*[]int64); ok {
			host, kind = *p, "[]int64"
		}
		for i := 0; i < 5; i++ {
			x := g.value(g.pick("any", "int", "str", "dict"), 1)
			if len(list) > 0 && g.one(2) {
				x = list[g.R.Intn(len(list))]
				if n, ok := x.(int64); ok && g.one(2) {
					x = float64(n)
				}
			}
			in := false
			for _, y := range list {
				in = in || eqV(x, y)
			}
			add(x, in)
		}
	case 2:
		s := g.word() + g.word()
		host, kind = s, "string"
		for i := 0; i < 5; i++ {
			x := g.word()
			if g.one(2) {
				a := g.R.Intn(len(s) + 1)
				b := a + g.R.Intn(len(s)-a+1)
				x = s[a:b]
			}
			add(x, strings.Contains(s, x))
		}
	case 3:
		d := g.value("dict", 1).(*D)
		host, kind = toE(d), "dict"
		for i := 0; i < 5; i++ {
			x := g.pick("x", "y", "z", "k", "a b", "", "X")
			_, ok := d.M[x]
			add(x, ok)
		}
	case 4:
		v := []V{Null{}, int64(3), 2.5, true}[g.R.Intn(4)]
		host, kind = toE(v), "scalar"
		for i := 0; i < 3; i++ {
			add(g.value("any", 1), false)
		}
		add(v, false)
	}
	c.accessForms(e, host, kind, vars, exprs, want)
}

type inner27 struct {
	Deep  string
	Other int64 `json:"other_name"`
}

type struct27 struct {
	Name   string
	Size   int64  `json:"size"`
	Title  string `json:"Name2,omitempty"`
	Name3  string `json:"Title2"`
	Title2 string
	Nil    *inner27
	In     *inner27 `json:"inner"`
	Val    inner27
	List   []string
	Any    types.Any
	hidden string
}

func (s struct27) Getter() string          { return "got " + s.Name }
func (s *struct27) PtrGet() int64          { return s.Size + 1 }
func (s struct27) Pair() (int64, error)    { return s.Size, nil }
func (s struct27) NilPtr() *inner27        { return nil }
func (s struct27) NeedsArg(x int64) string { return "called" }

// fields of dictionaries, structs, lists of them, and missing fields
func c27field(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	vars := ordereddict.NewDict()
	var exprs, want []string
	add := func(t string, w V) {
		exprs = append(exprs, t)
		want = append(want, canonM(w))
	}
	switch g.R.Intn(4) {
	case 0:
		d := g.value("dict", 2).(*D)
		sub := g.value("dict", 1).(*D)
		d.Set("s", sub)
		for _, k := range []string{"x", "y", "z", "k", "a b", "s", "nope", "X"} {
			v, ok := d.M[k]
			if !ok {
				v = Null{}
			}
			add("§."+ident(k), v)
			add("get(item=§, member="+quoteStr(k, '\'')+")", v)
		}
		for _, k := range []string{"x", "a b", "nope"} {
			v, ok := sub.M[k]
			if !ok {
				v = Null{}
			}
			add("§.s."+ident(k), v)
		}
		add("§.nope.nope.x", Null{})
		c.accessForms(e, toE(d), "dict", vars, exprs, want)
	case 1:
		s := &struct27{Name: g.word(), Size: g.intVal(), Title: g.word(), Name3: g.word(), Title2: g.word(), In: &inner27{g.word(), g.intVal()},
			Val: inner27{g.word(), 7}, List: []string{g.word(), g.word()}, Any: toE(g.value("any", 1)), hidden: "no"}
		add("§.Name", s.Name)
		add("§.Size", s.Size)
		add("§.size", s.Size)
		add("§.Title", s.Title)
		add("§.Name2", s.Title)
		add("§.Name3", s.Name3)
		// a field's own name wins over another field's json name
		add("§.Title2", s.Title2)
		add("§.Nil", Null{})
		add("§.Nil.Deep", Null{})
		add("§.`In`.Deep", s.In.Deep)
		add("§.inner.other_name", s.In.Other)
		add("§.Val.Other", s.Val.Other)
		add("§.List[1]", s.List[1])
		add("§.hidden", Null{})
		add("§.nope", Null{})
		add("§.name", Null{})
		add("§.Getter", "got "+s.Name)
		add("§.Pair", s.Size)
		add("§.NilPtr", Null{})
		var host types.Any = s
		kind := "*struct"
		if g.one(2) {
			host, kind = *s, "struct"
		} else {
			add("§.PtrGet", s.Size+1)
		}
		exprs = append(exprs, "§.Any")
		want = append(want, canonE(s.Any))
		c.accessForms(e, host, kind, vars, exprs, want)
	case 2:
		// lists of dictionaries, some lacking the field
		var l []V
		var xs []V
		for i := g.R.Intn(6); i > 0; i-- {
			d := g.value("dict", 1).(*D)
			if v, ok := d.M["x"]; ok {
				xs = append(xs, v)
			}
			l = append(l, d)
		}
		host, kind := typedList(c.R, l)
		add("§.x", append([]V{}, xs...))
		add("§.x[0]", pyIndex(xs, 0))
		add("§.x[-1]", pyIndex(xs, -1))
		add("len(list=§.x)", int64(len(xs)))
		add("§.nope", []V{})
		c.accessForms(e, host, kind, vars, exprs, want)
	case 3:
		v := []V{Null{}, int64(3), 2.5, true, "abc"}[g.R.Intn(5)]
		add("§.x", Null{})
		add("§.x.y", Null{})
		add("§.`a b`", Null{})
		if _, ok := v.(string); !ok {
			add("§[0]", Null{})
			add("§[-1]", Null{})
			add("§[0:2]", Null{})
		}
		c.accessForms(e, toE(v), "scalar", vars, exprs, want)
	}
}

// ---------------------------------------------------------------- C29

// lambdaCase: a lambda text, its body and parameter names
func (c *Case) lambda(g *Gen) (string, Expr, []string) {
	n := 1 + g.R.Intn(4)
	names := []string{"x", "y", "z", "w"}[:n]
	for i, k := range []string{"int", "str", "list", "float"}[:n] {
		g.Names[k] = append(g.Names[k], names[i], names[i], names[i])
	}
	body := g.Expr(g.pick("any", "bool", "num"), 3)
	pr := &Printer{}
	if g.one(2) {
		pr = &Printer{R: g.R, Comments: g.one(3)}
	}
	var ps []string
	for _, p := range names {
		ps = append(ps, p)
	}
	pr.t()
	for i, p := range ps {
		if i > 0 {
			pr.t(",")
		}
		pr.t(p)
	}
	pr.t("=>")
	pr.expr(body, 0)
	return pr.text(), body, names
}

func (g *Gen) lambdaArgs(n int) []V {
	var out []V
	for i := 0; i < n; i++ {
		k := []string{"int", "str", "list", "float"}[i]
		if g.one(6) {
			k = "any"
		}
		out = append(out, g.value(k, 1))
	}
	return out
}

func c29reduce(c *Case) {
	g, h := stdGen(c)
	if g.one(3) {
		// parameters shadow outer variables of the same name
		h.Vars.Set("x", g.value("any", 1))
		h.Vars.Set("y", g.value("any", 1))
	}
	text, body, names := c.lambda(g)
	c.Desc("%s\n%s", h.String(), text)
	l, err := vfilter.ParseLambda(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if got := strings.Join(l.GetParameters(), ","); got != strings.Join(names, ",") {
		c.Fail("parameters %s, want %s", got, strings.Join(names, ","))
		return
	}
	e := NewEngine(h)
	defer e.Close()
	vis := func() string {
		var out []string
		for _, n := range append([]string{"x", "y", "z", "w"}, h.Vars.Keys...) {
			v, ok := e.Scope.Resolve(n)
			out = append(out, fmt.Sprintf("%s %v %s", n, ok, canonE(v)))
		}
		return strings.Join(out, "\n")
	}
	before := vis()
	for i := 0; i < 4; i++ {
		args := g.lambdaArgs(len(names))
		m, _, env := h.Model()
		d := NewD()
		var eargs []types.Any
		for i, n := range names {
			d.Set(n, args[i])
			eargs = append(eargs, argE29(g, args[i]))
		}
		want := canonM(m.deep(m.Eval(body, env.with(d)), env))
		if m.Unsure {
			c.Count("undefined_by_model", 1)
			continue
		}
		got := canonE(deepE(e, l.Reduce(e.ctx, e.Scope, eargs)))
		c.Eval(1)
		if got != want {
			c.Fail("reducing with %s gives %s, want %s", canonM(args), got, want)
			return
		}
		c.Seen(text + canonM(args))
		c.Sample("%s with %s = %s", text, canonM(args), got)
	}
	if after := vis(); after != before {
		c.Fail("reducing changed the calling scope:\n%s\nbefore:\n%s", after, before)
	}
	// wrong number of arguments: NULL and a log line
	n := len(e.Logs)
	wrong := g.lambdaArgs(g.pickInt(len(names)-1, len(names)+1))
	var eargs []types.Any
	for _, a := range wrong {
		eargs = append(eargs, argE29(g, a))
	}
	if got := canonE(l.Reduce(e.ctx, e.Scope, eargs)); got != "null" || len(e.Logs) == n {
		c.Fail("wrong number of arguments gave %s with %d log lines", got, len(e.Logs)-n)
	}
}

func (g *Gen) pickInt(xs ...int) int {
	x := xs[g.R.Intn(len(xs))]
	if x > 4 {
		x = 3
	}
	return x
}

// deepE materializes what a reduction returned.
func deepE(e *Engine, v types.Any) types.Any {
	row := vfilter.RowToDict(e.ctx, e.Scope, ordereddict.NewDict().Set("v", v))
	r, _ := row.Get("v")
	return r
}

// one lambda reduced concurrently with different arguments
func c29parallel(c *Case) {
	g, h := stdGen(c)
	text, body, names := c.lambda(g)
	c.Desc("%s\n%s", h.String(), text)
	l, err := vfilter.ParseLambda(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	e := NewEngine(h)
	defer e.Close()
	type job struct {
		args []V
		want string
		e    []types.Any
	}
	var jobs []job
	for i := 0; i < 12; i++ {
		args := g.lambdaArgs(len(names))
		m, _, env := h.Model()
		d := NewD()
		j := job{args: args}
		for i, n := range names {
			d.Set(n, args[i])
			j.e = append(j.e, argE29(g, args[i]))
		}
		j.want = canonM(m.deep(m.Eval(body, env.with(d)), env))
		if !m.Unsure {
			jobs = append(jobs, j)
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 3; k++ {
				got := canonE(deepE(e, l.Reduce(e.ctx, e.Scope, j.e)))
				if got != j.want {
					mu.Lock()
					c.Fail("concurrent reduction with %s gives %s, want %s", canonM(j.args), got, j.want)
					mu.Unlock()
					return
				}
			}
			c.Seen("par" + text + canonM(j.args))
		}()
	}
	wg.Wait()
	c.Eval(3 * len(jobs))
}

// parameters with unusual names
func c29names(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	pool := []string{"a b", "x.y", "Ünï", "select", "1x", "_", "X", "x", "a-b", "日本"}
	n := 1 + g.R.Intn(3)
	var names, ps, terms []string
	for _, i := range g.R.Perm(len(pool))[:n] {
		names = append(names, pool[i])
		ps = append(ps, ident(pool[i]))
	}
	var args []types.Any
	want := []V{}
	for i, p := range ps {
		terms = append(terms, p)
		args = append(args, int64(i+10))
		want = append(want, int64(i+10))
	}
	terms = append(terms, "NULL")
	want = append(want, Null{})
	text := strings.Join(ps, ",") + "=>(" + strings.Join(terms, ", ") + ")"
	c.Desc("%s", text)
	l, err := vfilter.ParseLambda(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if got := fmt.Sprintf("%q", l.GetParameters()); got != fmt.Sprintf("%q", names) {
		c.Fail("parameters %s, want %q", got, names)
	}
	if got := canonE(deepE(e, l.Reduce(e.ctx, e.Scope, args))); got != canonM(want) {
		c.Fail("got %s, want %s", got, canonM(want))
	}
	c.Seen(text)
}

// ---------------------------------------------------------------- C33

func utf16le(s string) string {
	b := []byte{0xff, 0xfe}
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return string(b)
}

// c33functions: every built-in with generated arguments, arriving in every form
func c33functions(c *Case) {
	g := newGen(c.R)
	e := NewEngine(plainHost())
	defer e.Close()
	vars := ordereddict.NewDict()
	var v V
	var exprs, want []string
	add := func(t string, w V) {
		exprs = append(exprs, t)
		want = append(want, canonM(w))
	}
	strs := func(ss []string) V {
		out := []V{}
		for _, s := range ss {
			out = append(out, s)
		}
		return out
	}
	kind := g.pick("len", "split", "format", "get", "if", "encode", "timestamp", "dict", "if")
	switch kind {
	case "len":
		v = g.value("any", 2)
		n := 0
		switch t := v.(type) {
		case string:
			n = len(t)
		case []V:
			n = len(t)
		case *D:
			n = len(t.Keys)
		}
		add("len(list=§)", int64(n))
	case "split":
		s := g.word() + g.pick(",", "a", " ", ", ") + g.word()
		v = s
		sep := g.pick(",", "a", " ", "o", ".", "b+", "[,a]", "x")
		if g.one(5) {
			// many parts
			s = strings.Repeat(s+g.pick(",", "a", ".", "x"), 2+g.R.Intn(400))
			if len(s) > 20000 {
				s = s[:20000]
			}
			v = s
		}
		vars.Set("sep", sep)
		add("split(string=§, sep_string=sep)", strs(strings.Split(s, sep)))
		add("split(string=§, sep_string="+quoteStr(sep, '\'')+")", strs(strings.Split(s, sep)))
		add("split(string=§, sep=sep)", strs(regexp.MustCompile(sep).Split(s, -1)))
		add("split(string=§, sep=sep, sep_string='zz')", strs(regexp.MustCompile(sep).Split(s, -1)))
		n := g.intVal()
		vars.Set("num", n)
		add("split(string=num, sep_string='1')", strs(strings.Split(fmt.Sprint(n), "1")))
	case "format":
		f := g.pick("%v", "%v-%v", "%s", "%d", "%5.2f|%v", "no verbs", "%%", "%x", "%q", "%v %v %v", "%08b")
		vars.Set("fmt", f)
		switch g.R.Intn(3) {
		case 0:
			v = g.value(g.pick("int", "str", "float", "bool"), 0)
			add("format(format=fmt, args=§)", fmt.Sprintf(f, toE(v)))
			add("format(format=fmt, args=(§, ))", fmt.Sprintf(f, toE(v)))
			add("format(format=fmt, args=[§, 1])", fmt.Sprintf(f, toE(v), int64(1)))
		case 1:
			l := []V{}
			var ea []interface{}
			for i := g.R.Intn(4); i > 0; i-- {
				x := g.value(g.pick("int", "str", "float", "bool"), 0)
				l = append(l, x)
				ea = append(ea, toE(x))
			}
			v = l
			add("format(format=fmt, args=§)", fmt.Sprintf(f, ea...))
		case 2:
			v = f
			add("format(format=§)", fmt.Sprintf(f))
		}
	case "get":
		d := g.value("dict", 2).(*D)
		d.Set("p", NewD().Set("q", []V{int64(1), NewD().Set("r", "deep")}))
		v = d
		at := func(k string) V {
			if x, ok := d.M[k]; ok {
				return x
			}
			return Null{}
		}
		add("get(item=§, member='x')", at("x"))
		add("get(item=§, member='a b')", at("a b"))
		add("get(item=§, member='p.q.0')", int64(1))
		add("get(item=§, member='p.q.-2')", int64(1))
		add("get(item=§, member='p.q.1.r')", "deep")
		add("get(item=§, member='p.q.7')", Null{})
		add("get(item=§, member='p.nope.r')", Null{})
		vars.Set("outer", toE(d))
		add("get(member='outer.p.q.1.r')", "deep")
		add("get(member='outer.x')", at("x"))
		add("get(member='nope')", Null{})
		vars.Set("path", "p.q.1.r")
		add("get(item=§, member=path)", "deep")
	case "if":
		v = g.value("any", 1)
		m := NewModel()
		tr := m.truth(&Env{}, v)
		if m.Unsure {
			return
		}
		a, b := g.value("any", 1), g.value("any", 1)
		vars.Set("a", toE(a)).Set("b", toE(b))
		sel := func(x, y V) V {
			if tr {
				return x
			}
			return y
		}
		add("if(condition=§, then=a, else=b)", sel(a, b))
		add("if(condition=§, else=b, then=a)", sel(a, b))
		add("if(condition=§, then=a)", sel(a, Null{}))
		add("if(condition=§, else=b)", sel(Null{}, b))
		add("if(condition=§)", Null{})
		add("if(condition=§ AND TRUE, then='T', else='F')", sel("T", "F"))
		add("if(condition=NOT §, then=a, else=b)", sel(b, a))
		add("if(condition=§, then={SELECT a AS c FROM cmprow()}, else=(b, ))", sel([]V{NewD().Set("c", a)}, []V{b}))
	case "encode":
		s := g.word()
		v = s
		add("encode(string=§, type='hex')", hex.EncodeToString([]byte(s)))
		add("encode(string=§, type='string')", s)
		vars.Set("u16", utf16le(s)).Set("ty", "utf16")
		add("encode(string=u16, type='utf16')", s)
		add("encode(string=u16, type=ty)", s)
	case "timestamp":
		n := int64(c.R.Intn(2000000000)) + 1
		v = n
		add("timestamp(epoch=§)", time.Unix(n, 0))
		w := (n + 11644473600) * 10000000
		vars.Set("wft", w+int64(c.R.Intn(10000000)))
		add("timestamp(winfiletime=wft)", time.Unix(n, 0))
		add("timestamp(epoch=0)", Null{})
		add("timestamp()", Null{})
	case "dict":
		v = g.value("any", 2)
		add("dict(a=§)", NewD().Set("a", v))
		add("dict(`a b`=§, z=1, a=§)", NewD().Set("a b", v).Set("z", int64(1)).Set("a", v))
		add("dict()", NewD())
		add("dict(s={SELECT 1 AS one FROM cmprow()}, d=dict(x=§))", NewD().Set("s", []V{NewD().Set("one", int64(1))}).Set("d", NewD().Set("x", v)))
	}
	host := toE(v)
	before := canonE(host) + canonE(vars)
	f := operandForms[g.R.Intn(len(operandForms))]
	c.Desc("%s: § = %s as %s, %s\n%s", kind, canonE(host), f, canonE(vars), strings.Join(exprs, "\n"))
	n := len(e.Logs)
	got, err := e.evalForm(host, f, vars, exprs)
	c.Eval(len(exprs))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	for i := range exprs {
		if x := canonE(deepE(e, got[i])); x != want[i] {
			c.Fail("%s gives %s, want %s", exprs[i], x, want[i])
			return
		}
		c.Seen(exprs[i] + before + f)
	}
	c.Sample("%s with § = %s as %s = %s", exprs[0], canonE(host), f, want[0])
	c.Count(kind, len(exprs))
	vars.Delete("vv")
	if after := canonE(host) + canonE(vars); after != before {
		c.Fail("arguments changed from %s to %s", before, after)
	}
	if len(e.Logs) != n {
		c.Fail("valid calls logged %q", e.Logs[n:])
	}
}

// invalid arguments: NULL, a log line, everything else intact
func c33invalid(c *Case) {
	g := newGen(c.R)
	bad := [][2]string{
		{"split(string='a')", "sep"}, {"split(sep_string='a')", "string"}, {"split(string='a', sep='[')", "missing closing"}, {"split(string='a', sep_string='b', foo=1)", "foo"},
		{"len()", "list"}, {"len(list=1, foo=1)", "foo"}, {"format()", "format"}, {"format(format='a', foo=1)", "foo"}, {"format(args=1)", "format"},
		{"get()", "member"}, {"get(item=1)", "member"}, {"get(item=1, member='a', foo=2)", "foo"}, {"if()", "condition"}, {"if(then=1)", "condition"}, {"if(condition=1, foo=2)", "foo"},
		{"encode(string='a')", "type"}, {"encode(type='hex')", "string"}, {"encode(string='a', type='base99')", "base99"}, {"encode(string='a', type='hex', foo=2)", "foo"},
		{"timestamp(epoch='x')", "epoch"}, {"timestamp(foo=1)", "foo"}, {"timestamp(winfiletime=dict(a=1))", "winfiletime"},
		{"sum()", "item"}, {"sum(item='x')", "item"}, {"min()", "item"}, {"max()", "item"}, {"min(foo=1)", "item"}, {"count(foo=1)", "foo"}, {"enumerate(foo=1)", "foo"},
		{"sum(item=1, foo=1)", "foo"},
	}
	b := bad[g.R.Intn(len(bad))]
	ok := g.pick("1 + 1", "dict(a=1)", "len(list='abc')", "format(format='x')")
	okWant := map[string]string{"1 + 1": "i:2", "dict(a=1)": `{"a": i:1}`, "len(list='abc')": "i:3", "format(format='x')": `"x"`}[ok]
	h := NewHost()
	n := 1 + g.R.Intn(3)
	for i := 0; i < n; i++ {
		h.Tables["t"] = append(h.Tables["t"], NewD().Set("a", int64(i)))
	}
	e := NewEngine(h)
	defer e.Close()
	cols := []string{"a", b[0] + " AS bad", ok + " AS good"}
	g.R.Shuffle(3, func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
	text := "SELECT " + strings.Join(cols, ", ") + " FROM t()"
	c.Desc("%s", text)
	vqls, err := vfilter.MultiParse(text)
	c.Eval(1)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	i := 0
	for row := range vqls[0].Eval(e.ctx, e.Scope) {
		for k, w := range map[string]string{"a": fmt.Sprintf("i:%d", i), "bad": "null", "good": okWant} {
			v, _ := e.Scope.Associative(row, k)
			if canonE(v) != w {
				c.Fail("row %d column %s = %s, want %s", i, k, canonE(v), w)
			}
		}
		i++
	}
	if i != n {
		c.Fail("%d rows, want %d", i, n)
	}
	named := false
	for _, l := range e.Logs {
		named = named || strings.Contains(l, b[1])
	}
	if !named {
		c.Fail("no log line names %q: %q", b[1], e.Logs)
	}
	c.Seen(text)
	c.Sample("%s logged %q", text, e.Logs)
}

// argE29: an argument of a lambda; NULL in any of its Go forms
func argE29(g *Gen, v V) types.Any {
	if _, ok := v.(Null); ok {
		return goNull(uint64(g.R.Intn(4)))
	}
	return toE(v)
}

// aggregates without GROUP BY: running values
func c33aggregates(c *Case) {
	g := newGen(c.R)
	h := NewHost()
	n := g.R.Intn(12)
	if g.one(10) {
		n = 100 + g.R.Intn(400)
	}
	kind := g.pick("int", "float", "str")
	var rows, seen []V
	var want []string
	var sum int64
	var mn, mx V
	odd := g.one(2)
	cnt := int64(0)
	for i := 0; i < n; i++ {
		x, s := g.value(kind, 0), int64(g.R.Intn(100)-50)
		if f, ok := x.(float64); ok && f == 0 {
			x = float64(0) // -0 equals 0: which of the two min() keeps is open
		}
		rows = append(rows, NewD().Set("i", int64(i)).Set("x", x).Set("s", s))
		if odd && i%2 == 0 {
			continue
		}
		cnt++
		sum += s
		if lt, _ := ltV(x, mn); mn == nil || lt {
			mn = x
		}
		if lt, _ := ltV(mx, x); mx == nil || lt {
			mx = x
		}
		seen = append(seen, x)
		d := NewD().Set("i", int64(i)).Set("c", cnt).Set("s2", sum).Set("mn", mn).Set("mx", mx)
		if n < 50 {
			d.Set("en", append([]V{}, seen...))
		}
		d.Set("c2", cnt+100)
		want = append(want, canonM(d))
	}
	h.Tables["t"] = rows
	if rows == nil {
		h.Tables["t"] = []V{}
	}
	text := "SELECT i, count() AS c, sum(item=s) AS s2, min(item=x) AS mn, max(item=x) AS mx"
	if n < 50 {
		text += ", enumerate(items=x) AS en"
	}
	text += ", count() + 100 AS c2 FROM t()"
	if odd {
		// rejected rows are not aggregated
		text += " WHERE i IN odds"
		var odds []V
		for i := 1; i < n; i += 2 {
			odds = append(odds, int64(i))
		}
		h.Vars.Set("odds", odds)
		if odds == nil {
			h.Vars.Set("odds", []V{})
		}
	}
	c.Desc("%s\n%s", h.String(), text)
	e := NewEngine(h)
	defer e.Close()
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	for k := 0; k < 2; k++ {
		got := e.Query(vqls[0])
		c.Eval(1)
		if d := diffRows(want, got); d != "" {
			c.Fail("evaluation %d: %s", k, d)
			return
		}
	}
	if len(want) > 0 {
		c.Seen(text + h.String())
	}
	c.Count("aggregated_rows", len(want))
}

var _ = reflect.TypeOf
