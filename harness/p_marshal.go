package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"slices"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/marshal"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C23",
		Rule: "A scope is filled (host variables of any plain value and name, materialised and lazy LET definitions with parameters and defaults), serialised to JSON text, restored with NewUnmarshaller into a fresh scope with the same functions; every variable must be there with an equal value, probing expressions over it and the queries of the program must give the same rows in both scopes, an ignored variable must be gone and nothing else, and saving the restored scope must give the same items. Non-trivial: distinct scopes saved and restored.",
		Groups: []Group{
			{"values", 1200, 100000, c23values},
			{"programs", 2500, 60000, c23programs},
			{"definitions", 2500, 60000, c23definitions},
			{"single", 4000, 100000, c23single},
			{"large", 24, 600, c23large},
			{"fixed", len(c23texts), len(c23texts), c23fixed},
		}})
}

// save gives the serialised form of a scope as text
func (c *Case) save(scope types.Scope) (string, bool) {
	item, err := marshal.Marshal(scope, scope)
	if err != nil {
		if strings.Contains(err.Error(), "unsupported value") { // NaN and infinities have no JSON
			c.Count("not_finite", 1)
			return "", false
		}
		c.Fail("cannot be saved: %v", err)
		return "", false
	}
	b, err := json.Marshal(item)
	if err != nil {
		c.Fail("the saved scope cannot be encoded: %v", err)
		return "", false
	}
	return string(b), true
}

func (c *Case) restore(text string, scope types.Scope, ignore []string) (types.Scope, bool) {
	item := &types.MarshalItem{}
	if err := json.Unmarshal([]byte(text), item); err != nil {
		c.Fail("the saved scope is not JSON: %v", err)
		return nil, false
	}
	u := vfilter.NewUnmarshaller(ignore)
	res, err := u.Unmarshal(u, scope, item)
	if err != nil {
		c.Fail("cannot be restored: %v\n%.1000s", err, text)
		return nil, false
	}
	s, ok := res.(types.Scope)
	if !ok {
		c.Fail("restored as %T", res)
		return nil, false
	}
	return s, true
}

// saved items without their order
func savedVars(text string) map[string]string {
	var item struct {
		Data struct {
			Vars map[string]struct {
				Type string
				Data json.RawMessage
			}
		}
	}
	if json.Unmarshal([]byte(text), &item) != nil {
		return nil
	}
	out := map[string]string{}
	for k, v := range item.Data.Vars {
		out[k] = v.Type + " " + string(v.Data)
	}
	return out
}

// probes use a variable in ways that tell kinds of values apart
var varProbes = []string{"§", "§ + 1", "§ / 2", "§ * 3", "§ = 1", "§ < 2", "NOT §", "§[0]", "§[1]", "(5, 6, 7)[§]", "§ + 'x'", "§ =~ 'a'", "len(list=§)", "format(format='%v', args=[§, 1])", "§ IN (1, 'a', 2.0)", "'a' IN §", "§.a", "§.a / 2", "§.a + 1", "§[0] / 2", "if(condition=§, then=1, else=2)", "dict(x=§)", "§ = NULL", "(1, 2)[§.a]"}

// seen gives everything a program can see of a variable
func seenOf(scope types.Scope, name string, probes []string) []string {
	var out []string
	q := "`" + name + "`"
	for _, p := range probes {
		text := "SELECT " + strings.ReplaceAll(p, "§", q) + " AS v FROM one()"
		if p == "*" {
			text = "SELECT * FROM " + q
		}
		vqls, err := parseText(text)
		if err != nil {
			out = append(out, fmt.Sprintf("%s: %v", p, err))
			continue
		}
		out = append(out, fmt.Sprintf("%s: %s", p, strings.Join(drain(context.Background(), scope, vqls[0]), " ")))
	}
	return out
}

func plainScope(host *Host) (*Engine, types.Scope) {
	e := NewEngine(host)
	e.Scope.AppendPlugins(&tablePlugin{name: "one", f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row, 1)
		out <- ordereddict.NewDict().Set("only_row", 1)
		close(out)
		return out
	}})
	return e, e.Scope
}

// marshalValue is a value which JSON can hold
func (c *Case) marshalValue(g *Gen, d int) types.Any {
	switch c.R.Intn(12) {
	case 0:
		return types.Null{}
	case 1:
		return c.R.Intn(2) == 0
	case 2:
		return c.anyInt()
	case 3:
		n := c.R.Intn(120)
		if d < 4 { // operators treat the other widths differently
			return n
		}
		return []types.Any{n, int8(n), int16(-n), int32(n), int64(-n), uint(n), uint8(n), uint16(n), uint32(n), uint64(n), float32(n) / 4}[c.R.Intn(11)]
	case 4:
		return float64(c.R.Intn(20)-10) / float64([]int{1, 1, 2, 3}[c.R.Intn(4)])
	case 5:
		f := math.Float64frombits(c.R.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1e300
		}
		return f
	case 6, 7:
		s := strings.ToValidUTF8(c.anyString(), "?")
		if len(s) > 10 && s[10] == 'T' {
			return "x"
		}
		return s
	case 8, 9:
		if d <= 0 {
			return "leaf"
		}
		out := []types.Any{}
		for i := c.R.Intn(4); i > 0; i-- {
			out = append(out, c.marshalValue(g, d-1))
		}
		return out
	default:
		if d <= 0 {
			return int64(7)
		}
		out := ordereddict.NewDict()
		for i := c.R.Intn(4); i > 0; i-- {
			k := c.one("a", "b", "z", "c", "aa")
			if c.R.Intn(3) == 0 {
				k = c.anyName()
			}
			out.Set(k, c.marshalValue(g, d-1))
		}
		return out
	}
}

func skipName(n string) bool {
	return strings.HasPrefix(n, "$") || slices.Contains([]string{"NULL", "config", "Artifact"}, n)
}

// differ compares what two scopes show of a variable
func differ(a, b []string) string {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			x := ""
			if i < len(b) {
				x = b[i]
			}
			return fmt.Sprintf("original %.600s\nrestored %.600s", a[i], x)
		}
	}
	return ""
}

func c23values(c *Case) {
	g := newGen(c.R)
	env := ordereddict.NewDict()
	for i := 1 + c.R.Intn(5); i > 0; i-- {
		k := fmt.Sprintf("v%d", i)
		if c.R.Intn(2) == 0 {
			k = c.anyName()
		}
		if skipName(k) || k == "only_row" {
			continue
		}
		env.Set(k, c.marshalValue(g, 3))
	}
	for _, k := range []string{"$internal", "config", "Artifact"} {
		if c.R.Intn(5) == 0 {
			env.Set(k, "not saved")
		}
	}
	e1, s1 := plainScope(NewHost())
	defer e1.Close()
	if c.R.Intn(2) == 0 { // shadowed values are not what is saved
		low := ordereddict.NewDict()
		for _, k := range env.Keys() {
			if c.R.Intn(2) == 0 {
				low.Set(k, "shadowed")
			}
		}
		s1.AppendVars(low)
	}
	s1.AppendVars(env)
	c.Desc("%s", canonE(env))
	text, ok := c.save(s1)
	if !ok {
		return
	}
	var ignore []string
	for _, k := range env.Keys() {
		if c.R.Intn(5) == 0 {
			ignore = append(ignore, k)
		}
	}
	e2, fresh := plainScope(NewHost())
	defer e2.Close()
	s2, ok := c.restore(text, fresh, ignore)
	if !ok {
		return
	}
	for _, k := range env.Keys() {
		v2, pres := s2.Resolve(k)
		if skipName(k) || slices.Contains(ignore, k) {
			if pres {
				c.Fail("%q was not to be restored and is %s", k, canonE(v2))
				return
			}
			c.Count("left_out", 1)
			continue
		}
		v1, _ := s1.Resolve(k)
		if !pres {
			c.Fail("%q = %s is not restored", k, canonE(v1))
			return
		}
		if a, b := canonE(v1), canonE(v2); a != b {
			c.Fail("%q\noriginal %.600s\nrestored %.600s", k, a, b)
			return
		}
		if !strings.Contains(k, "`") {
			if d := differ(seenOf(s1, k, varProbes), seenOf(s2, k, varProbes)); d != "" {
				c.Fail("%q = %.300s: %s", k, canonE(v1), d)
				return
			}
		}
		c.Count("variables_restored", 1)
	}
	c.Eval(1)
	c.again(text, s2, ignore)
	c.Seen(c.desc)
	c.Sample("%s", c.desc)
}

// saving the restored scope gives the same
func (c *Case) again(text string, s2 types.Scope, ignore []string) {
	text2, ok := c.save(s2)
	if !ok {
		return
	}
	a, b := savedVars(text), savedVars(text2)
	for k, v := range a {
		if slices.Contains(ignore, k) {
			continue
		}
		if b[k] != v {
			c.Fail("%q saved again\nfirst  %.600s\nsecond %.600s", k, v, b[k])
			return
		}
	}
	c.Count("saved_again", 1)
}

func c23single(c *Case) {
	g := newGen(c.R)
	v := c.marshalValue(g, 4)
	c.Desc("%s", canonE(v))
	scope := vfilter.NewScope()
	defer scope.Close()
	item, err := marshal.Marshal(scope, v)
	if err != nil {
		c.Fail("cannot be saved: %v", err)
		return
	}
	b, err := json.Marshal(item)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	back := &types.MarshalItem{}
	if err := json.Unmarshal(b, back); err != nil {
		c.Fail("%v", err)
		return
	}
	u := vfilter.NewUnmarshaller(nil)
	v2, err := u.Unmarshal(u, scope, back)
	c.Eval(1)
	if err != nil || canonE(v2) != canonE(v) {
		c.Fail("restored %.600s, %v\n%.600s", canonE(v2), err, b)
		return
	}
	c.Seen(c.desc)
}

// restored runs the definitions of the text in one scope, restores it and runs the queries in both
func (c *Case) restored(h *Host, lets, queries []string, ignore []string) bool {
	e1, s1 := plainScope(h)
	defer e1.Close()
	var names []string
	var lazy []string // not materialised: can be called
	for _, l := range lets {
		vqls, err := parseText(l)
		if err != nil {
			c.Fail("does not parse: %v\n%s", err, l)
			return false
		}
		for _, v := range vqls {
			drain(e1.ctx, s1, v)
			name := strings.Trim(v.Let, "`")
			if !slices.Contains(names, name) {
				names = append(names, name)
			}
			if v.LetOperator == "=" {
				lazy = append(lazy, name)
			}
		}
	}
	text, ok := c.save(s1)
	if !ok {
		return true
	}
	if strings.Contains(text, `\ufffd`) || strings.Contains(text, "\ufffd") { // bytes which are no text have no JSON
		c.Count("not_text", 1)
		return true
	}
	h2 := *h
	h2.Vars = NewD()
	e2, fresh := plainScope(&h2)
	defer e2.Close()
	s2, ok := c.restore(text, fresh, ignore)
	if !ok {
		return false
	}
	members := names
	for _, k := range h.Vars.Keys {
		members = append(members, k)
	}
	for _, k := range members {
		if skipName(k) {
			continue
		}
		_, pres := s2.Resolve(k)
		if pres == slices.Contains(ignore, k) {
			c.Fail("%q restored: %v, to be ignored: %v\n%.1500s", k, pres, !pres, text)
			return false
		}
		if !pres {
			c.Count("left_out", 1)
			continue
		}
		c.Count("variables_restored", 1)
	}
	c.Eval(1)
	if len(ignore) > 0 {
		return true
	}
	for _, k := range names {
		if d := differ(seenOf(s1, k, []string{"§", "*"}), seenOf(s2, k, []string{"§", "*"})); d != "" {
			c.Fail("%q: %s\nsaved as %.600s", k, d, savedVars(text)[k])
			return false
		}
	}
	for _, q := range queries {
		for _, v := range mustParse(q) {
			if d := diffRows(drain(e1.ctx, s1, v), drain(e2.ctx, s2, v)); d != "" {
				c.Fail("%s: original and restored scope: %s\nsaved as %.1500s", q, d, text)
				return false
			}
			c.Count("queries_compared", 1)
		}
	}
	c.again(text, s2, nil)
	return true
}

func c23programs(c *Case) {
	stmts, h := c.textProgram()
	var lets, queries []string
	for _, s := range stmts {
		if t := StmtText(s); s.Let != "" {
			lets = append(lets, t)
		} else {
			queries = append(queries, t)
		}
	}
	var ignore []string
	if len(stmts) > 0 && c.R.Intn(4) == 0 {
		for _, s := range stmts {
			if s.Let != "" && c.R.Intn(3) == 0 {
				ignore = append(ignore, s.Let)
			}
		}
		for _, k := range h.Vars.Keys {
			if c.R.Intn(4) == 0 {
				ignore = append(ignore, k)
			}
		}
	}
	c.Desc("%s\n%s\nignore %q\n%s", h, strings.Join(lets, "\n"), ignore, strings.Join(queries, "\n"))
	if nestingOf(c.desc) > 30 {
		return
	}
	if c.restored(h, lets, queries, ignore) && len(lets) > 0 {
		c.Seen(c.desc)
		c.Sample("%s", strings.Join(lets, "\n"))
	}
}

// definitions with odd names, parameters and defaults of every form, called in every way
func c23definitions(c *Case) {
	g := newGen(c.R)
	h := g.host()
	var lets, queries []string
	used := map[string]bool{"only_row": true}
	name := func() string {
		for {
			n := fmt.Sprintf("n%d", c.R.Intn(1000))
			if c.R.Intn(2) == 0 {
				n = c.anyName()
			}
			if !used[n] && !skipName(n) && !strings.ContainsAny(n, "`") && !h.has(n) {
				used[n] = true
				return n
			}
		}
	}
	for i := 1 + c.R.Intn(3); i > 0; i-- {
		def := name()
		var params []Param
		for k := c.R.Intn(4); k > 0; k-- {
			p := Param{Name: name()}
			switch c.R.Intn(6) {
			case 0, 1:
				p.Def = &Arg{Name: p.Name, E: g.Expr("any", 1)}
			case 2:
				p.Def = &Arg{Name: p.Name, Sub: &Select{Cols: []Col{{E: intLit(int64(c.R.Intn(9))), As: "x y"}}, From: From{Path: []string{"one"}, Call: true}}}
			case 3:
				p.Def = &Arg{Name: p.Name, IsA: true, Arr: []Expr{intLit(1), strL(c.anyName())}}
			case 4:
				p.Def = &Arg{Name: p.Name, E: strL(c.anyName())}
			}
			params = append(params, p)
		}
		items := []Expr{strL(def)}
		for _, p := range params {
			items = append(items, sym(p.Name))
		}
		items = append(items, g.Expr("any", 2))
		s := &Stmt{Let: def, Op: "=", Params: params, Called: len(params) > 0 || c.R.Intn(3) == 0}
		call := From{Path: []string{def}, Call: s.Called}
		var args []Arg
		for _, p := range params {
			if p.Def == nil || c.R.Intn(2) == 0 {
				args = append(args, arg(p.Name, g.Expr("any", 1)))
			}
		}
		call.Args = args
		if c.R.Intn(2) == 0 {
			s.E = &Par{E: &Comma{Items: items}}
			queries = append(queries, SelText(&Select{Cols: []Col{{E: callArgs(def, args, s.Called), As: "v"}}, From: From{Path: []string{"one"}, Call: true}}))
		} else {
			sel := &Select{From: From{Path: []string{"t1"}, Call: true}}
			for k, x := range items {
				sel.Cols = append(sel.Cols, Col{E: x, As: fmt.Sprintf("c%d %s", k, def)})
			}
			if c.R.Intn(3) == 0 {
				sel.Where = g.Expr("bool", 1)
			}
			s.Q = sel
			queries = append(queries, SelText(&Select{Cols: []Col{{Star: true}}, From: call}))
		}
		lets = append(lets, StmtText(s))
	}
	c.Desc("%s\n%s\n%s", h, strings.Join(lets, "\n"), strings.Join(queries, "\n"))
	if nestingOf(c.desc) > 30 {
		return
	}
	if c.restored(h, lets, queries, nil) {
		c.Seen(c.desc)
	}
}

func callArgs(name string, args []Arg, called bool) Expr {
	if !called {
		return sym(name)
	}
	return &CallE{Path: []string{name}, Args: args}
}

func (h *Host) has(n string) bool {
	_, ok := h.Vars.M[n]
	return ok
}

func c23large(c *Case) {
	h := NewHost()
	var lets, queries []string
	n := 100 + c.R.Intn(1500)
	switch c.R.Intn(4) {
	case 0: // many variables
		for i := 0; i < n; i++ {
			lets = append(lets, fmt.Sprintf("LET v%d = %d + %d", i, i, c.R.Intn(1000)))
		}
		queries = append(queries, fmt.Sprintf("SELECT v0, v%d, v%d FROM one()", n/2, n-1))
	case 1: // a long materialised query
		lets = append(lets, fmt.Sprintf("LET Q <= SELECT _value, _value * %d AS b, dict(z=_value / 2.0, a='é') AS d FROM range(end=%d)", c.anyInt(), n))
		queries = append(queries, "SELECT * FROM Q", "SELECT d.z / 4 AS x, b / 3 AS y FROM Q")
	case 2: // a long text
		s := strings.ToValidUTF8(strings.Repeat(c.anyString()+"'\"\n", n/10), "?")
		lets = append(lets, "LET S = "+ExprText(strL(s)), "LET M <= "+ExprText(strL(s)))
		queries = append(queries, "SELECT S = M AS same, S FROM one()")
	default: // a long expression
		var parts []string
		for i := 0; i < n; i++ {
			parts = append(parts, fmt.Sprintf("x + %d", i))
		}
		lets = append(lets, "LET F(x, y=3) = ("+strings.Join(parts, ", ")+")")
		queries = append(queries, "SELECT F(x=1) AS v FROM one()")
	}
	c.Desc("%.200s ... %d", lets[0], n)
	if c.restored(h, lets, queries, nil) {
		c.Seen(c.desc)
	}
}

// let statements and what must be the same afterwards
var c23texts = []struct{ lets, queries string }{
	{"LET X <= 1", "SELECT X / 2 AS v FROM one()"},
	{"LET X <= 3.0", "SELECT X / 2 AS v FROM one()"},
	{"LET X <= NULL", "SELECT X AS v FROM one()"},
	{"LET X <= FALSE", "SELECT X AS v, NOT X AS w FROM one()"},
	{"LET X <= 9007199254740993", "SELECT X, X - 9007199254740992 AS d FROM one()"},
	{"LET X <= -9223372036854775808", "SELECT X FROM one()"},
	{"LET X <= dict(z=1, a=dict(z=2.0, a=3))", "SELECT X, X.z / 2 AS h, X.a.z / 4 AS q, X.a.a FROM one()"},
	{"LET X <= (1, 2.0, 'x', NULL, dict(z=1, a=2))", "SELECT X, X[0] / 2 AS h, X[1] / 4 AS q, X[4] FROM one()"},
	{"LET X <= SELECT _value AS z, _value / 2.0 AS a, dict(z=1, b=2) AS d FROM range(end=3)", "SELECT * FROM X SELECT z / 2 AS h, a / 2 AS q, d FROM X"},
	{"LET Q = SELECT 1 AS x FROM one() LET X <= SELECT Q AS q, (Q, 1) AS l, dict(q=Q) AS d FROM one()", "SELECT * FROM X SELECT q, l, d FROM X"},
	{"LET F(a, b=2) = a + b", "SELECT F(a=1) AS v, F(a=1, b=5) AS w FROM one()"},
	{"LET F(`a b`, `SELECT`='x', `-y`=[1, 2]) = (`a b`, `SELECT`, `-y`)", "SELECT F(`a b`=1) AS v FROM one()"},
	{"LET F(q={ SELECT 1 AS x FROM one() }) = SELECT * FROM q", "SELECT * FROM F() SELECT * FROM F(q={ SELECT 2 AS y FROM one() })"},
	{"LET F(x) = SELECT x, 'it''s' AS `FROM` FROM one()", "SELECT * FROM F(x='\\'')"},
	{"LET `a b` = 1 LET `LET` = 'x' LET `é` <= 5", "SELECT `a b`, `LET`, `é` FROM one()"},
	{"LET G(x) = x * 2 LET F(x=G(x=4)) = G(x=x) + 1", "SELECT F() AS v, F(x=1) AS w FROM one()"},
	{"LET C = count()", "SELECT C AS n FROM range(end=4)"},
	{"LET L = 'x=>x+1'", "SELECT L FROM one()"},
	{"LET Q = SELECT * FROM range(end=5) WHERE _value > 1 ORDER BY _value DESC LIMIT 2", "SELECT * FROM Q"},
	{"LET Q = SELECT count() AS n, _value % 2 AS k FROM range(end=5) GROUP BY _value % 2", "SELECT 1 AS x FROM one()"},
	{"LET E <= SELECT * FROM range(end=0)", "SELECT * FROM E SELECT E, len(list=E) AS l FROM one()"},
	{"LET D <= dict()", "SELECT D FROM one()"},
	{"LET L <= ()", "SELECT 1 AS x FROM one()"},
	{"LET S <= 'line\nnext\t\"q\" `b` \\\\ \\'' LET S2 = 'line\nnext\t\"q\" `b` \\\\ \\''", "SELECT S, S2 FROM one()"},
}

func c23fixed(c *Case) {
	t := c23texts[c.Index%len(c23texts)]
	if _, err := parseText(t.lets); err != nil {
		c.Count("not_in_the_language", 1)
		return
	}
	if _, err := parseText(t.queries); err != nil {
		c.Count("not_in_the_language", 1)
		return
	}
	c.Desc("%s\n%s", t.lets, t.queries)
	if c.restored(NewHost(), []string{t.lets}, []string{t.queries}, nil) {
		c.Seen(c.desc)
	}
}
