package main

import (
	"context"
	"fmt"
	"hash/fnv"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/protocols"
	"www.velocidex.com/golang/vfilter/types"
)

// C32: what the host registers is used where it applies, and only there.

func init() {
	register(&Property{ID: "C32",
		Rule: "Recording operator protocols with random sets of operand kinds are registered for host types (struct, pointer, named string, named int); every operator is applied to operands of host and built-in types reached in many ways (variables, fields, lazy expressions, rows, functions, definitions): where the newest applicable protocol exists its result must be the result and it must have been the one called, anywhere else the result must be that of a scope without protocols and nothing may have been called. Families of scopes are built at random with functions, plugins, variables and protocols registered on random members: each name must be visible exactly where it was registered or copied to. Non-trivial: distinct (expression, operand kinds, protocols) and scope families.",
		Groups: []Group{
			{"operators", 12000, 300000, c32operators},
			{"members", 5000, 120000, c32members},
			{"nested", 2500, 60000, c32nested},
			{"families", 3000, 80000, c32families},
			{"statements", 1500, 40000, c32statements},
		}})
}

// host types
type hostA struct{ N int }
type hostB struct{ N int }
type hostC string
type hostD int64

func kindOf(v types.Any) string {
	switch v.(type) {
	case hostA:
		return "A"
	case *hostB:
		return "B"
	case hostC:
		return "C"
	case hostD:
		return "D"
	case nil, types.Null, *types.Null:
		return "null"
	case string:
		return "string"
	case bool:
		return "bool"
	case int64, int:
		return "int"
	case float64:
		return "float"
	case *ordereddict.Dict:
		return "dict"
	case types.LazyExpr:
		return "lazy"
	case types.StoredQuery:
		return "query"
	}
	return strings.TrimPrefix(fmt.Sprintf("%T", v), "types.")
}

func isHost(k string) bool { return len(k) == 1 }

func tagOf(v types.Any) string {
	switch t := v.(type) {
	case hostA:
		return fmt.Sprintf("A%d", t.N)
	case *hostB:
		return fmt.Sprintf("B%d", t.N)
	case hostC:
		return "C" + string(t)
	case hostD:
		return fmt.Sprintf("D%d", int64(t))
	}
	return kindOf(v) + canonE(v)
}

type call32 struct {
	proto *proto
	l, r  string // kinds
}

// proto is the common part of the host's protocols
type proto struct {
	op    string
	id    int
	pairs map[string]bool // "A,int"
	log   *calls32
}

type calls32 struct {
	mu    sync.Mutex
	calls []call32
}

func (p *proto) applicable(a, b types.Any) bool { return p.pairs[kindOf(a)+","+kindOf(b)] }

func (p *proto) called(a, b types.Any) string {
	p.log.mu.Lock()
	p.log.calls = append(p.log.calls, call32{p, kindOf(a), kindOf(b)})
	p.log.mu.Unlock()
	return p.result(a, b)
}
func (p *proto) result(a, b types.Any) string {
	return fmt.Sprintf("%s%d(%s,%s)", p.op, p.id, tagOf(a), tagOf(b))
}
func (p *proto) truth(s string) bool {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()&1 == 1
}

type pEq struct{ *proto }
type pLt struct{ *proto }
type pGt struct{ *proto }
type pAdd struct{ *proto }
type pSub struct{ *proto }
type pMul struct{ *proto }
type pDiv struct{ *proto }
type pIn struct{ *proto }
type pRe struct{ *proto }
type pBool struct{ *proto }
type pIter struct{ *proto }
type pAssoc struct{ *proto }

func (p *pEq) Applicable(a, b types.Any) bool { return p.applicable(a, b) }
func (p *pEq) Eq(s types.Scope, a, b types.Any) bool {
	return p.truth(p.called(a, b))
}
func (p *pLt) Applicable(a, b types.Any) bool        { return p.applicable(a, b) }
func (p *pLt) Lt(s types.Scope, a, b types.Any) bool { return p.truth(p.called(a, b)) }
func (p *pGt) Applicable(a, b types.Any) bool        { return p.applicable(a, b) }
func (p *pGt) Gt(s types.Scope, a, b types.Any) bool { return p.truth(p.called(a, b)) }

func (p *pAdd) Applicable(a, b types.Any) bool              { return p.applicable(a, b) }
func (p *pAdd) Add(s types.Scope, a, b types.Any) types.Any { return p.called(a, b) }
func (p *pSub) Applicable(a, b types.Any) bool              { return p.applicable(a, b) }
func (p *pSub) Sub(s types.Scope, a, b types.Any) types.Any { return p.called(a, b) }
func (p *pMul) Applicable(a, b types.Any) bool              { return p.applicable(a, b) }
func (p *pMul) Mul(s types.Scope, a, b types.Any) types.Any { return p.called(a, b) }
func (p *pDiv) Applicable(a, b types.Any) bool              { return p.applicable(a, b) }
func (p *pDiv) Div(s types.Scope, a, b types.Any) types.Any { return p.called(a, b) }

func (p *pIn) Applicable(a, b types.Any) bool { return p.applicable(a, b) }
func (p *pIn) Membership(s types.Scope, a, b types.Any) bool {
	return p.truth(p.called(a, b))
}
func (p *pRe) Applicable(pattern, target types.Any) bool { return p.applicable(target, pattern) }
func (p *pRe) Match(s types.Scope, pattern, target types.Any) bool {
	return p.truth(p.called(target, pattern))
}
func (p *pBool) Applicable(a types.Any) bool { return p.applicable(a, nil) }
func (p *pBool) Bool(ctx context.Context, s types.Scope, a types.Any) bool {
	return p.truth(p.called(a, nil))
}
func (p *pIter) Applicable(a types.Any) bool { return p.applicable(a, nil) }
func (p *pIter) Iterate(ctx context.Context, s types.Scope, a types.Any) <-chan types.Row {
	r := p.called(a, nil)
	out := make(chan types.Row, 2)
	out <- ordereddict.NewDict().Set("it", r).Set("n", 1)
	out <- ordereddict.NewDict().Set("it", r).Set("n", 2)
	close(out)
	return out
}
func (p *pAssoc) Applicable(a, b types.Any) bool { return p.applicable(a, b) }
func (p *pAssoc) Associative(s types.Scope, a, b types.Any) (types.Any, bool) {
	r := p.called(a, b)
	if f, ok := b.(string); ok && f == "missing" {
		return nil, false
	}
	return r, true
}
func (p *pAssoc) GetMembers(s types.Scope, a types.Any) []string { return []string{"m1", "m2"} }

var ops32 = map[string]string{"eq": "=", "lt": "<", "gt": ">", "add": "+", "sub": "-", "mul": "*", "div": "/", "in": "IN", "re": "=~"}

func (p *proto) impl() types.Any {
	switch p.op {
	case "eq":
		return protocols.EqProtocol(&pEq{p})
	case "lt":
		return &pLt{p}
	case "gt":
		return &pGt{p}
	case "add":
		return &pAdd{p}
	case "sub":
		return &pSub{p}
	case "mul":
		return &pMul{p}
	case "div":
		return &pDiv{p}
	case "in":
		return &pIn{p}
	case "re":
		return &pRe{p}
	case "bool":
		return &pBool{p}
	case "iter":
		return &pIter{p}
	}
	return &pAssoc{p}
}

// world32 is a scope with protocols and values, and the same scope without protocols
type world32 struct {
	c          *Case
	log        *calls32
	protos     []*proto // in the order of registration
	with, bare types.Scope
	vars       *ordereddict.Dict
	lets       []string
	n          int
}

func (c *Case) world32() *world32 {
	w := &world32{c: c, log: &calls32{}, with: vfilter.NewScope(), bare: vfilter.NewScope(), vars: ordereddict.NewDict()}
	return w
}

func (w *world32) register(ops ...string) {
	c := w.c
	for _, op := range ops {
		for i := 1 + c.R.Intn(3); i > 0; i-- {
			p := &proto{op: op, id: len(w.protos), pairs: map[string]bool{}, log: w.log}
			kinds := []string{"A", "B", "C", "D", "int", "float", "string", "bool", "dict"}
			for k := 1 + c.R.Intn(6); k > 0; k-- {
				a, b := c.one("A", "B", "C", "D"), c.one(kinds...)
				switch {
				case op == "bool" || op == "iter":
					p.pairs[a+",null"] = true
				case op == "assoc":
					p.pairs[a+","+c.one("string", "string", "int")] = true
				case c.R.Intn(2) == 0:
					p.pairs[b+","+a] = true
				default:
					p.pairs[a+","+b] = true
				}
			}
			w.protos = append(w.protos, p)
			w.with.AddProtocolImpl(p.impl())
		}
	}
}

// newest applicable protocol
func (w *world32) find(op string, a, b types.Any) *proto {
	for i := len(w.protos) - 1; i >= 0; i-- {
		if p := w.protos[i]; p.op == op && p.applicable(a, b) {
			return p
		}
	}
	return nil
}

func (w *world32) value() types.Any {
	r := w.c.R
	switch r.Intn(12) {
	case 0, 1:
		return hostA{r.Intn(5)}
	case 2, 3:
		return &hostB{r.Intn(5)}
	case 4, 5:
		return hostC([]string{"", "x", "abc"}[r.Intn(3)])
	case 6, 7:
		return hostD(r.Intn(5))
	case 8:
		return int64(r.Intn(5))
	case 9:
		return []types.Any{1.5, 0.0, true, false}[r.Intn(4)]
	case 10:
		return []string{"abc", "x", "b"}[r.Intn(3)]
	}
	return ordereddict.NewDict().Set("k", r.Intn(3)).Set("abc", 1)
}

func (w *world32) host() types.Any {
	for {
		if v := w.value(); isHost(kindOf(v)) {
			return v
		}
	}
}

// getter is a host object whose field is fetched lazily
type getter32 struct{ V types.Any }

func (g *getter32) Value() types.Any { return g.V }

var forms32 = []string{"var", "lazy var", "field", "lazy field", "getter", "function", "lazy function", "definition", "parameter", "column", "lazy column", "item", "lazy item", "if", "callable"}

// operand makes v reachable through some expression
func (w *world32) operand(v types.Any, form string) string {
	w.n++
	name := fmt.Sprintf("v%d", w.n)
	lazy := func(x types.Any) types.Any { return &nestLazy{func() types.Any { return x }} }
	switch form {
	case "lazy var":
		w.vars.Set(name, lazy(v))
	case "field":
		w.vars.Set(name, ordereddict.NewDict().Set("f", v))
		return name + ".f"
	case "lazy field":
		w.vars.Set(name, ordereddict.NewDict().Set("f", lazy(v)))
		return name + ".f"
	case "getter":
		w.vars.Set(name, &getter32{v})
		return name + ".Value"
	case "function", "lazy function":
		x := v
		if form == "lazy function" {
			x = lazy(v)
		}
		f := &vfilter.GenericFunction{FunctionName: name, Function: func(context.Context, types.Scope, *ordereddict.Dict) types.Any { return x }}
		w.with.AppendFunctions(f)
		w.bare.AppendFunctions(f)
		return name + "()"
	case "definition":
		w.vars.Set(name, v)
		w.lets = append(w.lets, fmt.Sprintf("LET d%s = %s", name, name))
		return "d" + name
	case "parameter":
		w.vars.Set(name, v)
		w.lets = append(w.lets, fmt.Sprintf("LET d%s(p) = p", name))
		return fmt.Sprintf("d%s(p=%s)", name, name)
	case "column", "lazy column":
		// a column of the row, set when the statement runs
		w.vars.Set("col_"+name, v)
		if form == "column" {
			return "c_" + name
		}
		return "z_" + name
	case "item":
		w.vars.Set(name, []types.Any{1, v})
		return "(" + name + "[1])"
	case "lazy item":
		w.vars.Set(name, []types.Any{lazy(v), 2})
		return "(" + name + "[0])"
	case "if":
		w.vars.Set(name, v)
		return fmt.Sprintf("if(condition=TRUE, then=%s)", name)
	default:
		w.vars.Set(name, v)
	}
	return name
}

// run evaluates a column in a scope
func (w *world32) run(base types.Scope, expr string, table bool) ([]string, error) {
	scope := base.Copy()
	defer scope.Close()
	scope.AddProtocolImpl() // none
	scope.AppendVars(w.vars)
	scope.AppendPlugins(&tablePlugin{name: "row", f: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row, 1)
		row := vfilter.NewLazyRow(ctx, s)
		row.AddColumn("id", func(ctx context.Context, s types.Scope) types.Any { return int64(1) })
		for _, k := range w.vars.Keys() {
			if !strings.HasPrefix(k, "col_") {
				continue
			}
			v, _ := w.vars.Get(k)
			row.AddColumn("c_"+k[4:], func(ctx context.Context, s types.Scope) types.Any { return v })
			row.AddColumn("z_"+k[4:], func(ctx context.Context, s types.Scope) types.Any {
				return &nestLazy{func() types.Any { return v }}
			})
		}
		out <- row
		close(out)
		return out
	}})
	for _, l := range w.lets {
		vqls, err := parseText(l)
		if err != nil {
			return nil, err
		}
		drain(context.Background(), scope, vqls[0])
	}
	text := "SELECT " + expr + " AS v FROM row()"
	if table {
		text = expr
	}
	vqls, err := parseText(text)
	if err != nil {
		return nil, fmt.Errorf("%s: %w", text, err)
	}
	var out []string
	for r := range vqls[0].Eval(context.Background(), scope) {
		if table {
			out = append(out, canonHost(scope, r))
			continue
		}
		v, _ := scope.Associative(r, "v")
		out = append(out, show32(v))
	}
	return out, nil
}

func show32(v types.Any) string {
	if l, ok := v.(types.LazyExpr); ok {
		v = l.Reduce(context.Background())
	}
	if isHost(kindOf(v)) {
		return tagOf(v)
	}
	if l, ok := v.([]types.Any); ok {
		var out []string
		for _, x := range l {
			out = append(out, show32(x))
		}
		return "[" + strings.Join(out, ", ") + "]"
	}
	return canonE(v)
}

func canonHost(scope types.Scope, row types.Row) string {
	var out []string
	for _, m := range scope.GetMembers(row) {
		v, _ := scope.Associative(row, m)
		out = append(out, m+": "+show32(v))
	}
	return "{" + strings.Join(out, ", ") + "}"
}

// expect is the result of one operator, through the newest protocol or as if there were none
func (w *world32) expect(op string, a, b types.Any, ea, eb string) (string, *proto, error) {
	if p := w.find(op, a, b); p != nil {
		r := p.result(a, b)
		switch op {
		case "add", "sub", "mul", "div":
			return canonE(r), p, nil
		}
		return fmt.Sprint(p.truth(r)), p, nil
	}
	got, err := w.run(w.bare, ea+" "+ops32[op]+" "+eb, false)
	if err != nil || len(got) != 1 {
		return "", nil, fmt.Errorf("%v %v", got, err)
	}
	return got[0], nil, nil
}

func (w *world32) contained() string {
	for _, x := range w.log.calls {
		if !x.proto.pairs[x.l+","+x.r] {
			return fmt.Sprintf("protocol %s%d was called for (%s, %s) but declares only %v", x.proto.op, x.proto.id, x.l, x.r, x.proto.pairs)
		}
	}
	return ""
}

func (w *world32) describe() string {
	var out []string
	for _, p := range w.protos {
		var pairs []string
		for k := range p.pairs {
			pairs = append(pairs, "("+k+")")
		}
		out = append(out, fmt.Sprintf("%s%d for %s", p.op, p.id, strings.Join(sorted(pairs), " ")))
	}
	return strings.Join(out, "; ")
}

func (w *world32) close() { w.with.Close(); w.bare.Close() }

func c32operators(c *Case) {
	w := c.world32()
	defer w.close()
	w.register("eq", "lt", "gt", c.one("add", "sub", "mul", "div"), c.one("in", "re"), "bool")
	op := c.one("=", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "IN", "=~", "NOT", "AND", "OR", "if", "WHERE")
	for _, o := range []string{"add", "sub", "mul", "div", "in", "re"} {
		if ops32[o] == op && c.R.Intn(3) > 0 {
			w.register(o)
		}
	}
	a, b := w.host(), w.value()
	if c.R.Intn(2) == 0 {
		a, b = b, a
	}
	// prefer pairs someone declares
	for i := 0; i < 6 && w.find("eq", a, b) == nil && w.find("lt", a, b) == nil; i++ {
		a, b = w.value(), w.host()
	}
	fa, fb := c.one(forms32...), c.one(forms32...)
	ea, eb := w.operand(a, fa), w.operand(b, fb)
	var expr, want string
	var used []*proto
	var err error
	one := func(o string) bool {
		var s string
		var p *proto
		s, p, err = w.expect(o, a, b, ea, eb)
		if p != nil {
			used = append(used, p)
		}
		return s == "true"
	}
	truth := func(v types.Any, e string) bool {
		if p := w.find("bool", v, nil); p != nil {
			used = append(used, p)
			return p.truth(p.result(v, nil))
		}
		var got []string
		got, err = w.run(w.bare, "NOT "+e, false)
		return len(got) == 1 && got[0] == "false"
	}
	expr = ea + " " + op + " " + eb
	table := false
	switch op {
	case "!=":
		want = fmt.Sprint(!one("eq"))
	case "<=":
		want = fmt.Sprint(one("lt") || one("eq"))
	case ">=":
		want = fmt.Sprint(one("gt") || one("eq"))
	case "NOT":
		expr = "NOT " + ea
		want = fmt.Sprint(!truth(a, ea))
	case "AND":
		want = fmt.Sprint(truth(a, ea) && truth(b, eb))
	case "OR":
		want = fmt.Sprint(truth(a, ea) || truth(b, eb))
		expr = "NOT NOT (" + expr + ")"
	case "if":
		expr = fmt.Sprintf("if(condition=%s, then='yes', else='no')", ea)
		want = canonE("no")
		if truth(a, ea) {
			want = canonE("yes")
		}
	case "WHERE":
		table = true
		expr = "SELECT 5 AS v FROM row() WHERE " + ea
		want = ""
		if truth(a, ea) {
			want = "{v: i:5}"
		}
	default:
		for o, s := range ops32 {
			if s == op {
				var p *proto
				want, p, err = w.expect(o, a, b, ea, eb)
				if p != nil {
					used = append(used, p)
				}
			}
		}
	}
	c.Desc("%s\n%s\n%s = %s (%s), %s = %s (%s)\n%s", w.describe(), strings.Join(w.lets, "\n"), ea, tagOf(a), fa, eb, tagOf(b), fb, expr)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	w.log.calls = nil
	got, err := w.run(w.with, expr, table)
	c.Eval(1)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	have := strings.Join(got, " ")
	if have != want {
		c.Fail("%s gives %s, want %s (protocols called: %d)", expr, have, want, len(w.log.calls))
		return
	}
	if msg := w.contained(); msg != "" {
		c.Fail("%s", msg)
		return
	}
	// those expected were called, and no others
	for _, x := range w.log.calls {
		ok := false
		for _, p := range used {
			ok = ok || p == x.proto
		}
		if !ok {
			c.Fail("protocol %s%d was called for (%s, %s)", x.proto.op, x.proto.id, x.l, x.r)
			return
		}
	}
	if len(used) > 0 && len(w.log.calls) == 0 {
		c.Fail("no protocol was called")
		return
	}
	c.Count("protocol_calls", len(w.log.calls))
	c.Count("form_"+strings.ReplaceAll(fa, " ", "_"), 1)
	if len(used) > 0 {
		c.Count("decided_by_protocol", 1)
		c.Seen(w.describe() + expr + tagOf(a) + tagOf(b) + fa + fb)
		c.Sample("%s with %s and %s ⇒ %s", expr, tagOf(a), tagOf(b), have)
	} else {
		c.Count("decided_by_builtin", 1)
	}
}

// fields, members and iteration
func c32members(c *Case) {
	w := c.world32()
	defer w.close()
	w.register("assoc", "iter")
	a := w.host()
	for i := 0; i < 4 && w.find("assoc", a, "f") == nil; i++ {
		a = w.host()
	}
	form := c.one(forms32...)
	e := w.operand(a, form)
	kind := c.R.Intn(7)
	var expr, want string
	table := false
	var p *proto
	field := c.one("f", "Name", "abc", "missing", "N")
	var bare bool
	switch kind {
	case 0, 1:
		expr = e + "." + field
		if kind == 1 {
			expr = e + "['" + field + "']"
		}
		if p = w.find("assoc", a, field); p != nil {
			want = canonE(p.result(a, field))
			if field == "missing" {
				want = "null"
			}
		} else {
			bare = true
		}
	case 2:
		i := int64(c.R.Intn(3))
		expr = fmt.Sprintf("%s[%d]", e, i)
		if p = w.find("assoc", a, i); p != nil {
			want = canonE(p.result(a, i))
		} else {
			bare = true
		}
	case 3, 4: // iteration
		table = true
		expr = fmt.Sprintf("SELECT * FROM foreach(row=%s)", e)
		if strings.Contains(form, "column") {
			expr = fmt.Sprintf("SELECT * FROM foreach(row={ SELECT %s AS x FROM row() }, query={ SELECT * FROM foreach(row=x) })", e)
		}
		if p = w.find("iter", a, nil); p != nil {
			s := canonE(p.result(a, nil))
			want = fmt.Sprintf("{it: %s, n: i:1} {it: %s, n: i:2}", s, s)
		} else {
			bare = true
		}
	case 5: // the columns of a row of the host's type
		table = true
		expr = fmt.Sprintf("SELECT * FROM %s", e)
		if form != "var" && form != "field" {
			expr, form = fmt.Sprintf("SELECT * FROM hosts()"), "row"
		}
		if p = w.find("assoc", a, "m1"); p != nil {
			want = fmt.Sprintf("{m1: %s, m2: %s}", canonE(p.result(a, "m1")), canonE(p.result(a, "m2")))
		} else {
			bare = true
		}
	default: // a row of the host's type binds its members
		table = true
		expr = "SELECT f AS v FROM hosts()"
		if p = w.find("assoc", a, "f"); p != nil {
			want = "{v: " + canonE(p.result(a, "f")) + "}"
		} else {
			bare = true
		}
	}
	for _, s := range []types.Scope{w.with, w.bare} {
		s.AppendPlugins(&tablePlugin{name: "hosts", f: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
			out := make(chan types.Row, 1)
			out <- a
			close(out)
			return out
		}})
	}
	c.Desc("%s\n%s\n%s = %s (%s)\n%s", w.describe(), strings.Join(w.lets, "\n"), e, tagOf(a), form, expr)
	if bare {
		got, err := w.run(w.bare, expr, table)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		want = strings.Join(got, " ")
	}
	w.log.calls = nil
	got, err := w.run(w.with, expr, table)
	c.Eval(1)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	if have := strings.Join(got, " "); have != want {
		c.Fail("%s gives %s, want %s", expr, have, want)
		return
	}
	if msg := w.contained(); msg != "" {
		c.Fail("%s", msg)
		return
	}
	for _, x := range w.log.calls {
		if q := w.find(x.proto.op, a, map[string]types.Any{"string": "f", "int": int64(0), "null": nil}[x.r]); q != x.proto {
			c.Fail("protocol %s%d was called for (%s, %s), a newer one applies", x.proto.op, x.proto.id, x.l, x.r)
			return
		}
	}
	c.Count("protocol_calls", len(w.log.calls))
	if p != nil {
		c.Count("decided_by_protocol", 1)
		c.Seen(w.describe() + expr + tagOf(a) + form)
	} else {
		c.Count("decided_by_builtin", 1)
	}
}

// protocols reached through the built-in ones: lists of host values, sorting, grouping functions
func c32nested(c *Case) {
	w := c.world32()
	defer w.close()
	w.register("eq", "lt", "gt", "re", "add", "bool")
	kind := c.R.Intn(5)
	var expr, want string
	eq := func(a, b types.Any) bool {
		if p := w.find("eq", a, b); p != nil {
			return p.truth(p.result(a, b))
		}
		return w.bare.Eq(a, b)
	}
	n := 1 + c.R.Intn(4)
	if c.R.Intn(20) == 0 {
		n = 50
	}
	var xs, ys []types.Any
	for i := 0; i < n; i++ {
		xs, ys = append(xs, w.value()), append(ys, w.value())
	}
	var tags []string
	for _, x := range xs {
		tags = append(tags, tagOf(x))
	}
	hosts := false
	form := c.one("var", "lazy var", "field", "lazy field", "function", "lazy function", "getter")
	switch kind {
	case 0: // lists are compared member by member
		expr = w.operand(xs, form) + " = " + w.operand(ys, form)
		all := true
		for i := range xs {
			hosts = hosts || w.find("eq", xs[i], ys[i]) != nil
			if !eq(xs[i], ys[i]) {
				all = false
				break
			}
		}
		want = fmt.Sprint(all)
	case 1: // IN compares with every member
		v := w.host()
		expr = w.operand(v, form) + " IN " + w.operand(xs, form)
		some := false
		for _, x := range xs {
			hosts = hosts || w.find("eq", v, x) != nil
			if eq(v, x) {
				some = true
				break
			}
		}
		want = fmt.Sprint(some)
	case 2: // a pattern is matched with every member
		expr = w.operand(xs, form) + " =~ " + w.operand("abc", "var")
		some := false
		for _, x := range xs {
			if p := w.find("re", x, "abc"); p != nil {
				hosts = true
				some = some || p.truth(p.result(x, "abc"))
			} else {
				some = some || w.bare.Match("abc", x)
			}
		}
		want = fmt.Sprint(some)
	case 3: // adding the members of a list of values one by one
		var terms []string
		for i, x := range xs {
			if i > 3 {
				break
			}
			terms = append(terms, w.operand(x, form))
		}
		expr = strings.Join(terms, " + ")
		acc := xs[0]
		for i := 1; i < len(terms); i++ {
			if p := w.find("add", acc, xs[i]); p != nil {
				acc = p.result(acc, xs[i])
				hosts = true
			} else {
				acc = w.bare.Add(acc, xs[i])
			}
		}
		want = show32(acc)
	default: // chains of AND
		var terms []string
		all := true
		for i, x := range xs {
			if i > 5 {
				break
			}
			terms = append(terms, w.operand(x, form))
			if p := w.find("bool", x, nil); p != nil {
				hosts = true
				all = all && p.truth(p.result(x, nil))
			} else {
				all = all && w.bare.Bool(x)
			}
		}
		expr = "NOT (" + strings.Join(terms, " AND ") + ")"
		want = fmt.Sprint(!all)
	}
	c.Desc("%s\nmembers %v (%s)\n%s", w.describe(), tags, form, expr)
	w.log.calls = nil
	got, err := w.run(w.with, expr, false)
	c.Eval(1)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	if have := strings.Join(got, " "); have != want {
		c.Fail("%s gives %s, want %s", expr, have, want)
		return
	}
	if msg := w.contained(); msg != "" {
		c.Fail("%s", msg)
		return
	}
	c.Count("protocol_calls", len(w.log.calls))
	if hosts {
		c.Seen(c.desc)
	}
}

// member32 is one scope of a family with what it must see
type member32 struct {
	s      types.Scope
	name   string
	parent *member32
	family *family32
	vars   map[string]string
	closed bool
}

// family32 shares what is registered; names registered in one family after another branched off are its own
type family32 struct {
	reg map[string]string // "f name", "p name", "eq kind" -> result
}

func c32families(c *Case) {
	root := func(i int) *member32 {
		return &member32{s: vfilter.NewScope(), name: fmt.Sprintf("s%d", i), family: &family32{map[string]string{}}, vars: map[string]string{}}
	}
	all := []*member32{root(0), root(1)}
	defer func() {
		for _, m := range all {
			m.s.Close()
		}
	}()
	var steps []string
	steps = append(steps, "s0 = NewScope()", "s1 = NewScope()")
	log := &calls32{}
	names := []string{"n1", "n2", "n3"}
	k := 6 + c.R.Intn(20)
	serial := 0
	for i := 0; i < k; i++ {
		m := all[c.R.Intn(len(all))]
		serial++
		tag := fmt.Sprintf("r%d", serial)
		switch c.R.Intn(9) {
		case 0, 1:
			n := &member32{s: m.s.Copy(), name: fmt.Sprintf("s%d", len(all)), parent: m, family: m.family, vars: map[string]string{}}
			for a, b := range m.vars {
				n.vars[a] = b
			}
			all = append(all, n)
			steps = append(steps, fmt.Sprintf("%s = %s.Copy()", n.name, m.name))
		case 2: // isolated
			n := &member32{s: m.s.NewScope(), name: fmt.Sprintf("s%d", len(all)), family: &family32{map[string]string{}}, vars: map[string]string{}}
			for a, b := range m.family.reg {
				n.family.reg[a] = b
			}
			all = append(all, n)
			steps = append(steps, fmt.Sprintf("%s = %s.NewScope()", n.name, m.name))
		case 3:
			n := c.one(names...)
			m.s.AppendVars(ordereddict.NewDict().Set(n, tag))
			m.vars[n] = tag
			steps = append(steps, fmt.Sprintf("%s: var %s = %s", m.name, n, tag))
		case 4:
			n := c.one(names...)
			text := fmt.Sprintf("LET %s %s '%s'", n, c.one("=", "<="), tag)
			drain(context.Background(), m.s, mustParse(text)[0])
			m.vars[n] = tag
			steps = append(steps, fmt.Sprintf("%s: %s", m.name, text))
		case 5:
			n := c.one(names...)
			m.s.AppendFunctions(&vfilter.GenericFunction{FunctionName: n, Function: func(context.Context, types.Scope, *ordereddict.Dict) types.Any { return tag }})
			m.family.reg["f "+n] = tag
			steps = append(steps, fmt.Sprintf("%s: function %s gives %s", m.name, n, tag))
		case 6:
			n := c.one(names...)
			m.s.AppendPlugins(&tablePlugin{name: n, f: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
				out := make(chan types.Row, 1)
				out <- ordereddict.NewDict().Set("v", tag)
				close(out)
				return out
			}})
			m.family.reg["p "+n] = tag
			steps = append(steps, fmt.Sprintf("%s: plugin %s gives %s", m.name, n, tag))
		case 7, 8:
			kind := c.one("A", "B", "C", "D")
			op, other := c.one("add", "add", "iter", "mul"), kind
			if op == "iter" {
				other = "null"
			}
			p := &proto{op: op, id: serial, pairs: map[string]bool{kind + "," + other: true}, log: log}
			m.s.AddProtocolImpl(p.impl())
			m.family.reg[op+" "+kind] = fmt.Sprint(serial)
			steps = append(steps, fmt.Sprintf("%s: protocol %d for %s of %s", m.name, serial, op, kind))
		}
	}
	// values of the context are forgotten, nothing else
	for _, m := range all {
		if c.R.Intn(6) == 0 {
			m.s.ClearContext()
			steps = append(steps, m.name+".ClearContext()")
		}
	}
	c.Desc("%s", strings.Join(steps, "\n"))
	c.Eval(1)
	values := map[string]types.Any{"A": hostA{1}, "B": &hostB{2}, "C": hostC("x"), "D": hostD(3)}
	shared := mustParse("SELECT n1() AS f1, n2() AS f2, n3() AS f3 FROM scope()")[0]
	checks := 0
	for _, m := range all {
		see := func(text string) string {
			s := m.s.Copy()
			defer s.Close()
			return strings.Join(drain(context.Background(), s, mustParse(text)[0]), " ")
		}
		fs := map[string]string{}
		for _, n := range names {
			want := "null"
			if v, ok := m.vars[n]; ok {
				want = canonE(v)
			}
			if got := see("SELECT " + n + " AS v FROM scope()"); got != `{"v": `+want+"}" {
				c.Fail("variable %s in %s is %s, want %s", n, m.name, got, want)
				return
			}
			want = "null"
			if v, ok := m.family.reg["f "+n]; ok {
				want = canonE(v)
			} else if _, ok := m.vars[n]; ok {
				want = "" // calling a variable: not this property
			}
			fs[n] = want
			if got := see("SELECT " + n + "() AS v FROM scope()"); want != "" && got != `{"v": `+want+"}" {
				c.Fail("function %s in %s gives %s, want %s", n, m.name, got, want)
				return
			}
			if v, ok := m.family.reg["p "+n]; ok {
				if got := see("SELECT * FROM " + n + "()"); got != fmt.Sprintf(`{"v": %q}`, v) {
					c.Fail("plugin %s in %s gives %s, want %s", n, m.name, got, v)
					return
				}
			} else if _, ok := m.s.GetPlugin(n); ok {
				c.Fail("plugin %s is visible in %s", n, m.name)
				return
			}
			if _, ok := m.s.GetFunction(n); ok != (m.family.reg["f "+n] != "") {
				c.Fail("function %s in %s: visible %v", n, m.name, ok)
				return
			}
			checks += 3
		}
		// one parsed statement serves every scope
		got := drain(context.Background(), m.s, shared)
		if fs["n1"] != "" && fs["n2"] != "" && fs["n3"] != "" {
			if want := fmt.Sprintf(`{"f1": %s, "f2": %s, "f3": %s}`, fs["n1"], fs["n2"], fs["n3"]); strings.Join(got, " ") != want {
				c.Fail("the statement shared by all scopes gives %s in %s, want %s", got, m.name, want)
				return
			}
		}
		for kind, v := range values {
			want := "null"
			if id, ok := m.family.reg["add "+kind]; ok {
				want = canonE(fmt.Sprintf("add%s(%s,%s)", id, tagOf(v), tagOf(v)))
			}
			if got := show32(m.s.Add(v, v)); got != want {
				c.Fail("adding %s in %s gives %s, want %s", kind, m.name, got, want)
				return
			}
			want = "null"
			if id, ok := m.family.reg["mul "+kind]; ok {
				want = canonE(fmt.Sprintf("mul%s(%s,%s)", id, tagOf(v), tagOf(v)))
			}
			if got := show32(m.s.Mul(v, v)); got != want {
				c.Fail("multiplying %s in %s gives %s, want %s", kind, m.name, got, want)
				return
			}
			want = "none"
			if id, ok := m.family.reg["iter "+kind]; ok {
				want = fmt.Sprintf("iter%s(%s,%s)", id, tagOf(v), tagOf(nil))
			}
			got := "none"
			for r := range m.s.Iterate(context.Background(), v) {
				if d, ok := r.(*ordereddict.Dict); ok {
					if it, ok := d.Get("it"); ok {
						got = fmt.Sprint(it)
					}
				}
			}
			if got != want {
				c.Fail("iterating over %s in %s gives %s, want %s", kind, m.name, got, want)
				return
			}
			checks++
		}
		if _, ok := m.s.Resolve("NULL"); !ok {
			c.Fail("NULL is not defined in %s", m.name)
			return
		}
	}
	c.Count("names_checked", checks)
	c.Count("scopes", len(all))
	c.Seen(c.desc)
}

// the whole machinery on statements: sorting, grouping and aggregates over host values
func c32statements(c *Case) {
	w := c.world32()
	defer w.close()
	// an order on A and one on B: by N, downwards for B
	count := &calls32{}
	less := func(a, b types.Any) (bool, bool) {
		switch x := a.(type) {
		case hostA:
			if y, ok := b.(hostA); ok {
				return x.N < y.N, true
			}
		case *hostB:
			if y, ok := b.(*hostB); ok {
				return x.N > y.N, true
			}
		}
		return false, false
	}
	w.with.AddProtocolImpl(&orderLt{less, count, false}, &orderGt{less, count})
	n := 1 + c.R.Intn(30)
	b := c.R.Intn(2) == 0
	lazy := c.R.Intn(2) == 0
	perm := c.R.Perm(n)
	rows := func(ctx context.Context, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row, n)
		for _, p := range perm {
			var v types.Any = hostA{p}
			if b {
				v = &hostB{p}
			}
			if lazy {
				x := v
				v = &nestLazy{func() types.Any { return x }}
			}
			out <- ordereddict.NewDict().Set("h", v).Set("p", int64(p))
		}
		close(out)
		return out
	}
	w.with.AppendPlugins(&tablePlugin{name: "hosts", f: rows})
	desc := c.R.Intn(2) == 0
	kind := c.R.Intn(4)
	var text, want string
	lo, hi := 0, n-1
	if b {
		lo, hi = n-1, 0
	}
	switch kind {
	case 0, 1:
		text = "SELECT p, h FROM hosts() ORDER BY h"
		up := !b
		if desc {
			text += " DESC"
			up = b
		}
		var out []string
		for i := 0; i < n; i++ {
			j := i
			if !up {
				j = n - 1 - i
			}
			out = append(out, fmt.Sprint(j))
		}
		want = strings.Join(out, " ")
	case 2:
		text = "SELECT min(item=h) AS m, max(item=h) AS x FROM hosts() GROUP BY 1"
		want = fmt.Sprintf("%d %d", lo, hi)
	default:
		k := c.R.Intn(n)
		var pivot types.Any = hostA{k}
		if b {
			pivot = &hostB{k}
		}
		w.vars.Set("pivot", pivot)
		w.with.AppendVars(w.vars)
		text = "SELECT p FROM hosts() WHERE h < pivot"
		var out []string
		for _, p := range perm {
			if (!b && p < k) || (b && p > k) {
				out = append(out, fmt.Sprint(p))
			}
		}
		want = strings.Join(out, " ")
	}
	c.Desc("%d rows, values of B: %v, lazily: %v, order %v\n%s", n, b, lazy, perm, text)
	num := func(v types.Any) string {
		if l, ok := v.(types.LazyExpr); ok {
			v = l.Reduce(context.Background())
		}
		switch t := v.(type) {
		case hostA:
			return fmt.Sprint(t.N)
		case *hostB:
			return fmt.Sprint(t.N)
		}
		return strings.TrimPrefix(canonE(v), "i:")
	}
	var got []string
	for r := range mustParse(text)[0].Eval(context.Background(), w.with) {
		d := r.(*ordereddict.Dict)
		if kind == 2 {
			m, _ := d.Get("m")
			x, _ := d.Get("x")
			got = append(got, num(m), num(x))
			continue
		}
		p, _ := d.Get("p")
		got = append(got, num(p))
	}
	c.Eval(1)
	if have := strings.Join(got, " "); have != want {
		c.Fail("%s gives %s, want %s", text, have, want)
		return
	}
	c.Count("protocol_calls", len(count.calls))
	if n > 1 {
		c.Seen(c.desc)
	}
}

type orderLt struct {
	less func(a, b types.Any) (bool, bool)
	log  *calls32
	gt   bool
}

func (o *orderLt) Applicable(a, b types.Any) bool { _, ok := o.less(a, b); return ok }
func (o *orderLt) Lt(s types.Scope, a, b types.Any) bool {
	o.log.mu.Lock()
	o.log.calls = append(o.log.calls, call32{})
	o.log.mu.Unlock()
	r, _ := o.less(a, b)
	return r
}

type orderGt struct {
	less func(a, b types.Any) (bool, bool)
	log  *calls32
}

func (o *orderGt) Applicable(a, b types.Any) bool { _, ok := o.less(a, b); return ok }
func (o *orderGt) Gt(s types.Scope, a, b types.Any) bool {
	r, _ := o.less(b, a)
	return r
}
