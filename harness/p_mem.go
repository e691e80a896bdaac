package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// C39: a long-running query retains nothing per row.

func init() {
	register(&Property{ID: "C39",
		Rule: "Streaming queries composed at random (columns, filters, definitions, combinators, workers, sub-queries, aggregates) read a source of many rows which measures the live heap (after a forced collection) and the number of goroutines at intervals; one scope is used for thousands of evaluations, copies and calls of each kind with the same measurement. More than 64 bytes per row, or a goroutine per hundred rows, retained steadily over all intervals is a violation. Non-trivial: distinct query shapes.",
		Assume: []string{"retention below 64 bytes per row of a query, or which does not grow over all intervals, is not reported (in the soak of single calls: below 4 bytes per call)",
			"every distinct regular expression a scope has matched with is kept compiled (by design), so patterns taken from the rows are not used"},
		Groups: []Group{
			{"stream", 160, 3000, c39stream},
			{"repeat", 160, 3000, c39repeat},
			{"soak", 48, 400, c39soak},
		}})
}

type meter39 struct {
	at    []int
	heap  []uint64
	gor   []int
	base  int
	every int
	names string
}

func (m *meter39) measure(row int) {
	runtime.GC()
	runtime.GC()
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	m.at = append(m.at, row)
	m.heap = append(m.heap, ms.HeapAlloc)
	m.gor = append(m.gor, runtime.NumGoroutine())
}

// verdict wants growth over every interval.
func (m *meter39) verdict() string {
	if len(m.at) < 4 {
		return "too few measurements"
	}
	heap, gor := true, true
	for i := 1; i < len(m.at); i++ {
		rows := m.at[i] - m.at[i-1]
		if int64(m.heap[i])-int64(m.heap[i-1]) < int64(rows*64) {
			heap = false
		}
		if (m.gor[i]-m.gor[i-1])*100 < rows {
			gor = false
		}
	}
	if heap {
		return fmt.Sprintf("the live heap grows with the rows: %v bytes after %v rows", m.heap, m.at)
	}
	if gor {
		return fmt.Sprintf("the number of goroutines grows with the rows: %v after %v rows", m.gor, m.at)
	}
	return ""
}

type host39 struct {
	s     types.Scope
	m     *meter39
	limit int
}

func row39(i int) *ordereddict.Dict {
	return ordereddict.NewDict().Set("a", int64(i)).Set("b", fmt.Sprintf("s%d", i%7)).Set("c", fmt.Sprintf("unique string %d of some length", i)).
		Set("d", ordereddict.NewDict().Set("x", int64(i%3)).Set("l", []types.Any{int64(1), int64(i % 5)}))
}

// newHost39: src() gives limit rows and measures, few() gives three.
func newHost39(limit int) *host39 {
	h := &host39{s: vfilter.NewScope(), m: &meter39{every: limit / 5}, limit: limit}
	plugin := func(name string, n int, meter bool) {
		h.s.AppendPlugins(&tablePlugin{name: name, f: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
			out := make(chan types.Row)
			go func() {
				defer close(out)
				for i := 0; i < n; i++ {
					select {
					case out <- row39(i):
					case <-ctx.Done():
						return
					}
					if meter && i > 0 && i%h.m.every == 0 {
						h.m.measure(i)
					}
				}
				if meter {
					h.m.measure(n)
				}
			}()
			return out
		}})
	}
	plugin("src", limit, true)
	plugin("few", 3, false)
	plugin("one", 1, false)
	h.s.AppendFunctions(vfilter.GenericFunction{FunctionName: "probe", Function: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) types.Any {
		v, _ := args.Get("v")
		if l, ok := v.(types.LazyExpr); ok {
			v = l.Reduce(ctx)
		}
		return v
	}})
	return h
}

var (
	lets39 = []string{
		"LET F(x) = x + 1", "LET G(x, y=2) = dict(x=x, y=y)", "LET V = 5", "LET W <= SELECT * FROM few()", "LET Q = SELECT a AS q FROM few()",
		"LET T(n) = SELECT a + n AS t FROM few()", "LET R(n) = if(condition=n > 0, then=R(n=n - 1), else=7)",
	}
	exprs39 = []string{"a", "b", "c", "d.x", "d.l[1]", "a + 1", "F(x=a)", "G(x=b).x", "V", "V + a", "format(format='%v-%v', args=[a, b])", "if(condition=a > 3, then=b, else=c)",
		"b =~ 's[0-3]'", "a IN (1, 2, 3)", "dict(a=a, b=b)", "(a, b, c)", "len(list=c)", "split(string=c, sep=' ')", "get(item=d, member='l.1')", "probe(v=a)", "{ SELECT a AS z FROM one() }",
		"{ SELECT * FROM few() }", "W[0].a", "len(list=W)", "T(n=a).t", "R(n=4)", "count()", "sum(item=a)", "max(item=a)", "min(item=a)", "nofn(x=1)", "nosuch", "a.b.c", "NOT a", "a = 1 OR b = 's1'", "timestamp(epoch=a)", "encode(string=c, type='hex')",
		"if(condition=a, then={ SELECT * FROM few() })", "Q.q", "version(function='len')",
		"len(list=b, extra=1)", "len()", "V(x=1)", "nosuch", "nosuch.a", "F(y=a)", "G()", "G(x=a, z=2)", "get(item=d, member='nope')", "'x' + a", "a / 0", "d.l[9]", "b[1:2]", "items(item=d)",
		"enumerate(items=b) AND 1", "lowcase(string=c)", "b =~ '('", "{ SELECT count() AS n FROM few() GROUP BY 1 }", "{ SELECT a FROM few() WHERE a > 5 }", "{ SELECT a FROM few() ORDER BY a DESC LIMIT 1 }", "scope().a",
		"atoi(string='12')", "eval(func='x=>x + 1', args=[a])", "filter(list=(1, 2, 3), condition='x=>x > 1')"}
	wheres39 = []string{"", "", "a % 2 = 0", "a > 10 AND b", "b =~ 's'", "a IN (SELECT a FROM few())", "NOT nosuch", "nosuch", "NULL", "d.nope", "nofn(x=1)", "NOT nosuch AND a > 3", "F(x=a) > 2", "c", "len(list=c) > 3", "a < 5", "V AND R(n=2)", "d.x = 1"}
)

func (c *Case) exprs39(n int) string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, c.one(exprs39...)+fmt.Sprintf(" AS c%d", i))
	}
	if c.R.Intn(3) == 0 {
		out = append(out, "*")
	}
	return strings.Join(out, ", ")
}

func (c *Case) where39() string {
	w := c.one(wheres39...)
	for strings.Contains(w, "%") || strings.Contains(w, "IN (SELECT") { // not VQL
		w = c.one(wheres39...)
	}
	if w == "" {
		return ""
	}
	return " WHERE " + w
}

// streaming query over from
func (c *Case) stream39(depth int) string {
	from := "src()"
	if depth > 0 {
		in := c.stream39(depth - 1)
		switch c.R.Intn(8) {
		case 0:
			from = "foreach(row={ " + in + " }, query={ SELECT " + c.exprs39(1) + " FROM one() })"
		case 1:
			from = "foreach(row={ " + in + " }, query={ SELECT * FROM few()" + c.where39() + " })"
		case 2:
			from = "foreach(row={ " + in + " }, workers=" + c.one("2", "5") + ", query={ SELECT a, b, c, d FROM one() })"
		case 3:
			from = "chain(x={ " + in + " }, y={ SELECT * FROM few() })"
		case 4:
			from = "flatten(query={ SELECT a, b, c, d, d.l AS l FROM " + "src()" + " })"
		case 5:
			from = "if(condition=1, then={ " + in + " })"
		case 6:
			from = "foreach(row={ " + in + " })"
		case 7:
			from = "S"
		}
	}
	q := "SELECT " + c.exprs39(1+c.R.Intn(4)) + " FROM " + from + c.where39()
	switch c.R.Intn(8) {
	case 0:
		q += " GROUP BY " + c.one("b", "1", "d.x", "b, d.x")
	case 1:
		q += " LIMIT 1000000000"
	}
	return q
}

func c39stream(c *Case) {
	lets := strings.Join(lets39, " ") + " LET S = SELECT * FROM src()"
	q := c.stream39(c.R.Intn(3))
	c.Desc("%s\n%s", lets, q)
	n := 4000
	if strings.Contains(q, "R(n=4)") {
		n = 2500
	}
	c.leak39(n, lets, q)
	c.Seen(q)
}

func (c *Case) leak39(n int, lets, q string) {
	for try := 1; ; try++ {
		h := newHost39(n * try)
		vqls, err := vfilter.MultiParse(lets + " " + q)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		rows := 0
		for _, v := range vqls {
			for row := range v.Eval(ctx, h.s) {
				rows++
				if rows%50 == 1 {
					vfilter.RowToDict(ctx, h.s, row)
				}
			}
		}
		cancel()
		h.s.Close()
		c.Eval(1)
		c.Count("rows read", h.limit)
		bad := h.m.verdict()
		if bad == "" {
			if c.Index < 3 {
				c.Sample("%s: %d rows out, heap %v", q, rows, h.m.heap)
			}
			return
		}
		if bad == "too few measurements" {
			c.Inconclusive("%s: %v", bad, h.m.at)
			return
		}
		if try == 2 { // confirmed over twice as many rows
			c.Fail("%s", bad)
			return
		}
	}
}

// c39repeat: thousands of uses of one scope
func c39repeat(c *Case) {
	forms := []string{"statement", "parse", "copy", "lambda", "call", "resolve", "limit", "cancel", "newscope", "context"}
	form := forms[c.R.Intn(len(forms))]
	q := "SELECT " + c.exprs39(1+c.R.Intn(3)) + " FROM few()" + c.where39()
	if c.R.Intn(4) == 0 {
		q += c.one(" GROUP BY b", " ORDER BY a", " LIMIT 2", " ORDER BY a DESC LIMIT 1")
	}
	if form == "limit" {
		q = "SELECT " + c.exprs39(1) + " FROM src() LIMIT 2"
	}
	nested := c.R.Intn(3)
	held := 0
	if c.R.Intn(2) == 0 {
		held = 1 + c.R.Intn(30)
	}
	c.Desc("%s (in %d nested scopes, %d siblings held): %s", form, nested, held, q)
	n := 1200
	for try := 1; ; try++ {
		h := newHost39(1000000)
		h.m.every = 1 << 40
		s := h.s
		for _, v := range mustParse(strings.Join(lets39, " ")) {
			drain(context.Background(), s, v)
		}
		for i := 0; i < nested; i++ {
			s = s.Copy()
		}
		vql, err := vfilter.Parse(q)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		lambda, err := vfilter.ParseLambda("x=>x + 1")
		if err != nil {
			c.Fail("%v", err)
			return
		}
		run := func(s types.Scope, vql *vfilter.VQL, stop int) {
			ctx, cancel := context.WithCancel(context.Background())
			k := 0
			for row := range vql.Eval(ctx, s) {
				vfilter.RowToDict(ctx, s, row)
				if k++; k == stop {
					cancel()
				}
			}
			cancel()
		}
		// scopes living beside the ones that come and go, each replaced
		// now and then
		siblings := make([]types.Scope, held)
		for i := range siblings {
			siblings[i] = s.Copy()
		}
		for i := 0; i <= n*try; i++ {
			if held > 0 && i%3 == 1 {
				k := i * 7 % held
				siblings[k].Close()
				siblings[k] = s.Copy()
			}
			switch form {
			case "statement":
				run(s, vql, -1)
			case "parse":
				v, err := vfilter.Parse(q)
				if err != nil {
					c.Fail("%v", err)
					return
				}
				run(s, v, -1)
			case "copy":
				x := s.Copy()
				x.AppendVars(row39(i))
				x.AddDestructor(func() {})
				y := x.Copy()
				if i%3 == 0 {
					y.Close()
				}
				run(x, vql, -1)
				x.Close()
			case "lambda":
				lambda.Reduce(context.Background(), s, []types.Any{int64(i)})
			case "call":
				if f, ok := s.GetFunction("len"); ok {
					f.Call(context.Background(), s, ordereddict.NewDict().Set("list", fmt.Sprint(i)))
				}
				s.Eq(int64(i), fmt.Sprint(i))
				s.Match("a.c", fmt.Sprint(i))
			case "resolve":
				s.Resolve("V")
				s.Resolve(fmt.Sprint("n", i%7))
				s.Associative(row39(i), "a")
			case "limit":
				run(s, vql, -1)
			case "cancel":
				run(s, vql, 1)
			case "newscope":
				x := s.NewScope()
				x.AppendVars(row39(i))
				x.Close()
			case "context":
				s.SetContext(fmt.Sprint("k", i%5), row39(i))
				x := s.Copy()
				x.ClearContext()
				x.SetContext("v", i)
				x.Close()
			}
			if i > 0 && i%(n*try/5) == 0 {
				h.m.measure(i)
			}
		}
		h.s.Close()
		c.Eval(1)
		c.Count("evaluations", n*try)
		bad := h.m.verdict()
		if bad == "" {
			break
		}
		if try == 2 {
			c.Fail("%s", bad)
			return
		}
	}
	c.Seen(form + q)
	if c.Index < 3 {
		c.Sample("%s x %d: %s", form, n, q)
	}
}

// c39soak: tens of thousands of single calls in one scope; even a few
// bytes kept by each show.
func c39soak(c *Case) {
	forms := []string{"copy", "row scope", "tree", "lambda", "call", "operators", "resolve", "context", "newscope", "stop"}
	form := forms[c.Index%len(forms)]
	held, n := c.R.Intn(2)*(1+c.R.Intn(20)), 20000
	inner := c.R.Intn(2) == 0
	c.Desc("%s, %d scopes held (from the start: %v)", form, held, inner)
	ctx := context.Background()
	lambda, err := vfilter.ParseLambda("x=>x + 1")
	if err != nil {
		c.Fail("%v", err)
		return
	}
	limit := mustParse("SELECT a FROM range(start=0, end=1)")[0]
	for try := 1; ; try++ {
		h := newHost39(10)
		s := h.s
		if inner {
			s = s.Copy()
		}
		var siblings []types.Scope
		for i := 0; i < held; i++ {
			siblings = append(siblings, s.Copy())
		}
		m := &meter39{}
		for i := 0; i <= n; i++ {
			if i == n/10 || i == n {
				m.measure(i)
			}
			switch form {
			case "copy":
				s.Copy().Close()
			case "row scope":
				x := s.Copy().AppendVars(row39(i))
				x.AddDestructor(func() {})
				x.Close()
				x.Close()
			case "tree":
				x := s.Copy()
				for k := 0; k < i%4; k++ {
					y := x.Copy()
					if k%2 == 0 {
						y.Close()
					}
				}
				x.Close()
			case "lambda":
				lambda.Reduce(ctx, s, []types.Any{int64(i)})
			case "call":
				if f, ok := s.GetFunction("len"); ok {
					f.Call(ctx, s, ordereddict.NewDict().Set("list", fmt.Sprint(i)))
				}
			case "operators":
				s.Add(int64(i), fmt.Sprint(i))
				s.Eq(int64(i), fmt.Sprint(i))
				s.Lt(int64(i), 1.5)
				s.Match("a.c", fmt.Sprint(i))
				s.Membership(int64(i), []int64{1, 2})
				s.Bool(fmt.Sprint(i))
			case "resolve":
				s.Resolve("NULL")
				s.Resolve(fmt.Sprint("n", i))
				s.Associative(row39(i), fmt.Sprint("m", i))
			case "context":
				x := s.Copy()
				x.SetContext("k", row39(i))
				x.ClearContext()
				x.SetContext(fmt.Sprint("k", i), row39(i))
				x.Close()
			case "newscope":
				x := s.NewScope()
				x.Copy()
				x.AppendVars(row39(i))
				x.AppendFunctions(vfilter.GenericFunction{FunctionName: fmt.Sprint("f", i)})
				x.Close()
			case "stop":
				if i%10 == 0 { // dearer
					sub, cancel := context.WithCancel(ctx)
					for range limit.Eval(sub, s) {
						cancel()
					}
					cancel()
				}
			}
			if held > 0 && i%5 == 1 {
				k := i * 7 % held
				if !(inner && k == 0) { // one stays all the time
					siblings[k].Close()
					siblings[k] = s.Copy()
				}
			}
		}
		h.s.Close()
		c.Eval(1)
		c.Count("soak_calls", n)
		grown := int64(m.heap[1]) - int64(m.heap[0])
		if grown < int64(4*(m.at[1]-m.at[0])) && m.gor[1]-m.gor[0] < n/100 {
			break
		}
		if try == 3 {
			c.Fail("the live heap grew by %d bytes in %d calls, goroutines from %d to %d", grown, m.at[1]-m.at[0], m.gor[0], m.gor[1])
			return
		}
		n *= 2
	}
	c.Seen(fmt.Sprint(form, held, inner))
}
