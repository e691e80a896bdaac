package main

import (
	"context"
	"encoding/json"
	"fmt"
	"log"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/protocols"
	"www.velocidex.com/golang/vfilter/reformat"
	"www.velocidex.com/golang/vfilter/types"
)

// C15: concurrent evaluation gives what a lone evaluation gives.
// C14: the same workloads, and more, under the race detector.

func init() {
	register(&Property{ID: "C15", Rule: "distinct (program, number of evaluators) pairs evaluated concurrently with rows",
		Groups: []Group{
			{"copies", 4000, 100000, c15copies},
			{"programs", 2500, 60000, c15programs},
			{"workers", 3000, 80000, c15workers},
			{"shared", 1500, 30000, c15shared},
			{"aggregates", 1500, 30000, c15aggregates},
		}})
	register(&Property{ID: "C14", Race: true, Rule: "distinct (program, instruments) pairs evaluated concurrently under the race detector",
		Groups: []Group{
			{"copies", 500, 12000, c15copies},
			{"programs", 400, 9000, c15programs},
			{"workers", 500, 12000, c15workers},
			{"shared", 250, 4000, c15shared},
			{"aggregates", 250, 4000, c15aggregates},
			{"watched", 500, 10000, c14watched},
			{"services", 300, 5000, c14services},
			{"scopes", 300, 5000, c14scopes},
		}})
}

// jitter perturbs the schedule at every probe and every source row.
func jitter(c *Case) func(string) {
	seed := uint64(c.R.Int63())
	kind := c.R.Intn(4)
	var k atomic.Uint64
	return func(string) {
		n := k.Add(1)
		switch kind {
		case 0:
			return
		case 1:
			if (seed>>(n%61))&3 == 0 {
				runtime.Gosched()
			}
		case 2:
			for j := (seed >> (n % 59)) % 4; j > 0; j-- {
				runtime.Gosched()
			}
		case 3:
			if n < 200 && (seed>>(n%57))&7 == 0 {
				time.Sleep(time.Duration((seed>>(n%53))%50) * time.Microsecond)
			}
		}
	}
}

// program generates statements of which the last one has rows.  loose: only the multiset of rows is determined.
func (g *Gen) program(h *Host) (stmts []*Stmt, loose bool) {
	if g.one(2) {
		stmts = append(stmts, g.lets(1+g.R.Intn(2))...)
	}
	switch g.R.Intn(7) {
	case 6:
		stmts = append(stmts, &Stmt{Q: g.wide()})
	case 0:
		stmts = append(stmts, &Stmt{Q: g.groupQuery(false)})
	case 1:
		g.Workers = true
		stmts = append(stmts, &Stmt{Q: g.comb(1 + g.R.Intn(2))})
		g.Workers = false
		loose = true
	case 2:
		n := g.withColumns()
		stmts = append(stmts, &Stmt{Q: g.corr(n)})
	case 3:
		stmts = append(stmts, &Stmt{Q: g.query(QOpt{Where: true, Order: true, Limit: true, Sub: true, Depth: 1})})
	case 4:
		stmts = append(stmts, &Stmt{Q: g.query(QOpt{Where: g.one(2), Sub: true, Nested: true, Depth: 2})})
	default:
		// definitions with parameters, used from every row
		body := g.withColumns()
		body.Names["any"] = append(body.Names["any"], "p1")
		body.Names["num"] = append(body.Names["num"], "p2")
		stmts = append(stmts,
			&Stmt{Let: "Fn", Op: "=", Called: true, Params: []Param{{Name: "p1"}, {Name: "p2"}}, E: body.Expr("any", 2)})
		n := g.withColumns()
		stmts = append(stmts, &Stmt{Q: &Select{Cols: []Col{{E: sym("a")}, {E: call("Fn", arg("p1", n.Expr("any", 1)), arg("p2", n.Expr("num", 1))), As: "f"}, {E: n.Expr("any", 2), As: "e"}},
			From: From{Path: []string{"t1"}, Call: true}}})
	}
	return stmts, loose
}

// instruments attaches a logger, a tracer and an explainer at random.
func instruments(c *Case, e *Engine) string {
	var on []string
	if c.R.Intn(3) == 0 {
		e.Scope.SetTracer(log.New(&lineWriter{func(string) {}}, "", 0))
		on = append(on, "tracer")
	}
	if c.R.Intn(4) == 0 {
		e.Scope.SetExplainer(explain.NewLoggingExplainer(e.Scope))
		e.Scope.EnableExplain()
		on = append(on, "explainer")
	}
	if c.R.Intn(4) == 0 {
		e.Scope.SetThrottler(&countingThrottler{})
		on = append(on, "throttler")
	}
	return strings.Join(on, "+")
}

type countingThrottler struct {
	n      atomic.Int64
	closed atomic.Int64
}

func (t *countingThrottler) ChargeOp() { t.n.Add(1) }
func (t *countingThrottler) Close()    { t.closed.Add(1) }

// concurrently runs f(0..k-1) at once, released together, and returns the first panic.
func concurrently(k int, f func(i int)) {
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < k; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			f(i)
		}(i)
	}
	close(start)
	wg.Wait()
}

// one parsed statement, many evaluations in copies of one scope
func c15copies(c *Case) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	m, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	loose = loose || m.Ties
	k := 2 + c.R.Intn(7)
	text := StmtsText(stmts)
	e := NewEngine(h)
	defer e.Close()
	on := instruments(c, e)
	c.Desc("%s\n%d evaluations of the last statement at once, instruments %s\n%s", h.String(), k, on, text)
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	for _, v := range vqls[:len(vqls)-1] {
		drain(e.ctx, e.Scope, v)
	}
	e.Delay = jitter(c)
	last := vqls[len(vqls)-1]
	got := make([][]string, k)
	concurrently(k, func(i int) {
		s := e.Scope.Copy()
		defer s.Close()
		got[i] = drain(e.ctx, s, last)
	})
	c.Eval(k)
	w := want[len(want)-1]
	for i := range got {
		w, r := w, got[i]
		if loose {
			w, r = sorted(w), sorted(r)
		}
		if d := diffRows(w, r); d != "" {
			c.Fail("evaluation %d of %d: %s", i, k, d)
			break
		}
		c.Count("rows_compared", len(r))
	}
	if len(w) > 0 {
		c.Seen(fmt.Sprint(text, h.String(), k, on))
		c.Sample("%d × %s ⇒ %d rows each", k, text, len(w))
	}
}

// whole programs, definitions included, in copies of one scope
func c15programs(c *Case) {
	g, h := stdGen(c)
	type prog struct {
		text  string
		want  []string
		loose bool
		vqls  []*vfilter.VQL
	}
	var progs []prog
	for i := 1 + c.R.Intn(3); i > 0; i-- {
		stmts, loose := g.program(h)
		m, want := h.Expect(stmts)
		if want == nil {
			continue
		}
		text := StmtsText(stmts)
		v, err := parseText(text)
		if err != nil {
			c.Fail("does not parse: %v\n%s", err, text)
			return
		}
		progs = append(progs, prog{text, want[len(want)-1], loose || m.Ties, v})
	}
	if len(progs) == 0 {
		c.Count("undefined_by_model", 1)
		return
	}
	k := 2 + c.R.Intn(7)
	e := NewEngine(h)
	defer e.Close()
	on := instruments(c, e)
	e.Delay = jitter(c)
	desc := ""
	for _, p := range progs {
		desc += p.text + "\n"
	}
	c.Desc("%s\n%d evaluations at once, instruments %s\n%s", h.String(), k, on, desc)
	var mu sync.Mutex
	rows := 0
	concurrently(k, func(i int) {
		p := progs[i%len(progs)]
		s := e.Scope.Copy()
		defer s.Close()
		var r []string
		for _, v := range p.vqls {
			r = drain(e.ctx, s, v)
		}
		w := p.want
		if p.loose {
			w, r = sorted(w), sorted(r)
		}
		mu.Lock()
		defer mu.Unlock()
		rows += len(r)
		if d := diffRows(w, r); d != "" {
			c.Fail("evaluation %d of %d (%s): %s", i, k, p.text, d)
		}
	})
	c.Eval(k)
	c.Count("rows_compared", rows)
	if rows > 0 {
		c.Seen(fmt.Sprint(desc, h.String(), k, on))
		c.Sample("%d at once of %s ⇒ %d rows in all", k, desc, rows)
	}
}

// nested combinators with parallel loops at every level
func c15workers(c *Case) {
	g, h := c10host(c)
	g.Workers = true
	h.Tables["t1"] = g.table(1 + g.R.Intn(5))
	stmts := []*Stmt{{Q: g.comb(1 + g.R.Intn(3))}}
	_, want := h.Expect(stmts)
	if want == nil || len(want[0]) > 2000 {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h.String(), text)
	e := NewEngine(h)
	defer e.Close()
	e.Delay = jitter(c)
	got, err := e.Last(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	if d := diffRows(sorted(want[0]), sorted(got)); d != "" {
		c.Fail("parallel: %s", d)
	}
	if strings.Join(want[0], "") != strings.Join(got, "") {
		c.Count("results_observed_out_of_order", 1)
	}
	c.Count("rows_compared", len(got))
	if len(got) > 0 && strings.Contains(text, "workers") {
		c.Seen(text + h.String())
		c.Sample("%s ⇒ %d rows as a multiset", text, len(got))
	}
}

// sharedObj is a value of the host with a method
type sharedObj struct {
	K    int64
	next func() int64
}

func (self *sharedObj) F() int64 { return self.next() }

// a lazy value seen by several workers is one value
func c15shared(c *Case) {
	g := newGen(c.R)
	h := NewHost()
	n, m := 2+g.R.Intn(5), 4+g.R.Intn(12)
	for i := 0; i < n; i++ {
		h.Tables["rows"] = append(h.Tables["rows"], NewD().Set("k", int64(i)))
	}
	for i := 0; i < m; i++ {
		h.Tables["inner"] = append(h.Tables["inner"], NewD().Set("j", int64(i)))
	}
	h.Tables["one"] = []V{NewD().Set("u", int64(1))}
	e := NewEngine(h)
	defer e.Close()
	e.Delay = jitter(c)
	var counter atomic.Int64
	slow := g.R.Intn(3)
	next := func() int64 {
		r := counter.Add(1)
		for i := 0; i < slow*2; i++ {
			runtime.Gosched()
		}
		if slow == 2 {
			time.Sleep(20 * time.Microsecond)
		}
		return r
	}
	e.Scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "fresh", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return next() }})
	e.Scope.AppendPlugins(&tablePlugin{name: "lazies", f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			for i := 0; i < n; i++ {
				r := vfilter.NewLazyRow(ctx, scope)
				r.AddColumn("k", func(context.Context, types.Scope) types.Any { return int64(i) })
				r.AddColumn("F", func(context.Context, types.Scope) types.Any { return next() })
				select {
				case out <- r:
				case <-ctx.Done():
					return
				}
			}
		}()
		return out
	}})
	e.Scope.AddProtocolImpl(protocols.NewLazyStructWrapper(&sharedObj{}, "K", "F"))
	e.Scope.AppendPlugins(&tablePlugin{name: "objs", f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			for i := 0; i < n; i++ {
				select {
				case out <- &sharedObj{K: int64(i), next: next}:
				case <-ctx.Done():
					return
				}
			}
		}()
		return out
	}})
	w := 2 + g.R.Intn(7)
	outer := g.pick("{ SELECT K AS k, F FROM objs() }", "{ SELECT K AS k, F AS F FROM objs() WHERE K >= 0 }", "{ SELECT k, fresh() AS F FROM rows() }", "{ SELECT * FROM lazies() }", "{ SELECT k, F FROM lazies() }", "{ SELECT *, fresh() AS F FROM rows() WHERE k >= 0 }",
		"{ SELECT k, fresh() AS F FROM rows() ORDER BY k }", "{ SELECT *, F AS G FROM lazies() }", "{ SELECT * FROM foreach(row={ SELECT k, fresh() AS F FROM rows() }) }")
	use := g.pick("SELECT k, F, j FROM one()", "SELECT k, F + 0 AS F, j FROM one()", "SELECT k, F, j FROM one() WHERE F", "SELECT k, (F, F)[1] AS F, j FROM one()", "SELECT k, if(condition=j, then=F, else=F) AS F, j FROM one()", "SELECT k, j, { SELECT F FROM one() } AS F FROM one()")
	inner := fmt.Sprintf("SELECT * FROM foreach(row={ SELECT j FROM inner() }, query={ %s }, workers=%d)", use, w)
	var text string
	switch g.R.Intn(5) {
	case 0, 1, 2:
		text = fmt.Sprintf("SELECT * FROM foreach(row=%s, query={ %s }%s)", outer, inner, g.pick("", "", ", workers=3"))
	case 3:
		text = fmt.Sprintf("LET P(k, F) = %s SELECT * FROM foreach(row={ SELECT k FROM rows() }, query={ SELECT * FROM P(k=k, F=fresh()) }%s)", inner, g.pick("", ", workers=3"))
	case 4:
		text = fmt.Sprintf("LET F <= fresh() LET k = 0 %s", inner)
		n = 1
	}
	c.Desc("rows() has %d rows (k), lazies() %d lazy rows (k, F), inner() %d rows (j); fresh() and F of lazies() give a new number at each evaluation\n%s", n, n, m, text)
	got, err := e.Run(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	seen := map[string]map[string]int{}
	rows := got[len(got)-1]
	for _, r := range rows {
		kv, fv := fieldOf(r, "k"), fieldOf(r, "F")
		if seen[kv] == nil {
			seen[kv] = map[string]int{}
		}
		seen[kv][fv]++
	}
	if len(rows) != n*m || len(seen) != n {
		c.Fail("%d rows for %d outer rows, %d expected", len(rows), len(seen), n*m)
	}
	for kv, fs := range seen {
		if len(fs) != 1 {
			c.Fail("the lazy value F of the outer row k=%s was seen as %d different values by the workers: %v", kv, len(fs), fs)
			break
		}
	}
	c.Count("rows_compared", len(rows))
	c.Seen(fmt.Sprint(text, n, m, w))
	c.Sample("%s ⇒ %d rows, one value of F per outer row, %d evaluations of F", text, len(rows), counter.Load())
}

func fieldOf(row, name string) string {
	i := strings.Index(row, `"`+name+`": `)
	if i < 0 {
		return "<none>"
	}
	s := row[i+len(name)+4:]
	if j := strings.IndexAny(s, ",}"); j >= 0 {
		s = s[:j]
	}
	return s
}

// aggregates of concurrent evaluations stay apart
func c15aggregates(c *Case) {
	g := newGen(c.R)
	h := NewHost()
	n := 2 + g.R.Intn(30)
	for i := 0; i < n; i++ {
		h.Tables["t"] = append(h.Tables["t"], NewD().Set("a", int64(g.R.Intn(50)-20)).Set("g", int64(g.R.Intn(3))))
	}
	e := NewEngine(h)
	defer e.Close()
	k := 2 + g.R.Intn(7)
	cols := []string{}
	for i, n := 0, 1+g.R.Intn(4); i < n; i++ {
		cols = append(cols, fmt.Sprintf("%s AS c%d", g.pick("count()", "sum(item=a)", "min(item=a)", "max(item=a)", "enumerate(items=a)", "count() + sum(item=a)", "Agg(v=a)", "if(condition=a >= 0, then=count(), else=0)"), i))
	}
	text := fmt.Sprintf("SELECT a, g, %s FROM t()", strings.Join(cols, ", "))
	loose := false
	switch g.R.Intn(6) {
	case 0:
		text = fmt.Sprintf("SELECT g, %s FROM t() GROUP BY g", strings.Join(cols, ", "))
	case 1:
		text += fmt.Sprintf(" LIMIT %d", 1+g.R.Intn(n))
	case 2:
		text = fmt.Sprintf("SELECT * FROM foreach(row={ SELECT a AS oa FROM t() LIMIT 3 }, query={ SELECT oa, g, %s FROM t() GROUP BY g }, workers=%d)", strings.Join(cols, ", "), 1+g.R.Intn(4))
		loose = true
	case 3:
		text = fmt.Sprintf("SELECT * FROM chain(x={ %s }, y={ SELECT g, %s FROM t() GROUP BY 1 })", text, strings.Join(cols, ", "))
	case 4:
		text = fmt.Sprintf("SELECT g, { SELECT count() AS c, sum(item=a) AS s FROM t() GROUP BY 1 } AS s FROM t()")
	}
	lets := "LET Agg(v) = sum(item=v)"
	c.Desc("%s\n%d evaluations at once\n%s %s", h.String(), k, lets, text)
	lone := NewEngine(h)
	defer lone.Close()
	want, err := lone.Last(lets + " " + text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	vq, err := parseText(lets + " " + text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	drain(e.ctx, e.Scope, vq[0])
	e.Delay = jitter(c)
	rounds := 1 + g.R.Intn(2)
	var mu sync.Mutex
	for r := 0; r < rounds; r++ {
		concurrently(k, func(i int) {
			s := e.Scope.Copy()
			defer s.Close()
			for j := 0; j <= i%2; j++ {
				got := drain(e.ctx, s, vq[1])
				w := want
				if loose {
					w, got = sorted(w), sorted(got)
				}
				mu.Lock()
				if d := diffRows(w, got); d != "" {
					c.Fail("evaluation %d of %d, repeated %d times: a lone evaluation differs: %s", i, k, j, d)
				}
				c.Count("rows_compared", len(got))
				mu.Unlock()
			}
		})
	}
	c.Eval(k * rounds)
	c.Seen(fmt.Sprint(text, h.String(), k))
	c.Sample("%d × %s ⇒ %d rows each", k, text, len(want))
}

// ---------------------------------------------------------------- C14 only

// statistics, logs and scope state are read while queries run
func c14watched(c *Case) {
	g, h := stdGen(c)
	stmts, _ := g.program(h)
	_, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	e := NewEngine(h)
	defer e.Close()
	on := instruments(c, e)
	c.Desc("%s\nwatched, instruments %s\n%s", h.String(), on, text)
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	e.Delay = jitter(c)
	if g.one(2) {
		for _, v := range vqls[:len(vqls)-1] {
			drain(e.ctx, e.Scope, v)
		}
		vqls = vqls[len(vqls)-1:]
	}
	stop := make(chan bool)
	var watch sync.WaitGroup
	looks := atomic.Int64{}
	scopes := make(chan types.Scope, 16)
	for i := 0; i < 2; i++ {
		watch.Add(1)
		go func(i int) {
			defer watch.Done()
			s := e.Scope
			for n := 0; n < 200; n++ {
				select {
				case <-stop:
					return
				case s = <-scopes:
				default:
				}
				looks.Add(1)
				switch (n + i*3) % 12 {
				case 0:
					s.GetStats().Snapshot()
				case 1:
					s.PrintVars()
				case 2:
					s.CheckForOverflow()
				case 3:
					s.GetLogger()
				case 4:
					s.Resolve("vi")
				case 5:
					s.IsClosed()
				case 6:
					vfilter.FormatToString(s, vqls[0])
				case 7:
					s.GetContext("x")
				case 8:
					s.SetContext("x", n)
				case 9:
					s.Describe(types.NewTypeMap())
				case 10:
					s.GetSimilarPlugins("t1")
				case 11:
					s.GetAggregatorCtx()
				}
				runtime.Gosched()
			}
		}(i)
	}
	k := 2 + c.R.Intn(5)
	concurrently(k, func(i int) {
		s := e.Scope.Copy()
		defer s.Close()
		select {
		case scopes <- s:
		default:
		}
		for _, v := range vqls {
			drain(e.ctx, s, v)
		}
	})
	close(stop)
	watch.Wait()
	c.Eval(k)
	c.Count("reads_while_running", int(looks.Load()))
	c.Seen(fmt.Sprint(text, on, k))
	c.Sample("%d × %s with %d reads of statistics and state", k, text, looks.Load())
}

type svcArgs struct {
	A string            `vfilter:"optional,field=a"`
	B []string          `vfilter:"optional,field=b"`
	C int64             `vfilter:"optional,field=c"`
	D types.LazyExpr    `vfilter:"optional,field=d"`
	E types.StoredQuery `vfilter:"optional,field=e"`
	F types.Any         `vfilter:"optional,field=f"`
	G float64           `vfilter:"optional,field=g"`
	H bool              `vfilter:"optional,field=h"`
	I *ordereddict.Dict `vfilter:"optional,field=i"`
}

// services around the evaluator, all used at once
func c14services(c *Case) {
	g, h := stdGen(c)
	stmts, _ := g.program(h)
	_, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	e := NewEngine(h)
	defer e.Close()
	e.Scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "svc", ArgType: &svcArgs{}, Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		a := &svcArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
			return err.Error()
		}
		return a.C
	}})
	c.Desc("%s\nservices at once\n%s", h.String(), text)
	vqls, err := parseText(text)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return
	}
	for _, v := range vqls[:len(vqls)-1] {
		drain(e.ctx, e.Scope, v)
	}
	last := vqls[len(vqls)-1]
	lambda, err := vfilter.ParseLambda("x, y=>x + y")
	if err != nil {
		lambda, err = vfilter.ParseLambda("(x, y)=>x + y")
	}
	svc, _ := parseText("SELECT svc(a='x', b=('y', 'z'), c=3, d=1 + 1, e={ SELECT * FROM t1() }, f=vi, g=2, h=TRUE, i=dict(a=1)) AS s FROM range(end=3)")
	re, _ := parseText("SELECT format(format='%v', args=_value) =~ format(format='^%v', args=_value) AS m, 'foo' =~ 'F' AS n FROM range(end=8)")
	k := 4 + c.R.Intn(6)
	base := c.R.Intn(12)
	var used [12]atomic.Int64
	concurrently(k, func(i int) {
		s := e.Scope.Copy()
		defer s.Close()
		w := (base + i*(1+base%3)) % 11
		used[w].Add(1)
		switch w {
		case 0:
			drain(e.ctx, s, last)
		case 1:
			for p := range vfilter.GetResponseChannel(last, e.ctx, s, jsonRows, 3, 1) {
				_ = p
			}
		case 2:
			vfilter.OutputJSON(last, e.ctx, s, jsonRows)
		case 3:
			parseText(text)
			vfilter.MultiParseWithComments(text)
		case 4:
			reformat.ReFormatVQL(s, text, vfilter.DefaultFormatOptions)
		case 5:
			for _, v := range vqls {
				vfilter.FormatToString(s, v)
			}
		case 6:
			if lambda != nil {
				for j := 0; j < 5; j++ {
					lambda.Reduce(e.ctx, s, []types.Any{int64(i), int64(j)})
				}
			}
		case 7:
			drain(e.ctx, s, svc[0])
		case 8:
			drain(e.ctx, s, re[0])
		case 9:
			e.Scope.Describe(types.NewTypeMap())
			v := vfilter.NewVisitor(s, vfilter.CollectCallSites)
			v.Visit(last)
		case 10:
			n := s.NewScope()
			drain(e.ctx, n, re[0])
			n.Close()
		}
	})
	c.Eval(k)
	for i := range used {
		if n := used[i].Load(); n > 0 {
			c.Count(fmt.Sprintf("service_%d", i), int(n))
		}
	}
	c.Seen(fmt.Sprint(text, k, base))
	c.Sample("%d services at once around %s", k, text)
}

// scope operations at once: copies, closes, destructors, variables, nested evaluation
func c14scopes(c *Case) {
	g := newGen(c.R)
	h := plainHost()
	e := NewEngine(h)
	defer e.Close()
	vq, _ := parseText("SELECT q, count() AS n, mine FROM one()")
	q := vq[0]
	k := 3 + g.R.Intn(6)
	seeds := make([]int64, k)
	for i := range seeds {
		seeds[i] = c.R.Int63()
	}
	shared := e.Scope.Copy()
	ops := atomic.Int64{}
	c.Desc("%d goroutines copying, closing, extending and evaluating in related scopes, seeds %v", k, seeds)
	concurrently(k, func(i int) {
		x := uint64(seeds[i])
		rnd := func(n int) int {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return int(x % uint64(n))
		}
		cur := shared.Copy()
		for j := 0; j < 30; j++ {
			ops.Add(1)
			switch rnd(14) {
			case 10:
				shared.SetAggregatorCtx(nil)
			case 11:
				cur.GetAggregatorCtx()
			case 12:
				cur.SetContext("ctx", j)
			case 13:
				cur.GetContext("ctx")
				cur.Describe(types.NewTypeMap())
			case 0:
				cur = cur.Copy()
			case 1:
				cur.AddDestructor(func() {})
			case 2:
				cur.AppendVars(ordereddict.NewDict().Set("mine", i))
			case 3:
				cur.Close()
				cur = shared.Copy()
			case 4:
				drain(e.ctx, cur, q)
			case 5:
				shared.AddDestructor(func() {})
			case 6:
				cur.Resolve("mine")
			case 7:
				shared.PrintVars()
			case 8:
				e.Scope.GetStats().Snapshot()
			case 9:
				cur.SetAggregatorCtx(nil)
			}
		}
		if rnd(2) == 0 {
			cur.Close()
		}
	})
	shared.Close()
	c.Eval(1)
	c.Count("scope_operations", int(ops.Load()))
	c.Seen(fmt.Sprint(seeds))
}

func jsonRows(rows []types.Row) ([]byte, error) { return json.Marshal(rows) }
