package main

import (
	"context"
	"fmt"
	"log"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/explain"
	"www.velocidex.com/golang/vfilter/types"
)

// C28: instruments (explainer, tracer, logger, throttler, statistics) watch and do not interfere,
// and what they report adds up.

func init() {
	register(&Property{ID: "C28",
		Rule: "A program runs bare and with random instruments attached: the rows must be the same. With a recording explainer, a counting throttler and every function and plugin wrapped by a counter: rows reported in = rows selected + rows rejected, the emitted rows are reported (by identity, once, in order), the rows scanned equal the charges and the rows reported in, the plugin and function counters equal the calls the wrappers received. Non-trivial: distinct (program, instruments) with rows.",
		Groups: []Group{
			{"same", 4000, 120000, c28same},
			{"single", 3000, 80000, c28single},
			{"accounts", 4000, 120000, c28accounts},
			{"limits", 1500, 40000, c28limits},
			{"concurrent", 400, 10000, c28concurrent},
			{"lines", 800, 20000, c28lines},
			{"paced", 400, 8000, c28paced},
		}})
}

// watcher is an explainer which remembers what it was told
type watcher struct {
	mu     sync.Mutex
	events []event
	count  map[byte]int
}

type event struct {
	kind byte // S(tart) P(lugin output) E(mitted) R(ejected) A(rguments)
	node interface{}
	row  types.Row
}

func newWatcher() *watcher { return &watcher{count: map[byte]int{}} }

func (w *watcher) add(k byte, node interface{}, row types.Row) {
	w.mu.Lock()
	w.events = append(w.events, event{k, node, row})
	w.count[k]++
	w.mu.Unlock()
}
func (w *watcher) StartQuery(node interface{})                  { w.add('S', node, nil) }
func (w *watcher) PluginOutput(node interface{}, row types.Row) { w.add('P', node, row) }
func (w *watcher) SelectOutput(row types.Row)                   { w.add('E', nil, row) }
func (w *watcher) ParseArgs(args *ordereddict.Dict, result interface{}, err error) {
	w.add('A', nil, nil)
}
func (w *watcher) RejectRow(node interface{}) { w.add('R', node, nil) }
func (w *watcher) Log(message string)         {}

func (w *watcher) n(k byte) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.count[k]
}

// counted wraps a function and counts its calls
type counted struct {
	inner types.FunctionInterface
	n     *atomic.Int64
}

func (f *counted) Info(scope types.Scope, tm *types.TypeMap) *types.FunctionInfo {
	return f.inner.Info(scope, tm)
}
func (f *counted) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	f.n.Add(1)
	return f.inner.Call(ctx, scope, args)
}
func (f *counted) Copy() types.FunctionInterface {
	return &counted{vfilter.CopyFunction(f.inner), f.n}
}

type countedPlugin struct {
	inner types.PluginGeneratorInterface
	n     *atomic.Int64
}

func (p *countedPlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return p.inner.Info(scope, tm)
}
func (p *countedPlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	p.n.Add(1)
	return p.inner.Call(ctx, scope, args)
}

// countAll wraps everything registered in the scope
func countAll(scope types.Scope) (funcs, plugins *atomic.Int64) {
	funcs, plugins = &atomic.Int64{}, &atomic.Int64{}
	info := scope.Describe(types.NewTypeMap())
	for _, f := range info.Functions {
		inner, ok := scope.GetFunction(f.Name)
		if !ok {
			continue
		}
		switch t := inner.(type) { // those are used without copying them
		case vfilter.GenericFunction:
			scope.AppendFunctions(&counted{&keep{t}, funcs})
		case *vfilter.GenericFunction:
			scope.AppendFunctions(&counted{&keep{*t}, funcs})
		default:
			scope.AppendFunctions(&counted{inner, funcs})
		}
	}
	for _, p := range info.Plugins {
		inner, ok := scope.GetPlugin(p.Name)
		if ok {
			scope.AppendPlugins(&countedPlugin{inner, plugins})
		}
	}
	return
}

type keep struct{ vfilter.GenericFunction }

func (k *keep) Copy() types.FunctionInterface { return k }

func statOf(scope types.Scope, name string) int64 {
	v, _ := scope.GetStats().Snapshot().Get(name)
	n, _ := v.(uint64)
	return int64(n)
}

// explained marks SELECTs with EXPLAIN: the last statement, or anything
func (c *Case) explained(stmts []*Stmt) string {
	last := stmts[len(stmts)-1].Q
	was := last.Explain
	last.Explain = true
	text := StmtsText(stmts)
	last.Explain = was
	return text
}

func c28same(c *Case) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	m, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	loose = loose || m.Ties
	text := StmtsText(stmts)
	var on []string
	e := NewEngine(h)
	defer e.Close()
	w := newWatcher()
	sink := func(name string) *log.Logger {
		return log.New(&lineWriter{func(string) { c.Count("lines_"+name, 1) }}, "", 0)
	}
	for len(on) == 0 {
		if c.R.Intn(3) == 0 {
			e.Scope.SetTracer(sink("trace"))
			on = append(on, "tracer")
		}
		if c.R.Intn(4) == 0 {
			e.Scope.SetLogger(nil)
			on = append(on, "no logger")
		}
		if c.R.Intn(3) == 0 {
			e.Scope.SetThrottler(&countingThrottler{})
			on = append(on, "throttler")
		}
		switch c.R.Intn(6) {
		case 0:
			e.Scope.SetExplainer(w)
			e.Scope.EnableExplain()
			on = append(on, "explainer")
		case 1:
			e.Scope.SetExplainer(explain.NewLoggingExplainer(e.Scope))
			e.Scope.EnableExplain()
			on = append(on, "logging explainer")
		case 2:
			e.Scope.SetExplainer(explain.NewLoggingExplainer(e.Scope))
			text = c.explained(stmts)
			on = append(on, "EXPLAIN, logging explainer")
		case 3:
			e.Scope.SetExplainer(w)
			text = c.explained(stmts)
			on = append(on, "EXPLAIN, explainer")
		case 4:
			text = c.explained(stmts)
			on = append(on, "EXPLAIN without explainer")
		}
	}
	bare := NewEngine(h)
	defer bare.Close()
	c.Desc("%s\ninstruments: %s\n%s", h, strings.Join(on, ", "), text)
	a, err := bare.Last(StmtsText(stmts))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	b, err := e.Last(text)
	if err != nil {
		c.Fail("with instruments: %v", err)
		return
	}
	c.Eval(2)
	if loose {
		a, b = sorted(a), sorted(b)
	}
	if d := diffRows(a, b); d != "" {
		c.Fail("bare (wanted) and with %s: %s", strings.Join(on, ", "), d)
		return
	}
	c.Count("rows_compared", len(a))
	c.Count("explainer_events", len(w.events))
	if len(a) > 0 {
		c.Seen(text + h.String() + fmt.Sprint(on))
		c.Sample("%s with %s ⇒ %d rows", text, strings.Join(on, ", "), len(a))
	}
}

// single: one SELECT over a table; the events are a strict alternation
func c28single(c *Case) {
	g, h := stdGen(c)
	n := g.withColumns()
	q := &Select{From: From{Path: []string{"t1"}, Call: true}}
	for i := c.R.Intn(3); i >= 0; i-- {
		q.Cols = append(q.Cols, Col{E: n.Expr("any", 1), As: fmt.Sprintf("c%d", i)})
	}
	if c.R.Intn(4) != 0 {
		q.Where = n.Expr("any", 2)
	}
	big := c.R.Intn(10) == 0
	if big {
		t := h.Tables["t1"]
		for len(t) > 0 && len(t) < 300 {
			t = append(t, t...)
		}
		h.Tables["t1"] = t
	}
	stmts := []*Stmt{{Q: q}}
	_, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	e := NewEngine(h)
	defer e.Close()
	w := newWatcher()
	e.Scope.SetExplainer(w)
	if c.R.Intn(2) == 0 {
		text = c.explained(stmts)
	} else {
		e.Scope.EnableExplain()
	}
	c.Desc("%s\n%s", h, text)
	vql := c.lastOf(e.Scope, text)
	var rows []types.Row
	for r := range vql.Eval(e.ctx, e.Scope) {
		rows = append(rows, r)
	}
	c.Eval(1)
	var got []string
	for _, r := range rows {
		got = append(got, canonRow(e.ctx, e.Scope, r))
	}
	if d := diffRows(want[0], got); d != "" {
		c.Fail("rows: %s", d)
		return
	}
	var trace []byte
	in, out := 0, 0
	table := h.Tables["t1"]
	for _, ev := range w.events {
		switch ev.kind {
		case 'A':
			continue
		case 'S':
			if in > 0 {
				continue // queries inside the expressions
			}
		case 'P':
			if p, ok := ev.node.(*vfilter.Plugin); !ok || p.Name != "t1" {
				c.Count("inner_queries", 1)
				return // queries inside the expressions report too: left to the accounts
			}
			if in >= len(table) {
				c.Fail("%d rows reported in, the table has %d", in+1, len(table))
				return
			}
			if a, b := canonRow(e.ctx, e.Scope, ev.row), canonM(table[in]); a != b {
				c.Fail("row %d reported in is %s, the table has %s", in, a, b)
				return
			}
			in++
		case 'E':
			if out >= len(rows) {
				c.Fail("%d rows reported as selected, %d were emitted", out+1, len(rows))
				return
			}
			if ev.row != rows[out] {
				c.Fail("row %d reported as selected is %s, the emitted row %s", out, canonRow(e.ctx, e.Scope, ev.row), got[out])
				return
			}
			out++
		case 'R':
			if q.Where == nil {
				c.Fail("a row was reported as rejected without a WHERE")
				return
			}
		}
		trace = append(trace, ev.kind)
	}
	t := string(trace)
	if !strings.HasPrefix(t, "S") {
		c.Fail("the query was not reported as started: %.100s", t)
		return
	}
	t = strings.TrimLeft(t, "S")
	for i := 0; i < len(t); i += 2 {
		if i+1 >= len(t) || t[i] != 'P' || (t[i+1] != 'E' && t[i+1] != 'R') {
			c.Fail("event %d of %.200s: every row in (P) is to be selected (E) or rejected (R) before the next", i, t)
			return
		}
	}
	if n := statOf(e.Scope, "RowsScanned"); n != int64(len(table)) {
		c.Fail("%d rows scanned, the table has %d", n, len(table))
		return
	}
	if in != len(table) || out != len(rows) {
		c.Fail("%d of %d rows reported in, %d of %d as selected", in, len(table), out, len(rows))
		return
	}
	c.Count("explainer_events", len(t))
	c.Count("rows_rejected", in-out)
	if len(t) > 0 {
		c.Seen(text + h.String())
	}
}

type account struct {
	rows             []types.Row
	got              []string
	w                *watcher
	scanned, charged int64
	plugins, funcs   int64 // as counted by the library
	wplugins, wfuncs int64 // as counted by the wrappers
	copies           int64
	text             string
	msg              string
	emitted          int64 // rows the table functions sent
}

// account evaluates a program with every instrument, to the end of every goroutine
func (c *Case) account(h *Host, stmts []*Stmt, times int) *account {
	a := &account{w: newWatcher(), text: StmtsText(stmts)}
	delay := jitter(c)
	// instruments also see what happens in scopes derived from the instrumented one
	derived := 0
	if n := c.R.Intn(6); n < 3 {
		derived = n
	}
	closed := true
	a.msg = bubble(c.T, func() {
		e := NewEngine(h)
		e.Delay = func(name string) {
			if times > 1 {
				delay(name)
				runtime.Gosched()
			}
		}
		f, p := countAll(e.Scope)
		th := &countingThrottler{}
		e.Scope.SetThrottler(th)
		base := e.Scope
		switch derived {
		case 1:
			e.Scope = e.Scope.Copy()
		case 2:
			e.Scope = e.Scope.NewScope()
			if len(h.Vars.Keys) > 0 {
				e.Scope.AppendVars(h.toE(h.Vars))
			}
		}
		e.Scope.SetExplainer(a.w)
		e.Scope.EnableExplain()
		vqls, err := parseText(a.text)
		if err != nil {
			panic(err)
		}
		for _, v := range vqls[:len(vqls)-1] {
			drain(e.ctx, e.Scope, v)
		}
		var mu sync.Mutex
		run := func(scope types.Scope) {
			var rows []types.Row
			var got []string
			for r := range vqls[len(vqls)-1].Eval(e.ctx, scope) {
				rows = append(rows, r)
				got = append(got, canonRow(e.ctx, scope, r))
			}
			mu.Lock()
			defer mu.Unlock()
			a.rows = append(a.rows, rows...)
			a.got = append(a.got, got...)
		}
		if times == 1 {
			run(e.Scope)
		} else {
			concurrently(times, func(i int) {
				s := e.Scope.Copy()
				defer s.Close()
				run(s)
			})
		}
		time.Sleep(time.Minute) // virtual: delayed calls end
		synctest.Wait()
		a.scanned, a.charged = statOf(e.Scope, "RowsScanned"), th.n.Load()
		a.plugins, a.wplugins = statOf(e.Scope, "PluginsCalled"), p.Load()
		a.funcs, a.wfuncs = statOf(e.Scope, "FunctionsCalled"), f.Load()
		a.copies = statOf(e.Scope, "ScopeCopy")
		e.mu.Lock()
		for _, v := range e.Emitted {
			a.emitted += v
		}
		e.mu.Unlock()
		e.Close()
		base.Close()
		closed = th.closed.Load() == 1
	})
	if a.msg == "" && !closed {
		a.msg = "the throttler was not closed once with its scope"
	}
	return a
}

// adds checks everything that holds of any program
func (c *Case) adds(a *account, whole bool) bool {
	up := strings.ToUpper(a.text)
	group, limit := strings.Contains(up, "GROUP"), strings.Contains(up, "LIMIT")
	in, sel, rej := a.w.n('P'), a.w.n('E'), a.w.n('R')
	switch {
	case a.msg != "":
		c.Fail("%s", a.msg)
	case a.scanned != a.charged:
		c.Fail("%d rows scanned, %d charged to the throttler", a.scanned, a.charged)
	case int64(in) > a.scanned:
		c.Fail("%d rows reported in, %d scanned", in, a.scanned)
	case sel+rej > in:
		c.Fail("%d rows reported in, %d selected + %d rejected", in, sel, rej)
	case whole && !limit && sel+rej != in:
		c.Fail("%d rows reported in, %d selected + %d rejected", in, sel, rej)
	case whole && !limit && !group && int64(in) != a.scanned:
		c.Fail("%d rows reported in, %d scanned", in, a.scanned)
	case whole && !limit && a.emitted > a.scanned:
		c.Fail("%d rows sent by the table functions, %d scanned", a.emitted, a.scanned)
	case rej > 0 && !strings.Contains(up, "WHERE"):
		c.Fail("%d rows rejected without a WHERE", rej)
	case a.plugins < a.wplugins:
		c.Fail("%d table functions called, %d counted", a.wplugins, a.plugins)
	case a.funcs < a.wfuncs:
		c.Fail("%d functions called, %d counted", a.wfuncs, a.funcs)
	case !strings.Contains(up, "LET") && (a.plugins != a.wplugins || a.funcs != a.wfuncs):
		c.Fail("%d functions and %d table functions called, %d and %d counted", a.wfuncs, a.wplugins, a.funcs, a.plugins)
	default:
		c.Count("rows_scanned", int(a.scanned))
		c.Count("function_calls", int(a.wfuncs))
		c.Count("plugin_calls", int(a.wplugins))
		c.Count("rows_selected", sel)
		c.Count("rows_rejected", rej)
		return true
	}
	return false
}

func c28accounts(c *Case) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	m, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	loose = loose || m.Ties
	c.Desc("%s\n%s", h, StmtsText(stmts))
	a := c.account(h, stmts, 1)
	c.Eval(1)
	wantRows, got := want[len(want)-1], a.got
	if loose {
		wantRows, got = sorted(wantRows), sorted(got)
	}
	if d := diffRows(wantRows, got); a.msg == "" && d != "" {
		c.Fail("rows: %s", d)
		return
	}
	if !c.adds(a, true) {
		return
	}
	// the emitted rows of a plain SELECT are reported, in order
	last := stmts[len(stmts)-1].Q
	if last.GroupBy == nil && last.OrderBy == "" && last.Limit == nil {
		i := 0
		for _, ev := range a.w.events {
			if ev.kind == 'E' && i < len(a.rows) && ev.row == a.rows[i] {
				i++
			}
		}
		if i != len(a.rows) {
			c.Fail("emitted row %d was not reported (in order) as selected: %s", i, a.got[i])
			return
		}
	}
	if a.scanned > 0 {
		c.Seen(a.text + h.String())
		c.Sample("%s ⇒ %d scanned, %d selected, %d rejected, %d functions", a.text, a.scanned, a.w.n('E'), a.w.n('R'), a.wfuncs)
	}
}

// with LIMIT some rows are read and dropped, but nothing is counted twice
func c28limits(c *Case) {
	g, h := stdGen(c)
	stmts, _ := g.program(h)
	if last := stmts[len(stmts)-1].Q; last.Limit == nil && c.R.Intn(3) > 0 {
		last.Limit = i64(int64(c.R.Intn(4)))
	}
	if _, want := h.Expect(stmts); want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	c.Desc("%s\n%s", h, StmtsText(stmts))
	a := c.account(h, stmts, 1)
	c.Eval(1)
	if c.adds(a, true) && a.scanned > 0 {
		c.Seen(a.text + h.String())
	}
}

// many evaluations at once lose no count
func c28concurrent(c *Case) {
	g, h := stdGen(c)
	stmts, _ := g.program(h)
	_, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	k := 2 + c.R.Intn(15)
	c.Desc("%s\n%d evaluations at once\n%s", h, k, StmtsText(stmts))
	a := c.account(h, stmts, k)
	c.Eval(k)
	if a.msg == "" && len(a.got) != k*len(want[len(want)-1]) {
		c.Fail("%d rows from %d evaluations, %d each expected", len(a.got), k, len(want[len(want)-1]))
		return
	}
	if c.adds(a, true) && a.scanned > 0 {
		c.Seen(a.text + h.String())
	}
}

// the logging explainer writes a line for every event
func c28lines(c *Case) {
	g, h := stdGen(c)
	stmts, _ := g.program(h)
	if _, want := h.Expect(stmts); want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h, text)
	e := NewEngine(h)
	defer e.Close()
	e.Scope.SetExplainer(explain.NewLoggingExplainer(e.Scope))
	e.Scope.EnableExplain()
	if _, err := e.Last(text); err != nil {
		c.Fail("%v", err)
		return
	}
	c.Eval(1)
	in, sel, rej := 0, 0, 0
	e.mu.Lock()
	for _, l := range e.Logs {
		switch {
		case strings.HasPrefix(l, "DEBUG: plugin "):
			in++
		case strings.HasPrefix(l, "DEBUG: SELECT: emitting row"):
			sel++
		case strings.HasPrefix(l, "DEBUG: REJECTED by"):
			rej++
		}
	}
	e.mu.Unlock()
	if strings.Contains(strings.ToUpper(text), "LIMIT") {
		if sel+rej > in {
			c.Fail("%d lines of rows in, %d of rows selected, %d of rows rejected", in, sel, rej)
		}
		return
	}
	if in != sel+rej {
		c.Fail("%d lines of rows in, %d of rows selected, %d of rows rejected", in, sel, rej)
		return
	}
	if !strings.Contains(strings.ToUpper(text), "GROUP") && int64(in) != statOf(e.Scope, "RowsScanned") {
		c.Fail("%d lines of rows in, %d rows scanned", in, statOf(e.Scope, "RowsScanned"))
		return
	}
	c.Count("explainer_lines", in+sel+rej)
	if in > 0 {
		c.Seen(text + h.String())
	}
}

// paced: the time throttler delays and does not drop, and lets go when its scope is closed
func c28paced(c *Case) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	m, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return
	}
	loose = loose || m.Ties
	rate := []float64{0, 0.5, 1, 3, 10, 50, 99, 100, 1000}[c.R.Intn(9)]
	closing := c.R.Intn(4) == 0
	text := StmtsText(stmts)
	c.Desc("%s\nat most %v rows a second, closed while running: %v\n%s", h, rate, closing, text)
	var got []string
	var took, after time.Duration
	var scanned int64
	msg := bubble(c.T, func() {
		e := NewEngine(h)
		start := time.Now()
		th := vfilter.NewTimeThrottler(rate)
		e.Scope.SetThrottler(th)
		vqls, err := parseText(text)
		if err != nil {
			panic(err)
		}
		if closing {
			t := time.AfterFunc(time.Duration(c.R.Intn(5000))*time.Millisecond, th.Close)
			defer t.Stop()
		}
		for i, v := range vqls {
			rows := drain(e.ctx, e.Scope, v)
			if i == len(vqls)-1 {
				got = rows
			}
		}
		took = time.Since(start)
		synctest.Wait()
		scanned = statOf(e.Scope, "RowsScanned")
		e.Close()
		th.Close() // again: harmless
		th.ChargeOp()
		after = time.Since(start)
	})
	c.Eval(1)
	if msg != "" {
		c.Fail("%s", msg)
		return
	}
	w := want[len(want)-1]
	if loose {
		w, got = sorted(w), sorted(got)
	}
	if d := diffRows(w, got); d != "" {
		c.Fail("rows: %s", d)
		return
	}
	if after != took {
		c.Fail("a closed throttler still delays")
		return
	}
	// the ticker can hold one tick from before
	if rate > 0 && rate < 100 && !closing && !strings.Contains(strings.ToUpper(text), "LIMIT") {
		if least := time.Duration(float64(scanned-1) / rate * float64(time.Second)); took < least {
			c.Fail("%d rows at %v a second took only %v", scanned, rate, took)
			return
		}
		c.Count("rows_paced", int(scanned))
	}
	if (rate == 0 || rate >= 100) && took > 0 {
		c.Fail("a rate of %v delayed the query by %v", rate, took)
		return
	}
	if len(got) > 0 {
		c.Seen(c.desc)
	}
}
