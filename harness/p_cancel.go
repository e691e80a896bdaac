package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C12", Rule: "distinct (query, cancellation point, consumer behaviour) runs which reached quiescence in the bubble and passed the leak census",
		Groups: []Group{
			{"event", 6000, 150000, func(c *Case) { c12run(c, "event") }},
			{"stopped", 3000, 80000, func(c *Case) { c12run(c, "stopped") }},
			{"timed", 4000, 100000, func(c *Case) { c12run(c, "timed") }},
			{"before", 400, 8000, func(c *Case) { c12run(c, "before") }},
			{"operators", 60, 600, c12operators},
		}})
	register(&Property{ID: "C13", Rule: "distinct queries over endless sources which ended by themselves, with every source released and no goroutine left",
		Groups: []Group{
			{"endless", 6000, 150000, c13endless},
			{"values", 3000, 80000, c13values},
		}})
}

// life is a host whose sources and functions report every event
type life struct {
	mu        sync.Mutex
	events    int
	hook      func(n int)
	cancelled bool
	opened    map[string]int
	closed    map[string]int
	asked     map[string]int
	overrun   []string // sources which went on after the cancellation
	cap       int      // rows of an endless source at most (0: no bound)
	capped    bool
	res       *resources
	logs      []string
	delay     time.Duration
}

func newLife() *life {
	return &life{opened: map[string]int{}, closed: map[string]int{}, asked: map[string]int{}, res: &resources{open: map[int64]bool{}}}
}

func (l *life) event() {
	l.mu.Lock()
	l.events++
	n := l.events
	h := l.hook
	d := l.delay
	l.mu.Unlock()
	if h != nil {
		h(n)
	}
	if d > 0 {
		time.Sleep(d)
	}
}

func (l *life) source(name string, n int, row func(i int) *ordereddict.Dict) *tablePlugin {
	return &tablePlugin{name: name, f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		l.mu.Lock()
		l.opened[name]++
		l.mu.Unlock()
		go func() {
			defer func() {
				l.mu.Lock()
				l.closed[name]++
				l.mu.Unlock()
				close(out)
			}()
			late := 0
			for i := 0; n < 0 || i < n; i++ {
				if ctx.Err() != nil {
					return
				}
				l.mu.Lock()
				l.asked[name]++
				if n < 0 && l.cap > 0 && i >= l.cap {
					l.capped = true
					l.mu.Unlock()
					return
				}
				l.mu.Unlock()
				l.event()
				select {
				case <-ctx.Done():
					return
				case out <- row(i):
				}
				l.mu.Lock()
				if l.cancelled {
					late++
					if late == 6 {
						l.overrun = append(l.overrun, name)
					}
				}
				l.mu.Unlock()
				if late > 50 {
					return
				}
			}
		}()
		return out
	}}
}

type anyArg struct {
	V types.Any `vfilter:"optional,field=v"`
}

type takeArgs struct {
	Query types.StoredQuery `vfilter:"optional,field=query"`
	Row   types.LazyExpr    `vfilter:"optional,field=row"`
	N     int64             `vfilter:"optional,field=n"`
}

// take: a table of the host which reads n rows of a query, then cancels it and leaves without reading on
func (l *life) take(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		a := &takeArgs{}
		if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
			scope.Log("ERROR:take: %v", err)
			return
		}
		sub, cancel := context.WithCancel(ctx)
		defer cancel()
		var rows <-chan types.Row
		if a.Query != nil {
			rows = a.Query.Eval(sub, scope)
		} else if a.Row != nil {
			rows = scope.Iterate(sub, a.Row)
		} else {
			return
		}
		if a.N == 0 {
			// never reads at all
			select {
			case <-ctx.Done():
			case out <- ordereddict.NewDict().Set("a", int64(0)).Set("b", int64(0)):
			}
		}
		for i := int64(0); i < a.N; i++ {
			select {
			case <-ctx.Done():
				return
			case r, ok := <-rows:
				if !ok {
					return
				}
				l.event()
				select {
				case <-ctx.Done():
					return
				case out <- r:
				}
			}
		}
	}()
	return out
}

func (l *life) install(scope types.Scope, finite int) {
	l.res.install(scope, 3)
	row := func(i int) *ordereddict.Dict {
		return ordereddict.NewDict().Set("a", int64(i)).Set("b", int64(i%2)).Set("l", []types.Any{int64(i), "x"})
	}
	scope.AppendPlugins(l.source("t1", finite, row))
	scope.AppendPlugins(l.source("t2", 2, row))
	scope.AppendPlugins(l.source("inf", -1, row))
	for _, f := range []string{"ev", "slow"} {
		scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: f, ArgType: &anyArg{},
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				a := &anyArg{}
				if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
					scope.Log("ERROR:%v: %v", f, err)
				}
				l.event()
				if f == "slow" {
					time.Sleep(time.Millisecond)
				}
				if a.V == nil {
					return types.Null{}
				}
				return a.V
			}})
	}
	scope.AppendPlugins(&tablePlugin{name: "take", f: l.take})
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "allrows", ArgType: &allRowsArgs{},
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &allRowsArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				return types.Null{}
			}
			out := []types.Any{}
			for r := range a.Query.Eval(ctx, scope) {
				out = append(out, r)
			}
			return out
		}})
	scope.AppendVars(ordereddict.NewDict().Set("vl", []types.Any{int64(1), int64(2), int64(3)}).Set("vi", int64(4)))
}

// lifeQuery generates a query of any shape; endless sources may occur anywhere.
func (g *Gen) lifeQuery(d int, inf bool) string {
	srcs := []string{"t1()", "t2()", "LQ", "LP(p=1)", "vl", "range(end=4)", "rsrc()"}
	if inf {
		srcs = append(srcs, "inf()", "inf()", "inf()", "LI", "LJ(p=2)", "RB")
	}
	from := g.pick(srcs...)
	star := true
	if d > 0 {
		switch g.R.Intn(10) {
		case 9:
			from = fmt.Sprintf("take(%s=%s, n=%d)", g.pick("query", "row"), g.pick("{ "+g.lifeQuery(d-1, inf)+" }", "dict(a=1, b=2)", "dict(a=1, b=ev(v=2))", "'x'", "vl", "vi", "LQ", "slow(v=1)"), g.R.Intn(3))
		case 0, 1:
			from = fmt.Sprintf("foreach(row={ %s }, query={ %s }%s)", g.lifeQuery(d-1, inf), g.lifeQuery(d-1, inf), g.pick("", "", ", workers=2", ", workers=5", ", async=TRUE"))
		case 2:
			from = fmt.Sprintf("foreach(row=vl, query={ %s }%s)", g.lifeQuery(d-1, inf), g.pick("", ", workers=3"))
		case 3:
			from = fmt.Sprintf("chain(a={ %s }, b={ %s }, c=LQ)", g.lifeQuery(d-1, inf), g.lifeQuery(d-1, inf))
		case 4:
			from = fmt.Sprintf("if(condition=ev(v=%d), then={ %s }, else={ %s })", g.R.Intn(2), g.lifeQuery(d-1, inf), g.lifeQuery(d-1, inf))
		case 5:
			from = fmt.Sprintf("flatten(query={ SELECT a, b, (1, 2, ev(v=3)) AS l FROM %s })", g.pick(srcs...))
		case 6:
			from = fmt.Sprintf("foreach(row={ %s })", g.lifeQuery(d-1, inf))
		case 7:
			from = fmt.Sprintf("foreach(row={ SELECT dict(a=a, b=b) AS C FROM %s }, column='C', query={ %s })", g.pick(srcs...), g.lifeQuery(d-1, inf))
		}
	}
	var cols []string
	if star && g.one(2) {
		cols = append(cols, "*")
	} else {
		cols = append(cols, "a", "b")
	}
	for i := g.R.Intn(3); i > 0; i-- {
		e := g.pick("ev(v=a) AS e", "slow(v=b) AS s", "res() AS r", "count() AS n", "Fn(x=a) AS f", "if(condition=ev(v=b), then=ev(v=a), else=slow(v=a)) AS i")
		if d > 0 && g.one(2) {
			e = g.pick("{ "+g.lifeQuery(d-1, inf)+" } AS s1", "allrows(query={ "+g.lifeQuery(d-1, inf)+" }) AS s2", "{ "+g.lifeQuery(0, inf)+" LIMIT 2 } AS s3", "allrows(query=LQ) AS s4", "len(list={ "+g.lifeQuery(0, inf)+" }) AS s5")
			e = strings.Replace(e, " LIMIT 2 LIMIT 2", " LIMIT 2", 1)
			if strings.Count(e, "LIMIT") > 1 && strings.HasSuffix(e, "s3") {
				e = "ev() AS s3"
			}
		}
		cols = append(cols, e)
	}
	q := "SELECT " + strings.Join(cols, ", ") + " FROM " + from
	if g.one(3) {
		q += " WHERE " + g.pick("ev(v=1)", "ev(v=b)", "slow(v=1)", "a > 1", "b AND ev(v=a)", "FALSE", "allrows(query={ SELECT a FROM t2() })")
	}
	switch g.R.Intn(8) {
	case 0:
		q += " GROUP BY " + g.pick("a", "b", "ev(v=b)", "1")
	case 1:
		q += " GROUP BY b ORDER BY a"
	case 2:
		q += " ORDER BY " + g.pick("a", "b DESC")
	}
	if g.one(4) {
		q += fmt.Sprintf(" LIMIT %d", g.R.Intn(5))
	}
	if g.one(12) {
		q = "EXPLAIN " + q
		q = strings.TrimPrefix(q, "EXPLAIN ")
	}
	return q
}

const lifeLets = "LET LQ = SELECT a, b, ev(v=a) AS q FROM t1() LET LP(p) = SELECT a, b, p, ev(v=p) AS q FROM t1() " +
	"LET LI = SELECT a, b, ev(v=a) AS q FROM inf() LET LJ(p) = SELECT a, b, p FROM inf() WHERE ev(v=1) LET RB = SELECT _value AS a, ev(v=_value) AS b FROM range(end=1000000000) WHERE a + b >= 0 LET Fn(x) = ev(v=x) + slow(v=1)"

func briefStacks(gs []string) string {
	var out []string
	for _, g := range gs {
		lines := strings.Split(g, "\n")
		var keep []string
		for _, l := range lines {
			if strings.Contains(l, "vfilter") && !strings.HasPrefix(l, "\t") {
				keep = append(keep, l)
			}
			if len(keep) > 4 {
				break
			}
		}
		out = append(out, lines[0]+" "+strings.Join(keep, " < "))
		if len(out) > 3 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func c12run(c *Case, mode string) {
	g := newGen(c.R)
	l := newLife()
	inf := g.one(2)
	depth := g.R.Intn(3)
	q := g.lifeQuery(depth, inf)
	text := q
	switch g.R.Intn(6) {
	case 0:
		text = "LET M <= " + q
	case 1:
		text = "LET M = " + q + " SELECT * FROM M"
	case 2:
		text = "LET M <= SELECT a FROM t2() " + q
	}
	k := 1 + g.R.Intn(12)
	if g.one(3) {
		k = 1 + g.R.Intn(80)
	}
	finite := g.R.Intn(6)
	if g.one(8) {
		finite = 200
	}
	delays := g.one(2) || mode == "timed"
	// timed: the cancellation falls anywhere in virtual time, between or within events
	at := time.Duration(g.R.Intn(40)) * 700 * time.Microsecond
	stopAfter := g.R.Intn(4)
	settle := time.Hour
	c.Desc("mode %s, cancelled at event %d (or at %v), consumer stops after %d rows, t1 has %d rows, delays %v\n%s\n%s", mode, k, at, stopAfter, finite, delays, lifeLets, text)
	var rows, sources int
	closedOK := true
	var left []string
	var refused int
	finished := false
	msg := bubble(c.T, func() {
		scope := vfilter.NewScope()
		l.install(scope, finite)
		for _, v := range mustParse(lifeLets) {
			drain(context.Background(), scope, v)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		doCancel := func() {
			cancel() // the flag comes after every derived context is cancelled
			l.mu.Lock()
			l.cancelled = true
			l.mu.Unlock()
		}
		if delays {
			l.delay = time.Millisecond
		}
		switch mode {
		case "event", "stopped":
			l.hook = func(n int) {
				if n == k {
					doCancel()
				}
			}
		case "before":
			doCancel()
		case "timed":
			go func() {
				time.Sleep(at)
				doCancel()
			}()
		}
		var mu sync.Mutex
		var chans []<-chan types.Row
		resume := make(chan bool)
		done := make(chan bool)
		go func() {
			defer close(done)
			for _, v := range mustParse(text) {
				ch := v.Eval(ctx, scope)
				mu.Lock()
				chans = append(chans, ch)
				mu.Unlock()
				n := 0
				for {
					if mode == "stopped" && n >= stopAfter {
						<-resume
						break
					}
					_, ok := <-ch
					if !ok {
						break
					}
					n++
					mu.Lock()
					rows++
					mu.Unlock()
				}
			}
			mu.Lock()
			finished = true
			mu.Unlock()
		}()
		if delays || mode == "timed" {
			time.Sleep(settle)
		} else {
			// sources without delays and slow() both settle here
			time.Sleep(settle)
		}
		synctest.Wait()
		if ctx.Err() == nil {
			doCancel()
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		// quiescent: nothing moves any more
		left = census()
		mu.Lock()
		if mode == "stopped" {
			for _, ch := range chans {
				select {
				case _, ok := <-ch:
					if ok {
						// a row handed over together with the cancellation
						synctest.Wait()
						select {
						case _, ok = <-ch:
						default:
							ok = true
						}
					}
					closedOK = closedOK && !ok
				default:
					closedOK = false
				}
			}
		} else if !finished {
			closedOK = false
		}
		mu.Unlock()
		close(resume)
		if mode == "stopped" {
			// statements run after the cancellation, and never read
			<-done
			time.Sleep(time.Minute)
			synctest.Wait()
			if again := census(); len(left) == 0 {
				left = again
			}
		}
		if closedOK && len(left) == 0 {
			<-done
			l.res.mu.Lock()
			if l.res.released != l.res.accepted {
				c.Fail("%d destructors accepted, %d have run at quiescence after the cancellation", l.res.accepted, l.res.released)
			}
			refused = l.res.refused
			l.res.mu.Unlock()
			scope.Close()
		}
	})
	c.Eval(1)
	for n := range l.opened {
		sources += l.opened[n]
		if l.opened[n] != l.closed[n] && len(left) == 0 {
			c.Fail("%d of %d runs of source %s never saw the cancellation", l.opened[n]-l.closed[n], l.opened[n], n)
		}
	}
	switch {
	case len(left) > 0:
		c.Fail("%d goroutines of the library remain after the cancellation:\n%s", len(left), briefStacks(left))
	case !closedOK:
		c.Fail("the result channel is still open at quiescence after the cancellation")
	case len(l.overrun) > 0:
		sort.Strings(l.overrun)
		c.Fail("sources %v kept delivering rows after the cancellation", l.overrun)
	case msg != "":
		c.Fail("%s", msg)
	}
	if l.events > 0 {
		c.Seen(fmt.Sprint(mode, text, k, at, stopAfter))
	}
	c.Count("events", l.events)
	c.Count("source_runs_released", sources)
	c.Count("rows", rows)
	c.Count("destructors_refused_after_cancel", refused)
	c.Sample("%s k=%d %s ⇒ %d rows before the end, %d source runs released, nothing left", mode, k, text, rows, sources)
}

// operators applied to a lazy query over an endless source
func c12operators(c *Case) {
	g := newGen(c.R)
	forms := []struct{ id, q string }{
		{"field-of-query", "SELECT LI.a AS x FROM t2()"},
		{"add-queries", "SELECT LI + LQ AS x FROM t2()"},
		{"add-list-query", "SELECT vl + LI AS x FROM t2()"},
		{"index-of-query", "SELECT LI[500].a AS x FROM t2()"},
		{"materialize", "LET X <= SELECT * FROM LI"},
		{"argument", "SELECT len(list=LI) AS x FROM t2()"},
		{"column", "SELECT { SELECT * FROM LI } AS x FROM t2()"},
	}
	f := forms[c.Index%len(forms)]
	k := 1 + g.R.Intn(9)
	l := newLife()
	c.Desc("%s\n%s\ncancelled at event %d", lifeLets, f.q, k)
	msg := bubble(c.T, func() {
		scope := vfilter.NewScope()
		l.install(scope, 3)
		for _, v := range mustParse(lifeLets) {
			drain(context.Background(), scope, v)
		}
		ctx, cancel := context.WithCancel(context.Background())
		l.hook = func(n int) {
			if n == k {
				cancel()
				l.mu.Lock()
				l.cancelled = true
				l.mu.Unlock()
			}
		}
		for _, v := range mustParse(f.q) {
			drain(ctx, scope, v)
		}
		synctest.Wait()
		cancel()
		synctest.Wait()
		scope.Close()
	})
	c.Eval(1)
	what := ""
	if msg != "" {
		what = msg
	} else if len(l.overrun) > 0 {
		what = fmt.Sprintf("source %v kept delivering rows after the cancellation", l.overrun)
	}
	switch f.id {
	case "field-of-query", "add-queries", "add-list-query", "index-of-query":
		c.Known(f.id, what != "", f.q+": "+what)
	default:
		if what != "" {
			c.Fail("%s", what)
		}
	}
	c.Seen(f.q + fmt.Sprint(k))
}

// ---------------------------------------------------------------- C13

// stream is an endless query; finite one which stops by itself (want rows as computed from the capped sources).
func (g *Gen) stream(d int) string {
	if d <= 0 {
		return "SELECT a, b FROM " + g.pick("inf()", "inf()", "LI", "LJ(p=3)", "range13()")
	}
	switch g.R.Intn(10) {
	case 0:
		return fmt.Sprintf("SELECT * FROM foreach(row={ %s }, query={ %s })", g.stream(d-1), g.finite(d-1))
	case 1:
		return fmt.Sprintf("SELECT a, b FROM chain(x={ %s }, y={ %s })", g.finite(d-1), g.stream(d-1))
	case 2:
		return fmt.Sprintf("SELECT a, b FROM if(condition=%s, then={ %s }, else={ %s })", g.pick("LI", "1", "LI[3].a", "{ SELECT a FROM inf() LIMIT 1 }"), g.stream(d-1), g.stream(d-1))
	case 3:
		return fmt.Sprintf("SELECT a, b FROM flatten(query={ SELECT a, b, (1, 2) AS l FROM foreach(row={ %s }) })", g.stream(d-1))
	case 4:
		return fmt.Sprintf("SELECT a, b FROM foreach(row={ %s }) WHERE a >= 0", g.stream(d-1))
	case 5:
		return fmt.Sprintf("SELECT * FROM foreach(row={ %s }, query={ SELECT a, b FROM one13() }, workers=%d)", g.stream(d-1), 1)
	case 6:
		return fmt.Sprintf("SELECT a, { %s } AS s, b FROM foreach(row={ %s })", g.finite(d-1), g.stream(d-1))
	case 7:
		return fmt.Sprintf("SELECT a, b FROM foreach(row={ %s }) WHERE LI", g.stream(d-1))
	case 8:
		return fmt.Sprintf("SELECT a, allrows(query={ %s }) AS s, LI[%d].a AS k, b FROM foreach(row={ %s })", g.finite(d-1), g.R.Intn(3), g.stream(d-1))
	}
	return g.stream(d - 1)
}

func (g *Gen) finite(d int) string {
	switch g.R.Intn(10) {
	case 0:
		return "SELECT a, b FROM t1()"
	case 4, 5:
		// a table of the host which stops reading
		return "SELECT a, b FROM take(" + g.pick("query", "query", "row") + "=" + g.pick("{ "+g.stream(d-1)+" }", "{ "+g.stream(d-1)+" }", "LI", "dict(a=1, b=2)", "5", "'x'", "vl", "vi", "(1, 2)",
			"(dict(a=1), dict(a=2), NULL)", "LJ(p=2)") + fmt.Sprintf(", n=%d)", g.R.Intn(4))
	case 1:
		if d > 0 {
			return fmt.Sprintf("SELECT a, b FROM foreach(row={ SELECT a AS k FROM t2() }, query={ %s })", g.finite(d-1))
		}
	case 2:
		if d > 0 {
			return fmt.Sprintf("SELECT count() AS a, b FROM foreach(row={ %s }) GROUP BY b", g.finite(d-1))
		}
	case 3:
		if d > 0 {
			return fmt.Sprintf("SELECT a, b FROM foreach(row={ %s }) ORDER BY a DESC", g.finite(d-1))
		}
	}
	return fmt.Sprintf("%s LIMIT %d", g.stream(d-1), 1+g.R.Intn(4))
}

// run13 evaluates without ever cancelling and reports rows and what was left behind.
func run13(c *Case, text string, cap int) (rows []string, left []string, l *life, msg string) {
	l = newLife()
	l.cap = cap
	msg = bubble(c.T, func() {
		scope := vfilter.NewScope()
		l.install(scope, 3)
		scope.AppendPlugins(l.source("range13", -1, func(i int) *ordereddict.Dict { return ordereddict.NewDict().Set("a", int64(i*2)).Set("b", int64(1)) }))
		scope.AppendPlugins(l.source("one13", 1, func(i int) *ordereddict.Dict { return ordereddict.NewDict() }))
		for _, v := range mustParse(lifeLets) {
			drain(context.Background(), scope, v)
		}
		ctx, cancel := context.WithCancel(context.Background())
		for _, v := range mustParse(text) {
			rows = append(rows, drain(ctx, scope, v)...)
		}
		time.Sleep(time.Minute)
		synctest.Wait()
		left = census()
		cancel()
		scope.Close()
		synctest.Wait()
	})
	return
}

func c13check(c *Case, text string) {
	c.Desc("%s\n%s", lifeLets, text)
	rows, left, l, msg := run13(c, text, 20000)
	c.Eval(1)
	if l.capped {
		c.Fail("an endless source was read to row 20000 although the query needs a few rows")
		return
	}
	for n := range l.opened {
		if l.opened[n] != l.closed[n] && len(left) == 0 {
			c.Fail("%d runs of source %s are still open", l.opened[n]-l.closed[n], n)
			return
		}
		c.Count("source_runs_released", l.opened[n])
	}
	if len(left) > 0 {
		c.Fail("%d goroutines of the library remain although the query has ended:\n%s", len(left), briefStacks(left))
		return
	}
	if msg != "" {
		c.Fail("%s", msg)
		return
	}
	max := 0
	for _, n := range l.asked {
		if n > max {
			max = n
		}
	}
	// the same with sources which end by themselves
	rows2, _, l2, msg := run13(c, text, max+3)
	if msg != "" {
		c.Fail("with ending sources: %s", msg)
		return
	}
	if d := diffRows(rows2, rows); d != "" {
		c.Fail("rows differ from those over sources which end: %s", d)
		return
	}
	_ = l2
	c.Count("rows", len(rows))
	if len(rows) > 0 {
		c.Seen(text)
		c.Sample("%s ⇒ %d rows, every source released", text, len(rows))
	}
}

func c13endless(c *Case) {
	g := newGen(c.R)
	text := g.finite(1 + g.R.Intn(3))
	switch g.R.Intn(5) {
	case 0:
		text = "LET M <= " + text + " SELECT * FROM M"
	case 1:
		text = "LET M = " + text + " SELECT * FROM M"
	case 2:
		text = "SELECT * FROM foreach(row={ SELECT a AS k FROM t2() }, workers=3, query={ SELECT 1 AS x FROM foreach(row={ " + text + " }) })"
	}
	c13check(c, text)
}

func c13values(c *Case) {
	g := newGen(c.R)
	var cols []string
	name := func() string { return g.pick("LI", "LI", "S", "LJ(p=1)", "SP(p=2)") }
	lets := "LET S = " + g.stream(g.R.Intn(3)) + " LET SP(p) = " + g.stream(g.R.Intn(2)) + " "
	for i := 1 + g.R.Intn(3); i > 0; i-- {
		q := name()
		cols = append(cols, fmt.Sprintf("%s AS x%d", g.pick(
			"if(condition="+q+", then='yes', else='no')", fmt.Sprintf("%s[%d].a", q, g.R.Intn(4)), "NOT "+q, "NOT (1 AND "+q+")", "if(condition=("+q+" OR 0), then='either')",
			fmt.Sprintf("{ SELECT a FROM %s LIMIT %d }", q, g.R.Intn(4)), "allrows(query={ "+g.finite(1)+" })",
			"if(condition="+q+"["+fmt.Sprint(g.R.Intn(3))+"].a, then="+q+"[1].a)", "len(list={ "+g.finite(1)+" })"), i))
	}
	text := lets + "SELECT " + strings.Join(cols, ", ") + " FROM " + g.pick("t1()", "one13()", "t2()")
	if g.one(2) {
		text += " WHERE " + g.pick(name(), "NOT "+name(), name()+"[2].a", "1 OR "+name())
	}
	c13check(c, text)
}
