package main

import (
	"context"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

// C16: recursion without an end is stopped, recursion with one works.

func init() {
	register(&Property{ID: "C16",
		Rule: "A case defines a cycle of definitions (values, functions, queries, queries with parameters; the reference placed in an operand, argument, branch, condition, column, WHERE, foreach, chain, default, ...) and evaluates it: it terminates (watchdog on consumed CPU; a host predicate counts evaluations), logs the overflow, pure cycles give NULL or no rows, and the same scope then evaluates ordinary and boundedly recursive definitions exactly. Bounded recursion is compared with the recurrence computed in Go: exact whenever no overflow was logged, and no overflow is logged well inside the limit. Non-trivial: the recursion really nested.",
		Assume: []string{"an overflow that takes more than the CPU bound of 90 s counts as a hang",
			"definitions which refer to themselves more than once per evaluation are the known finding branching-recursion, not generated elsewhere"},
		Groups: []Group{
			{"cycles", 1500, 20000, c16cycles},
			{"bounded", 600, 8000, c16bounded},
			{"repeated", 60, 800, c16repeated},
			{"fixed", len(c16fixedForms), len(c16fixedForms), c16fixed},
			{"known", 1, 1, c16known},
			{"nested", 1, 1, c16nested},
		}})
}

type recHost struct {
	e      *Engine
	budget int
	mu     sync.Mutex
	used   int
}

// more() is true until the budget is used up; every definition of a guarded cycle asks it once per evaluation.
func newRecHost(budget int) *recHost {
	h := NewHost()
	h.Tables["one"] = []V{NewD().Set("z_", int64(1))}
	h.Tables["two"] = []V{NewD().Set("z_", int64(1)), NewD().Set("z_", int64(2))}
	h.Vars.Set("K", int64(7))
	r := &recHost{budget: budget, e: NewEngine(h)}
	r.e.Scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "more",
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			r.mu.Lock()
			defer r.mu.Unlock()
			r.used++
			return r.used <= r.budget
		}})
	return r
}

func overflowed(logs []string) bool {
	for _, l := range logs {
		if strings.Contains(l, "Stack Overflow") {
			return true
		}
	}
	return false
}

// positions of a reference inside an expression; strict ones give NULL when the reference is NULL.
type recPos struct {
	text   string
	strict bool
}

var recExprs = []recPos{
	{"§", true}, {"1 + §", true}, {"§ + 1", true}, {"2 * §", true}, {"(§)", true}, {"§ - 1", true}, {"(§).foo", true}, {"(§)[0]", true},
	{"(§)[0:2]", true}, {"get(item=§, member='a')", true}, {"if(condition=1, then=§, else=1)", true}, {"if(condition=0, then=1, else=§)", true},
	{"if(condition=§, then=1, else=2)", false}, {"dict(a=§)", false}, {"(§, 1)", false}, {"NOT §", false}, {"§ = 1", false}, {"§ != §§", false},
	{"1 < §", false}, {"§ >= 1", false}, {"1 IN §", false}, {"§ IN (1, 2)", false}, {"§ =~ 'a'", false}, {"TRUE AND §", false}, {"§ AND 1", false}, {"FALSE OR §", false}, {"§ || 3", false},
	{"format(format='%v', args=§) = 'x'", false}, {"format(format='%v', args=[§]) =~ 'x'", false}, {"len(list=§)", false}, {"probe(id='r', v=§)", true}, {"pick(use='a', a=§)", true},
	{"dict(a=dict(b=§)).a.b", true}, {"if(condition=more(), then=§, else=0)", true}, {"if(condition=more(), then=§)", true},
	{"encode(string=§, type='string') = 'x'", false}, {"len(list=split(string=§, sep=','))", false},
	{"get(item=dict(a=§), field='a')", false}, {"allrows(query={ SELECT § AS c FROM one() })", false}, {"allrows(query={ SELECT § AS c, 2 AS d FROM one() })", false}, {"allrows(query={ SELECT * FROM one() WHERE § })", false}, {"allrows(query={ SELECT z_ FROM one() WHERE NOT § })", false},
	{"allrows(query={ SELECT § AS c FROM one() GROUP BY z_ })", false}, {"allrows(query={ SELECT z_ FROM one() GROUP BY § })", false}, {"allrows(query={ SELECT § AS c FROM one() ORDER BY z_ })", false}, {"allrows(query={ SELECT § AS c FROM one() LIMIT 1 })", false},
	{"allrows(query={ SELECT count(items=§) AS c FROM one() GROUP BY 1 })", false}, {"allrows(query={ SELECT max(item=§) AS c FROM one() })", false},
	{"allrows(query={ SELECT § AS c FROM one() })", false},
	{"allrows(query={ SELECT c FROM foreach(row={ SELECT § AS c FROM one() }, query={ SELECT c FROM one() }) })", false}, {"allrows(query={ SELECT c FROM foreach(row=§) })", false},
	{"allrows(query={ SELECT c FROM foreach(row={ SELECT 1 AS d FROM one() }, query={ SELECT § AS c FROM one() }) })", false},
	{"allrows(query={ SELECT c FROM foreach(row={ SELECT 1 AS d FROM one() }, workers=2, query={ SELECT § AS c FROM one() }) })", false},
	{"allrows(query={ SELECT * FROM range(start=0, end=§) })", false}, {"allrows(query={ SELECT * FROM flatten(query={ SELECT § AS c FROM one() }) })", false},
	{"allrows(query={ SELECT * FROM if(condition=§, then={ SELECT 1 AS a FROM one() }) })", false},
	{"allrows(query={ SELECT * FROM if(condition=1, then={ SELECT § AS a FROM one() }) })", false},
	{"allrows(query={ SELECT * FROM chain(a={ SELECT 1 AS a FROM one() }, b={ SELECT § AS b FROM one() }) })", false},
}

// positions of a reference used as a table
var recTables = []recPos{
	{"SELECT * FROM §", true}, {"SELECT * FROM § WHERE 1", true}, {"SELECT * FROM § LIMIT 3", true}, {"SELECT * FROM § ORDER BY a", true}, {"SELECT a, count() FROM § GROUP BY a", true},
	{"SELECT *, 1 AS b FROM §", true}, {"SELECT * FROM foreach(row={ SELECT * FROM § }, query={ SELECT 1 AS x FROM one() })", true},
	{"SELECT * FROM foreach(row={ SELECT 1 AS d FROM one() }, query={ SELECT * FROM § })", true}, {"SELECT * FROM foreach(row={ SELECT 1 AS d FROM one() }, workers=3, query={ SELECT * FROM § })", true},
	{"SELECT * FROM foreach(row={ SELECT 1 AS d FROM one() }, async=TRUE, query={ SELECT * FROM § })", true},
	{"SELECT * FROM if(condition=1, then={ SELECT * FROM § })", true}, {"SELECT * FROM if(condition=0, else={ SELECT * FROM § }, then={SELECT 1 FROM one()})", true},
	{"SELECT * FROM if(condition={ SELECT * FROM § }, then={ SELECT 1 AS x FROM one() })", true},
	{"SELECT * FROM chain(a={ SELECT * FROM § })", true}, {"SELECT * FROM chain(a={ SELECT 1 AS x FROM one() }, b={ SELECT * FROM § })", false},
	{"SELECT * FROM flatten(query={ SELECT * FROM § })", true}, {"SELECT { SELECT * FROM § } AS c FROM one()", false}, {"SELECT z_ FROM one() WHERE allrows(query={ SELECT * FROM § }).a", true},
	{"SELECT len(list={ SELECT * FROM § }) AS c FROM one()", false}, {"SELECT allrows(query={ SELECT * FROM § }) AS c FROM one()", false},
	{"SELECT * FROM if(condition=more(), then={ SELECT * FROM § })", true}, {"SELECT * FROM chain(a={ SELECT 1 AS a FROM one() WHERE FALSE }, b={ SELECT * FROM § })", true},
	{"EXPLAIN SELECT * FROM §", true},
	{"SELECT z_ FROM one() WHERE 1 IN allrows(query={ SELECT * FROM § }).a", true},
}

// defs: a cycle of n definitions.  Returns the definitions, the expression/table forms of the first one and whether all positions are strict.
func (c *Case) recCycle(n int) (defs []string, exprRef, tableRef string, strict, guarded bool) {
	kinds := make([]string, n)
	for i := range kinds {
		kinds[i] = []string{"value", "fn", "query", "qp", "fn0", "qp0"}[c.R.Intn(6)]
	}
	if c.R.Intn(6) == 0 { // all of one kind
		for i := range kinds {
			kinds[i] = kinds[0]
		}
	}
	ref := func(i int, in string, table bool) string {
		arg := []string{"p=1", "p=p", "p='x'", "p=K"}[c.R.Intn(4)]
		if in != "fn" && in != "qp" && arg == "p=p" {
			arg = "p=2"
		}
		name := fmt.Sprintf("D%d", i)
		switch kinds[i] {
		case "fn", "qp":
			name += "(" + arg + ")"
		case "fn0", "qp0":
			name += "()"
			if c.R.Intn(3) == 0 {
				name = fmt.Sprintf("D%d(q=2)", i)
			}
		}
		if table {
			return name
		}
		switch kinds[i] {
		case "query", "qp", "qp0":
			if c.R.Intn(2) == 0 {
				return "allrows(query={ SELECT * FROM " + name + " })"
			}
			// a bare reference is not evaluated by all positions: force it
			return "allrows(query=" + name + ")"
		}
		return name
	}
	strict = true
	for i := 0; i < n; i++ {
		next := (i + 1) % n
		var body string
		switch kinds[i] {
		case "value", "fn", "fn0":
			p := recExprs[c.R.Intn(len(recExprs))]
			body = strings.Replace(p.text, "§§", "1", -1)
			r := ref(next, kinds[i], false)
			body = strings.Replace(body, "§", r, -1)
			strict = strict && p.strict && !strings.HasPrefix(r, "{") && !strings.HasPrefix(r, "allrows")
			guarded = guarded || strings.Contains(p.text, "more()")
		default:
			if c.R.Intn(4) == 0 {
				p := recExprs[c.R.Intn(len(recExprs))]
				body = strings.Replace(p.text, "§§", "1", -1)
				body = "SELECT " + strings.Replace(body, "§", ref(next, kinds[i], false), -1) + " AS col FROM one()"
				strict = false
				guarded = guarded || strings.Contains(p.text, "more()")
			} else {
				p := recTables[c.R.Intn(len(recTables))]
				body = strings.Replace(p.text, "§", ref(next, kinds[i], true), -1)
				strict = strict && p.strict
				guarded = guarded || strings.Contains(p.text, "more()")
				if kinds[next] != "query" && kinds[next] != "qp" && kinds[next] != "qp0" {
					strict = false // a value used as a table may be one row
				}
			}
		}
		name := fmt.Sprintf("D%d", i)
		switch kinds[i] {
		case "fn", "qp":
			name += "(p)"
		case "fn0":
			name += "(q=1)"
		case "qp0":
			name += "(q=1)"
		}
		defs = append(defs, "LET "+name+" = "+body)
	}
	return defs, ref(0, "", false), ref(0, "", true), strict, guarded
}

func c16cycles(c *Case) {
	n := 1 + c.R.Intn(4)
	defs, er, tr, strict, guarded := c.recCycle(n)
	var use string
	table := c.R.Intn(2) == 0
	if table {
		use = "SELECT * FROM " + tr
	} else {
		use = "SELECT " + er + " AS v, 1 AS other FROM one()"
	}
	text := strings.Join(defs, "\n") + "\n" + use
	c.Desc("%s", text)
	budget := 50000
	r := newRecHost(budget)
	defer r.e.Close()
	got, err := r.e.Last(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	c.Eval(1)
	if guarded && r.used > budget {
		c.Fail("the recursion was still going on after %d evaluations", r.used)
		return
	}
	over := overflowed(r.e.Logs)
	if over {
		c.Count("overflows", 1)
	} else {
		c.Count("cycles_without_overflow", 1)
		if strict {
			c.Fail("no overflow was logged; logs %.300q rows %.300q", r.e.Logs, got)
		}
	}
	if strict && len(defs) > 0 {
		switch {
		case table && strings.Contains(defs[0], "= SELECT") || table && strings.Contains(defs[0], "= EXPLAIN"):
			if len(got) != 0 {
				c.Fail("a query defined only by itself has %d rows: %.300s", len(got), strings.Join(got, " "))
			}
			c.Count("empty_results", 1)
		case !table && !strings.Contains(er, "{") && !strings.Contains(er, "allrows"):
			want := `{"v": null, "other": i:1}`
			if len(got) != 1 || got[0] != want {
				c.Fail("a value defined only by itself: want %s got %.300s", want, strings.Join(got, " "))
			}
			c.Count("null_results", 1)
		}
	}
	if !table && len(got) != 1 && !strings.Contains(use, "WHERE") {
		c.Fail("the row of the enclosing query is gone: %.300q", got)
	}
	if over {
		c.recAfter(r)
	}
	c.Seen(text)
	c.Sample("%s\n-> %d rows, overflow logged %v", text, len(got), over)
}

// after an overflow the scope still works
func (c *Case) recAfter(r *recHost) {
	if d := depthOf(r.e.Scope); d != 0 {
		c.Fail("the depth of the scope is %d after the query", d)
	}
	r.e.Logs = nil
	n := 5 + c.R.Intn(60)
	text := fmt.Sprintf("LET Rafter(n) = if(condition=n > 0, then=n + Rafter(n=n - 1), else=0) LET Tafter(n) = SELECT * FROM if(condition=n > 0, then={ SELECT * FROM chain(a={ SELECT n AS x FROM one() }, b={ SELECT * FROM Tafter(n=n - 1) }) }) "+
		"SELECT K + 1 AS k, Rafter(n=%d) AS r, len(list=allrows(query={SELECT * FROM Tafter(n=%d)})) AS l FROM one()", n, n)
	got, err := r.e.Last(text)
	want := fmt.Sprintf(`{"k": i:8, "r": i:%d, "l": i:%d}`, n*(n+1)/2, n)
	if err != nil || len(got) != 1 || got[0] != want {
		c.Fail("after an overflow: %s\nwant %s got %v %v logs %.300q", text, want, got, err, r.e.Logs)
	}
	// the query before it may have been stopped by its LIMIT and still log while it ends
	for _, l := range r.e.Logs {
		if strings.Contains(l, "after") && (strings.Contains(l, "ERROR") || overflowed([]string{l})) {
			c.Fail("after an overflow: %s logs %.300q", text, l)
		}
	}
	c.Eval(1)
	c.Count("scopes_used_after_overflow", 1)
}

// bounded recursion with its value computed in Go; safe is a depth well inside the limit (the limit is 1000)
type recForm struct {
	name string
	defs string
	use  string // % n
	want func(n int) string
	safe int
	max  int
}

func sumTo(n int) int { return n * (n + 1) / 2 }

func rowsDown(n int, f func(i int) string) string {
	var out []string
	for i := n; i > 0; i-- {
		out = append(out, f(i))
	}
	return strings.Join(out, "\n")
}

func rowsUp(n int, f func(i int) string) string {
	var out []string
	for i := 1; i <= n; i++ {
		out = append(out, f(i))
	}
	return strings.Join(out, "\n")
}

func nested(n int) string {
	s := "null"
	for i := 1; i <= n; i++ {
		s = fmt.Sprintf(`{"n": i:%d, "next": %s}`, i, s)
	}
	return s
}

func fib(n int) int {
	a, b := 0, 1
	for i := 0; i < n; i++ {
		a, b = b, a+b
	}
	return a
}

func vI(i int) string { return fmt.Sprintf(`{"v": i:%d}`, i) }

var recForms = []recForm{
	{"sum", "LET R(n) = if(condition=n > 0, then=n + R(n=n - 1), else=0)", "SELECT R(n=%d) AS v FROM one()", func(n int) string { return vI(sumTo(n)) }, 900, 3000},
	{"accumulate", "LET R(n, acc=0) = if(condition=n = 0, then=acc, else=R(n=n - 1, acc=acc + n))", "SELECT R(n=%d) AS v FROM one()", func(n int) string { return vI(sumTo(n)) }, 900, 3000},
	{"and", "LET R(n) = n = 0 OR R(n=n - 1)", "SELECT R(n=%d) AS v FROM one()", func(n int) string { return `{"v": true}` }, 900, 3000},
	{"evenodd", "LET Even(n) = if(condition=n = 0, then=TRUE, else=Odd(n=n - 1)) LET Odd(n) = if(condition=n = 0, then=FALSE, else=Even(n=n - 1))", "SELECT Even(n=%d) AS v FROM one()",
		func(n int) string { return fmt.Sprintf(`{"v": %v}`, n%2 == 0) }, 900, 3000},
	{"nest", "LET R(n) = if(condition=n > 0, then=dict(n=n, next=R(n=n - 1)), else=NULL)", "SELECT R(n=%d) AS v FROM one()", func(n int) string { return `{"v": ` + nested(n) + "}" }, 900, 2000},
	{"fib", "LET R(n) = if(condition=n < 2, then=n, else=R(n=n - 1) + R(n=n - 2))", "SELECT R(n=%d %% 1 + 0) AS v FROM one()", nil, 12, 12},
	{"chain", "LET T(n) = SELECT * FROM if(condition=n > 0, then={ SELECT * FROM chain(a={ SELECT n AS v FROM one() }, b={ SELECT * FROM T(n=n - 1) }) })", "SELECT * FROM T(n=%d)",
		func(n int) string { return rowsDown(n, vI) }, 250, 500},
	{"chainup", "LET T(n) = SELECT * FROM if(condition=n > 0, then={ SELECT * FROM chain(a={ SELECT * FROM T(n=n - 1) }, b={ SELECT n AS v FROM one() }) })", "SELECT * FROM T(n=%d)",
		func(n int) string { return rowsUp(n, vI) }, 60, 500},
	{"foreach", "LET T(n) = SELECT * FROM foreach(row={ SELECT n AS m FROM one() }, query={ SELECT * FROM if(condition=m > 0, then={ SELECT * FROM T(n=m - 1) }, else={ SELECT 'done' AS v FROM one() }) })", "SELECT * FROM T(n=%d)",
		func(n int) string { return `{"v": "done"}` }, 40, 400},
	{"workers", "LET T(n) = SELECT * FROM foreach(row={ SELECT n AS m FROM one() }, workers=2, query={ SELECT * FROM if(condition=m > 0, then={ SELECT * FROM T(n=m - 1) }, else={ SELECT 'done' AS v FROM one() }) })", "SELECT * FROM T(n=%d)",
		func(n int) string { return `{"v": "done"}` }, 40, 400},
	{"column", "LET T(n) = SELECT n, if(condition=n > 1, then=allrows(query={ SELECT * FROM T(n=n - 1) })[0]) AS next FROM one()", "SELECT * FROM T(n=%d)",
		func(n int) string { return nested(max(n, 1)) }, 4, 6},
	{"query as function", "LET T(n) = SELECT if(condition=n > 0, then=T(n=n - 1).v[0], else=0) + n AS v FROM one()", "SELECT * FROM T(n=%d)",
		func(n int) string { return vI(sumTo(n)) }, 100, 600},
	{"mixed", "LET F(n) = if(condition=n > 0, then=allrows(query={ SELECT v FROM T(n=n - 1) }).v[0] + 1, else=0) LET T(n) = SELECT F(n=n) + 1 AS v FROM one()", "SELECT F(n=%d) AS v FROM one()",
		func(n int) string { return vI(2 * n) }, 90, 600},
	{"default", "LET R(n, next=if(condition=K > 0, then=1)) = if(condition=n > 0, then=R(n=n - 1) + 1, else=0)", "SELECT R(n=%d) AS v FROM one()", func(n int) string { return vI(n) }, 900, 2000},
	{"higher order", "LET Apply(f, n) = if(condition=n > 0, then=1 + Apply(f=f, n=n - 1), else=0)", "SELECT Apply(f='x', n=%d) AS v FROM one()", func(n int) string { return vI(n) }, 900, 3000},
	{"where", "LET T(n) = SELECT n AS v FROM one() WHERE n = 0 OR allrows(query={ SELECT * FROM T(n=n - 1) })", "SELECT * FROM T(n=%d)", func(n int) string { return vI(n) }, 90, 500},
	{"group", "LET T(n) = SELECT sum(item=v) AS v FROM if(condition=n > 0, then={ SELECT * FROM chain(a={ SELECT n AS v FROM one() }, b={ SELECT * FROM T(n=n - 1) }) }, else={ SELECT 0 AS v FROM one() }) GROUP BY 1", "SELECT * FROM T(n=%d)",
		func(n int) string { return vI(sumTo(n)) }, 60, 400},
	{"order", "LET T(n) = SELECT * FROM if(condition=n > 0, then={ SELECT * FROM chain(a={ SELECT n AS v FROM one() }, b={ SELECT * FROM T(n=n - 1) }) }) ORDER BY v", "SELECT * FROM T(n=%d)",
		func(n int) string { return rowsUp(n, vI) }, 60, 400},
}

func c16bounded(c *Case) {
	f := recForms[c.R.Intn(len(recForms))]
	var n int
	var text, want string
	if f.name == "fib" {
		n = c.R.Intn(13)
		text, want = f.defs+" "+fmt.Sprintf("SELECT R(n=%d) AS v FROM one()", n), vI(fib(n))
	} else {
		n = 1 + c.R.Intn(f.safe)
		if c.R.Intn(2) == 0 {
			n = 1 + c.R.Intn(f.max)
		}
		if c.R.Intn(5) == 0 {
			n = f.safe
		}
		text, want = f.defs+" "+fmt.Sprintf(f.use, n), f.want(n)
	}
	c.Desc("%s: %s", f.name, text)
	r := newRecHost(0)
	defer r.e.Close()
	got, err := r.e.Last(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	c.Eval(1)
	res := strings.Join(got, "\n")
	over := overflowed(r.e.Logs)
	c.Count("bounded_"+strings.ReplaceAll(f.name, " ", "_"), 1)
	switch {
	case over && n <= f.safe:
		c.Fail("recursion of depth %d overflowed", n)
	case over:
		c.Count("bounded_overflows", 1)
		c.recAfter(r)
	case res != want:
		c.Fail("recursion of depth %d: want %.400s got %.400s logs %.300q", n, want, res, r.e.Logs)
	case len(errorLines(r.e.Logs)) > 0:
		c.Fail("recursion of depth %d logged %.300q", n, r.e.Logs)
	}
	if n > 1 {
		c.Seen(text)
	}
	c.Sample("%s with n=%d: overflow %v, %d rows", f.name, n, over, len(got))
}

// depth does not accumulate over calls, rows, statements or goroutines, with or without overflows in between
func c16repeated(c *Case) {
	r := newRecHost(0)
	defer r.e.Close()
	f := recForms[c.R.Intn(len(recForms))]
	for f.name == "fib" || f.name == "column" {
		f = recForms[c.R.Intn(len(recForms))]
	}
	n := f.safe/2 + c.R.Intn(f.safe/2)
	c.Desc("repeated %s n=%d", f.name, n)
	if _, err := r.e.Run(f.defs + " LET Loop = Loop LET LoopQ = SELECT * FROM LoopQ"); err != nil {
		c.Fail("%v", err)
		return
	}
	use, err := vfilter.Parse(fmt.Sprintf(f.use, n))
	if err != nil {
		c.Fail("%v", err)
		return
	}
	bad, _ := vfilter.Parse("SELECT Loop, { SELECT * FROM LoopQ } AS b FROM one()")
	want := f.want(n)
	check := func(s types.Scope, what string) bool {
		got := strings.Join(drain(r.e.ctx, s, use), "\n")
		c.Eval(1)
		if got != want {
			c.Fail("%s: want %.300s got %.300s", what, want, got)
			return false
		}
		return true
	}
	mode := c.R.Intn(3)
	switch mode {
	case 0:
		for i := 0; i < 20; i++ {
			if i%4 == 3 {
				drain(r.e.ctx, r.e.Scope, bad)
			}
			if !check(r.e.Scope, fmt.Sprintf("evaluation %d on one scope", i)) {
				return
			}
		}
	case 1:
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			i := i
			s := r.e.Scope.Copy()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					if i%3 == 2 {
						drain(r.e.ctx, s, bad)
					}
					check(s, fmt.Sprintf("goroutine %d evaluation %d", i, k))
				}
				s.Close()
			}()
		}
		wg.Wait()
	case 2:
		k := 200
		inner := fmt.Sprintf(f.use, 1+n/20)
		text := fmt.Sprintf("SELECT * FROM foreach(row={ SELECT _value FROM range(start=0, end=%d) }, query={ %s })", k, inner)
		c.Desc("%s", text)
		got, err := r.e.Last(text)
		if err != nil {
			c.Fail("%v", err)
			return
		}
		w := f.want(1 + n/20)
		if g := strings.Join(got, "\n"); g != strings.Repeat(w+"\n", k-1)+w {
			c.Fail("%d calls: want each %.200s got %d rows logs %.300q", k, w, len(got), r.e.Logs)
		}
		c.Eval(1)
		if overflowed(r.e.Logs) {
			c.Fail("%d separate calls overflowed together", k)
		}
	}
	if d := depthOf(r.e.Scope); d != 0 {
		c.Fail("the depth of the scope is %d afterwards", d)
	}
	c.Count(fmt.Sprintf("repeated_mode_%d", mode), 1)
	c.Seen(fmt.Sprintf("%s/%d/%d", f.name, n, mode))
	c.Sample("%s n=%d repeated in mode %d", f.name, n, mode)
}

// hand written cycles through less usual paths
var c16fixedForms = []string{
	"LET F(x=F()) = x SELECT F() AS v FROM one()",
	"LET F(x=1 + F()) = x SELECT F() AS v FROM one()",
	"LET F(x=G()) = x LET G(y=F()) = y SELECT G() AS v FROM one()",
	"LET Q(x=Q()) = SELECT x FROM one() SELECT * FROM Q()",
	"LET Q(x={ SELECT * FROM Q() }) = SELECT * FROM x SELECT * FROM Q()",
	"LET Q(x=Q(y=1)) = SELECT * FROM x SELECT * FROM Q()",
	"LET Q(x=Q(y=1), y=2) = SELECT * FROM x SELECT * FROM Q()",
	"LET F(x=[F(), F]) = x SELECT F() AS v FROM one() LIMIT 0",
	"LET F(g) = g(g=g) SELECT F(g=F) AS v FROM one()",
	"LET F(x) = F(x=x + 1) SELECT F(x=1) AS v FROM one()",
	"LET F(x) = F(x=dict(a=x)) SELECT F(x=1) AS v FROM one()",
	"LET F(x) = F(x=(x, 1)) SELECT F(x=1) AS v FROM one()",
	"LET Q(x) = SELECT x, { SELECT * FROM Q(x=x) } AS y FROM scope() SELECT * FROM Q(x=1)",
	"LET Q(x) = SELECT x, miss, { SELECT * FROM Q(x=x) } AS y FROM scope() SELECT * FROM Q(x=1)",
	"LET Q(x) = SELECT * FROM foreach(row={ SELECT x + 1 AS y FROM scope() }, query={ SELECT * FROM Q(x=y) }) SELECT * FROM Q(x=1)",
	"LET Q(x) = SELECT * FROM foreach(row={ SELECT x + 1 AS y, miss FROM scope() }, workers=3, query={ SELECT * FROM Q(x=y) }) SELECT * FROM Q(x=1)",
	"LET A = SELECT * FROM B LET B = SELECT * FROM C() LET C(x=1) = SELECT * FROM A WHERE x SELECT * FROM A",
	"LET Q = SELECT * FROM Q EXPLAIN SELECT * FROM Q",
	"LET Q = SELECT count() AS c FROM Q GROUP BY 1 SELECT * FROM Q",
	"LET Q = SELECT * FROM Q LET M <= SELECT * FROM Q SELECT * FROM M",
	"LET X = X LET M <= X SELECT M AS v FROM one()",
	"LET X <= X SELECT X AS v FROM one()",
	"LET X = `X` SELECT `X` AS v FROM one()",
	"LET X = -X SELECT X AS v FROM one()",
	"LET X = X.a.b SELECT X AS v FROM one()",
	"LET X = dict(a=X.a) SELECT X.a AS v FROM one()",
	"LET X = scope().X SELECT X AS v FROM one()",
	"LET len = len SELECT len AS v FROM one()",
	"LET one = SELECT * FROM one SELECT * FROM one",
	"LET one() = SELECT * FROM one() SELECT * FROM one()",
	"LET Q = SELECT Q FROM one() SELECT Q FROM one()",
	"LET Q(x) = SELECT Q(x=x) FROM one() SELECT Q(x=1) AS v FROM one()",
	"LET F = { SELECT F FROM one() } SELECT F AS v FROM one()",
	"LET F(x) = { SELECT F(x=1) AS a FROM one() } SELECT F(x=2).a.a.a AS v FROM one()",
	"LET R(n) = SELECT * FROM chain(a={ SELECT n FROM one() }, b={ SELECT * FROM R(n=n + 1) }) SELECT * FROM R(n=1)",
	"LET R(n) = SELECT * FROM chain(a={ SELECT n FROM one() }, b={ SELECT * FROM R(n=n + 1) }) SELECT * FROM R(n=1) LIMIT 5",
	"LET R(n) = SELECT * FROM chain(a={ SELECT n FROM one() }, b={ SELECT * FROM R(n=n + 1) }, async=TRUE) SELECT * FROM R(n=1)",
	"SELECT * FROM foreach(row={ SELECT * FROM Q }, query=Q)",
	"LET Q = SELECT * FROM foreach(row=Q, query=Q) SELECT * FROM Q",
	"LET Q = SELECT * FROM flatten(query=Q) SELECT * FROM Q",
	"LET Q = SELECT * FROM if(condition=Q, then=Q, else=Q) SELECT * FROM Q LIMIT 0",
}

func c16fixed(c *Case) {
	text := c16fixedForms[c.Index]
	text = strings.Replace(text, "EXPLAIN SELECT", " EXPLAIN SELECT", 1)
	c.Desc("%s", text)
	r := newRecHost(50000)
	defer r.e.Close()
	_, err := vfilter.MultiParse(text)
	if err != nil {
		// not all of them are in the language: then they are no queries
		c.Count("fixed_forms_that_do_not_parse", 1)
		c.Seen(text)
		return
	}
	got, _ := r.e.Last(text)
	c.Eval(1)
	if overflowed(r.e.Logs) {
		c.Count("overflows", 1)
	}
	if strings.Contains(text, "LET one") {
		c.Count("redefined_tables", 1)
	} else {
		c.recAfter(r)
	}
	c.Seen(text)
	c.Sample("%s -> %.200q, overflow %v", text, got, overflowed(r.e.Logs))
}

// a definition which refers to itself twice takes 2^depth evaluations to overflow
func c16known(c *Case) {
	text := "LET X = if(condition=more(), then=X + X, else=0) SELECT X AS v FROM one()"
	c.Desc("%s", text)
	r := newRecHost(20000)
	defer r.e.Close()
	if _, err := r.e.Last(text); err != nil {
		c.Fail("%v", err)
	}
	c.Eval(1)
	c.Known("branching-recursion", r.used > 20000, fmt.Sprintf("`LET X = X + X` is still recursing after %d evaluations (every level doubles them until the depth limit of 1000)", r.used))
	c.Seen(text)
	c.Sample("%s: %d evaluations", text, r.used)
}

// recursion is counted in calls, each of which may nest expressions as deep as its text does
func c16nested(c *Case) {
	text := func(n int) string {
		return "LET F(x) = " + strings.Repeat("dict(a=", n) + "F(x=x)" + strings.Repeat(")", n) + " SELECT F(x=1).a AS v FROM one()"
	}
	c.Desc("a recursive function whose body nests 400 calls")
	died := demo(text(50), 100*time.Second)
	if died != "" {
		c.Fail("with 50 nested calls: %s", died)
	}
	died = demo(text(400), 100*time.Second)
	c.Eval(2)
	c.Known("nested-recursion", died != "", "a recursive function whose body nests 400 calls exhausts the stack before it reaches the depth limit of 1000: "+died)
	c.Seen("50")
	c.Seen("400")
	c.Sample("50 nested calls: ended; 400: %q", died)
}

// depthOf is the nesting depth the scope believes to be at (0 if it does not say).
func depthOf(s types.Scope) int {
	if d, ok := s.(interface{ StackDepth() int }); ok {
		return d.StackDepth()
	}
	return 0
}
