package main

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C11", Rule: "distinct histories (registrations, copies, closes, queries) whose destructor log passed the exactly-once and ordering checks",
		Groups: []Group{
			{"history", 6000, 150000, c11history},
			{"concurrent", 1500, 40000, c11concurrent},
			{"refused", 1500, 40000, c11refused},
			{"queries", 3000, 80000, c11queries},
			{"calls", 400, 8000, c11calls},
		}})
}

// ---------------------------------------------------------------- C11

type dlog struct {
	mu       sync.Mutex
	events   []string
	accepted map[int]int // id -> scope
	refused  map[int]bool
	runs     map[int]int
	order    []int
	next     int
}

func newDlog() *dlog {
	return &dlog{accepted: map[int]int{}, refused: map[int]bool{}, runs: map[int]int{}}
}

func (l *dlog) note(format string, args ...interface{}) {
	l.mu.Lock()
	l.events = append(l.events, fmt.Sprintf(format, args...))
	l.mu.Unlock()
}

// add registers a destructor and logs the outcome; f runs inside it.
func (l *dlog) add(s types.Scope, sid int, f func(id int)) int {
	l.mu.Lock()
	l.next++
	id := l.next
	l.mu.Unlock()
	err := s.AddDestructor(func() {
		l.mu.Lock()
		l.runs[id]++
		l.order = append(l.order, id)
		l.events = append(l.events, fmt.Sprintf("run %d", id))
		l.mu.Unlock()
		if f != nil {
			f(id)
		}
	})
	l.mu.Lock()
	if err != nil {
		l.refused[id] = true
		l.events = append(l.events, fmt.Sprintf("destructor %d on scope %d refused", id, sid))
	} else {
		l.accepted[id] = sid
		l.events = append(l.events, fmt.Sprintf("destructor %d on scope %d accepted", id, sid))
	}
	l.mu.Unlock()
	return id
}

// check verifies exactly-once for the accepted destructors of the scopes selected and that nothing refused ran.
func (l *dlog) check(closed func(sid int) bool) string {
	l.mu.Lock()
	defer l.mu.Unlock()
	ids := make([]int, 0, len(l.accepted))
	for id := range l.accepted {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		n := l.runs[id]
		if n > 1 {
			return fmt.Sprintf("destructor %d ran %d times", id, n)
		}
		if c := closed(l.accepted[id]); c && n == 0 {
			return fmt.Sprintf("destructor %d was accepted by scope %d but has not run although the scope is closed", id, l.accepted[id])
		} else if !c && n != 0 {
			return fmt.Sprintf("destructor %d of scope %d ran although the scope is still open", id, l.accepted[id])
		}
	}
	for id := range l.runs {
		if l.refused[id] {
			return fmt.Sprintf("destructor %d was refused but ran", id)
		}
	}
	return ""
}

type dscope struct {
	id       int
	s        types.Scope
	children []*dscope
	closed   bool
	ids      []int // plain registrations in order
}

func (d *dscope) each(f func(*dscope)) {
	f(d)
	for _, c := range d.children {
		c.each(f)
	}
}

func c11history(c *Case) {
	r := c.R
	l := newDlog()
	root := &dscope{id: 0, s: vfilter.NewScope()}
	all := []*dscope{root}
	fail := func(format string, args ...interface{}) {
		c.Desc("%s", strings.Join(l.events, "\n"))
		c.Fail(format, args...)
	}
	closedOf := func(sid int) bool { return all[sid].closed }
	closeScope := func(d *dscope) bool {
		l.note("close scope %d", d.id)
		l.mu.Lock()
		from := len(l.order)
		l.mu.Unlock()
		// what the order must look like: children before parents, reverse registration in a scope
		was := map[int]bool{}
		d.each(func(x *dscope) {
			if x.closed {
				was[x.id] = true
			}
		})
		d.s.Close()
		d.each(func(x *dscope) { x.closed = true })
		if msg := l.check(closedOf); msg != "" {
			fail("%s", msg)
			return false
		}
		pos := map[int]int{}
		l.mu.Lock()
		for i, id := range l.order[from:] {
			pos[id] = i
		}
		l.mu.Unlock()
		ok := true
		d.each(func(x *dscope) {
			if was[x.id] || !ok {
				return
			}
			for i := 1; i < len(x.ids); i++ {
				if pos[x.ids[i]] >= pos[x.ids[i-1]] {
					fail("destructors %d and %d of scope %d ran in order of registration", x.ids[i-1], x.ids[i], x.id)
					ok = false
					return
				}
			}
			for _, ch := range x.children {
				if was[ch.id] {
					continue
				}
				for _, a := range ch.ids {
					for _, b := range x.ids {
						if pos[a] >= pos[b] && ok {
							fail("destructor %d of scope %d ran before destructor %d of its child %d", b, x.id, a, ch.id)
							ok = false
						}
					}
				}
			}
			if !x.s.IsClosed() {
				fail("scope %d does not report itself closed", x.id)
				ok = false
			}
		})
		return ok
	}
	for n := 8 + r.Intn(40); n > 0; n-- {
		d := all[r.Intn(len(all))]
		if r.Intn(3) == 0 {
			d = all[len(all)-1]
		}
		switch r.Intn(10) {
		case 0, 1, 2:
			if d.closed {
				continue
			}
			k := 1
			if r.Intn(8) == 0 {
				k = 12 + r.Intn(20)
			}
			for ; k > 0; k-- {
				ch := &dscope{id: len(all), s: d.s.Copy()}
				d.children = append(d.children, ch)
				all = append(all, ch)
				l.note("scope %d = copy of %d", ch.id, d.id)
				if k > 1 && r.Intn(2) == 0 {
					ch.ids = append(ch.ids, l.add(ch.s, ch.id, nil))
					if r.Intn(2) == 0 && !closeScope(ch) {
						return
					}
				}
			}
		case 3, 4, 5, 6:
			k := 1
			if r.Intn(6) == 0 {
				k = 2 + r.Intn(30)
			}
			for ; k > 0; k-- {
				id := l.add(d.s, d.id, nil)
				if d.closed != l.refused[id] {
					fail("scope %d is closed=%v but registration was refused=%v", d.id, d.closed, l.refused[id])
					return
				}
				if !d.closed {
					d.ids = append(d.ids, id)
				}
			}
		case 7:
			// a destructor which registers another one, several times over, or uses the scope
			depth := r.Intn(4)
			if r.Intn(4) == 0 {
				depth = 5 + r.Intn(20)
			}
			kind := r.Intn(3)
			var again func(left int) func(int)
			again = func(left int) func(int) {
				return func(int) {
					switch kind {
					case 0:
						d.s.Resolve("NULL")
					case 1:
						d.s.Copy().Close()
					}
					if left > 0 {
						l.add(d.s, d.id, again(left-1))
					}
				}
			}
			l.add(d.s, d.id, again(depth))
		case 8:
			if d == root && r.Intn(4) > 0 {
				continue
			}
			if !closeScope(d) {
				return
			}
		case 9:
			// evaluating a query in an open scope runs nothing of it
			if !d.closed {
				l.note("query in scope %d", d.id)
				drain(context.Background(), d.s, mustParse("SELECT _value + 1 AS x FROM range(end=2) GROUP BY x")[0])
				if msg := l.check(closedOf); msg != "" {
					fail("%s", msg)
					return
				}
			}
		}
	}
	if !closeScope(root) {
		return
	}
	c.Eval(1)
	c.Seen(strings.Join(l.events, ";"))
	c.Count("destructors_run", len(l.order))
	c.Count("registrations_refused", len(l.refused))
	c.Count("scopes", len(all))
	c.Sample("%d scopes, %d destructors accepted, %d refused, %d runs", len(all), len(l.accepted), len(l.refused), len(l.order))
}

// registrations racing with closes
func c11concurrent(c *Case) {
	r := c.R
	l := newDlog()
	root := vfilter.NewScope()
	shared := []types.Scope{root}
	for i := r.Intn(4); i > 0; i-- {
		shared = append(shared, shared[r.Intn(len(shared))].Copy())
	}
	var mu sync.Mutex
	workers := 2 + r.Intn(5)
	var wg sync.WaitGroup
	start := make(chan bool)
	pre := r.Intn(20)
	for i := 0; i < pre; i++ {
		n := r.Intn(len(shared))
		l.add(shared[n], n, nil)
	}
	until := r.Intn(2) == 0
	var own []types.Scope
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(r *rand.Rand) {
			defer wg.Done()
			<-start
			if until {
				// register until refused
				n := r.Intn(len(shared))
				for i := 0; i < 3000; i++ {
					id := l.add(shared[n], n, nil)
					l.mu.Lock()
					no := l.refused[id]
					l.mu.Unlock()
					if no {
						return
					}
				}
				return
			}
			for i := 0; i < 30; i++ {
				n := r.Intn(len(shared))
				switch r.Intn(6) {
				case 0, 1, 2:
					l.add(shared[n], n, func(int) { runtime.Gosched() })
				case 3:
					ch := shared[n].Copy()
					l.add(ch, -1, nil)
					if r.Intn(2) == 0 {
						ch.Close()
					} else {
						mu.Lock()
						own = append(own, ch)
						mu.Unlock()
					}
				case 4:
					if i > 10 {
						shared[n].Close()
					}
				case 5:
					runtime.Gosched()
				}
			}
		}(rand.New(rand.NewSource(r.Int63())))
	}
	close(start)
	for i := r.Intn(400); i > 0; i-- {
		runtime.Gosched()
	}
	if until {
		// several closers at once
		for k := 1 + r.Intn(3); k > 0; k-- {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := len(shared) - 1; i >= 0; i-- {
					shared[i].Close()
				}
			}()
		}
	}
	wg.Wait()
	for _, s := range own {
		s.Close()
	}
	for i := len(shared) - 1; i >= 0; i-- {
		shared[i].Close()
	}
	c.Eval(1)
	c.Desc("%d scopes, %d workers, until refused=%v", len(shared), workers, until)
	if msg := l.check(func(int) bool { return true }); msg != "" {
		c.Fail("%s", msg)
		return
	}
	for i, s := range shared {
		if s.AddDestructor(func() {}) == nil {
			c.Fail("scope %d accepts destructors after it was closed", i)
			return
		}
	}
	c.Seen(fmt.Sprint(c.Index, len(l.order), len(l.refused)))
	c.Count("destructors_run", len(l.order))
	c.Count("registrations_refused", len(l.refused))
	c.Sample("%d scopes, %d workers: %d accepted and run once, %d refused", len(shared), workers, len(l.accepted), len(l.refused))
}

// spinning registrations against one close: every accepted one runs, whatever the timing
func c11refused(c *Case) {
	r := c.R
	for k := 0; k < 20; k++ {
		parent := vfilter.NewScope()
		var s types.Scope = parent
		if r.Intn(2) == 0 {
			s = parent.Copy()
		}
		workers := 1 + r.Intn(4)
		acc := make([]int64, workers)
		ran := make([]int64, workers)
		var wg sync.WaitGroup
		var ready int64
		spin := make([]int, workers)
		for w := range spin {
			spin[w] = r.Intn(6000)
		}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				atomic.AddInt64(&ready, 1)
				for acc[w] < 200 && s.AddDestructor(func() { atomic.AddInt64(&ran[w], 1) }) == nil {
					acc[w]++
					for i := spin[w]; i > 0; i-- {
						atomic.LoadInt64(&ready)
					}
				}
			}()
		}
		for atomic.LoadInt64(&ready) < int64(workers) {
			runtime.Gosched()
		}
		for i := r.Intn(50); i > 0; i-- {
			runtime.Gosched()
		}
		if r.Intn(2) == 0 {
			s.Close()
		} else {
			parent.Close()
			s.Close()
		}
		wg.Wait()
		c.Eval(1)
		for w := range acc {
			if n := atomic.LoadInt64(&ran[w]); n != acc[w] {
				c.Desc("%d goroutines registering until refused while the scope is closed", workers)
				c.Fail("%d destructors were accepted, %d ran", acc[w], n)
				return
			}
			c.Count("destructors_run", int(acc[w]))
		}
		c.Count("registrations_refused", workers)
		c.Seen(fmt.Sprint(c.Index, k))
	}
}

// resources handed out by functions and sources; using one after its release is a violation
type resources struct {
	mu       sync.Mutex
	open     map[int64]bool
	next     int64
	accepted int
	refused  int
	released int
	twice    []int64
	misuse   []string
	uses     int
	ctxs     int
}

type resArgs struct {
	V types.Any `vfilter:"optional,field=v"`
}
type useArgs struct {
	R types.Any `vfilter:"required,field=r"`
	W string    `vfilter:"optional,field=w"`
}

func (x *resources) acquire(scope types.Scope) int64 {
	x.mu.Lock()
	x.next++
	id := x.next
	x.open[id] = true
	x.mu.Unlock()
	err := scope.AddDestructor(func() {
		x.mu.Lock()
		defer x.mu.Unlock()
		if !x.open[id] {
			x.twice = append(x.twice, id)
		}
		x.open[id] = false
		x.released++
	})
	x.mu.Lock()
	defer x.mu.Unlock()
	if err != nil {
		x.refused++
		x.open[id] = false
	} else {
		x.accepted++
	}
	return id
}

func (x *resources) install(scope types.Scope, n int) {
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "res", ArgType: &resArgs{},
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &resArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("ERROR:res: %v", err)
			}
			return x.acquire(scope)
		}},
		&vfilter.GenericFunction{FunctionName: "use", ArgType: &useArgs{},
			Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
				a := &useArgs{}
				if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
					scope.Log("ERROR:use: %v", err)
					return types.Null{}
				}
				id, ok := a.R.(int64)
				x.mu.Lock()
				defer x.mu.Unlock()
				x.uses++
				if !ok || !x.open[id] {
					x.misuse = append(x.misuse, fmt.Sprintf("%s used resource %v after its release", a.W, a.R))
				}
				return id
			}})
	scope.AppendPlugins(&tablePlugin{name: "rsrc", f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		id := x.acquire(scope)
		go func() {
			defer close(out)
			for i := 0; i < n; i++ {
				select {
				case <-ctx.Done():
					return
				case out <- ordereddict.NewDict().Set("a", int64(i)).Set("b", int64(i%2)).Set("h", id):
				}
			}
		}()
		return out
	}})
}

func c11queries(c *Case) {
	g := newGen(c.R)
	x := &resources{open: map[int64]bool{}}
	n := g.R.Intn(5)
	if g.one(10) {
		n = 60
	}
	limited := false
	use := func(e string) string {
		return fmt.Sprintf("use(r=%s, w='%s')", e, strings.NewReplacer("'", "", "{", "(", "}", ")").Replace(e))
	}
	// an expression of a row using resources acquired for that row
	// (the other columns are visible to the clauses after FROM only)
	clause, raw := false, "h"
	var expr func(d int) string
	expr = func(d int) string {
		acq := g.pick("res(v=a)", "res()", raw)
		if clause {
			acq = g.pick("R1", "R2", "R1", "h")
		}
		if d > 0 {
			switch g.R.Intn(9) {
			case 0:
				return fmt.Sprintf("if(condition=%s, then=%s, else=%s)", expr(d-1), expr(d-1), expr(d-1))
			case 1:
				return "Fn(x=" + acq + ")"
			case 2:
				return fmt.Sprintf("(%s + %s)", expr(d-1), expr(d-1))
			case 3:
				return fmt.Sprintf("(%s AND %s)", expr(d-1), expr(d-1))
			case 4:
				return fmt.Sprintf("Fq(x=%s).v", acq)
			case 5:
				return fmt.Sprintf("(%s, %s)", expr(d-1), expr(d-1))
			case 6:
				return fmt.Sprintf("dict(a=%s, b=%s).b", expr(d-1), expr(d-1))
			}
		}
		return use(acq)
	}
	var query func(d int) string
	query = func(d int) string {
		from := g.pick("rsrc()", "rsrc()", "LQ", "LP(p=3)", "LP(p=3)")
		if d > 0 {
			switch g.R.Intn(6) {
			case 0:
				from = fmt.Sprintf("foreach(row={ SELECT _value AS k FROM range(end=3) }, query={ %s }%s)", query(d-1), g.pick("", ", workers=3"))
			case 1:
				from = fmt.Sprintf("chain(a={ %s }, b={ %s })", query(d-1), query(d-1))
			case 2:
				from = fmt.Sprintf("if(condition=1, then={ %s })", query(d-1))
			}
		}
		if !strings.HasSuffix(from, "rsrc()") {
			from = strings.Replace(from, "SELECT", "SELECT", 1)
		}
		clause, raw = false, "res()"
		if from == "rsrc()" {
			raw = "h"
		}
		cols := []string{"a", "b", "res(v=a) AS R1", "res() AS R2"}
		if from == "rsrc()" {
			cols = append(cols, "h")
		} else {
			// handles of the inner query may be gone
			cols = append(cols, "res() AS h")
		}
		for i := 1 + g.R.Intn(3); i > 0; i-- {
			cols = append(cols, fmt.Sprintf("%s AS u%d", expr(g.R.Intn(3)), i))
		}
		if g.one(3) {
			cols = append(cols, fmt.Sprintf("{ SELECT %s AS w FROM range(end=2) } AS S", use(g.pick("res()", "res(v=a)"))))
		}
		clause = true
		q := "SELECT " + strings.Join(cols, ", ") + " FROM " + from
		if g.one(2) {
			q += " WHERE " + expr(1)
		}
		if g.one(3) {
			if g.one(2) {
				q = strings.Replace(q, "SELECT ", "SELECT count() AS n, ", 1)
			}
			q += " GROUP BY " + g.pick("b", use("R1"), "a", "u1", use("h"))
		}
		if g.one(3) {
			q += " ORDER BY " + g.pick("a", "u1", "R2")
		}
		if g.one(4) {
			q += fmt.Sprintf(" LIMIT %d", 1+g.R.Intn(4))
			limited = true
		}
		return q
	}
	lets := "LET Fn(x) = " + use("x") + " + " + use("x") +
		" LET Fq(x) = SELECT " + use("x") + " AS v, res() AS R9 FROM range(end=2) WHERE " + use("R9") +
		" LET LQ = SELECT a, b, res() AS R8, " + use("h") + " AS k9 FROM rsrc() WHERE " + use("R8") + " AND " + use("h") +
		" LET LP(p) = SELECT p, a, b, res() AS R8, " + use("res()") + " AS k8 FROM rsrc() WHERE " + use("h") + " AND " + use("R8")
	stmts := []string{query(g.R.Intn(3))}
	if g.one(3) {
		stmts = []string{"LET M " + g.pick("<=", "=") + " " + query(1), "SELECT * FROM M"}
	}
	c.Desc("%s\nLET %s\nrows: %d", lets, strings.Join(stmts, "\n"), n)
	msg := bubble(c.T, func() {
		scope := vfilter.NewScope()
		x.install(scope, n)
		for _, v := range mustParse(lets + " " + strings.Join(stmts, "\n")) {
			child := scope.Copy()
			if v.Let != "" {
				child.Close()
				child = scope
			}
			drain(context.Background(), child, v)
			if v.Let != "" {
				continue
			}
			time.Sleep(time.Second)
			child.Close()
			x.mu.Lock()
			if x.released != x.accepted {
				c.Fail("%d destructors accepted during the query, %d have run after its scope closed (limited=%v)", x.accepted, x.released, limited)
			}
			x.mu.Unlock()
		}
		time.Sleep(time.Second)
		scope.Close()
	})
	c.Eval(1)
	if msg != "" {
		c.Fail("%s", msg)
	}
	if len(x.twice) > 0 {
		c.Fail("destructors of resources %v ran twice", x.twice)
	}
	// a limit may cancel an evaluation half way through: its values are dropped
	if len(x.misuse) > 0 && !limited {
		c.Fail("%d of %d uses failed: %s", len(x.misuse), x.uses, x.misuse[0])
	}
	if x.refused > 0 && !limited {
		c.Fail("%d destructors were refused while their row or query was being evaluated", x.refused)
	}
	if x.released != x.accepted {
		c.Fail("%d destructors accepted, %d have run after the scope was closed", x.accepted, x.released)
	}
	c.Count("destructors_run", x.released)
	c.Count("uses_of_live_resources", x.uses)
	if x.released > 0 {
		c.Seen(strings.Join(stmts, ";"))
		c.Sample("%s ⇒ %d resources, each released once, %d uses while live", stmts[0], x.released, x.uses)
	}
}

// queries called with parameters: their scope lives as long as their rows are produced
func c11calls(c *Case) {
	g := newGen(c.R)
	x := &resources{open: map[int64]bool{}}
	var scope types.Scope = vfilter.NewScope()
	x.install(scope, 3)
	defer scope.Close()
	for i := g.R.Intn(3); i > 0; i-- {
		scope = scope.Copy()
	}
	text := "LET LP(p) = SELECT p, a, res() AS R, use(r=res()) AS k, use(r=h) AS l FROM rsrc() WHERE use(r=h) AND use(r=R)"
	drain(context.Background(), scope, mustParse(text)[0])
	q := g.pick("SELECT * FROM LP(p=1)", "SELECT * FROM foreach(row={ SELECT * FROM range(end=4) }, workers=4, query={ SELECT * FROM LP(p=_value) })",
		"SELECT LP(p=2).k AS k FROM range(end=3)", "SELECT * FROM chain(a={ SELECT * FROM LP(p=1) }, b={ SELECT * FROM LP(p=2) })")
	c.Desc("%s\n%s, 50 times", text, q)
	v := mustParse(q)[0]
	rows := 0
	for i := 0; i < 50; i++ {
		rows += len(drain(context.Background(), scope, v))
	}
	c.Eval(50)
	if x.refused > 0 || len(x.misuse) > 0 || len(x.twice) > 0 {
		c.Fail("%d destructors refused, %d uses after release, %d double releases", x.refused, len(x.misuse), len(x.twice))
	}
	if x.released != x.accepted {
		c.Fail("%d destructors accepted, %d have run", x.accepted, x.released)
	}
	c.Seen(q + fmt.Sprint(c.Index))
	c.Count("rows", rows)
	c.Count("destructors_run", x.released)
}
