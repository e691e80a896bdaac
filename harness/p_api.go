package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

func init() {
	register(&Property{ID: "C24",
		Rule: "Every payload sequence is recorded with the rows the encoder was given and the virtual time it arrived: the rows of all payloads must be the rows of the query once each and in order, parts numbered 0,1,2..., no payload above the maximum, TotalRows and Columns those of its rows, the payload bytes a JSON list of as many documents with those keys, a full or late batch handed over within the maximum wait of its first row, the channel closed at the end. Non-trivial: distinct (query, rows, size, wait, arrival pattern) runs with at least one row.",
		Groups: []Group{
			{"queries", 1500, 40000, c24queries},
			{"timed", 4000, 100000, c24timed},
			{"cancel", 2000, 50000, c24cancel},
			{"large", 60, 1000, c24large},
			{"output", 1500, 40000, c24output},
		}})
	register(&Property{ID: "C25",
		Rule: "Rows are built from random nests of dicts, lists, maps, lazy expressions, lazy rows, stored queries, callables and structs together with the plain value they stand for; the converted dict must be exactly that value, with every Go type of a plain value kept, no lazy kind anywhere in it and the original row untouched (identity snapshot). Non-trivial: distinct rows with at least one lazy value.",
		Groups: []Group{
			{"nested", 40000, 200000, c25nested},
			{"rows", 15000, 80000, c25rows},
			{"programs", 1500, 40000, c25programs},
			{"deep", 2000, 6000, c25deep},
			{"cyclic", 200, 2000, c25cyclic},
			{"wide", 60, 1000, c25wide},
			{"indict", 1, 1, c25indict},
		}})
}

// a payload as the consumer and the encoder saw it
type payload struct {
	at   time.Duration
	p    *vfilter.VFilterJsonResult
	rows []string // canonical rows given to the encoder
	keys [][]string
}

// recorder encodes rows as JSON and remembers what it was given
type recorder struct {
	mu    sync.Mutex
	given map[string]*payload // by payload text: "#n [json]"
	n     int
}

func (r *recorder) encode(rows []types.Row) ([]byte, error) {
	b, err := json.Marshal(rows)
	if err != nil {
		return nil, err
	}
	p := &payload{}
	for _, row := range rows {
		p.rows = append(p.rows, canonE(row))
		d, _ := row.(*ordereddict.Dict)
		if d == nil {
			p.keys = append(p.keys, nil)
			continue
		}
		p.keys = append(p.keys, d.Keys())
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.given == nil {
		r.given = map[string]*payload{}
	}
	b = append(b, strings.Repeat(" ", r.n)...) // blanks tell payloads with the same rows apart
	r.n++
	r.given[string(b)] = p
	return b, nil
}

// check a sequence of payloads which arrived; want are the rows of the query (a prefix is enough if cancelled)
func (c *Case) payloads(r *recorder, got []*payload, want []string, maxrows int, cancelled bool) bool {
	var all []string
	for i, p := range got {
		if p.p.Part != i {
			c.Fail("payload %d is numbered %d", i, p.p.Part)
			return false
		}
		e := r.given[string(p.p.Payload)]
		if e == nil {
			c.Fail("payload %d is not what the encoder returned: %.200q", i, p.p.Payload)
			return false
		}
		p.rows, p.keys = e.rows, e.keys
		if p.p.TotalRows != len(e.rows) {
			c.Fail("payload %d says %d rows and has %d", i, p.p.TotalRows, len(e.rows))
			return false
		}
		if len(e.rows) > maxrows {
			c.Fail("payload %d has %d rows, at most %d were asked for", i, len(e.rows), maxrows)
			return false
		}
		if len(e.rows) == 0 && i != len(got)-1 {
			c.Fail("payload %d of %d is empty", i, len(got))
			return false
		}
		if len(e.rows) > 0 && strings.Join(p.p.Columns, "\x00") != strings.Join(e.keys[0], "\x00") {
			c.Fail("payload %d has columns %q, its first row has %q", i, p.p.Columns, e.keys[0])
			return false
		}
		if len(e.rows) == 0 && len(p.p.Columns) != 0 {
			c.Fail("an empty payload has columns %q", p.p.Columns)
			return false
		}
		var docs []map[string]interface{}
		if err := json.Unmarshal(p.p.Payload, &docs); err != nil || len(docs) != p.p.TotalRows {
			c.Fail("payload %d: %v, %d documents for %d rows: %.300s", i, err, len(docs), p.p.TotalRows, p.p.Payload)
			return false
		}
		for k, doc := range docs {
			if len(doc) != len(e.keys[k]) {
				c.Fail("payload %d row %d: %d members for the columns %q", i, k, len(doc), e.keys[k])
				return false
			}
		}
		all = append(all, e.rows...)
	}
	if cancelled && len(all) <= len(want) {
		want = want[:len(all)]
	}
	if d := diffRows(want, all); d != "" {
		c.Fail("the payloads together: %s", d)
		return false
	}
	c.Count("payloads", len(got))
	c.Count("rows_in_payloads", len(all))
	return true
}

// lastOf evaluates all statements but the last, which it returns
func (c *Case) lastOf(scope types.Scope, text string) *vfilter.VQL {
	vqls := mustParse(text)
	for _, v := range vqls[:len(vqls)-1] {
		drain(context.Background(), scope, v)
	}
	return vqls[len(vqls)-1]
}

func (c *Case) apiProgram() (*Host, string, []string) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	for loose {
		stmts, loose = g.program(h)
	}
	m, want := h.Expect(stmts)
	if want == nil || m.Ties {
		c.Count("undefined_by_model", 1)
		return nil, "", nil
	}
	return h, StmtsText(stmts), want[len(want)-1]
}

func c24queries(c *Case) {
	h, text, want := c.apiProgram()
	if h == nil {
		return
	}
	maxrows := 1 + c.R.Intn(8)
	if c.R.Intn(4) == 0 {
		maxrows = 1 + c.R.Intn(200)
	}
	if len(want) > 0 && c.R.Intn(3) == 0 { // around the number of rows and its divisors
		maxrows = max(1, len(want)/(1+c.R.Intn(3))+c.R.Intn(3)-1)
	}
	c.Desc("at most %d rows\n%s\n%s", maxrows, h, text)
	e := NewEngine(h)
	defer e.Close()
	vql := c.lastOf(e.Scope, text)
	r := &recorder{}
	var got []*payload
	for p := range vfilter.GetResponseChannel(vql, e.ctx, e.Scope, r.encode, maxrows, 3600) {
		got = append(got, &payload{p: p})
	}
	c.Eval(1)
	if !c.payloads(r, got, want, maxrows, false) {
		return
	}
	for i, p := range got {
		if i < len(got)-1 && len(p.rows) < maxrows {
			c.Fail("payload %d has %d rows although %d fit, more rows follow and no time has passed", i, len(p.rows), maxrows)
			return
		}
	}
	if len(want) > 0 {
		c.Seen(fmt.Sprint(maxrows, h, text))
		c.Sample("%s  at most %d rows => %d payloads", text, maxrows, len(got))
	}
}

func c24output(c *Case) {
	h, text, want := c.apiProgram()
	if h == nil {
		return
	}
	c.Desc("%s\n%s", h, text)
	e := NewEngine(h)
	defer e.Close()
	vql := c.lastOf(e.Scope, text)
	r := &recorder{}
	calls := 0
	b, err := vfilter.OutputJSON(vql, e.ctx, e.Scope, func(rows []types.Row) ([]byte, error) {
		calls++
		return r.encode(rows)
	})
	c.Eval(1)
	if err != nil || calls != 1 || r.given[string(b)] == nil {
		c.Fail("OutputJSON: error %v, the encoder was called %d times, gives %.200q", err, calls, b)
		return
	}
	if d := diffRows(want, r.given[string(b)].rows); d != "" {
		c.Fail("OutputJSON: %s", d)
		return
	}
	var docs []json.RawMessage
	if err := json.Unmarshal(b, &docs); err != nil || len(docs) != len(want) {
		c.Fail("OutputJSON: %v, %d documents for %d rows", err, len(docs), len(want))
		return
	}
	c.Count("rows_output", len(want))
	// the encoder's error is the caller's
	if _, err := vfilter.OutputJSON(vql, e.ctx, e.Scope, func([]types.Row) ([]byte, error) { return nil, fmt.Errorf("no") }); err == nil || err.Error() != "no" {
		c.Fail("OutputJSON hides the error of the encoder: %v", err)
		return
	}
	if len(want) > 0 {
		c.Seen(fmt.Sprint("output", h, text))
	}
}

// timedSource emits rows {id, v} at the given times and notes when each was taken
type timedSource struct {
	mu    sync.Mutex
	gaps  []time.Duration
	taken []time.Duration
	t0    time.Time
	end   time.Duration // from the last row to the end
	ended bool
}

func (s *timedSource) plugin() *tablePlugin {
	return &tablePlugin{name: "src", f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			wait := func(d time.Duration) bool {
				if d <= 0 {
					return true
				}
				select {
				case <-ctx.Done():
					return false
				case <-time.After(d):
					return true
				}
			}
			for i, g := range s.gaps {
				if !wait(g) {
					return
				}
				select {
				case <-ctx.Done():
					return
				case out <- ordereddict.NewDict().Set("id", int64(i)).Set("v", i%3):
					s.mu.Lock()
					s.taken = append(s.taken, time.Since(s.t0))
					s.mu.Unlock()
				}
			}
			if wait(s.end) {
				s.mu.Lock()
				s.ended = true
				s.mu.Unlock()
			}
		}()
		return out
	}}
}

func (c *Case) arrivals(wait time.Duration) []time.Duration {
	n := c.R.Intn(12)
	if c.R.Intn(3) == 0 {
		n = c.R.Intn(60)
	}
	var gaps []time.Duration
	style := c.R.Intn(5)
	for i := 0; i < n; i++ {
		var d time.Duration
		switch style {
		case 0: // all at once
		case 1: // bursts
			if c.R.Intn(4) == 0 {
				d = time.Duration(c.R.Int63n(int64(wait) * 3))
			}
		case 2: // steady
			d = wait / time.Duration(1+c.R.Intn(4))
		case 3: // around the deadline
			d = wait + time.Duration(c.R.Intn(3)-1)*time.Nanosecond
		default:
			d = time.Duration(c.R.Int63n(int64(wait) * 2))
		}
		gaps = append(gaps, d)
	}
	return gaps
}

func c24timed(c *Case) {
	secs := 1 + c.R.Intn(5)
	wait := time.Duration(secs) * time.Second
	s := &timedSource{gaps: c.arrivals(wait), end: time.Duration(c.R.Int63n(int64(wait) * 4))}
	maxrows := 1 + c.R.Intn(10)
	slow := c.R.Intn(4) == 0 // the consumer takes its time
	query := c.one("SELECT * FROM src()", "SELECT id, v FROM src()", "SELECT id, v FROM src() WHERE id >= 0", "SELECT id, v FROM foreach(row={ SELECT * FROM src() })")
	c.Desc("%s, at most %d rows, wait %v, gaps %v, then %v, slow consumer %v", query, maxrows, wait, s.gaps, s.end, slow)
	var pauses []time.Duration
	for i := 0; i < 100; i++ {
		pauses = append(pauses, time.Duration(c.R.Int63n(int64(wait)*2)))
	}
	r := &recorder{}
	var got []*payload
	var closed, finished time.Duration
	left := bubble(c.T, func() {
		scope := vfilter.NewScope()
		scope.AppendPlugins(s.plugin())
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vql := mustParse(query)[0]
		s.t0 = time.Now()
		for p := range vfilter.GetResponseChannel(vql, ctx, scope, r.encode, maxrows, secs) {
			got = append(got, &payload{p: p, at: time.Since(s.t0)})
			if slow {
				time.Sleep(pauses[len(got)%len(pauses)])
			}
		}
		closed = time.Since(s.t0)
		for _, g := range s.gaps {
			finished += g
		}
		finished += s.end
	})
	c.Eval(1)
	if left != "" {
		c.Fail("left behind: %.600s", left)
		return
	}
	var want []string
	for i := range s.gaps {
		want = append(want, fmt.Sprintf(`{"id": i:%d, "v": i:%d}`, i, i%3))
	}
	if !c.payloads(r, got, want, maxrows, false) {
		return
	}
	if !slow {
		if len(s.taken) != len(s.gaps) {
			c.Fail("the source gave %d of %d rows", len(s.taken), len(s.gaps))
			return
		}
		id, late := 0, 0
		for i, p := range got {
			if len(p.rows) > 0 {
				if d := p.at - s.taken[id]; d > wait {
					c.Fail("payload %d arrived %v after its first row, the maximum wait is %v", i, d, wait)
					return
				}
				if i < len(got)-1 && len(p.rows) < maxrows && p.at-s.taken[id] > 0 {
					late++
				}
			}
			id += len(p.rows)
		}
		c.Count("partial_batches_by_deadline", late)
		if closed != finished {
			c.Fail("the query ended after %v, the channel closed after %v", finished, closed)
			return
		}
	}
	if len(want) > 0 {
		c.Seen(c.desc)
		c.Sample("%s => %d payloads", c.desc, len(got))
	}
}

func c24cancel(c *Case) {
	secs := 1 + c.R.Intn(3)
	wait := time.Duration(secs) * time.Second
	s := &timedSource{gaps: c.arrivals(wait), end: time.Duration(c.R.Int63n(int64(wait) * 4))}
	if c.R.Intn(2) == 0 {
		s.end = 1000 * time.Hour
	}
	maxrows := 1 + c.R.Intn(10)
	total := time.Duration(1)
	for _, g := range s.gaps {
		total += g
	}
	at := time.Duration(c.R.Int63n(int64(total) + int64(wait)))
	if c.R.Intn(4) == 0 && len(s.gaps) > 0 { // exactly when a row arrives
		at = 0
		for _, g := range s.gaps[:1+c.R.Intn(len(s.gaps))] {
			at += g
		}
	}
	before := c.R.Intn(10) == 0
	c.Desc("cancelled at %v (before the start: %v), at most %d rows, wait %v, gaps %v, then %v", at, before, maxrows, wait, s.gaps, s.end)
	r := &recorder{}
	var got []*payload
	var closed time.Duration
	left := bubble(c.T, func() {
		scope := vfilter.NewScope()
		scope.AppendPlugins(s.plugin())
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		vql := mustParse("SELECT id, v FROM src()")[0]
		s.t0 = time.Now()
		if before {
			cancel()
		} else {
			defer time.AfterFunc(at, cancel).Stop()
		}
		for p := range vfilter.GetResponseChannel(vql, ctx, scope, r.encode, maxrows, secs) {
			got = append(got, &payload{p: p, at: time.Since(s.t0)})
		}
		closed = time.Since(s.t0)
		synctest.Wait()
	})
	c.Eval(1)
	if left != "" {
		c.Fail("left behind: %.600s", left)
		return
	}
	var want []string
	for i := range s.gaps {
		want = append(want, fmt.Sprintf(`{"id": i:%d, "v": i:%d}`, i, i%3))
	}
	if !c.payloads(r, got, want, maxrows, true) {
		return
	}
	if !before && closed > at && closed > total+s.end {
		c.Fail("cancelled at %v, the channel closed at %v", at, closed)
		return
	}
	if closed > at && !s.ended {
		c.Fail("cancelled at %v, the channel closed at %v", at, closed)
		return
	}
	// rows of the payloads which arrived before the cancellation are not lost: what came in up to the
	// last deadline before the cancellation has been delivered
	n := 0
	for _, p := range got {
		n += len(p.rows)
	}
	due := 0
	for _, t := range s.taken {
		if t+wait < at && !before {
			due++
		}
	}
	if n < due {
		c.Fail("cancelled at %v: %d rows delivered, %d of them were due", at, n, due)
		return
	}
	c.Count("cancelled_runs", 1)
	c.Seen(c.desc)
}

func c24large(c *Case) {
	n := c.R.Intn(30000)
	size := c.R.Intn(100)
	maxrows := c.one("1", "7", "100", "1000", "1024", "4096", "10000", "50000")
	var mr int
	fmt.Sscan(maxrows, &mr)
	if mr == 1 {
		n %= 3000
	}
	c.Desc("%d rows of %d bytes, at most %d", n, size, mr)
	pad := strings.Repeat("x", size)
	e := NewEngine(NewHost())
	defer e.Close()
	e.Scope.AppendPlugins(&tablePlugin{name: "src", f: func(ctx contextT, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			for i := 0; i < n; i++ {
				select {
				case <-ctx.Done():
					return
				case out <- ordereddict.NewDict().Set("id", i).Set("pad", pad):
				}
			}
		}()
		return out
	}})
	vql := mustParse("SELECT * FROM src()")[0]
	next, part := 0, 0
	enc := func(rows []types.Row) ([]byte, error) {
		first := -1
		for i, r := range rows {
			d := r.(*ordereddict.Dict)
			id, _ := d.Get("id")
			p, _ := d.Get("pad")
			if i == 0 {
				first = id.(int)
			}
			if id.(int) != first+i || p != pad {
				return []byte(fmt.Sprintf("bad row %v", d)), nil
			}
		}
		return []byte(fmt.Sprintf("%d %d", first, len(rows))), nil
	}
	for p := range vfilter.GetResponseChannel(vql, e.ctx, e.Scope, enc, mr, 3600) {
		var first, k int
		if _, err := fmt.Sscan(string(p.Payload), &first, &k); err != nil || p.Part != part || p.TotalRows != k || k > mr || k > 0 && first != next {
			c.Fail("payload %d is number %d with %d rows: %q (next row is %d)", part, p.Part, p.TotalRows, p.Payload, next)
			return
		}
		next += k
		part++
		if k < mr && next < n {
			c.Fail("payload %d has %d rows, more follow", p.Part, k)
			return
		}
	}
	if next != n {
		c.Fail("%d rows delivered, the query has %d", next, n)
		return
	}
	out, err := vfilter.OutputJSON(vql, e.ctx, e.Scope, enc)
	if want := fmt.Sprintf("%d %d", min(n, 1)-1, n); n > 0 && (err != nil || string(out) != want) {
		c.Fail("OutputJSON gives %q, %v, want %q", out, err, want)
		return
	}
	c.Eval(2)
	c.Count("rows_in_payloads", n)
	c.Count("payloads", part)
	c.Seen(c.desc)
}

// ---- C25

// nest makes values in the forms a host can give them, with what they stand for
type nest struct {
	c     *Case
	scope types.Scope
	lazy  int // how many values need resolving
	forms map[string]bool
	id    int
}

type nestStruct struct {
	Field1 types.Any
	Other  types.Any `json:"other_name"`
	hidden int
	Last   types.Any
}

type opaque struct {
	A int    `json:"a"`
	B string `json:"b"`
}

type nestMember struct{ d *ordereddict.Dict }

func (m *nestMember) Members() []string { return m.d.Keys() }

type nestMemberProto struct{}

func (nestMemberProto) Applicable(a types.Any, b types.Any) bool { _, ok := a.(*nestMember); return ok }
func (nestMemberProto) GetMembers(scope types.Scope, a types.Any) []string {
	return a.(*nestMember).Members()
}
func (nestMemberProto) Associative(scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
	k, _ := b.(string)
	return a.(*nestMember).d.Get(k)
}

type nestLazy struct{ f func() types.Any }

func (l *nestLazy) Reduce(ctx context.Context) types.Any                         { return l.f() }
func (l *nestLazy) ReduceWithScope(ctx context.Context, s types.Scope) types.Any { return l.f() }

// inDict: a direct member of a dict value, which the conversion does not run (known finding
// query-in-dict); it then stands for its rows in want
type nestQuery struct {
	f      func() []types.Row
	want   string
	inDict bool
}

// markQueries marks the queries that are direct members of a dict value
func markQueries(d *ordereddict.Dict) *ordereddict.Dict {
	for _, k := range d.Keys() {
		v, _ := d.Get(k)
		if q, ok := v.(*nestQuery); ok {
			q.inDict = true
		}
	}
	return d
}

func (q *nestQuery) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, r := range q.f() {
			select {
			case <-ctx.Done():
				return
			case out <- r:
			}
		}
	}()
	return out
}

type nestMaterial struct{ f func() types.Any }

func (m *nestMaterial) Materialize(ctx context.Context, scope types.Scope) types.Any { return m.f() }

type nestStringer struct{ s string }

func (s *nestStringer) String() string { return s.s }

func (n *nest) form(f string) { n.forms[f] = true; n.c.Count("form_"+f, 1) }

// plain gives a value the language treats as plain
func (n *nest) plain() (types.Any, string) {
	r := n.c.R
	v := []types.Any{
		"", "text", "it's \"q\"\n", "日本", strings.Repeat("long", r.Intn(50)),
		true, false, int64(r.Intn(100)), int64(-1 << 63), int(7), int8(-3), int16(300), int32(-70000),
		uint8(200), uint16(60000), uint32(4000000000), uint64(1<<64 - 1), uint(5),
		1.5, -0.25, 1e300, float32(0.5),
		types.Null{}, &types.Null{}, nil,
		time.Unix(int64(r.Intn(1<<30)), 5).UTC(),
		[]byte("bytes"), opaque{r.Intn(9), "b"}, &opaque{r.Intn(9), "p"}, &nestStringer{"str"},
	}[r.Intn(30)]
	return v, plainE(v)
}

// plainE describes a resolved value with its Go types; a lazy kind shows up as !
func plainE(v types.Any) string {
	switch t := v.(type) {
	case nil, types.Null, *types.Null:
		return "null"
	case *ordereddict.Dict:
		if t == nil {
			return "nil dict"
		}
		var out []string
		for _, k := range t.Keys() {
			x, _ := t.Get(k)
			out = append(out, fmt.Sprintf("%q: %s", k, plainE(x)))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case []byte:
		return fmt.Sprintf("bytes %q", t)
	case time.Time:
		return "time " + t.Format(time.RFC3339Nano)
	case *nestStringer:
		return fmt.Sprintf("stringer %s", t.s)
	case *nestQuery:
		if t.inDict {
			return t.want
		}
	case opaque:
		return fmt.Sprintf("opaque %v", t)
	case *opaque:
		return fmt.Sprintf("&opaque %v", *t)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String, reflect.Bool, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%T %#v", v, v)
	case reflect.Slice, reflect.Array:
		var out []string
		for i := 0; i < rv.Len(); i++ {
			out = append(out, plainE(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case reflect.Map: // plain maps inside dicts are left alone
		var out []string
		for _, k := range rv.MapKeys() {
			out = append(out, fmt.Sprintf("%q: %s", k, plainE(rv.MapIndex(k).Interface())))
		}
		sort.Strings(out)
		return "{" + strings.Join(out, ", ") + "}"
	}
	return fmt.Sprintf("!%T", v)
}

func (n *nest) key(i int) string {
	r := n.c.R
	if r.Intn(6) == 0 {
		return []string{"", "a b", "é", "_x", "Keys", "x.y", "1", "NULL", "select", "@Key", "@", "\n"}[r.Intn(12)] + fmt.Sprint(i)
	}
	if i == 0 && r.Intn(20) == 0 { // names of methods
		return n.c.one("@Keys", "@Len", "@Items", "@Values", "@ToMap", "@String", "Keys", "Len", "ToMap", "String", "Set")
	}
	return fmt.Sprintf("%c%d", 'a'+r.Intn(26), i)
}

// dict of members, with its plain form
func (n *nest) dict(d int) (*ordereddict.Dict, string) {
	out := ordereddict.NewDict()
	if n.c.R.Intn(5) == 0 {
		out.SetDefault("default value")
	}
	var want []string
	for i := n.c.R.Intn(4); i >= 0; i-- {
		k := n.key(i)
		v, w := n.value(d - 1)
		out.Set(k, v)
		want = append(want, fmt.Sprintf("%q: %s", k, w))
	}
	return out, "{" + strings.Join(want, ", ") + "}"
}

// row in one of the forms of a row, with its plain form
func (n *nest) row(d int) (types.Row, string) {
	switch n.c.R.Intn(6) {
	case 0:
		n.form("row_struct")
		a, wa := n.value(d - 1)
		b, wb := n.value(d - 1)
		e, we := n.value(d - 1)
		s := nestStruct{a, b, 1, e}
		w := fmt.Sprintf(`{"Field1": %s, "Other": %s, "Last": %s}`, wa, wb, we)
		if n.c.R.Intn(2) == 0 {
			return s, w
		}
		return &s, w
	case 1:
		n.form("row_lazy")
		dd, w := n.dict(d)
		return lazyRowOf(n.scope, dd), w
	case 2:
		n.form("row_member")
		dd, w := n.dict(d)
		return &nestMember{dd}, w
	default:
		n.form("row_dict")
		dd, w := n.dict(d)
		return dd, w
	}
}

func lazyRowOf(scope types.Scope, d *ordereddict.Dict) types.Row {
	l := vfilter.NewLazyRow(context.Background(), scope)
	for _, k := range d.Keys() {
		v, _ := d.Get(k)
		l.AddColumn(k, func(ctx context.Context, scope types.Scope) types.Any { return v })
	}
	return l
}

func (n *nest) list(d int, least int) ([]types.Any, string) {
	out := []types.Any{}
	var want []string
	for i := n.c.R.Intn(4) + least; i > 0; i-- {
		v, w := n.value(d - 1)
		out = append(out, v)
		want = append(want, w)
	}
	return out, "[" + strings.Join(want, ", ") + "]"
}

// value of at most d levels
func (n *nest) value(d int) (types.Any, string) {
	if d <= 0 {
		return n.plain()
	}
	switch k := n.c.R.Intn(15); k {
	case 0, 1:
		return n.plain()
	case 2, 3:
		n.form("dict")
		v, w := n.dict(d)
		return markQueries(v), w
	case 4:
		n.form("list")
		return n.list(d, 0)
	case 5:
		n.form("typed_list")
		switch n.c.R.Intn(5) {
		case 0:
			v := []string{"a", "b"}
			return v, plainE(v)
		case 1:
			v := []int64{3, 4}
			return v, plainE(v)
		case 2:
			a, wa := n.dict(d - 1)
			b, wb := n.dict(d - 1)
			return []*ordereddict.Dict{markQueries(a), markQueries(b)}, "[" + wa + ", " + wb + "]"
		case 3:
			a, wa := n.value(d - 1)
			b, wb := n.value(d - 1)
			return [2]types.Any{a, b}, "[" + wa + ", " + wb + "]"
		default:
			n.lazy++
			a, wa := n.value(d - 2)
			return []types.LazyExpr{&nestLazy{func() types.Any { return a }}}, "[" + wa + "]"
		}
	case 6:
		n.form("map")
		m := map[string]types.Any{}
		var want []string
		for _, k := range []string{"a", "b", "c", "z"}[:n.c.R.Intn(5)] {
			v, w := n.value(d - 1)
			m[k] = v
			want = append(want, fmt.Sprintf("%q: %s", k, w))
		}
		return m, "{" + strings.Join(want, ", ") + "}"
	case 7, 8:
		n.lazy++
		n.form("lazy_expr")
		v, w := n.value(d - 1)
		return &nestLazy{func() types.Any { return v }}, w
	case 9, 10:
		n.lazy++
		n.form("query")
		var rows []types.Row
		var want []string
		for i := n.c.R.Intn(4); i > 0; i-- {
			r, w := n.row(d - 1)
			rows = append(rows, r)
			want = append(want, w)
		}
		w := "[" + strings.Join(want, ", ") + "]"
		return &nestQuery{f: func() []types.Row { return rows }, want: w}, w
	case 11:
		n.lazy++
		n.form("callable")
		v, w := n.value(d - 1)
		return func() types.Any { return v }, w
	case 12:
		n.lazy++
		n.form("materializer")
		v, w := n.value(d - 1)
		return &nestMaterial{func() types.Any { return v }}, w
	case 13:
		n.lazy++
		n.form("member")
		dd, w := n.dict(d - 1)
		return &nestMember{dd}, w
	default:
		n.lazy++
		n.form("lazy_row")
		dd, w := n.dict(d - 1)
		return lazyRowOf(n.scope, dd), w
	}
}

// identity describes containers by what they hold, without resolving anything
func identity(v types.Any, d int) string {
	if d > 12 {
		return "..."
	}
	switch t := v.(type) {
	case nil:
		return "nil"
	case *ordereddict.Dict:
		var out []string
		for _, k := range t.Keys() {
			x, _ := t.Get(k)
			out = append(out, fmt.Sprintf("%q=%s", k, identity(x, d+1)))
		}
		return fmt.Sprintf("%p{%s}", t, strings.Join(out, ","))
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Slice:
		var out []string
		for i := 0; i < rv.Len(); i++ {
			out = append(out, identity(rv.Index(i).Interface(), d+1))
		}
		return fmt.Sprintf("%T%x[%s]", v, rv.Pointer(), strings.Join(out, ","))
	case reflect.Array:
		var out []string
		for i := 0; i < rv.Len(); i++ {
			out = append(out, identity(rv.Index(i).Interface(), d+1))
		}
		return fmt.Sprintf("%T[%s]", v, strings.Join(out, ","))
	case reflect.Map:
		var out []string
		for _, k := range rv.MapKeys() {
			out = append(out, fmt.Sprintf("%v=%s", k, identity(rv.MapIndex(k).Interface(), d+1)))
		}
		sort.Strings(out)
		return fmt.Sprintf("%T%x{%s}", v, rv.Pointer(), strings.Join(out, ","))
	case reflect.Ptr, reflect.Func, reflect.Chan:
		switch t := v.(type) {
		case *nestStruct:
			return fmt.Sprintf("%p{%s,%s,%s}", t, identity(t.Field1, d+1), identity(t.Other, d+1), identity(t.Last, d+1))
		case *nestMember:
			return fmt.Sprintf("%p{%s}", t, identity(t.d, d+1))
		}
		return fmt.Sprintf("%T%x", v, rv.Pointer())
	}
	if t, ok := v.(nestStruct); ok {
		return fmt.Sprintf("{%s,%s,%s}", identity(t.Field1, d+1), identity(t.Other, d+1), identity(t.Last, d+1))
	}
	return fmt.Sprintf("%T %#v", v, v)
}

func (c *Case) nester() *nest {
	scope := vfilter.NewScope()
	scope.AddProtocolImpl(nestMemberProto{})
	return &nest{c: c, scope: scope, forms: map[string]bool{}}
}

func (c *Case) converts(n *nest, row types.Row, want string) bool {
	before := identity(row, 0)
	got := dict.RowToDict(context.Background(), n.scope, row)
	c.Eval(1)
	if got == nil {
		c.Fail("nil")
		return false
	}
	have := plainE(got)
	if strings.Contains(have, "!") {
		c.Fail("left unresolved: %.1000s\nwant %.1000s", have, want)
		return false
	}
	if have != want {
		c.Fail("got  %.1500s\nwant %.1500s", have, want)
		return false
	}
	if after := identity(row, 0); after != before {
		c.Fail("the row has changed\nbefore %.1000s\nafter  %.1000s", before, after)
		return false
	}
	if _, err := json.Marshal(got); err != nil {
		c.Fail("the converted row cannot be encoded: %v", err)
		return false
	}
	// again: the same
	if again := plainE(vfilter.RowToDict(context.Background(), n.scope, row)); again != want {
		c.Fail("converted again: %.1500s\nwant %.1500s", again, want)
		return false
	}
	// its own conversion
	if again := plainE(dict.RowToDict(context.Background(), n.scope, got)); again != want {
		c.Fail("the converted row converts to %.1500s\nwant %.1500s", again, want)
		return false
	}
	c.Count("rows_converted", 1)
	c.Count("values_resolved", n.lazy)
	return true
}

func c25nested(c *Case) {
	n := c.nester()
	defer n.scope.Close()
	row, want := n.dict(1 + c.R.Intn(5))
	c.Desc("%s", want)
	if c.converts(n, row, want) && n.lazy > 0 {
		c.Seen(want)
		c.Sample("%s", want)
	}
}

func c25rows(c *Case) {
	n := c.nester()
	defer n.scope.Close()
	row, want := n.row(1 + c.R.Intn(4))
	c.Desc("%T %s", row, want)
	if c.converts(n, row, want) && n.lazy > 0 {
		c.Seen(fmt.Sprintf("%T", row) + want)
	}
}

func c25wide(c *Case) {
	n := c.nester()
	defer n.scope.Close()
	k := 200 + c.R.Intn(3000)
	d := ordereddict.NewDict()
	var want []string
	for i := 0; i < k; i++ {
		v, w := n.value(c.R.Intn(3))
		key := fmt.Sprintf("%s_%d", n.key(i), i)
		d.Set(key, v)
		want = append(want, fmt.Sprintf("%q: %s", key, w))
	}
	w := "{" + strings.Join(want, ", ") + "}"
	var row types.Row = d
	if c.R.Intn(2) == 0 { // a long query inside
		rows := []types.Row{}
		var ws []string
		for i := 0; i < k; i++ {
			r, w := n.row(1)
			rows = append(rows, r)
			ws = append(ws, w)
		}
		d2 := ordereddict.NewDict().Set("q", &nestQuery{f: func() []types.Row { return rows }}).Set("d", markQueries(d))
		row = d2
		w = `{"q": [` + strings.Join(ws, ", ") + `], "d": ` + w + "}"
	}
	c.Desc("%d columns", k)
	if c.converts(n, row, w) {
		c.Seen(w)
	}
}

// programs: what a consumer of any query gets is plain and what the model predicts
func c25programs(c *Case) {
	g, h := stdGen(c)
	stmts, loose := g.program(h)
	for loose {
		stmts, loose = g.program(h)
	}
	m, want := h.Expect(stmts)
	if want == nil || m.Ties {
		c.Count("undefined_by_model", 1)
		return
	}
	text := StmtsText(stmts)
	c.Desc("%s\n%s", h, text)
	e := NewEngine(h)
	defer e.Close()
	vql := c.lastOf(e.Scope, text)
	var got []string
	for row := range vql.Eval(e.ctx, e.Scope) {
		d := vfilter.RowToDict(e.ctx, e.Scope, row)
		if p := plainE(d); strings.Contains(p, "!") && !strings.Contains(text, "!") {
			c.Fail("left unresolved: %.1000s", p)
			return
		}
		if a, b := strings.Join(d.Keys(), "\x00"), strings.Join(e.Scope.GetMembers(row), "\x00"); a != b {
			c.Fail("the columns are %q, of the converted row %q", e.Scope.GetMembers(row), d.Keys())
			return
		}
		got = append(got, canonE(d))
	}
	c.Eval(1)
	if d := diffRows(want[len(want)-1], got); d != "" {
		c.Fail("%s", d)
		return
	}
	c.Count("rows_converted", len(got))
	if len(got) > 0 {
		c.Seen(text + h.String())
	}
}

// wrap puts a value into k levels of one or several kinds of containers
func (n *nest) wrap(kind int, v types.Any) types.Any {
	switch kind {
	case 0:
		return markQueries(ordereddict.NewDict().Set("k", v))
	case 1:
		return []types.Any{v}
	case 2:
		return &nestLazy{func() types.Any { return v }}
	case 3:
		return &nestQuery{f: func() []types.Row { return []types.Row{ordereddict.NewDict().Set("k", v)} }, want: "[a query to the bottom]"}
	case 4:
		return func() types.Any { return v }
	case 5:
		return &nestMaterial{func() types.Any { return v }}
	case 6:
		return &nestMember{ordereddict.NewDict().Set("k", v)}
	case 7:
		return map[string]types.Any{"k": v}
	}
	return lazyRowOf(n.scope, ordereddict.NewDict().Set("k", v))
}

// depthE counts the levels of a plain value along its first members; -1 when it does not end
func depthE(v types.Any, limit int) int {
	for d := 0; d < limit; d++ {
		switch t := v.(type) {
		case *ordereddict.Dict:
			v, _ = t.Get("k")
			continue
		case map[string]types.Any:
			v = t["k"]
			continue
		}
		rv := reflect.ValueOf(v)
		if rv.Kind() == reflect.Slice && rv.Len() > 0 {
			v = rv.Index(0).Interface()
			continue
		}
		return d
	}
	return -1
}

func c25deep(c *Case) {
	n := c.nester()
	defer n.scope.Close()
	k := c.R.Intn(60)
	kinds := []int{c.R.Intn(9)}
	if c.R.Intn(2) == 0 {
		kinds = []int{c.R.Intn(9), c.R.Intn(9), c.R.Intn(9)}
	}
	var v types.Any = "bottom"
	levels := 0
	for i := 0; i < k; i++ {
		kind := kinds[c.R.Intn(len(kinds))]
		if kind == 3 {
			levels++ // a query is a list of rows
		}
		levels++
		v = n.wrap(kind, v)
	}
	c.Desc("%d levels of %v", k, kinds)
	got := dict.RowToDict(context.Background(), n.scope, ordereddict.NewDict().Set("k", v))
	c.Eval(1)
	have := plainE(got)
	if levels <= 9 && (!strings.Contains(have, "bottom") || strings.Contains(have, "!")) {
		c.Fail("%d levels of %v: %s", levels, kinds, have)
		return
	}
	if strings.Contains(have, "!") && levels <= 9 {
		c.Fail("left unresolved within %d levels: %s", levels, have)
		return
	}
	plain := true
	for _, kind := range kinds {
		if kind != 0 {
			plain = false
		}
	}
	if plain && !strings.Contains(have, "bottom") {
		c.Fail("%d levels of plain dicts lost their end: %s", k, have)
		return
	}
	if strings.Contains(have, "bottom") {
		c.Count("whole", 1)
	} else {
		c.Count("cut_off", 1)
	}
	c.Seen(c.desc)
}

// cyclic values end at the depth bound
func c25cyclic(c *Case) {
	n := c.nester()
	defer n.scope.Close()
	var self types.Any
	count := 0
	again := func() types.Any { count++; return self }
	kind := c.R.Intn(8)
	inner := c.R.Intn(9)
	two := c.R.Intn(2) == 0
	in := func() types.Any {
		if inner == 2 || inner == 4 || inner == 5 { // a value which is only itself
			return n.wrap(inner, again())
		}
		v := n.wrap(inner, again())
		if two {
			return []types.Any{v, v}
		}
		return v
	}
	switch kind {
	case 0:
		self = &nestLazy{again}
	case 1:
		self = &nestLazy{in}
	case 2:
		self = &nestQuery{f: func() []types.Row { return []types.Row{ordereddict.NewDict().Set("k", in())} }}
	case 3:
		self = func() types.Any { return in() }
	case 4:
		self = &nestMaterial{in}
	case 5:
		d := ordereddict.NewDict()
		self = &nestMember{d}
		d.Set("k", in())
	case 6:
		l := vfilter.NewLazyRow(context.Background(), n.scope)
		l.AddColumn("k", func(ctx context.Context, scope types.Scope) types.Any { return in() })
		self = l
	default:
		l := []types.Any{nil}
		self = l
		l[0] = self
	}
	c.Desc("a value containing itself, kind %d through %d, twice %v", kind, inner, two)
	got := dict.RowToDict(context.Background(), n.scope, ordereddict.NewDict().Set("k", self).Set("after", 1))
	c.Eval(1)
	if after, _ := got.Get("after"); after != 1 {
		c.Fail("the other columns are gone: %.300s", plainE(got))
		return
	}
	if d := depthE(got, 60); d < 0 {
		c.Fail("the conversion does not end within 60 levels")
		return
	}
	b, err := json.Marshal(got)
	if err != nil || !bytes.Contains(b, []byte("after")) {
		c.Fail("cannot be encoded: %v", err)
		return
	}
	c.Count("evaluations_of_cycles", count)
	c.Seen(c.desc)
}

// c25indict: the one form of query the conversion is known to leave alone
func c25indict(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	q := &nestQuery{f: func() []types.Row { return []types.Row{ordereddict.NewDict().Set("x", 1)} }}
	row := ordereddict.NewDict().Set("d", ordereddict.NewDict().Set("q", q))
	c.Desc("a stored query which the host put into a dict in a row")
	have := plainE(dict.RowToDict(context.Background(), scope, row))
	c.Eval(1)
	c.Seen(have)
	c.Known("query-in-dict", strings.Contains(have, "!"), "left unresolved: "+have)
}
