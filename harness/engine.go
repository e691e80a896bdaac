package main

import (
	"context"
	"fmt"
	"io"
	"log"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
	"www.velocidex.com/golang/vfilter/utils/dict"
)

// Host describes the environment a case evaluates in: variables and table plugins.
type Host struct {
	Vars   *D
	Tables map[string][]V
	Kind   map[string]string // per table: how the rows are presented ("" = ordereddict)
	Salt   uint64            // when set, numbers and NULLs of the host are presented as other Go kinds of the same value
}

func NewHost() *Host {
	return &Host{Vars: NewD(), Tables: map[string][]V{}, Kind: map[string]string{}}
}

func (h *Host) String() string {
	var out []string
	var names []string
	for k := range h.Tables {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		out = append(out, fmt.Sprintf("table %s() [%s] = %s", k, h.Kind[k], canonM(h.Tables[k])))
	}
	for _, k := range h.Vars.Keys {
		out = append(out, fmt.Sprintf("var %s = %s", k, canonM(h.Vars.M[k])))
	}
	return strings.Join(out, "\n")
}

// Engine is one scope of the real library with recording host extensions.
type Engine struct {
	Scope   types.Scope
	host    *Host
	mu      sync.Mutex
	Logs    []string
	Calls   map[string]int
	Order   []string         // probe ids in call order
	Emitted map[string]int64 // rows handed out per table
	Asked   map[string]int64 // times a row was offered
	Opened  map[string]int64
	Closed  map[string]int64
	active  map[string]int
	MaxAct  map[string]int
	ctx     context.Context
	Delay   func(name string)
}

type lineWriter struct {
	f func(string)
}

func (w *lineWriter) Write(b []byte) (int, error) {
	w.f(strings.TrimRight(string(b), "\n"))
	return len(b), nil
}

func toE(v V) types.Any {
	switch t := v.(type) {
	case nil:
		return nil
	case Null:
		return types.Null{}
	case []V:
		// with room to grow, as lists built by Go code often have
		out := make([]types.Any, 0, len(t)+4)
		for _, x := range t {
			out = append(out, toE(x))
		}
		return out
	case *D:
		d := ordereddict.NewDict()
		for _, k := range t.Keys {
			d.Set(k, toE(t.M[k]))
		}
		return d
	}
	return v
}

// goNull: the forms in which Go code gives a NULL
func goNull(salt uint64) types.Any {
	switch salt % 4 {
	case 0:
		return nil
	case 1:
		return &types.Null{}
	}
	return types.Null{}
}

// toE presents a value of the host: like toE, but with numbers in some Go kind which holds exactly that value.
func (h *Host) toE(v V) types.Any {
	if h == nil || h.Salt == 0 {
		return toE(v)
	}
	switch t := v.(type) {
	case []V:
		out := make([]types.Any, 0, len(t)+int(h.Salt%5))
		for _, x := range t {
			out = append(out, h.toE(x))
		}
		return out
	case *D:
		d := ordereddict.NewDict()
		for _, k := range t.Keys {
			d.Set(k, h.toE(t.M[k]))
		}
		return d
	case Null:
		return goNull(h.Salt)
	case int64:
		return goInt(t, hash64(fmt.Sprint(h.Salt, t)))
	case float64:
		if f := float32(t); float64(f) == t && hash64(fmt.Sprint(h.Salt, t))%2 == 0 {
			return f
		}
	}
	return toE(v)
}

// goInt presents n as one of the integer kinds which can hold it.
func goInt(n int64, choice uint64) types.Any {
	all := []types.Any{n, int(n)}
	if n == int64(int8(n)) {
		all = append(all, int8(n))
	}
	if n == int64(int16(n)) {
		all = append(all, int16(n))
	}
	if n == int64(int32(n)) {
		all = append(all, int32(n))
	}
	if n >= 0 {
		all = append(all, uint64(n), uint(n))
		if n < 1<<8 {
			all = append(all, uint8(n))
		}
		if n < 1<<16 {
			all = append(all, uint16(n))
		}
		if n < 1<<32 {
			all = append(all, uint32(n))
		}
	}
	return all[choice%uint64(len(all))]
}

// canonE renders library values the way canonM renders model values.
func canonE(v types.Any) string {
	switch t := v.(type) {
	case nil, types.Null, *types.Null:
		return "null"
	case bool:
		return fmt.Sprint(t)
	case float64:
		return fstr(t)
	case float32:
		return fstr(float64(t))
	case string:
		return fmt.Sprintf("%q", t)
	case *ordereddict.Dict:
		if t == nil {
			return "null"
		}
		var out []string
		for _, k := range t.Keys() {
			x, _ := t.Get(k)
			out = append(out, fmt.Sprintf("%q: %s", k, canonE(x)))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case time.Time:
		return fmt.Sprintf("t:%d", t.UnixNano())
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return fmt.Sprintf("%q", rv.String())
	case reflect.Bool:
		return fmt.Sprint(rv.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i:%d", rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("i:%d", rv.Uint())
	case reflect.Slice, reflect.Array:
		var out []string
		for i := 0; i < rv.Len(); i++ {
			out = append(out, canonE(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case reflect.Map:
		var keys []string
		m := map[string]string{}
		for _, k := range rv.MapKeys() {
			ks := fmt.Sprint(k.Interface())
			keys = append(keys, ks)
			m[ks] = canonE(rv.MapIndex(k).Interface())
		}
		sort.Strings(keys)
		var out []string
		for _, k := range keys {
			out = append(out, fmt.Sprintf("%q: %s", k, m[k]))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case reflect.Ptr:
		if rv.IsNil() {
			return "null"
		}
	}
	return fmt.Sprintf("?%T", v)
}

func canonRow(ctx context.Context, scope types.Scope, row types.Row) string {
	if types.IsNil(row) {
		return "null"
	}
	return canonE(dict.RowToDict(ctx, scope, row))
}

type probeArgs struct {
	ID string    `vfilter:"required,field=id"`
	V  types.Any `vfilter:"optional,field=v"`
}

// pick reads only the argument named by use
type pickArgs struct {
	Use string         `vfilter:"required,field=use"`
	A   types.LazyExpr `vfilter:"optional,field=a"`
	B   types.LazyExpr `vfilter:"optional,field=b"`
}

// allrows returns every row of its query
type allRowsArgs struct {
	Query types.StoredQuery `vfilter:"required,field=query"`
}

func parseText(text string) ([]*vfilter.VQL, error) { return vfilter.MultiParse(text) }

// structRow presents a row as a Go struct (columns A, B, C ... are fixed by the kind)
type structRow struct {
	A types.Any
	B types.Any
	C types.Any
	D types.Any
	L types.Any
}

func (h *Host) toRow(kind string, ctx context.Context, scope types.Scope, v V) types.Row {
	toE := h.toE
	d, ok := v.(*D)
	if !ok {
		return toE(v)
	}
	switch kind {
	case "map":
		m := map[string]interface{}{}
		for _, k := range d.Keys {
			m[k] = toE(d.M[k])
		}
		return m
	case "lazy":
		r := vfilter.NewLazyRow(ctx, scope)
		for _, k := range d.Keys {
			x := d.M[k]
			r.AddColumn(k, func(ctx context.Context, scope types.Scope) types.Any { return toE(x) })
		}
		return r
	}
	return toE(v)
}

func NewEngine(h *Host) *Engine {
	e := newEngineRaw(h)
	e.Scope = vfilter.NewScope()
	e.install(e.Scope)
	return e
}

func newEngineRaw(h *Host) *Engine {
	return &Engine{host: h, Calls: map[string]int{}, Emitted: map[string]int64{}, Asked: map[string]int64{},
		Opened: map[string]int64{}, Closed: map[string]int64{}, active: map[string]int{}, MaxAct: map[string]int{},
		ctx: context.Background()}
}

func (e *Engine) bump(m map[string]int64, k string) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	m[k]++
	return m[k]
}

func (e *Engine) get(m map[string]int64, k string) int64 {
	e.mu.Lock()
	defer e.mu.Unlock()
	return m[k]
}

func (e *Engine) install(scope types.Scope) {
	scope.SetLogger(log.New(&lineWriter{func(s string) {
		e.mu.Lock()
		e.Logs = append(e.Logs, s)
		e.mu.Unlock()
	}}, "", 0))
	e.extend(scope)
	if e.host != nil && len(e.host.Vars.Keys) > 0 {
		scope.AppendVars(e.host.toE(e.host.Vars))
	}
}

// extend registers the recording functions and the table plugins.
func (e *Engine) extend(scope types.Scope) {
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "probe",
		ArgType: &probeArgs{},
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &probeArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("ERROR:probe: %v", err)
				return types.Null{}
			}
			e.mu.Lock()
			e.Calls[a.ID]++
			e.Order = append(e.Order, a.ID)
			e.mu.Unlock()
			if e.Delay != nil {
				e.Delay(a.ID)
			}
			if a.V == nil {
				return types.Null{}
			}
			return a.V
		}})
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "pick",
		ArgType: &pickArgs{},
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &pickArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("ERROR:pick: %v", err)
				return types.Null{}
			}
			switch {
			case a.Use == "a" && a.A != nil:
				return a.A.Reduce(ctx)
			case a.Use == "b" && a.B != nil:
				return a.B.Reduce(ctx)
			}
			return types.Null{}
		}})
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "allrows",
		ArgType: &allRowsArgs{},
		Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
			a := &allRowsArgs{}
			if err := arg_parser.ExtractArgsWithContext(ctx, scope, args, a); err != nil {
				scope.Log("ERROR:allrows: %v", err)
				return types.Null{}
			}
			out := []types.Any{}
			for r := range a.Query.Eval(ctx, scope) {
				out = append(out, dict.RowToDict(ctx, scope, r))
			}
			return out
		}})
	if e.host == nil {
		return
	}
	for name, rows := range e.host.Tables {
		name, rows := name, rows
		kind := e.host.Kind[name]
		scope.AppendPlugins(&vfilter.GenericListPlugin{PluginName: "_dummy_" + name, Function: func(context.Context, types.Scope, *ordereddict.Dict) []types.Row { return nil }})
		scope.AppendPlugins(&tablePlugin{name: name, f: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
			out := make(chan types.Row)
			e.bump(e.Opened, name)
			e.mu.Lock()
			e.active[name]++
			if e.active[name] > e.MaxAct[name] {
				e.MaxAct[name] = e.active[name]
			}
			e.mu.Unlock()
			go func() {
				defer func() {
					e.mu.Lock()
					e.active[name]--
					e.mu.Unlock()
					e.bump(e.Closed, name)
					close(out)
				}()
				for _, r := range rows {
					e.bump(e.Asked, name)
					if e.Delay != nil {
						e.Delay(name)
					}
					row := e.host.toRow(kind, ctx, scope, r)
					select {
					case <-ctx.Done():
						return
					case out <- row:
						e.bump(e.Emitted, name)
					}
				}
			}()
			return out
		}})
	}
}

type tablePlugin struct {
	name string
	f    func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row
}

func (t *tablePlugin) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	return t.f(ctx, scope, args)
}
func (t *tablePlugin) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	return &types.PluginInfo{Name: t.name}
}

// Query runs one parsed statement to its end and returns the canonical rows.
func (e *Engine) Query(vql *vfilter.VQL) []string {
	return drain(e.ctx, e.Scope, vql)
}

func drain(ctx context.Context, scope types.Scope, vql *vfilter.VQL) []string {
	rows := []string{}
	for r := range vql.Eval(ctx, scope) {
		if len(rows) < 20000 {
			rows = append(rows, canonRow(ctx, scope, r))
		}
	}
	return rows
}

// Run parses text and runs each statement.
func (e *Engine) Run(text string) ([][]string, error) {
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		return nil, err
	}
	var out [][]string
	for _, v := range vqls {
		out = append(out, e.Query(v))
	}
	return out, nil
}

// Last runs the text and returns the rows of the last statement.
func (e *Engine) Last(text string) ([]string, error) {
	out, err := e.Run(text)
	if err != nil || len(out) == 0 {
		return nil, err
	}
	return out[len(out)-1], nil
}

func (e *Engine) Close() { e.Scope.Close() }

// Model builds the reference counterpart of a host.
func (h *Host) Model() (*Model, *D, *Env) {
	m := NewModel()
	for name, rows := range h.Tables {
		rows := rows
		kind := h.Kind[name]
		m.Plugins[name] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
			for _, r := range rows {
				if kind == "map" {
					r = sortedD(r)
				}
				if !emit(r) {
					return
				}
			}
		}
	}
	vars := h.Vars.Copy()
	root := (&Env{}).fresh()
	return m, vars, root.with(vars)
}

func sortedD(v V) V {
	d, ok := v.(*D)
	if !ok {
		return v
	}
	keys := append([]string{}, d.Keys...)
	sort.Strings(keys)
	r := NewD()
	for _, k := range keys {
		r.Set(k, d.M[k])
	}
	return r
}

func canonRows(rows []V) []string {
	out := []string{}
	for _, r := range rows {
		out = append(out, canonM(r))
	}
	return out
}

// Expect runs the statements in the model; nil when the model does not define the outcome.
func (h *Host) Expect(stmts []*Stmt) (*Model, [][]string) {
	m, vars, env := h.Model()
	var out [][]string
	for _, s := range stmts {
		rows := m.Exec(s, vars, env)
		var deep []V
		for _, r := range rows {
			deep = append(deep, m.deep(r, env))
		}
		out = append(out, canonRows(deep))
		if m.Unsure {
			return m, nil
		}
	}
	return m, out
}

func diffRows(want, got []string) string {
	if len(want) == len(got) {
		same := true
		for i := range want {
			if want[i] != got[i] {
				same = false
			}
		}
		if same {
			return ""
		}
	}
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<none>", "<none>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("%d rows expected, %d observed; first difference at row %d:\n  expected %s\n  observed %s", len(want), len(got), i, w, g)
		}
	}
	return ""
}

func sorted(rows []string) []string {
	r := append([]string{}, rows...)
	sort.Strings(r)
	return r
}

// Differential runs the statements in the library and compares every statement's rows with the reference model.
// It returns the engine, the model and the observed rows (nil when the model is undefined for them).
func (c *Case) Differential(h *Host, stmts []*Stmt, text string) (*Engine, *Model, [][]string) {
	if text == "" {
		text = StmtsText(stmts)
	}
	m, want := h.Expect(stmts)
	if want == nil {
		c.Count("undefined_by_model", 1)
		return nil, m, nil
	}
	c.Desc("%s\n%s", h.String(), text)
	e := NewEngine(h)
	defer e.Close()
	got, err := e.Run(text)
	c.Eval(1)
	if err != nil {
		c.Fail("does not parse: %v", err)
		return e, m, nil
	}
	if len(got) != len(want) {
		c.Fail("%d statements parsed as %d", len(want), len(got))
		return e, m, nil
	}
	n := 0
	for i := range got {
		w, g := want[i], got[i]
		if m.Ties {
			w, g = sorted(w), sorted(g)
		}
		if d := diffRows(w, g); d != "" {
			c.Fail("statement %d (%s): %s", i, StmtText(stmts[i]), d)
		}
		n += len(got[i])
	}
	c.Count("rows_compared", n)
	if n > 0 {
		c.Seen(text + h.String())
		c.Sample("%s  ⇒ %d rows as predicted, e.g. %s", text, n, firstRow(got))
	}
	return e, m, got
}

func firstRow(got [][]string) string {
	for _, g := range got {
		if len(g) > 0 {
			return g[0]
		}
	}
	return ""
}

var _ = io.Discard
var _ atomic.Int64

type contextT = context.Context
