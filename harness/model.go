package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"
	"time"
)

// The reference interpreter: strict, single threaded, written from the language description and independent of the
// library.  Values: Null, bool, int64, float64, string, []V, *D, and the lazy kinds *SQ, *SE, *CallSite, *Thunk.

type V = interface{}
type Null struct{}

type D struct {
	Keys []string
	M    map[string]V
}

func NewD() *D { return &D{M: map[string]V{}} }
func (d *D) Set(k string, v V) *D {
	if _, ok := d.M[k]; !ok {
		d.Keys = append(d.Keys, k)
	}
	d.M[k] = v
	return d
}
func (d *D) Copy() *D {
	r := NewD()
	for _, k := range d.Keys {
		r.Set(k, d.M[k])
	}
	return r
}

// SQ is a stored query, SE a stored expression.
type SQ struct {
	Q      *Select
	Name   string
	Params []Param
	Rows   []V // materialized
	Mat    bool
}
type SE struct {
	E      Expr
	Name   string
	Params []Param
}
type CallSite struct {
	Q   *SQ
	Env *Env
}
type Thunk struct {
	f    func() V
	done bool
	v    V
}

func (t *Thunk) get() V {
	if !t.done {
		t.v = t.f()
		t.done = true
	}
	return t.v
}

// Env is the variable stack; the innermost binding wins.
type Env struct {
	parent *Env
	get    func(name string) (V, bool)
	agg    *aggCtx
}

type aggCtx struct{ m map[*CallE]V }

func (e *Env) lookup(name string) (V, bool) {
	for x := e; x != nil; x = x.parent {
		if x.get != nil {
			if v, ok := x.get(name); ok {
				return v, true
			}
		}
	}
	return nil, false
}

func (e *Env) with(d *D) *Env {
	return &Env{parent: e, get: func(n string) (V, bool) { v, ok := d.M[n]; return v, ok }}
}

func (e *Env) fresh() *Env { return &Env{parent: e, agg: &aggCtx{m: map[*CallE]V{}}} }

func (e *Env) aggregates() *aggCtx {
	for x := e; x != nil; x = x.parent {
		if x.agg != nil {
			return x.agg
		}
	}
	panic("no aggregate context")
}

// MFunc is a model function; args are thunks (reduced lazily).
type MFunc func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V
type MPlugin func(m *Model, env *Env, args []Arg, emit func(V) bool) // emit returns false to stop

type Model struct {
	Funcs   map[string]MFunc
	Plugins map[string]MPlugin
	Logs    []string
	Calls   map[string]int // probe calls by id
	depth   int
	nest    int
	Ties    bool // some ORDER BY had ties
	Unsure  bool // the model does not define the outcome
	steps   int
}

func NewModel() *Model {
	m := &Model{Funcs: map[string]MFunc{}, Plugins: map[string]MPlugin{}, Calls: map[string]int{}}
	builtinModel(m)
	return m
}

func (m *Model) log(f string, a ...interface{}) { m.Logs = append(m.Logs, fmt.Sprintf(f, a...)) }

func isNull(v V) bool {
	if v == nil {
		return true
	}
	_, ok := v.(Null)
	return ok
}

func toInt(v V) (int64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int64:
		return t, true
	case float64:
		return int64(t), true
	}
	return 0, false
}

func toFloat(v V) (float64, bool) {
	switch t := v.(type) {
	case bool:
		if t {
			return 1, true
		}
		return 0, true
	case int64:
		return float64(t), true
	case float64:
		return t, true
	}
	return 0, false
}

func isFloat(v V) bool { _, ok := v.(float64); return ok }
func isInt(v V) bool   { _, ok := v.(int64); return ok }
func isBool(v V) bool  { _, ok := v.(bool); return ok }
func isNum(v V) bool   { return isFloat(v) || isInt(v) }

// force reduces stored expressions / thunks to plain values; stored queries are left alone.
func (m *Model) force(v V) V {
	for {
		t, ok := v.(*Thunk)
		if !ok {
			return v
		}
		v = t.get()
	}
}

func (m *Model) truth(env *Env, v V) bool {
	switch t := m.force(v).(type) {
	case nil, Null:
		return false
	case bool:
		return t
	case int64:
		return t > 0
	case float64:
		return t > 0
	case string:
		return len(t) > 0
	case []V:
		return len(t) > 0
	case *D:
		return len(t.Keys) > 0
	case *SQ, *CallSite:
		any := false
		m.rows(t, env, func(V) bool { any = true; return false })
		return any
	}
	m.Unsure = true
	return false
}

func eqV(a, b V) bool {
	if isNull(a) || isNull(b) {
		return isNull(a) && isNull(b)
	}
	switch t := a.(type) {
	case string:
		s, ok := b.(string)
		return ok && s == t
	case []V:
		s, ok := b.([]V)
		if !ok || len(s) != len(t) {
			return false
		}
		for i := range t {
			if !eqV(t[i], s[i]) {
				return false
			}
		}
		return true
	case *D:
		s, ok := b.(*D)
		if !ok || len(s.Keys) != len(t.Keys) {
			return false
		}
		for _, k := range t.Keys {
			o, ok := s.M[k]
			if !ok || !eqV(t.M[k], o) {
				return false
			}
		}
		return true
	}
	if isFloat(a) || isFloat(b) {
		x, ok1 := toFloat(a)
		y, ok2 := toFloat(b)
		return ok1 && ok2 && x == y
	}
	x, ok1 := toInt(a)
	y, ok2 := toInt(b)
	return ok1 && ok2 && x == y
}

// ltV is defined for comparable kinds only; ok=false otherwise.
func ltV(a, b V) (bool, bool) {
	if isNull(a) || isNull(b) {
		return false, true
	}
	s, ok1 := a.(string)
	t, ok2 := b.(string)
	if ok1 && ok2 {
		return s < t, true
	}
	if ok1 || ok2 {
		return false, false
	}
	if isFloat(a) || isFloat(b) {
		x, o1 := toFloat(a)
		y, o2 := toFloat(b)
		if o1 && o2 {
			return x < y, true
		}
	}
	x, o1 := toInt(a)
	y, o2 := toInt(b)
	if o1 && o2 {
		return x < y, true
	}
	return false, false
}

func (m *Model) arith(op string, a, b V) V {
	a, b = m.force(a), m.force(b)
	if _, ok := a.(*SQ); ok {
		m.Unsure = true
	}
	if _, ok := b.(*SQ); ok {
		m.Unsure = true
	}
	_, la := a.([]V)
	_, lb := b.([]V)
	if op == "+" && (la || lb) && !isNull(a) {
		if isNull(b) {
			// a list plus NULL: a single-element list is joined
			m.Unsure = true
			return Null{}
		}
		var out []V
		if la {
			out = append(out, a.([]V)...)
		} else {
			out = append(out, a)
		}
		if lb {
			out = append(out, b.([]V)...)
		} else {
			out = append(out, b)
		}
		if out == nil {
			out = []V{}
		}
		return out
	}
	if isNull(a) || isNull(b) {
		return Null{}
	}
	sa, oka := a.(string)
	sb, okb := b.(string)
	switch {
	case op == "+" && oka && okb:
		return sa + sb
	case op == "*" && oka && !okb:
		n, ok := toInt(b)
		if !ok {
			return Null{}
		}
		if n < 0 {
			return Null{}
		}
		if int64(len(sa)) > 0 && n > 100000000/int64(len(sa)) {
			return Null{}
		}
		return strings.Repeat(sa, int(n))
	case oka || okb:
		return Null{}
	}
	x, ok1 := toFloat(a)
	y, ok2 := toFloat(b)
	if !ok1 || !ok2 {
		return Null{}
	}
	if op == "/" {
		if y == 0 {
			return Null{}
		}
		return x / y
	}
	if op == "+" && isBool(a) || op == "+" && isBool(b) && !isFloat(a) {
		// only numbers (and float + bool) can be added
		return Null{}
	}
	if isFloat(a) || isFloat(b) {
		switch op {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		}
	}
	i, _ := toInt(a)
	j, _ := toInt(b)
	switch op {
	case "+":
		return i + j
	case "-":
		return i - j
	case "*":
		return i * j
	}
	panic(op)
}

func (m *Model) cmp(op string, a, b V) V {
	a, b = m.force(a), m.force(b)
	switch op {
	case "=":
		return eqV(a, b)
	case "!=":
		return !eqV(a, b)
	}
	var lt, ok bool
	switch op {
	case "<", "<=":
		lt, ok = ltV(a, b)
	case ">", ">=":
		lt, ok = ltV(b, a)
	}
	if !ok {
		m.Unsure = true
	}
	if op == "<=" || op == ">=" {
		return lt || eqV(a, b)
	}
	return lt
}

func (m *Model) member(env *Env, a, b V) bool {
	a, b = m.force(a), m.force(b)
	switch t := b.(type) {
	case *D:
		if s, ok := a.(string); ok {
			_, pres := t.M[s]
			return pres
		}
		return false
	case string:
		if s, ok := a.(string); ok {
			return strings.Contains(t, s)
		}
		return false
	case []V:
		for _, x := range t {
			if eqV(a, x) {
				return true
			}
		}
	case *SQ, *CallSite:
		m.Unsure = true
	}
	return false
}

func (m *Model) match(pattern, target V) bool {
	pattern, target = m.force(pattern), m.force(target)
	p, ok := pattern.(string)
	if !ok {
		return false
	}
	if p == "" || p == "." || p == ".*" {
		return true
	}
	switch t := target.(type) {
	case string:
		re, err := regexp.Compile("(?i)" + p)
		return err == nil && re.MatchString(t)
	case []V:
		for _, x := range t {
			if m.match(p, x) {
				return true
			}
		}
	}
	return false
}

// assoc is field/index access; present=false means "no such thing" and terminates an access path with NULL.
func (m *Model) assoc(env *Env, a V, key V) (V, bool) {
	a = m.force(a)
	if isNull(a) {
		return Null{}, true
	}
	switch t := key.(type) {
	case string:
		switch x := a.(type) {
		case *D:
			v, ok := x.M[t]
			if ok && v == nil {
				v = Null{}
			}
			return v, ok
		case []V:
			out := []V{}
			for _, el := range x {
				if v, ok := m.assoc(env, el, t); ok {
					out = append(out, v)
				}
			}
			return out, true
		case *SE:
			return m.assoc(env, m.reduceSE(x, env, nil), key)
		case *SQ, *CallSite:
			out := []V{}
			mat := false
			if sq, ok := x.(*SQ); ok && sq.Mat {
				mat = true
			}
			m.rows(x, env, func(r V) bool {
				v, ok := m.assoc(env, r, t)
				if ok {
					out = append(out, v)
				} else if !mat {
					out = append(out, Null{})
				} else {
					m.Unsure = true
				}
				return true
			})
			return out, true
		}
		return Null{}, false
	case int64:
		switch x := a.(type) {
		case []V:
			if t < 0 {
				t += int64(len(x))
			}
			if t < 0 || t >= int64(len(x)) {
				return Null{}, false
			}
			return x[t], true
		case string:
			if t < 0 {
				t += int64(len(x))
			}
			if t < 0 || t >= int64(len(x)) {
				return Null{}, false
			}
			return int64(x[t]), true
		case *SQ, *CallSite:
			var rows []V
			m.rows(x, env, func(r V) bool { rows = append(rows, r); return int64(len(rows)) <= t || t < 0 })
			if t >= 0 && t < int64(len(rows)) {
				return rows[t], true
			}
			if sq, ok := x.(*SQ); ok && sq.Mat {
				return m.assoc(env, rows, key)
			}
			m.Unsure = true
			return Null{}, true
		}
		return Null{}, false
	}
	return Null{}, false
}

func (m *Model) slice(a V, lo, hi *int64) (V, bool) {
	a = m.force(a)
	clamp := func(n int64) (int64, int64) {
		s, e := int64(0), n
		if lo != nil {
			s = *lo
		}
		if s < 0 {
			s += n
		}
		if s < 0 {
			s = 0
		}
		if hi != nil {
			e = *hi
		}
		if e < 0 {
			e += n
		}
		if e < 0 {
			e = 0
		}
		if e > n {
			e = n
		}
		return s, e
	}
	switch x := a.(type) {
	case nil, Null:
		return Null{}, true
	case string:
		s, e := clamp(int64(len(x)))
		if e <= s {
			return "", true
		}
		return x[s:e], true
	case []V:
		s, e := clamp(int64(len(x)))
		if e <= s {
			return []V{}, true
		}
		return append([]V{}, x[s:e]...), true
	}
	if _, ok := a.(*SQ); ok {
		m.Unsure = true
	}
	return Null{}, false
}

const modelDepth = 300

func (m *Model) reduceSE(se *SE, env *Env, args *D) V {
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > modelDepth {
		m.Unsure = true
		return Null{}
	}
	return m.Eval(se.E, env)
}

func (m *Model) neg(env *Env, neg bool, v V) V {
	if !neg {
		return v
	}
	switch t := m.force(v).(type) {
	case *SE:
		return m.neg(env, true, m.reduceSE(t, env, nil))
	case bool:
		return !t
	case int64:
		return -t
	case float64:
		return -t
	}
	return Null{}
}

// args evaluates call arguments eagerly (calls to definitions).
func (m *Model) eagerArgs(env *Env, args []Arg) *D {
	d := NewD()
	for _, a := range args {
		d.Set(a.Name, m.argValue(env, a))
	}
	return d
}

func (m *Model) argValue(env *Env, a Arg) V {
	switch {
	case a.Sub != nil:
		return &SQ{Q: a.Sub, Name: a.Name}
	case a.IsA:
		if len(a.Arr) == 0 {
			return []V{}
		}
		if len(a.Arr) == 1 {
			v := m.Eval(a.Arr[0], env)
			return v
		}
		var out []V
		for _, x := range a.Arr {
			out = append(out, m.Eval(x, env))
		}
		return out
	}
	return m.Eval(a.E, env)
}

func (m *Model) defaults(env *Env, params []Param, d *D) {
	for _, p := range params {
		if _, ok := d.M[p.Name]; !ok && p.Def != nil {
			d.Set(p.Name, m.argValue(env, *p.Def))
		}
	}
}

// Eval evaluates an expression; the result may be a stored query.
func (m *Model) Eval(e Expr, env *Env) V {
	m.steps++
	m.nest++
	defer func() { m.nest-- }()
	if m.steps > 1000000 || m.nest > 2000 {
		m.Unsure = true
		return Null{}
	}
	switch t := e.(type) {
	case *Lit:
		return t.V
	case *Par:
		return m.Eval(t.E, env)
	case *Comma:
		if len(t.Items) == 1 && !t.Trailing {
			return m.Eval(t.Items[0], env)
		}
		out := []V{}
		for _, x := range t.Items {
			out = append(out, m.Eval(x, env))
		}
		return out
	case *Not:
		return !m.truth(env, m.Eval(t.E, env))
	case *Sym:
		return m.sym(t, env)
	case *CallE:
		return m.call(t, env)
	case *Mem:
		v := m.Eval(t.Base, env)
		for _, s := range t.Steps {
			var ok bool
			switch {
			case s.Field != "":
				v, ok = m.assoc(env, v, s.Field)
			case s.Slice:
				var lo, hi *int64
				if s.Lo != nil {
					i, k := toInt(m.force(m.Eval(s.Lo, env)))
					if !k {
						return Null{}
					}
					lo = &i
				}
				if s.Hi != nil {
					i, k := toInt(m.force(m.Eval(s.Hi, env)))
					if !k {
						return Null{}
					}
					hi = &i
				}
				v, ok = m.slice(v, lo, hi)
			default:
				idx := m.force(m.Eval(s.Index, env))
				if _, isS := idx.(string); !isS {
					i, k := toInt(idx)
					if !k {
						if isNull(m.force(v)) {
							v, ok = Null{}, true
							break
						}
						return Null{}
					}
					idx = i
				}
				v, ok = m.assoc(env, v, idx)
			}
			if !ok {
				return Null{}
			}
		}
		return v
	case *Bin:
		switch t.Op {
		case "AND", "&&":
			// left associative chain
			l := m.Eval(t.L, env)
			if b, isB := t.L.(*Bin); isB && (b.Op == "AND" || b.Op == "&&") {
				if !m.truth(env, l) {
					return false
				}
			} else if !m.truth(env, l) {
				return false
			}
			r := m.Eval(t.R, env)
			if !m.truth(env, r) {
				return false
			}
			if t.Op == "&&" {
				return r
			}
			return true
		case "OR", "||", "|":
			l := m.Eval(t.L, env)
			if m.truth(env, l) {
				return l
			}
			r := m.Eval(t.R, env)
			if m.truth(env, r) {
				if t.Op == "||" {
					return r
				}
				return true
			}
			return r
		case "+", "-", "*", "/":
			l := m.Eval(t.L, env)
			return m.arith(t.Op, l, m.Eval(t.R, env))
		case "IN":
			l := m.Eval(t.L, env)
			return m.member(env, l, m.Eval(t.R, env))
		case "=~":
			l := m.Eval(t.L, env)
			return m.match(m.Eval(t.R, env), l)
		default:
			l := m.Eval(t.L, env)
			return m.cmp(t.Op, l, m.Eval(t.R, env))
		}
	}
	panic(fmt.Sprintf("model: %T", e))
}

func (m *Model) resolve(path []string, env *Env) (V, bool) {
	v, ok := env.lookup(path[0])
	if !ok {
		m.log("ERROR:%s not found", path[0])
		return nil, false
	}
	for _, f := range path[1:] {
		v, ok = m.assoc(env, v, f)
		if !ok {
			return nil, false
		}
	}
	return v, true
}

func (m *Model) sym(t *Sym, env *Env) V {
	v, ok := m.resolve(t.Path, env)
	if !ok {
		return Null{}
	}
	switch x := m.force(v).(type) {
	case *SE:
		d := NewD()
		m.defaults(env, x.Params, d)
		return m.neg(env, t.Neg, m.reduceSE(x, env.with(d), nil))
	case nil:
		return Null{}
	case emptySub:
		m.Unsure = true
		return Null{}
	default:
		return m.neg(env, t.Neg, x)
	}
}

func (m *Model) call(t *CallE, env *Env) V {
	if len(t.Path) == 1 {
		if f, ok := m.Funcs[t.Path[0]]; ok {
			args := map[string]*Thunk{}
			var order []string
			for i := range t.Args {
				a := t.Args[i]
				if _, dup := args[a.Name]; !dup {
					order = append(order, a.Name)
				}
				if a.E != nil {
					args[a.Name] = &Thunk{f: func() V { return m.Eval(a.E, env) }}
				} else {
					v := m.argValue(env, a)
					args[a.Name] = &Thunk{done: true, v: v}
				}
			}
			return m.neg(env, t.Neg, f(m, env, t, args, order))
		}
	}
	v, ok := m.resolve(t.Path, env)
	if !ok {
		return Null{}
	}
	switch x := v.(type) {
	case *SE:
		d := m.eagerArgs(env, t.Args)
		m.defaults(env, x.Params, d)
		return m.neg(env, t.Neg, m.reduceSE(x, env.fresh().with(d), d))
	case *SQ:
		if x.Mat || len(t.Args) == 0 {
			m.Unsure = true
			return Null{}
		}
		d := m.eagerArgs(env, t.Args)
		m.defaults(env, x.Params, d)
		return &CallSite{Q: x, Env: env.fresh().with(d)}
	}
	m.log("ERROR:not callable")
	return Null{}
}

// rows streams the rows of a table-like value.
func (m *Model) rows(v V, env *Env, emit func(V) bool) {
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > modelDepth {
		m.Unsure = true
		return
	}
	switch t := m.force(v).(type) {
	case *SQ:
		if t.Mat {
			for _, r := range t.Rows {
				if !emit(r) {
					return
				}
			}
			return
		}
		m.Select(t.Q, env, emit)
	case *CallSite:
		m.Select(t.Q.Q, t.Env, emit)
	case *SE:
		m.rows(m.reduceSE(t, env, nil), env, emit)
	case []V:
		for _, r := range t {
			if !emit(r) {
				return
			}
		}
	default:
		emit(t)
	}
}

// materialized turns stored queries into lists, as columns do.
func (m *Model) materialized(v V, env *Env) V {
	switch t := m.force(v).(type) {
	case *SQ, *CallSite:
		out := []V{}
		m.rows(t, env, func(r V) bool { out = append(out, r); return true })
		return out
	case nil:
		return Null{}
	default:
		return t
	}
}

func (m *Model) from(f *From, env *Env, emit func(V) bool) {
	if f.Call && len(f.Path) == 1 {
		if p, ok := m.Plugins[f.Path[0]]; ok {
			p(m, env, f.Args, emit)
			return
		}
	}
	v, ok := m.resolve(f.Path, env)
	if !ok {
		m.log("ERROR:%v not found", f.Path[0])
		return
	}
	if !f.Call {
		m.rows(v, env, emit)
		return
	}
	switch t := v.(type) {
	case *SE:
		d := m.eagerArgs(env, f.Args)
		m.defaults(env, t.Params, d)
		m.rows(m.reduceSE(t, env.with(d), d), env, emit)
	case *SQ:
		if t.Mat {
			m.Unsure = true
			return
		}
		d := m.eagerArgs(env, f.Args)
		m.defaults(env, t.Params, d)
		e2 := env.fresh()
		for _, k := range d.Keys {
			d.M[k] = m.materialized(d.M[k], e2)
		}
		m.Select(t.Q, e2.with(d), emit)
	default:
		m.log("ERROR:not callable as a plugin")
	}
}

func dictOf(v V) *D {
	if d, ok := v.(*D); ok {
		return d
	}
	return NewD()
}

func colName(c Col) string {
	if c.As != "" {
		return c.As
	}
	if c.E != nil {
		return ExprText(c.E)
	}
	panic("unnamed column")
}

type rowT struct {
	keys []string
	get  map[string]*Thunk
}

// transform builds the lazy output row.
func (m *Model) transform(s *Select, env *Env, row V) *rowT {
	out := &rowT{get: map[string]*Thunk{}}
	add := func(k string, t *Thunk) {
		if _, ok := out.get[k]; !ok {
			out.keys = append(out.keys, k)
		}
		out.get[k] = t
	}
	rd := dictOf(row)
	renv := env.with(rd)
	explicit := map[string]bool{}
	for _, c := range s.Cols {
		if !c.Star {
			explicit[colName(c)] = true
		}
	}
	for _, c := range s.Cols {
		if c.Star {
			for _, k := range rd.Keys {
				if !explicit[k] {
					add(k, &Thunk{done: true, v: rd.M[k]})
				}
			}
			continue
		}
		c := c
		add(colName(c), &Thunk{f: func() V {
			if c.Sub != nil {
				return m.subselect(c.Sub, renv)
			}
			return m.materialized(m.Eval(c.E, renv), renv)
		}})
	}
	return out
}

func (m *Model) subselect(s *Select, env *Env) V {
	rows := []V{}
	m.Select(s, env, func(r V) bool {
		d, ok := r.(*D)
		if ok && len(d.Keys) == 1 {
			rows = append(rows, d.M[d.Keys[0]])
		} else {
			rows = append(rows, r)
		}
		return true
	})
	if len(rows) == 1 {
		return rows[0]
	}
	if len(rows) == 0 {
		return emptySub{}
	}
	return rows
}

// emptySub is the value of a sub-query column without rows.  It is shown as NULL but the library treats it as an empty
// list in operators; no property says which, so reading it makes the outcome undefined.
type emptySub struct{}

func (m *Model) finish(r *rowT) *D {
	d := NewD()
	for _, k := range r.keys {
		v := r.get[k].get()
		if v == nil {
			v = Null{}
		}
		d.Set(k, v)
	}
	return d
}

// Select evaluates a query.
func (m *Model) Select(s *Select, env *Env, emit func(V) bool) {
	if s.Limit != nil {
		n := *s.Limit
		if n <= 0 {
			return
		}
		c := *s
		c.Limit = nil
		m.Select(&c, env, func(r V) bool {
			n--
			if !emit(r) {
				return false
			}
			return n > 0
		})
		return
	}
	if s.OrderBy != "" {
		c := *s
		c.OrderBy = ""
		var rows []V
		m.Select(&c, env, func(r V) bool { rows = append(rows, r); return true })
		key := func(r V) V {
			d, ok := r.(*D)
			if !ok {
				return Null{}
			}
			v, ok := d.M[s.OrderBy]
			if !ok {
				return Null{}
			}
			return v
		}
		less := func(a, b V) bool {
			if isNull(a) || isNull(b) {
				return isNull(a) && !isNull(b)
			}
			l, ok := ltV(a, b)
			if !ok {
				m.Unsure = true
			}
			return l
		}
		sort.SliceStable(rows, func(i, j int) bool {
			a, b := key(rows[i]), key(rows[j])
			if s.Desc {
				return less(b, a)
			}
			return less(a, b)
		})
		for i := 1; i < len(rows); i++ {
			a, b := key(rows[i-1]), key(rows[i])
			if !less(a, b) && !less(b, a) && canonM(rows[i-1]) != canonM(rows[i]) {
				m.Ties = true // the order of these rows is not determined
			}
		}
		for _, r := range rows {
			if !emit(r) {
				if m.Ties {
					m.Unsure = true
				}
				return
			}
		}
		return
	}
	if len(s.GroupBy) > 0 {
		m.group(s, env, emit)
		return
	}
	m.from(&s.From, env, func(row V) bool {
		r := m.transform(s, env, row)
		if s.Where != nil {
			wenv := env.with(dictOf(row))
			wenv = &Env{parent: wenv, get: func(n string) (V, bool) {
				t, ok := r.get[n]
				if !ok {
					return nil, false
				}
				return t.get(), true
			}}
			if !m.truth(wenv, m.Eval(s.Where, wenv)) {
				return true
			}
		}
		return emit(m.finish(r))
	})
}

func (m *Model) group(s *Select, env *Env, emit func(V) bool) {
	type bin struct {
		agg *aggCtx
		row *D
	}
	bins := map[string]*bin{}
	loose := map[string]string{}
	var order []string
	m.from(&s.From, env, func(row V) bool {
		genv := env.with(dictOf(row)) // the aggregate context of the bin is set on this frame
		r := m.transform(s, genv, row)
		wenv := &Env{parent: genv, get: func(n string) (V, bool) {
			t, ok := r.get[n]
			if !ok {
				return nil, false
			}
			return t.get(), true
		}}
		if s.Where != nil && !m.truth(wenv, m.Eval(s.Where, wenv)) {
			return true
		}
		var key string
		if len(s.GroupBy) == 1 {
			key = canonM(m.materialized(m.Eval(s.GroupBy[0], wenv), wenv))
		} else {
			for _, g := range s.GroupBy {
				key += canonM(m.materialized(m.Eval(g, wenv), wenv)) + "\x00"
			}
		}
		lk := looseKey(key)
		if prev, ok := loose[lk]; ok && prev != key {
			m.Unsure = true // 1, 1.0 and TRUE: equal but of different types
		}
		loose[lk] = key
		b, ok := bins[key]
		if !ok {
			b = &bin{agg: &aggCtx{m: map[*CallE]V{}}}
			bins[key] = b
			order = append(order, key)
		}
		genv.agg = b.agg
		b.row = m.finish(r)
		return true
	})
	for _, k := range order {
		if !emit(bins[k].row) {
			return
		}
	}
}

// Exec runs a statement against a growing environment and returns rows for queries.
func (m *Model) Exec(s *Stmt, vars *D, env *Env) []V {
	if s.Let == "" {
		var rows []V
		m.Select(s.Q, env.sub(), func(r V) bool { rows = append(rows, r); return len(rows) < 100000 })
		return rows
	}
	switch {
	case s.E != nil && s.Op == "=":
		vars.Set(s.Let, &SE{E: s.E, Name: s.Let, Params: s.Params})
	case s.E != nil:
		v := m.Eval(s.E, env)
		switch t := v.(type) {
		case *SQ, *CallSite:
			var rows []V
			m.rows(t, env, func(r V) bool { rows = append(rows, r); return true })
			v = &SQ{Rows: rows, Mat: true, Name: s.Let}
		}
		vars.Set(s.Let, v)
	case s.Op == "=":
		vars.Set(s.Let, &SQ{Q: s.Q, Name: s.Let, Params: s.Params})
	default:
		var rows []V
		m.Select(s.Q, env, func(r V) bool { rows = append(rows, r); return true })
		vars.Set(s.Let, &SQ{Rows: rows, Mat: true, Name: s.Let})
	}
	return nil
}

func (e *Env) sub() *Env { return &Env{parent: e} }

// ---------------------------------------------------------------- canonical text of values

func fstr(f float64) string {
	if math.IsNaN(f) {
		return "f:nan"
	}
	return fmt.Sprintf("f:%v", f)
}

func canonM(v V) string {
	switch t := v.(type) {
	case nil, Null, emptySub:
		return "null"
	case bool:
		return fmt.Sprint(t)
	case int64:
		return fmt.Sprintf("i:%d", t)
	case float64:
		return fstr(t)
	case string:
		return fmt.Sprintf("%q", t)
	case time.Time:
		return canonE(t)
	case []V:
		var out []string
		for _, x := range t {
			out = append(out, canonM(x))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case *D:
		var out []string
		for _, k := range t.Keys {
			out = append(out, fmt.Sprintf("%q: %s", k, canonM(t.M[k])))
		}
		return "{" + strings.Join(out, ", ") + "}"
	case *Thunk:
		return canonM(t.get())
	}
	return fmt.Sprintf("?%T", v)
}

// looseKey identifies numbers and booleans which are equal in value.
func looseKey(k string) string {
	return looseRe.ReplaceAllStringFunc(k, func(s string) string {
		switch {
		case s == "true":
			return "#1"
		case s == "false":
			return "#0"
		case strings.HasPrefix(s, "\""):
			return s
		}
		var f float64
		fmt.Sscan(s[2:], &f)
		return fmt.Sprintf("#%v", f)
	})
}

var looseRe = regexp.MustCompile("\"(?:[^\"\\\\]|\\\\.)*\"|[if]:[-+0-9.e]+|true|false")
