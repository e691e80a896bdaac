package main

import (
	"regexp"
	"strconv"
	"strings"
)

// Reference behaviour of the built-in functions and plugins.

func (m *Model) deep(v V, env *Env) V {
	switch t := m.materialized(v, env).(type) {
	case []V:
		out := []V{}
		for _, x := range t {
			out = append(out, m.deep(x, env))
		}
		return out
	case *D:
		d := NewD()
		for _, k := range t.Keys {
			d.Set(k, m.deep(t.M[k], env))
		}
		return d
	case *SE:
		return m.deep(m.reduceSE(t, env, nil), env)
	default:
		return t
	}
}

func builtinModel(m *Model) {
	arg := func(args map[string]*Thunk, n string) V {
		t, ok := args[n]
		if !ok {
			return nil
		}
		v := t.get()
		if v == nil {
			return Null{}
		}
		return v
	}
	m.Funcs["dict"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		d := NewD()
		for _, k := range order {
			d.Set(k, m.deep(arg(args, k), env))
		}
		return d
	}
	m.Funcs["probe"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		id, _ := m.force(arg(args, "id")).(string)
		m.Calls[id]++
		v := arg(args, "v")
		if v == nil {
			return Null{}
		}
		return v
	}
	m.Funcs["pick"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		use, _ := m.force(arg(args, "use")).(string)
		if use == "a" || use == "b" {
			if v := arg(args, use); v != nil {
				return v
			}
		}
		return Null{}
	}
	m.Funcs["allrows"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		out := []V{}
		m.table(arg(args, "query"), env, func(r V) bool { out = append(out, m.deep(r, env)); return true })
		return out
	}
	m.Funcs["if"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		c := arg(args, "condition")
		if c == nil {
			m.log("if: missing")
			return Null{}
		}
		n := "else"
		if m.truth(env, c) {
			n = "then"
		}
		v := arg(args, n)
		if v == nil {
			return Null{}
		}
		return v
	}
	m.Funcs["len"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		switch t := m.materialized(arg(args, "list"), env).(type) {
		case string:
			return int64(len(t))
		case []V:
			return int64(len(t))
		case *D:
			return int64(len(t.Keys))
		case nil, Null:
			return int64(0)
		}
		return int64(0)
	}
	m.Funcs["split"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		s, ok := m.force(arg(args, "string")).(string)
		if !ok {
			m.Unsure = true
			return Null{}
		}
		var parts []string
		if sep, _ := m.force(arg(args, "sep")).(string); sep != "" {
			re, err := regexp.Compile(sep)
			if err != nil {
				m.log("split: %v", err)
				return Null{}
			}
			parts = re.Split(s, -1)
		} else if sep, _ := m.force(arg(args, "sep_string")).(string); sep != "" {
			parts = strings.Split(s, sep)
		} else {
			m.log("split: requires sep")
			return Null{}
		}
		out := []V{}
		for _, p := range parts {
			out = append(out, p)
		}
		return out
	}
	m.Funcs["get"] = func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
		mem, ok := m.force(arg(args, "member")).(string)
		if !ok {
			m.Unsure = true
			return Null{}
		}
		it := arg(args, "item")
		parts := strings.Split(mem, ".")
		if it == nil {
			v, ok := env.lookup(parts[0])
			if !ok {
				return Null{}
			}
			it = v
			parts = parts[1:]
		}
		for _, p := range parts {
			var ok bool
			if i, err := strconv.Atoi(p); err == nil {
				it, ok = m.assoc(env, it, int64(i))
			} else {
				it, ok = m.assoc(env, it, p)
			}
			if !ok {
				return Null{}
			}
		}
		return it
	}
	agg := func(f func(m *Model, env *Env, prev V, pres bool, args map[string]*Thunk) V) MFunc {
		return func(m *Model, env *Env, call *CallE, args map[string]*Thunk, order []string) V {
			ctx := env.aggregates()
			prev, pres := ctx.m[call]
			v := f(m, env, prev, pres, args)
			ctx.m[call] = v
			return v
		}
	}
	m.Funcs["count"] = agg(func(m *Model, env *Env, prev V, pres bool, args map[string]*Thunk) V {
		if !pres {
			return int64(1)
		}
		return prev.(int64) + 1
	})
	m.Funcs["sum"] = agg(func(m *Model, env *Env, prev V, pres bool, args map[string]*Thunk) V {
		n, ok := m.force(arg(args, "item")).(int64)
		if !ok {
			m.Unsure = true
			return Null{}
		}
		if !pres {
			return n
		}
		p, _ := prev.(int64)
		return p + n
	})
	mm := func(max bool) MFunc {
		return agg(func(m *Model, env *Env, prev V, pres bool, args map[string]*Thunk) V {
			v := m.force(arg(args, "item"))
			if isNull(v) {
				m.Unsure = true
				return Null{}
			}
			if !pres {
				return v
			}
			lt, ok := ltV(v, prev)
			if max {
				lt, ok = ltV(prev, v)
			}
			if !ok {
				m.Unsure = true
			}
			if lt {
				return v
			}
			return prev
		})
	}
	m.Funcs["min"] = mm(false)
	m.Funcs["max"] = mm(true)
	m.Funcs["enumerate"] = agg(func(m *Model, env *Env, prev V, pres bool, args map[string]*Thunk) V {
		v := m.deep(arg(args, "items"), env)
		p, _ := prev.([]V)
		return append(append([]V{}, p...), v)
	})

	margs := func(m *Model, env *Env, args []Arg) map[string]V {
		out := map[string]V{}
		for _, a := range args {
			if _, ok := out[a.Name]; !ok {
				out[a.Name] = m.argValue(env, a)
			}
		}
		return out
	}
	m.Plugins["range"] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
		a := margs(m, env, args)
		get := func(n string, def int64) int64 {
			v, ok := a[n]
			if !ok {
				return def
			}
			i, ok := m.force(v).(int64)
			if !ok {
				m.Unsure = true
			}
			return i
		}
		start, end, step := get("start", 0), get("end", 0), get("step", 1)
		if step == 0 {
			step = 1
		}
		if step < 0 {
			m.Unsure = true
			return
		}
		for i := start; i < end; i += step {
			if !emit(NewD().Set("_value", i)) {
				return
			}
		}
	}
	m.Plugins["if"] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
		a := margs(m, env, args)
		b := "else"
		if m.truth(env, a["condition"]) {
			b = "then"
		}
		if v, ok := a[b]; ok {
			m.table(v, env, emit)
		}
	}
	m.Plugins["chain"] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
		a := margs(m, env, args)
		done := map[string]bool{}
		for _, x := range args {
			if done[x.Name] {
				continue
			}
			done[x.Name] = true
			go_on := true
			m.table(a[x.Name], env, func(r V) bool { go_on = emit(r); return go_on })
			if !go_on {
				return
			}
		}
	}
	m.Plugins["foreach"] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
		a := margs(m, env, args)
		col, _ := m.force(a["column"]).(string)
		m.iterate(a["row"], env, func(r V) bool {
			if col != "" {
				v, ok := m.assoc(env, r, col)
				if !ok {
					v = Null{}
				}
				r = v
			}
			q, ok := a["query"]
			if !ok {
				return emit(r)
			}
			go_on := true
			m.table(q, env.with(dictOf(r)), func(x V) bool { go_on = emit(x); return go_on })
			return go_on
		})
	}
	m.Plugins["flatten"] = func(m *Model, env *Env, args []Arg, emit func(V) bool) {
		a := margs(m, env, args)
		m.table(a["query"], env, func(r V) bool {
			d, ok := r.(*D)
			if !ok {
				m.Unsure = true
				return false
			}
			// last column outermost
			var rec func(d *D, i int) bool
			rec = func(d *D, i int) bool {
				if i < 0 {
					return emit(d)
				}
				k := d.Keys[i]
				n := 0
				on := true
				m.iterate(d.M[k], env, func(x V) bool {
					n++
					if xd, ok := x.(*D); ok {
						if v, ok := xd.M["_value"]; ok {
							x = v
						}
					}
					c := d.Copy()
					c.M[k] = x
					on = rec(c, i-1)
					return on
				})
				if n == 0 {
					return rec(d, i-1)
				}
				return on
			}
			return rec(d, len(d.Keys)-1)
		})
	}
}

// table: what a plugin sees for a query typed argument.
func (m *Model) table(v V, env *Env, emit func(V) bool) {
	switch m.force(v).(type) {
	case *SQ, *CallSite, *SE:
		m.rows(v, env, emit)
		return
	}
	m.iterate(v, env, emit)
}

// iterate: what foreach and flatten see for a value.
func (m *Model) iterate(v V, env *Env, emit func(V) bool) {
	switch t := m.force(v).(type) {
	case nil, Null:
	case *SQ, *CallSite:
		m.rows(t, env, emit)
	case *SE:
		m.iterate(m.reduceSE(t, env, nil), env, emit)
	case []V:
		for _, x := range t {
			if isNull(x) {
				continue
			}
			if _, ok := x.(*D); !ok {
				x = NewD().Set("_value", x)
			}
			if !emit(x) {
				return
			}
		}
	case *D:
		emit(t)
	default:
		emit(NewD().Set("_value", t))
	}
}
