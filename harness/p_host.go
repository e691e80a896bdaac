package main

import (
	"context"
	"fmt"
	"log"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/aggregators"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

// C37: introspection tells the truth about what is registered.
// C38: the services a host sets on a scope are the ones used.

func init() {
	register(&Property{ID: "C37",
		Rule: "Random functions and plugins (names with parts in common with the built-in ones, replaced registrations, versions, metadata, documentation, argument structs built at random with reflect.StructOf over field kinds, list and pointer layers, tags with and without name) are registered on random members of scope families; Describe, GetSimilarPlugins, GetFunction, GetPlugin and version() on every member are compared with the registrations, and the described arguments with what the argument parser accepts for the same struct. Non-trivial: distinct registries and argument structs.",
		Groups: []Group{
			{"registry", 1500, 40000, c37registry},
			{"arguments", 3000, 80000, c37arguments},
			{"builtins", 40, 400, c37builtins},
		}})
	register(&Property{ID: "C38",
		Rule: "Hosts install their own sorter (a content-determined permutation), grouper (written against the actor interface only), materializer (tagging rows), logger and tracer, and context values on random members of scope families. Queries needing each service, directly and nested in definitions, arguments and sub-queries, are run and compared with the same queries without the clause put through the service by the monitor; recorded service calls must carry the query's key, direction, name and rows; each log line must reach exactly the logger of its family with its level. Non-trivial: distinct queries and families.",
		Groups: []Group{
			{"sorter", 2500, 60000, c38sorter},
			{"grouper", 2500, 60000, c38grouper},
			{"materializer", 2000, 50000, c38materializer},
			{"families", 2000, 50000, c38families},
		}})
}

func (c *Case) infoStruct() (reflect.Type, []want37) {
	var fields []reflect.StructField
	var want []want37
	n := c.R.Intn(7)
	if c.R.Intn(12) == 0 {
		n = 8 + c.R.Intn(30)
	}
	base := []struct {
		t    reflect.Type
		name string
		rep  bool
	}{
		{reflect.TypeOf(""), "string", false},
		{reflect.TypeOf(int64(0)), "int64", false},
		{reflect.TypeOf(uint64(0)), "uint64", false},
		{reflect.TypeOf(float64(0)), "float64", false},
		{reflect.TypeOf(true), "bool", false},
		{reflect.TypeOf([]string{}), "string", true},
		{reflect.TypeOf([]int64{}), "int64", true},
		{reflect.TypeOf((*types.Any)(nil)).Elem(), "types.Any", false},
		{reflect.TypeOf((*types.LazyExpr)(nil)).Elem(), "types.LazyExpr", false},
		{reflect.TypeOf((*types.StoredQuery)(nil)).Elem(), "types.StoredQuery", false},
		{reflect.TypeOf(&ordereddict.Dict{}), "ordereddict.Dict", false},
	}
	for i := 0; i < n; i++ {
		b := base[c.R.Intn(len(base))]
		w := want37{name: fmt.Sprintf("F%d", i), target: b.name, repeated: b.rep}
		f := reflect.StructField{Name: w.name, Type: b.t}
		w.field = w.name
		switch c.R.Intn(6) {
		case 0: // no tag: not an argument, but still a described field
		default:
			w.name = c.one("arg", "Field", "_u", "x9", "long_name_of_arg", "a") + c.one("", "_", "A") + fmt.Sprint(i)
			w.tag = c.one("field="+w.name, "optional,field="+w.name, "required,field="+w.name,
				"field="+w.name+",doc=What it is", "required,field="+w.name+",doc=A thing: 'quoted' and (more)",
				"optional,field="+w.name+",doc=Some values, e.g. [1]", "optional,lazy,field="+w.name, "doc=A list,field="+w.name)
			w.arg = true
			w.required = strings.Contains(w.tag, "required")
			f.Tag = reflect.StructTag(fmt.Sprintf("vfilter:%q", w.tag))
			if c.R.Intn(4) == 0 {
				f.Tag = reflect.StructTag(fmt.Sprintf("json:\"j%d\" vfilter:%q", i, w.tag))
			}
		}
		fields = append(fields, f)
		want = append(want, w)
	}
	return reflect.StructOf(fields), want
}

type want37 struct {
	field, name, target, tag string
	repeated, arg, required  bool
}

func (w want37) String() string {
	return fmt.Sprintf("%s: target %s repeated %v tag %q", w.name, w.target, w.repeated, w.tag)
}

// describedFields checks what the type map says about an argument struct.
func describedFields(scope types.Scope, tm *types.TypeMap, name string, want []want37) string {
	desc, ok := tm.Get(scope, name)
	if !ok || desc == nil {
		return fmt.Sprintf("the type map has no %q", name)
	}
	var a, b []string
	for _, w := range want {
		a = append(a, w.String())
	}
	for _, k := range desc.Fields.Keys() {
		v, _ := desc.Fields.Get(k)
		r, ok := v.(*types.TypeReference)
		if !ok {
			return fmt.Sprintf("field %s is described by a %T", k, v)
		}
		b = append(b, want37{name: k, target: r.Target, tag: r.Tag, repeated: r.Repeated}.String())
	}
	return diffRows(a, b)
}

type reg37 struct {
	doc     string
	version int
	meta    *ordereddict.Dict
	args    reflect.Type
	want    []want37
	agg     bool
	free    bool
}

// plugin37 is a plugin of the host with its own description.
type plugin37 struct {
	info types.PluginInfo
	args types.Any
}

func (p *plugin37) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
	out := make(chan types.Row)
	close(out)
	return out
}
func (p *plugin37) Info(scope types.Scope, tm *types.TypeMap) *types.PluginInfo {
	info := p.info
	if p.args != nil {
		info.ArgType = tm.AddType(scope, p.args)
	}
	return &info
}

func c37registry(c *Case) {
	type fam struct{ f, p map[string]*reg37 }
	type mem struct {
		s    types.Scope
		fam  *fam
		name string
	}
	base := vfilter.NewScope()
	f0 := &fam{map[string]*reg37{}, map[string]*reg37{}}
	all := []*mem{{base, f0, "s0"}}
	defer func() {
		for _, m := range all {
			m.s.Close()
		}
	}()
	builtin := base.Describe(types.NewTypeMap())
	for _, i := range builtin.Functions {
		f0.f[i.Name] = nil
	}
	for _, i := range builtin.Plugins {
		f0.p[i.Name] = nil
	}
	if len(f0.f) != len(builtin.Functions) || len(f0.p) != len(builtin.Plugins) {
		c.Fail("a new scope describes some built-in twice")
		return
	}
	var steps []string
	parts := []string{"info", "hash", "glob", "for", "each", "a", "Artifact", "if", "range", "parse", "csv", "x"}
	newName := func() string {
		k := 1 + c.R.Intn(3)
		var p []string
		for i := 0; i < k; i++ {
			p = append(p, c.one(parts...))
		}
		return strings.Join(p, "_")
	}
	newReg := func() *reg37 {
		r := &reg37{doc: c.one("", "Does a thing.", "Line one\nline two", "ünï 'quoted' \"doc\" %s %d"), version: c.R.Intn(4), agg: c.R.Intn(2) == 0, free: c.R.Intn(2) == 0}
		if c.R.Intn(2) == 0 {
			r.meta = ordereddict.NewDict().Set("permissions", c.one("READ", "EXEC,READ")).Set("n", c.R.Intn(5))
		}
		if c.R.Intn(3) != 0 {
			r.args, r.want = c.infoStruct()
		}
		return r
	}
	k := 3 + c.R.Intn(10)
	if c.R.Intn(20) == 0 {
		k = 60 + c.R.Intn(60)
	}
	var used []string
	for i := 0; i < k; i++ {
		m := all[c.R.Intn(len(all))]
		switch c.R.Intn(8) {
		case 0:
			n := &mem{m.s.Copy(), m.fam, fmt.Sprintf("s%d", len(all))}
			all = append(all, n)
			steps = append(steps, n.name+" = "+m.name+".Copy()")
		case 1:
			nf := &fam{map[string]*reg37{}, map[string]*reg37{}}
			for a, b := range m.fam.f {
				nf.f[a] = b
			}
			for a, b := range m.fam.p {
				nf.p[a] = b
			}
			n := &mem{m.s.NewScope(), nf, fmt.Sprintf("s%d", len(all))}
			all = append(all, n)
			steps = append(steps, n.name+" = "+m.name+".NewScope()")
		default:
			name := newName()
			if len(used) > 0 && c.R.Intn(4) == 0 {
				name = used[c.R.Intn(len(used))] // replaced
			}
			used = append(used, name)
			r := newReg()
			var args types.Any
			if r.args != nil {
				args = reflect.New(r.args).Interface()
				if c.R.Intn(3) == 0 {
					args = reflect.New(r.args).Elem().Interface()
				}
			}
			if c.R.Intn(2) == 0 {
				r.agg, r.free = false, false
				m.s.AppendFunctions(vfilter.GenericFunction{FunctionName: name, Doc: r.doc, Version: r.version, Metadata: r.meta, ArgType: args,
					Function: func(context.Context, types.Scope, *ordereddict.Dict) types.Any { return 1 }})
				m.fam.f[name] = r
				steps = append(steps, fmt.Sprintf("%s: function %s version %d args %v", m.name, name, r.version, r.want))
			} else if c.R.Intn(2) == 0 {
				r.version = 0 // has none
				r.free = false
				m.s.AppendPlugins(vfilter.GenericListPlugin{PluginName: name, Doc: r.doc, Metadata: r.meta, ArgType: args,
					Function: func(context.Context, types.Scope, *ordereddict.Dict) []types.Row { return nil }})
				m.fam.p[name] = r
				steps = append(steps, fmt.Sprintf("%s: plugin %s args %v", m.name, name, r.want))
			} else {
				m.s.AppendPlugins(&plugin37{types.PluginInfo{Name: name, Doc: r.doc, Version: r.version, Metadata: r.meta, FreeFormArgs: r.free}, args})
				m.fam.p[name] = r
				steps = append(steps, fmt.Sprintf("%s: own plugin %s version %d args %v", m.name, name, r.version, r.want))
			}
		}
	}
	c.Desc("%s", strings.Join(steps, "\n"))
	c.Eval(1)
	for _, m := range all {
		tm := types.NewTypeMap()
		info := m.s.Describe(tm)
		if info == nil {
			c.Fail("Describe of %s is nil", m.name)
			return
		}
		seen := map[string]bool{}
		for _, i := range info.Functions {
			r, ok := m.fam.f[i.Name]
			if !ok || seen[i.Name] {
				c.Fail("function %s in %s: registered %v, described before %v", i.Name, m.name, ok, seen[i.Name])
				return
			}
			seen[i.Name] = true
			if r == nil {
				continue
			}
			if i.Doc != r.doc || i.Version != r.version || i.Metadata != r.meta || i.IsAggregate != r.agg || i.FreeFormArgs != r.free || (i.ArgType == "") != (r.args == nil) {
				c.Fail("function %s in %s is described as %+v, registered as %+v", i.Name, m.name, *i, *r)
				return
			}
			if r.args != nil {
				if d := describedFields(m.s, tm, i.ArgType, r.want); d != "" {
					c.Fail("arguments of function %s in %s (type %s): %s", i.Name, m.name, i.ArgType, d)
					return
				}
			}
		}
		if len(seen) != len(m.fam.f) {
			c.Fail("%s describes %d functions of %d", m.name, len(seen), len(m.fam.f))
			return
		}
		seen = map[string]bool{}
		for _, i := range info.Plugins {
			r, ok := m.fam.p[i.Name]
			if !ok || seen[i.Name] {
				c.Fail("plugin %s in %s: registered %v, described before %v", i.Name, m.name, ok, seen[i.Name])
				return
			}
			seen[i.Name] = true
			if r == nil {
				continue
			}
			if i.Doc != r.doc || i.Version != r.version || i.Metadata != r.meta || i.FreeFormArgs != r.free || (i.ArgType == "") != (r.args == nil) {
				c.Fail("plugin %s in %s is described as %+v, registered as %+v", i.Name, m.name, *i, *r)
				return
			}
			if r.args != nil {
				if d := describedFields(m.s, tm, i.ArgType, r.want); d != "" {
					c.Fail("arguments of plugin %s in %s (type %s): %s", i.Name, m.name, i.ArgType, d)
					return
				}
			}
		}
		if len(seen) != len(m.fam.p) {
			c.Fail("%s describes %d plugins of %d", m.name, len(seen), len(m.fam.p))
			return
		}
		c.Count("descriptions", len(info.Functions)+len(info.Plugins))

		// version()
		for i := 0; i < 6; i++ {
			name := newName()
			if len(used) > 0 && i < 4 {
				name = used[c.R.Intn(len(used))]
			}
			kind, reg := "function", m.fam.f
			if c.R.Intn(2) == 0 {
				kind, reg = "plugin", m.fam.p
			}
			r, ok := reg[name]
			want := "null"
			if ok && r != nil {
				want = fmt.Sprintf("i:%d", r.version)
			} else if ok {
				continue
			}
			text := fmt.Sprintf("SELECT version(%s=%s) AS v FROM scope()", kind, quoteStr(name, 39))
			if got := strings.Join(drain(context.Background(), m.s, mustParse(text)[0]), " "); got != `{"v": `+want+"}" {
				c.Fail("%s in %s gives %s, want %s", text, m.name, got, want)
				return
			}
			_, pf := m.s.GetFunction(name)
			_, pp := m.s.GetPlugin(name)
			_, wf := m.fam.f[name]
			_, wp := m.fam.p[name]
			if pf != wf || pp != wp {
				c.Fail("%s in %s: function %v (want %v), plugin %v (want %v)", name, m.name, pf, wf, pp, wp)
				return
			}
			// suggestions
			near := newName()
			if c.R.Intn(2) == 0 {
				near = name + c.one("s", "", "_zz", "_a")
			}
			var sim []string
			for p := range m.fam.p {
				for _, part := range strings.Split(near, "_") {
					if strings.Contains(p, part) {
						sim = append(sim, p)
						break
					}
				}
			}
			sort.Strings(sim)
			if got := m.s.GetSimilarPlugins(near); strings.Join(got, " ") != strings.Join(sim, " ") {
				c.Fail("GetSimilarPlugins(%q) in %s gives %v, want %v", near, m.name, got, sim)
				return
			}
			c.Count("lookups", 2)
		}
	}
	c.Seen(fmt.Sprint(len(steps), len(all), hash64(strings.Join(steps, "\n"))))
	if c.Index < 2 {
		c.Sample("%s", strings.Join(steps[:1+len(steps)/2], "; "))
	}
}

// c37arguments: what is described is what the parser accepts.
func c37arguments(c *Case) {
	t, want := c.infoStruct()
	scope := vfilter.NewScope()
	defer scope.Close()
	c.Desc("type %v", t)
	c.Eval(1)
	tm := types.NewTypeMap()
	arg := reflect.New(t).Interface()
	if c.R.Intn(2) == 0 {
		arg = reflect.New(t).Elem().Interface()
	}
	name := tm.AddType(scope, arg)
	if again := tm.AddType(scope, arg); again != name {
		c.Fail("the same type is called %q and %q", name, again)
		return
	}
	if d := describedFields(scope, tm, name, want); d != "" {
		c.Fail("described fields: %s", d)
		return
	}
	values := map[string]types.Any{"string": "s", "int64": int64(3), "uint64": uint64(4), "float64": 1.5, "bool": true,
		"types.Any": int64(1), "types.LazyExpr": int64(1), "types.StoredQuery": []types.Any{}, "ordereddict.Dict": ordereddict.NewDict().Set("a", 1)}
	full := ordereddict.NewDict()
	for _, w := range want {
		if w.arg {
			v := values[w.target]
			if w.repeated {
				if w.target == "string" {
					v = []string{"x"}
				} else {
					v = []types.Any{int64(1)}
				}
			}
			full.Set(w.name, v)
		}
	}
	if intLists := strings.Contains(fmt.Sprint(t), "[]int64"); intLists {
		c.Count("skipped", 1) // not a kind of argument the parser knows
	} else {
		if err := arg_parser.ExtractArgsWithContext(context.Background(), scope, full, reflect.New(t).Interface()); err != nil {
			c.Fail("all the described arguments (%v) are refused: %v", full, err)
			return
		}
		extra := c.one("zz", "F0", "Arg", "arg", "vfilter")
		if _, taken := full.Get(extra); !taken {
			d := ordereddict.NewDict()
			for _, k := range full.Keys() {
				v, _ := full.Get(k)
				d.Set(k, v)
			}
			d.Set(extra, "1")
			if err := arg_parser.ExtractArgsWithContext(context.Background(), scope, d, reflect.New(t).Interface()); err == nil {
				c.Fail("%s is accepted but not described", extra)
				return
			}
		}
		for _, w := range want {
			if !w.arg {
				continue
			}
			d := ordereddict.NewDict()
			for _, k := range full.Keys() {
				if k != w.name {
					v, _ := full.Get(k)
					d.Set(k, v)
				}
			}
			err := arg_parser.ExtractArgsWithContext(context.Background(), scope, d, reflect.New(t).Interface())
			if (err != nil) != w.required {
				c.Fail("without %s (tag %q): %v", w.name, w.tag, err)
				return
			}
			c.Count("arguments", 1)
		}
	}
	c.Seen(fmt.Sprint(t))
}

// c37builtins: the built-in functions and plugins describe themselves.
func c37builtins(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	s := types.Scope(scope)
	where := "NewScope()"
	for i := c.R.Intn(4); i > 0; i-- {
		if c.R.Intn(2) == 0 {
			s = s.Copy()
			where += ".Copy()"
		} else {
			s = s.NewScope()
			where += ".NewScope()"
		}
	}
	defer s.Close()
	var logs []string
	var mu sync.Mutex
	s.SetLogger(log.New(&lineWriter{func(l string) { mu.Lock(); logs = append(logs, l); mu.Unlock() }}, "", 0))
	c.Desc("built-ins of %s", where)
	c.Eval(1)
	tm := types.NewTypeMap()
	info := s.Describe(tm)
	have := map[string]bool{}
	for _, f := range info.Functions {
		have["function "+f.Name] = true
		if f.ArgType != "" {
			if d, ok := tm.Get(s, f.ArgType); !ok || d == nil {
				c.Fail("function %s: the type map has no %q", f.Name, f.ArgType)
				return
			}
		}
		if got, ok := s.GetFunction(f.Name); !ok || got.Info(s, nil).Name != f.Name {
			c.Fail("function %s is described but not found", f.Name)
			return
		}
	}
	for _, p := range info.Plugins {
		have["plugin "+p.Name] = true
		if p.ArgType != "" {
			if d, ok := tm.Get(s, p.ArgType); !ok || d == nil {
				c.Fail("plugin %s: the type map has no %q", p.Name, p.ArgType)
				return
			}
		}
		if got, ok := s.GetPlugin(p.Name); !ok || got.Info(s, nil).Name != p.Name {
			c.Fail("plugin %s is described but not found", p.Name)
			return
		}
	}
	for _, name := range strings.Fields("dict timestamp split get set if encode len scope count min max sum enumerate format version") {
		if !have["function "+name] && name != "set" {
			c.Fail("function %s is not described", name)
			return
		}
	}
	for _, name := range strings.Fields("if flatten chain foreach range scope") {
		if !have["plugin "+name] && name != "scope" {
			c.Fail("plugin %s is not described", name)
			return
		}
	}
	// The described arguments are the accepted ones.
	for _, f := range info.Functions {
		if f.ArgType == "" || f.FreeFormArgs {
			continue
		}
		d, _ := tm.Get(s, f.ArgType)
		for _, arg := range append(d.Fields.Keys(), "no_such_arg") {
			logs = nil
			for range drain(context.Background(), s, mustParse("SELECT " + f.Name + "(`" + arg + "`='1') AS v FROM scope()")[0]) {
			}
			mu.Lock()
			text := strings.Join(logs, "\n")
			mu.Unlock()
			if arg != "no_such_arg" && strings.Contains(text, "Unexpected arg "+arg) {
				c.Fail("function %s describes the argument %s but refuses it: %s", f.Name, arg, text)
				return
			}
			c.Count("built-in arguments", 1)
		}
	}
	c.Seen(where)
}

// --- C38

type query38 struct {
	text   string // with the service
	plain  string // without ORDER BY and LIMIT
	key    string
	desc   bool
	limit  int
	host   *Host
	groups string
}

func (c *Case) table38() (*Host, []string) {
	h := NewHost()
	names := []string{"a", "b", c.one("k", "long name", "select", "x.y", "K", "ü")}
	n := c.R.Intn(9)
	if c.R.Intn(15) == 0 {
		n = 30 + c.R.Intn(100)
	}
	var rows []V
	for i := 0; i < n; i++ {
		d := NewD()
		for _, k := range names {
			d.Set(k, V([]V{int64(c.R.Intn(5)), fmt.Sprintf("s%d", c.R.Intn(3)), float64(c.R.Intn(4)) + 0.5, int64(c.R.Intn(1000))}[c.R.Intn(4)]))
		}
		d.Set("id", int64(i))
		rows = append(rows, d)
	}
	h.Tables["t"] = rows
	h.Kind["t"] = c.one("", "", "map", "dict")
	h.Kind["t"] = ""
	return h, append(names, "id")
}

func quoteName(n string) string { return "`" + n + "`" }

// permute is what the host's sorter does.
func permute(rows []string, salt string) []int {
	idx := make([]int, len(rows))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(i, j int) bool { return hash64(salt+rows[idx[i]]) < hash64(salt+rows[idx[j]]) })
	return idx
}

type sortCall struct {
	key  string
	desc bool
	rows int
	id   string
}

type sorter38 struct {
	mu    sync.Mutex
	calls []sortCall
	id    string
}

func (s *sorter38) Sort(ctx context.Context, scope types.Scope, input <-chan types.Row, key string, desc bool) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		var rows []types.Row
		var texts []string
		for row := range input {
			rows = append(rows, row)
			texts = append(texts, canonRow(ctx, scope, row))
		}
		s.mu.Lock()
		s.calls = append(s.calls, sortCall{key, desc, len(rows), s.id})
		s.mu.Unlock()
		for _, i := range permute(texts, s.id) {
			select {
			case out <- rows[i]:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

// wrap38 puts a query into a place where it delivers the same rows.
func (c *Case) wrap38(q string) (text, how string) {
	switch c.R.Intn(9) {
	case 0:
		return "LET q1 = " + q + " SELECT * FROM q1", "definition"
	case 1:
		return "LET q1 <= " + q + " SELECT * FROM q1", "materialized"
	case 2:
		return "SELECT * FROM foreach(row={ " + q + " })", "foreach"
	case 3:
		return "SELECT * FROM chain(a={ " + q + " })", "chain"
	case 4:
		return "LET q1(x) = " + q + " SELECT * FROM q1(x=1)", "function"
	case 5:
		return "SELECT * FROM if(condition=TRUE, then={ " + q + " })", "if"
	case 6:
		return "SELECT * FROM foreach(row={ SELECT 1 AS one FROM scope() }, query={ " + q + " })", "nested"
	}
	return q, "direct"
}

func c38sorter(c *Case) {
	h, names := c.table38()
	cols := []string{"*"}
	keys := names
	if c.R.Intn(2) == 0 {
		cols = nil
		keys = nil
		for _, n := range names {
			if c.R.Intn(3) != 0 {
				as := c.one(n, "c_"+n, "C "+n)
				cols = append(cols, quoteName(n)+" AS "+quoteName(as))
				keys = append(keys, as)
			}
		}
		cols = append(cols, "id")
		keys = append(keys, "id")
	}
	key := keys[c.R.Intn(len(keys))]
	if c.R.Intn(10) == 0 {
		key = "no such column"
	}
	q := "SELECT " + strings.Join(cols, ", ") + " FROM t()"
	if c.R.Intn(2) == 0 {
		q += " WHERE " + c.one("id > 2", "a = 1", "b < 3", "TRUE", "id < 0", "NOT a = 2")
	}
	grouped := false
	if c.R.Intn(4) == 0 {
		grouped = true
		q += " GROUP BY " + c.one("a", "b", "id")
	}
	plain := q
	desc := c.R.Intn(2) == 0
	q += " ORDER BY " + quoteName(key)
	if desc {
		q += " DESC"
	}
	limit := -1
	if c.R.Intn(2) == 0 {
		limit = c.R.Intn(6)
		q += fmt.Sprintf(" LIMIT %d", limit)
	}
	text, how := c.wrap38(q)
	c.Desc("%s\n%s", h, text)
	c.Eval(1)
	e := NewEngine(h)
	rows, err := e.Last(plain)
	e.Close()
	if err != nil {
		c.Fail("%s: %v", plain, err)
		return
	}
	srt := &sorter38{id: fmt.Sprint("s", c.R.Intn(1000))}
	var want []string
	for _, i := range permute(rows, srt.id) {
		if limit >= 0 && len(want) >= limit {
			break
		}
		want = append(want, rows[i])
	}
	e = NewEngine(h)
	defer e.Close()
	s := e.Scope
	at := "the scope"
	if c.R.Intn(3) == 0 { // set on a copy: the family shares it
		cp := s.Copy()
		cp.SetSorter(srt)
		cp.Close()
		at = "a copy"
	} else {
		s.SetSorter(srt)
	}
	got, err := e.Last(text)
	if err != nil {
		c.Fail("%s: %v", text, err)
		return
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("sorter set on %s, query %s: not the sorter's output: %s", at, how, d)
		return
	}
	srt.mu.Lock()
	calls := append([]sortCall{}, srt.calls...)
	srt.mu.Unlock()
	if limit != 0 || len(calls) > 0 {
		if len(calls) != 1 || calls[0].key != key || calls[0].desc != desc || calls[0].rows != len(rows) {
			if !(limit == 0) {
				c.Fail("the sorter was asked %+v, want key %q desc %v with %d rows", calls, key, desc, len(rows))
				return
			}
		}
	}
	c.Count("rows sorted by the host", len(rows))
	c.Seen(fmt.Sprint(how, grouped, limit, desc, len(rows), hash64(text)))
	if c.Index < 3 {
		c.Sample("%s -> %v", text, got)
	}
}

// grouper38 is written against the actor interface only: it gives the groups in reverse order of appearance, and the first
// or the last row of each group's columns as the engine's own would.
type grouper38 struct {
	mu     sync.Mutex
	calls  int
	raw    []string // source rows by appearance
	bins   []string // their bins
	order  []string // bins in order
	same   string   // a difference between Transform and the transformed row
	column string   // column to compare
}

func (g *grouper38) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		g.mu.Lock()
		g.calls++
		g.mu.Unlock()
		sub := scope.Copy()
		defer sub.Close()
		ctxs := map[string]types.AggregatorCtx{}
		last := map[string]*ordereddict.Dict{}
		var order []string
		for {
			row, raw, bin, rs, err := actor.GetNextRow(ctx, sub)
			if err != nil {
				break
			}
			if ctxs[bin] == nil {
				ctxs[bin] = aggregators.NewAggregatorCtx()
				order = append(order, bin)
			}
			rs.SetAggregatorCtx(ctxs[bin])
			m := actor.MaterializeRow(ctx, row, rs)
			last[bin] = m
			rs.Close()
			id, _ := scope.Associative(raw, "id")
			g.mu.Lock()
			g.raw = append(g.raw, canonE(id))
			g.bins = append(g.bins, bin)
			if g.column != "" {
				lr, closer := actor.Transform(ctx, sub, raw)
				a, ok := lr.Get(g.column)
				if le, isLazy := a.(types.LazyExpr); isLazy {
					a = le.Reduce(ctx)
				}
				b, _ := m.Get(g.column)
				if !ok || canonE(a) != canonE(b) {
					g.same = fmt.Sprintf("Transform gives %s = %s (%v), the row has %s", g.column, canonE(a), ok, canonE(b))
				}
				closer()
			}
			g.mu.Unlock()
		}
		for i := len(order) - 1; i >= 0; i-- {
			select {
			case out <- last[order[i]]:
			case <-ctx.Done():
				return
			}
		}
		g.mu.Lock()
		g.order = order
		g.mu.Unlock()
	}()
	return out
}

func c38grouper(c *Case) {
	h, names := c.table38()
	gb := c.one("a", "b", quoteName(names[2]), "a, b", "id", "dict(x=a)", "1", "g")
	cols := []string{c.one("a", "b", quoteName(names[2])) + " AS g"}
	for _, f := range []string{"count() AS n", "sum(item=id) AS total", "enumerate(items=id) AS ids", "max(item=id) AS last", "min(item=id) AS first", "id AS plain"} {
		if c.R.Intn(2) == 0 {
			cols = append(cols, f)
		}
	}
	q := "SELECT " + strings.Join(cols, ", ") + " FROM t()"
	where := ""
	if c.R.Intn(2) == 0 {
		where = " WHERE " + c.one("id > 2", "a = 1", "id < 0", "NOT a = 2")
		q += where
	}
	q += " GROUP BY " + gb
	plain := q
	order := c.R.Intn(3) == 0
	if order {
		q += " ORDER BY g"
	}
	limit := -1
	if c.R.Intn(2) == 0 {
		limit = c.R.Intn(5)
		q += fmt.Sprintf(" LIMIT %d", limit)
	}
	text, how := c.wrap38(q)
	c.Desc("%s\n%s", h, text)
	c.Eval(1)
	e := NewEngine(h)
	groups, err := e.Last(plain)
	ids, err2 := e.Last("SELECT id FROM t()" + where)
	e.Close()
	if err != nil || err2 != nil {
		c.Fail("%s: %v %v", plain, err, err2)
		return
	}
	g := &grouper38{column: c.one("", "g")}
	e = NewEngine(h)
	defer e.Close()
	srt := &sorter38{id: "p"}
	if c.R.Intn(3) == 0 {
		cp := e.Scope.Copy()
		cp.SetGrouper(g)
		cp.Close()
	} else {
		e.Scope.SetGrouper(g)
	}
	var want []string
	for i := len(groups) - 1; i >= 0; i-- {
		want = append(want, groups[i])
	}
	if order {
		e.Scope.SetSorter(srt)
		var p []string
		for _, i := range permute(want, srt.id) {
			p = append(p, want[i])
		}
		want = p
	}
	if limit >= 0 && len(want) > limit {
		want = want[:limit]
	}
	got, err := e.Last(text)
	if err != nil {
		c.Fail("%s: %v", text, err)
		return
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("query %s: not the grouper's output: %s", how, d)
		return
	}
	if limit != 0 {
		g.mu.Lock()
		defer g.mu.Unlock()
		if g.calls != 1 {
			c.Fail("the grouper was called %d times", g.calls)
			return
		}
		var wantRaw []string
		for _, id := range ids {
			wantRaw = append(wantRaw, strings.TrimSuffix(strings.TrimPrefix(id, `{"id": `), "}"))
		}
		if d := diffRows(wantRaw, g.raw); d != "" {
			c.Fail("the grouper was not given exactly the filtered rows: %s", d)
			return
		}
		if g.same != "" {
			c.Fail("%s", g.same)
			return
		}
		c.Count("rows grouped by the host", len(g.raw))
	}
	c.Seen(fmt.Sprint(how, limit, order, len(groups), hash64(text)))
	if c.Index < 3 {
		c.Sample("%s -> %v", text, got)
	}
}

// mat38 materializes with a mark on every row.
type mat38 struct {
	mu    sync.Mutex
	names []string
	rows  map[string]int
	evals map[string]int
	id    string
}

type stored38 struct {
	m    *mat38
	name string
	rows []types.Row
}

func (s *stored38) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	s.m.mu.Lock()
	s.m.evals[s.name]++
	s.m.mu.Unlock()
	go func() {
		defer close(out)
		for _, r := range s.rows {
			select {
			case out <- r:
			case <-ctx.Done():
				return
			}
		}
	}()
	return out
}

func (m *mat38) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	res := &stored38{m: m, name: name}
	for row := range query.Eval(ctx, scope) {
		d := vfilter.RowToDict(ctx, scope, row)
		d.Set("mark", name+"/"+m.id)
		res.rows = append(res.rows, d)
	}
	m.mu.Lock()
	m.names = append(m.names, name)
	m.rows[name] = len(res.rows)
	m.mu.Unlock()
	return res
}

func c38materializer(c *Case) {
	h, _ := c.table38()
	m := &mat38{rows: map[string]int{}, evals: map[string]int{}, id: fmt.Sprint("m", c.R.Intn(100))}
	k := 1 + c.R.Intn(3)
	var stmts []string
	var names []string
	want := map[string][]string{}
	plain := NewEngine(h)
	defer plain.Close()
	mark := func(rows []string, name string) (out []string) {
		for _, r := range rows {
			sep := ", "
			if r == "{}" {
				sep = ""
			}
			out = append(out, strings.TrimSuffix(r, "}")+sep+`"mark": `+fmt.Sprintf("%q", name+"/"+m.id)+"}")
		}
		return
	}
	for i := 0; i < k; i++ {
		name := fmt.Sprintf("x%d", i)
		if c.R.Intn(4) == 0 {
			name = fmt.Sprintf("Long Name %d", i)
		}
		q := c.one("SELECT id, a FROM t()", "SELECT id, a FROM t() WHERE id > 1", "SELECT id, count() AS a FROM t()", "SELECT id, a FROM t() ORDER BY id DESC", "SELECT id, a FROM t() LIMIT 3", "SELECT a, count() AS id FROM t() GROUP BY a")
		rows, err := plain.Last(q)
		if err != nil {
			c.Fail("%s: %v", q, err)
			return
		}
		if c.R.Intn(5) == 0 && i > 0 { // from an earlier one
			prev := names[c.R.Intn(len(names))]
			q = "SELECT id, mark AS a FROM " + quoteName(prev)
			rows = nil
			for _, r := range want[prev] {
				// keep id and mark
				id := r[strings.Index(r, `"id": `)+6:]
				if j := strings.IndexAny(id, ",}"); j >= 0 {
					id = id[:j]
				}
				mk := r[strings.Index(r, `"mark": `)+8 : len(r)-1]
				rows = append(rows, fmt.Sprintf(`{"id": %s, "a": %s}`, id, mk))
			}
		}
		form := c.R.Intn(4)
		switch form {
		case 3: // an expression which gives a query
			d := fmt.Sprintf("d%d", i)
			stmts = append(stmts, "LET "+d+" = "+q, "LET "+quoteName(name)+" <= "+d)
		default:
			stmts = append(stmts, "LET "+quoteName(name)+" <= "+q)
		}
		names = append(names, name)
		want[name] = mark(rows, name)
	}
	use := names[c.R.Intn(len(names))]
	w := want[use]
	qn := quoteName(use)
	var last string
	switch c.R.Intn(6) {
	case 0:
		last = "SELECT * FROM " + qn
	case 1:
		last = "SELECT * FROM foreach(row=" + qn + ")"
	case 2:
		last = "SELECT * FROM chain(a=" + qn + ", b=" + qn + ")"
		w = append(append([]string{}, w...), w...)
	case 3:
		last = "SELECT len(list=" + qn + ".mark) AS n FROM scope()"
		w = []string{fmt.Sprintf(`{"n": i:%d}`, len(w))}
	case 4:
		last = "SELECT * FROM foreach(row={ SELECT id AS i FROM t() LIMIT 1 }, query={ SELECT * FROM " + qn + " })"
		if len(h.Tables["t"]) == 0 {
			w = nil
		}
	case 5:
		last = "SELECT * FROM " + qn + " LIMIT 2"
		if len(w) > 2 {
			w = w[:2]
		}
	}
	text := strings.Join(append(stmts, last), "\n")
	c.Desc("%s\n%s", h, text)
	c.Eval(1)
	e := NewEngine(h)
	defer e.Close()
	if c.R.Intn(3) == 0 {
		cp := e.Scope.Copy()
		cp.SetMaterializer(m)
		cp.Close()
	} else {
		e.Scope.SetMaterializer(m)
	}
	got, err := e.Last(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	if d := diffRows(w, got); d != "" {
		c.Fail("not what the host materialized: %s", d)
		return
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if strings.Join(m.names, "|") != strings.Join(names, "|") {
		c.Fail("the materializer was asked for %q, want %q", m.names, names)
		return
	}
	for _, n := range names {
		if m.rows[n] != len(want[n]) {
			c.Fail("the materializer got %d rows for %s, want %d", m.rows[n], n, len(want[n]))
			return
		}
	}
	c.Count("queries materialized by the host", len(names))
	c.Seen(fmt.Sprint(len(w), hash64(text)))
	if c.Index < 3 {
		c.Sample("%s -> %v", text, got)
	}
}

// disp38 is what a family of scopes shares.
type disp38 struct {
	logger, tracer, sorter, grouper, mat string
	ctx                                  map[string]int
}

func c38families(c *Case) {
	type mem struct {
		s    types.Scope
		d    *disp38
		name string
	}
	var all []*mem
	defer func() {
		for _, m := range all {
			m.s.Close()
		}
	}()
	var mu sync.Mutex
	lines := map[string][]string{}
	newLog := func(id string) *log.Logger {
		return log.New(&lineWriter{func(l string) { mu.Lock(); lines[id] = append(lines[id], l); mu.Unlock() }}, "", 0)
	}
	var steps []string
	step := func(f string, a ...interface{}) { steps = append(steps, fmt.Sprintf(f, a...)) }
	h := NewHost()
	rows := []V{}
	for i := 0; i < 5; i++ {
		d := NewD()
		d.Set("a", int64(i%2))
		d.Set("id", int64(i))
		rows = append(rows, d)
	}
	h.Tables["t"] = rows
	for i := 0; i < 2; i++ {
		e := NewEngine(h)
		all = append(all, &mem{e.Scope, &disp38{ctx: map[string]int{}, logger: "engine"}, fmt.Sprintf("s%d", i)})
	}
	c.Eval(1)
	fail := func(f string, a ...interface{}) {
		c.Desc("%s", strings.Join(steps, "\n"))
		c.Fail(f, a...)
	}
	sorters := map[string]*sorter38{}
	groupers := map[string]*grouper38{}
	mats := map[string]*mat38{}
	k := 10 + c.R.Intn(30)
	serial := 0
	logOne := func(m *mem) bool {
		serial++
		s := m.s
		if c.R.Intn(2) == 0 {
			s = s.Copy().Copy()
		}
		before := map[string]int{}
		mu.Lock()
		for id, l := range lines {
			before[id] = len(l)
		}
		mu.Unlock()
		level := c.one("Log", "Error", "Warn", "Debug", "Trace", "Trace")
		msg := fmt.Sprintf("message %d 100%% ü", serial)
		prefix := map[string]string{"Log": "", "Error": "ERROR:", "Warn": "WARN:", "Debug": "DEBUG:", "Trace": "TRACE:"}[level]
		switch level {
		case "Log":
			s.Log("message %d 100%% %s", serial, "ü")
		case "Error":
			s.Error("message %d 100%% %s", serial, "ü")
		case "Warn":
			s.Warn("message %d 100%% %s", serial, "ü")
		case "Debug":
			s.Debug("message %d 100%% %s", serial, "ü")
		case "Trace":
			s.Trace("message %d 100%% %s", serial, "ü")
		}
		to := m.d.logger
		if level == "Trace" {
			to = m.d.tracer
		}
		step("%s.%s(%q)", m.name, level, msg)
		mu.Lock()
		for id, l := range lines {
			fresh := l[before[id]:]
			want := ""
			if id == to {
				want = prefix + msg
			}
			if got := strings.Join(fresh, "|"); got != want {
				mu.Unlock()
				fail("logger %s received %q, want %q", id, got, want)
				return false
			}
		}
		mu.Unlock()
		c.Count("log lines", 1)
		return true
	}
	asc := []string{`{"id": i:0}`, `{"id": i:1}`, `{"id": i:2}`, `{"id": i:3}`, `{"id": i:4}`}
	for i := 0; i < k; i++ {
		m := all[c.R.Intn(len(all))]
		serial++
		id := fmt.Sprint("i", serial)
		switch c.R.Intn(14) {
		case 0, 1:
			n := &mem{m.s.Copy(), m.d, fmt.Sprintf("s%d", len(all))}
			all = append(all, n)
			step("%s = %s.Copy()", n.name, m.name)
		case 2:
			d := *m.d
			d.ctx = map[string]int{}
			n := &mem{m.s.NewScope(), &d, fmt.Sprintf("s%d", len(all))}
			all = append(all, n)
			step("%s = %s.NewScope()", n.name, m.name)
		case 3:
			if c.R.Intn(4) != 0 {
				d := *m.d
				d.ctx = map[string]int{}
				m.s.ClearContext()
				m.d = &d
				step("%s.ClearContext()", m.name)
			}
		case 4:
			m.s.SetLogger(newLog(id))
			m.d.logger = id
			step("%s.SetLogger(%s)", m.name, id)
		case 5:
			m.s.SetTracer(newLog(id))
			m.d.tracer = id
			step("%s.SetTracer(%s)", m.name, id)
		case 6:
			sorters[id] = &sorter38{id: id}
			m.s.SetSorter(sorters[id])
			m.d.sorter = id
			step("%s.SetSorter(%s)", m.name, id)
		case 7:
			groupers[id] = &grouper38{}
			m.s.SetGrouper(groupers[id])
			m.d.grouper = id
			step("%s.SetGrouper(%s)", m.name, id)
		case 8:
			mats[id] = &mat38{rows: map[string]int{}, evals: map[string]int{}, id: id}
			m.s.SetMaterializer(mats[id])
			m.d.mat = id
			step("%s.SetMaterializer(%s)", m.name, id)
		case 9, 10:
			key := c.one("k1", "k2", "K1")
			m.s.SetContext(key, serial)
			m.d.ctx[key] = serial
			step("%s.SetContext(%s, %d)", m.name, key, serial)
		case 11:
			if !logOne(m) {
				return
			}
		default: // use every service
			s := m.s
			own := c.R.Intn(2) == 0
			if own {
				s = s.Copy()
			}
			got := drain(context.Background(), s, mustParse("SELECT id FROM t() ORDER BY id DESC")[0])
			want := []string{asc[4], asc[3], asc[2], asc[1], asc[0]}
			if m.d.sorter != "" {
				want = nil
				for _, i := range permute(asc, m.d.sorter) {
					want = append(want, asc[i])
				}
			}
			step("ORDER BY, GROUP BY, LET <= in %s", m.name)
			if d := diffRows(want, got); d != "" {
				fail("ORDER BY in %s with sorter %q: %s", m.name, m.d.sorter, d)
				return
			}
			got = drain(context.Background(), s, mustParse("SELECT a, count() AS n FROM t() GROUP BY a")[0])
			want = []string{`{"a": i:0, "n": i:3}`, `{"a": i:1, "n": i:2}`}
			if m.d.grouper != "" {
				want[0], want[1] = want[1], want[0]
			}
			if d := diffRows(want, got); d != "" {
				fail("GROUP BY in %s with grouper %q: %s", m.name, m.d.grouper, d)
				return
			}
			x := s.Copy()
			drain(context.Background(), x, mustParse("LET mm <= SELECT id FROM t() LIMIT 1")[0])
			got = drain(context.Background(), x, mustParse("SELECT * FROM mm")[0])
			x.Close()
			want = []string{`{"id": i:0}`}
			if m.d.mat != "" {
				want = []string{fmt.Sprintf(`{"id": i:0, "mark": "mm/%s"}`, m.d.mat)}
			}
			if d := diffRows(want, got); d != "" {
				fail("LET <= in %s with materializer %q: %s", m.name, m.d.mat, d)
				return
			}
			if own {
				s.Close()
			}
			c.Count("service uses", 3)
		}
		// context values
		for _, m := range all {
			for _, key := range []string{"k1", "k2", "K1"} {
				v, ok := m.s.GetContext(key)
				w, wok := m.d.ctx[key]
				if ok != wok || (ok && v != w) {
					fail("%s.GetContext(%s) is %v %v, want %v %v", m.name, key, v, ok, w, wok)
					return
				}
			}
			c.Count("context reads", 3)
		}
	}
	for _, m := range all {
		for k := 0; k < 3; k++ {
			if !logOne(m) {
				return
			}
		}
	}
	c.Desc("%s", strings.Join(steps, "\n"))
	c.Seen(fmt.Sprint(hash64(strings.Join(steps, "\n"))))
	if c.Index < 2 {
		c.Sample("%s", strings.Join(steps, "; "))
	}
}

// --- C35: bad arguments to built-in functions and table functions

type builtin35 struct {
	name string
	args []string // "name:kind", required ones with a *
	rows int      // rows of a table function called with valid arguments
}

var (
	builtinFunctions35 = []builtin35{
		{"encode", []string{"string:str*", "type:enc*"}, 0},
		{"format", []string{"format:str*", "args:any"}, 0},
		{"get", []string{"item:any", "member:str*"}, 0},
		{"if", []string{"condition:any*", "then:any", "else:any"}, 0},
		{"len", []string{"list:any*"}, 0},
		{"max", []string{"item:any*"}, 0},
		{"min", []string{"item:any*"}, 0},
		{"sum", []string{"item:int*"}, 0},
		{"count", []string{"items:any"}, 0},
		{"enumerate", []string{"items:any"}, 0},
		{"split", []string{"string:str*", "sep:str"}, 0},
		{"timestamp", []string{"epoch:int"}, 0},
		{"version", []string{"function:str"}, 0},
	}
	builtinPlugins35 = []builtin35{
		{"flatten", []string{"query:query*"}, 2},
		{"foreach", []string{"row:query*", "query:query", "workers:int", "async:bool"}, 2},
		{"if", []string{"condition:any*", "then:query*", "else:query"}, 2},
		{"range", []string{"start:zero", "end:two*", "step:one"}, 2},
	}
)

func (c *Case) arg35(kind string) string {
	switch strings.TrimSuffix(kind, "*") {
	case "str":
		return c.one("'s'", "'len'", "'a,b'", "5")
	case "enc":
		return c.one("'hex'", "'string'")
	case "int":
		return c.one("1", "3", "2")
	case "zero":
		return "0"
	case "one":
		return "1"
	case "two":
		return "2"
	case "bool":
		return c.one("TRUE", "FALSE")
	case "query":
		return "{ SELECT 1 AS one FROM chain(a={ SELECT 1 AS y FROM scope() }, b={ SELECT 2 AS y FROM scope() }) }"
	}
	return c.one("1", "'x'", "TRUE", "(1, 2)", "dict(a=1)")
}

func c35badargs(c *Case) {
	h := plainHost()
	n := 1 + c.R.Intn(4)
	var rows []V
	var base []string
	for i := 0; i < n; i++ {
		rows = append(rows, NewD().Set("a", int64(i)))
		base = append(base, fmt.Sprintf(`"a": i:%d`, i))
	}
	h.Tables["t"] = rows
	e := NewEngine(h)
	defer e.Close()
	plugin := c.R.Intn(2) == 0
	list := builtinFunctions35
	if plugin {
		list = builtinPlugins35
	}
	b := list[c.R.Intn(len(list))]
	fault := c.one("none", "unknown", "missing", "type")
	var args, bad []string
	var required, ints []string
	for _, a := range b.args {
		name, kind, _ := strings.Cut(a, ":")
		if strings.HasSuffix(kind, "*") {
			required = append(required, name)
		}
		if k := strings.TrimSuffix(kind, "*"); k == "int" || k == "zero" || k == "one" || k == "two" {
			ints = append(ints, name)
		}
	}
	victim := ""
	switch fault {
	case "unknown":
		victim = c.one("nope", "List", "Query", "rows", "a_very_long_argument_name_which_nothing_has", "nope2")
		bad = append(bad, victim)
	case "missing":
		if len(required) == 0 {
			fault = "none"
			break
		}
		victim = required[c.R.Intn(len(required))]
		bad = append(bad, victim)
	case "type":
		if len(ints) == 0 {
			fault = "none"
			break
		}
		victim = ints[c.R.Intn(len(ints))]
		bad = append(bad, victim)
	}
	for _, a := range b.args {
		name, kind, _ := strings.Cut(a, ":")
		if name == victim {
			if fault == "type" {
				args = append(args, name+"="+c.one("'not a number'", "dict(x=1)", "'12abc'"))
			}
			continue
		}
		if strings.HasSuffix(kind, "*") || b.name == "version" || b.name == "split" || c.R.Intn(2) == 0 {
			args = append(args, name+"="+c.arg35(kind))
		}
	}
	if fault == "unknown" {
		args = append(args, victim+"="+c.arg35("any"))
	}
	c.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	callText := b.name + "(" + strings.Join(args, ", ") + ")"
	var text string
	var want []string
	if plugin {
		text = "SELECT a FROM chain(x={ SELECT a FROM t() }, y={ SELECT -1 AS a FROM " + callText + " }, z={ SELECT a FROM t() })"
		wrap := func() {
			for _, r := range base {
				want = append(want, "{"+r+"}")
			}
		}
		wrap()
		if fault == "none" {
			k := b.rows
			for i := 0; i < k; i++ {
				want = append(want, `{"a": i:-1}`)
			}
		}
		wrap()
	} else {
		text = "SELECT a, " + callText + " AS x FROM t()"
		if c.R.Intn(3) == 0 {
			text = "SELECT a FROM t() WHERE " + callText + " OR TRUE"
		}
		for _, r := range base {
			want = append(want, "{"+r+"}")
		}
	}
	c.Desc("%s", text)
	c.Eval(1)
	got, err := e.Last(text)
	if err != nil {
		c.Fail("%v", err)
		return
	}
	for i, r := range got { // only the other column is specified
		if j := strings.Index(r, `, "x": `); j >= 0 {
			got[i] = r[:j] + "}"
		}
	}
	if plugin && fault == "none" && strings.HasPrefix(callText, "if(") {
		// the branch taken depends on the condition, which is true in all its forms; the else branch has as many rows
		c.Count("conditionals", 1)
	}
	if plugin && b.name == "foreach" && fault == "none" && strings.Contains(callText, "query=") {
		// 2 x 2
		var w []string
		for _, r := range want {
			w = append(w, r)
			if r == `{"a": i:-1}` {
				w = append(w, r)
			}
		}
		want = w
	}
	if d := diffRows(want, got); d != "" {
		c.Fail("fault %s of %s: %s", fault, victim, d)
		return
	}
	e.mu.Lock()
	logs := errorLines(append([]string{}, e.Logs...))
	e.mu.Unlock()
	if fault == "none" {
		if len(logs) > 0 {
			c.Fail("a good call logged %q", logs)
			return
		}
	} else {
		all := strings.Join(logs, "\n")
		for _, v := range bad {
			if !strings.Contains(all, v) {
				c.Fail("no log line mentions %s (%s): %q", v, fault, logs)
				return
			}
		}
		c.Count("bad_calls_reported", 1)
	}
	c.Seen(fmt.Sprint(b.name, plugin, fault, victim, hash64(text)))
}
