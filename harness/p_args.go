package main

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/arg_parser"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C22",
		Rule: "A case is a generated structure type (fields of every supported type, tags in every form) and a set of supplied arguments (values of every kind; plain, wrapped in lazies that count their evaluations, or written in a query as literals, variables, definitions and sub-queries for a function and a table function). A conversion table written for the check gives the value of every field or says that an error naming the argument is due; omitted fields must keep what they held. Non-trivial: distinct (structure, arguments) parsed.",
		Groups: []Group{
			{"direct", 12000, 400000, c22direct},
			{"free", 4000, 100000, c22free},
			{"queries", 2500, 60000, c22queries},
			{"repeated", 800, 20000, c22repeated},
			{"concurrent", 120, 2000, c22concurrent},
			{"unsupported", 200, 2000, c22unsupported},
		}})
}

type namedStr string
type namedBool bool

// lazyArg counts how often it is evaluated
type lazyArg struct {
	v  types.Any
	mu sync.Mutex
	n  int
}

func (l *lazyArg) ReduceWithScope(ctx context.Context, scope types.Scope) types.Any {
	return l.Reduce(ctx)
}
func (l *lazyArg) Reduce(ctx context.Context) types.Any {
	l.mu.Lock()
	l.n++
	l.mu.Unlock()
	return l.v
}

// queryArg is a query of fixed rows
type queryArg struct{ rows []V }

func (q *queryArg) Eval(ctx context.Context, scope types.Scope) <-chan types.Row {
	out := make(chan types.Row)
	go func() {
		defer close(out)
		for _, r := range q.rows {
			select {
			case <-ctx.Done():
				return
			case out <- toE(r):
			}
		}
	}()
	return out
}

type argField struct {
	name     string // of the argument
	goName   string
	typ      reflect.Type
	tag      string
	required bool
	ignored  bool
}

var lazyType = reflect.TypeOf((*types.LazyExpr)(nil)).Elem()

var argTypes = []reflect.Type{
	reflect.TypeOf(""), reflect.TypeOf(""), reflect.TypeOf(namedStr("")), reflect.TypeOf(true), reflect.TypeOf(namedBool(true)),
	reflect.TypeOf(float64(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(int(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(time.Second),
	reflect.TypeOf([]string{}), reflect.TypeOf([]namedStr{}), reflect.TypeOf([]types.Any{}), reflect.TypeOf([]*ordereddict.Dict{}),
	reflect.TypeOf(ordereddict.NewDict()),
	reflect.TypeOf((*types.Any)(nil)).Elem(), reflect.TypeOf((*types.Any)(nil)).Elem(),
	reflect.TypeOf((*types.LazyExpr)(nil)).Elem(), reflect.TypeOf((*types.StoredQuery)(nil)).Elem(), reflect.TypeOf((*types.LazyAny)(nil)).Elem(),
}

// types declared in Go; those in functions all have the same name
type args struct {
	B string  `vfilter:"required,field=a"`
	A int64   `vfilter:"optional,field=b"`
	C float64 `vfilter:"optional,field=c"`
}

var declared = []func() reflect.Type{
	func() reflect.Type { return reflect.TypeOf(args{}) },
	func() reflect.Type {
		type args struct {
			A int64   `vfilter:"optional,field=a"`
			B string  `vfilter:"required,field=b"`
			C float64 `vfilter:"optional,field=c"`
		}
		return reflect.TypeOf(args{})
	},
	func() reflect.Type {
		type args struct {
			B string  `vfilter:"required,field=b"`
			C float64 `vfilter:"optional,field=c"`
			A int64   `vfilter:"optional,field=a"`
		}
		return reflect.TypeOf(args{})
	},
	func() reflect.Type {
		type args struct {
			A string `vfilter:"optional,field=c"`
			B string `vfilter:"optional,field=a"`
			C string `vfilter:"required,field=b,doc=text"`
		}
		return reflect.TypeOf(args{})
	},
	func() reflect.Type {
		type args struct {
			A []string `vfilter:"optional,field=a"`
		}
		return reflect.TypeOf(args{})
	},
	func() reflect.Type {
		type args struct {
			A types.LazyExpr `vfilter:"optional,field=a"`
			B types.Any      `vfilter:"required,field=b"`
			X bool           `vfilter:"optional"`
		}
		return reflect.TypeOf(args{})
	},
	func() reflect.Type {
		type args struct{}
		return reflect.TypeOf(args{})
	},
}

func (c *Case) declaredStruct() (fields []*argField, typ reflect.Type) {
	typ = declared[c.R.Intn(len(declared))]()
	for i := 0; i < typ.NumField(); i++ {
		sf := typ.Field(i)
		f := &argField{goName: sf.Name, name: sf.Name, typ: sf.Type, tag: string(sf.Tag)}
		for _, d := range strings.Split(sf.Tag.Get("vfilter"), ",") {
			if d == "required" {
				f.required = true
			} else if strings.HasPrefix(d, "field=") {
				f.name = d[6:]
			}
		}
		fields = append(fields, f)
	}
	return fields, typ
}

// argStruct makes a structure type
func (c *Case) argStruct() (fields []*argField, typ reflect.Type) {
	if c.R.Intn(5) == 0 {
		return c.declaredStruct()
	}
	n := c.R.Intn(7)
	if c.R.Intn(12) == 0 {
		n = 10 + c.R.Intn(30)
	}
	var sf []reflect.StructField
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		f := &argField{goName: fmt.Sprintf("F%d", i), typ: argTypes[c.R.Intn(len(argTypes))]}
		f.name = c.one(fmt.Sprintf("a%d", i), fmt.Sprintf("name_%d", i), fmt.Sprintf("F%d", n-i), fmt.Sprintf("a b%d", i), fmt.Sprintf("é%d", i), "SELECT", "field", "required", "A", "a")
		named := c.R.Intn(6) > 0
		if !named || used[f.name] || used[f.goName] {
			f.name, named = f.goName, false
			if used[f.name] {
				continue
			}
		}
		f.required = c.R.Intn(4) == 0
		var d []string
		if named {
			d = append(d, "field="+f.name)
		}
		if f.required {
			d = append(d, "required")
		} else if c.R.Intn(2) == 0 || len(d) == 0 {
			d = append(d, "optional")
		}
		c.R.Shuffle(len(d), func(i, j int) { d[i], d[j] = d[j], d[i] })
		if c.R.Intn(2) == 0 {
			d = append(d, "doc=It is required by the "+c.one("user", "host", "query"))
		}
		f.tag = `vfilter:"` + strings.Join(d, ",") + `"`
		if c.R.Intn(12) == 0 {
			f.ignored = true
			f.tag = c.one("", `vfilter:"-"`, `json:"x"`)
		} else {
			used[f.name] = true
		}
		fields = append(fields, f)
		sf = append(sf, reflect.StructField{Name: f.goName, Type: f.typ, Tag: reflect.StructTag(f.tag)})
	}
	return fields, reflect.StructOf(sf)
}

// sentinel is what a field holds before parsing
func sentinel(t reflect.Type) reflect.Value {
	switch t.Kind() {
	case reflect.String:
		return reflect.ValueOf("kept").Convert(t)
	case reflect.Bool:
		return reflect.ValueOf(true).Convert(t)
	case reflect.Float32, reflect.Float64, reflect.Int64, reflect.Int, reflect.Uint64:
		return reflect.ValueOf(77).Convert(t)
	case reflect.Slice:
		return reflect.MakeSlice(t, 2, 2)
	case reflect.Ptr:
		return reflect.ValueOf(ordereddict.NewDict().Set("kept", 1))
	}
	switch {
	case t.NumMethod() == 0:
		return reflect.ValueOf("kept")
	case t == lazyType:
		return reflect.ValueOf(&lazyArg{v: "kept"})
	}
	return reflect.ValueOf(&queryArg{rows: []V{NewD().Set("kept", int64(1))}})
}

const (
	argAny = "(any value)"
	argErr = "(error)"
	argMay = "(any value or error)"
)

func truthV(v V) bool {
	switch t := v.(type) {
	case bool:
		return t
	case int64:
		return t > 0
	case float64:
		return t > 0
	case string:
		return t != ""
	case []V:
		return len(t) > 0
	case *D:
		return len(t.Keys) > 0
	}
	return false
}

func plain(v V) string {
	switch t := v.(type) {
	case string:
		return t
	case Null:
		return "Null"
	}
	return fmt.Sprintf("%v", v)
}

// delivered is the conversion table: what a field of type t holds when the argument is v.
func delivered(t reflect.Type, v V) string {
	_, isDict := v.(*D)
	list, isList := v.([]V)
	_, isStr := v.(string)
	_, isNull := v.(Null)
	query, isQuery := v.(*queryArg)
	if isQuery {
		list, isList = query.rows, true
	}
	scalarStr := func(v V) (string, bool) {
		switch t := v.(type) {
		case string:
			return t, true
		case *D:
			if len(t.Keys) == 1 {
				s, ok := t.M[t.Keys[0]].(string)
				return s, ok
			}
			return "", false
		case int64, float64, bool:
			return plain(v), true
		}
		return "", false
	}
	switch {
	case t == reflect.TypeOf(ordereddict.NewDict()):
		switch {
		case isDict:
			return canonM(v)
		case isNull:
			return "{}"
		case isList:
			return argMay
		}
		return argErr
	case t == reflect.TypeOf([]*ordereddict.Dict{}):
		if isDict {
			return canonM([]V{v})
		}
		if !isList {
			return argMay
		}
		out := []V{}
		for _, x := range list {
			switch x.(type) {
			case Null:
			case *D:
				out = append(out, x)
			default:
				return argMay
			}
		}
		return canonM(out)
	case t.Kind() == reflect.String:
		switch {
		case isQuery:
			if len(list) == 1 {
				if s, ok := scalarStr(list[0]); ok {
					return fmt.Sprintf("%q", s)
				}
			}
			return argMay
		case isNull:
			return `""`
		case isStr:
			return canonM(v)
		case isDict:
			return argMay
		case isList:
			if len(list) == 1 {
				if s, ok := scalarStr(list[0]); ok {
					return fmt.Sprintf("%q", s)
				}
			}
			return argMay
		}
		return fmt.Sprintf("%q", plain(v))
	case t.Kind() == reflect.Bool:
		if isQuery {
			return argMay
		}
		return fmt.Sprint(truthV(v))
	case t.Kind() == reflect.Float64, t.Kind() == reflect.Float32:
		var f float64
		switch x := v.(type) {
		case int64:
			f = float64(x)
		case float64:
			f = x
		case bool:
			if x {
				f = 1
			}
		default:
			return argErr
		}
		if t.Kind() == reflect.Float32 {
			f = float64(float32(f))
		}
		return fstr(f)
	case t.Kind() == reflect.Int64, t.Kind() == reflect.Int, t.Kind() == reflect.Uint64:
		var i int64
		switch x := v.(type) {
		case int64:
			i = x
		case float64:
			if math.IsNaN(x) || math.Abs(x) > 1e18 {
				return argMay
			}
			i = int64(x)
		case bool:
			if x {
				i = 1
			}
		default:
			return argErr
		}
		if t.Kind() == reflect.Uint64 && i < 0 {
			return argMay
		}
		return fmt.Sprintf("i:%d", i)
	case t.Kind() == reflect.Slice && t.Elem().Kind() == reflect.String:
		if isNull || isDict {
			return argMay
		}
		if !isList {
			return fmt.Sprintf("[%q]", plain(v))
		}
		var out []string
		for _, x := range list {
			s, ok := scalarStr(x)
			if !ok {
				return argMay
			}
			out = append(out, fmt.Sprintf("%q", s))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case t.Kind() == reflect.Slice:
		if isNull {
			return argMay
		}
		if isList {
			return canonM(list)
		}
		return canonM([]V{v})
	case t.NumMethod() == 0: // any
		if isQuery {
			return canonM(list)
		}
		return canonM(v)
	case t == lazyType:
		if isQuery {
			return canonM(list)
		}
		return canonM(v)
	}
	// rows
	rows := []V{}
	src := list
	if !isList {
		src = []V{v}
	}
	for _, x := range src {
		switch y := x.(type) {
		case Null:
			if isQuery {
				rows = append(rows, x)
			}
		case *D:
			if len(y.Keys) == 0 && !isQuery {
				return argMay
			}
			rows = append(rows, x)
		case []V:
			return argMay
		default:
			if isQuery {
				rows = append(rows, x)
				continue
			}
			rows = append(rows, NewD().Set("_value", x))
		}
	}
	return canonM(rows)
}

// observed renders what a field holds, evaluating lazies and queries
func observed(ctx context.Context, scope types.Scope, v types.Any) string {
	switch t := v.(type) {
	case types.LazyExpr:
		return observed(ctx, scope, t.Reduce(ctx))
	case types.StoredQuery:
		var out []string
		for row := range t.Eval(ctx, scope) {
			if types.IsNil(row) {
				out = append(out, "null")
				continue
			}
			switch row.(type) {
			case types.LazyRow:
				out = append(out, canonRow(ctx, scope, row))
			default:
				out = append(out, observed(ctx, scope, row))
			}
		}
		return "[" + strings.Join(out, ", ") + "]"
	case []types.Any:
		var out []string
		for _, x := range t {
			out = append(out, observed(ctx, scope, x))
		}
		return "[" + strings.Join(out, ", ") + "]"
	case types.LazyRow:
		return canonRow(ctx, scope, v)
	}
	return canonE(v)
}

type supplied struct {
	name string
	v    V
	arg  types.Any
	lazy *lazyArg
}

// argValue: a value that leads to a field of type t (or to anything)
func (c *Case) argValue(g *Gen, t reflect.Type) V {
	if c.R.Intn(8) == 0 {
		return g.value("any", 2)
	}
	dict := func() V { return g.value("dict", 1) }
	switch {
	case t == reflect.TypeOf(ordereddict.NewDict()):
		if g.one(4) {
			return Null{}
		}
		return dict()
	case t == reflect.TypeOf([]*ordereddict.Dict{}), t.NumMethod() > 0 && t != lazyType:
		out := []V{}
		for i := g.R.Intn(4); i > 0; i-- {
			if g.one(5) {
				out = append(out, Null{})
			} else {
				out = append(out, dict())
			}
		}
		if g.one(5) {
			return g.value("any", 1)
		}
		if g.one(3) {
			return &queryArg{rows: out}
		}
		if g.one(5) {
			return dict()
		}
		return out
	case t.Kind() == reflect.Float64, t.Kind() == reflect.Float32, t.Kind() == reflect.Int64, t.Kind() == reflect.Int, t.Kind() == reflect.Uint64:
		switch g.R.Intn(8) {
		case 0:
			return g.one(2)
		case 1:
			return c.one("5", "", "0x10", " 1", "five")
		case 2:
			return g.value(c.one("list", "dict", "null"), 1)
		case 3:
			return g.R.Int63()
		case 4:
			return -g.R.Int63()
		}
		return g.value("num", 1)
	case t.Kind() == reflect.Slice || t.Kind() == reflect.String:
		switch g.R.Intn(8) {
		case 0:
			return []V{NewD().Set(g.word(), g.word())}
		case 1:
			return []V{g.word()}
		case 2:
			out := []V{}
			for i := g.R.Intn(5); i > 0; i-- {
				if g.one(3) {
					out = append(out, NewD().Set("x", g.word()))
				} else {
					out = append(out, g.word())
				}
			}
			if g.one(3) {
				return &queryArg{rows: out}
			}
			return out
		case 3:
			return g.value("strlist", 1)
		case 4:
			out := []V{}
			for i := g.R.Intn(5); i > 0; i-- {
				out = append(out, NewD().Set("x", g.word()))
			}
			return &queryArg{rows: out}
		case 5:
			out := []V{}
			for i := 0; i < 20+g.R.Intn(300); i++ {
				out = append(out, g.word())
			}
			return out
		}
	}
	return g.value("any", 1)
}

func argE(v V) types.Any {
	if q, ok := v.(*queryArg); ok {
		return q
	}
	return toE(v)
}

func showArg(v V) string {
	if q, ok := v.(*queryArg); ok {
		return "query" + canonM(q.rows)
	}
	return canonM(v)
}

// nearName: a name which may well resemble a declared one
func (c *Case) nearName(fields []*argField) string {
	if len(fields) > 0 && c.R.Intn(3) > 0 {
		f := fields[c.R.Intn(len(fields))]
		n := c.one(f.name, f.goName)
		return c.one(n, f.goName, strings.ToUpper(n), strings.ToLower(n), n+"s", n+" ", " "+n, n[:len(n)-1], n+"."+n)
	}
	return c.one("other", "Other", "a", "f0", "F99", "")
}

// supply chooses arguments for the fields: most of them, sometimes unknown ones
func (c *Case) supply(g *Gen, fields []*argField, unknown bool) (out []*supplied) {
	all := g.one(2)
	for _, f := range fields {
		if f.ignored {
			if g.one(30) && unknown {
				out = append(out, &supplied{name: f.goName, v: g.value("any", 1)})
			}
			continue
		}
		if !all && !(f.required && g.R.Intn(6) > 0) && g.one(3) {
			continue
		}
		out = append(out, &supplied{name: f.name, v: c.argValue(g, f.typ)})
	}
	if unknown && g.one(8) {
		out = append(out, &supplied{name: c.nearName(fields), v: g.value("any", 1)})
	}
	seen := map[string]bool{}
	var res []*supplied
	for _, s := range out {
		if !seen[s.name] {
			seen[s.name] = true
			res = append(res, s)
		}
	}
	c.R.Shuffle(len(res), func(i, j int) { res[i], res[j] = res[j], res[i] })
	return res
}

func (c *Case) wrap(s *supplied) types.Any {
	s.arg = argE(s.v)
	if c.R.Intn(2) == 0 {
		s.lazy = &lazyArg{v: s.arg}
		s.arg = s.lazy
	}
	return s.arg
}

func argDesc(fields []*argField, args []*supplied) string {
	var b strings.Builder
	for _, f := range fields {
		fmt.Fprintf(&b, "%s %v `%s`\n", f.goName, f.typ, f.tag)
	}
	for _, s := range args {
		how := ""
		if s.lazy != nil {
			how = " (lazy)"
		}
		fmt.Fprintf(&b, "argument %q = %.400s%s\n", s.name, showArg(s.v), how)
	}
	return b.String()
}

// judge compares a parsed structure and its error with the table.
func (c *Case) judge(ctx context.Context, scope types.Scope, fields []*argField, args []*supplied, target reflect.Value, err error, free bool) bool {
	var due, may []string // arguments an error can name
	byName := map[string]*supplied{}
	for _, s := range args {
		byName[s.name] = s
	}
	known := map[string]bool{}
	for _, f := range fields {
		if f.ignored {
			continue
		}
		known[f.name] = true
		s := byName[f.name]
		if s == nil {
			if f.required {
				due = append(due, f.name)
			}
			continue
		}
		switch delivered(f.typ, s.v) {
		case argErr:
			due = append(due, f.name)
		case argMay:
			may = append(may, f.name)
		}
	}
	for _, s := range args {
		if !known[s.name] && !free {
			due = append(due, s.name)
		}
	}
	if err == nil && len(due) > 0 {
		c.Fail("no error, but one is due about %q", due)
		return false
	}
	if err != nil {
		for _, n := range append(due, may...) {
			if strings.Contains(err.Error(), n) {
				c.Count("errors_due", 1)
				return true
			}
		}
		if len(due) > 0 {
			c.Fail("the error does not name the argument (%q): %v", due, err)
		} else {
			c.Fail("error %v although every argument can be converted", err)
		}
		return false
	}
	for i, f := range fields {
		v := target.Field(i)
		s := byName[f.name]
		if f.ignored || s == nil {
			if got, want := observed(ctx, scope, v.Interface()), observed(ctx, scope, sentinel(f.typ).Interface()); got != want {
				c.Fail("field %s got no argument and holds %s instead of the %s it held before", f.goName, got, want)
				return false
			}
			continue
		}
		isLazy := f.typ == lazyType
		if s.lazy != nil {
			n := s.lazy.n
			if isLazy && n > 0 {
				c.Fail("argument %s of lazy type was evaluated %d times", f.name, n)
				return false
			}
			if f.typ == reflect.TypeOf((*types.Any)(nil)).Elem() && f.typ != reflect.TypeOf((*types.LazyAny)(nil)).Elem() {
				if _, still := v.Interface().(types.LazyExpr); still {
					c.Fail("argument %s was delivered unevaluated", f.name)
					return false
				}
			}
			c.Count("lazy_arguments", 1)
		}
		want := delivered(f.typ, s.v)
		if want == argMay || want == argAny {
			c.Count("fields_unspecified", 1)
			continue
		}
		got := observed(ctx, scope, v.Interface())
		if got != want {
			c.Fail("argument %s is %.600s\nfield %s %v holds %.600s\nwant %.600s", f.name, showArg(s.v), f.goName, f.typ, got, want)
			return false
		}
		c.Count("fields_checked", 1)
	}
	return true
}

func fresh(fields []*argField, typ reflect.Type) reflect.Value {
	t := reflect.New(typ)
	for i, f := range fields {
		t.Elem().Field(i).Set(sentinel(f.typ))
	}
	return t
}

func argsDict(c *Case, args []*supplied) *ordereddict.Dict {
	d := ordereddict.NewDict()
	for _, s := range args {
		d.Set(s.name, c.wrap(s))
	}
	if c.R.Intn(8) == 0 { // keyword arguments in a dictionary
		var all types.Any = d
		if c.R.Intn(2) == 0 {
			all = &lazyArg{v: d}
		}
		return ordereddict.NewDict().Set("**", all)
	}
	return d
}

func c22direct(c *Case) {
	g := newGen(c.R)
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx := context.Background()
	fields, typ := c.argStruct()
	for k := 0; k < 2; k++ {
		args := c.supply(g, fields, true)
		d := argsDict(c, args)
		c.desc = ""
		c.Desc("%s", argDesc(fields, args))
		before := argDesc(nil, args)
		target := fresh(fields, typ)
		err := arg_parser.ExtractArgsWithContext(ctx, scope, d, target.Interface())
		if !c.judge(ctx, scope, fields, args, target.Elem(), err, false) {
			return
		}
		if argDesc(nil, args) != before {
			c.Fail("an argument was changed")
			return
		}
		c.Seen(c.desc)
		c.Eval(1)
	}
	c.Sample("%s", c.desc)
}

func c22free(c *Case) {
	g := newGen(c.R)
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx := context.Background()
	fields, typ := c.argStruct()
	args := c.supply(g, fields, false)
	known := map[string]bool{}
	for _, f := range fields {
		known[f.name] = known[f.name] || !f.ignored
	}
	taken := map[string]bool{}
	for _, a := range args {
		taken[a.name] = true
	}
	for i := c.R.Intn(5); i > 0; i-- {
		n := fmt.Sprintf("%s%d", c.one("x", "kw ", "é"), i)
		if c.R.Intn(3) == 0 {
			n = c.nearName(fields)
		}
		if !known[n] && !taken[n] {
			taken[n] = true
			args = append(args, &supplied{name: n, v: g.value("any", 2)})
		}
	}
	c.R.Shuffle(len(args), func(i, j int) { args[i], args[j] = args[j], args[i] })
	d := argsDict(c, args)
	c.Desc("%s", argDesc(fields, args))
	target := fresh(fields, typ)
	kw, err := arg_parser.ExtractKWArgsWithContext(ctx, scope, d, target.Interface())
	if !c.judge(ctx, scope, fields, args, target.Elem(), err, true) {
		return
	}
	if err == nil {
		rest := NewD()
		for _, s := range args {
			if !known[s.name] {
				rest.Set(s.name, s.v)
			}
		}
		if got, want := canonE(kw), canonM(rest); got != want {
			c.Fail("the other arguments are %.800s, want %.800s", got, want)
			return
		}
		c.Count("other_arguments", len(rest.Keys))
	}
	c.Seen(c.desc)
	c.Eval(1)
}

// the same from a query
func c22queries(c *Case) {
	g := newGen(c.R)

	ctx := context.Background()
	fields, typ := c.argStruct()
	args := c.supply(g, fields, true)
	scope := vfilter.NewScope()
	defer scope.Close()
	vars := ordereddict.NewDict()
	var texts []string
	lets := ""
	for i, s := range args {
		if s.name == "" {
			s.name = "empty"
		}
		n := fmt.Sprintf("v%d", i)
		a := Arg{Name: s.name}
		val := s.v
		if q, ok := val.(*queryArg); ok {
			rows := q.rows
			var kept []V
			for _, r := range rows {
				if d, ok := r.(*D); ok && len(d.Keys) > 0 {
					kept = append(kept, d)
				}
			}
			q.rows = kept
			scope.AppendPlugins(&tablePlugin{n, func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) <-chan types.Row {
				return (&queryArg{kept}).Eval(ctx, scope)
			}})
			sub := &Select{Cols: []Col{{Star: true}}, From: From{Path: []string{n}, Call: true}}
			switch c.R.Intn(3) {
			case 0:
				a.Sub = sub
			case 1:
				lets += StmtText(&Stmt{Let: "Q" + n, Op: "=", Q: sub}) + "\n"
				a.E = sym("Q" + n)
			default:
				lets += StmtText(&Stmt{Let: "Q" + n, Op: "<=", Q: sub}) + "\n"
				a.E = sym("Q" + n)
			}
		} else {
			a.E = nil
			if c.R.Intn(3) == 0 && writable(val) {
				a.E = g.lit(val)
			}
			if a.E == nil {
				vars.Set(n, toE(val))
				a.E = sym(n)
				if c.R.Intn(3) == 0 {
					lets += StmtText(&Stmt{Let: "D" + n, Op: c.one("=", "<="), E: sym(n)}) + "\n"
					a.E = sym("D" + n)
				}
			} else if l, ok := val.([]V); ok && c.R.Intn(2) == 0 {
				a.E, a.IsA, a.Arr = nil, true, nil
				if len(l) == 1 { // written like that it is the member itself
					s.v = l[0]
				}
				for _, x := range l {
					e := g.lit(x)
					if e == nil {
						e = sym("empty_list")
					}
					a.Arr = append(a.Arr, e)
				}
			}
		}
		texts = append(texts, argText(a))
	}
	vars.Set("empty_list", []types.Any{})
	scope.AppendVars(vars)
	var target reflect.Value
	var err error
	called := 0
	verdict := true
	take := func(ctx context.Context, scope types.Scope, a *ordereddict.Dict) {
		called++
		target = fresh(fields, typ)
		err = arg_parser.ExtractArgsWithContext(ctx, scope, a, target.Interface())
		verdict = c.judge(ctx, scope, fields, args, target.Elem(), err, false)
	}
	scope.AppendFunctions(&vfilter.GenericFunction{FunctionName: "take", Function: func(ctx context.Context, scope types.Scope, a *ordereddict.Dict) types.Any {
		take(ctx, scope, a)
		return int64(1)
	}})
	scope.AppendPlugins(&vfilter.GenericListPlugin{PluginName: "taken", Function: func(ctx context.Context, scope types.Scope, a *ordereddict.Dict) []types.Row {
		take(ctx, scope, a)
		return []types.Row{ordereddict.NewDict().Set("X", int64(1))}
	}})
	oneRow(scope, ordereddict.NewDict().Set("cv", 1))
	text := lets
	if c.R.Intn(2) == 0 {
		text += "SELECT take(" + strings.Join(texts, ", ") + ") AS X FROM cmprow()"
	} else {
		text += "SELECT X FROM taken(" + strings.Join(texts, ", ") + ")"
	}
	c.Desc("%s%s", argDesc(fields, args), text)
	vqls, perr := vfilter.MultiParse(text)
	if perr != nil {
		c.Fail("does not parse: %v", perr)
		return
	}
	var rows []string
	for _, v := range vqls {
		rows = drain(ctx, scope, v)
	}
	if !verdict {
		return
	}
	if called != 1 || len(rows) != 1 || rows[0] != `{"X": i:1}` {
		c.Fail("the function was called %d times; rows %q", called, rows)
		return
	}
	c.Seen(text)
	c.Eval(1)
	c.Sample("%s", text)
}

// writable: the value has a literal form (names with backticks and empty lists inside others have none)
func writable(v V) bool {
	switch t := v.(type) {
	case []V:
		for _, x := range t {
			if l, ok := x.([]V); ok && len(l) == 0 || !writable(x) {
				return false
			}
		}
	case *D:
		for _, k := range t.Keys {
			if l, ok := t.M[k].([]V); k == "" || strings.Contains(k, "`") || ok && len(l) == 0 || !writable(t.M[k]) {
				return false
			}
		}
	}
	return true
}

func argText(a Arg) string {
	p := &Printer{}
	p.arg(a)
	return p.text()
}

// the same structure again and again, with other arguments in between
func c22repeated(c *Case) {
	g := newGen(c.R)
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx := context.Background()
	fields, typ := c.argStruct()
	other, otherTyp := c.argStruct()
	for k := 0; k < 12; k++ {
		f, t := fields, typ
		if c.R.Intn(3) == 0 {
			f, t = other, otherTyp
		}
		args := c.supply(g, f, true)
		d := argsDict(c, args)
		c.desc = ""
		c.Desc("%s", argDesc(f, args))
		target := fresh(f, t)
		var err error
		if c.R.Intn(2) == 0 {
			err = arg_parser.ExtractArgsWithContext(ctx, scope, d, target.Interface())
		} else {
			p, e := arg_parser.GetParser(target.Elem())
			if e != nil {
				c.Fail("GetParser: %v", e)
				return
			}
			err = p.Parse(ctx, scope, arg_parser.NormalizeArgs(d), target.Elem())
		}
		if !c.judge(ctx, scope, f, args, target.Elem(), err, false) {
			return
		}
		c.Seen(c.desc)
		c.Eval(1)
	}
}

type custom0 struct{ X string }
type custom1 struct{ X string }

func customParser(n string) arg_parser.ParserDipatcher {
	return func(ctx context.Context, scope types.Scope, args *ordereddict.Dict, value interface{}) (interface{}, error) {
		if l, ok := value.(types.LazyExpr); ok {
			value = l.Reduce(ctx)
		}
		s, ok := value.(string)
		if !ok {
			return nil, fmt.Errorf("should be a string not %T", value)
		}
		if n == "0" {
			return custom0{n + s}, nil
		}
		return custom1{n + s}, nil
	}
}

// many goroutines parse the same and new structures while the host registers parsers of its own
func c22concurrent(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx := context.Background()
	type job struct {
		fields []*argField
		typ    reflect.Type
		args   []*supplied
		d      *ordereddict.Dict
	}
	g := newGen(c.R)
	var jobs []*job
	for i := 0; i < 12; i++ {
		j := &job{}
		j.fields, j.typ = c.argStruct()
		j.args = c.supply(g, j.fields, true)
		j.d = argsDict(c, j.args)
		jobs = append(jobs, j)
	}
	type result struct {
		j *job
		v reflect.Value
		e error
	}
	res := make([][]result, 8)
	arg_parser.RegisterParser(custom0{}, customParser("0"))
	var wrong sync.Map
	concurrently(8, func(k int) {
		for r := 0; r < 3; r++ {
			for i := range jobs {
				j := jobs[(i+k*5)%len(jobs)]
				v := fresh(j.fields, j.typ)
				e := arg_parser.ExtractArgsWithContext(ctx, scope, j.d, v.Interface())
				res[k] = append(res[k], result{j, v, e})
				if k == 0 {
					arg_parser.RegisterParser(custom1{}, customParser("1"))
				}
				if k == 1 {
					// a structure type no one has seen yet
					t := reflect.StructOf([]reflect.StructField{
						{Name: fmt.Sprintf("G%d_%d", c.Index, i*10+r), Type: reflect.TypeOf(""), Tag: `vfilter:"field=g"`},
						{Name: "C", Type: reflect.TypeOf(custom0{}), Tag: `vfilter:"field=c"`}})
					v := reflect.New(t)
					err := arg_parser.ExtractArgsWithContext(ctx, scope, ordereddict.NewDict().Set("g", "x").Set("c", "y"), v.Interface())
					if err != nil || v.Elem().Field(0).String() != "x" || v.Elem().Field(1).Field(0).String() != "0y" {
						wrong.Store(fmt.Sprintf("%v %v", err, v.Elem()), true)
					}
				}
			}
		}
	})
	wrong.Range(func(k, v any) bool {
		c.Fail("a parser registered by the host was not used: %v", k)
		return false
	})
	for _, l := range res {
		for _, r := range l {
			for _, s := range r.j.args {
				if s.lazy != nil {
					s.lazy.n = 0
				}
			}
			c.desc = ""
			c.Desc("concurrently:\n%s", argDesc(r.j.fields, r.j.args))
			if !c.judge(ctx, scope, r.j.fields, r.j.args, r.v.Elem(), r.e, false) {
				return
			}
			c.Eval(1)
		}
	}
	c.Count("concurrent_parses", len(res)*len(res[0]))
	c.Seen(c.desc)
}

// structures that can not be filled are refused, every time, before anything is delivered
func c22unsupported(c *Case) {
	scope := vfilter.NewScope()
	defer scope.Close()
	ctx := context.Background()
	bad := []reflect.Type{reflect.TypeOf(make(chan int)), reflect.TypeOf(map[string]string{}), reflect.TypeOf([]int{}), reflect.TypeOf(struct{ X int }{}), reflect.TypeOf(func() {}), reflect.TypeOf(new(int)), reflect.TypeOf([3]string{}), reflect.TypeOf(complex(1, 2)), reflect.TypeOf([][]string{})}
	t := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(""), Tag: `vfilter:"field=a"`},
		{Name: "B", Type: bad[c.R.Intn(len(bad))], Tag: `vfilter:"field=b"`}})
	c.Desc("%v", t)
	for k := 0; k < 2; k++ {
		v := reflect.New(t)
		err := arg_parser.ExtractArgsWithContext(ctx, scope, ordereddict.NewDict().Set("a", "x"), v.Interface())
		if err == nil {
			c.Fail("a structure with a field of type %v is accepted", t.Field(1).Type)
			return
		}
		c.Eval(1)
	}
	for _, x := range []interface{}{new(string), new(int), &[]string{}} {
		if arg_parser.ExtractArgsWithContext(ctx, scope, ordereddict.NewDict().Set("a", "x"), x) == nil {
			c.Fail("%T is accepted", x)
			return
		}
	}
	c.Seen(fmt.Sprint(t))
}
