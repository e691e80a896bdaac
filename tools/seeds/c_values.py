seed('c04-null-cache', 'C04', 'a column whose function gives NULL, read by WHERE and emitted',
 'a column value which is NULL is not remembered, so its function is called again for every reader',
 [('lazy.go', '''	res = getter(self.ctx, self.scope)
	self.cache.Set(key, res)
''', '''	res = getter(self.ctx, self.scope)
	if !types.IsNil(res) {
		self.cache.Set(key, res)
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	n := 0
	s.AppendFunctions(GenericFunction{FunctionName: "hit", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return types.Null{}
	}})
	demoWant(t, s, "SELECT hit() AS a FROM scope() WHERE NOT a", `{"a":null}`)
	if n != 1 {
		t.Fatalf("hit called %d times", n)
	}
}''')

seed('c12-worker-send', 'C12', 'a cancelled foreach() whose consumer stopped reading while a body had a row to hand over',
 'a foreach worker waits for its consumer even when the query was cancelled',
 [('plugins/foreach.go', '''			if !ok {
				return
			}
			select {
			case <-ctx.Done():
				return
			case self.output_chan <- query_chan_item:
			}''', '''			if !ok {
				return
			}
			self.output_chan <- query_chan_item''')],
 '''func TestSeedDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	vql, err := Parse("SELECT * FROM foreach(row={ SELECT * FROM range(start=0, end=10) }, query={ SELECT * FROM range(start=0, end=10) })")
	if err != nil {
		t.Fatal(err)
	}
	<-vql.Eval(ctx, demoScope(nil))
	time.Sleep(50 * time.Millisecond)
	cancel()
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines left over", n-before)
	}
}''', imports=['runtime', 'time'])

seed('c17-flatten-typed', 'C17', 'a row of a query given to flatten() which is a nil dictionary',
 'converting a row which is a nil dictionary panics',
 [('functions/functions.go', '''	dict, ok := arg.List.(*ordereddict.Dict)
	if ok {
		return dict.Len()
	}
''', '''	dict, ok := arg.List.(*ordereddict.Dict)
	if ok {
		return dict.Len()
	}

	if slice.Kind() == reflect.Ptr {
		slice = slice.Elem()
		return slice.Len()
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	x := 5
	demoWant(t, demoScope(ordereddict.NewDict().Set("p", &x)), "SELECT len(list=p) AS a FROM scope()", `{"a":0}`)
}''')

seed('c22-type-name', 'C22', 'two structure types of the same name declared in different functions',
 'parsers are cached by the name of the type, so a type of the same name declared elsewhere uses the wrong parser',
 [('arg_parser/cache.go', '''	parser, pres := parserCache[t]''', '''	for other, parser := range parserCache {
		if other.Name() == t.Name() && other.NumField() == t.NumField() && t.Name() != "" {
			return parser, nil
		}
	}

	parser, pres := parserCache[t]''')],
 '''func one(s types.Scope) (string, error) {
	type arg struct {
		A string `vfilter:"required,field=a"`
	}
	v := &arg{}
	err := arg_parser.ExtractArgsWithContext(context.Background(), s, ordereddict.NewDict().Set("a", "x"), v)
	return v.A, err
}

func two(s types.Scope) (int64, error) {
	type arg struct {
		B int64 `vfilter:"required,field=b"`
	}
	v := &arg{}
	err := arg_parser.ExtractArgsWithContext(context.Background(), s, ordereddict.NewDict().Set("b", 3), v)
	return v.B, err
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	a, err := one(s)
	if a != "x" || err != nil {
		t.Fatal(a, err)
	}
	b, err := two(s)
	if b != 3 || err != nil {
		t.Fatal(b, err)
	}
}''', imports=['www.velocidex.com/golang/vfilter/arg_parser'])

seed('c23-config-prefix', 'C23', 'a variable whose name starts with config',
 'variables whose name merely starts with config are left out of a saved scope',
 [('scope/marshal.go', '''				k == "config" ||''', '''				strings.HasPrefix(k, "config") ||''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("config_file", "x"))
	item, err := marshal.Marshal(s, s)
	if err != nil {
		t.Fatal(err)
	}
	v, err := NewUnmarshaller(nil).Unmarshal(NewUnmarshaller(nil), demoScope(nil), item)
	if err != nil {
		t.Fatal(err)
	}
	demoWant(t, v.(types.Scope), "SELECT config_file AS a FROM scope()", `{"a":"x"}`)
}''', imports=['www.velocidex.com/golang/vfilter/marshal'])

seed('c24-columns-cached', 'C24', 'payloads whose rows have different columns',
 'every payload reports the columns of the first one',
 [('api.go', '''			if len(rows) > 0 {
				result.Columns = scope.GetMembers(rows[0])
			}
''', '''			if len(rows) > 0 && columns == nil {
				columns = scope.GetMembers(rows[0])
			}
			result.Columns = columns
'''), ('api.go', '''		part := 0
		row_chan''', '''		part := 0
		var columns []string
		row_chan''')],
 '''func TestSeedDemo(t *testing.T) {
	vql, err := Parse("SELECT * FROM chain(a={ SELECT 1 AS a FROM scope() }, b={ SELECT 2 AS b FROM scope() })")
	if err != nil {
		t.Fatal(err)
	}
	var got []string
	for p := range GetResponseChannel(vql, context.Background(), demoScope(nil), func(rows []Row) ([]byte, error) { return json.Marshal(rows) }, 1, 10) {
		if p.TotalRows > 0 {
			got = append(got, p.Columns...)
		}
	}
	if fmt.Sprint(got) != "[a b]" {
		t.Fatal(got)
	}
}''')

seed('c24-deadline-last', 'C24', 'a payload which is exactly full when the maximum wait elapses',
 'a full batch waiting for the next row is not sent when the deadline passes',
 [('api.go', '''				if len(rows) > 0 {
					ship_payload()
				}
				// Update''', '''				if len(rows) > 0 && len(rows) < maxrows {
					ship_payload()
				}
				// Update''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	hold := make(chan bool)
	s.AppendPlugins(GenericListPlugin{PluginName: "unused"})
	s.AppendFunctions(GenericFunction{FunctionName: "wait", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		<-hold
		return 1
	}})
	vql, err := Parse("SELECT if(condition=_value > 1, then=wait(), else=0) AS a FROM range(start=0, end=3)")
	if err != nil {
		t.Fatal(err)
	}
	c := GetResponseChannel(vql, context.Background(), s, func(rows []Row) ([]byte, error) { return json.Marshal(rows) }, 2, 1)
	select {
	case p := <-c:
		if p.TotalRows != 2 {
			t.Fatal(p.TotalRows)
		}
	case <-time.After(8 * time.Second):
		close(hold)
		t.Fatal("no payload")
	}
	close(hold)
	for range c {
	}
}''', imports=['time'])

seed('c25-memberer-values', 'C25', 'a row holding a value with its own list of members, one of which is a lazy value',
 'the members of a value which lists its own members are not resolved',
 [('utils/dict/dict.go', '''			result.Set(member,
				normalize_value(ctx, scope, value, depth+1))''', '''			result.Set(member, value)''')],
 '''type demoMemberer struct{ lazy types.Any }

func (self demoMemberer) Members() []string { return []string{"Lazy"} }

func (self demoMemberer) Lazy() types.Any { return self.lazy }

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	demoRun(t, s, "LET Q = SELECT 1 AS a FROM scope()")
	q, _ := s.Resolve("Q")
	got := RowToDict(context.Background(), s, ordereddict.NewDict().Set("x", demoMemberer{q}))
	b, _ := json.Marshal(got)
	if string(b) != `{"x":{"Lazy":[{"a":1}]}}` {
		t.Fatal(string(b))
	}
}''')

seed('c26-key-case', 'C26', 'two patterns which only differ in the case of a letter that matters, such as \\\\d and \\\\D, used in one scope',
 'compiled patterns are remembered under their lower case text, since matching ignores case anyway',
 [('protocols/protocol_regex.go', '''	key := "__re" + pattern''', '''	key := "__re" + strings.ToLower(pattern)'''), ('protocols/protocol_regex.go', '''	"regexp"
''', '''	"regexp"
	"strings"
''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 'a' =~ '^\\\\\\\\d$' AS a, 'a' =~ '^\\\\\\\\D$' AS b FROM scope()", `{"a":false,"b":true}`)
}''')

seed('c27-in-dict-null', 'C27', 'x IN dictionary where the value of that key is NULL',
 'a key whose value is NULL is not a member of the dictionary',
 [('protocols/protocol_membership.go', '''			_, pres := t.Get(a_str)
			return pres''', '''			value, pres := t.Get(a_str)
			return pres && !types.IsNil(value)''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "LET d = dict(a=NULL, b=1) SELECT 'a' IN d AS a, 'b' IN d AS b, 'c' IN d AS c FROM scope()", `{"a":true,"b":true,"c":false}`)
}''')

seed('c27-slice-clamp', 'C27', 'a slice whose negative start lies before the first member of the list',
 'a negative slice start beyond the beginning counts from the end again',
 [('protocols/utils.go', '''	if start_range < 0 {
		start_range = 0
	}

	if field_name[1] != nil {''', '''	if start_range < 0 && array_length > 0 {
		start_range = (start_range%array_length + array_length) % array_length
	}
	if start_range < 0 {
		start_range = 0
	}

	if field_name[1] != nil {''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "LET l = (1, 2, 3) SELECT l[-4:2] AS a FROM scope()", `{"a":[1,2]}`)
}''')

seed('c28-noarg-functions', 'C28', 'functions called without arguments',
 'functions called without arguments are not counted',
 [('vfilter.go', '''	// Call the function now.
	scope.GetStats().IncFunctionsCalled()
''', '''	// Call the function now.
	if len(parameters) > 0 {
		scope.GetStats().IncFunctionsCalled()
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	s.AppendFunctions(GenericFunction{FunctionName: "one", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return 1 }})
	demoRun(t, s, "SELECT one() AS a FROM range(start=0, end=3)")
	n, _ := s.GetStats().Snapshot().Get("FunctionsCalled")
	if fmt.Sprint(n) != "3" {
		t.Fatal(n)
	}
}''')

seed('c28-explain-where', 'C28', 'an explained query with a WHERE which rejects rows in a grouped sub-query or with a condition giving NULL',
 'a row whose condition is NULL is not reported as rejected',
 [('vfilter.go', '''		} else {
			scope.Explainer().RejectRow(self.Where)
		}''', '''		} else if !types.IsNil(expression) {
			scope.Explainer().RejectRow(self.Where)
		}''')],
 '''type demoExplainer struct{ in, out, rejected int }

func (self *demoExplainer) StartQuery(node interface{})                                    {}
func (self *demoExplainer) ParseArgs(args *ordereddict.Dict, result interface{}, err error) {}
func (self *demoExplainer) PluginOutput(node interface{}, row types.Row)                   { self.in++ }
func (self *demoExplainer) SelectOutput(row types.Row)                                     { self.out++ }
func (self *demoExplainer) RejectRow(where interface{})                                    { self.rejected++ }
func (self *demoExplainer) Log(message string)                                             {}

func TestSeedDemo(t *testing.T) {
	s := NewScope()
	e := &demoExplainer{}
	s.SetExplainer(e)
	demoRun(t, s, "EXPLAIN SELECT * FROM range(start=0, end=4) WHERE if(condition=_value > 1, then=TRUE, else=NULL)")
	if e.in != e.out+e.rejected {
		t.Fatalf("%+v", e)
	}
}''')

seed('c29-reused-vars', 'C29', 'a lambda which is reduced again (with other arguments) while its body is being evaluated',
 'the arguments of a lambda are kept in the lambda, so reducing it again during or concurrently with another call changes the arguments of that call',
 [('lambda.go', '''	Expression  *_AndExpression ` @@ `
}''', '''	Expression  *_AndExpression ` @@ `

	vars *ordereddict.Dict
}'''), ('lambda.go', '''	vars := ordereddict.NewDict()
	for idx''', '''	if self.vars == nil {
		self.vars = ordereddict.NewDict()
	}
	vars := self.vars
	for idx''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	l, err := ParseLambda("x => if(condition=x > 0, then=again(n=x - 1) + x * 10, else=0)")
	if err != nil {
		t.Fatal(err)
	}
	s.AppendFunctions(GenericFunction{FunctionName: "again", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n, _ := args.Get("n")
		return l.Reduce(ctx, scope, []types.Any{n.(types.LazyExpr).Reduce(ctx)})
	}})
	if v := l.Reduce(context.Background(), s, []types.Any{int64(2)}); fmt.Sprint(v) != "30" {
		t.Fatal(v)
	}
}''')

seed('c32-shared-functions', 'C32', 'a function registered in a scope derived with NewScope()',
 'functions registered in a scope derived for isolation appear in the scope it was derived from',
 [('scope/dispatcher.go', '''	function_copy := make(map[string]types.FunctionInterface)
	for k, v := range self.functions {
		function_copy[k] = v
	}
''', '''	function_copy := self.functions
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := NewScope()
	s.NewScope().AppendFunctions(GenericFunction{FunctionName: "mine", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any { return 1 }})
	if _, pres := s.GetFunction("mine"); pres {
		t.Fatal("leaked")
	}
}''')

seed('c33-split-many', 'C33', 'split() of a string into more than 100 parts by a string separator',
 'split() by a string stops after 100 parts',
 [('functions/functions.go', '''		return strings.Split(arg.String, arg.Sep_string)''', '''		return strings.SplitN(arg.String, arg.Sep_string, 100)''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT len(list=split(string='a,' * 150, sep_string=',')) AS a FROM scope()", `{"a":151}`)
}''')

seed('c33-get-empty', 'C33', 'get() of a member that is present and NULL in the middle of a path',
 'get() of a path gives the value reached so far when a later member is missing',
 [('functions/functions.go', '''		if !pres {
			return types.Null{}
		}

		result = next_result''', '''		if !pres {
			if int_member > 0 {
				return result
			}
			return types.Null{}
		}

		result = next_result''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT get(item=dict(a=(1, 2)), member='a.5') AS a FROM scope()", `{"a":null}`)
}''')

seed('c34-null-rows', 'C34', 'a sub-query in a column of which one row is NULL',
 'rows of a one column sub-query which are NULL are left out of the list',
 [('vfilter.go', '''				if pres {
					rows = append(rows, item_column)
				}
			} else {
				rows = append(rows, item)''', '''				if pres && !types.IsNil(item_column) {
					rows = append(rows, item_column)
				}
			} else {
				rows = append(rows, item)''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT { SELECT if(condition=_value = 1, then=NULL, else=_value) AS a FROM range(start=0, end=3) } AS a FROM scope()", `{"a":[0,null,2]}`)
}''')

seed('c34-field-skip', 'C34', 'a field of a query some of whose rows lack it',
 'rows without the field are left out of the list of that field',
 [('protocols/protocol_associative.go', '''				if pres {
					result = append(result, field)
				} else {
					result = append(result, &types.Null{})
				}''', '''				if pres {
					result = append(result, field)
				}''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "LET Q = SELECT * FROM chain(a={ SELECT 1 AS a FROM scope() }, b={ SELECT 2 AS b FROM scope() }) SELECT Q.b AS x FROM scope()", `{"x":[null,2]}`)
}''')

