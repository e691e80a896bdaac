seed('c04-else-null', 'C04', 'an if() whose chosen branch yields NULL and has side effects',
 'the else branch of if() is evaluated a second time when it gave NULL',
 [('functions/if.go', '''		arg.Else = lazy_expr.ReduceWithScope(ctx, scope)
''', '''		arg.Else = lazy_expr.ReduceWithScope(ctx, scope)
		if types.IsNil(arg.Else) {
			arg.Else = lazy_expr.ReduceWithScope(ctx, scope)
		}
''')],
 '''type seedCounter struct{}

var seedCount int

func (self seedCounter) Call(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
	seedCount++
	return types.Null{}
}

func (self seedCounter) Info(scope types.Scope, type_map *types.TypeMap) *types.FunctionInfo {
	return &types.FunctionInfo{Name: "seedcount"}
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	s.AppendFunctions(seedCounter{})
	demoRun(t, s, "SELECT if(condition=FALSE, then=1, else=seedcount()) AS A FROM scope()")
	if seedCount != 1 {
		t.Fatalf("evaluated %d times", seedCount)
	}
}''')

seed('c25-map-null', 'C25', 'a row with a Go map some of whose values are nil',
 'keys of a map whose value is nil are left out of the converted row',
 [('utils/dict/dict.go', '''				str_key, ok := key.Interface().(string)
				if ok {
''', '''				str_key, ok := key.Interface().(string)
				if ok && !types.IsNil(a_value.MapIndex(key).Interface()) {
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	row := ordereddict.NewDict().Set("A", map[string]types.Any{"x": 1, "y": nil})
	got, err := json.Marshal(RowToDict(context.Background(), s, row))
	if err != nil || string(got) != `{"A":{"x":1,"y":null}}` {
		t.Fatalf("%s %v", got, err)
	}
}''')

seed('c05-float-key', 'C05', 'grouping by floats which only differ beyond the sixth digit',
 'groups whose keys are floats that are close to each other are merged',
 [('types/string.go', '''	default:
		return fmt.Sprintf("%v", t)
	}
}''', '''	case float64:
		return fmt.Sprintf("%.6g", t)

	default:
		return fmt.Sprintf("%v", t)
	}
}''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("T", []types.Any{
		ordereddict.NewDict().Set("A", 1.00000001),
		ordereddict.NewDict().Set("A", 1.00000002),
	}))
	defer s.Close()
	demoWant(t, s, "SELECT count() AS C FROM T GROUP BY A", `{"C":1}`, `{"C":1}`)
}''')

seed('c12-wrapper-send', 'C12', 'cancelling a chain() over a single value while nobody reads',
 'a value used as a query waits for its consumer even when the query was cancelled',
 [('arg_parser/args.go', '''			if !types.IsNil(row_value) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row_value:
				}
			}''', '''			if !types.IsNil(row_value) {
				output_chan <- row_value
			}''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	before := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		vql, err := Parse("SELECT * FROM chain(a=dict(x=1))")
		if err != nil {
			t.Fatal(err)
		}
		ch := vql.Eval(ctx, s)
		time.Sleep(time.Millisecond)
		cancel()
		for range ch {
		}
	}
	// A value used as a query directly.
	for i := 0; i < 50; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		arg_parser.ToStoredQuery(ctx, ordereddict.NewDict().Set("x", 1)).Eval(ctx, s)
		cancel()
	}
	time.Sleep(300 * time.Millisecond)
	if n := runtime.NumGoroutine(); n > before+10 {
		t.Fatalf("%d goroutines before, %d after", before, n)
	}
}''', imports=['runtime', 'time', 'www.velocidex.com/golang/vfilter/arg_parser'])

seed('c34-single-null', 'C34', 'a sub-query in a column giving one row which is NULL',
 'the only row of a sub-query column is not unpacked when it is NULL',
 [('vfilter.go', '''		if len(rows) == 1 {''', '''		if len(rows) == 1 && !types.IsNil(rows[0]) {''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT { SELECT NULL AS A FROM scope() } AS Q FROM scope()", `{"Q":null}`)
}''')

seed('c26-flag-case', 'C26', 'a pattern which starts with flags of its own',
 'a pattern which starts with a group of flags is case sensitive',
 [('protocols/protocol_regex.go', '''		re, err = regexp.Compile("(?i)" + pattern)''', '''		flags := "(?i)"
		if len(pattern) > 2 && pattern[:2] == "(?" && pattern[2] != ':' {
			// The pattern has flags of its own.
			flags = ""
		}
		re, err = regexp.Compile(flags + pattern)''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT 'HELLO' =~ '(?s)he.lo' AS A FROM scope()", `{"A":true}`)
}''')

seed('c22-free-repeat', 'C22', 'free form arguments, none of which is declared, with one called like a Go field',
 'an argument named like the Go field rather than the declared name is dropped from the free form arguments',
 [('arg_parser/parser.go', '''			if !utils.InString(&parsed, item.Key) {
				kwargs.Set(item.Key, item.Value)''', '''			_, is_field := target.Type().FieldByName(item.Key)
			if !is_field && !utils.InString(&parsed, item.Key) {
				kwargs.Set(item.Key, item.Value)''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	type Args struct {
		Foo string `vfilter:"optional,field=foo"`
	}
	arg := &Args{}
	kw, err := arg_parser.ExtractKWArgsWithContext(context.Background(), s,
		ordereddict.NewDict().Set("foo", "a").Set("Foo", "b").Set("x", 1), arg)
	if err != nil {
		t.Fatal(err)
	}
	got, _ := json.Marshal(kw)
	if string(got) != `{"Foo":"b","x":1}` {
		t.Fatalf("%s", got)
	}
}''', imports=['www.velocidex.com/golang/vfilter/arg_parser'])

seed('c02-list-alias', 'C02', 'the sum of two lists kept while another list is added to the first',
 'a list of Go values is extended in place by an addition, so sums which share their left operand share members',
 [('protocols/protocol_add.go', '''	if is_array(a) {
		a_slice := reflect.ValueOf(a)
''', '''	if is_array(a) {
		// Nothing to convert
		any_slice, ok := a.([]types.Any)
		if ok {
			return any_slice
		}

		a_slice := reflect.ValueOf(a)
''')],
 '''func TestSeedDemo(t *testing.T) {
	list := make([]types.Any, 0, 10)
	list = append(list, 1, 2)
	s := demoScope(ordereddict.NewDict().Set("L", list))
	defer s.Close()
	demoWant(t, s, "SELECT L + (3, ) AS A, L + (4, ) AS B FROM scope()", `{"A":[1,2,3],"B":[1,2,4]}`)
}''')

seed('c11-reschedule', 'C11', 'a destructor which schedules itself again more than once',
 'destructors added while the scope is closing are only run once more',
 [('scope/scope.go', '''	for try := 0; try < 10; try++ {''', '''	for try := 0; try < 3; try++ {''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	n := 0
	var again func()
	again = func() {
		n++
		if n < 5 {
			s.AddDestructor(again)
		}
	}
	s.AddDestructor(again)
	s.Close()
	if n != 5 {
		t.Fatalf("ran %d times", n)
	}
}''')

seed('c29-parameter-order', 'C29', 'a lambda with two parameters of which one is quoted',
 'parameters of a lambda keep their backticks when there are more than two of them',
 [('lambda.go', '''		result = append(result, utils.Unquote_ident(parameters.Left))
''', '''		name := parameters.Left
		if len(result) < 2 {
			name = utils.Unquote_ident(name)
		}
		result = append(result, name)
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	l, err := ParseLambda("a, b, `c d`=>`c d` + a")
	if err != nil {
		t.Fatal(err)
	}
	got := l.Reduce(context.Background(), s, []types.Any{int64(1), int64(2), int64(3)})
	if got != int64(4) {
		t.Fatalf("%v", got)
	}
}''')

seed('c33-get-negative', 'C33', 'get() with a negative index',
 'get() takes a negative index for the name of a member',
 [('functions/functions.go', '''		int_member, err := strconv.Atoi(member)''', '''		int_member, err := strconv.ParseUint(member, 10, 63)''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT get(item=(1, 2, 3), member='-1') AS A FROM scope()", `{"A":3}`)
}''')

seed('c08-default-scope', 'C08', 'a default which refers to a name the body of the definition sees as well',
 'a default which is a sub-query or a list is only applied once the definition was called without arguments',
 [('stored.go', '''			} else if arg.SubSelect != nil {
				args.Set(name, arg.SubSelect)
			} else if arg.Array != nil {
				args.Set(name, arg.Array.Reduce(ctx, scope))''', '''			} else if arg.SubSelect != nil {
				args.Set(name, arg.SubSelect)
			} else if arg.Array != nil && args.Len() == 0 {
				args.Set(name, arg.Array.Reduce(ctx, scope))''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "LET f(a, b=[1, 2]) = dict(a=a, b=b) SELECT f(a=1) AS X FROM scope()", `{"X":{"a":1,"b":[1,2]}}`)
}''')

seed('c13-bool-drain', 'C13', 'a condition which is a query with many rows',
 'a query used as a condition is read to its end',
 [('protocols/stored_query.go', '''			_, ok := <-from_chan
			if !ok {
				break
			}

			return true
		}
	}

	return false''', '''			_, ok := <-from_chan
			if !ok {
				break
			}
			found = true
		}
	}
	return found'''), ('protocols/stored_query.go', '''func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
	stored_query, ok := a.(types.StoredQuery)
''', '''func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
	found := false
	stored_query, ok := a.(types.StoredQuery)
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	done := make(chan bool)
	go func() {
		defer close(done)
		demoRun(t, s, "LET q = SELECT * FROM range(end=1000000000000) SELECT q AND TRUE AS A FROM scope()")
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("the condition does not end")
	}
}''', imports=['time'])

seed('c27-typed-slice-end', 'C27', 'a field of a list of rows which neither of the first ones has',
 'a field of a list of rows is empty when its first row does not have the field',
 [('protocols/protocol_associative.go', '''			for i := 0; i < a_value.Len(); i++ {
				element := a_value.Index(i).Interface()
				if item, pres''', '''			for i := 0; i < a_value.Len(); i++ {
				element := a_value.Index(i).Interface()
				if i == 1 && len(result) == 0 {
					// The first row does not have it.
					break
				}
				if item, pres''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("L", []types.Any{
		ordereddict.NewDict().Set("A", 1),
		ordereddict.NewDict().Set("B", 2),
	}))
	defer s.Close()
	demoWant(t, s, "SELECT L.B AS X FROM scope()", `{"X":[2]}`)
}''')

seed('c35-query-arg', 'C35', 'an unknown name with three or more dotted parts',
 'an unknown name of three or more parts is only traced, not logged as an error',
 [('vfilter.go', '''				if len(components) > 1 {
					scope.Log("ERROR:While resolving %v Symbol %v not found. Current Scope is %s",''', '''				if len(components) > 2 {
					scope.Trace("While resolving %v", self.Symbol)
				} else if len(components) > 1 {
					scope.Log("ERROR:While resolving %v Symbol %v not found. Current Scope is %s",''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	buf := &bytes.Buffer{}
	s.SetLogger(log.New(buf, "", 0))
	demoWant(t, s, "SELECT nosuch.a.b AS X FROM scope()", `{"X":null}`)
	if !strings.Contains(buf.String(), "nosuch") {
		t.Fatalf("log: %s", buf.String())
	}
}''', imports=['bytes', 'log', 'strings'])
