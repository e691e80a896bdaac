seed('c39-compaction-held', 'C39', 'a scope held open beside thousands that come and go',
 'slots of closed children are only dropped from the front of the list, so one long-lived child keeps a slot for each later one',
 [('scope/scope.go', '''		new_children := make([]*Scope, 0, len(self.children))
		for _, c := range self.children {
			if c != nil {
				new_children = append(new_children, c)
			}
		}
		self.children = new_children
''', '''		// Children are mostly closed in the order they were made.
		for len(self.children) > 0 && self.children[0] == nil {
			self.children = self.children[1:]
		}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	held := s.Copy()
	defer held.Close()
	measure := func() uint64 {
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	var before uint64
	for i := 0; i <= 30000; i++ {
		if i == 3000 {
			before = measure()
		}
		if i%2 == 0 {
			s.Copy().Close()
		}
		if i == 2000 {
			// keep the output of the engine short
			os.Stdout, _ = os.Open(os.DevNull)
		}
	}
	after := measure()
	if after > before+60000 {
		t.Fatalf("the scope grew from %d to %d bytes", before, after)
	}
}''', imports=['os', 'runtime'])

seed('c39-group-null', 'C39', 'a grouped query whose WHERE is NULL for most rows',
 'the scope of a row whose condition is NULL stays open until the query ends',
 [('vfilter_group.go', '''			// If the filtered expression returns a bool false, then
			// skip the row.
			if expression == nil''', '''			// Nothing to compare - take the next row.
			if types.IsNil(expression) {
				closer()
				continue
			}

			// If the filtered expression returns a bool false, then
			// skip the row.
			if expression == nil''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	measure := func() uint64 {
		runtime.GC()
		runtime.GC()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		return ms.HeapAlloc
	}
	var before, after uint64
	s.AppendFunctions(GenericFunction{FunctionName: "measure", Function: func(ctx context.Context, s types.Scope, args *ordereddict.Dict) types.Any {
		n, _ := args.Get("n")
		if l, ok := n.(types.LazyExpr); ok {
			n = l.Reduce(ctx)
		}
		switch n {
		case int64(100):
			before = measure()
		case int64(4900):
			after = measure()
		}
		return types.Null{}
	}})
	os.Stdout, _ = os.Open(os.DevNull)
	demoRun(t, s, "SELECT _value, count() AS n FROM range(start=0, end=5000) WHERE measure(n=_value) GROUP BY 1")
	if after > before+500000 {
		t.Fatalf("the query grew from %d to %d bytes", before, after)
	}
}''', imports=['os', 'runtime'])

seed('c01-star-case', 'C01', 'a star beside a column whose name differs from a source column only in case',
 'the source column is taken for declared already and is left out of the row',
 [('vfilter.go', '''		for _, member := range scope.GetMembers(row) {
			value, pres := scope.Associative(row, member)
			if pres {
				new_row.AddColumn(member,
					func(ctx context.Context, scope types.Scope) Any {
						return value
					})
			}
		}
	}

	// Scope will be closed''', '''		for _, member := range scope.GetMembers(row) {
			// It will be replaced below.
			if self.declares(scope, member) {
				continue
			}

			value, pres := scope.Associative(row, member)
			if pres {
				new_row.AddColumn(member,
					func(ctx context.Context, scope types.Scope) Any {
						return value
					})
			}
		}
	}

	// Scope will be closed'''),
  ('vfilter.go', '''// Receives a row from the FROM clause (i.e. the plugin) and
''', '''// Is there an explicit column of this name?
func (self *_SelectExpression) declares(scope types.Scope, name string) bool {
	for _, expr := range self.Expressions {
		if expr.Star == nil && strings.EqualFold(expr.GetName(scope), name) {
			return true
		}
	}
	return false
}

// Receives a row from the FROM clause (i.e. the plugin) and
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("rows", []types.Row{ordereddict.NewDict().Set("A", int64(1)).Set("b", int64(2))}))
	defer s.Close()
	demoWant(t, s, "SELECT *, A + 1 AS a FROM rows", `{"A":1,"b":2,"a":2}`)
	demoWant(t, s, "SELECT *, b + 1 AS b FROM rows", `{"A":1,"b":3}`)
}''')

seed('c22-same-name', 'C22', 'two argument structures of the same package and name, as declared inside two functions',
 'the second is parsed with the fields of the first',
 [('arg_parser/cache.go', 'parserCache = make(map[reflect.Type]*Parser)', 'parserCache = make(map[string]*Parser)'),
  ('arg_parser/cache.go', '	t := target.Type()\n', '	t := target.Type().PkgPath() + "/" + target.Type().String()\n')],
 '''type demoPair struct{ A, B int64 }

func demoOne(t *testing.T, s types.Scope, args *ordereddict.Dict) demoPair {
	type argument struct {
		A int64 `vfilter:"required,field=a"`
		B int64 `vfilter:"optional,field=b"`
	}
	x := argument{}
	if err := arg_parser.ExtractArgsWithContext(context.Background(), s, args, &x); err != nil {
		t.Fatal(err)
	}
	return demoPair{x.A, x.B}
}

func demoTwo(t *testing.T, s types.Scope, args *ordereddict.Dict) demoPair {
	type argument struct {
		B int64 `vfilter:"optional,field=b"`
		A int64 `vfilter:"required,field=a"`
	}
	x := argument{}
	if err := arg_parser.ExtractArgsWithContext(context.Background(), s, args, &x); err != nil {
		t.Fatal(err)
	}
	return demoPair{x.A, x.B}
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	args := ordereddict.NewDict().Set("a", int64(1)).Set("b", int64(2))
	one, two := demoOne(t, s, args), demoTwo(t, s, args)
	if one != two || one.A != 1 {
		t.Fatal(one, two)
	}
}''', imports=['www.velocidex.com/golang/vfilter/arg_parser'])

seed('c26-mixed-list', 'C26', 'a list of strings and other values, the match behind a value which is no string',
 'the search of a list ends at the first member that is not a string',
 [('protocols/protocol_regex.go', '''				if scope.Match(pattern, a_slice.Index(i).Interface()) {
					return true
				}
''', '''				member := a_slice.Index(i).Interface()
				if scope.Match(pattern, member) {
					return true
				}

				// Not a list of strings.
				_, is_str := member.(string)
				if !is_str && !is_array(member) {
					break
				}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT (1, 'abc') =~ 'b' AS x, ('abc', 1) =~ 'b' AS y FROM range(start=0, end=1)", `{"x":true,"y":true}`)
}''')

seed('c29-null-argument', 'C29', 'an argument which is nil for a parameter that an outer variable has the name of',
 'the parameter is not bound, the outer variable shines through',
 [('lambda.go', '''		vars.Set(name, parameters[idx])
''', '''		if parameters[idx] != nil {
			vars.Set(name, parameters[idx])
		}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("x", "outer"))
	defer s.Close()
	l, err := ParseLambda("x, y=>(x, y)")
	if err != nil {
		t.Fatal(err)
	}
	got, _ := json.Marshal(l.Reduce(context.Background(), s, []types.Any{nil, int64(1)}))
	if string(got) != "[null,1]" {
		t.Fatal(string(got))
	}
}''')

seed('c32-float-left', 'C32', 'a protocol of the host applicable to a float on the left of a type of its own',
 'a float on the left is always added by the built-in rules',
 [('protocols/protocol_add.go', '''		b_float, ok := utils.ToFloat(b)
		if ok {
			return t + b_float
		}
	}
''', '''		b_float, ok := utils.ToFloat(b)
		if ok {
			return t + b_float
		}

		// Lists are handled below, nothing else can be added.
		if !is_array(b) {
			return types.Null{}
		}
	}
''')],
 '''type demoMoney struct{ cents int64 }

type demoMoneyAdd struct{}

func (demoMoneyAdd) Applicable(a, b types.Any) bool {
	_, left := a.(demoMoney)
	_, right := b.(demoMoney)
	return left || right
}

func (demoMoneyAdd) Add(s types.Scope, a, b types.Any) types.Any { return "money" }

func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("m", demoMoney{5}))
	defer s.Close()
	s.AddProtocolImpl(demoMoneyAdd{})
	demoWant(t, s, "SELECT m + 1.5 AS a, 1 + m AS b, 1.5 + m AS c FROM range(start=0, end=1)", `{"a":"money","b":"money","c":"money"}`)
}''')

