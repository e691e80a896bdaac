seed('c37-type-collision', 'C37', 'two argument structures of the same shape whose tags differ',
 'a repeated list field is described by its own type instead of its member type',
 [('types/introspection.go', '''			return_type_descriptor.Target = canonicalTypeName(
				return_type.Elem())
			return_type_descriptor.Repeated = true

		case reflect.Map, reflect.Ptr:
			element := return_type.Elem()
			self.addType(scope, element, fields)
			return_type_descriptor.Target = canonicalTypeName(
				return_type.Elem())
		}

		name := field_value.Name''', '''			return_type_descriptor.Target = canonicalTypeName(
				return_type.Elem())
			// Only the first list is marked.
			return_type_descriptor.Repeated = !self.repeated(desc)

		case reflect.Map, reflect.Ptr:
			element := return_type.Elem()
			self.addType(scope, element, fields)
			return_type_descriptor.Target = canonicalTypeName(
				return_type.Elem())
		}

		name := field_value.Name'''),
  ('types/introspection.go', 'func (self *TypeMap) addMethods(', '''func (self *TypeMap) repeated(desc *TypeDescription) bool {
	for _, k := range desc.Fields.Keys() {
		v, _ := desc.Fields.Get(k)
		if ref, ok := v.(*TypeReference); ok && ref.Repeated {
			return true
		}
	}
	return false
}

func (self *TypeMap) addMethods(''')],
 '''type demoListArgs struct {
	A []string `vfilter:"optional,field=a"`
	B []string `vfilter:"optional,field=b"`
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	tm := types.NewTypeMap()
	name := tm.AddType(s, &demoListArgs{})
	d, _ := tm.Get(s, name)
	for _, k := range []string{"a", "b"} {
		v, _ := d.Fields.Get(k)
		if !v.(*types.TypeReference).Repeated {
			t.Fatal(k)
		}
	}
}''', imports=[])

seed('c37-version-parent', 'C37', 'a function and a plugin registered under one name with different versions',
 'version(plugin=) gives the version of a function of that name',
 [('scope/version.go', '''		if pres {
			return plugin.Info(scope, nil).Version
		}
		return types.Null{}
''', '''		if pres {
			version := plugin.Info(scope, nil).Version
			if version == 0 {
				// Not given: versions are kept with the function.
				function, pres := scope.GetFunction(arg.Plugin)
				if pres {
					version = function.Info(scope, nil).Version
				}
			}
			return version
		}
		return types.Null{}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	s.AppendFunctions(GenericFunction{FunctionName: "twin", Version: 7})
	s.AppendPlugins(GenericListPlugin{PluginName: "twin"})
	demoWant(t, s, "SELECT version(plugin='twin') AS v FROM scope()", `{"v":0}`)
}''')

seed('c37-similar-case', 'C37', 'a misspelt name with an empty part',
 'the suggestions for a misspelt plugin skip short parts of the name',
 [('scope/dispatcher.go', '''	for _, part := range parts {
		for k, _ := range self.plugins {''', '''	for _, part := range parts {
		// Everything resembles these.
		if len(part) < 2 && len(parts) > 2 {
			continue
		}
		for k, _ := range self.plugins {''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	s.AppendPlugins(GenericListPlugin{PluginName: "zq"})
	for _, n := range s.GetSimilarPlugins("foo_bar_q") {
		if n == "zq" {
			return
		}
	}
	t.Fatal("not suggested")
}''')

seed('c37-plugin-metadata', 'C37', 'a plugin with metadata and an argument type',
 'a plugin described with its arguments loses its metadata',
 [('plugins/generic.go', '''		result.ArgType = type_map.AddType(scope, self.ArgType)
''', '''		result = &types.PluginInfo{
			Name:    self.PluginName,
			Doc:     self.Doc,
			ArgType: type_map.AddType(scope, self.ArgType),
		}
''')],
 '''type demoMetaArgs struct {
	A string `vfilter:"optional,field=a"`
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	s.AppendPlugins(GenericListPlugin{PluginName: "zq", ArgType: &demoMetaArgs{}, Metadata: ordereddict.NewDict().Set("a", 1)})
	for _, p := range s.Describe(types.NewTypeMap()).Plugins {
		if p.Name == "zq" && p.Metadata == nil {
			t.Fatal("metadata lost")
		}
	}
}''', imports=[])

seed('c38-newscope-grouper', 'C38', 'a scope made with NewScope() from one with an own grouper',
 'a scope made by NewScope() groups with the materializer and sorter of its origin but the built-in grouper',
 [('scope/dispatcher.go', '''		Sorter:       self.Sorter,
		Grouper:      self.Grouper,
		Materializer: self.Materializer,
		explainer:    self.explainer,''', '''		Sorter:       self.Sorter,
		Grouper:      &grouper.DefaultGrouper{},
		Materializer: self.Materializer,
		explainer:    self.explainer,''')],
 '''type demoGrouper struct{ called *bool }

func (self demoGrouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	*self.called = true
	return (&grouper.DefaultGrouper{}).Group(ctx, scope, actor)
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	called := false
	s.SetGrouper(demoGrouper{&called})
	n := s.NewScope()
	demoRun(t, n, "SELECT 1 AS a FROM scope() GROUP BY 1")
	if !called {
		t.Fatal("not used")
	}
}''', imports=['www.velocidex.com/golang/vfilter/grouper'])

seed('c38-context-inherited', 'C38', 'a context value set before NewScope() is called',
 'a scope made by NewScope() starts with the context values of its origin',
 [('scope/dispatcher.go', '''		Logger:       self.Logger,
		Tracer:       self.Tracer,
	}

	clearMap(&res.context)
	return res
}

func (self *protocolDispatcher) AppendPlugins(''', '''		Logger:       self.Logger,
		Tracer:       self.Tracer,
	}

	self.context.Range(func(key, value interface{}) bool {
		res.context.Store(key, value)
		return true
	})
	return res
}

func (self *protocolDispatcher) AppendPlugins(''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	s.SetContext("k", 1)
	if v, pres := s.NewScope().GetContext("k"); pres {
		t.Fatal(v)
	}
}''')

seed('c38-materialize-expr', 'C38', 'LET with <= of an expression which yields a query, with a host materializer',
 'the materializer is given an empty name when the query comes from an expression',
 [('vfilter.go', '					value = scope.Materialize(ctx, name, stored_query)', '					value = scope.Materialize(ctx, "", stored_query)')],
 '''type demoMaterializer struct{ names *[]string }

func (self demoMaterializer) Materialize(ctx context.Context, scope types.Scope, name string, query types.StoredQuery) types.StoredQuery {
	*self.names = append(*self.names, name)
	return query
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	var names []string
	s.SetMaterializer(demoMaterializer{&names})
	demoRun(t, s, "LET q = SELECT 1 AS a FROM scope() LET m <= q SELECT * FROM m")
	if len(names) != 1 || names[0] != "m" {
		t.Fatal(names)
	}
}''', imports=[])

seed('c38-clear-logger', 'C38', 'a scope whose context was cleared and which traces afterwards',
 'clearing the context of a scope disconnects its tracer',
 [('scope/dispatcher.go', '''		Materializer: self.Materializer,
		Logger:       self.Logger,
		Tracer:       self.Tracer,
	}''', '''		Materializer: self.Materializer,
		Logger:       self.Logger,
	}''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	var b strings.Builder
	s.SetTracer(log.New(&b, "", 0))
	s.ClearContext()
	s.Trace("x")
	if b.Len() == 0 {
		t.Fatal("no trace")
	}
}''', imports=['log', 'strings'])

seed('c38-actor-rejected', 'C38', 'a host grouper on a filtered query in which the first rows are rejected',
 'the grouper is handed the first source row in place of the one that passed the filter',
 [('vfilter_group.go', '''		return transformed_row, row, gb_element, new_scope, nil''', '''		if first == nil {
			first = row
		}
		return transformed_row, first, gb_element, new_scope, nil'''),
  ('vfilter_group.go', '''	for row := range self.row_source {
''', '''	var first types.Row
	for row := range self.row_source {
'''),
  ('vfilter_group.go', '''				// Prepare the next row
''', '''				// Prepare the next row
				if first == nil {
					first = row
				}
''')],
 '''type demoRawGrouper struct{ raw *[]types.Row }

func (self demoRawGrouper) Group(ctx context.Context, scope types.Scope, actor types.GroupbyActor) <-chan types.Row {
	for {
		_, raw, _, s, err := actor.GetNextRow(ctx, scope)
		if err != nil {
			break
		}
		s.Close()
		*self.raw = append(*self.raw, raw)
	}
	out := make(chan types.Row)
	close(out)
	return out
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	var raw []types.Row
	s.SetGrouper(demoRawGrouper{&raw})
	demoRun(t, s, "SELECT _value FROM range(start=0, end=4) WHERE _value > 1 GROUP BY 1")
	if len(raw) != 2 {
		t.Fatal(raw)
	}
	v, _ := s.Associative(raw[0], "_value")
	if !s.Eq(v, 2) {
		t.Fatal(v)
	}
}''', imports=[])

seed('c35-extra-arg', 'C35', 'a table definition called with as many arguments as it declares, one of them unknown',
 'an argument a table definition does not declare is only reported when there are too many arguments',
 [('stored.go', '''func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
	// No parameters - do not warn
	if self.parameters == nil {
		return
	}
''', '''func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
	// No parameters - do not warn
	if self.parameters == nil {
		return
	}

	// Called with the right number of args.
	if args.Len() == len(self.parameters) {
		return
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	var b strings.Builder
	s.SetLogger(log.New(&b, "", 0))
	demoRun(t, s, "LET G(x) = SELECT 1 AS a FROM scope() SELECT * FROM G(zz=1)")
	if !strings.Contains(b.String(), "zz") {
		t.Fatal(b.String())
	}
}''', imports=['log', 'strings'])

