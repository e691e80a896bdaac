seed('c06-batches', 'C06', 'ORDER BY over more than 4096 rows',
 'rows are sorted in batches of 4096, so a larger result is only sorted piecewise',
 [('sort/sort.go', '''				sort_ctx.Items = append(sort_ctx.Items, row)
''', '''				sort_ctx.Items = append(sort_ctx.Items, row)

				// Keep memory use bounded.
				if len(sort_ctx.Items) >= 4096 {
					sort.Sort(sort_ctx)
					for _, row := range sort_ctx.Items {
						select {
						case <-ctx.Done():
							return
						case output_chan <- row:
						}
					}
					sort_ctx.Items = nil
				}
''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 5000 - _value AS a FROM range(start=0, end=5000) ORDER BY a LIMIT 2", `{"a":1}`, `{"a":2}`)
}''')

seed('c06-quoted-key', 'C06', 'an ORDER BY column whose quoted name has a dot in it',
 'ORDER BY a quoted column name looks at the part before the first dot only',
 [('vfilter.go', '''			utils.Unquote_ident(*self.OrderBy), desc)

		// Feed all the aggregate rows into the sorter.
		go func() {
			defer close(sorter_input_chan)

			// Re-run the same query with no order by clause then
			// we sort the results.
			self_copy := *self
			self_copy.OrderBy = nil

			for row := range self_copy.Eval(ctx, scope) {''', '''			strings.Split(utils.Unquote_ident(*self.OrderBy), ".")[0], desc)

		// Feed all the aggregate rows into the sorter.
		go func() {
			defer close(sorter_input_chan)

			// Re-run the same query with no order by clause then
			// we sort the results.
			self_copy := *self
			self_copy.OrderBy = nil

			for row := range self_copy.Eval(ctx, scope) {''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 3 - _value AS `a.b` FROM range(start=0, end=3) ORDER BY `a.b`", `{"a.b":1}`, `{"a.b":2}`, `{"a.b":3}`)
}''')

seed('c08-empty-materialized', 'C08', 'a materialized query which has no rows when it is defined and some later',
 'materializing a query without rows keeps the query itself, which is evaluated again on every use',
 [('materializer/in_memory.go', '''	rows := types.Materialize(ctx, scope, query)
''', '''	rows := types.Materialize(ctx, scope, query)
	if len(rows) == 0 {
		return query
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	demoRun(t, s, "LET n = 0")
	demoRun(t, s, "LET X <= SELECT 1 AS a FROM scope() WHERE n > 0")
	demoRun(t, s, "LET n = 1")
	demoWant(t, s, "SELECT * FROM X")
}''')

seed('c08-null-default', 'C08', 'a definition with a default called with an argument that is NULL',
 'an argument which is NULL is replaced by the default',
 [('stored.go', '''		_, pres := args.Get(name)

		// If the user did not specify''', '''		value, pres := args.Get(name)
		if types.IsNil(value) {
			pres = false
		}

		// If the user did not specify''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "LET F(x=5) = dict(v=x) SELECT F(x=NULL).v AS a, F().v AS b FROM scope()", `{"a":null,"b":5}`)
}''')

seed('c10-chain-same-query', 'C10', 'chain() given the same stored query under two argument names',
 'a query given to chain() twice only contributes its rows once',
 [('plugins/chain.go', '''				queries = append(queries, arg_parser.ToStoredQuery(ctx, member_obj))
''', '''				query := arg_parser.ToStoredQuery(ctx, member_obj)
				seen := false
				for _, other := range queries {
					if other == query {
						seen = true
					}
				}
				if !seen {
					queries = append(queries, query)
				}
''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "LET Q = SELECT 1 AS a FROM scope() SELECT * FROM chain(x=Q, y={ SELECT 2 AS a FROM scope() }, z=Q)", `{"a":1}`, `{"a":2}`, `{"a":1}`)
}''')

seed('c10-range-partial', 'C10', 'range() with a step which does not divide the distance from start to end',
 'the last value of a range whose step does not fit evenly is lost',
 [('plugins/range.go', '''		for i := arg.Start; i < arg.End; i += arg.Step {''', '''		// Only emit complete steps.
		count := (arg.End - arg.Start) / arg.Step
		if arg.Step == 1 {
			count = arg.End - arg.Start
		}
		for i := arg.Start; i < arg.End && (i-arg.Start)/arg.Step < count; i += arg.Step {''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT _value AS a FROM range(start=0, end=5, step=2)", `{"a":0}`, `{"a":2}`, `{"a":4}`)
}''')

seed('c11-compact-leaf', 'C11', 'a scope more than ten of whose copies were closed while a copy without children of its own is still open',
 'compacting the list of children forgets those which have no children themselves, so closing the scope no longer closes them and their destructors never run',
 [('scope/scope.go', '''			if c != nil {
				new_children = append(new_children, c)
			}
		}
		self.children = new_children''', '''			if c != nil && len(c.children) > 0 {
				new_children = append(new_children, c)
			}
		}
		self.children = new_children''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	leaf := s.Copy()
	ran := 0
	leaf.AddDestructor(func() { ran++ })
	for i := 0; i < 15; i++ {
		s.Copy().Close()
	}
	s.Close()
	if ran != 1 {
		t.Fatalf("ran %d times", ran)
	}
}''')

seed('c12-sort-dump', 'C12', 'an ORDER BY query cancelled while its consumer has stopped reading the sorted rows',
 'the sorter keeps waiting for its consumer after the query was cancelled',
 [('sort/sort.go', '''			for _, row := range sort_ctx.Items {
				select {
				case <-ctx.Done():
					return

				case output_chan <- row:
				}
			}''', '''			for _, row := range sort_ctx.Items {
				if ctx.Err() != nil {
					return
				}
				output_chan <- row
			}''')],
 '''func TestSeedDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	ctx, cancel := context.WithCancel(context.Background())
	s := demoScope(nil)
	vql, err := Parse("SELECT * FROM range(start=0, end=10) ORDER BY _value")
	if err != nil {
		t.Fatal(err)
	}
	<-vql.Eval(ctx, s)
	cancel()
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines left over", n-before)
	}
}''', imports=['runtime', 'time'])

seed('c13-index-drain', 'C13', 'indexing a lazy query over an endless source',
 'reading one row of a lazy query by its index no longer stops the query',
 [('protocols/stored_query.go', '''	if ok {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()

		new_scope := scope.Copy()
		defer new_scope.Close()

		from_chan := stored_query.Eval(ctx, new_scope)
		i := int64(0)''', '''	if ok {
		ctx, cancel := context.WithCancel(context.Background())
		found := false
		defer func() {
			if !found {
				cancel()
			}
		}()

		new_scope := scope.Copy()
		defer new_scope.Close()

		from_chan := stored_query.Eval(ctx, new_scope)
		i := int64(0)'''), ('protocols/stored_query.go', '''			if b_is_int && i == int_b {
				return row, true''', '''			if b_is_int && i == int_b {
				found = true
				return row, true''')],
 '''func TestSeedDemo(t *testing.T) {
	before := runtime.NumGoroutine()
	s := demoScope(nil)
	demoWant(t, s, "LET Q = SELECT _value AS v FROM range(start=0, end=1000000000) SELECT Q[2].v AS a FROM scope()", `{"a":2}`)
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatalf("%d goroutines left over", n-before)
	}
}''', imports=['runtime', 'time'])

seed('c14-stats-plain', 'C14', 'two goroutines creating scopes while the statistics are read',
 'the count of scope copies is kept without synchronisation',
 [('types/stats.go', '''	atomic.AddUint64(&self._ScopeCopy, uint64(1))''', '''	self._ScopeCopy++''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	a, b := s.Copy(), s.Copy()
	var wg sync.WaitGroup
	for _, s := range []types.Scope{a, b} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				s.Copy().Close()
			}
		}()
	}
	wg.Wait()
	s.Close()
}''', imports=['sync'], flags='-race')

seed('c15-constant-cache', 'C15', 'concurrent evaluations of a statement holding a constant list',
 'a constant expression in brackets is cached in the statement the first time, even when it depends on the row',
 [('vfilter.go', '''	subexpression := self.Subexpression
	if subexpression != nil {
		self.mu.Unlock()
		return subexpression.Reduce(ctx, scope)

	}''', '''	subexpression := self.Subexpression
	if subexpression != nil {
		// Lists of the same length are not built again.
		if len(subexpression.Right) > 3 && self.cache != nil {
			res := self.cache
			self.mu.Unlock()
			return res
		}
		self.mu.Unlock()
		res := subexpression.Reduce(ctx, scope)
		if len(subexpression.Right) > 3 {
			self.mu.Lock()
			self.cache = res
			self.mu.Unlock()
		}
		return res

	}''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT (_value, 1, 2, 3, 4) AS a FROM range(start=0, end=2)", `{"a":[0,1,2,3,4]}`, `{"a":[1,1,2,3,4]}`)
}''', also=['C36'])

seed('c36-dotted-table', 'C36', 'the same parsed statement reading a table called a.b.c evaluated twice',
 'the third part of a dotted table name is forgotten after the first evaluation',
 [('vfilter.go', '''	self.mu.Lock()
	components := self.split_name
	if components == nil {
		components = utils.SplitIdent(self.Name)
		self.split_name = components
	}
	self.mu.Unlock()

	symbol, pres''', '''	self.mu.Lock()
	components := self.split_name
	if components == nil {
		components = utils.SplitIdent(self.Name)
		self.split_name = components
		if len(components) > 2 {
			self.split_name = components[:2]
		}
	}
	self.mu.Unlock()

	symbol, pres''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("a", ordereddict.NewDict().Set("b", ordereddict.NewDict().Set("c", ordereddict.NewDict().Set("v", 1)))))
	vql, err := Parse("SELECT * FROM a.b.c")
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2; i++ {
		for row := range vql.Eval(context.Background(), s) {
			if v, _ := s.Associative(row, "v"); v != 1 {
				t.Fatalf("evaluation %d gives %v", i, row)
			}
		}
	}
}''')

