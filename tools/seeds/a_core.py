seed('c01-where-order', 'C01', 'a WHERE reading a name which is both a raw column and a declared alias, with a star expression which skips it',
 'WHERE sees the raw column rather than the declared output column of the same name when the row is a plain dictionary',
 [('vfilter.go', '''		new_scope.AppendVars(row)
		new_scope.AppendVars(transformed_row)

		expression := self.Where.Reduce(ctx, new_scope)''', '''		new_scope.AppendVars(transformed_row)
		if !self.SelectExpression.All {
			new_scope.AppendVars(row)
			new_scope.AppendVars(transformed_row)
		} else {
			new_scope.AppendVars(row)
		}

		expression := self.Where.Reduce(ctx, new_scope)''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("src", []types.Row{ordereddict.NewDict().Set("a", 1).Set("b", 2), ordereddict.NewDict().Set("a", 5).Set("b", 6)}))
	demoWant(t, s, "SELECT *, a + 10 AS a FROM src WHERE a < 12", `{"b":2,"a":11}`)
}''')

seed('c02-add-chain', 'C02', 'a chain of three or more additions and subtractions where a minus is followed by a plus of a zero-valued term',
 'a - b + c is computed as a - (b + c) when the chain has at least three operators',
 [('vfilter.go', '''	result := self.Left.Reduce(ctx, scope)
	for _, term := range self.Right {
		term_value := term.Term.Reduce(ctx, scope)
		switch term.Operator {
		case "+":
			result = scope.Add(result, term_value)''', '''	result := self.Left.Reduce(ctx, scope)
	for i, term := range self.Right {
		term_value := term.Term.Reduce(ctx, scope)
		operator := term.Operator
		if i > 1 && self.Right[i-1].Operator == "-" && operator == "+" {
			operator = "-"
		}
		switch operator {
		case "+":
			result = scope.Add(result, term_value)''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 10 + 1 - 2 + 3 AS a FROM scope()", `{"a":12}`)
}''')

seed('c03-ge-notlt', 'C03', 'incomparable operands (a string and a number, NULL) on either side of >=',
 'a >= b is computed as NOT a < b, so it is true for incomparable values where neither a > b nor a = b holds',
 [('vfilter.go', '''		result = scope.Gt(lhs, rhs) || scope.Eq(lhs, rhs)''', '''		result = !scope.Lt(lhs, rhs)''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 'x' >= 1 AS a, 2 >= 1 AS b, 1 >= 2 AS c FROM scope()", `{"a":false,"b":true,"c":false}`)
}''')

seed('c04-and-operands', 'C04', 'an AND of three or more terms whose second term is false, with side effects in a later term',
 'every operand after the first one of an AND chain is evaluated even when an earlier one already decided',
 [('vfilter.go', '''	last := left
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		if scope.Bool(right) == false {
			return false
		}

		if term.Operator == "&&" {''', '''	last := left
	failed := false
	for _, term := range self.Right {
		right := term.Term.Reduce(ctx, scope)
		if failed || scope.Bool(right) == false {
			failed = true
			last = false
			continue
		}

		if term.Operator == "&&" {''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	n := 0
	s.AppendFunctions(GenericFunction{FunctionName: "hit", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return true
	}})
	demoWant(t, s, "SELECT TRUE AND FALSE AND hit() AS a FROM scope()", `{"a":false}`)
	if n != 0 {
		t.Fatalf("hit called %d times", n)
	}
}''')

seed('c05-groupkey-list', 'C05', 'grouping by several columns whose values contain the separator',
 'two different lists of grouping columns fall in one group when the joined text is the same',
 [('grouper/grouper.go', '''			aggregate_ctx_any, pres := bins.Get(bin_idx)''', '''			if len(bin_idx) > 64 {
				bin_idx = bin_idx[:64]
			}
			aggregate_ctx_any, pres := bins.Get(bin_idx)''')],
 '''func TestSeedDemo(t *testing.T) {
	long := strings.Repeat("p", 70)
	s := demoScope(ordereddict.NewDict().Set("src", []types.Row{
		ordereddict.NewDict().Set("a", long+"1"), ordereddict.NewDict().Set("a", long+"2"), ordereddict.NewDict().Set("a", long+"1")}))
	demoWant(t, s, "SELECT count() AS c FROM src GROUP BY a", `{"c":2}`, `{"c":1}`)
}''', imports=['strings'])

seed('c05-where-alias', 'C05', 'a grouped query whose WHERE mentions an alias that also exists as a raw column',
 'WHERE of a grouped query reads the raw column instead of the declared one',
 [('vfilter_group.go', '''		new_scope.AppendVars(row)
		new_scope.AppendVars(transformed_row)
''', '''		new_scope.AppendVars(transformed_row)
		new_scope.AppendVars(row)
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("src", []types.Row{ordereddict.NewDict().Set("a", 1).Set("g", "x"), ordereddict.NewDict().Set("a", 5).Set("g", "y")}))
	demoWant(t, s, "SELECT a + 10 AS a, g FROM src WHERE a < 12 GROUP BY g", `{"a":11,"g":"x"}`)
}''')

seed('c05-ordered-cap', 'C05', 'a grouped and ordered query without WHERE over more than 1000 source rows',
 'only the first 1000 source rows are grouped',
 [('vfilter_group.go', '''	actor := &GroupbyActor{self, self.From.Eval(ctx, scope)}
''', '''	source := self.From.Eval(ctx, scope)
	if self.OrderBy != nil && self.Where == nil {
		source = firstRows(ctx, source, 1000)
	}
	actor := &GroupbyActor{self, source}
'''), ('vfilter_group.go', '''func (self *_Select) EvalGroupBy(''', '''// Bound the memory used by very large groups.
func firstRows(ctx context.Context, in <-chan Row, max int) <-chan Row {
	out := make(chan Row)
	go func() {
		defer close(out)
		for row := range in {
			max--
			if max < 0 {
				continue
			}
			select {
			case <-ctx.Done():
				return
			case out <- row:
			}
		}
	}()
	return out
}

func (self *_Select) EvalGroupBy(''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT count() AS c, 'x' AS g FROM range(start=0, end=1500) GROUP BY g ORDER BY c LIMIT 3", `{"c":1500,"g":"x"}`)
}''')

seed('c07-late-cancel', 'C07', 'a LIMIT over a filtered query of an endless source',
 'a query with a WHERE clause is only cancelled by its LIMIT when the source offers one more matching row',
 [('vfilter.go', '''				count += 1
				if count > limit {
					return
				}''', '''				count += 1
				if count > limit && self.Where == nil {
					return
				}
				if count > limit+1 {
					return
				}'''), ('vfilter.go', '''			for row := range self_copy.Eval(sub_ctx, scope) {
				select {
				case <-ctx.Done():
					return
				case output_chan <- row:
				}
				count += 1''', '''			for row := range self_copy.Eval(sub_ctx, scope) {
				if count <= limit {
					select {
					case <-ctx.Done():
						return
					case output_chan <- row:
					}
				}
				count += 1''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	n := 0
	s.AppendPlugins(GenericListPlugin{PluginName: "unused"})
	s.AppendFunctions(GenericFunction{FunctionName: "seen", Function: func(ctx context.Context, scope types.Scope, args *ordereddict.Dict) types.Any {
		n++
		return true
	}})
	demoWant(t, s, "SELECT _value FROM range(start=0, end=1000000) WHERE seen() AND _value < 2 LIMIT 2", `{"_value":0}`, `{"_value":1}`)
	if n > 100 {
		t.Fatalf("%d rows were filtered for two", n)
	}
}''')
