seed('c18-limit-width', 'C18', 'a limit which does not fit in 32 bits',
 'a very large limit is formatted as another number',
 [('visitor.go', 'int(*node.Limit)', 'int32(*node.Limit)')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	vql, err := Parse("SELECT 1 AS a FROM scope() LIMIT 4294967296")
	if err != nil {
		t.Fatal(err)
	}
	demoWant(t, s, FormatToString(s, vql), `{"a":1}`)
}''')

seed('c18-explain-nested', 'C18', 'an EXPLAIN of a query inside an argument',
 'the EXPLAIN of a nested query is dropped when the query is formatted',
 [('visitor.go', '	if node.Explain != nil {\n		self.push("EXPLAIN ")', '	if node.Explain != nil && !self.opts.test {\n		self.push("EXPLAIN ")')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	vql, err := Parse("SELECT * FROM foreach(row={ EXPLAIN SELECT 1 AS a FROM scope() })")
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(FormatToString(s, vql), "EXPLAIN") {
		t.Fatal(FormatToString(s, vql))
	}
}''', imports=['strings'])

seed('c19-tab-comment', 'C19', 'a multi line comment holding tabs',
 'tabs in comments become spaces when a query is reformatted',
 [('visitor.go', '''		self.push(*node.MultiLine)
		self.line_break()''', '''		self.push(strings.ReplaceAll(*node.MultiLine, "\\t", "    "))
		self.line_break()''')],
 '''func TestSeedDemo(t *testing.T) {
	vqls, err := MultiParseWithComments("/* a\\n\\tb */\\nSELECT 1 AS a FROM scope()")
	if err != nil {
		t.Fatal(err)
	}
	v := NewVisitor(demoScope(nil), DefaultFormatOptions)
	v.Visit(vqls)
	out := v.ToTrimmedString()
	if !strings.Contains(out, "/* a\\n\\tb */") {
		t.Fatalf("%q %v", out, err)
	}
}''', imports=['strings'])

seed('c19-comma-comment', 'C19', 'a list with comments both before and after one of its commas',
 'of the comments around a comma only the first one survives reformatting',
 [('visitor.go', '''		self.Visit(right.Comment2)
''', '''		if len(right.Comments) == 0 {
			self.Visit(right.Comment2)
		}
''')],
 '''func TestSeedDemo(t *testing.T) {
	text := "SELECT (1\\n -- first\\n, 2\\n-- second\\n, -- third\\n 3) AS a FROM scope()"
	vqls, err := MultiParseWithComments(text)
	if err != nil {
		t.Fatal(err)
	}
	v := NewVisitor(demoScope(nil), DefaultFormatOptions)
	v.Visit(vqls)
	out := v.ToTrimmedString()
	for _, c := range []string{"first", "second", "third"} {
		if strings.Count(out, c) != 1 {
			t.Fatalf("%s: %s", c, out)
		}
	}
}''', imports=['strings'])

seed('c20-carriage-return', 'C20', 'a token holding a carriage return which is not followed by a new line',
 'carriage returns inside tokens are not counted in columns',
 [('tokenizer.go', '''		} else {
			res.Column++
		}''', '''		} else if c != '\\r' {
			res.Column++
		}''')],
 '''func TestSeedDemo(t *testing.T) {
	toks, err := Tokenize("SELECT 'a\\rb' FROM scope()")
	if err != nil {
		t.Fatal(err)
	}
	if toks[1].EndPos.Column-toks[1].Pos.Column != 5 {
		t.Fatal(toks[1])
	}
}''')

seed('c20-column-wide', 'C20', 'a token holding characters outside the basic plane',
 'the end column of a token counts some characters twice',
 [('tokenizer.go', '''		} else {
			res.Column++
		}''', '''		} else if c > 0xffff {
			res.Column += 2
		} else {
			res.Column++
		}''')],
 '''func TestSeedDemo(t *testing.T) {
	toks, err := Tokenize("SELECT '\\U0001F600b' FROM scope()")
	if err != nil {
		t.Fatal(err)
	}
	if toks[1].EndPos.Column-toks[1].Pos.Column != 4 {
		t.Fatal(toks[1])
	}
}''')

seed('c21-long-int', 'C21', 'an integer literal of nineteen digits',
 'integer literals of nineteen digits are rounded to a float',
 [('vfilter.go', '''		// Try to parse it as an integer.
		value, err := strconv.ParseInt(*self.StrNumber, 0, 64)
		if err == nil {''', '''		// Try to parse it as an integer.
		value, err := strconv.ParseInt(*self.StrNumber, 0, 64)
		if err == nil && len(*self.StrNumber) < 19 {''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 9223372036854775807 AS a FROM scope()", `{"a":9223372036854775807}`)
}''')

seed('c21-hex-mixed', 'C21', 'a hex escape of which the second digit is a capital letter',
 'hex escapes with capital digits denote another byte',
 [('utils/unquote.go', '''		hex_lookup[i] = i - int8('A') + 10
''', '''		hex_lookup[i] = (i - int8('A') + 10) & 15
		if i == int8('F') {
			hex_lookup[i] = 14
		}
''')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), `SELECT "\\x4F" = "O" AS a FROM scope()`, `{"a":true}`)
}''')

seed('c30-range-end', 'C30', 'a slice both of whose bounds are calls',
 'the call in the upper bound of a slice is left out of the outline',
 [('outline.go', '''		if term.RangeEnd != nil {
			collectValueFunctions(term.RangeEnd, children)''', '''		if term.RangeEnd != nil && term.Index == nil {
			collectValueFunctions(term.RangeEnd, children)''')],
 '''func TestSeedDemo(t *testing.T) {
	vql, err := Parse("SELECT x[f():g()] AS a FROM scope()")
	if err != nil {
		t.Fatal(err)
	}
	o := Outline(vql)
	b, _ := json.Marshal(o)
	if !strings.Contains(string(b), `"g"`) {
		t.Fatal(string(b))
	}
}''', imports=['strings'])

seed('c30-not-chain', 'C30', 'a negated condition inside a negated condition',
 'calls below a double negation are left out of the outline',
 [('outline.go', '''	if expr.Not != nil {
		collectConditionFunctions(expr.Not, children)
	}''', '''	if expr.Not != nil {
		collectAdditionFunctions(expr.Not.Left, children)
		if expr.Not.Right != nil {
			collectAdditionFunctions(expr.Not.Right.Right, children)
		}
	}''')],
 '''func TestSeedDemo(t *testing.T) {
	vql, err := Parse("SELECT NOT NOT g() AS a FROM scope()")
	if err != nil {
		t.Fatal(err)
	}
	b, _ := json.Marshal(Outline(vql))
	if !strings.Contains(string(b), `"g"`) {
		t.Fatal(string(b))
	}
}''', imports=['strings'])

seed('c30-plugin-array-arg', 'C30', 'a table function with an argument given twice',
 'the arguments of a table function are reported without repetitions',
 [('visitor.go', '''			for _, arg := range node.Args {
				callsite.Args = append(callsite.Args, ArgDesc{''', '''			for idx, arg := range node.Args {
				// Given twice in a row.
				if idx > 0 && node.Args[idx-1].Left == arg.Left {
					continue
				}
				callsite.Args = append(callsite.Args, ArgDesc{''')],
 '''func TestSeedDemo(t *testing.T) {
	vql, err := Parse("SELECT * FROM info(x=1, x=2, y=3)")
	if err != nil {
		t.Fatal(err)
	}
	v := NewVisitor(demoScope(nil), CollectCallSites)
	v.Visit(vql)
	if len(v.CallSites[0].Args) != 3 {
		t.Fatal(v.CallSites)
	}
}''')

seed('c31-group-newline', 'C31', 'GROUP and BY on different lines',
 'GROUP and BY must be on one line',
 [('vfilter.go', '`(?i)\\bGROUP\\s+BY\\b`', '`(?i)\\bGROUP[ \\t]+BY\\b`')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT 1 AS a FROM scope() GROUP\\n BY 1", `{"a":1}`)
}''')

seed('c31-desc-case', 'C31', 'the keyword DESC with mixed case',
 'desc only reverses the order when all its letters have the same case',
 [('vfilter.go', '`(?i)\\bDESC\\b`', '`\\bDESC\\b|\\bdesc\\b`')],
 '''func TestSeedDemo(t *testing.T) {
	demoWant(t, demoScope(nil), "SELECT _value AS a FROM range(start=0, end=2) ORDER BY a Desc", `{"a":1}`, `{"a":0}`)
}''')

seed('c09-null-inner', 'C09', 'an inner scope in which a name is bound to NULL while an outer one binds it too',
 'a binding to NULL does not hide the outer binding of the name',
 [('scope/scope.go', '''		element, pres := self.Associative(subscope, field)
		if pres {''', '''		element, pres := self.Associative(subscope, field)
		if pres && (i < 3 || !types.IsNil(element)) {''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	for i := 0; i < 6; i++ {
		s.AppendVars(ordereddict.NewDict().Set("x", 1))
	}
	s.AppendVars(ordereddict.NewDict().Set("x", nil))
	demoWant(t, s, "SELECT x FROM scope()", `{"x":null}`)
}''')

seed('c16-low-limit', 'C16', 'a recursion which ends by itself after many hundred levels',
 'recursion within the depth limit is stopped as an overflow',
 [('scope/scope.go', '	if self.stack_depth < 1000 {', '	if self.stack_depth < 700 {')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	demoWant(t, s, "LET F(x) = if(condition=x > 0, then=1 + F(x=x - 1), else=0) SELECT F(x=800) AS a FROM scope()", `{"a":800}`)
}''')
