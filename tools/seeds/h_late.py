seed('c09-copy-capacity', 'C09', 'two copies of a scope with many bindings, each adding its own',
 'copies of a scope share the list of bindings, so that siblings overwrite each other',
 [('scope/scope.go', '''	var_copy := make([]types.Row, len(self.vars))
	copy(var_copy, self.vars)
''', '''	var_copy := self.vars
	if len(self.vars) < 8 {
		var_copy = make([]types.Row, len(self.vars))
		copy(var_copy, self.vars)
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	for i := 0; i < 12; i++ {
		s.AppendVars(ordereddict.NewDict().Set("V", i))
	}
	a, b := s.Copy(), s.Copy()
	a.AppendVars(ordereddict.NewDict().Set("W", 1))
	b.AppendVars(ordereddict.NewDict().Set("W", 2))
	if w, _ := a.Resolve("W"); w != 1 {
		t.Fatalf("W=%v", w)
	}
}''')

seed('c14-aggctx-lock', 'C14', 'aggregates in copies of one scope evaluated at the same time',
 'the aggregator context of a scope is looked up without its lock',
 [('scope/scope.go', '''func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
	self.Lock()
	defer self.Unlock()

''', '''func (self *Scope) GetAggregatorCtx() types.AggregatorCtx {
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	c := s.Copy()
	done := make(chan bool)
	go func() {
		defer close(done)
		for i := 0; i < 1000; i++ {
			c.SetAggregatorCtx(nil)
		}
	}()
	for i := 0; i < 1000; i++ {
		c.GetAggregatorCtx()
	}
	<-done
}''', flags='-race')

seed('c15-method-twice', 'C15', 'several workers needing the result of a method of a host value at the same moment',
 'a method of a host object is called by each worker, which may see different results',
 [('protocols/lazy_wrapper.go', '''func (self *LazyFunctionWrapper) Reduce(ctx context.Context) types.Any {
	self.mu.Lock()
	defer self.mu.Unlock()

	if self.cached == nil {
		self.cached = self.cb()
	}

	return self.cached
}''', '''func (self *LazyFunctionWrapper) Reduce(ctx context.Context) types.Any {
	self.mu.Lock()
	cached := self.cached
	self.mu.Unlock()

	if cached == nil {
		// Do not hold the lock over the call.
		cached = self.cb()

		self.mu.Lock()
		self.cached = cached
		self.mu.Unlock()
	}

	return cached
}''')],
 '''type demoObj struct{ n int64 }

func (self *demoObj) Next() int64 {
	n := atomic.AddInt64(&self.n, 1)
	time.Sleep(50 * time.Millisecond)
	return n
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	w := protocols.NewLazyStructWrapper(&demoObj{}, "Next")
	v, _ := w.Associative(s, &demoObj{}, "Next")
	var wg sync.WaitGroup
	for i := 0; i < 10; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if r := v.(types.LazyExpr).Reduce(context.Background()); r != int64(1) {
				t.Errorf("got %v", r)
			}
		}()
	}
	wg.Wait()
}''', imports=['sync', 'sync/atomic', 'time', 'www.velocidex.com/golang/vfilter/protocols'])

seed('c17-array-length', 'C17', 'comparing a longer list with a shorter one which it starts with',
 'comparing lists of different lengths panics',
 [('protocols/protocol_eq.go', '''	if value_a.Len() != value_b.Len() {
		return false
	}
''', '''	if value_a.Len() < value_b.Len() {
		return false
	}
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("L", []types.Any{1, 2, 3}).Set("M", []types.Any{1, 2}))
	defer s.Close()
	demoWant(t, s, "SELECT L = M AS X FROM scope()", `{"X":false}`)
}''')

seed('c23-underscore', 'C23', 'a variable of which the name starts with an underscore',
 'variables with names starting with an underscore are left out of a saved scope',
 [('scope/marshal.go', '''			if strings.HasPrefix(k, "$") ||
''', '''			if strings.HasPrefix(k, "$") || strings.HasPrefix(k, "__") ||
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("__x", int64(5)))
	defer s.Close()
	item, err := marshal.Marshal(s, s)
	if err != nil {
		t.Fatal(err)
	}
	if !strings.Contains(string(item.Data), "__x") {
		t.Fatalf("%s", item.Data)
	}
}''', imports=['strings', 'www.velocidex.com/golang/vfilter/marshal'])

seed('c03-time-millis', 'C03', 'a time compared with a number of seconds that differs by less than a millisecond',
 'numbers compared with times only count to the millisecond',
 [('protocols/protocol_lt.go', '''		dec_f *= 1e9
		res''', '''		dec_f = math.Trunc(dec_f*1e3) * 1e6
		res''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("T", time.Unix(1000, 250000)).Set("F", 1000.0009765625))
	defer s.Close()
	demoWant(t, s, "SELECT T < F AS L, T > F AS G FROM scope()", `{"L":true,"G":false}`)
}''', imports=['time'])

seed('c07-limit-32bit', 'C07', 'a limit beyond 32 bits',
 'limits are cut to 32 bits',
 [('vfilter.go', '''			limit := int(*self.Limit)
''', '''			limit := int(int32(*self.Limit))
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT _value FROM range(end=3) LIMIT 4294967297", `{"_value":0}`, `{"_value":1}`, `{"_value":2}`)
}''')


seed('c26-key-space', 'C26', 'two patterns in one scope which only differ in the spaces around them',
 'regular expressions are remembered by their text without surrounding spaces',
 [('protocols/protocol_regex.go', '''	"regexp"

''', '''	"regexp"
	"strings"

'''), ('protocols/protocol_regex.go', '''	key := "__re" + pattern
''', '''	key := "__re" + strings.TrimSpace(pattern)
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	demoWant(t, s, "SELECT 'ab' =~ 'b' AS A, 'ab' =~ ' b' AS B FROM scope()", `{"A":true,"B":false}`)
}''')

seed('c05-sum-float', 'C05', 'sums beyond 53 bits',
 'sum() adds as floating point, so large sums are inexact',
 [('functions/aggregates.go', '''			sum += arg.Item
			return sum
''', '''			sum = int64(float64(sum) + float64(arg.Item))
			return sum
''')],
 '''func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("V", int64(9007199254740993)))
	defer s.Close()
	demoWant(t, s, "SELECT sum(item=V + _value) AS S FROM range(end=2) GROUP BY 1", `{"S":18014398509481987}`)
}''')

seed('c32-clear-iterator', 'C32', 'a host iterator protocol in a scope of which the context was cleared',
 'after the context of a scope is cleared, the iterators the host registered are forgotten',
 [('scope/dispatcher.go', '''		regex:        self.regex,
		iterator:     self.iterator,
''', '''		regex:        self.regex,
''')],
 '''type demoType struct{ N int64 }
type demoIter struct{}

func (self demoIter) Applicable(a types.Any) bool { _, ok := a.(demoType); return ok }
func (self demoIter) Iterate(ctx context.Context, scope types.Scope, a types.Any) <-chan types.Row {
	c := make(chan types.Row)
	go func() {
		defer close(c)
		for i := int64(0); i < a.(demoType).N; i++ {
			c <- ordereddict.NewDict().Set("i", i)
		}
	}()
	return c
}

func TestSeedDemo(t *testing.T) {
	s := demoScope(ordereddict.NewDict().Set("V", demoType{2}))
	defer s.Close()
	s.AddProtocolImpl(demoIter{})
	s.ClearContext()
	demoWant(t, s, "SELECT * FROM foreach(row=V)", `{"i":0}`, `{"i":1}`)
}''')

seed('c28-newscope-throttle', 'C28', 'a throttler and a scope derived for isolation',
 'queries in scopes derived for isolation are not charged to the throttler',
 [('scope/scope.go', '''		dispatcher: self.dispatcher.Copy(),
		throttler:  self.throttler,
''', '''		dispatcher: self.dispatcher.Copy(),
''')],
 '''type demoThrottle struct{ n int }

func (self *demoThrottle) ChargeOp() { self.n++ }
func (self *demoThrottle) Close()    {}

func TestSeedDemo(t *testing.T) {
	s := demoScope(nil)
	defer s.Close()
	th := &demoThrottle{}
	s.SetThrottler(th)
	n := s.NewScope()
	defer n.Close()
	demoRun(t, n, "SELECT * FROM range(end=5)")
	if th.n != 5 {
		t.Fatalf("%d", th.n)
	}
}''')
