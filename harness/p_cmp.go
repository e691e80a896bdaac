package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C03", Rule: "distinct ordered operand tuples (with their kinds and the form they arrive in) for which all six comparison operators were observed",
		Groups: []Group{
			{"numbers", 1500, 60000, c03numbers},
			{"times", 600, 15000, c03times},
			{"strings", 500, 10000, c03strings},
			{"anything", 1000, 30000, c03anything},
			{"boundary", 8, 8, c03boundary},
		}})
}

// hostNum presents a number in one of the kinds a host may supply.
func hostNum(c *Case) (types.Any, float64) {
	g := newGen(c.R)
	v := g.intVal()
	if c.R.Intn(2) == 0 {
		v = int64(c.R.Intn(7) - 3)
	}
	f := g.floatVal()
	if c.R.Intn(2) == 0 {
		f = float64(c.R.Intn(13)-6) / 2
	}
	switch c.R.Intn(12) {
	case 0:
		return int(v), float64(v)
	case 1:
		return int8(v % 100), float64(v % 100)
	case 2:
		x := uint8(v & 0x3f)
		return x, float64(x)
	case 3:
		x := int16(v % 1000)
		return x, float64(x)
	case 4:
		x := uint16(v & 0xfff)
		return x, float64(x)
	case 5:
		x := int32(v % 100000)
		return x, float64(x)
	case 6:
		x := uint32(v & 0xffffff)
		return x, float64(x)
	case 7:
		x := uint64(v & 0xffffffffff)
		return x, float64(x)
	case 8:
		return float32(f), float64(float32(f))
	case 9:
		b := v%2 == 0
		if b {
			return true, 1
		}
		return false, 0
	case 10:
		return f, f
	}
	return v, float64(v)
}

// forms of an operand: how it reaches the operator
var formNames = []string{"var", "col", "lazy", "mat", "call", "lazycol", "param", "lit"}

type cmpSet map[string]string

// compare evaluates the six comparisons of a and b, each arriving in the given form.
func (c *Case) compare(e *Engine, a, b types.Any, fa, fb, la, lb string) (cmpSet, bool) {
	scope := e.Scope.Copy()
	defer scope.Close()
	scope.AppendVars(ordereddict.NewDict().Set("va", a).Set("vb", b))
	scope.AppendPlugins(&tablePlugin{name: "cmprow", f: func(ctx contextT, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
		out := make(chan types.Row)
		go func() {
			defer close(out)
			select {
			case <-ctx.Done():
			case out <- ordereddict.NewDict().Set("ca", a).Set("cb", b):
			}
		}()
		return out
	}})
	form := func(f, side, lit string) string {
		switch f {
		case "col":
			return "c" + side
		case "lazy":
			return "L" + side
		case "mat":
			return "M" + side
		case "call":
			return "probe(id='x', v=v" + side + ")"
		case "lazycol":
			return "probe(id='x', v=c" + side + ")"
		case "param":
			return "F(x=v" + side + ")"
		case "lit":
			if lit != "" {
				return lit
			}
		}
		return "v" + side
	}
	x, y := form(fa, "a", la), form(fb, "b", lb)
	text := "LET La = va LET Lb = vb LET Ma <= va LET Mb <= vb LET F(x) = x\n" +
		fmt.Sprintf("SELECT %s < %s AS lt, %s <= %s AS le, %s > %s AS gt, %s >= %s AS ge, %s = %s AS eq, %s != %s AS ne, %s <> %s AS ne2, %s = %s AS qe, %s > %s AS tg FROM cmprow()",
			x, y, x, y, x, y, x, y, x, y, x, y, x, y, y, x, y, x)
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		c.Fail("does not parse: %v\n%s", err, text)
		return nil, false
	}
	var got cmpSet
	for _, v := range vqls {
		for row := range v.Eval(e.ctx, scope) {
			got = cmpSet{}
			for _, k := range []string{"lt", "le", "gt", "ge", "eq", "ne", "ne2", "qe", "tg"} {
				r, _ := scope.Associative(row, k)
				got[k] = canonE(r)
			}
		}
	}
	if got == nil {
		c.Fail("comparison of %s and %s yielded no row", canonE(a), canonE(b))
		return nil, false
	}
	c.Eval(1)
	return got, true
}

func (s cmpSet) String() string {
	return fmt.Sprintf("a<b %s, a<=b %s, a>b %s, a>=b %s, a=b %s, a!=b %s, a<>b %s, b=a %s, b>a %s", s["lt"], s["le"], s["gt"], s["ge"], s["eq"], s["ne"], s["ne2"], s["qe"], s["tg"])
}

func b2s(b bool) string { return fmt.Sprint(b) }

// always: laws for any operands
func (s cmpSet) always() string {
	var bad []string
	if s["ne"] != b2s(s["eq"] != "true") || s["ne2"] != s["ne"] {
		bad = append(bad, "!= is not the negation of =")
	}
	if s["le"] != b2s(s["lt"] == "true" || s["eq"] == "true") {
		bad = append(bad, "<= is not (< or =)")
	}
	if s["ge"] != b2s(s["gt"] == "true" || s["eq"] == "true") {
		bad = append(bad, ">= is not (> or =)")
	}
	return strings.Join(bad, "; ")
}

func (s cmpSet) ordered() string {
	var bad []string
	n := 0
	for _, k := range []string{"lt", "eq", "gt"} {
		if s[k] == "true" {
			n++
		}
	}
	if n != 1 {
		bad = append(bad, fmt.Sprintf("%d of <, =, > hold", n))
	}
	if s["lt"] != s["tg"] {
		bad = append(bad, "a<b differs from b>a")
	}
	if s["eq"] != s["qe"] {
		bad = append(bad, "equality is not symmetric")
	}
	return strings.Join(bad, "; ")
}

func (c *Case) checkPair(e *Engine, a, b types.Any, la, lb string, ordered bool, want func() (int, bool)) cmpSet {
	base, ok := c.compare(e, a, b, "var", "var", la, lb)
	if !ok {
		return nil
	}
	desc := fmt.Sprintf("a=%s (%T), b=%s (%T)", canonE(a), a, canonE(b), b)
	if bad := base.always(); bad != "" {
		c.Fail("%s: %s [%s]", desc, bad, base)
	}
	if ordered {
		if bad := base.ordered(); bad != "" {
			c.Fail("%s: %s [%s]", desc, bad, base)
		}
		if want != nil {
			if w, ok := want(); ok {
				if base["lt"] != b2s(w < 0) || base["eq"] != b2s(w == 0) || base["gt"] != b2s(w > 0) {
					c.Fail("%s: the order is wrong [%s]", desc, base)
				}
			}
		}
	}
	for i := 0; i < 2; i++ {
		fa, fb := formNames[c.R.Intn(len(formNames))], formNames[c.R.Intn(len(formNames))]
		s, ok := c.compare(e, a, b, fa, fb, la, lb)
		if ok && s.String() != base.String() {
			c.Fail("%s: as %s and %s [%s] but as variables [%s]", desc, fa, fb, s, base)
		}
		c.Seen(desc + fa + fb)
	}
	return base
}

func litOf(v types.Any) string {
	switch t := v.(type) {
	case int64:
		if t == math.MinInt64 {
			return ""
		}
		return intLit(t).Text
	case float64:
		if math.Abs(t) < 1e15 {
			return floatLit(t).Text
		}
	case bool:
		return boolLit(t).Text
	case string:
		return quoteStr(t, '\'')
	case types.Null:
		return "NULL"
	}
	return ""
}

func cmpF(a, b float64) int {
	switch {
	case a < b:
		return -1
	case a > b:
		return 1
	}
	return 0
}

func (c *Case) triple(e *Engine, v [3]types.Any, want func(i, j int) (int, bool)) {
	var lt [3][3]bool
	for i := range v {
		for j := range v {
			if c.R.Intn(3) == 0 && i == j {
				continue
			}
			i, j := i, j
			s := c.checkPair(e, v[i], v[j], litOf(v[i]), litOf(v[j]), true, func() (int, bool) { return want(i, j) })
			lt[i][j] = s != nil && s["lt"] == "true"
		}
	}
	for i := range v {
		for j := range v {
			for k := range v {
				if lt[i][j] && lt[j][k] && i != k && !lt[i][k] {
					c.Fail("< is not transitive: %v (%T), %v (%T), %v (%T)", v[i], v[i], v[j], v[j], v[k], v[k])
				}
			}
		}
	}
}

func c03numbers(c *Case) {
	e := NewEngine(nil)
	defer e.Close()
	var v [3]types.Any
	var f [3]float64
	for i := range v {
		v[i], f[i] = hostNum(c)
	}
	if c.R.Intn(4) == 0 {
		v[1], f[1] = v[0], f[0]
	}
	c.Desc("numbers %v", v)
	c.triple(e, v, func(i, j int) (int, bool) { return cmpF(f[i], f[j]), true })
	c.Sample("trichotomy, duality, symmetry, transitivity and form invariance over %T %v, %T %v, %T %v", v[0], v[0], v[1], v[1], v[2], v[2])
}

func c03strings(c *Case) {
	e := NewEngine(nil)
	defer e.Close()
	g := newGen(c.R)
	var v [3]types.Any
	for i := range v {
		v[i] = g.word()
	}
	c.Desc("strings %q", v)
	c.triple(e, v, func(i, j int) (int, bool) { return strings.Compare(v[i].(string), v[j].(string)), true })
}

// points in time, mixed with numbers which are seconds since the epoch
func c03times(c *Case) {
	e := NewEngine(nil)
	defer e.Close()
	zones := []*time.Location{time.UTC, time.Local, time.FixedZone("x", 3600*5)}
	// exact as nanoseconds and as a binary fraction
	const step = 1000000000 / 512
	var sec, part int64
	made := false
	mk := func() (types.Any, time.Time) {
		near := made && c.R.Intn(2) == 0
		if !near {
			sec = int64(c.R.Intn(5))
		}
		switch c.R.Intn(4) {
		case 0:
			if !near {
				sec = int64(c.R.Intn(1<<31)) - 1<<29
			}
		case 1:
			if !near && c.R.Intn(4) == 0 {
				sec = []int64{253402300799, -62135596800, 1 << 34, 9223372036, 9223372037, 18446744073, -9223372037}[c.R.Intn(7)]
			}
		}
		if near {
			part = (part + int64(c.R.Intn(3)) + 511) % 512
		} else if c.R.Intn(2) == 0 {
			part = int64(c.R.Intn(512))
		} else {
			part = int64(c.R.Intn(2)) * 256
		}
		made = true
		half := part * step
		t := time.Unix(sec, half).In(zones[c.R.Intn(len(zones))])
		switch c.R.Intn(7) {
		case 0:
			return &t, t
		case 1:
			return float64(sec) + float64(part)/512, t
		case 2:
			return goInt(sec, uint64(c.R.Intn(100))), time.Unix(sec, 0)
		case 3:
			t = t.Add(time.Duration(c.R.Intn(3)))
			return t, t
		}
		return t, t
	}
	var v [3]types.Any
	var w [3]time.Time
	for i := range v {
		v[i], w[i] = mk()
		if i > 0 && c.R.Intn(4) == 0 {
			v[i], w[i] = v[i-1], w[i-1]
		}
	}
	c.Desc("times %v", v)
	c.triple(e, v, func(i, j int) (int, bool) { return w[i].Compare(w[j]), true })
}

func c03anything(c *Case) {
	e := NewEngine(nil)
	defer e.Close()
	g := newGen(c.R)
	mk := func() types.Any {
		switch c.R.Intn(8) {
		case 0:
			return time.Unix(int64(c.R.Intn(5)), int64(c.R.Intn(2))*500)
		case 1:
			n, _ := hostNum(c)
			return n
		case 2:
			t := time.Unix(int64(c.R.Intn(5)), 0)
			return &t
		case 3:
			return []byte(g.word())
		case 4:
			return []string{g.word(), g.word()}
		}
		return toE(g.value("any", 2))
	}
	a, b := mk(), mk()
	if c.R.Intn(4) == 0 {
		b = a
	}
	c.Desc("a=%v (%T) b=%v (%T)", a, a, b, b)
	c.checkPair(e, a, b, litOf(a), litOf(b), false, nil)
}

// full 64 bit integers against each other
func c03boundary(c *Case) {
	e := NewEngine(nil)
	defer e.Close()
	pool := []int64{math.MinInt64, math.MinInt64 + 1, -1 << 53, -1, 0, 1, 1<<53 + 1, 1 << 53, math.MaxInt64 - 1, math.MaxInt64}
	for i := range pool {
		for j := range pool {
			if (i*len(pool)+j)%8 != c.Index {
				continue
			}
			a, b := pool[i], pool[j]
			c.Desc("%d %d", a, b)
			w := 0
			if a < b {
				w = -1
			} else if a > b {
				w = 1
			}
			c.checkPair(e, a, b, litOf(a), litOf(b), true, func() (int, bool) { return w, true })
		}
	}
}
