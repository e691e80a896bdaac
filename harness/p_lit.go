package main

import (
	"context"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"github.com/Velocidex/ordereddict"
	"www.velocidex.com/golang/vfilter"
	"www.velocidex.com/golang/vfilter/types"
)

func init() {
	register(&Property{ID: "C21",
		Rule: "Numbers: a value is chosen, written in a form of the language (decimal, hexadecimal, leading zeros, exponents) and read back through a column, lazy and materialized definitions, arguments, list members, parameter defaults, lambdas, LIMIT and the formatted text; the value read must have the same type and bits (integers exactly, floats the nearest to the decimal written, by big.Float). Strings: any bytes are encoded by the harness (random choice of raw characters, documented escapes, hex escapes, either quote, or triple quotes) and read back the same ways. Names: any characters other than the backtick are used as the name of a column, alias, variable, definition, parameter, argument, field and in ORDER BY, GROUP BY and lambdas, next to near-miss names which must not be confused with it. Non-trivial: distinct literals and names read back.",
		Groups: []Group{
			{"ints", 1500, 60000, c21ints},
			{"floats", 1500, 60000, c21floats},
			{"strings", 2500, 100000, c21strings},
			{"names", 2500, 100000, c21names},
			{"bytes", 256, 256, c21bytes},
			{"fixed", len(c21fixedForms), len(c21fixedForms), c21fixed},
		}})
}

func litScope() (types.Scope, *[]string) {
	scope := vfilter.NewScope()
	oneRow(scope, ordereddict.NewDict().Set("q", 1))
	logs := &[]string{}
	return scope, logs
}

// columnV evaluates the statements in a fresh scope and gives column v of the only row of the last.
func columnV(text string, twice bool) (types.Any, error) {
	scope, _ := litScope()
	defer scope.Close()
	vqls, err := vfilter.MultiParse(text)
	if err != nil {
		return nil, err
	}
	var res types.Any
	for i, v := range vqls {
		n := 1
		if twice && i == len(vqls)-1 {
			n = 2
		}
		for ; n > 0; n-- {
			rows := []types.Row{}
			for r := range v.Eval(context.Background(), scope) {
				rows = append(rows, r)
			}
			if i == len(vqls)-1 {
				if len(rows) != 1 {
					return nil, fmt.Errorf("%d rows", len(rows))
				}
				x, pres := scope.Associative(rows[0], "v")
				if !pres {
					return nil, fmt.Errorf("no column v in %v", scope.GetMembers(rows[0]))
				}
				for {
					l, ok := x.(types.LazyExpr)
					if !ok {
						break
					}
					x = l.Reduce(context.Background())
				}
				res = x
			}
		}
	}
	return res, nil
}

var litForms = []string{
	"SELECT § AS v FROM cmprow()",
	"LET X = § SELECT X AS v FROM cmprow()",
	"LET X <= § SELECT X AS v FROM cmprow()",
	"LET F(p=§) = p SELECT F() AS v FROM cmprow()",
	"LET F(p) = p SELECT F(p=§) AS v FROM cmprow()",
	"SELECT dict(a=§).a AS v FROM cmprow()",
	"SELECT dict(a=[§,]).a[0] AS v FROM cmprow()",
	"SELECT (1, §)[1] AS v FROM cmprow()",
	"SELECT (§) AS v FROM cmprow()",
	"SELECT if(condition=TRUE, then=§) AS v FROM cmprow()",
	"SELECT { SELECT § AS x FROM cmprow() } AS v FROM cmprow()",
	"LET Q = SELECT § AS x FROM cmprow() SELECT x AS v FROM Q",
	"LET Q(p) = SELECT p AS v FROM cmprow() SELECT * FROM Q(p=§)",
	"SELECT § || 1 AS v FROM cmprow() WHERE § = §",
}

// readBack checks that the literal has the value in every form
func (c *Case) readBack(lit string, want types.Any, truthy bool) {
	c.Desc("%s", lit)
	same := func(v types.Any) bool {
		switch w := want.(type) {
		case float64:
			g, ok := v.(float64)
			return ok && math.Float64bits(g) == math.Float64bits(w)
		}
		return v == want
	}
	forms := litForms
	if !truthy {
		forms = forms[:len(forms)-1]
	}
	for _, f := range forms {
		text := strings.ReplaceAll(f, "§", lit)
		for k := 0; k < 2; k++ {
			got, err := columnV(text, k == 0)
			if err != nil {
				c.Fail("%s: %v", text, err)
				return
			}
			if !same(got) {
				c.Fail("%s gives %T %#v, want %T %#v", text, got, got, want, want)
				return
			}
			c.Eval(1)
			if k == 0 {
				// and the formatted text
				vqls, err := vfilter.MultiParse(text)
				if err != nil {
					c.Fail("%s: %v", text, err)
					return
				}
				text = formatAll(vqls, vfilter.ToStringOptions)
			}
		}
	}
	// a lambda
	l, err := vfilter.ParseLambda("x => " + lit)
	if err != nil {
		c.Fail("x => %s: %v", lit, err)
		return
	}
	scope, _ := litScope()
	defer scope.Close()
	if got := l.Reduce(context.Background(), scope, []types.Any{1}); !same(got) {
		c.Fail("lambda x => %s gives %T %#v, want %T %#v", lit, got, got, want, want)
		return
	}
	c.Seen(lit)
	c.Sample("%s is %T %#v", lit, want, want)
}

func (c *Case) anyInt() int64 {
	switch c.R.Intn(6) {
	case 0:
		return int64(c.R.Uint64())
	case 1:
		return int64(c.R.Intn(2000) - 1000)
	case 2: // around the powers of two
		return int64(uint64(1)<<uint(c.R.Intn(64))) + int64(c.R.Intn(5)-2)
	case 3: // around the powers of ten
		n := int64(1)
		for i := c.R.Intn(19); i > 0; i-- {
			n *= 10
		}
		n += int64(c.R.Intn(5) - 2)
		if c.R.Intn(2) == 0 {
			n = -n
		}
		return n
	case 4:
		return []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1, 1<<53 + 1, -1<<53 - 1, math.MaxInt32, math.MinInt32, math.MaxUint32, 0, 8, 10, 64}[c.R.Intn(13)]
	}
	return int64(c.R.Uint64() >> uint(c.R.Intn(64)))
}

func c21ints(c *Case) {
	n := c.anyInt()
	mag := new(big.Int).Abs(big.NewInt(n)).Text
	sign := ""
	if n < 0 {
		sign = "-"
	}
	var lit string
	switch c.R.Intn(5) {
	case 0:
		lit = sign + "0x" + mag(16)
	case 1:
		lit = sign + "0x" + strings.Repeat("0", c.R.Intn(4)) + strings.ToUpper(mag(16))
	case 2: // the octal form
		lit = sign + "0" + mag(8)
	default:
		lit = sign + mag(10)
	}
	if n == 0 && c.R.Intn(2) == 0 {
		lit = c.one("0", "-0", "00", "0x0", "-0x00")
	}
	c.readBack(lit, n, n > 0)
	if n > 0 && n < 6 {
		// LIMIT takes the same numbers
		scope, _ := litScope()
		defer scope.Close()
		text := "SELECT * FROM range(start=0, end=9, step=1) LIMIT " + lit
		v, err := vfilter.Parse(text)
		if err != nil {
			c.Fail("%s: %v", text, err)
			return
		}
		rows := 0
		for range v.Eval(context.Background(), scope) {
			rows++
		}
		if int64(rows) != n {
			c.Fail("%s gives %d rows", text, rows)
		}
		c.Count("limits", 1)
	}
}

func c21floats(c *Case) {
	var lit string
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + c.R.Intn(10))
		}
		return string(b)
	}
	switch c.R.Intn(7) {
	case 0:
		lit = digits(1+c.R.Intn(20)) + "." + digits(1+c.R.Intn(25))
	case 1:
		lit = "." + digits(1+c.R.Intn(25))
	case 2:
		lit = digits(1+c.R.Intn(5)) + c.one("e", "E", "e+", "E-", "e-") + fmt.Sprint(c.R.Intn(290))
	case 3:
		lit = digits(1+c.R.Intn(3)) + "." + digits(1+c.R.Intn(20)) + c.one("e", "E", "e+", "E-", "e-") + fmt.Sprint(c.R.Intn(290))
	case 4:
		f := math.Abs(math.Float64frombits(c.R.Uint64()))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		lit = strconv.FormatFloat(f, c.one("e", "f", "g")[0], -1, 64)
		if !strings.ContainsAny(lit, ".e") {
			lit += ".0"
		}
	case 5: // integers beyond 64 bits
		lit = c.one("9223372036854775809", "18446744073709551615", "18446744073709551616", "1"+digits(19+c.R.Intn(30)))
	default: // halfway cases
		b := new(big.Float).SetPrec(200).SetInt64(1<<53 + int64(c.R.Intn(1000)))
		b.Add(b, big.NewFloat(0.5))
		b.SetMantExp(b, c.R.Intn(60)-50)
		lit = b.Text('f', 120)
		if c.R.Intn(2) == 0 {
			lit += "1"
		}
	}
	if c.R.Intn(3) == 0 {
		lit = "-" + lit
	}
	b, _, err := big.ParseFloat(lit, 10, 4000, big.ToNearestEven)
	if err != nil {
		c.Fail("harness: %s: %v", lit, err)
		return
	}
	want, _ := b.Float64()
	if math.IsInf(want, 0) {
		want = 0
		c.Count("out_of_range", 1)
		return
	}
	if want == 0 && strings.HasPrefix(lit, "-") {
		want = math.Copysign(0, -1)
	}
	c.readBack(lit, want, want > 0)
}

// encodeStr writes any bytes as a literal in one of the many ways
func (c *Case) encodeStr(s string) string {
	if c.R.Intn(4) == 0 && !strings.Contains(s, "''") && !strings.HasPrefix(s, "'") && !strings.HasSuffix(s, "'") {
		return "'''" + s + "'''"
	}
	q := byte('\'')
	if c.R.Intn(2) == 0 {
		q = '"'
	}
	style := c.R.Intn(4)
	var b strings.Builder
	b.WriteByte(q)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		hex := func() {
			f := c.one("\\x%02x", "\\x%02X", "\\X%02x")
			fmt.Fprintf(&b, f, ch)
		}
		switch {
		case style == 3 || style == 2 && c.R.Intn(4) == 0:
			hex()
		case ch == q || ch == '\\':
			b.WriteByte('\\')
			b.WriteByte(ch)
		case ch == '\n' && c.R.Intn(3) > 0:
			b.WriteString("\\n")
		case ch == '\r' && c.R.Intn(3) > 0:
			b.WriteString("\\r")
		case ch == '\t' && c.R.Intn(3) > 0:
			b.WriteString("\\t")
		case (ch == '\'' || ch == '"') && c.R.Intn(2) == 0:
			b.WriteByte('\\')
			b.WriteByte(ch)
		case ch >= 0x80 && !validAt(s, i):
			hex() // not a character
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte(q)
	return b.String()
}

// validAt: the byte belongs to a well formed character
func validAt(s string, i int) bool {
	for j := i; j >= 0 && j > i-4; j-- {
		if s[j] >= 0xc0 {
			r := []rune(s[j:])
			return len(r) > 0 && r[0] != 0xfffd && j+len(string(r[0])) > i
		}
		if s[j] < 0x80 {
			return false
		}
	}
	return false
}

func (c *Case) anyString() string {
	var b strings.Builder
	n := c.R.Intn(10)
	if c.R.Intn(20) == 0 {
		n = c.R.Intn(3000)
	}
	for ; n > 0; n-- {
		switch c.R.Intn(5) {
		case 0:
			b.WriteByte(byte(c.R.Intn(256)))
		case 1:
			b.WriteRune(rune(c.R.Intn(0x2ff)))
		default:
			b.WriteString(c.one("a", "b", " ", "'", "\"", "\\", "`", "\n", "\r", "\t", "x41", "\\x", "\\n", "é", "日", "𝔘", "--", "/*", "*/", "//", "%s", "{", "}", "\x00", "\xff", "0", "''", "\\\\", "u00e9", "=", "SELECT", "\u2028"))
		}
	}
	return b.String()
}

func c21strings(c *Case) {
	s := c.anyString()
	lit := c.encodeStr(s)
	c.readBack(lit, s, s != "")
}

// every byte in every form
func c21bytes(c *Case) {
	s := string([]byte{byte(c.Index)})
	for _, t := range []string{s, "a" + s, s + "b", "a" + s + s + "b"} {
		c.desc = ""
		c.readBack(fmt.Sprintf("'%s'", hexAll(t)), t, t != "")
		c.desc = ""
		if c.Index < 0x80 {
			l := t
			if c.Index == '\'' || c.Index == '\\' {
				l = strings.ReplaceAll(t, s, "\\"+s)
			}
			c.readBack("'"+l+"'", t, t != "")
			if c.Index != '\'' {
				c.desc = ""
				c.readBack("'''"+t+"'''", t, t != "")
			}
		}
	}
}

func hexAll(s string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		out += fmt.Sprintf("\\x%02x", s[i])
	}
	return out
}

var c21fixedForms = []struct {
	lit  string
	want types.Any
}{
	{"''", ""}, {`""`, ""}, {"''''''", ""},
	{`'a\'b'`, "a'b"}, {`"a\"b"`, `a"b`}, {`'a"b'`, `a"b`}, {`"a'b"`, "a'b"},
	{`'\\n'`, `\n`}, {`'\\\n'`, "\\\n"}, {`'C:\\Windows\\x41'`, `C:\Windows\x41`},
	{`'''C:\Windows\x41\'''`, `C:\Windows\x41\`}, {`'''a'b''c'''`, "a'b''c"}, {`'''"'''`, `"`},
	{`'a\xzzb'`, `a\xzzb`}, {`'\n\n\xzzb'`, "\n\n\\xzzb"}, {`'\n\xg1'`, "\n\\xg1"}, {`'\x41\xzz\x42'`, `A\xzzB`},
	{`'\xff\xfe'`, "\xff\xfe"}, {`'\xc3\xa9'`, "é"}, {`'\X41'`, "A"},
	{"'a\nb'", "a\nb"}, {"'''a\nb'''", "a\nb"}, {"'a\\\nb'", "a\nb"},
	{`'\q'`, "q"}, {`'\-\.'`, "-."},
	{"0", int64(0)}, {"010", int64(8)}, {"-010", int64(-8)}, {"0777", int64(511)}, {"0x10", int64(16)}, {"0xabcdef", int64(0xabcdef)}, {"0xABCDEF", int64(0xabcdef)},
	{"1.0", 1.0}, {"1e3", 1000.0}, {"1E3", 1000.0}, {".5", 0.5}, {"-.5", -0.5}, {"5e-324", 5e-324}, {"1.7976931348623157e308", math.MaxFloat64},
	{"9223372036854775807", int64(math.MaxInt64)}, {"-9223372036854775808", int64(math.MinInt64)}, {"0x7fffffffffffffff", int64(math.MaxInt64)}, {"-0x8000000000000000", int64(math.MinInt64)},
	{"0777777777777777777777", int64(math.MaxInt64)},
	{"0.1", 0.1}, {"1e-3", 0.001}, {"100000000000000000000.5", 1e20}, {"08.5", 8.5}, {"1e023", 1e23},
	{"TRUE", true}, {"false", false}, {"True", true}, {"NULL", types.Null{}},
}

func c21fixed(c *Case) {
	f := c21fixedForms[c.Index]
	truthy := false
	switch t := f.want.(type) {
	case string:
		truthy = t != ""
	case int64:
		truthy = t > 0
	case float64:
		truthy = t > 0
	}
	c.readBack(f.lit, f.want, truthy)
}

// ---------------------------------------------------------------- names

func (c *Case) anyName() string {
	if c.R.Intn(3) == 0 {
		return oddName(c.R)
	}
	s := strings.ReplaceAll(c.anyString(), "`", "q")
	if s == "" {
		return "a b"
	}
	if !strings.Contains(s, "\xff") && c.R.Intn(3) == 0 {
		s = c.one("-", ".", " ", "0", "$", "'", "\\n", "\\") + s
	}
	return strings.ToValidUTF8(s, "?")
}

// nearMisses are names one might confuse with n
func nearMisses(n string) []string {
	all := []string{n + " ", " " + n, strings.TrimPrefix(n, "-"), "-" + n, strings.ToLower(n), strings.ToUpper(n), strings.ReplaceAll(n, "\\n", "\n"), strings.ReplaceAll(n, "\\\\", "\\"), strings.TrimSpace(n), "`" + n + "`", strings.Split(n, ".")[0], strings.Trim(n, "'\"")}
	var out []string
	for _, m := range all {
		if m != n && m != "" {
			out = append(out, m)
		}
	}
	return out
}

// the quoted name is §, a plain second name is x2
var nameForms = []struct{ text, want string }{
	{"SELECT 1 AS § FROM cmprow()", "alias"},
	{"SELECT § AS v FROM cmprow()", "column"},
	{"SELECT § FROM cmprow()", "column itself"},
	{"SELECT var.§ AS v FROM cmprow()", "field"},
	{"SELECT (var).§ AS v FROM cmprow()", "field"},
	{"SELECT dict(§=42).§ AS v FROM cmprow()", "argument"},
	{"SELECT dict(x2=1, §=[42,]) AS v FROM cmprow()", "argument list"},
	{"LET § = 42 SELECT § AS v FROM onlyq()", "definition"},
	{"LET § <= 42 SELECT § AS v FROM onlyq()", "definition"},
	{"LET §(x2) = x2 SELECT §(x2=42) AS v FROM onlyq()", "definition"},
	{"LET F(§) = § SELECT F(§=42) AS v FROM onlyq()", "parameter"},
	{"LET F(§=42) = § SELECT F() AS v FROM onlyq()", "default"},
	{"LET F(§={ SELECT * FROM onlyq() }) = § SELECT F().q[0] AS v FROM onlyq()", "query default"},
	{"LET § = SELECT 42 AS v FROM onlyq() SELECT * FROM §", "table"},
	{"LET §(x2) = SELECT x2 AS v FROM onlyq() SELECT * FROM §(x2=42)", "table"},
	{"LET Q = SELECT 42 AS §, 1 AS x2 FROM onlyq() SELECT § AS v FROM Q", "column of a query"},
	{"LET Q = SELECT 42 AS §, 1 AS x2 FROM onlyq() SELECT Q.§[0] AS v FROM onlyq()", "column of a query"},
	{"SELECT * FROM foreach(row={ SELECT 42 AS § FROM onlyq() }, query={ SELECT § AS v FROM onlyq() })", "column of a row"},
	{"SELECT count() AS v FROM three() GROUP BY §", "group"},
	{"SELECT § FROM three() ORDER BY § LIMIT 1", "order"},
	{"SELECT § FROM three() ORDER BY § DESC LIMIT 1", "order"},
	{"SELECT 42 AS § FROM onlyq() WHERE § = 42", "alias in WHERE"},
	{"SELECT -§ AS v FROM cmprow()", "negated"},
}

func c21names(c *Case) {
	n := c.anyName()
	if n == "$Query" || n == "q" || n == "x2" { // the engine's own, and this test's
		n += " "
	}
	c.Desc("%q", n)
	scope := vfilter.NewScope()
	defer scope.Close()
	row := ordereddict.NewDict()
	for i, m := range nearMisses(n) {
		if i%2 == 0 {
			row.Set(m, 1000+i)
		}
	}
	row.Set(n, int64(42))
	for i, m := range nearMisses(n) {
		if i%2 == 1 {
			row.Set(m, 1000+i)
		}
	}
	row.Set(n, int64(42))
	table := func(name string, rows ...types.Row) {
		scope.AppendPlugins(&tablePlugin{name: name, f: func(ctx contextT, s types.Scope, args *ordereddict.Dict) <-chan types.Row {
			out := make(chan types.Row)
			go func() {
				defer close(out)
				for _, r := range rows {
					select {
					case <-ctx.Done():
						return
					case out <- r:
					}
				}
			}()
			return out
		}})
	}
	table("cmprow", row)
	table("onlyq", ordereddict.NewDict().Set("q", int64(42)))
	var three []types.Row
	for _, i := range []int64{5, 3, 9} {
		d := ordereddict.NewDict().Set(n, i)
		for _, m := range nearMisses(n) {
			d.Set(m, 100-i)
		}
		d.Set(n, i)
		three = append(three, d)
	}
	table("three", three...)
	scope.AppendVars(ordereddict.NewDict().Set("var", row))
	quoted := "`" + n + "`"
	use := nameForms
	for _, f := range use {
		text := strings.ReplaceAll(f.text, "§", quoted)
		sub := scope.Copy()
		vqls, err := vfilter.MultiParse(text)
		if err != nil {
			c.Fail("%s: %v", text, err)
			return
		}
		var rows []types.Row
		for _, v := range vqls {
			rows = nil
			for r := range v.Eval(context.Background(), sub) {
				rows = append(rows, vfilter.RowToDict(context.Background(), sub, r))
			}
		}
		want := []string{"v"}
		value := "42"
		switch f.want {
		case "alias":
			want, value = []string{n}, "1"
		case "column itself", "alias in WHERE":
			want = []string{n}
		case "negated":
			value = "-42"
		case "argument list":
			value = fmt.Sprintf("{%q:1,%q:[42]}", "x2", n)
			if n == "x2" {
				continue
			}
		case "order":
			want, value = []string{n}, "3"
			if strings.Contains(text, "DESC LIMIT") {
				value = "9"
			}
		case "group":
			value = "1"
		}
		nrows := 1
		if f.want == "group" {
			nrows = 3
		}
		if len(rows) != nrows {
			c.Fail("%s (%s): %d rows, want %d", text, f.want, len(rows), nrows)
			return
		}
		members := sub.GetMembers(rows[0])
		if len(members) != 1 || members[0] != want[0] {
			c.Fail("%s (%s): columns %q, want %q", text, f.want, members, want)
			return
		}
		d := rows[0].(*ordereddict.Dict)
		got, _ := d.Get(want[0])
		gs := fmt.Sprint(got)
		if gd, ok := got.(*ordereddict.Dict); ok {
			parts := []string{}
			for _, i := range gd.Items() {
				parts = append(parts, fmt.Sprintf("%q:%v", i.Key, i.Value))
			}
			gs = "{" + strings.Join(parts, ",") + "}"
		}
		if gs != value {
			c.Fail("%s (%s): gives %s, want %s", text, f.want, gs, value)
			return
		}
		sub.Close()
		c.Eval(1)
	}
	// lambdas
	l, err := vfilter.ParseLambda(quoted + ", x2 => " + quoted)
	if err != nil {
		c.Fail("lambda of %s: %v", quoted, err)
		return
	}
	if n != "x2" {
		if got := l.Reduce(context.Background(), scope, []types.Any{int64(42), int64(1)}); got != int64(42) {
			c.Fail("%s, x2 => %s gives %v", quoted, quoted, got)
		}
	}
	c.Seen(n)
	c.Sample("%q", n)
}
