package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// A reference lexer of the query language, written from its documentation: it splits text into white space,
// comments, keywords, numbers, names, strings and operators.

type Tok struct {
	Kind string // space comment kw num name str op bad
	Text string
	Off  int
}

func refLex(s string) []Tok {
	var out []Tok
	add := func(kind string, i, j int) int {
		out = append(out, Tok{kind, s[i:j], i})
		return j
	}
	isWord := func(b byte) bool {
		return b == '_' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
	}
	for i := 0; i < len(s); {
		c := s[i]
		rest := s[i:]
		switch {
		case strings.IndexByte(" \t\n\r\f", c) >= 0:
			j := i
			for j < len(s) && strings.IndexByte(" \t\n\r\f", s[j]) >= 0 {
				j++
			}
			i = add("space", i, j)
		case strings.HasPrefix(rest, "/*") && strings.Contains(rest[2:], "*/"):
			i = add("comment", i, i+2+strings.Index(rest[2:], "*/")+2)
		case strings.HasPrefix(rest, "--"), strings.HasPrefix(rest, "//"):
			j := strings.IndexByte(rest, '\n')
			if j < 0 {
				j = len(rest)
			}
			i = add("comment", i, i+j)
		case strings.HasPrefix(rest, "'''") && strings.Contains(rest[3:], "'''"):
			i = add("str", i, i+3+strings.Index(rest[3:], "'''")+3)
		case c == '\'' || c == '"':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				i = add("bad", i, len(s))
			} else {
				i = add("str", i, j+1)
			}
		case numLen(rest) > 0:
			i = add("num", i, i+numLen(rest))
		case c == '`' || c == '-' && len(rest) > 1 && rest[1] == '`':
			k := strings.IndexByte(rest, '`') + 1
			j := strings.IndexByte(rest[k:], '`')
			if j <= 0 {
				if c == '-' {
					i = add("op", i, i+1)
				} else {
					i = add("bad", i, i+1)
				}
			} else {
				i = add("name", i, i+k+j+1)
			}
		case isWord(c) || c == '-' && len(rest) > 1 && isWord(rest[1]):
			j := i + 1
			for j < len(s) && isWord(s[j]) {
				j++
			}
			word := strings.ToUpper(s[i:j])
			if word == "GROUP" || word == "ORDER" {
				k := j
				for k < len(s) && strings.IndexByte(" \t\n\r\f", s[k]) >= 0 {
					k++
				}
				if k > j && k+2 <= len(s) && strings.EqualFold(s[k:k+2], "by") && (k+2 == len(s) || !isWord(s[k+2])) {
					i = add("kw", i, k+2)
					continue
				}
			}
			kind := "name"
			if keywords[word] && word != "GROUP" && word != "ORDER" && word != "BY" {
				kind = "kw"
			}
			i = add(kind, i, j)
		default:
			n := 1
			for _, op := range []string{"<>", "!=", "<=", ">=", "=>", "=~", "&&"} {
				if strings.HasPrefix(rest, op) {
					n = 2
				}
			}
			if c == '|' {
				for n < len(rest) && rest[n] == '|' {
					n++
				}
			}
			if strings.IndexByte("<>!=&|-+:*/%,.(){}[]", c) < 0 || n == 1 && (c == '!' || c == '&') {
				_, n = utf8.DecodeRuneInString(rest)
				i = add("bad", i, i+n)
				continue
			}
			i = add("op", i, i+n)
		}
	}
	return out
}

// numLen: -?(0x hex | digits | digits.digits | .digits)(e exponent)?
func numLen(s string) int {
	i := 0
	if strings.HasPrefix(s, "-") {
		i = 1
	}
	digits := func(j int) int {
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		return j
	}
	if strings.HasPrefix(s[i:], "0x") {
		j := i + 2
		for j < len(s) && strings.IndexByte("0123456789abcdefABCDEF", s[j]) >= 0 {
			j++
		}
		if j > i+2 {
			return j
		}
	}
	j := digits(i)
	if j < len(s) && s[j] == '.' && digits(j+1) > j+1 {
		j = digits(j + 1)
	} else if j == i {
		return 0
	}
	if j < len(s) && (s[j] == 'e' || s[j] == 'E') {
		k := j + 1
		if k < len(s) && (s[k] == '+' || s[k] == '-') {
			k++
		}
		if digits(k) > k {
			j = digits(k)
		}
	}
	return j
}

// normal is what a token says whatever its spelling: keywords in capitals, numbers by value
func (t Tok) normal() string {
	switch t.Kind {
	case "kw":
		return strings.Join(strings.Fields(strings.ToUpper(t.Text)), " ")
	case "num":
		if v, err := strconv.ParseInt(t.Text, 0, 64); err == nil {
			return "i" + strconv.FormatInt(v, 10)
		}
		v, _ := strconv.ParseFloat(t.Text, 64)
		return "f" + strconv.FormatFloat(v, 'g', -1, 64)
	}
	return t.Text
}

// significant drops white space and comments
func significant(toks []Tok) (sig []string, comments []string) {
	for _, t := range toks {
		switch t.Kind {
		case "space":
		case "comment":
			comments = append(comments, strings.TrimRight(t.Text, " \r"))
		default:
			sig = append(sig, t.normal())
		}
	}
	return
}

// diffToks describes the first difference of two token sequences, or ""
func diffToks(a, b []string) string {
	for i := 0; i < len(a) || i < len(b); i++ {
		x, y := "(end)", "(end)"
		if i < len(a) {
			x = a[i]
		}
		if i < len(b) {
			y = b[i]
		}
		if x != y {
			lo := max(0, i-4)
			return "token " + strconv.Itoa(i) + " after " + strings.Join(a[lo:i], " ") + " is " + x + " in the first, " + y + " in the second"
		}
	}
	return ""
}
