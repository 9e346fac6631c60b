package main

import (
	"strings"
)

// dictionary for mutations: tokens of the language and things close to them.
var dict = []string{
	"if", "else", "switch", "case", "default", "val", "const", "input", "output", "def", "type", "enum", "object", "null", "true", "false",
	"a", "b", "foo", "foo-bar", "x1", "-", "a-", "if-a", "_", "__", "é",
	"0", "1", "08", "0x", "0xG", "0b2", "0o8", "1_", "1__0", "_1", "1.5", ".5", "5.", "1e5", "1e", "1e+", "0x1p4", "00", "1e5e5", "1.2.3", "0b", "017", "0_7",
	"(", ")", "{", "}", "[", "]", ",", ":", ".", "=", "==", "!=", "=>", "->", "<=", ">=", "<", ">", "<<", ">>", "&&", "||", "&", "|", "^", "!", "~", "+", "*", "/", "%", "?", "??", "..", "::", "+=", "===", ";", "@", "`", "\\", "$", "\x00", "\xff", "\xc3\x28", "\u00a0", "\u2028", "\ufeff",
	"\"", "'", "\"\"", "''", "\"a\"", "'b'", "\"${", "${", "}\"", "%{", "$${", "%%{", "\\n", "\\", "\\u", "\\u12", "\\u1234", "\\u12345678", "\"\\",
	"<<EOF\n", "<<-EOF\n", "EOF", "\nEOF\n", "<<EOF", "<<EOF\nEOF", "<<E\nx\nE\n", "<<\n", "<<-\n", "<<EOF \n",
	"//", "// c\n", "# c\n", "/*", "*/", "/* c */", "/**/", "#",
	"\n", "\r", "\r\n", "\n\n", " ", "\t", "\v", "\f",
	"a = 1\n", "b {}\n", "val x = 1\n", "def f() {}\n", "type T enum {}\n", "type T object { a: b }\n", "if a {b}", "if a {b} else {c}", "switch a { case b: {c} }", "case a:", "default: {x}", "(a)", "[a]", "{a = 1}", "a(b)", "a.b", "a[0]", "() -> int", "a ? b : c", "-a", "!a",
}

// mutate changes a document in one to three places.
func mutate(r *rng, src string, other func() string) string {
	for k := 1 + r.weighted(6, 2, 1); k > 0; k-- {
		src = mutateOnce(r, src, other)
	}
	return src
}

func mutateOnce(r *rng, src string, other func() string) string {
	if r.p(8) {
		// Empty a literal or a pair of brackets.
		if toks, _ := refLex(src); len(toks) > 0 {
			at := r.n(len(toks))
			for k := range toks {
				i := (at + k) % len(toks)
				switch toks[i].K {
				case "str", "heredoc", "(", "[", "{":
					if e := closing(toks, i); e > i+1 {
						return src[:toks[i].end()] + src[toks[e].Off:]
					}
				}
			}
		}
	}
	if r.p(65) {
		if toks, _ := refLex(src); len(toks) > 0 {
			i := r.n(len(toks))
			a, b := toks[i].Off, toks[i].end()
			switch r.n(8) {
			case 0, 1: // delete
				return src[:a] + src[b:]
			case 2: // duplicate
				return src[:b] + pick(r, "", " ") + src[a:b] + src[b:]
			case 3: // insert
				return src[:a] + pick(r, "", " ") + pick(r, dict...) + pick(r, "", " ") + src[a:]
			case 4: // replace
				return src[:a] + pick(r, dict...) + src[b:]
			case 5: // another token of the document
				j := r.n(len(toks))
				return src[:a] + toks[j].V + src[b:]
			case 6: // swap
				j := r.n(len(toks))
				if j < i {
					i, j = j, i
				}
				if i == j {
					return src[:a]
				}
				return src[:toks[i].Off] + toks[j].V + src[toks[i].end():toks[j].Off] + toks[i].V + src[toks[j].end():]
			default: // move
				j := r.n(len(toks))
				if toks[j].Off >= b {
					return src[:a] + src[b:toks[j].Off] + " " + src[a:b] + " " + src[toks[j].Off:]
				}
				return src[:toks[j].Off] + " " + src[a:b] + " " + src[toks[j].Off:a] + src[b:]
			}
		}
	}
	at := r.n(len(src) + 1)
	switch r.n(7) {
	case 0: // truncate
		return src[:at]
	case 1: // cut
		end := at + r.n(12)
		if end > len(src) {
			end = len(src)
		}
		return src[:at] + src[end:]
	case 2:
		return src[:at] + pick(r, dict...) + src[at:]
	case 3: // splice
		o := other()
		return src[:at] + o[r.n(len(o)+1):]
	case 4: // a random byte
		b := []byte(src)
		if at < len(b) {
			b[at] = byte(r.n(256))
		}
		return string(b)
	case 5:
		return src[:at] + string(rune(pick(r, ' ', '\n', '"', '\'', '{', '}', '(', ')', '$', '\\', 'é', '€', '\t', '\r', '.', ',', '='))) + src[at:]
	default: // repeat a part
		end := at + r.n(20)
		if end > len(src) {
			end = len(src)
		}
		return src[:end] + src[at:end] + src[end:]
	}
}

// closing is the index of the token that closes the one at i, or 0.
func closing(toks []tok, i int) int {
	d := 0
	for ; i < len(toks); i++ {
		switch toks[i].K {
		case "str", "heredoc", "(", "[", "{", "${", "%{":
			d++
		case "str-end", "heredoc-end", ")", "]", "}", "expr-end":
			if d--; d == 0 {
				return i
			}
		}
	}
	return 0
}

// soup is a random sequence of dictionary entries.
func soup(r *rng) string {
	var sb strings.Builder
	for k := r.n(40); k > 0; k-- {
		sb.WriteString(pick(r, dict...))
		if r.p(60) {
			sb.WriteString(pick(r, " ", " ", "\n"))
		}
	}
	return sb.String()
}

// deep nests one construct in itself, sometimes leaving it open.
func deep(r *rng, max int) string {
	type wrap struct{ open, close string }
	all := []wrap{
		{"(", ")"}, {"[", "]"}, {"{a = ", "}"}, {"f(", ")"}, {"a[", "]"}, {"\"${", "}\""}, {"'%{", "}'"}, {"if a {", "}"}, {"(-", ")"},
		{"switch a { case b: {", "} }"}, {"[\n", "\n]"}, {"{\"k\": ", "}"}, {"if a { b } else {", "}"}, {"(a + ", ")"}, {"(", " * b)"}, {"a.b(c, ", ")"},
		{"<<E\n${", "}\nE\n"},
	}
	n := 1 + r.n(max)
	mixed := r.p(40)
	w := pick(r, all...)
	var open, closing string
	heredocs := 0
	for i := 0; i < n; i++ {
		if mixed {
			w = pick(r, all...)
		}
		x := w
		if strings.HasPrefix(x.open, "<<") {
			if heredocs++; heredocs > 8 {
				x = all[0]
			}
		}
		if x.open == "switch a { case b: {" || strings.Contains(x.open, "else") {
			i++ // opens two levels
		}
		open += x.open
		closing = x.close + closing
	}
	inner := pick(r, "x", "1", "\"s\"", "a + b", "")
	switch r.n(8) {
	case 0:
		closing = closing[:r.n(len(closing)+1)]
	case 1:
		closing += ")"
	}
	lead := pick(r, "a = ", "val x = ", "b { c = ", "def f() { ", "type T enum { A: ")
	tail := ""
	switch lead[0] {
	case 'b', 'd', 't':
		tail = " }"
	}
	if r.p(10) {
		// Types and blocks nest as well.
		if r.p(50) {
			return "val x: " + strings.Repeat("(", n) + "a" + strings.Repeat(") -> b", n)
		}
		return strings.Repeat("b {\n", n) + strings.Repeat("}\n", n)
	}
	return lead + open + inner + closing + tail + "\n"
}

// nesting is an upper bound of how deep brackets nest in a text.
func nesting(src string) int {
	d, max := 0, 0
	for i := 0; i < len(src); i++ {
		switch src[i] {
		case '(', '[', '{':
			if d++; d > max {
				max = d
			}
		case ')', ']', '}':
			if d > 0 {
				d--
			}
		}
	}
	return max
}

// source makes a document text of the given kind for a case.
func (c *C) source() (src, kind string) {
	if c.given != nil {
		return *c.given, "swept"
	}
	r := c.r
	gen := func() string {
		g := newGen(r)
		return render(g.doc(1+r.n(5)), r.fork(), r.fork())
	}
	switch r.weighted(5, 7, 1, 1, 24) {
	case 0:
		return gen(), "generated"
	case 4:
		return tiny(r), "small"
	case 1:
		g := gen()
		return mutate(r, g, gen), "mutated"
	case 2:
		return soup(r), "soup"
	}
	return deep(r, 30), "nested"
}

// lookAlike is a text of the same length that differs in one character of a
// name, number or text, often near its end.
func lookAlike(r *rng, src string) string {
	from := 0
	if r.p(60) {
		from = len(src) * 2 / 3
	}
	for try := 0; try < 30 && from < len(src); try++ {
		i := from + r.n(len(src)-from)
		b := src[i]
		switch {
		case b >= 'a' && b <= 'z' && r.p(95):
			b = 'a' + (b-'a'+1)%26
		case b >= 'A' && b <= 'Z':
			b = 'A' + (b-'A'+1)%26
		case b >= '1' && b <= '6':
			b++
		case b == '+':
			b = '-'
		case b == '<':
			b = '>'
		default:
			continue
		}
		return src[:i] + string(b) + src[i+1:]
	}
	return src
}
