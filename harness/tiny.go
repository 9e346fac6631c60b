package main

import "strings"

// Small documents, one or more for each production of the grammar. Their
// edits by one token or one character are the boundary of the language.
var tinies = []string{
	"val x = 1\n", "input x\n", "output x: int\n", "const x: a.b.c = y\n", "val x: (a, b) -> c = 1\n", "val f: () -> () -> a\n", "val f: (a) -> b\nval y\n",
	"def f() {\n}\n", "def f(a) {\n}\n", "def f(a: b, c) d {\n  x\n}\n", "def f(a: (b) -> c) (d, e) {\n  x\n}\n", "def f() () {\n}\n", "def f() (a) -> b {\n  y\n}\n", "def f() (a.b) {\n\n  x\n\n}\n",
	"def f()\n{\n  val a = 1\n  const b: c = d\n  e\n}\n", "def f() {\n  val a\n  b(c)\n  // d\n}\n", "def f() { x }\n", "def f() {\n  x\n  [y]\n}\n", "def f() {\n  a\n  -b\n  (c)\n}\n",
	"type t enum {\n}\n", "type t enum { A: 1 }\n", "type t enum {\n  A: 1\n  // c\n\n  B: x + 1\n}\n", "type t object {\n}\n", "type t object {\n  a: b\n  c: (d) -> e\n}\n", "type t object { a: b }\n", "type t object {\n  # c\n\n  a: b.c\n}\n",
	"b {\n}\n", "b {}\n", "b \"l\" {\n}\n", "b \"l\" m 'n' {\n  a = 1\n}\n", "b l {\n  c {\n  }\n}\n", "b {\n  a: 1\n\n  // c\n  d\n}\n", "b { a = 1 }\n", "b \"x y\" {\n}\n", "b \"x\" {\n}\n",
	"a\n", "a = 1\n", "a: x\n", "a = x\nb = y\n", "\n\na = 1\n\n\n", "a = 1", "",
	"a = x ? y : z\n", "a = x || y || z\n", "a = x && y\n", "a = x | y\n", "a = x ^ y\n", "a = x & y\n", "a = x == y != z\n", "a = x < y <= z\n", "a = x > y >= z\n", "a = x << y\n", "a = x >> y\n", "a = x + y - z\n", "a = x * y / z % w\n",
	"a = !x\n", "a = -1\n", "a = ~x + +y\n", "a = (x)\n", "a = (x + y) * z\n", "a = f()\n", "a = f(x)\n", "a = f(x, y)(z)\n", "a = x.y.z\n", "a = f(x).y\n", "a = x[y]\n", "a = x.y[z].w\n", "a = (x).y\n", "a = (x)[1]\n", "a = \"s\".t\n", "a = [1][0]\n", "a = f(x)[y].z\n", "a = x.(y.z)\n", "a = x.(y)\n", "a = x[1].(y + z).w\n", "a = ((x))\n", "a = (x.y).z\n", "a = (f(x)).y(z)\n", "a = -(x)\n", "a = x.1\n", "a = x. 1.y\n",
	"a = null\n", "a = true\n", "a = false\n", "a = 1.5e3\n", "a = 0x1F\n", "a = 017\n",
	"a = \"\"\n", "a = \"s\"\n", "a = 's'\n", "a = \"a\\nb\"\n", "a = \"\\u1234\\u12345678\"\n", "a = \"x${y}z\"\n", "a = \"%{ x }\"\n", "a = \"$${x}%%{y}$%\"\n", "a = \"it's\"\n", "a = '\"'\n", "a = \"${\"${x}\"}\"\n", "a = \"${ {b: 1} }\"\n",
	"a = <<E\nE\n", "a = <<E\nx\nE\n", "a = <<-EOF\n\tx\n\ty\n\tEOF\nEOF\n", "a = <<E\nx${y}z\n%{w}\n$$\nE\n", "a = <<E\nEE\nx E\nE\nb = 1\n", "a = [<<E\nx\nE\n]\n",
	"a = []\n", "a = [1]\n", "a = [1, 2]\n", "a = [1,]\n", "a = [\n  1\n  2\n]\n", "a = [\n  1,\n  // c\n\n  2,\n]\n", "a = [[1], [2]]\n", "a = [1 2]\n",
	"a = {}\n", "a = {b: 1}\n", "a = {b = 1, \"c\": 2}\n", "a = {\n  b.c: 1\n  'd': 2,\n}\n", "a = {\n\n  // e\n  b: 1\n}\n", "a = {b: {c: 1}}\n", "a = {b: 1 c: 2}\n",
	"a = if x { y }\n", "a = if x { y } else { z }\n", "a = if x {\n  y\n}\nelse {\n  z\n}\n", "a = if x {\n} else { y }\n", "a = if x { if y { z } }\n", "a = if x\n{ y }\n", "a = if (x) {\n\n  y\n\n}\n",
	"a = switch x {\n}\n", "a = switch x { case 1: { y } }\n", "a = switch x {\n  case 1, 2: { y }\n  default: {\n    z\n  }\n}\n", "a = switch x\n{ case 1:\n{ y } }\n", "a = switch x { default: { y } case z: { w } }\n",
	"// c\n", "# c\n# d\n\n// e\n", "/* c */\n", "/* c\n d */ a = 1\n", "a = 1 // c\n", "a = 1 /* c */\n", "b {\n  // c\n  // d\n}\n", "# c",
	"a = x ? y ? 1 : 2 : z\n", "a = if x { y } \nb = 2\n", "a = (x ? y : z) + 1\n", "a = x[if y { z }]\n", "a = f(switch x { case 1: { y } })\n", "a = [x ? y : z, -w]\n", "a = {k: x ? y : z}\n", "a = x.f(y).g(z)\n",
}

// tinyToks are tokens of every kind.
var tinyToks = []string{
	"if", "else", "switch", "case", "default", "val", "const", "input", "output", "def", "type", "enum", "object", "null", "true", "x", "k-l",
	"1", "0x1", "1.5", "017", "08", "(", ")", "{", "}", "[", "]", ",", ":", ".", "=", "==", "!=", "=>", "->", "<", "<=", ">", ">=", "<<", ">>", "&&", "||", "&", "|", "^", "!", "~", "+", "-", "*", "/", "%", "?",
	"\"\"", "\"s\"", "'s'", "\"", "'", "<<E\nx\nE\n", "<<E\n", "// c\n", "# c\n", "/* c */", "\n", "\n\n", "\r\n", "\r", " ", "\t", "$", "${", "@", ";", "\\", "()", "[]", "{}", "{ }", ": t", "= 1", ".y", "(x)", "[x]", "x = 1\n", "x, y", "-> t", "else { x }", "case x: { y }", "default: { x }",
}

const tinyChars = "$%{}\"'\\/*#-_.0aéE\n\r\t <@"

// tiny is a small document edited in one place, or now and then two or none.
func tiny(r *rng) string {
	s := pick(r, tinies...)
	if r.p(15) {
		s += pick(r, tinies...)
	}
	for k := r.weighted(1, 16, 3); k > 0; k-- {
		s = tinyEdit(r, s)
	}
	return s
}

func tinyEdit(r *rng, s string) string {
	toks, _ := refLex(s)
	if len(toks) == 0 || r.p(15) {
		at := r.n(len(s) + 1)
		chars := []rune(tinyChars)
		c := string(chars[r.n(len(chars))])
		if at < len(s) && r.p(25) {
			if r.p(40) {
				c = ""
			}
			return s[:at] + c + s[at+1:]
		}
		return s[:at] + c + s[at:]
	}
	i := r.n(len(toks))
	a, b := toks[i].Off, toks[i].end()
	gap := func() string { return pick(r, " ", " ", "") }
	switch r.weighted(9, 8, 3, 2, 2, 1) {
	case 0: // insert
		t := gap() + pick(r, tinyToks...) + gap()
		if r.p(15) {
			return s[:b] + t + s[b:]
		}
		return s[:a] + t + s[a:]
	case 1: // replace
		return s[:a] + pick(r, tinyToks...) + s[b:]
	case 2:
		return s[:a] + s[b:]
	case 3:
		return s[:b] + gap() + s[a:b] + s[b:]
	case 4:
		if i+1 < len(toks) {
			n := toks[i+1]
			return s[:a] + n.V + s[b:n.Off] + s[a:b] + s[n.end():]
		}
	case 5: // another layout
		return s[:a] + strings.Repeat(pick(r, " ", "\t", "\n", "\r\n"), 1+r.n(3)) + s[a:]
	}
	return s[:a] + toks[r.n(len(toks))].V + s[b:]
}
