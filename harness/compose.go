package main

import (
	"strings"
	"sync"
)

// Compositions: every construct in every place, and every sequence of up to
// three items in every body. Of constructs in constructs in places, each is
// written with one of the leaves in turn.
var (
	exprPlaces = []string{"a = @\n", "a: @\nb = 1\n", "val x = @\n", "input x: int = @\noutput y\n", "def f() {\n@\n}\n", "def f() {\nx\n@\ny\n}\n", "def f() {\nval y = @\n}\n", "def f() { @ }\n",
		"type t enum {\nA: @\n}\n", "type t enum {\nlonger: 1\nA: @\nB: 2\n}\n", "b {\nc = @\n}\n", "b \"l\" {\nc {\nd: @\n}\ne\n}\n"}
	exprHoles = []string{"@ || x", "x || @", "@ && x", "x && @", "@ | x", "x | @", "@ ^ x", "x ^ @", "@ & x", "x & @", "@ == x", "x != @", "@ < x", "x >= @", "@ << x", "x >> @", "@ + x", "x - @", "@ * x", "x / @", "x % @",
		"!@", "-@", "~@", "(@)", "f(@)", "f(x, @, y)", "f(x)(@)", "x[@]", "(@)[1]", "(@).y", "x.(@)", "x.y(@).z", "f(x).(@)", "@.y", "@[1]",
		"[@]", "[x, @]", "[\n1\n@\n// c\n\n]", "{k: @}", "{\"k\" = @, j: 1}", "{\nj: 1\n// c\n\nk: @\n}",
		"@ ? y : z", "x ? @ : z", "x ? y : @", "if @ { y }", "if x { @ }", "if x { y } else { @ }", "if x {\n} else {\n@\n}", "switch @ { case 1: { y } }", "switch x { case @: { y } }", "switch x {\ncase 1, @: { y }\ndefault: { z }\n}", "switch x { case 1: { @ } }", "switch x { default: { @ } }",
		"\"s${@}t\"", "\"%{@}\"", "'\"${@}'", "\"${@}${@}\"", "<<E\n${@}\nE\n", "<<E\nx\ny%{@}z\nE\n"}
	exprLeaves = []string{"x", "x.y", "1", "1.5e3", "0x1F", "null", "true", "\"s\"", "'it\"s'", "\"a\\nb\\u1234\"", "\"\"", "<<E\nx\n\ty\nE\n", "[]", "{}", "f()", "f(x).y", "x[1]", "[1, 2]", "{k: 1}", "x + y", "x ? y : z", "if x { y }", "switch x { case 1: { y } }", "-x", "(x)"}
	typePlaces = []string{"val x: @\n", "input x: @ = 1\n", "def f(a: @) {\n}\n", "def f(a: x, b: @, c) {\n}\n", "def f() @ {\n}\n", "def f() (@) {\n}\n", "def f() (@, x) {\n}\n", "type t object {\na: @\n}\n", "type t object {\na: @\nlonger: @\n}\n", "def f() {\nconst y: @ = 1\n}\n"}
	typeHoles  = []string{"(@) -> a", "(a, @) -> b", "() -> @", "(a.b) -> @", "(@, @) -> @"}
	typeLeaves = []string{"a", "a.b.c", "() -> a"}

	bodies = []struct {
		open, end string
		items     []string
	}{
		{"", "", []string{"a = 1", "val x: t = y", "def f() {\n}", "type t enum {\nA: 1\n}", "b l {\n}", "// c", "/* c */", "/* c\nd */", ""}},
		{"def f() {\n", "}\n", []string{"x", "val y = 1", "f(x)", "[1]", "// c", "# c", "/* c */", "/* c\nd */", ""}},
		{"b {\n", "}\n", []string{"x", "y = 1", "c {\n}", "d l {\ne: 1\n}", "// c", "# c", "/* c */", "/* c\nd */", ""}},
		{"type t enum {\n", "}\n", []string{"A: 1", "longer: x + 1", "B: f(y)", "// c", "/* c */", "/* c\nd */", ""}},
		{"type t object {\n", "}\n", []string{"a: b", "longer: () -> a", "c: a.b", "// c", "/* c */", "/* c\nd */", ""}},
		{"a = [\n", "]\n", []string{"1", "x,", "[y]", "// c", "# c", "/* c */", "/* c\nd */", ""}},
		{"a = {\n", "}\n", []string{"b: 1", "c = x,", "'d': 2", "// c", "# c", "/* c */", "/* c\nd */", ""}},
		{"a = switch x {\n", "}\n", []string{"case 1: { y }", "case 2, 3: {\nz\n}", "default: { w }", "// c", ""}},
	}
	bodySeps = []string{"\n", "\r\n", " ", "\n\n"}
)

// composed lists the compositions: first those that are always judged.
var composed = sync.OnceValues(func() (out []string, always int) {
	put := func(place, x string) { out = append(out, strings.ReplaceAll(place, "@", x)) }
	for _, p := range exprPlaces {
		for _, l := range exprLeaves {
			put(p, l)
		}
		for i, h := range exprHoles {
			put(p, strings.ReplaceAll(h, "@", exprLeaves[i%len(exprLeaves)]))
		}
	}
	for _, h := range exprHoles {
		for _, l := range exprLeaves {
			put(exprPlaces[0], strings.ReplaceAll(h, "@", l))
		}
	}
	for _, p := range typePlaces {
		for _, l := range typeLeaves {
			put(p, l)
			for _, h := range typeHoles {
				put(p, strings.ReplaceAll(h, "@", l))
			}
		}
	}
	for _, b := range bodies {
		for _, s := range bodySeps {
			out = append(out, b.open+b.end)
			for _, x := range b.items {
				out = append(out, b.open+x+s+b.end)
				for _, y := range b.items {
					out = append(out, b.open+x+s+y+s+b.end)
				}
			}
		}
	}
	always = len(out)
	k := 0
	for _, p := range exprPlaces {
		for _, h := range exprHoles {
			for _, l := range exprLeaves {
				put(p, strings.ReplaceAll(h, "@", l))
			}
			for _, i := range exprHoles {
				put(p, strings.ReplaceAll(h, "@", strings.ReplaceAll(i, "@", exprLeaves[k%len(exprLeaves)])))
				k++
			}
		}
	}
	for _, p := range typePlaces {
		for _, h := range typeHoles {
			for _, i := range typeHoles {
				for _, l := range typeLeaves {
					put(p, strings.ReplaceAll(h, "@", strings.ReplaceAll(i, "@", l)))
				}
			}
		}
	}
	for _, b := range bodies {
		for _, s := range bodySeps[:3] {
			for _, x := range b.items {
				for _, y := range b.items {
					for _, z := range b.items {
						out = append(out, b.open+x+s+y+s+z+s+b.end)
					}
				}
			}
		}
	}
	return out, always
})
