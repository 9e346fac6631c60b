package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/hexbee-net/etxe/pkg/etx"
)

func init() {
	register(&prop{id: "E23", fast: true, quick: 900, thorough: 26000, run: runE23,
		rule: "one text at two sizes (long, or nested up to 96 deep, made of random parts, the long ones whole or damaged), the processor time of every operation on the larger against that on the smaller; an operation that does not end in 100 s is a violation; non-trivial: distinct texts of 300 bytes or more",
		must: []string{"parse", "format", "clone", "link", "encode", "accepted", "rejected", "nested", "long"}})
	register(&prop{id: "D11", quick: 1500, thorough: 140000, run: runD11,
		rule: "graphs with very many paths (ladders, layers, dense) and large ones (chains, stars, trees), their edges added in several orders, the processor time of every operation and query; an operation that does not end in 100 s is a violation; non-trivial: distinct histories",
		must: []string{"ladders", "layers", "dense graphs", "chains", "stars", "trees", "graphs with more than 2^40 paths", "operations timed", "queries timed", "walks timed", "answers checked"}})
}

// cpu gives the processor time that f takes on its thread.
func cpu(f func()) time.Duration {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	used := func() time.Duration {
		const thread = 1
		var u syscall.Rusage
		if err := syscall.Getrusage(thread, &u); err != nil {
			panic("harness: getrusage: " + err.Error())
		}
		return time.Duration(u.Utime.Nano() + u.Stime.Nano())
	}
	before := used()
	f()
	return used() - before
}

// /////////////////////////////////////
// E23

// openers and closers of constructs that nest in expressions.
var nests = [][2]string{
	{"(", ")"}, {"[", "]"}, {"[1, ", ", 2]"}, {"{ a: ", " }"}, {"{ a: 1, \"b\": ", ", }"}, {"{ (b): ", " }"}, {"f(", ")"}, {"f(x, ", ", y)"}, {"a.b[", "]"}, {"f[", "].c"},
	{"\"${", "}\""}, {"'x${ ", " }y'"}, {"\"%{", "}\""}, {"<<X\n${", "}\nX\n"}, {"1 + (", ") * 2"}, {"a ? (", ") : b"}, {"a ? b : (", ")"}, {"(", ") ? a : b"}, {"!(", ")"}, {"-(", ")"},
	{"(", ")(1)"}, {"(", ").b"}, {"(", ")[0]"}, {"if a { ", " } else { b }"}, {"if a { b } else { ", " }"}, {"switch a { case b: { ", " } }"}, {"switch ", " { default: { b } }"}, {"if ", " { a }"},
	{"a && (", ")"}, {"a == b || [", "]"}, {"f(a.b(", "))"}, {"[\n", "\n]"}, {"{\na: ", "\n}"}, {"(\n", "\n)"},
}

// growing gives a text that can be made in any size: long ones of any length,
// nested ones up to a depth of 96.
func (c *C) growing() (grow func(size int) string, small int, kind string) {
	r := c.r
	g := newGen(r)
	g.plainHd = true
	g.comments = false
	attr := func(value *N) string {
		d := mk("doc", "")
		d.C = []*N{mk("attr", "k", value)}
		return strings.TrimSpace(render(d, r.fork(), r.fork()))
	}
	expr := func() string {
		for t := 0; t < 20; t++ {
			g.budget, g.depth = 6, 2
			s := attr(g.expr())
			if at := strings.Index(s, "="); at >= 0 && len(s) < 60 && nesting(s) < 3 && !strings.Contains(s, "\n") {
				return strings.TrimSpace(s[at+1:])
			}
		}
		return "b"
	}
	part := func() string { return "k = " + expr() }
	tail := pick(r, "", "", "", "\n)", "\n= 1", " ]", "\n\"", "\nx = $", "\n/*")
	if r.p(50) {
		// Nested.
		if r.p(15) {
			open, end := pick(r, "a {\n", "a \"b\" {\n", "a {\nb = 1\n", "a {\n# c\n"), pick(r, "}\n", "}\n", "\n\n}\n", "# d\n}\n")
			return func(n int) string { return strings.Repeat(open, n) + strings.Repeat(end, n) }, 24, "nested"
		}
		var cycle [][2]string
		for t := 1 + r.n(4); t > 0; t-- {
			cycle = append(cycle, nests[r.n(len(nests))])
		}
		// What is wrong inside of nested lists is looked for in more ways at
		// each level (the recorded finding), so only whole texts nest.
		in := expr()
		return func(n int) string {
			var ends []string
			var sb strings.Builder
			sb.WriteString("a = ")
			for i, d := 0, 0; ; i++ {
				x := cycle[i%len(cycle)]
				// Openers may nest more than one deep.
				if d += nesting(x[0] + x[1]); d > n {
					break
				}
				sb.WriteString(x[0])
				ends = append(ends, x[1])
			}
			sb.WriteString(in)
			for i := len(ends) - 1; i >= 0; i-- {
				sb.WriteString(ends[i])
			}
			return sb.String() + "\n"
		}, 24, "nested"
	}
	var head, unit, end string
	switch r.n(16) {
	case 0, 1, 2:
		unit = render(g.doc(1+r.n(3)), r.fork(), r.fork()) + "\n"
	case 3:
		head, unit, end = "a {\n", part()+"\n", "}\n"
	case 4, 5:
		head = "a = " + expr()
		for t := 1 + r.n(4); t > 0; t-- {
			unit += " " + pick(r, "+", "-", "*", "/", "%", "&&", "||", "|", "^", "&", "==", "!=", "<", "<=", "<< ", ">>") + " " + expr()
		}
	case 6:
		head = "a = b"
		for t := 1 + r.n(3); t > 0; t-- {
			unit += pick(r, ".c", "[0]", "()", "(x, y)", "[a.b]", "[1+2]")
		}
	case 7:
		head, unit, end = "a = [", expr()+pick(r, ", ", ",\n", ",\n\n", ", # c\n"), "]\n"
	case 8:
		head, unit, end = "a = {", "k: "+expr()+pick(r, ", ", ",\n", ",\n\n", ", # c\n"), "}\n"
	case 9:
		head, unit, end = "a = "+pick(r, "\"", "'"), pick(r, "text ", "é", "${a}", "%{b}", "\\n", "\\u1234", "$", "$${", "%%{", "x${a}y%{b}\\t", "${a + 1}"), ""
		end = head[len(head)-1:] + "\n"
	case 10:
		head, unit, end = "a = <<EOF\n", pick(r, "text\n", "é", "${a}", "%{b}\n", "\n", "$ EO", "EO\n", "\tx${a}\n", " EOF\n"), "\nEOF\n"
	case 11:
		head, unit, end = pick(r, "# ", "// ", "/* ", "a {\n/* "), pick(r, "x", "é ", "* ", "/ "), "\n"
		if strings.Contains(head, "/*") {
			end = "*/\n"
		}
		if strings.Contains(head, "{") {
			end += "}\n"
		}
	case 12:
		unit = pick(r, "\n", "\r\n", "# c\n", "// c\n", "/* c */\n", " ", "\t\n", "\n\n# d\n")
	case 13:
		head = "type T "
		if r.p(50) {
			head += "enum {\n"
			unit = pick(r, "a\n", "a = 1\n", "# c\na\n", "\na\n")
		} else {
			head += "object {\n"
			unit = pick(r, "a: int\n", "a: object { b: c }\n", "# c\na: [int]\n", "\na: b.c\n")
		}
		end = "}\n"
	case 14:
		switch r.n(4) {
		case 0:
			head, unit, end = "def f(", "a: int, ", "b: int) -> int { a }\n"
		case 1:
			head, unit, end = "def f() {\n", pick(r, "val a = b\n", "a(b)\n", "a = b\n", "# c\n", "\n"), "}\n"
		case 2:
			head, unit, end = "a = switch b {\n", "case 1, c: { d }\n", "}\n"
		default:
			head, unit, end = "a = f(", expr()+", ", "1)\n"
		}
	default:
		head, unit = "a"+pick(r, "", " = ", " = 0x", " = 1."), pick(r, "b", "1", "_1", "b-c", "0")
	}
	kind = "long"
	return func(n int) string {
		k := (n*150 - len(head) - len(end)) / (len(unit) + 1)
		if k < 4 {
			k = 4
		}
		return head + strings.Repeat(unit, k) + end + tail
	}, 24, kind
}

func runE23(c *C) {
	grow, n, kind := c.growing()
	c.saw(kind, 1)
	const times = 4
	small, large := grow(n), grow(times*n)
	if kind == "long" && c.r.p(10) {
		large = grow(10 * times * n)
		small = grow(10 * n)
	}
	if nesting(large) > 100 {
		return
	}
	if kind == "nested" {
		for _, s := range []string{small, large} {
			if ref := refParse(s); ref.Tree == nil || ref.Far || ref.Hard {
				c.saw("not whole, skipped", 1)
				return
			}
		}
		tail := pick(c.r, "", "", "\n)", "\n= 1", "\n/*")
		small, large = small+tail, large+tail
	}
	c.input("the larger text begins", clipTo(large, 3000))
	c.eval(len(large) >= 300, fmt.Sprint(len(large), clipTo(large, 2000)))
	timed := func(s string) (names []string, used []time.Duration) {
		var a, b *etx.AST
		var err error
		note := func(what string, f func()) {
			names = append(names, what)
			used = append(used, cpu(f))
			c.saw(what, 1)
		}
		note("parse", func() { a, err = c.parseString(s) })
		if err != nil {
			c.saw("rejected", 1)
			return
		}
		c.saw("accepted", 1)
		note("format", func() { _ = a.FormattedString() })
		note("clone", func() { b = a.Clone() })
		note("link", func() { b.UpdateParentRefs() })
		note("navigate", func() { navigate(a) })
		note("encode", func() { _, _ = json.Marshal(a) })
		return
	}
	_, before := timed(small)
	names, after := timed(large)
	for i := range after {
		limit := 10 * time.Second
		if i < len(before) {
			limit += 8 * times * times * before[i]
		}
		if after[i] > limit {
			c.input("the larger text", large)
			c.fail("%s of a text of %d bytes takes %v; the same at %d bytes takes %v", names[i], len(large), after[i], len(small), before)
		}
	}
}

// /////////////////////////////////////
// D11

func runD11(c *C) {
	r := c.r
	kind := r.n(kinds)
	var n int
	var edges [][2]int
	edge := func(i, j int) { edges = append(edges, [2]int{i, j}) }
	many := false
	switch r.n(6) {
	case 0:
		c.saw("ladders", 1)
		rungs := 20 + r.n(50)
		n = 2 * rungs
		for i := 0; i+3 < n; i += 2 {
			edge(i+1, i+3)
			edge(i+1, i+4)
			edge(i+2, i+3)
			edge(i+2, i+4)
		}
		many = rungs > 41
	case 1:
		c.saw("layers", 1)
		w, l := 3+r.n(3), 10+r.n(20)
		n = w * l
		for i := 1; i <= n; i++ {
			for j := i + 1; j <= n; j++ {
				if (j-1)/w == (i-1)/w+1 {
					edge(i, j)
				}
			}
		}
		many = l > 27
	case 2:
		c.saw("dense graphs", 1)
		n = 20 + r.n(50)
		for i := 1; i <= n; i++ {
			for j := i + 1; j <= n; j++ {
				edge(i, j)
			}
		}
		many = n > 42
	case 3:
		c.saw("chains", 1)
		n = 50 + r.n(150)
		skip := 1 + r.n(3)
		for i := 1; i <= n; i++ {
			for s := 1; s <= skip && i+s <= n; s++ {
				edge(i, i+s)
			}
		}
		many = skip > 1 && n > 70
	case 4:
		c.saw("stars", 1)
		n = 100 + r.n(900)
		mid := 1 + r.n(n)
		for i := 1; i <= n; i++ {
			if i < mid {
				edge(i, mid)
			} else if i > mid {
				edge(mid, i)
			}
		}
	case 5:
		c.saw("trees", 1)
		n = 100 + r.n(400)
		down := r.p(50)
		for i := 2; i <= n; i++ {
			if down {
				edge(i/2, i)
			} else {
				edge(n+1-i, n+1-i/2)
			}
		}
	}
	for n > 250 && kind == 5 {
		kind = r.n(kinds)
	}
	if many {
		c.saw("graphs with more than 2^40 paths", 1)
	}
	order := pick(r, "in order", "reversed", "at random")
	switch order {
	case "reversed":
		for i, j := 0, len(edges)-1; i < j; i, j = i+1, j-1 {
			edges[i], edges[j] = edges[j], edges[i]
		}
	case "at random":
		p := perm(r, len(edges))
		other := append([][2]int{}, edges...)
		for i, j := range p {
			edges[i] = other[j]
		}
	}
	what := fmt.Sprintf("kind %d, %d vertices, %d edges %s:", kind, n, len(edges), order)
	c.input("graph", fmt.Sprint(what, " ", clipTo(fmt.Sprint(edges), 2000)))
	g := newGraph(kind, n)
	m := newModel(n)
	limit := 5 * time.Second
	var hist []string
	do := func(o hop) {
		want, errs := m.expect(g, o)
		if o.kind == "query" && (o.what == "isEdge" || o.what == "text") {
			return
		}
		hist = append(hist, o.String())
		var got string
		var err error
		used := cpu(func() { got, err = perform(g, o) })
		if o.kind == "query" {
			c.saw("queries timed", 1)
		} else {
			c.saw("operations timed", 1)
		}

		if used > limit {
			c.fail("%s takes %v", o, used)
		}
		if (err != nil) != (len(errs) > 0) {
			c.fail("%s: error %v", o, err)
		}
		if err == nil && got != want {
			c.fail("%s answers %s, not %s", o, clipTo(got, 500), clipTo(want, 500))
		}
		c.saw("answers checked", 1)
	}
	for i := 1; i <= n; i++ {
		do(hop{kind: "addVertex", a: i, v: i})
	}
	ask := func(k int) {
		for ; k > 0; k-- {
			id := pick(r, 1, n, 1+r.n(n), 1+r.n(n))
			do(hop{kind: "query", what: pick(r, "ancestors", "descendants", "orderedAncestors", "orderedDescendants", "parents", "children", "leaves", "roots", "order", "size"), a: id})
		}
	}
	every := pick(r, 0, 0, 10, 50)
	for i, e := range edges {
		do(hop{kind: "addEdge", a: e[0], b: e[1]})
		if every > 0 && i%every == 0 {
			ask(1)
		}
	}
	ask(6)
	for k := r.n(8); k > 0; k-- {
		switch r.n(5) {
		case 0:
			e := edges[r.n(len(edges))]
			do(hop{kind: "deleteEdge", a: e[0], b: e[1]})
		case 1:
			do(hop{kind: "deleteVertex", a: 1 + r.n(n)})
		case 2:
			e := edges[r.n(len(edges))]
			do(hop{kind: "addEdge", a: e[1], b: e[0]})
		case 3:
			e := edges[r.n(len(edges))]
			do(hop{kind: "addEdge", a: e[0], b: e[1]})
		case 4:
			if n <= 60 && len(edges) < 400 {
				do(hop{kind: "reduce"})
			}
		}
		ask(3)
		q := pick(r, "ancestors", "descendants")
		id := pick(r, 1, n)
		if _, in := m.vals[id]; !in {
			continue
		}
		w, err := g.walk(q, id)
		if err != nil {
			c.fail("a walk of the %s of %d: %v", q, id, err)
		}
		got := 0
		for {
			if _, ok := w.recv(); !ok {
				break
			}
			if got++; got > n {
				c.fail("a walk of the %s of %d delivers more than %d vertices", q, id, n)
			}
		}
		if want := len(m.distances(id, q == "descendants")); got != want {
			c.fail("a walk of the %s of %d delivers %d vertices, not %d", q, id, got, want)
		}
		c.saw("walks timed", 1)
	}
	c.eval(true, what+strings.Join(hist, " "))
}
