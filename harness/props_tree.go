package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"

	"github.com/hexbee-net/etxe/pkg/etx"
)

func init() {
	register(&prop{id: "E12", fast: true, sweep: 40, quick: 11000, thorough: 396000, run: runE12,
		rule: "every node of accepted generated and mutated documents, found through its fields, compared with what Children and Parent tell; non-trivial: distinct accepted texts",
		must: []string{"nodes", "generated", "mutated"}})
	register(&prop{id: "E13", fast: true, sweep: 10, quick: 6500, thorough: 234000, run: runE13,
		rule: "the document and up to forty of its nodes cloned, compared, their storage intersected, then one copy overwritten field by field and the other compared; non-trivial: distinct accepted texts",
		must: []string{"nodes cloned", "fields overwritten", "storage addresses compared", "generated", "mutated"}})
	register(&prop{id: "E14", fast: true, sweep: 50, quick: 10000, thorough: 288000, run: runE14,
		rule: "formatted text of accepted generated and mutated documents parsed again and compared; non-trivial: distinct accepted texts",
		must: []string{"generated", "mutated", "node:heredoc", "node:cmt", "node:mcmt", "node:if", "node:map", "node:str"}})
	register(&prop{id: "E15", fast: true, sweep: 40, quick: 10000, thorough: 288000, run: runE15,
		rule: "formatted text parsed and formatted again, and documents written twice with other spaces and tabs; non-trivial: distinct accepted texts",
		must: []string{"generated", "mutated", "pairs that differ in white space", "node:heredoc", "node:cmt", "node:mcmt"}})
	register(&prop{id: "E16", fast: true, sweep: 25, quick: 8000, thorough: 288000, run: runE16,
		rule: "formatting, cloning and children of every node of accepted documents, called twice, with an image of the document taken before and after; non-trivial: distinct accepted texts",
		must: []string{"nodes formatted", "generated", "mutated"}})
	register(&prop{id: "E18", fast: true, sweep: 25, quick: 12000, thorough: 400000, run: runE18,
		rule: "accepted generated and mutated documents, and some of their nodes, encoded as JSON (twice, and their clones), decoded again and compared; non-trivial: distinct accepted texts",
		must: []string{"documents decoded", "documents moved", "nodes decoded", "numbers", "generated", "mutated", "small", "node:heredoc", "node:cmt", "node:mcmt", "node:if", "node:switch", "node:map", "node:str", "node:func", "node:enum", "node:object", "node:tfn"}})
	register(&prop{id: "E17", quick: 18, thorough: 1600, run: runE17, race: true, workers: 1, per: 2,
		rule: "under the Go race detector, in many short processes whose first parses and reads are concurrent: many goroutines parse distinct and equal texts at once, then format, clone and navigate one shared document at once, each result compared with the one obtained alone; non-trivial: distinct sets of texts",
		must: []string{"concurrent parses", "concurrent formats", "concurrent clones", "concurrent navigations", "concurrent rejections", "first parses of a process"}})
}

// accepted makes an accepted document, generated (with its model) or mutated.
func (c *C) accepted(set func(*gen)) (a *etx.AST, src string, tree *N) {
	if c.given != nil {
		s := *c.given
		c.input("source", s)
		ast, err := c.parse(s)
		if err != nil {
			panic(unfit{})
		}
		got, _ := project(ast)
		c.saw("swept, accepted", 1)
		c.eval(true, s)
		return ast, s, got
	}
	for try := 0; ; try++ {
		if try > 20 || try == 0 && c.r.p(35) {
			doc, s := c.model(set, 1+c.r.n(6))
			c.input("source", s)
			ast, err := c.parse(s)
			if err != nil {
				if try > 30 {
					c.fail("documents of the language are rejected: %v", err)
				}
				continue
			}
			c.saw("generated", 1)
			c.eval(true, s)
			c.features(doc)
			return ast, s, doc
		}
		gen := func() string { _, s := c.model(set, 1+c.r.n(3)); return s }
		s, kind := "", "mutated"
		if c.r.p(70) {
			s, kind = tiny(c.r), "small"
		} else {
			s = mutateOnce(c.r, gen(), gen)
		}
		if nesting(s) > 90 {
			continue
		}
		c.input("source", s)
		ast, err := c.parse(s)
		if err != nil {
			continue
		}
		got, _ := project(ast)
		c.saw(kind, 1)
		c.eval(true, s)
		c.features(got)
		return ast, s, got
	}
}

func nodeName(n any) string {
	t := reflect.TypeOf(n)
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t.Name()
}

// /////////////////////////////////////
// E12

// placeholder tells whether a node is the empty value or type in a comment or
// blank line of a type.
func placeholder(n any) bool {
	switch v := n.(type) {
	case *etx.Expr:
		return v.Left == nil && v.If == nil && v.Switch == nil
	case *etx.ParameterType:
		return v.Ident == nil && v.Func == nil
	}
	return false
}

func runE12(c *C) {
	a, _, _ := c.accepted(nil)
	byFields := allNodes(a)
	c.saw("nodes", len(byFields))

	check := func(what string, parent etx.Node, fields []reflect.Value, children []etx.Node) {
		want := map[etx.Node]bool{}
		for _, f := range fields {
			want[f.Interface().(etx.Node)] = true
		}
		seen := map[etx.Node]bool{}
		last := -1
		for i, ch := range children {
			if ch == nil || reflect.ValueOf(ch).IsNil() {
				c.fail("%s lists a nil child", what)
			}
			if seen[ch] {
				c.fail("%s lists one child twice", what)
			}
			seen[ch] = true
			if !want[ch] {
				c.fail("%s lists a %s that is not among its parts", what, nodeName(ch))
			}
			if p := ch.Node().Parent; p != parent {
				c.fail("a %s listed by a %s has another parent (%T)", nodeName(ch), what, p)
			}
			if placeholder(ch) {
				continue
			}
			switch ch.(type) {
			case *etx.ValueBool, *etx.ValueNumber:
				continue
			}
			if off := ch.Node().Pos.Offset; off < last {
				c.fail("child %d (%s) of a %s, at offset %d, is listed after a child at offset %d", i, nodeName(ch), what, off, last)
			} else {
				last = off
			}
		}
		for f := range want {
			if !seen[f] && !placeholder(f) {
				c.fail("a %s is not among the children of its %s", nodeName(f), what)
			}
		}
	}

	// The document itself.
	var roots []reflect.Value
	for _, it := range a.Items {
		roots = append(roots, reflect.ValueOf(it))
	}
	check("document", nil, roots, a.Children())
	for i, ch := range a.Children() {
		if ch != etx.Node(a.Items[i]) {
			c.fail("top-level item %d is listed out of order", i)
		}
	}
	listed := map[etx.Node]etx.Node{}
	for _, n := range byFields {
		node := n.Interface().(etx.Node)
		children := node.Children()
		check(nodeName(node), node, fieldChildren(n.Elem()), children)
		for _, ch := range children {
			if other, ok := listed[ch]; ok {
				c.fail("a %s is listed by a %s and by a %s", nodeName(ch), nodeName(other), nodeName(node))
			}
			listed[ch] = node
		}
	}

	// The walk from the document.
	visits := map[etx.Node]int{}
	var walk func(n etx.Node)
	walk = func(n etx.Node) {
		if visits[n]++; visits[n] > 1 {
			c.fail("walking the children visits a %s twice", nodeName(n))
		}
		for _, ch := range n.Children() {
			walk(ch)
		}
	}
	for _, ch := range a.Children() {
		walk(ch)
	}
	for _, n := range byFields {
		if node := n.Interface().(etx.Node); visits[node] == 0 && !placeholder(node) {
			c.fail("walking the children never reaches a %s at %s", nodeName(node), posStr(node.Node().Pos))
		}
	}
	c.saw("nodes visited", len(visits))

	// Upwards again.
	for n := range visits {
		steps := 0
		for p := n.Node().Parent; p != nil; p = p.Node().Parent {
			if steps++; steps > len(visits) {
				c.fail("the parents of a %s never end", nodeName(n))
			}
			if visits[p] == 0 {
				c.fail("an ancestor of a %s is not part of the document", nodeName(n))
			}
		}
	}
}

// /////////////////////////////////////
// E13

// cloneOf calls the Clone method of a node (a pointer to its struct).
func cloneOf(n reflect.Value) (reflect.Value, bool) {
	m := n.MethodByName("Clone")
	if !m.IsValid() || m.Type().NumIn() != 0 || m.Type().NumOut() != 1 || m.Type().Out(0) != n.Type() {
		return reflect.Value{}, false
	}
	return m.Call(nil)[0], true
}

func runE13(c *C) {
	a, src, _ := c.accepted(nil)
	before := snapshot(a, true)
	nodes := append([]reflect.Value{reflect.ValueOf(a)}, sampleNodes(c.r, allNodes(a), 40)...)
	used := map[uintptr]string{}
	storage(reflect.ValueOf(a), true, used, "AST")

	check := func(n reflect.Value) reflect.Value {
		name := n.Type().Elem().Name()
		cl, ok := cloneOf(n)
		if !ok {
			c.fail("%s has no Clone method of its own type", name)
		}
		if cl.IsNil() {
			c.fail("the clone of a %s is nil", name)
		}
		if x, y := snapshot(n.Interface(), false), snapshot(cl.Interface(), false); x != y {
			c.fail("the clone of a %s differs: %s", name, firstDifference(x, y))
		}
		mine := map[uintptr]string{}
		storage(cl, true, mine, "clone of "+name)
		c.saw("storage addresses compared", len(mine))
		for p, path := range mine {
			if orig, ok := used[p]; ok {
				c.fail("%s refers to the storage of %s in the original", path, orig)
			}
		}
		c.saw("nodes cloned", 1)
		return cl
	}
	clones := make([]reflect.Value, len(nodes))
	for i, n := range nodes {
		clones[i] = check(n)
	}
	if after := snapshot(a, true); after != before {
		c.fail("cloning changed the document: %s", firstDifference(before, after))
	}
	// Two clones of one node share nothing either.
	k := c.r.n(len(nodes))
	again, _ := cloneOf(nodes[k])
	mine := map[uintptr]string{}
	storage(clones[k], true, mine, "clone")
	theirs := map[uintptr]string{}
	storage(again, true, theirs, "clone")
	for p, path := range theirs {
		if other, ok := mine[p]; ok {
			c.fail("two clones of a %s share storage: %s and %s", nodes[k].Type().Elem().Name(), path, other)
		}
	}

	// Changing either copy.
	if c.r.p(50) {
		for _, cl := range clones {
			c.saw("fields overwritten", scramble(cl))
		}
		if after := snapshot(a, true); after != before {
			c.fail("changing a clone changed the document: %s", firstDifference(before, after))
		}
		return
	}
	images := make([]string, len(clones))
	for i, cl := range clones {
		images[i] = snapshot(cl.Interface(), true)
	}
	c.saw("fields overwritten", scramble(reflect.ValueOf(a)))
	for i, cl := range clones {
		if now := snapshot(cl.Interface(), true); now != images[i] {
			c.fail("changing the document changed the clone of a %s: %s", nodes[i].Type().Elem().Name(), firstDifference(images[i], now))
		}
	}
	// The clone of the document is a document like the first one.
	b, err := c.parseString(src)
	if err != nil {
		return
	}
	if x, y := snapshot(b, false), snapshot(clones[0].Interface(), false); x != y {
		c.fail("the clone of the document does not keep it: %s", firstDifference(x, y))
	}
}

// sampleNodes picks at most max nodes, of as many types as possible.
func sampleNodes(r *rng, nodes []reflect.Value, max int) []reflect.Value {
	perm := append([]reflect.Value{}, nodes...)
	for i := len(perm) - 1; i > 0; i-- {
		j := r.n(i + 1)
		perm[i], perm[j] = perm[j], perm[i]
	}
	seen := map[reflect.Type]int{}
	var out, rest []reflect.Value
	for _, n := range perm {
		if seen[n.Type()]++; seen[n.Type()] <= 1 && len(out) < max {
			out = append(out, n)
		} else {
			rest = append(rest, n)
		}
	}
	for _, n := range rest {
		if len(out) >= max {
			break
		}
		out = append(out, n)
	}
	return out
}

// /////////////////////////////////////
// E14, E15

// formatted formats a document; a panic is a violation.
func (c *C) formatted(what string, f interface{ FormattedString() string }) (s string) {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				panic(f)
			}
			c.fail("formatting %s panics: %v", what, clip(fmt.Sprint(e)))
		}
	}()
	return f.FormattedString()
}

// oddHeredoc recognizes the documents of known findings: a heredoc whose body
// begins with an empty line that is not all of it, and one whose delimiter was
// found in the middle of a row.
func oddHeredoc(t *N) bool {
	return t.has(func(n *N) bool {
		if n.K != "heredoc" || len(n.C) == 0 {
			return false
		}
		if last := n.C[len(n.C)-1]; last.K != "txt" || !strings.HasSuffix(last.V, "\n") {
			return true
		}
		return emptyFirstRow(n.C)
	})
}

func emptyFirstRow(fr []*N) bool {
	return len(fr) > 0 && fr[0].K == "txt" && strings.HasPrefix(fr[0].V, "\n") && (len(fr) > 1 || strings.Trim(fr[0].V, "\n") != "")
}

func plainHeredocs(g *gen) { g.plainHd = true }

// reformat checks that the formatted text of a document means the same.
func (c *C) reformat(src string, a *etx.AST) (out, problem string) {
	want, _ := project(a)
	out = a.FormattedString()
	b, err := c.parseString(out)
	if err != nil {
		return out, fmt.Sprintf("the formatted text is rejected: %v\n--- formatted\n%s", err, out)
	}
	got, _ := project(b)
	if d := diff(want, got, false); d != "" {
		return out, fmt.Sprintf("the formatted text means something else: %s\n--- formatted\n%s", d, out)
	}
	return out, ""
}

func runE14(c *C) {
	a, src, tree := c.accepted(plainHeredocs)
	if oddHeredoc(tree) {
		c.saw("documents of a known finding, not judged", 1)
		return
	}
	c.formatted("the document", a)
	if _, problem := c.reformat(src, a); problem != "" {
		c.fail("%s", problem)
	}
}

func runE15(c *C) {
	if c.given == nil && c.r.p(35) {
		g := newGen(c.r)
		g.plainHd = true
		doc := g.doc(1 + c.r.n(5))
		layout := c.r.next()
		var texts, outs []string
		for k := 0; k < 2; k++ {
			src := render(doc, &rng{layout}, c.r.fork())
			c.input(fmt.Sprintf("white space %d", k+1), src)
			a, err := c.parse(src)
			if err != nil {
				c.fail("a document of the language is rejected: %v", err)
			}
			texts = append(texts, src)
			outs = append(outs, c.formatted("the document", a))
		}
		c.eval(texts[0] != texts[1], texts[0]+"\x00"+texts[1])
		c.features(doc)
		if texts[0] != texts[1] {
			c.saw("pairs that differ in white space", 1)
		}
		if outs[0] != outs[1] {
			c.fail("documents that differ only in spaces and tabs are formatted differently: %s", firstDifference(outs[0], outs[1]))
		}
		return
	}
	a, _, tree := c.accepted(plainHeredocs)
	if oddHeredoc(tree) {
		c.saw("documents of a known finding, not judged", 1)
		return
	}
	first := c.formatted("the document", a)
	c.input("formatted", first)
	b, err := c.parse(first)
	if err != nil {
		c.saw("formatted text rejected (a matter of E14)", 1)
		return
	}
	second := c.formatted("the formatted document", b)
	c.input("formatted again", second)
	if first != second {
		c.fail("formatting again changes the text: %s", firstDifference(first, second))
	}
}

// /////////////////////////////////////
// E16

func runE16(c *C) {
	a, _, _ := c.accepted(nil)
	before := snapshot(a, true)
	all := allNodes(a)
	if len(all) > 1000 {
		all = sampleNodes(c.r, all, 1000)
	}
	nodes := append([]reflect.Value{reflect.ValueOf(a)}, all...)
	observe := func() []string {
		var out []string
		for _, n := range nodes {
			name := n.Type().Elem().Name()
			node := n.Interface()
			if f, ok := node.(interface{ FormattedString() string }); ok && !placeholder(node) {
				out = append(out, c.formatted("a "+name, f))
				c.saw("nodes formatted", 1)
			}
			func() {
				defer func() {
					if e := recover(); e != nil {
						if f, ok := e.(failure); ok {
							panic(f)
						}
						c.fail("listing the children of a %s panics: %v", name, clip(fmt.Sprint(e)))
					}
				}()
				var sb strings.Builder
				for _, ch := range node.(interface{ Children() []etx.Node }).Children() {
					fmt.Fprintf(&sb, "%p ", ch)
				}
				out = append(out, sb.String())
			}()
		}
		return out
	}
	x := observe()
	if after := snapshot(a, true); after != before {
		c.fail("observing the document changed it: %s", firstDifference(before, after))
	}
	for _, n := range sampleNodes(c.r, nodes, 30) {
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.fail("cloning a %s panics: %v", n.Type().Elem().Name(), clip(fmt.Sprint(e)))
				}
			}()
			cloneOf(n)
			c.saw("nodes cloned", 1)
		}()
	}
	if after := snapshot(a, true); after != before {
		c.fail("cloning changed the document: %s", firstDifference(before, after))
	}
	y := observe()
	for i := range x {
		if x[i] != y[i] {
			c.fail("observing the document again gives another result: %s", firstDifference(x[i], y[i]))
		}
	}
	if after := snapshot(a, true); after != before {
		c.fail("observing the document changed it: %s", firstDifference(before, after))
	}
}

// /////////////////////////////////////
// E17

const parallel = 10 // goroutines

// together runs f in several goroutines at once and reports a panic.
func (c *C) together(what string, f func(k int)) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	panics := make(chan string, parallel)
	for k := 0; k < parallel; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics <- clip(fmt.Sprint(e))
				}
			}()
			<-start
			f(k)
		}()
	}
	close(start)
	wg.Wait()
	select {
	case m := <-panics:
		c.fail("%s panics: %s", what, m)
	default:
	}
}

func parseAnyWay(src string, how int) (*etx.AST, error) {
	switch how % 3 {
	case 1:
		return etx.ParseBytes([]byte(src))
	case 2:
		return etx.Parse(strings.NewReader(src))
	}
	return etx.ParseString(src)
}

func runE17(c *C) {
	text := func(items int) string {
		g := newGen(c.r)
		g.plainHd = true
		return render(g.doc(items), c.r.fork(), c.r.fork())
	}
	var texts []string
	for i := 0; i < 4; i++ {
		s := text(1 + c.r.n(3))
		if i == 2 {
			s = mutateOnce(c.r, s, func() string { return "a = 1\n" })
		}
		if nesting(s) > 60 {
			s = "a = 1\n"
		}
		if i == 3 {
			s = pick(c.r, "a = 1 2 =\n", "b {\n", ")", "a = $\n", "val x\n", "a = [1\n", "a = \"b", "x y z {\n=\n}\n")
		}
		texts = append(texts, s)
		c.input(fmt.Sprintf("text %d", i), s)
	}
	c.eval(true, strings.Join(texts, "\x00"))

	// In every second case nothing was parsed before in this process: the first
	// calls are concurrent ones.
	cold := c.idx%2 == 0
	want := make([]string, len(texts))
	trees := make([]*etx.AST, len(texts))
	alone := func() {
		for i := range texts {
			a, err := etx.ParseString(texts[i])
			trees[i], want[i] = a, outcomeText(a, err)
		}
	}
	if !cold {
		alone()
	}
	var got [parallel][]string
	c.together("parsing concurrently", func(k int) {
		got[k] = make([]string, len(texts))
		for j := range texts {
			i := (j + k) % len(texts)
			got[k][i] = outcomeText(parseAnyWay(texts[i], k+j))
		}
	})
	if cold {
		alone()
		c.saw("first parses of a process", parallel)
	}
	for k := range got {
		for i := range texts {
			c.saw("concurrent parses", 1)
			if strings.HasPrefix(want[i], "error:") {
				c.saw("concurrent rejections", 1)
			}
			if got[k][i] != want[i] {
				c.input("source", texts[i])
				c.fail("parsed concurrently, a text gives another outcome: %s", firstDifference(want[i], got[k][i]))
			}
		}
	}

	// Documents shared by all.
	for i := 0; i < 3; i++ {
		s := text(3 + c.r.n(4))
		c.input(fmt.Sprintf("shared text %d", i), s)
		if a, err := etx.ParseString(s); err == nil {
			trees = append(trees, a)
		}
	}
	for i := range trees {
		if a := trees[len(trees)-1-i]; a != nil {
			c.readTogether(a, cold)
		}
	}
}

func navigate(a *etx.AST) string {
	var sb strings.Builder
	var rec func(n etx.Node)
	rec = func(n etx.Node) {
		fmt.Fprintf(&sb, "%T@%d(", n, n.Node().Pos.Offset)
		if p := n.Node().Parent; p != nil {
			fmt.Fprintf(&sb, "^%T", p)
		}
		for _, ch := range n.Children() {
			rec(ch)
		}
		sb.WriteByte(')')
	}
	for _, ch := range a.Children() {
		rec(ch)
	}
	return sb.String()
}

// readTogether formats, clones and navigates one document from many goroutines.
func (c *C) readTogether(a *etx.AST, cold bool) {
	before := snapshot(a, true)
	var refs [3]string
	compute := func() {
		refs = [3]string{c.formatted("the document", a), snapshot(a, false), navigate(a)}
	}
	if !cold {
		compute()
	}
	var results [parallel][3]string
	c.together("reading a shared document", func(k int) {
		for round := 0; round < 2; round++ {
			for j := 0; j < 3; j++ {
				switch (j + k) % 3 {
				case 0:
					results[k][0] = a.FormattedString()
				case 1:
					results[k][1] = snapshot(a.Clone(), false)
				default:
					results[k][2] = navigate(a)
				}
			}
		}
	})
	if cold {
		compute()
	}
	for k := range results {
		for j, what := range []string{"formats", "clones", "navigations"} {
			c.saw("concurrent "+what, 2)
			if results[k][j] != refs[j] {
				c.fail("concurrent %s of one document give another result: %s", what, firstDifference(refs[j], results[k][j]))
			}
		}
	}
	if after := snapshot(a, true); after != before {
		c.fail("reading a shared document changed it: %s", firstDifference(before, after))
	}
}

// /////////////////////////////////////
// E18

// encode gives the JSON form of a node or document.
func (c *C) encode(what string, n any) string {
	defer func() {
		if e := recover(); e != nil {
			if f, ok := e.(failure); ok {
				panic(f)
			}
			c.fail("encoding %s panics: %v", what, clip(fmt.Sprint(e)))
		}
	}()
	b, err := json.Marshal(n)
	if err != nil {
		c.fail("encoding %s fails: %v", what, err)
	}
	return string(b)
}

// numberless is a JSON text without the values of numbers, that are decoded
// with a limited precision.
func numberless(s string) any {
	var v any
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		panic("harness: " + err.Error())
	}
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			_, a := x["Source"]
			if _, b := x["Value"]; a && b {
				x["Value"] = 0
			}
			for _, y := range x {
				walk(y)
			}
		case []any:
			for _, y := range x {
				walk(y)
			}
		}
	}
	walk(v)
	return v
}

func runE18(c *C) {
	a, src, _ := c.accepted(nil)
	x := c.encode("the document", a)
	if y := c.encode("the document", a); x != y {
		c.fail("encoding again gives another text: %s", firstDifference(x, y))
	}
	if y := c.encode("a clone of the document", a.Clone()); x != y {
		c.fail("a clone is encoded differently: %s", firstDifference(x, y))
	}
	if strings.TrimLeft(src, " \t") == strings.TrimLeft(src, " \t\r\n") {
		// The same document elsewhere in its file.
		moved, err := c.parse("  \t" + src)
		if err != nil {
			c.fail("the document is rejected behind white space: %v", err)
		}
		if y := c.encode("the document behind white space", moved); x != y {
			c.fail("the document is encoded differently elsewhere in its file: %s", firstDifference(x, y))
		}
		c.saw("documents moved", 1)
	}
	if !utf8.ValidString(src) {
		c.saw("documents that are not UTF-8, not decoded", 1)
		return
	}
	var b etx.AST
	if err := json.Unmarshal([]byte(x), &b); err != nil {
		c.fail("the encoded document cannot be decoded: %v", err)
	}
	c.saw("documents decoded", 1)
	want, _ := project(a)
	got, _ := project(&b)
	if d := diff(want, got, false); d != "" {
		c.fail("decoding the encoded document gives another one: %s", d)
	}
	if y := c.encode("the decoded document", &b); !reflect.DeepEqual(numberless(x), numberless(y)) {
		c.fail("the decoded document is encoded differently: %s", firstDifference(x, y))
	}
	all := allNodes(a)
	k := 0
	for _, n := range allNodes(&b) {
		v, ok := n.Interface().(*etx.ValueNumber)
		if !ok {
			continue
		}
		for ; k < len(all); k++ {
			if _, ok := all[k].Interface().(*etx.ValueNumber); ok {
				break
			}
		}
		if k == len(all) {
			c.fail("the decoded document has more numbers")
		}
		w := all[k].Interface().(*etx.ValueNumber)
		k++
		c.saw("numbers", 1)
		if v.Value == nil || w.Value == nil {
			c.fail("a number without a value: %q, decoded as %q", w.Source, v.Source)
		}
		// The decoder keeps 64 bits.
		p, _ := new(big.Float).SetPrec(53).Set(w.Value).Float64()
		q, _ := new(big.Float).SetPrec(53).Set(v.Value).Float64()
		if p != q && math.Abs(p-q) > math.Abs(p)*1e-15 {
			c.fail("the number %s is decoded as %s", w.Value.Text('g', 25), v.Value.Text('g', 25))
		}
	}
	// Nodes of their own.
	for _, n := range sampleNodes(c.r, all, 12) {
		name := "a " + n.Type().Elem().Name()
		x := c.encode(name, n.Interface())
		o := reflect.New(n.Type().Elem())
		if err := json.Unmarshal([]byte(x), o.Interface()); err != nil {
			c.fail("%s cannot be decoded from its encoding: %v", name, err)
		}
		c.saw("nodes decoded", 1)
		if y := c.encode("the decoded "+name, o.Interface()); !reflect.DeepEqual(numberless(x), numberless(y)) {
			c.fail("%s is encoded differently once decoded: %s", name, firstDifference(x, y))
		}
		if before, after := contents(n), contents(o); before != after {
			c.fail("%s has other contents once decoded: %s", name, firstDifference(before, after))
		}
	}
}
