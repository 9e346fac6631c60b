package main

import (
	"reflect"

	"github.com/hexbee-net/etxe/pkg/etx"
)

func init() {
	register(&prop{id: "E19", fast: true, quick: 4500, thorough: 90000, run: runE19,
		rule: "documents put together from clones of parts of several accepted documents (expressions, types and keys replaced, items inserted, moved and removed), then linked, navigated, formatted, cloned and parsed again; non-trivial: distinct formatted texts of documents that were changed",
		must: []string{"documents put together", "formatted between changes", "expressions replaced", "types replaced", "items inserted", "items removed", "items moved", "names replaced", "node:heredoc", "node:cmt", "node:if", "node:switch", "node:map", "node:str", "node:func", "node:enum", "node:object", "node:tfn", "node:block"}})
}

var (
	typeExpr    = reflect.TypeOf(&etx.Expr{})
	typePType   = reflect.TypeOf(&etx.ParameterType{})
	typeMapKey  = reflect.TypeOf(&etx.MapKey{})
	typeStrFrag = reflect.TypeOf(&etx.StringFragment{})
	typeHdFrag  = reflect.TypeOf(&etx.HeredocFragment{})
)

// sliceFields lists the addressable slices of nodes held by the document and
// its nodes, but not those of string and heredoc fragments, whose texts could
// run together.
func sliceFields(a *etx.AST) (out []reflect.Value) {
	add := func(v reflect.Value) {
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.Kind() != reflect.Slice || !f.Type().Elem().Implements(typeNode) {
				continue
			}
			if t := f.Type().Elem(); t == typeStrFrag || t == typeHdFrag {
				continue
			}
			out = append(out, f)
		}
	}
	add(reflect.ValueOf(a).Elem())
	for _, n := range allNodes(a) {
		add(n.Elem())
	}
	return out
}

// exchange swaps an item of a slice and one of another slice, unless one of
// them stands inside of the other.
func (c *C) exchange(fs []reflect.Value, f reflect.Value) bool {
	var others []reflect.Value
	for _, g := range fs {
		if g.Type() == f.Type() && g.Len() > 0 && g.Addr().Pointer() != f.Addr().Pointer() {
			others = append(others, g)
		}
	}
	if len(others) == 0 {
		return false
	}
	g := others[c.r.n(len(others))]
	x, y := f.Index(c.r.n(f.Len())), g.Index(c.r.n(g.Len()))
	in := func(slice, item reflect.Value) bool {
		n, ok := item.Interface().(etx.Node)
		if !ok {
			return true
		}
		found := false
		var rec func(n etx.Node)
		rec = func(n etx.Node) {
			v := reflect.ValueOf(n).Elem()
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).Kind() == reflect.Slice && v.Field(i).Addr().Pointer() == slice.Addr().Pointer() {
					found = true
				}
			}
			for _, ch := range n.Children() {
				rec(ch)
			}
		}
		rec(n)
		return found
	}
	if in(g, x) || in(f, y) {
		return false
	}
	a, b := x.Interface(), y.Interface()
	x.Set(reflect.ValueOf(b))
	y.Set(reflect.ValueOf(a))
	return true
}

// needed tells whether a slice must keep at least one element.
func needed(f reflect.Value) bool {
	return f.Type().Elem() == reflect.TypeOf(&etx.ExprLogicalOr{})
}

// links checks the parents of a whole document.
func (c *C) links(a *etx.AST) {
	var rec func(parent, n etx.Node)
	rec = func(parent, n etx.Node) {
		if p := n.Node().Parent; p != parent {
			c.fail("a %s listed by %s has another parent (%T)", nodeName(n), parentName(parent), p)
		}
		for _, ch := range n.Children() {
			rec(n, ch)
		}
	}
	for _, it := range a.Children() {
		rec(nil, it)
	}
}

func parentName(p etx.Node) string {
	if p == nil {
		return "the document"
	}
	return "a " + nodeName(p)
}

// blank forgets all positions of a document.
func blank(a *etx.AST) {
	for _, n := range allNodes(a) {
		n.Interface().(etx.Node).Node().Pos = etx.Position{}
	}
}

func runE19(c *C) {
	var donors []*etx.AST
	var images []string
	pool := map[reflect.Type][]reflect.Value{}
	for len(donors) < 3 {
		a, _, tree := c.accepted(func(g *gen) {
			plainHeredocs(g)
			g.wide = g.wide || c.r.p(30)
		})
		if oddHeredoc(tree) {
			continue
		}
		donors = append(donors, a)
		images = append(images, snapshot(a, true))
		for _, n := range allNodes(a) {
			if !placeholder(n.Interface()) {
				pool[n.Type()] = append(pool[n.Type()], n)
			}
		}
	}
	a := donors[0].Clone()
	if c.r.p(30) {
		a.UpdateParentRefs()
		if now := snapshot(a, true); now != images[0] {
			c.fail("the clone of a document, linked, differs from it: %s", firstDifference(images[0], now))
		}
	}
	// pick gives a clone of a part of one of the documents.
	pick := func(t reflect.Type) (reflect.Value, bool) {
		from := pool[t]
		if len(from) == 0 {
			return reflect.Value{}, false
		}
		return cloneOf(from[c.r.n(len(from))])
	}
	// What was asked before a change must not show after it.
	ask := func() {
		if !c.r.p(40) {
			return
		}
		c.formatted("the document on the way", a)
		snapshot(a.Clone(), false)
		a.UpdateParentRefs()
		c.saw("formatted between changes", 1)
	}
	changes := 0
	for k := 1 + c.r.n(6); k > 0; k-- {
		ask()
		switch c.r.n(6) {
		case 0, 1:
			t, what := typeExpr, "expressions replaced"
			if c.r.p(35) {
				t, what = typePType, "types replaced"
			} else if c.r.p(15) {
				t, what = typeMapKey, "names replaced"
			}
			var at []reflect.Value
			for _, n := range allNodes(a) {
				if n.Type() == t && !placeholder(n.Interface()) {
					at = append(at, n)
				}
			}
			v, ok := pick(t)
			if len(at) == 0 || !ok {
				continue
			}
			at[c.r.n(len(at))].Elem().Set(v.Elem())
			c.saw(what, 1)
		default:
			fs := sliceFields(a)
			f := fs[c.r.n(len(fs))]
			if c.r.p(40) {
				f = fs[0]
			} else if c.r.p(30) {
				for _, other := range fs {
					if other.Len() > f.Len() {
						f = other
					}
				}
			}
			n := f.Len()
			if n > 0 && c.r.p(20) && c.exchange(fs, f) {
				c.saw("items exchanged", 1)
				break
			}
			switch how := c.r.n(4); {
			case how <= 1:
				v, ok := pick(f.Type().Elem())
				if !ok || needed(f) && n == 0 {
					continue
				}
				i := c.r.n(n + 1)
				f.Set(reflect.Append(f, v))
				reflect.Copy(f.Slice(i+1, n+1), f.Slice(i, n))
				f.Index(i).Set(v)
				c.saw("items inserted", 1)
			case how == 2:
				if n == 0 || needed(f) && n == 1 {
					continue
				}
				i := c.r.n(n)
				f.Set(reflect.AppendSlice(f.Slice(0, i), f.Slice(i+1, n)))
				c.saw("items removed", 1)
			default:
				if n < 2 {
					continue
				}
				i, j := c.r.n(n), c.r.n(n)
				x, y := f.Index(i).Interface(), f.Index(j).Interface()
				f.Index(i).Set(reflect.ValueOf(y))
				f.Index(j).Set(reflect.ValueOf(x))
				c.saw("items moved", 1)
			}
		}
		changes++
	}
	c.saw("documents put together", 1)

	content := snapshot(a, false)
	a.UpdateParentRefs()
	if now := snapshot(a, false); now != content {
		c.fail("linking the document changed its contents: %s", firstDifference(content, now))
	}
	c.links(a)
	whole := snapshot(a, true)
	a.UpdateParentRefs()
	if now := snapshot(a, true); now != whole {
		c.fail("linking the document again changed it: %s", firstDifference(whole, now))
	}
	if now := snapshot(a.Clone(), false); now != content {
		c.fail("the clone of the document differs: %s", firstDifference(content, now))
	}
	tree, _ := project(a)
	c.features(tree)
	if oddHeredoc(tree) {
		return
	}
	text := c.formatted("the document", a)
	c.input("formatted", text)
	c.eval(changes > 0, text)
	if again := c.formatted("the document", a); again != text {
		c.fail("formatting again gives another text: %s", firstDifference(text, again))
	}
	moved := a.Clone()
	blank(moved)
	if other := c.formatted("the document without positions", moved); other != text {
		c.fail("the formatted text depends on the positions the parts came from: %s", firstDifference(text, other))
	}
	if ref := refParse(text); ref.Far || ref.Hard {
		c.saw("decided at the lookahead limit, not parsed again", 1)
	} else if nesting(text) <= 90 {
		if _, problem := c.reformat(text, a); problem != "" {
			c.fail("%s", problem)
		}
		c.saw("documents parsed again", 1)
	}
	for i, d := range donors {
		if now := snapshot(d, true); now != images[i] {
			c.fail("using clones of the parts of a document changed it: %s", firstDifference(images[i], now))
		}
	}
}
