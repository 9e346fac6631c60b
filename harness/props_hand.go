package main

import (
	"encoding/json"
	"math/big"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/hexbee-net/etxe/pkg/etx"
)

func init() {
	register(&prop{id: "E22", quick: 120000, thorough: 3000000, run: runE22,
		rule: "nodes of every exported kind, filled at random within the alternatives of their kind (lambdas included), cloned, listed, linked, encoded and decoded; lambdas made of parsed parts formatted; non-trivial: distinct images",
		must: []string{"a Lambda", "a LambdaParameter", "a AST", "a Heredoc", "a ValueMap", "a ExprSwitch", "a ValueNumber", "lambdas formatted", "numbers without a spelling", "nodes cloned", "children compared", "nodes decoded", "documents linked"}})
}

// handKinds lists every kind of node: those below a document, and lambdas.
var handKinds = sync.OnceValue(func() (out []reflect.Type) {
	seen := map[reflect.Type]bool{}
	var rec func(t reflect.Type)
	rec = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Pointer, reflect.Slice:
			rec(t.Elem())
		case reflect.Struct:
			if seen[t] || t == typeASTNode || t == typePosition || t == typeBigFloat.Elem() {
				return
			}
			seen[t] = true
			if isNodeStruct(t) {
				out = append(out, t)
			}
			for i := 0; i < t.NumField(); i++ {
				rec(t.Field(i).Type)
			}
		}
	}
	out = append(out, reflect.TypeOf(etx.AST{}))
	rec(reflect.TypeOf(etx.AST{}))
	rec(reflect.TypeOf(etx.Lambda{}))
	return out
})

// only lists, for the kinds of nodes that are one of several things, the fields
// that can be set together.
var only = map[string][]string{
	"RootItem":        {"EmptyLine", "Decl", "Func", "Type", "Block", "Attribute", "Comment"},
	"ParameterType":   {"Ident", "Func"},
	"BlockItem":       {"EmptyLine", "Block", "Attribute", "Comment"},
	"Comment":         {"SingleLine", "Multiline"},
	"Expr":            {"Left", "If", "Switch"},
	"ExprCase":        {"Conditions Expr", "Default Expr"},
	"ExprPrimary":     {"SubExpression", "Value", "Ident Monads Post"},
	"FuncStatement":   {"EmptyLine", "Comment", "Decl", "Expr"},
	"Type":            {"Label Enum", "Label Object"},
	"TypeEnumItem":    {"EmptyLine", "Comment", "Label Value"},
	"TypeObjectItem":  {"EmptyLine", "Comment", "Label Type"},
	"Value":           {"Null", "Bool", "Number", "Str", "Heredoc", "List", "Map"},
	"HeredocFragment": {"Expr", "Directive", "Text"},
	"StringFragment":  {"Escaped", "Unicode", "Expr", "Directive", "Text"},
	"ListItem":        {"EmptyLine", "Value", "Comment"},
	"MapItem":         {"EmptyLine", "Key Value", "Comment"},
	"MapKey":          {"Ident", "Str"},
}

var handTexts = []string{"a", "b", "", "\n", "\n\n", "x y", "é", "${", "\"", "\\n", "// c", "/* c */", "+", "==", "EOF", "0x1F", "true", "\t", "日本", "a.b", "null", "<>&", "\u2028"}

// filler sets values at random; left limits the pointers that are set.
type filler struct {
	*rng
	left int
}

// fill sets v at random; depth limits the nodes below.
func (r *filler) fill(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.Type() == typeBigFloat {
			if r.p(85) {
				v.Set(reflect.ValueOf(handNumber(r.rng)))
			}
			return
		}
		if depth <= 0 || r.left <= 0 || r.p(30) {
			return
		}
		if r.left--; r.p(20) {
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		r.fill(v.Elem(), depth-1)
	case reflect.Slice:
		if r.p(12) {
			return
		}
		n := pick(r.rng, 0, 1, 1, 1, 2, 2, 3, 5, 9)
		if depth <= 0 || r.left <= 0 {
			n = 0
			if v.Type().Elem().Kind() == reflect.String {
				n = r.n(4)
			}
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+pick(r.rng, 0, 0, 1, 3)))
		r.left -= n
		for i := 0; i < n; i++ {
			e := v.Index(i)
			if e.Kind() == reflect.Pointer {
				e.Set(reflect.New(e.Type().Elem()))
				r.fill(e.Elem(), depth-1)
				continue
			}
			r.fill(e, depth-1)
		}
	case reflect.Struct:
		t := v.Type()
		if t == typePosition {
			v.Set(reflect.ValueOf(etx.Position{Filename: pick(r.rng, "", "", "f"), Offset: r.n(1000), Line: r.n(50), Column: r.n(80)}))
			return
		}
		allowed := ""
		if alts := only[t.Name()]; alts != nil {
			allowed = " " + alts[r.n(len(alts))] + " "
		}
		first := r.n(v.NumField())
		for k := 0; k < v.NumField(); k++ {
			i := (first + k) % v.NumField()
			f := v.Field(i)
			if f.Type() == typeNode || !f.CanSet() {
				continue
			}
			if allowed != "" && f.Type() != typeASTNode && !strings.Contains(allowed, " "+t.Field(i).Name+" ") {
				continue
			}
			r.fill(f, depth)
		}
	case reflect.String:
		v.SetString(handTexts[r.n(len(handTexts))])
	case reflect.Bool:
		v.SetBool(r.p(50))
	}
}

func handNumber(r *rng) *big.Float {
	f := new(big.Float).SetPrec(uint(pick(r, 1, 2, 3, 8, 24, 53, 64, 100, 400)))
	switch r.n(5) {
	case 0:
		return f.SetInt64(int64(r.n(10)))
	case 1:
		return f.SetInf(r.p(50))
	case 2:
		return new(big.Float)
	}
	f.SetUint64(r.next())
	f.SetMantExp(f, r.n(300)-150)
	if r.p(30) {
		f.Neg(f)
	}
	return f
}

func finite(n reflect.Value) bool {
	ok := true
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Pointer:
			if v.IsNil() {
				return
			}
			if v.Type() == typeBigFloat {
				ok = ok && !v.Interface().(*big.Float).IsInf()
				return
			}
			rec(v.Elem())
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).Type() != typeNode {
					rec(v.Field(i))
				}
			}
		}
	}
	rec(n)
	return ok
}

func runE22(c *C) {
	if c.r.p(3) {
		lambda(c)
		return
	}
	if c.r.p(6) {
		spelled(c)
		return
	}
	kinds := handKinds()
	t := kinds[c.idx%len(kinds)]
	name := "a " + t.Name()
	// Parents, that a clone must not keep.
	owner := &etx.Block{Name: "owner"}
	n := reflect.New(t)
	(&filler{c.r, pick(c.r, 3, 10, 30, 100)}).fill(n.Elem(), 1+c.r.n(9))
	marked := 0
	if node, ok := n.Interface().(etx.Node); ok && t != reflect.TypeOf(etx.AST{}) && c.r.p(50) {
		node.Node().Parent = owner
		marked = 1
	}
	image := snapshot(n.Interface(), false)
	c.input("node", clip(image))
	c.eval(len(image) > 60, image)
	c.saw(name, 1)

	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case failure, unfit:
				panic(e)
			}
			c.fail("%s panics: %v", name, e)
		}
	}()

	// No node at all.
	if cl, ok := cloneOf(reflect.Zero(n.Type())); !ok || !cl.IsNil() {
		c.fail("the clone of no %s is not nil", t.Name())
	}

	// Cloning.
	used := map[uintptr]string{}
	storage(n, true, used, t.Name())
	cl, _ := cloneOf(n)
	if cl.IsNil() {
		c.fail("the clone of %s is nil", name)
	}
	if y := snapshot(cl.Interface(), false); image != y {
		c.fail("the clone of %s differs: %s", name, firstDifference(image, y))
	}
	mine := map[uintptr]string{}
	storage(cl, true, mine, "clone of "+t.Name())
	for p, path := range mine {
		if orig, ok := used[p]; ok {
			c.fail("%s refers to the storage of %s in the original", path, orig)
		}
	}
	if marked == 1 && cl.Interface().(etx.Node).Node().Parent != nil {
		c.fail("the clone of %s has the parent of the original", name)
	}
	if now := snapshot(n.Interface(), false); now != image {
		c.fail("cloning changed %s: %s", name, firstDifference(image, now))
	}
	c.saw("nodes cloned", 1)

	// Children.
	for _, m := range append([]reflect.Value{n}, sampleNodes(c.r, below(n), 6)...) {
		list, ok := m.Interface().(interface{ Children() []etx.Node })
		if !ok {
			continue
		}
		c.children(m, list.Children())
	}

	// JSON.
	if finite(n) {
		x := c.encode(name, n.Interface())
		o := reflect.New(t)
		if err := json.Unmarshal([]byte(x), o.Interface()); err != nil {
			c.fail("%s cannot be decoded from its encoding: %v", name, err)
		}
		if before, after := contents(n), contents(o); before != after {
			c.fail("%s has other contents once decoded: %s", name, firstDifference(before, after))
		}
		c.saw("nodes decoded", 1)
	}

	// Links.
	if a, ok := n.Interface().(*etx.AST); ok {
		a.UpdateParentRefs()
		if now := snapshot(a, false); now != image {
			c.fail("updating the parents changed the document: %s", firstDifference(image, now))
		}
		var rec func(parent etx.Node, v reflect.Value)
		rec = func(parent etx.Node, v reflect.Value) {
			for _, ch := range fieldChildren(v.Elem()) {
				node := ch.Interface().(etx.Node)
				if placeholder(node) {
					continue
				}
				if p := node.Node().Parent; p != parent {
					c.fail("the parent of a %s below a %s is a %T", nodeName(node), v.Type().Elem().Name(), p)
				}
				rec(node, ch)
			}
		}
		rec(nil, n)
		c.saw("documents linked", 1)
	}

	// Changing the clone.
	before := snapshot(n.Interface(), true)
	scramble(cl)
	if now := snapshot(n.Interface(), true); now != before {
		c.fail("changing the clone of %s changed the original: %s", name, firstDifference(before, now))
	}
}

// below lists the nodes below n.
func below(n reflect.Value) (out []reflect.Value) {
	for _, ch := range fieldChildren(n.Elem()) {
		out = append(out, ch)
		out = append(out, below(ch)...)
	}
	return out
}

// children compares the listed children of a node with its fields.
func (c *C) children(n reflect.Value, children []etx.Node) {
	name := n.Type().Elem().Name()
	at := map[etx.Node]int{}
	for i, ch := range children {
		if ch == nil || reflect.ValueOf(ch).IsNil() {
			c.fail("a %s lists a nil child", name)
		}
		if _, ok := at[ch]; ok {
			c.fail("a %s lists a %s twice", name, nodeName(ch))
		}
		at[ch] = i
	}
	want := 0
	v := n.Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Type().Field(i).Type == typeASTNode || !v.Type().Field(i).IsExported() {
			continue
		}
		last := -1
		for _, ch := range nodesIn(v.Field(i)) {
			k, ok := at[ch.Interface().(etx.Node)]
			if !ok {
				if placeholder(ch.Interface()) {
					continue
				}
				c.fail("a %s is not among the children of its %s", nodeName(ch.Interface()), name)
			}
			if k < last {
				c.fail("the %s of a %s are listed out of order", v.Type().Field(i).Name, name)
			}
			last = k
			want++
		}
	}
	if want != len(children) {
		c.fail("a %s lists %d children, %d of which are its own", name, len(children), want)
	}
	c.saw("children compared", len(children))
}

// spelled formats a number that has no spelling and reads it again.
func spelled(c *C) {
	x := handNumber(c.r)
	if x.IsInf() || x.Signbit() || x.Prec() < 24 {
		return
	}
	image := x.Text('p', 0) + " at " + strconv.Itoa(int(x.Prec()))
	c.input("number", image)
	c.eval(true, image)
	text := c.formatted("a ValueNumber", &etx.ValueNumber{Value: x})
	c.input("formatted", text)
	a, err := c.parse("a = " + text + "\n")
	if err != nil {
		c.fail("the number %s is formatted as %s, that is rejected: %v", image, text, err)
	}
	var got *etx.ValueNumber
	for _, n := range allNodes(a) {
		if v, ok := n.Interface().(*etx.ValueNumber); ok {
			got = v
		}
	}
	if got == nil || got.Value == nil {
		c.fail("the number %s is formatted as %s, that is no number", image, text)
	}
	y := new(big.Float).SetPrec(x.Prec()).Set(got.Value)
	// math/big may choose a neighbour for the digits of a power of two.
	if exact := x.MinPrec() > 1; x.Cmp(y) != 0 && (exact || y.Sign() == 0 || y.MantExp(nil) != x.MantExp(nil)-1) {
		c.fail("the number %s is formatted as %s, that reads as %s", image, text, y.Text('p', 0))
	}
	c.saw("numbers without a spelling", 1)
}

// lambda makes a function literal of parsed parts and formats it.
func lambda(c *C) {
	a, _, tree := c.accepted(plainHeredocs)
	if oddHeredoc(tree) {
		return
	}
	var exprs []*etx.Expr
	var types []*etx.ParameterType
	var comments []*etx.Comment
	for _, n := range allNodes(a) {
		switch x := n.Interface().(type) {
		case *etx.Expr:
			if !placeholder(x) {
				exprs = append(exprs, x)
			}
		case *etx.ParameterType:
			if !placeholder(x) {
				types = append(types, x)
			}
		case *etx.Comment:
			if !strings.HasSuffix(x.Multiline, "\r") {
				comments = append(comments, x)
			}
		}
	}
	if len(exprs) == 0 {
		return
	}
	l := &etx.Lambda{Expr: *exprs[c.r.n(len(exprs))].Clone()}
	s := &sheet{}
	if len(comments) > 0 && c.r.p(40) {
		l.Comment = comments[c.r.n(len(comments))].Clone()
		s.comment(l.Comment)
	}
	s.w("(")
	for i := c.r.n(5); i > 0; i-- {
		p := &etx.LambdaParameter{Label: pick(c.r, "a", "b", "long-name", "x1")}
		if len(types) > 0 && c.r.p(60) {
			p.Type = types[c.r.n(len(types))].Clone()
		}
		l.Parameters = append(l.Parameters, p)
		s.w(p.Label)
		q := &sheet{}
		q.w(p.Label)
		if p.Type != nil {
			s.w(": ")
			s.ptype(p.Type)
			q.w(": ")
			q.ptype(p.Type)
		}
		if got := c.formatted("a LambdaParameter", p); got != string(q.b) {
			c.fail("a lambda parameter is formatted as %q, not %q", got, q.b)
		}
		if i > 1 {
			s.w(", ")
		}
	}
	s.w(") => ")
	s.expr(&l.Expr)
	want := string(s.b)
	c.input("canonical", want)
	c.eval(true, want)
	got := c.formatted("a Lambda", l)
	c.input("formatted", got)
	if got != want {
		c.fail("a lambda is not formatted as its parts: %s", firstDifference(got, want))
	}
	if got := c.formatted("the clone of a Lambda", l.Clone()); got != want {
		c.fail("the clone of a lambda is formatted differently: %s", firstDifference(got, want))
	}
	c.saw("lambdas formatted", 1)
}
