package main

import (
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

func init() {
	register(&prop{id: "E20", fast: true, sweep: 30, quick: 7000, thorough: 320000, run: runE20,
		rule: "formatted text of accepted generated and mutated documents, and of their parts, compared with that of a printer written from the layout rules; non-trivial: distinct accepted texts",
		must: []string{"generated", "mutated", "small", "parts", "node:heredoc", "node:cmt", "node:if", "node:switch", "node:map", "node:str", "node:func", "node:enum", "node:object", "node:tfn", "node:block"}})
	register(&prop{id: "E21", fast: true, sweep: 10, quick: 5000, thorough: 250000, run: runE21,
		rule: "parts of accepted documents, formatted alone and read again in a place of their kind; non-trivial: distinct accepted texts",
		must: []string{"generated", "mutated", "small", "a ListItem", "a MapItem", "a MapKey", "a TypeEnumItem", "a TypeObjectItem", "a BlockItem", "a FuncStatement", "a FuncParameter", "a ExprCase", "a ExprInvocationParams", "a Heredoc", "a ValueString", "a ExprPostfix", "a ParameterType", "a Comment"}})
}

func runE20(c *C) {
	a, _, tree := c.accepted(plainHeredocs)
	if oddHeredoc(tree) {
		c.saw("documents of a known finding, not judged", 1)
		return
	}
	s := &sheet{}
	s.document(a)
	got, want := c.formatted("the document", a), string(s.b)
	c.input("formatted", got)
	c.input("canonical", want)
	if got != want {
		c.fail("the formatted text is not in the canonical layout: %s", firstDifference(got, want))
	}
	for _, n := range sampleNodes(c.r, allNodes(a), 30) {
		f, ok := n.Interface().(interface{ FormattedString() string })
		if !ok || placeholder(f) {
			continue
		}
		s := &sheet{}
		if !s.part(f) {
			continue
		}
		c.saw("parts", 1)
		name := "a " + nodeName(f)
		if got, want := c.formatted(name, f), string(s.b); got != want {
			c.fail("the formatted text of %s is not in the canonical layout: %s", name, firstDifference(got, want))
		}
	}
}

func attr(e *etx.Expr) *etx.RootItem {
	return &etx.RootItem{Attribute: &etx.Attribute{Key: "a", Value: e}}
}

// exprOf is the expression that is nothing but the given part of one.
func exprOf(n any) *etx.Expr {
	switch n := n.(type) {
	case *etx.Expr:
		return n
	case *etx.ExprIf:
		return &etx.Expr{If: n}
	case *etx.ExprSwitch:
		return &etx.Expr{Switch: n}
	case *etx.ExprConditional:
		return &etx.Expr{Left: n}
	case *etx.ExprLogicalOr:
		return exprOf(&etx.ExprConditional{Condition: *n})
	case *etx.ExprLogicalAnd:
		return exprOf(&etx.ExprLogicalOr{Left: *n})
	case *etx.ExprBitwiseOr:
		return exprOf(&etx.ExprLogicalAnd{Left: *n})
	case *etx.ExprBitwiseXor:
		return exprOf(&etx.ExprBitwiseOr{Left: *n})
	case *etx.ExprBitwiseAnd:
		return exprOf(&etx.ExprBitwiseXor{Left: *n})
	case *etx.ExprEquality:
		return exprOf(&etx.ExprBitwiseAnd{Left: *n})
	case *etx.ExprRelational:
		return exprOf(&etx.ExprEquality{Left: *n})
	case *etx.ExprShift:
		return exprOf(&etx.ExprRelational{Left: *n})
	case *etx.ExprAdditive:
		return exprOf(&etx.ExprShift{Left: *n})
	case *etx.ExprMultiplicative:
		return exprOf(&etx.ExprAdditive{Left: *n})
	case *etx.ExprUnary:
		return exprOf(&etx.ExprMultiplicative{Left: *n})
	case *etx.ExprPostfix:
		return exprOf(&etx.ExprUnary{Right: *n})
	case *etx.ExprPrimary:
		return exprOf(&etx.ExprPostfix{Value: *n})
	case *etx.Value:
		return exprOf(&etx.ExprPrimary{Value: n})
	case *etx.ValueNumber:
		return exprOf(&etx.Value{Number: n})
	case *etx.ValueBool:
		return exprOf(&etx.Value{Bool: n})
	case *etx.ValueString:
		return exprOf(&etx.Value{Str: n})
	case *etx.Heredoc:
		return exprOf(&etx.Value{Heredoc: n})
	case *etx.ValueList:
		return exprOf(&etx.Value{List: n})
	case *etx.ValueMap:
		return exprOf(&etx.Value{Map: n})
	}
	return nil
}

// housed puts a part in the smallest document that can hold it, as a tree and
// as text.
func housed(n any, text string) (it *etx.RootItem, src string) {
	name := exprOf(&etx.ExprPrimary{Ident: &etx.Ident{Parts: []string{"x"}}})
	switch n := n.(type) {
	case *etx.RootItem:
		return n, text + "\n"
	case *etx.Decl:
		return &etx.RootItem{Decl: n}, text + "\n"
	case *etx.Func:
		return &etx.RootItem{Func: n}, text + "\n"
	case *etx.Type:
		return &etx.RootItem{Type: n}, text + "\n"
	case *etx.Block:
		return &etx.RootItem{Block: n}, text + "\n"
	case *etx.Attribute:
		return &etx.RootItem{Attribute: n}, text + "\n"
	case *etx.Comment:
		return &etx.RootItem{Comment: n}, text + "\n"
	case *etx.BlockItem:
		return &etx.RootItem{Block: &etx.Block{Name: "b", Body: []*etx.BlockItem{n}}}, "b {\n" + text + "\n}\n"
	case *etx.FuncStatement:
		return &etx.RootItem{Func: &etx.Func{Label: "f", Body: []*etx.FuncStatement{n}}}, "def f() {\n" + text + "\n}\n"
	case *etx.FuncDecl:
		return &etx.RootItem{Func: &etx.Func{Label: "f", Body: []*etx.FuncStatement{{Decl: n}}}}, "def f() {\n" + text + "\n}\n"
	case *etx.FuncParameter:
		return &etx.RootItem{Func: &etx.Func{Label: "f", Parameters: []*etx.FuncParameter{n}}}, "def f(" + text + ") {\n}\n"
	case *etx.ParameterType:
		return &etx.RootItem{Decl: &etx.Decl{DeclType: "val", Label: "x", Type: n}}, "val x: " + text + "\n"
	case *etx.Ident:
		// Some names mean something else as a value.
		return &etx.RootItem{Decl: &etx.Decl{DeclType: "val", Label: "x", Type: &etx.ParameterType{Ident: n}}}, "val x: " + text + "\n"
	case *etx.FuncSignature:
		return &etx.RootItem{Decl: &etx.Decl{DeclType: "val", Label: "x", Type: &etx.ParameterType{Func: n}}}, "val x: " + text + "\n"
	case *etx.TypeEnumItem:
		return &etx.RootItem{Type: &etx.Type{Label: "t", Enum: &etx.TypeEnum{Items: []*etx.TypeEnumItem{n}}}}, "type t enum {\n" + text + "\n}\n"
	case *etx.TypeObjectItem:
		return &etx.RootItem{Type: &etx.Type{Label: "t", Object: &etx.TypeObject{Items: []*etx.TypeObjectItem{n}}}}, "type t object {\n" + text + "\n}\n"
	case *etx.ListItem:
		return attr(exprOf(&etx.ValueList{Items: []*etx.ListItem{n}})), "a = [\n" + text + "\n]\n"
	case *etx.MapItem:
		return attr(exprOf(&etx.ValueMap{Items: []*etx.MapItem{n}})), "a = {\n" + text + "\n}\n"
	case *etx.MapKey:
		return attr(exprOf(&etx.ValueMap{Items: []*etx.MapItem{{Key: n, Value: name}}})), "a = {\n" + text + " = x\n}\n"
	case *etx.ExprCase:
		return attr(&etx.Expr{Switch: &etx.ExprSwitch{Selector: name.Left.Condition, Cases: []*etx.ExprCase{n}}}), "a = switch x {\n" + text + "\n}\n"
	case *etx.ExprInvocationParams:
		return attr(exprOf(&etx.ExprPrimary{Ident: &etx.Ident{Parts: []string{"x"}}, Monads: []*etx.ExprInvocationParams{n}})), "a = x(" + text + ")\n"
	}
	if e := exprOf(n); e != nil {
		return attr(e), "a = " + text + "\n"
	}
	return nil, ""
}

func runE21(c *C) {
	a, src, tree := c.accepted(plainHeredocs)
	if oddHeredoc(tree) {
		c.saw("documents of a known finding, not judged", 1)
		return
	}
	c.input("source", src)
	// The formatters that formatting the whole does not use, and some others.
	var alone, rest []reflect.Value
	for _, n := range allNodes(a) {
		switch n.Interface().(type) {
		case *etx.MapItem, *etx.MapKey, *etx.TypeEnumItem, *etx.TypeObjectItem, *etx.ListItem:
			alone = append(alone, n)
		default:
			rest = append(rest, n)
		}
	}
	for _, n := range append(sampleNodes(c.r, alone, 16), sampleNodes(c.r, rest, 10)...) {
		f, ok := n.Interface().(interface{ FormattedString() string })
		if !ok || placeholder(f) {
			continue
		}
		if v := reflect.ValueOf(f).Elem().FieldByName("EmptyLine"); v.IsValid() && v.String() != "" {
			continue
		}
		name := "a " + nodeName(f)
		text := c.formatted(name, f)
		it, src := housed(f, text)
		if it == nil {
			continue
		}
		c.saw(name, 1)
		c.input("part", text)
		b, err := c.parse(src)
		if err != nil {
			c.fail("the formatted text of %s cannot be read in its place: %v\n%s", name, err, clip(src))
		}
		want, _ := project(&etx.AST{Items: []*etx.RootItem{it}})
		got, _ := project(b)
		if d := diff(want, got, false); d != "" {
			c.fail("the formatted text of %s means something else in its place: %s\n%s", name, d, clip(src))
		}
		if strings.Contains(text, "\n") {
			c.saw("parts of several lines", 1)
		}
	}
}
