package main

import (
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// sheet writes the canonical layout of documents: a second opinion on the
// formatter, written from the layout rules. It knows, for each line break,
// whether it belongs to a literal; lines that follow the others are indented
// by one tab for each level they are in.
type sheet struct {
	b     []byte
	depth int
	bol   bool
	group bool // a group whose parentheses stay, whatever is in it
}

func (s *sheet) w(text string) {
	if text == "" {
		return
	}
	if s.bol {
		for i := 0; i < s.depth; i++ {
			s.b = append(s.b, '\t')
		}
	}
	s.bol = false
	s.b = append(s.b, text...)
}

// nl ends a line.
func (s *sheet) nl() {
	s.b = append(s.b, '\n')
	s.bol = true
}

// trim removes the line breaks at the end of what was written since from.
func (s *sheet) trim(from int) {
	for len(s.b) > from && (s.b[len(s.b)-1] == '\n' || s.b[len(s.b)-1] == '\r') {
		s.b = s.b[:len(s.b)-1]
		s.bol = false
	}
}

func (s *sheet) blank(lines string) {
	for i := strings.Count(lines, "\n"); i > 0; i-- {
		s.nl()
	}
}

func sep[T any](s *sheet, list []T, with string, one func(T)) {
	for i, x := range list {
		if i > 0 {
			s.w(with)
		}
		one(x)
	}
}

func (s *sheet) document(a *etx.AST) {
	first := true
	for _, it := range a.Items {
		if it.EmptyLine != "" && it.Decl == nil && it.Func == nil && it.Type == nil && it.Block == nil && it.Attribute == nil && it.Comment == nil {
			continue
		}
		if !first {
			s.nl()
			s.nl()
		}
		first = false
		from := len(s.b)
		s.root(it)
		s.trim(from)
	}
	if !first {
		s.nl()
	}
}

func (s *sheet) root(it *etx.RootItem) {
	switch {
	case it.Decl != nil:
		s.decl(it.Decl.DeclType, it.Decl.Label, it.Decl.Type, it.Decl.Value)
	case it.Func != nil:
		s.fn(it.Func)
	case it.Type != nil:
		s.typ(it.Type)
	case it.Block != nil:
		s.block(it.Block)
	case it.Attribute != nil:
		s.attribute(it.Attribute)
	case it.Comment != nil:
		s.comment(it.Comment)
	default:
		s.blank(it.EmptyLine)
	}
}

func (s *sheet) comment(c *etx.Comment) {
	if c.Multiline != "" {
		text := strings.TrimRight(c.Multiline, "\r\n")
		s.w(text)
		s.blank(c.Multiline[len(text):])
		return
	}
	for _, l := range c.SingleLine {
		s.w(l)
		s.nl()
	}
}

// own writes a comment as lines of their own.
func (s *sheet) own(c *etx.Comment) {
	from := len(s.b)
	s.comment(c)
	s.trim(from)
	s.nl()
}

func (s *sheet) decl(kind, label string, t *etx.ParameterType, v *etx.Expr) {
	s.w(kind + " " + label)
	if t != nil {
		s.w(": ")
		s.ptype(t)
	}
	if v != nil {
		s.w(" = ")
		s.expr(v)
	}
}

func (s *sheet) ptype(t *etx.ParameterType) {
	if t.Ident != nil {
		s.w(strings.Join(t.Ident.Parts, "."))
		return
	}
	s.w("(")
	sep(s, t.Func.Parameters, ", ", s.ptype)
	s.w(") -> ")
	s.ptype(&t.Func.Return)
}

func (s *sheet) fn(f *etx.Func) {
	s.w("def " + f.Label + "(")
	sep(s, f.Parameters, ", ", func(p *etx.FuncParameter) {
		s.w(p.Label)
		if p.Type != nil {
			s.w(": ")
			s.ptype(p.Type)
		}
	})
	s.w(")")
	switch len(f.Return) {
	case 0:
	case 1:
		s.w(" ")
		s.ptype(f.Return[0])
	default:
		s.w(" (")
		sep(s, f.Return, ", ", s.ptype)
		s.w(")")
	}
	if len(f.Body) == 0 {
		s.w(" {}")
		return
	}
	s.w(" {")
	s.nl()
	s.depth++
	for _, b := range f.Body {
		switch {
		case b.EmptyLine != "":
			s.blank(b.EmptyLine)
		case b.Comment != nil:
			s.own(b.Comment)
		case b.Decl != nil:
			s.decl(b.Decl.DeclType, b.Decl.Label, b.Decl.Type, b.Decl.Value)
			s.nl()
		default:
			s.expr(b.Expr)
			s.nl()
		}
	}
	s.depth--
	s.w("}")
}

func (s *sheet) typ(t *etx.Type) {
	type item struct {
		blank string
		c     *etx.Comment
		label string
		rest  func()
	}
	var items []item
	widest := 0
	s.w("type " + t.Label)
	if t.Enum != nil {
		s.w(" enum {")
		for _, x := range t.Enum.Items {
			x := x
			items = append(items, item{x.EmptyLine, x.Comment, x.Label, func() { s.expr(&x.Value) }})
		}
	} else {
		s.w(" object {")
		for _, x := range t.Object.Items {
			x := x
			items = append(items, item{x.EmptyLine, x.Comment, x.Label, func() { s.ptype(&x.Type) }})
		}
	}
	for _, x := range items {
		if len(x.label) > widest {
			widest = len(x.label)
		}
	}
	s.depth++
	for _, x := range items {
		switch {
		case x.c != nil:
			s.nl()
			from := len(s.b)
			s.comment(x.c)
			s.trim(from)
		case x.blank != "":
			s.blank(x.blank)
		default:
			s.nl()
			s.w(x.label + ":" + strings.Repeat(" ", widest-len(x.label)+1))
			x.rest()
		}
	}
	s.depth--
	s.nl()
	s.w("}")
}

func (s *sheet) block(b *etx.Block) {
	s.w(b.Name)
	for _, l := range b.Labels {
		s.w(" \"" + l + "\"")
	}
	empty := true
	for _, it := range b.Body {
		empty = empty && it.EmptyLine != "" && !strings.Contains(it.EmptyLine, "\n")
	}
	if empty {
		s.w(" {}")
		return
	}
	s.w(" {")
	s.nl()
	s.depth++
	for _, it := range b.Body {
		switch {
		case it.EmptyLine != "":
			s.blank(it.EmptyLine)
		case it.Comment != nil:
			s.own(it.Comment)
		case it.Block != nil:
			s.block(it.Block)
			s.nl()
		default:
			s.attribute(it.Attribute)
			s.nl()
		}
	}
	s.depth--
	s.w("}")
}

func (s *sheet) attribute(a *etx.Attribute) {
	s.w(a.Key)
	if a.Value != nil {
		s.w(": ")
		s.expr(a.Value)
	}
}

// inner writes an expression on lines of its own, one level deeper.
func (s *sheet) inner(e *etx.Expr) {
	s.nl()
	s.depth++
	s.expr(e)
	s.depth--
	s.nl()
}

func (s *sheet) expr(e *etx.Expr) {
	switch {
	case e.If != nil:
		s.w("if ")
		s.or(&e.If.Condition)
		s.w(" {")
		if e.If.Left != nil {
			s.inner(e.If.Left)
		} else {
			s.w(" ")
		}
		s.w("}")
		if e.If.Right != nil {
			s.w(" else {")
			s.inner(e.If.Right)
			s.w("}")
		}
	case e.Switch != nil:
		s.w("switch ")
		s.or(&e.Switch.Selector)
		if len(e.Switch.Cases) == 0 {
			s.w(" { }")
			return
		}
		s.w(" {")
		s.nl()
		s.depth++
		for _, c := range e.Switch.Cases {
			if len(c.Conditions) == 0 {
				s.w("default: {")
			} else {
				s.w("case ")
				sep(s, c.Conditions, ", ", s.or)
				s.w(": {")
			}
			s.inner(c.Expr)
			s.w("}")
			s.nl()
		}
		s.depth--
		s.w("}")
	default:
		s.or(&e.Left.Condition)
		if e.Left.ConditionOp {
			s.w(" ? ")
			s.branch(e.Left.TrueExpr)
			s.w(" : ")
			s.branch(e.Left.FalseExpr)
		}
	}
}

func (s *sheet) branch(e *etx.Expr) {
	if e == nil {
		s.w("null")
		return
	}
	s.expr(e)
}

// binary writes one level of operators.
func binary[L, R any](s *sheet, left func(L), l L, op string, right func(R), r R) {
	left(l)
	if op != "" {
		s.w(" " + op + " ")
		right(r)
	}
}

func (s *sheet) or(e *etx.ExprLogicalOr)       { binary(s, s.and, &e.Left, e.Op, s.or, e.Right) }
func (s *sheet) and(e *etx.ExprLogicalAnd)     { binary(s, s.bor, &e.Left, e.Op, s.and, e.Right) }
func (s *sheet) bor(e *etx.ExprBitwiseOr)      { binary(s, s.bxor, &e.Left, e.Op, s.bor, e.Right) }
func (s *sheet) bxor(e *etx.ExprBitwiseXor)    { binary(s, s.band, &e.Left, e.Op, s.bxor, e.Right) }
func (s *sheet) band(e *etx.ExprBitwiseAnd)    { binary(s, s.eq, &e.Left, e.Op, s.band, e.Right) }
func (s *sheet) eq(e *etx.ExprEquality)        { binary(s, s.rel, &e.Left, e.Op, s.eq, e.Right) }
func (s *sheet) rel(e *etx.ExprRelational)     { binary(s, s.shift, &e.Left, e.Op, s.rel, e.Right) }
func (s *sheet) shift(e *etx.ExprShift)        { binary(s, s.sum, &e.Left, e.Op, s.shift, e.Right) }
func (s *sheet) sum(e *etx.ExprAdditive)       { binary(s, s.mul, &e.Left, e.Op, s.sum, e.Right) }
func (s *sheet) mul(e *etx.ExprMultiplicative) { binary(s, s.unary, &e.Left, e.Op, s.mul, e.Right) }

func (s *sheet) unary(e *etx.ExprUnary) {
	s.w(e.Op)
	s.postfix(&e.Right, false)
}

// postfix writes a value with what is selected from it. The parentheses of a
// group that something is selected from, or that is itself selected, stay.
func (s *sheet) postfix(e *etx.ExprPostfix, member bool) {
	s.primary(&e.Value, member || e.Index != nil || e.Post != nil)
	if e.Index != nil {
		s.w("[")
		s.expr(e.Index)
		s.w("]")
	}
	s.member(e.Post)
}

func (s *sheet) member(e *etx.ExprPostfix) {
	if e == nil {
		return
	}
	s.w(".")
	from := len(s.b)
	s.postfix(e, true)
	if c := s.b[from]; c == '_' || c >= '0' && c <= '9' {
		// The dot would become a part of the number.
		s.b = append(s.b[:from], append([]byte{' '}, s.b[from:]...)...)
	}
}

func (s *sheet) primary(e *etx.ExprPrimary, grouped bool) {
	switch {
	case e.SubExpression != nil:
		if !grouped && lone(e.SubExpression) {
			s.expr(e.SubExpression)
			return
		}
		s.w("(")
		s.expr(e.SubExpression)
		s.w(")")
	case e.Value != nil:
		s.value(e.Value)
	default:
		s.w(strings.Join(e.Ident.Parts, "."))
		for _, m := range e.Monads {
			s.w("(")
			sep(s, m.Values, ", ", s.expr)
			s.w(")")
		}
		s.member(e.Post)
	}
}

// lone tells whether an expression is nothing but a value, a name with its
// calls and members, or a group.
func lone(e *etx.Expr) bool {
	if e.Left == nil || e.Left.ConditionOp {
		return false
	}
	a := &e.Left.Condition
	b := &a.Left
	c := &b.Left
	d := &c.Left
	f := &d.Left
	g := &f.Left
	h := &g.Left
	i := &h.Left
	j := &i.Left
	k := &j.Left
	l := &k.Left
	for _, op := range []string{a.Op, b.Op, c.Op, d.Op, f.Op, g.Op, h.Op, i.Op, j.Op, k.Op, l.Op} {
		if op != "" {
			return false
		}
	}
	return l.Right.Index == nil && l.Right.Post == nil
}

func (s *sheet) value(v *etx.Value) {
	switch {
	case v.Null:
		s.w("null")
	case v.Bool != nil:
		if v.Bool.Value {
			s.w("true")
		} else {
			s.w("false")
		}
	case v.Number != nil:
		s.w(v.Number.Source)
	case v.Str != nil:
		s.str(v.Str)
	case v.Heredoc != nil:
		s.heredoc(v.Heredoc)
	case v.List != nil:
		s.items("[", "]", len(v.List.Items), func(i int) (string, *etx.Comment, func()) {
			it := v.List.Items[i]
			return it.EmptyLine, it.Comment, func() { s.expr(it.Value) }
		})
	case v.Map != nil:
		s.items("{", "}", len(v.Map.Items), func(i int) (string, *etx.Comment, func()) {
			it := v.Map.Items[i]
			return it.EmptyLine, it.Comment, func() {
				if it.Key.Ident != nil {
					s.w(strings.Join(it.Key.Ident.Parts, "."))
				} else {
					s.str(it.Key.Str)
				}
				s.w(": ")
				s.expr(it.Value)
			}
		})
	}
}

func (s *sheet) items(open, end string, n int, item func(i int) (string, *etx.Comment, func())) {
	s.w(open)
	if n > 0 {
		s.nl()
		s.depth++
		for i := 0; i < n; i++ {
			blank, c, write := item(i)
			switch {
			case blank != "":
				s.blank(blank)
			case c != nil:
				s.own(c)
			default:
				write()
				s.w(",")
				s.nl()
			}
		}
		s.depth--
	}
	s.w(end)
}

func (s *sheet) str(v *etx.ValueString) {
	quote := "\""
	for _, f := range v.Fragment {
		if strings.Contains(f.Text, "\"") {
			quote = "'"
		}
	}
	s.w(quote)
	for _, f := range v.Fragment {
		switch {
		case f.Escaped != "":
			s.w("\\" + strings.TrimPrefix(f.Escaped, "\\"))
		case f.Unicode != "":
			s.w("\\u" + f.Unicode)
		case f.Expr != nil:
			s.w("${")
			s.expr(f.Expr)
			s.w("}")
		case f.Directive != nil:
			s.w("%{")
			s.expr(f.Directive)
			s.w("}")
		default:
			s.w(f.Text)
		}
	}
	s.w(quote)
}

func (s *sheet) heredoc(v *etx.Heredoc) {
	s.w("<<")
	if v.Delimiter.LeadingTabs {
		s.w("-")
	}
	s.w(v.Delimiter.Delimiter)
	from := len(s.b)
	ahead := false
	for i, f := range v.Fragments {
		if i == 0 && !strings.HasPrefix(f.Text, "\n") {
			s.w("\n")
			ahead = true
		}
		switch {
		case f.Expr != nil:
			s.w("${ ")
			s.expr(f.Expr)
			s.w(" }")
		case f.Directive != nil:
			s.w("%{ ")
			s.expr(f.Directive)
			s.w(" }")
		default:
			s.w(f.Text)
		}
	}
	// The rows of the body end with the line break before the delimiter.
	if ahead && len(s.b) > from+1 && s.b[len(s.b)-1] == '\n' {
		s.b = s.b[:len(s.b)-1]
	}
	s.w("\n" + v.Delimiter.Delimiter)
}

// canonical is the canonical layout of a document.
func canonical(a *etx.AST) string {
	s := &sheet{}
	s.document(a)
	return string(s.b)
}

// part writes a node alone; false if nothing is said of its kind.
func (s *sheet) part(n any) bool {
	switch n := n.(type) {
	case *etx.RootItem:
		if n.EmptyLine != "" || n.Comment != nil {
			return false
		}
		s.root(n)
	case *etx.Decl:
		s.decl(n.DeclType, n.Label, n.Type, n.Value)
	case *etx.FuncDecl:
		s.decl(n.DeclType, n.Label, n.Type, n.Value)
	case *etx.Func:
		s.fn(n)
	case *etx.Type:
		s.typ(n)
	case *etx.Block:
		s.block(n)
	case *etx.Attribute:
		s.attribute(n)
	case *etx.ParameterType:
		s.ptype(n)
	case *etx.FuncSignature:
		s.ptype(&etx.ParameterType{Func: n})
	case *etx.Ident:
		s.w(strings.Join(n.Parts, "."))
	case *etx.Expr:
		s.expr(n)
	case *etx.ExprIf:
		s.expr(&etx.Expr{If: n})
	case *etx.ExprSwitch:
		s.expr(&etx.Expr{Switch: n})
	case *etx.ExprConditional:
		s.expr(&etx.Expr{Left: n})
	case *etx.ExprLogicalOr:
		s.or(n)
	case *etx.ExprLogicalAnd:
		s.and(n)
	case *etx.ExprBitwiseOr:
		s.bor(n)
	case *etx.ExprBitwiseXor:
		s.bxor(n)
	case *etx.ExprBitwiseAnd:
		s.band(n)
	case *etx.ExprEquality:
		s.eq(n)
	case *etx.ExprRelational:
		s.rel(n)
	case *etx.ExprShift:
		s.shift(n)
	case *etx.ExprAdditive:
		s.sum(n)
	case *etx.ExprMultiplicative:
		s.mul(n)
	case *etx.ExprUnary:
		s.unary(n)
	case *etx.ExprPostfix:
		s.postfix(n, false)
	case *etx.ExprPrimary:
		s.primary(n, false)
	case *etx.Value:
		s.value(n)
	case *etx.ValueNumber:
		s.value(&etx.Value{Number: n})
	case *etx.ValueBool:
		s.value(&etx.Value{Bool: n})
	case *etx.ValueString:
		s.str(n)
	case *etx.Heredoc:
		s.heredoc(n)
	case *etx.ValueList:
		s.value(&etx.Value{List: n})
	case *etx.ValueMap:
		s.value(&etx.Value{Map: n})
	default:
		return false
	}
	return true
}
