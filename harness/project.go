package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

// projector turns a parsed document into a canonical tree and notes anomalies
// of the tree itself (positions of collapsed levels, fields set together that
// exclude each other, operators without operands).
type projector struct {
	anomalies []string
}

func (p *projector) bad(format string, a ...any) {
	if len(p.anomalies) < 20 {
		p.anomalies = append(p.anomalies, fmt.Sprintf(format, a...))
	}
}

func posStr(a etx.Position) string {
	return fmt.Sprintf("offset=%d %d:%d", a.Offset, a.Line, a.Column)
}

// samePos demands that two nodes start at the same token.
func (p *projector) samePos(what string, a, b etx.Position) {
	a.Filename, b.Filename = "", ""
	if a != b {
		p.bad("position: %s: %s but its first component is at %s", what, posStr(a), posStr(b))
	}
}

func (p *projector) one(what string, set ...bool) {
	n := 0
	for _, s := range set {
		if s {
			n++
		}
	}
	if n != 1 {
		p.bad("structure: %s has %d alternatives set instead of 1", what, n)
	}
}

func setPos(n *N, pos etx.Position) *N { return n.at(pos.Offset, pos.Line, pos.Column) }

func project(a *etx.AST) (*N, []string) {
	p := &projector{}
	doc := mk("doc", "").at(0, 1, 1)
	for _, it := range a.Items {
		doc.C = append(doc.C, p.rootItem(it)...)
	}
	return doc, p.anomalies
}

func (p *projector) rootItem(it *etx.RootItem) []*N {
	p.one("top-level item", it.EmptyLine != "", it.Decl != nil, it.Func != nil, it.Type != nil, it.Block != nil, it.Attribute != nil, it.Comment != nil)
	switch {
	case it.Decl != nil:
		p.samePos("top-level item", it.Pos, it.Decl.Pos)
		return []*N{p.decl(it.Decl)}
	case it.Func != nil:
		p.samePos("top-level item", it.Pos, it.Func.Pos)
		return []*N{p.fn(it.Func)}
	case it.Type != nil:
		p.samePos("top-level item", it.Pos, it.Type.Pos)
		return []*N{p.typ(it.Type)}
	case it.Block != nil:
		p.samePos("top-level item", it.Pos, it.Block.Pos)
		return []*N{p.block(it.Block)}
	case it.Attribute != nil:
		p.samePos("top-level item", it.Pos, it.Attribute.Pos)
		return []*N{p.attr(it.Attribute)}
	case it.Comment != nil:
		p.samePos("top-level item", it.Pos, it.Comment.Pos)
		return p.comment(it.Comment)
	}
	return nil
}

func (p *projector) comment(c *etx.Comment) []*N {
	p.one("comment", c.Multiline != "", len(c.SingleLine) > 0)
	if c.Multiline != "" {
		return []*N{setPos(mk("mcmt", strings.TrimRight(c.Multiline, "\r\n")), c.Pos)}
	}
	var out []*N
	for i, s := range c.SingleLine {
		n := mk("cmt", strings.TrimRight(s, "\r"))
		if i == 0 {
			setPos(n, c.Pos)
		}
		out = append(out, n)
	}
	return out
}

func (p *projector) decl(d *etx.Decl) *N {
	return setPos(mk("decl", d.DeclType+" "+d.Label, p.optType(d.Type), p.optExpr(d.Value)), d.Pos)
}

func (p *projector) optType(t *etx.ParameterType) *N {
	if t == nil {
		return none
	}
	return p.ptype(t)
}

func (p *projector) optExpr(e *etx.Expr) *N {
	if e == nil {
		return none
	}
	return p.expr(e)
}

func (p *projector) ptype(t *etx.ParameterType) *N {
	p.one("type reference", t.Ident != nil, t.Func != nil)
	if t.Ident != nil {
		p.samePos("type reference", t.Pos, t.Ident.Pos)
		return setPos(mk("tid", strings.Join(t.Ident.Parts, ".")), t.Pos)
	}
	if t.Func != nil {
		p.samePos("type reference", t.Pos, t.Func.Pos)
		ps := mk("params", "")
		for _, x := range t.Func.Parameters {
			ps.C = append(ps.C, p.ptype(x))
		}
		return setPos(mk("tfn", "", ps, p.ptype(&t.Func.Return)), t.Pos)
	}
	return none
}

func (p *projector) fn(f *etx.Func) *N {
	ps, rs, body := mk("params", ""), mk("rets", ""), mk("body", "")
	for _, x := range f.Parameters {
		ps.C = append(ps.C, setPos(mk("param", x.Label, p.optType(x.Type)), x.Pos))
	}
	for _, x := range f.Return {
		rs.C = append(rs.C, p.ptype(x))
	}
	for _, s := range f.Body {
		p.one("statement", s.EmptyLine != "", s.Comment != nil, s.Decl != nil, s.Expr != nil)
		switch {
		case s.Comment != nil:
			p.samePos("statement", s.Pos, s.Comment.Pos)
			body.C = append(body.C, p.comment(s.Comment)...)
		case s.Decl != nil:
			p.samePos("statement", s.Pos, s.Decl.Pos)
			d := s.Decl
			body.C = append(body.C, setPos(mk("fdecl", d.DeclType+" "+d.Label, p.optType(d.Type), p.optExpr(d.Value)), d.Pos))
		case s.Expr != nil:
			p.samePos("statement", s.Pos, s.Expr.Pos)
			body.C = append(body.C, p.expr(s.Expr))
		}
	}
	return setPos(mk("func", f.Label, ps, rs, body), f.Pos)
}

func (p *projector) typ(t *etx.Type) *N {
	p.one("type", t.Enum != nil, t.Object != nil)
	if t.Enum != nil {
		n := setPos(mk("enum", t.Label), t.Pos)
		for _, it := range t.Enum.Items {
			p.one("enum item", it.EmptyLine != "", it.Comment != nil, it.Label != "")
			switch {
			case it.Comment != nil:
				p.samePos("enum item", it.Pos, it.Comment.Pos)
				n.C = append(n.C, p.comment(it.Comment)...)
			case it.Label != "":
				n.C = append(n.C, setPos(mk("member", it.Label, p.expr(&it.Value)), it.Pos))
			}
		}
		return n
	}
	if t.Object == nil {
		return none
	}
	n := setPos(mk("object", t.Label), t.Pos)
	for _, it := range t.Object.Items {
		p.one("object item", it.EmptyLine != "", it.Comment != nil, it.Label != "")
		switch {
		case it.Comment != nil:
			p.samePos("object item", it.Pos, it.Comment.Pos)
			n.C = append(n.C, p.comment(it.Comment)...)
		case it.Label != "":
			n.C = append(n.C, setPos(mk("member", it.Label, p.ptype(&it.Type)), it.Pos))
		}
	}
	return n
}

func (p *projector) block(b *etx.Block) *N {
	ls, body := mk("labels", ""), mk("body", "")
	for _, l := range b.Labels {
		ls.C = append(ls.C, mk("label", l))
	}
	for _, it := range b.Body {
		p.one("block item", it.EmptyLine != "", it.Block != nil, it.Attribute != nil, it.Comment != nil)
		switch {
		case it.Block != nil:
			p.samePos("block item", it.Pos, it.Block.Pos)
			body.C = append(body.C, p.block(it.Block))
		case it.Attribute != nil:
			p.samePos("block item", it.Pos, it.Attribute.Pos)
			body.C = append(body.C, p.attr(it.Attribute))
		case it.Comment != nil:
			p.samePos("block item", it.Pos, it.Comment.Pos)
			body.C = append(body.C, p.comment(it.Comment)...)
		}
	}
	return setPos(mk("block", b.Name, ls, body), b.Pos)
}

func (p *projector) attr(a *etx.Attribute) *N {
	return setPos(mk("attr", a.Key, p.optExpr(a.Value)), a.Pos)
}

func (p *projector) expr(e *etx.Expr) *N {
	p.one("expression", e.Left != nil, e.If != nil, e.Switch != nil)
	switch {
	case e.Left != nil:
		p.samePos("expression", e.Pos, e.Left.Pos)
		return p.cond(e.Left)
	case e.If != nil:
		p.samePos("expression", e.Pos, e.If.Pos)
		return setPos(mk("if", "", p.level(&e.If.Condition), p.optExpr(e.If.Left), p.optExpr(e.If.Right)), e.If.Pos)
	case e.Switch != nil:
		p.samePos("expression", e.Pos, e.Switch.Pos)
		n := setPos(mk("switch", "", p.level(&e.Switch.Selector)), e.Switch.Pos)
		for _, c := range e.Switch.Cases {
			p.one("case", len(c.Conditions) > 0, c.Default)
			k := "case"
			if c.Default {
				k = "default"
			}
			cn := setPos(mk(k, ""), c.Pos)
			for _, x := range c.Conditions {
				cn.C = append(cn.C, p.level(x))
			}
			cn.C = append(cn.C, p.optExpr(c.Expr))
			n.C = append(n.C, cn)
		}
		return n
	}
	return none
}

func (p *projector) cond(c *etx.ExprConditional) *N {
	p.samePos("conditional", c.Pos, c.Condition.Pos)
	n := p.level(&c.Condition)
	if !c.ConditionOp {
		if c.TrueExpr != nil || c.FalseExpr != nil {
			p.bad("structure: conditional branches without '?'")
		}
		return n
	}
	return setPos(mk("cond", "", n, p.optExpr(c.TrueExpr), p.optExpr(c.FalseExpr)), c.Pos)
}

var levelNames = map[string]string{
	"ExprLogicalOr": "or", "ExprLogicalAnd": "and", "ExprBitwiseOr": "bor", "ExprBitwiseXor": "xor",
	"ExprBitwiseAnd": "band", "ExprEquality": "eq", "ExprRelational": "rel", "ExprShift": "shift",
	"ExprAdditive": "add", "ExprMultiplicative": "mul",
}

// level projects one level of the operator ladder (any of the Expr* binary
// structs, which have Left, Op and Right in common).
func (p *projector) level(v any) *N {
	if u, ok := v.(*etx.ExprUnary); ok {
		return p.unary(u)
	}
	rv := reflect.ValueOf(v).Elem()
	name := levelNames[rv.Type().Name()]
	pos := rv.FieldByName("Pos").Interface().(etx.Position)
	first := pos
	var chain []*N
	for {
		left := rv.FieldByName("Left").Addr().Interface()
		p.samePos(name+" operand", rv.FieldByName("Pos").Interface().(etx.Position), left.(etx.Node).Node().Pos)
		chain = append(chain, p.level(left))
		op := rv.FieldByName("Op").String()
		right := rv.FieldByName("Right")
		if op == "" {
			if !right.IsNil() {
				p.bad("structure: %s level has a right operand without operator", name)
			}
			break
		}
		chain = append(chain, mk("op", op))
		if right.IsNil() {
			p.bad("structure: %s level has operator %s without right operand", name, op)
			break
		}
		rv = right.Elem()
	}
	if len(chain) == 1 {
		return chain[0]
	}
	return setPos(mk("chain", name, chain...), first)
}

func (p *projector) unary(u *etx.ExprUnary) *N {
	if u.Op == "" {
		p.samePos("unary", u.Pos, u.Right.Pos)
		return p.postfix(&u.Right)
	}
	return setPos(mk("un", u.Op, p.postfix(&u.Right)), u.Pos)
}

func (p *projector) postfix(x *etx.ExprPostfix) *N {
	base, sels := p.postfixParts(x)
	if len(sels) == 0 {
		return base
	}
	return setPos(mkPath(base, sels), x.Pos)
}

func (p *projector) postfixParts(x *etx.ExprPostfix) (*N, []*N) {
	p.samePos("postfix", x.Pos, x.Value.Pos)
	base, sels := p.primary(&x.Value)
	if x.Index != nil {
		sels = append(sels, mk("index", "", p.expr(x.Index)))
	}
	if x.Post != nil {
		b, s := p.postfixParts(x.Post)
		sels = append(sels, memberSels(b, s)...)
	}
	return base, sels
}

func (p *projector) primary(x *etx.ExprPrimary) (*N, []*N) {
	p.one("primary", x.SubExpression != nil, x.Value != nil, x.Ident != nil)
	switch {
	case x.SubExpression != nil:
		return p.expr(x.SubExpression), nil
	case x.Value != nil:
		p.samePos("primary", x.Pos, x.Value.Pos)
		return p.value(x.Value), nil
	case x.Ident != nil:
		p.samePos("primary", x.Pos, x.Ident.Pos)
		if len(x.Ident.Parts) == 0 {
			p.bad("structure: identifier without parts")
			return none, nil
		}
		base := setPos(mk("id", x.Ident.Parts[0]), x.Ident.Pos)
		var sels []*N
		for _, s := range x.Ident.Parts[1:] {
			sels = append(sels, mk("dot", s))
		}
		for _, m := range x.Monads {
			c := mk("call", "")
			for _, a := range m.Values {
				c.C = append(c.C, p.expr(a))
			}
			sels = append(sels, c)
		}
		if x.Post != nil {
			b, s := p.postfixParts(x.Post)
			sels = append(sels, memberSels(b, s)...)
		}
		return base, sels
	}
	return none, nil
}

func (p *projector) value(v *etx.Value) *N {
	p.one("value", v.Null, v.Bool != nil, v.Number != nil, v.Str != nil, v.Heredoc != nil, v.List != nil, v.Map != nil)
	var n *N
	switch {
	case v.Null:
		n = mk("null", "")
	case v.Bool != nil:
		n = mk("bool", fmt.Sprint(v.Bool.Value))
	case v.Number != nil:
		n = mk("num", v.Number.Source)
	case v.Str != nil:
		p.samePos("string value", v.Pos, v.Str.Pos)
		n = mk("str", "", p.strFragments(v.Str)...)
	case v.Heredoc != nil:
		p.samePos("heredoc value", v.Pos, v.Heredoc.Pos)
		d := v.Heredoc.Delimiter.Delimiter
		if v.Heredoc.Delimiter.LeadingTabs {
			d = "-" + d
		}
		n = mk("heredoc", d)
		var fr []*N
		for _, f := range v.Heredoc.Fragments {
			p.one("heredoc fragment", f.Expr != nil, f.Directive != nil, f.Text != "")
			switch {
			case f.Expr != nil:
				fr = append(fr, setPos(mk("interp", "", p.expr(f.Expr)), f.Pos))
			case f.Directive != nil:
				fr = append(fr, setPos(mk("directive", "", p.expr(f.Directive)), f.Pos))
			default:
				fr = append(fr, setPos(mk("txt", f.Text), f.Pos))
			}
		}
		n.C = mergeText(fr)
	case v.List != nil:
		p.samePos("list value", v.Pos, v.List.Pos)
		n = mk("list", "")
		for _, it := range v.List.Items {
			p.one("list item", it.EmptyLine != "", it.Value != nil, it.Comment != nil)
			if it.Value != nil {
				p.samePos("list item", it.Pos, it.Value.Pos)
				n.C = append(n.C, p.expr(it.Value))
			} else if it.Comment != nil {
				p.samePos("list item", it.Pos, it.Comment.Pos)
				n.C = append(n.C, p.comment(it.Comment)...)
			}
		}
	case v.Map != nil:
		p.samePos("map value", v.Pos, v.Map.Pos)
		n = mk("map", "")
		for _, it := range v.Map.Items {
			p.one("map item", it.EmptyLine != "", it.Key != nil, it.Comment != nil)
			if it.Key != nil {
				p.samePos("map item", it.Pos, it.Key.Pos)
				p.one("map key", it.Key.Ident != nil, it.Key.Str != nil)
				var k *N
				if it.Key.Ident != nil {
					k = setPos(mk("key", strings.Join(it.Key.Ident.Parts, ".")), it.Key.Pos)
				} else if it.Key.Str != nil {
					p.samePos("map key", it.Key.Pos, it.Key.Str.Pos)
					k = setPos(mk("skey", "", p.strFragments(it.Key.Str)...), it.Key.Pos)
				}
				n.C = append(n.C, setPos(mk("entry", "", orNone(k), p.optExpr(it.Value)), it.Pos))
			} else if it.Comment != nil {
				p.samePos("map item", it.Pos, it.Comment.Pos)
				n.C = append(n.C, p.comment(it.Comment)...)
			}
		}
	default:
		return none
	}
	return setPos(n, v.Pos)
}

func (p *projector) strFragments(s *etx.ValueString) []*N {
	var fr []*N
	for _, f := range s.Fragment {
		p.one("string fragment", f.Escaped != "", f.Unicode != "", f.Expr != nil, f.Directive != nil, f.Text != "")
		var n *N
		switch {
		case f.Escaped != "":
			e := f.Escaped
			if !(len(e) > 1 && e[0] == '\\') {
				e = `\` + e
			}
			n = mk("esc", e)
		case f.Unicode != "":
			n = mk("uni", f.Unicode)
		case f.Expr != nil:
			n = mk("interp", "", p.expr(f.Expr))
		case f.Directive != nil:
			n = mk("directive", "", p.expr(f.Directive))
		default:
			n = mk("txt", f.Text)
		}
		fr = append(fr, setPos(n, f.Pos))
	}
	return mergeText(fr)
}
