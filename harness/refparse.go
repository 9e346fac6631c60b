package main

import (
	"regexp"
	"strings"
)

// The reference reader: a hand-written recursive descent parser with ordered
// alternatives, producing canonical trees.
//
// Every parse method returns nil on failure, leaving p.pos where the failure
// happened; alternatives and options restore the position, unless the failing
// branch went more than 50 tokens far, which the language treats as final.

const refLookahead = 50

type refParser struct {
	t    []tok
	pos  int
	hard bool // a branch failed past the lookahead: the whole parse fails
	far  bool // a branch failed close to the lookahead limit
	eof  tok
}

type refResult struct {
	Tree *N // nil if rejected
	// Far is set when acceptance was decided next to the lookahead limit.
	Far    bool
	Hard   bool // rejected for lack of lookahead
	BadNum bool
	// ItemStart is the offset of the top-level item that could not be read.
	ItemStart int
	Toks      []tok
	LexErr    *lexErr
}

func (p *refParser) peek() tok {
	if p.pos < len(p.t) {
		return p.t[p.pos]
	}
	return p.eof
}

// is tests a token by kind (structural tokens have their text as kind).
func (p *refParser) is(kind string) bool { return p.peek().K == kind }

// lit tests for a token by its text.
func (p *refParser) lit(v string) bool { return p.pos < len(p.t) && p.t[p.pos].V == v }

func (p *refParser) eat(kind string) bool {
	if p.is(kind) {
		p.pos++
		return true
	}
	return false
}

func (p *refParser) eatLit(v string) bool {
	if p.lit(v) {
		p.pos++
		return true
	}
	return false
}

func (p *refParser) lfs() {
	for p.eat("LF") {
	}
}

// try runs f as an alternative: on failure the position is restored.
func (p *refParser) try(f func() bool) bool {
	if p.hard {
		return false
	}
	start := p.pos
	if f() && !p.hard {
		return true
	}
	if p.hard {
		return false
	}
	if d := p.pos - start; d > refLookahead {
		p.hard = true
		return false
	} else if d > refLookahead-5 {
		p.far = true
	}
	p.pos = start
	return false
}

func (p *refParser) here(n *N, t tok) *N { return n.at(t.Off, t.Line, t.Col) }

func refParse(src string) refResult {
	toks, lerr := refLex(src)
	res := refResult{Toks: toks, LexErr: lerr}
	if lerr != nil {
		return res
	}
	p := &refParser{t: toks, eof: tok{K: "EOF", Off: len(src)}}
	var items []*N
	for {
		if p.pos < len(p.t) {
			res.ItemStart = p.t[p.pos].Off
		} else {
			res.ItemStart = len(src)
		}
		start := p.pos
		var got []*N
		if !p.try(func() bool { var ok bool; got, ok = p.rootItem(); return ok }) || p.pos == start {
			break
		}
		items = append(items, got...)
	}
	res.Far, res.Hard = p.far, p.hard
	if p.hard || p.pos < len(p.t) {
		return res
	}
	for _, t := range toks {
		if t.K == "num" && !validNumber(t.V) {
			res.BadNum = true
			return res
		}
	}
	res.Tree = mk("doc", "", items...).at(0, 1, 1)
	return res
}

func (p *refParser) rootItem() ([]*N, bool) {
	if p.eat("LF") {
		p.lfs()
		return nil, true
	}
	for _, f := range []func() *N{p.decl, p.fn, p.typ, p.block, p.attr} {
		var n *N
		if p.try(func() bool { n = f(); return n != nil }) {
			p.eat("LF")
			return []*N{n}, true
		}
		if p.hard {
			return nil, false
		}
	}
	return p.comment()
}

// comment reads a comment item; nil, false if there is none.
func (p *refParser) comment() ([]*N, bool) {
	if p.is("cmt") {
		var out []*N
		for p.is("cmt") {
			t := p.peek()
			p.pos++
			out = append(out, p.here(mk("cmt", strings.TrimRight(t.V, "\r")), t))
			p.eat("LF")
		}
		return out, true
	}
	if p.is("mcmt") {
		t := p.peek()
		p.pos++
		p.eat("LF")
		return []*N{p.here(mk("mcmt", t.V), t)}, true
	}
	return nil, false
}

func (p *refParser) ident() (tok, bool) {
	t := p.peek()
	if p.eat("id") {
		return t, true
	}
	return t, false
}

func (p *refParser) decl() *N { return p.declOf("decl", "input", "output", "const", "val") }

func (p *refParser) declOf(kind string, kws ...string) *N {
	t := p.peek()
	ok := false
	for _, k := range kws {
		ok = ok || p.eatLit(k)
	}
	if !ok {
		return nil
	}
	l, ok := p.ident()
	if !ok {
		return nil
	}
	n := p.here(mk(kind, t.V+" "+l.V, none, none), t)
	p.try(func() bool {
		if !p.eatLit(":") {
			return false
		}
		ty := p.ptype()
		if ty == nil {
			return false
		}
		n.C[0] = ty
		return true
	})
	p.try(func() bool {
		if !p.eatLit("=") {
			return false
		}
		e := p.expr()
		if e == nil {
			return false
		}
		n.C[1] = e
		return true
	})
	if p.hard {
		return nil
	}
	return n
}

// ptype reads a parameter type.
func (p *refParser) ptype() *N {
	t := p.peek()
	if t.K == "id" {
		return p.here(mk("tid", p.dotted()), t)
	}
	return p.fsig()
}

// dotted reads a dotted identifier (the first part is known to be there).
func (p *refParser) dotted() string {
	parts := []string{p.t[p.pos].V}
	p.pos++
	for p.try(func() bool {
		if !p.eatLit(".") {
			return false
		}
		t, ok := p.ident()
		if ok {
			parts = append(parts, t.V)
		}
		return ok
	}) {
	}
	return strings.Join(parts, ".")
}

func (p *refParser) fsig() *N {
	t := p.peek()
	if !p.eatLit("(") {
		return nil
	}
	params := p.typeList()
	if p.hard || !p.eatLit(")") || !p.eat("->") {
		return nil
	}
	ret := p.ptype()
	if ret == nil {
		return nil
	}
	return p.here(mk("tfn", "", mk("params", "", params...), ret), t)
}

func (p *refParser) typeList() (out []*N) {
	p.try(func() bool {
		n := p.ptype()
		if n == nil {
			return false
		}
		out = append(out, n)
		for p.try(func() bool {
			if !p.eatLit(",") {
				return false
			}
			n := p.ptype()
			if n == nil {
				return false
			}
			out = append(out, n)
			return true
		}) {
		}
		return !p.hard
	})
	return out
}

func (p *refParser) fn() *N {
	t := p.peek()
	if !p.eatLit("def") {
		return nil
	}
	l, ok := p.ident()
	if !ok || !p.eatLit("(") {
		return nil
	}
	var params, rets, body []*N
	param := func() bool {
		t, ok := p.ident()
		if !ok {
			return false
		}
		n := p.here(mk("param", t.V, none), t)
		p.try(func() bool {
			if !p.eatLit(":") {
				return false
			}
			ty := p.ptype()
			if ty == nil {
				return false
			}
			n.C[0] = ty
			return true
		})
		params = append(params, n)
		return !p.hard
	}
	p.try(func() bool {
		if !param() {
			return false
		}
		for p.try(func() bool { return p.eatLit(",") && param() }) {
		}
		return !p.hard
	})
	if p.hard || !p.eatLit(")") {
		return nil
	}
	p.try(func() bool {
		if p.try(func() bool {
			if !p.eatLit("(") {
				return false
			}
			rets = p.typeList()
			return !p.hard && p.eatLit(")") && !p.is("->")
		}) {
			return true
		}
		rets = nil
		if p.hard {
			return false
		}
		n := p.ptype()
		if n == nil {
			return false
		}
		rets = []*N{n}
		return true
	})
	if p.hard {
		return nil
	}
	p.lfs()
	if !p.eatLit("{") {
		return nil
	}
	p.lfs()
	for {
		var got []*N
		start := p.pos
		if !p.try(func() bool { var ok bool; got, ok = p.stmt(); return ok }) || start == p.pos {
			break
		}
		body = append(body, got...)
	}
	if p.hard || !p.eatLit("}") {
		return nil
	}
	return p.here(mk("func", l.V, mk("params", "", params...), mk("rets", "", rets...), mk("body", "", body...)), t)
}

func (p *refParser) stmt() ([]*N, bool) {
	if p.eat("LF") {
		p.lfs()
		return nil, true
	}
	if c, ok := p.comment(); ok {
		return c, true
	}
	var n *N
	if p.try(func() bool { n = p.declOf("fdecl", "const", "val"); return n != nil }) {
		p.eat("LF")
		return []*N{n}, true
	}
	if p.hard {
		return nil, false
	}
	if n = p.expr(); n == nil {
		return nil, false
	}
	p.eat("LF")
	return []*N{n}, true
}

func (p *refParser) typ() *N {
	t := p.peek()
	if !p.eatLit("type") {
		return nil
	}
	l, ok := p.ident()
	if !ok {
		return nil
	}
	kind := ""
	switch {
	case p.lit("enum"):
		kind = "enum"
	case p.lit("object"):
		kind = "object"
	default:
		return nil
	}
	p.pos++
	if !p.eatLit("{") {
		return nil
	}
	p.lfs()
	var items []*N
	for {
		start := p.pos
		var got []*N
		if !p.try(func() bool {
			if p.eat("LF") {
				p.lfs()
				return true
			}
			if c, ok := p.comment(); ok {
				got = c
				return true
			}
			l, ok := p.ident()
			if !ok || !p.eatLit(":") {
				return false
			}
			var v *N
			if kind == "enum" {
				v = p.expr()
			} else {
				v = p.ptype()
			}
			if v == nil {
				return false
			}
			p.eat("LF")
			got = []*N{p.here(mk("member", l.V, v), l)}
			return true
		}) || start == p.pos {
			break
		}
		items = append(items, got...)
	}
	if p.hard || !p.eatLit("}") {
		return nil
	}
	return p.here(mk(kind, l.V, items...), t)
}

func (p *refParser) block() *N {
	l, ok := p.ident()
	if !ok {
		return nil
	}
	var labels, body []*N
	for p.try(func() bool {
		t := p.peek()
		if p.eat("id") {
			labels = append(labels, mk("label", t.V))
			return true
		}
		if !p.eat("str") {
			return false
		}
		c := p.peek()
		if !p.eat("char") || !p.eat("str-end") {
			return false
		}
		labels = append(labels, mk("label", c.V))
		return true
	}) {
	}
	if p.hard || !p.eatLit("{") {
		return nil
	}
	p.eat("LF")
	for {
		start := p.pos
		var got []*N
		if !p.try(func() bool {
			if p.eat("LF") {
				p.lfs()
				return true
			}
			var n *N
			for _, f := range []func() *N{p.block, p.attr} {
				if p.try(func() bool { n = f(); return n != nil }) {
					p.eat("LF")
					got = []*N{n}
					return true
				}
				if p.hard {
					return false
				}
			}
			c, ok := p.comment()
			got = c
			return ok
		}) || start == p.pos {
			break
		}
		body = append(body, got...)
	}
	if p.hard || !p.eatLit("}") {
		return nil
	}
	return p.here(mk("block", l.V, mk("labels", "", labels...), mk("body", "", body...)), l)
}

func (p *refParser) attr() *N {
	k, ok := p.ident()
	if !ok {
		return nil
	}
	n := p.here(mk("attr", k.V, none), k)
	p.try(func() bool {
		if !p.eatLit("=") && !p.eatLit(":") {
			return false
		}
		e := p.expr()
		if e == nil {
			return false
		}
		n.C[0] = e
		return true
	})
	if p.hard {
		return nil
	}
	return n
}

// /////////////////////////////////////
// Expressions

var levels = []struct {
	name string
	ops  []string
}{
	{"or", []string{"||"}},
	{"and", []string{"&&"}},
	{"bor", []string{"|"}},
	{"xor", []string{"^"}},
	{"band", []string{"&"}},
	{"eq", []string{"!=", "=="}},
	{"rel", []string{">", ">=", "<", "<="}},
	{"shift", []string{"<<", ">>"}},
	{"add", []string{"-", "+"}},
	{"mul", []string{"/", "*", "%"}},
}

func (p *refParser) expr() *N {
	var n *N
	for _, f := range []func() *N{p.cond, p.ifExpr, p.switchExpr} {
		if p.try(func() bool { n = f(); return n != nil }) {
			return n
		}
		if p.hard {
			return nil
		}
	}
	return nil
}

func (p *refParser) cond() *N {
	t := p.peek()
	c := p.level(0)
	if c == nil {
		return nil
	}
	n := c
	p.try(func() bool {
		if !p.eatLit("?") {
			return false
		}
		a := p.expr()
		if a == nil || !p.eatLit(":") {
			return false
		}
		b := p.expr()
		if b == nil {
			return false
		}
		n = p.here(mk("cond", "", c, a, b), t)
		return true
	})
	if p.hard {
		return nil
	}
	return n
}

func (p *refParser) level(l int) *N {
	if l == len(levels) {
		return p.unary()
	}
	t := p.peek()
	left := p.level(l + 1)
	if left == nil {
		return nil
	}
	chain := []*N{left}
	var rest func() bool
	rest = func() bool {
		op := ""
		for _, o := range levels[l].ops {
			if p.is(o) {
				op = o
			}
		}
		if op == "" {
			return false
		}
		p.pos++
		mark := len(chain)
		r := p.level(l + 1)
		if r == nil {
			return false
		}
		chain = append(chain, mk("op", op), r)
		p.try(func() bool { return rest() })
		if p.hard {
			chain = chain[:mark]
			return false
		}
		return true
	}
	p.try(rest)
	if p.hard {
		return nil
	}
	if len(chain) == 1 {
		return left
	}
	return p.here(mk("chain", levels[l].name, chain...), t)
}

func (p *refParser) unary() *N {
	t := p.peek()
	op := ""
	for _, o := range []string{"~", "!", "-", "+"} {
		if p.is(o) {
			op = o
			p.pos++
			break
		}
	}
	n := p.postfix()
	if n == nil {
		return nil
	}
	if op == "" {
		return n
	}
	return p.here(mk("un", op, n), t)
}

func (p *refParser) postfix() *N {
	t := p.peek()
	base, sels := p.postfixParts()
	if base == nil {
		return nil
	}
	if len(sels) == 0 {
		return base
	}
	return p.here(mkPath(base, sels), t)
}

// postfixParts reads a primary with the selectors applied to it.
func (p *refParser) postfixParts() (base *N, sels []*N) {
	base, sels = p.primary()
	if base == nil {
		return nil, nil
	}
	p.try(func() bool {
		if !p.eatLit("[") {
			return false
		}
		e := p.expr()
		if e == nil || !p.eatLit("]") {
			return false
		}
		sels = append(sels, mk("index", "", e))
		return true
	})
	p.member(&sels)
	if p.hard {
		return nil, nil
	}
	return base, sels
}

// member reads an optional member access.
func (p *refParser) member(sels *[]*N) {
	p.try(func() bool {
		if !p.eatLit(".") {
			return false
		}
		b, s := p.postfixParts()
		if b == nil {
			return false
		}
		*sels = append(*sels, memberSels(b, s)...)
		return true
	})
}

// memberSels turns what follows a dot into selectors.
func memberSels(base *N, sels []*N) []*N {
	var out []*N
	switch {
	case base.K == "id":
		out = append(out, mk("dot", base.V).at(base.Off, base.Line, base.Col))
	default:
		out = append(out, mk("dotval", "", base))
	}
	return append(out, sels...)
}

func (p *refParser) primary() (*N, []*N) {
	t := p.peek()
	if p.lit("(") {
		p.pos++
		e := p.expr()
		if e == nil || !p.eatLit(")") {
			return nil, nil
		}
		return e, nil
	}
	if t.K != "id" || t.V == "null" || t.V == "true" || t.V == "false" {
		return p.value(), nil
	}
	names := strings.Split(p.dotted(), ".")
	base := p.here(mk("id", names[0]), t)
	var sels []*N
	for _, nm := range names[1:] {
		sels = append(sels, mk("dot", nm))
	}
	for p.try(func() bool {
		if !p.eatLit("(") {
			return false
		}
		var args []*N
		p.try(func() bool {
			e := p.expr()
			if e == nil {
				return false
			}
			args = append(args, e)
			for p.try(func() bool {
				if !p.eatLit(",") {
					return false
				}
				e := p.expr()
				if e == nil {
					return false
				}
				args = append(args, e)
				return true
			}) {
			}
			return !p.hard
		})
		if p.hard || !p.eatLit(")") {
			return false
		}
		sels = append(sels, mk("call", "", args...))
		return true
	}) {
	}
	p.member(&sels)
	if p.hard {
		return nil, nil
	}
	return base, sels
}

func (p *refParser) value() *N {
	t := p.peek()
	switch {
	case t.K == "id":
		p.pos++
		if t.V == "null" {
			return p.here(mk("null", ""), t)
		}
		return p.here(mk("bool", t.V), t)
	case t.K == "num":
		p.pos++
		return p.here(mk("num", respell(t.V)), t)
	case t.K == "str":
		p.pos++
		fr := p.fragments()
		if p.hard || !p.eat("str-end") {
			return nil
		}
		return p.here(mk("str", "", fr...), t)
	case t.K == "heredoc":
		p.pos++
		fr := p.fragments()
		if p.hard || !p.eat("heredoc-end") {
			return nil
		}
		return p.here(mk("heredoc", strings.TrimSpace(t.V[2:]), fr...), t)
	case t.K == "[":
		p.pos++
		p.lfs()
		items := p.entries(func() *N { return p.expr() })
		if p.hard || !p.eat("]") {
			return nil
		}
		return p.here(mk("list", "", items...), t)
	case t.K == "{":
		p.pos++
		p.lfs()
		items := p.entries(func() *N {
			t := p.peek()
			var k *N
			switch t.K {
			case "id":
				k = p.here(mk("key", p.dotted()), t)
			case "str":
				p.pos++
				fr := p.fragments()
				if p.hard || !p.eat("str-end") {
					return nil
				}
				k = p.here(mk("skey", "", fr...), t)
			default:
				return nil
			}
			if !p.eatLit("=") && !p.eatLit(":") {
				return nil
			}
			e := p.expr()
			if e == nil {
				return nil
			}
			return p.here(mk("entry", "", k, e), t)
		})
		if p.hard || !p.eat("}") {
			return nil
		}
		return p.here(mk("map", "", items...), t)
	}
	return nil
}

// entries reads the items of a list or map.
func (p *refParser) entries(item func() *N) (out []*N) {
	for {
		start := p.pos
		var got []*N
		if !p.try(func() bool {
			if p.eat("LF") {
				p.lfs()
				return true
			}
			var n *N
			if p.try(func() bool { n = item(); return n != nil }) {
				p.eatLit(",")
				p.eat("LF")
				got = []*N{n}
				return true
			}
			if p.hard {
				return false
			}
			c, ok := p.comment()
			got = c
			return ok
		}) || start == p.pos {
			return out
		}
		out = append(out, got...)
	}
}

func (p *refParser) fragments() []*N {
	var out []*N
	for {
		var n *N
		if !p.try(func() bool {
			t := p.peek()
			switch t.K {
			case "esc":
				p.pos++
				n = p.here(mk("esc", t.V), t)
			case "uni":
				p.pos++
				h := p.peek()
				if !p.eat("hex") {
					return false
				}
				n = p.here(mk("uni", h.V), t)
			case "${", "%{":
				p.pos++
				e := p.expr()
				if e == nil || !p.eat("expr-end") {
					return false
				}
				k := "interp"
				if t.K == "%{" {
					k = "directive"
				}
				n = p.here(mk(k, "", e), t)
			case "txt", "char":
				p.pos++
				n = p.here(mk("txt", t.V), t)
			default:
				return false
			}
			return true
		}) {
			return mergeText(out)
		}
		out = append(out, n)
	}
}

func (p *refParser) ifExpr() *N {
	t := p.peek()
	if !p.eat("if-kw") {
		return nil
	}
	c := p.level(0)
	if c == nil {
		return nil
	}
	p.lfs()
	if !p.eatLit("{") {
		return nil
	}
	p.lfs()
	var l, r *N
	p.try(func() bool { l = p.expr(); return l != nil })
	if p.hard {
		return nil
	}
	p.lfs()
	if !p.eatLit("}") {
		return nil
	}
	p.lfs()
	p.try(func() bool {
		if !p.eat("else-kw") || !p.eatLit("{") {
			return false
		}
		p.lfs()
		e := p.expr()
		if e == nil {
			return false
		}
		p.lfs()
		if !p.eatLit("}") {
			return false
		}
		r = e
		return true
	})
	if p.hard {
		return nil
	}
	return p.here(mk("if", "", c, orNone(l), orNone(r)), t)
}

func (p *refParser) switchExpr() *N {
	t := p.peek()
	if !p.eat("switch-kw") {
		return nil
	}
	s := p.level(0)
	if s == nil {
		return nil
	}
	p.lfs()
	if !p.eatLit("{") {
		return nil
	}
	p.lfs()
	cases := []*N{}
	for p.try(func() bool {
		t := p.peek()
		var conds []*N
		kind := "case"
		if p.eat("case-kw") {
			c := p.level(0)
			if c == nil {
				return false
			}
			conds = append(conds, c)
			for p.try(func() bool {
				if !p.eatLit(",") {
					return false
				}
				c := p.level(0)
				if c == nil {
					return false
				}
				conds = append(conds, c)
				return true
			}) {
			}
			if p.hard {
				return false
			}
		} else if p.eatLit("default") {
			kind = "default"
		} else {
			return false
		}
		if !p.eatLit(":") {
			return false
		}
		p.lfs()
		if !p.eatLit("{") {
			return false
		}
		p.lfs()
		e := p.expr()
		if e == nil {
			return false
		}
		p.lfs()
		if !p.eatLit("}") {
			return false
		}
		p.lfs()
		cases = append(cases, p.here(mk(kind, "", append(conds, e)...), t))
		return true
	}) {
	}
	if p.hard || !p.eatLit("}") {
		return nil
	}
	return p.here(mk("switch", "", append([]*N{s}, cases...)...), t)
}

// /////////////////////////////////////
// Numbers

var (
	reOctal   = regexp.MustCompile(`^0[0-9_]+$`)
	reInt     = regexp.MustCompile(`^(0[xX](_?[0-9a-fA-F])+|0[bB](_?[01])+|0[oO](_?[0-7])+)$`)
	reDecimal = regexp.MustCompile(`^([0-9](_?[0-9])*)?(\.[0-9](_?[0-9])*)?([eE][-+]?[0-9](_?[0-9])*)?$`)
)

// respell gives the spelling under which a number is kept.
func respell(s string) string {
	if reOctal.MatchString(s) {
		return "0o" + s[1:]
	}
	return s
}

func validNumber(s string) bool {
	s = respell(s)
	if reInt.MatchString(s) {
		return true
	}
	if len(s) > 1 && s[0] == '0' && strings.ContainsAny(s[1:2], "xXbBoO") {
		return false
	}
	return reDecimal.MatchString(s) && s != "" && (isDigit(s[0]) || (s[0] == '.' && len(s) > 1 && isDigit(s[1])))
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
