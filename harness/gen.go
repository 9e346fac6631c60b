package main

import (
	"fmt"
	"strings"
)

// gen builds canonical documents (the meaning first, the text later).
type gen struct {
	r        *rng
	budget   int  // expression nodes left for the current item
	depth    int  // nesting left
	comments bool // put comments in containers
	plainHd  bool // heredoc bodies never begin with an empty line
	strs     int  // weight of strings and heredocs
	nums     int  // weight of numbers
	ops      int  // weight of operators
	wide     bool // long chains and lists
	big      int  // how many more parts may be of unusual size
	giant    bool // one more text may be huge
}

func newGen(r *rng) *gen {
	g := &gen{r: r, comments: r.p(60), strs: 2, nums: 2, ops: 5}
	switch r.n(5) {
	case 0:
		g.strs = 8
	case 1:
		g.ops = 10
	case 2:
		g.wide = true
	}
	if r.p(15) {
		g.big = 1 + r.n(4)
	}
	g.giant = r.n(120) == 0
	return g
}

// huge is, once in a while, a very long text.
func (g *gen) huge(units ...string) string {
	if !g.giant || !g.r.p(30) {
		return ""
	}
	g.giant = false
	size := 2000 << g.r.n(8)
	size += g.r.n(size)
	unit := pick(g.r, units...)
	return strings.Repeat(unit, size/len(unit))
}

// unusual tells whether the next part is to be of an unusual size.
func (g *gen) unusual() bool {
	if g.big == 0 || !g.r.p(10) {
		return false
	}
	g.big--
	return true
}

// count is a number of parts, usually less than k.
func (g *gen) count(k int) int {
	if g.unusual() {
		return k + g.size()
	}
	if g.r.p(3) {
		return k + g.r.n(5)
	}
	return g.r.n(k)
}

func (g *gen) size() int {
	switch g.r.weighted(6, 3, 1) {
	case 0:
		return g.r.n(12)
	case 1:
		return 10 + g.r.n(30)
	}
	return 40 + g.r.n(100)
}

var (
	namePool = []string{"a", "b", "c", "x", "y", "foo", "bar", "baz", "Foo", "FOO_BAR", "x1", "a_b", "foo-bar", "a-1", "n-2-m", "t_", "a__b",
		"iffy", "elsewhere", "cased", "switcher", "nullable", "trueish", "falsey", "defx", "valx", "typed", "inputs", "outputs", "constant", "enumx", "objects", "defaults",
		"If", "ELSE", "u", "e5", "E", "EOF", "o7", "x0F", "b01", "int", "string", "averyveryverylongidentifier_with_many_parts", "z9-z9_z9"}
	softPool = []string{"val", "const", "def", "type", "input", "output", "enum", "object"}
)

func (g *gen) name() string {
	if s := g.huge("a", "bC_", "x-1", "Z9"); s != "" {
		return s
	}
	if g.unusual() {
		s := pick(g.r, "n", "Long", "x_")
		for k := g.size() * 3; k > 0; k-- {
			s += pick(g.r, "a", "b1", "_", "Z", "-0", "9", "-q", "xyz")
		}
		return s
	}
	if g.r.p(70) {
		return pick(g.r, namePool...)
	}
	const first = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	const rest = first + "0123456789_"
	var sb strings.Builder
	sb.WriteByte(first[g.r.n(len(first))])
	for i := g.r.n(8); i > 0; i-- {
		if g.r.p(8) {
			sb.WriteByte('-')
		}
		sb.WriteByte(rest[g.r.n(len(rest))])
	}
	s := sb.String()
	if reservedName(s) {
		return "n" + s
	}
	return s
}

func reservedName(s string) bool {
	h, _, _ := strings.Cut(s, "-")
	switch h {
	case "if", "else", "switch", "case", "null", "true", "false", "default", "val", "const", "def", "type", "input", "output", "enum", "object":
		return true
	}
	return false
}

func (g *gen) soft() string {
	if g.r.p(6) {
		return pick(g.r, softPool...)
	}
	return g.name()
}

func (g *gen) doc(items int) *N {
	d := mk("doc", "")
	for i := 0; i < items; i++ {
		d.C = append(d.C, g.rootItem())
	}
	if g.comments {
		g.sprinkle(d)
	}
	return d
}

func (g *gen) rootItem() *N {
	g.budget = 6 + g.r.n(30)
	g.depth = 2 + g.r.n(5)
	if g.unusual() {
		g.budget, g.depth = 40, 8+g.r.n(10)
	}
	switch g.r.weighted(5, 4, 3, 4, 4) {
	case 0:
		return g.decl()
	case 1:
		return g.fn()
	case 2:
		return g.typ()
	case 3:
		return g.block(3)
	}
	return g.attr()
}

// sprinkle adds comments to a container.
func (g *gen) sprinkle(n *N) {
	if !g.comments {
		return
	}
	var out []*N
	for _, c := range n.C {
		for g.r.p(12) {
			out = append(out, g.comment())
		}
		if g.unusual() {
			for k := g.size(); k > 0; k-- {
				out = append(out, g.comment())
			}
		}
		out = append(out, c)
	}
	for g.r.p(15) {
		out = append(out, g.comment())
	}
	n.C = out
}

func (g *gen) comment() *N {
	if g.r.p(60) {
		body := pick(g.r, "", " a", "c", " note: x = 1", "// twice", " \"quoted", " ${x} %{y}", " /* open", " <<EOF", " tab\tin", " é中😀", " }", " */", "#", " trailing  ", " \\u12", " 'x'", "!", " a\rb = 1", "\r}", "\r\r# x")
		lead := pick(g.r, "//", "#")
		if g.r.p(15) {
			body = strings.NewReplacer("\n", " ", "\r", " ").Replace(g.free())
		}
		if s := g.huge(" long", "x", "é", "\t#"); s != "" {
			body = s
		}
		return mk("cmt", lead+body)
	}
	body := pick(g.r, "", " a ", "*", " multi\n line ", "\n * x\n * y\n ", " // in ", " \" ", " ${a} ", "\n\n", " é中 ", "\n\tindented\n", " <<EOF\n", "/", " # ")
	if g.r.p(15) {
		body = strings.ReplaceAll(g.free(), "*/", "* /")
	}
	if s := g.huge(" long", "x\n", "é", "\n\n", "中 \r\n"); s != "" {
		body = s
	}
	return mk("mcmt", "/*"+body+"*/")
}

func (g *gen) decl() *N {
	n := mk("decl", pick(g.r, "input", "output", "const", "val")+" "+g.name(), none, none)
	if g.r.p(50) {
		n.C[0] = g.ptype(2)
	}
	if g.r.p(75) {
		n.C[1] = g.expr()
	}
	return n
}

func (g *gen) ptype(depth int) *N {
	if g.unusual() {
		depth = 4 + g.r.n(5)
	}
	if depth > 0 && g.r.p(25) || depth > 3 {
		ps := mk("params", "")
		for i := g.count(4); i > 0; i-- {
			ps.C = append(ps.C, g.ptype(depth-1))
		}
		return mk("tfn", "", ps, g.ptype(depth-1))
	}
	parts := []string{g.name()}
	for k := g.count(4); k > 0 && g.r.p(pick(g.r, 25, 90)); k-- {
		parts = append(parts, g.soft())
	}
	return mk("tid", strings.Join(parts, "."))
}

// typeTokens is the number of tokens of a type.
func typeTokens(t *N) int {
	k := 4 + 2*strings.Count(t.V, ".")
	t.walk(func(x *N) {
		if x != t && x.K != "params" {
			k += 4 + 2*strings.Count(x.V, ".")
		}
	})
	return k
}

func (g *gen) fn() *N {
	ps, rs, body := mk("params", ""), mk("rets", ""), mk("body", "")
	for i := g.count(4); i > 0; i-- {
		p := mk("param", g.soft(), none)
		if g.r.p(60) {
			p.C[0] = g.ptype(2)
		}
		ps.C = append(ps.C, p)
	}
	switch g.r.n(4) {
	case 0, 1:
		// The parser tells a function type from a list of types within its
		// lookahead only.
		big := g.big
		g.big = 0
		ret := g.ptype(2)
		for typeTokens(ret) > 40 {
			ret = g.ptype(1)
		}
		if g.r.p(5) {
			// Told from a list of types after up to 45 tokens.
			ps := mk("params", "")
			for left := 10 + g.r.n(34); left >= 2; left -= 2 {
				name := g.soft()
				if left >= 6 && g.r.p(30) {
					name += "." + g.name()
					left -= 2
				}
				ps.C = append(ps.C, mk("tid", name))
			}
			ret = mk("tfn", "", ps, mk("tid", g.name()))
		}
		g.big = big
		rs.C = append(rs.C, ret)
	case 2:
		for i := g.count(4); i > 0; i-- {
			rs.C = append(rs.C, g.ptype(1))
		}
		if len(rs.C) == 1 && typeTokens(rs.C[0]) > 40 {
			rs.C = nil
		}
	}
	for i := g.count(5); i > 0; i-- {
		if g.r.p(50) {
			d := mk("fdecl", pick(g.r, "const", "val")+" "+g.name(), none, none)
			if g.r.p(50) {
				d.C[0] = g.ptype(2)
			}
			if g.r.p(80) {
				d.C[1] = g.expr()
			}
			body.C = append(body.C, d)
		} else {
			body.C = append(body.C, g.expr())
		}
	}
	g.sprinkle(body)
	return mk("func", g.name(), ps, rs, body)
}

func (g *gen) typ() *N {
	kind := pick(g.r, "enum", "object")
	n := mk(kind, g.name())
	for i := g.count(5); i > 0; i-- {
		var v *N
		if kind == "enum" {
			v = g.expr()
		} else {
			v = g.ptype(2)
		}
		n.C = append(n.C, mk("member", g.soft(), v))
	}
	g.sprinkle(n)
	return n
}

func (g *gen) block(depth int) *N {
	ls, body := mk("labels", ""), mk("body", "")
	labels := g.r.weighted(4, 4, 2, 1)
	if g.unusual() {
		labels += g.size()
	}
	for i := labels; i > 0; i-- {
		switch g.r.n(3) {
		case 0:
			ls.C = append(ls.C, mk("label", g.soft()))
		case 1:
			l := mk("label", g.name())
			l.Raw = pick(g.r, `"`, `'`)
			ls.C = append(ls.C, l)
		default:
			l := mk("label", pick(g.r, " ", "with space", "é", "a.b", "1", "{}", "// x", "#", "😀 x", "if", "true", "a-", "x\ty", "two\nlines", "(", "/*"))
			l.Raw = pick(g.r, `"`, `'`)
			if g.r.p(10) {
				l.V = labelText(g.free())
			}
			ls.C = append(ls.C, l)
		}
	}
	if depth == 3 && g.unusual() {
		depth += 3 + g.r.n(12)
	}
	for i := g.count(5); i > 0; i-- {
		if depth > 0 && g.r.p(35) || depth > 3 && i == 1 {
			body.C = append(body.C, g.block(depth-1))
		} else {
			body.C = append(body.C, g.attr())
		}
	}
	g.sprinkle(body)
	return mk("block", g.name(), ls, body)
}

func (g *gen) attr() *N {
	n := mk("attr", g.soft(), none)
	if g.r.p(85) {
		n.C[0] = g.expr()
	}
	return n
}

// /////////////////////////////////////
// Expressions

func (g *gen) spend() bool {
	g.budget--
	return g.budget > 0 && g.depth > 0
}

func (g *gen) nested(f func() *N) *N {
	g.depth--
	defer func() { g.depth++ }()
	return f()
}

func (g *gen) expr() *N {
	if !g.spend() {
		return g.leaf()
	}
	return g.nested(func() *N {
		switch g.r.weighted(8, g.ops, 2, 2, 2, 6) {
		case 0:
			return g.leaf()
		case 1:
			return g.chain()
		case 2:
			return mk("cond", "", g.level0(), g.expr(), g.expr())
		case 3:
			n := mk("if", "", g.level0(), none, none)
			if g.r.p(85) {
				n.C[1] = g.expr()
			}
			if g.r.p(50) {
				n.C[2] = g.expr()
			}
			return n
		case 4:
			n := mk("switch", "", g.level0())
			for i := g.count(4); i > 0; i-- {
				if g.r.p(25) {
					n.C = append(n.C, mk("default", "", g.expr()))
					continue
				}
				c := mk("case", "")
				for j := 1 + g.count(3); j > 0; j-- {
					c.C = append(c.C, g.level0())
				}
				n.C = append(n.C, mk("case", "", append(c.C, g.expr())...))
			}
			return n
		}
		return g.primary()
	})
}

// level0 is an expression where only operators are expected: anything else is
// written in parentheses.
func (g *gen) level0() *N {
	if g.r.p(8) {
		return g.expr()
	}
	if !g.spend() {
		return g.leaf()
	}
	return g.nested(func() *N {
		if g.r.p(50) {
			return g.chain()
		}
		return g.primary()
	})
}

func (g *gen) chain() *N {
	l := g.r.n(len(levels) + 1)
	if l == len(levels) {
		return mk("un", pick(g.r, "!", "~", "-", "+"), g.operand(l))
	}
	n := mk("chain", levels[l].name, g.operand(l))
	k := 1 + g.count(3)
	if g.wide && g.r.p(30) {
		k = 5 + g.r.n(20)
	}
	for ; k > 0; k-- {
		n.C = append(n.C, mk("op", pick(g.r, levels[l].ops...)), g.operand(l))
	}
	return n
}

// operand prefers a chain of a level next to l.
func (g *gen) operand(l int) *N {
	if !g.spend() {
		return g.leaf()
	}
	return g.nested(func() *N {
		switch g.r.weighted(6, 4, 2, 3) {
		case 0:
			return g.leaf()
		case 1:
			return g.chain()
		case 2:
			return g.expr()
		}
		return g.primary()
	})
}

func (g *gen) leaf() *N {
	switch g.r.weighted(6, 1, 2, g.nums, g.strs) {
	case 0:
		return mk("id", g.name())
	case 1:
		return mk("null", "")
	case 2:
		return mk("bool", pick(g.r, "true", "false"))
	case 3:
		return g.number()
	}
	return g.str(true)
}

func (g *gen) primary() *N {
	switch g.r.weighted(5, 3, 3, g.strs, 1) {
	case 0:
		return g.path()
	case 1:
		n := mk("list", "")
		k := g.count(4)
		if g.wide && g.r.p(20) {
			k = 5 + g.r.n(30)
		}
		for ; k > 0; k-- {
			n.C = append(n.C, g.expr())
		}
		g.sprinkle(n)
		return n
	case 2:
		n := mk("map", "")
		for k := g.count(4); k > 0; k-- {
			var key *N
			if g.r.p(60) {
				parts := []string{g.soft()}
				for k := g.count(4); k > 0 && g.r.p(pick(g.r, 20, 90)); k-- {
					parts = append(parts, g.soft())
				}
				key = mk("key", strings.Join(parts, "."))
			} else {
				s := g.str(false)
				key = mk("skey", "", s.C...)
				key.Raw = s.Raw
			}
			n.C = append(n.C, mk("entry", "", key, g.expr()))
		}
		g.sprinkle(n)
		return n
	case 3:
		return g.str(true)
	}
	return g.leaf()
}

func (g *gen) path() *N {
	var base *N
	ident := false
	switch g.r.weighted(7, 2, 1) {
	case 0:
		base, ident = mk("id", g.name()), true
	case 1:
		base = g.expr()
	default:
		base = g.leaf()
		ident = base.K == "id"
	}
	if base.K == "path" {
		return base
	}
	var sels []*N
	for k := 1 + g.count(4); k > 0; k-- {
		switch g.r.weighted(5, 4, 3, 2) {
		case 0:
			sels, ident = append(sels, mk("dot", g.soft())), true
		case 1:
			if !ident {
				continue
			}
			c := mk("call", "")
			for i := g.count(4); i > 0; i-- {
				c.C = append(c.C, g.expr())
			}
			sels = append(sels, c)
		case 2:
			sels, ident = append(sels, mk("index", "", g.expr())), false
		default:
			v := g.leaf()
			if g.r.p(30) {
				v = g.expr()
			} else if g.r.p(25) {
				v = g.path()
			}
			if v.K == "id" || v.K == "bool" || v.K == "null" {
				continue
			}
			sels, ident = append(sels, mk("dotval", "", v)), false
		}
	}
	return mkPath(base, sels)
}

func (g *gen) number() *N {
	s := ""
	digits := func(set string, n int) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 && g.r.p(10) {
				sb.WriteByte('_')
			}
			sb.WriteByte(set[g.r.n(len(set))])
		}
		return sb.String()
	}
	length := func() int {
		if g.unusual() {
			return 60 + g.size()*8
		}
		switch g.r.n(6) {
		case 0:
			return 20 + g.r.n(60)
		case 1:
			return 10 + g.r.n(12)
		}
		return 1 + g.r.n(4)
	}
	switch g.r.n(9) {
	case 0:
		s = pick(g.r, "0x", "0X") + digits("0123456789abcdefABCDEF", length())
	case 1:
		s = pick(g.r, "0b", "0B") + digits("01", length())
	case 2:
		s = pick(g.r, "0o", "0O") + digits("01234567", length())
	case 3:
		s = "0" + digits("01234567", length())
	case 4:
		s = pick(g.r, digits("123456789", 1)+digits("0123456789", length()), "0", "00", "0"+digits("0123456789", 1+g.r.n(3))) + "." + digits("0123456789", length())
	case 5:
		s = "." + digits("0123456789", length())
	case 6:
		s = pick(g.r, "", "0", "00") + digits("123456789", 1) + digits("0123456789", g.r.n(5)) + pick(g.r, "", "."+digits("0123456789", length())) + pick(g.r, "e", "E") + pick(g.r, "", "+", "-") + pick(g.r, "", "", "", "0", "00") + fmt.Sprint(g.r.n(pick(g.r, 5, 40, 300, 300, 1200)))
	case 7:
		s = pick(g.r, "0", "1", "7", "255", "65536", "9007199254740993", "18446744073709551616", "0.1", "1e0", "0x_1f", "1_000", "00", "0.0", "9223372036854775807", "1e22", "3.141592653589793238462643383279")
	default:
		s = digits("123456789", 1) + digits("0123456789", length())
	}
	n := mk("num", respell(s))
	n.Raw = s
	return n
}

// /////////////////////////////////////
// Strings

// str makes a string or, if allowed, a heredoc.
func (g *gen) str(hd bool) *N {
	if hd && g.r.p(30) {
		return g.heredoc()
	}
	n := mk("str", "")
	n.Raw = pick(g.r, `"`, `'`)
	for k := g.count(5); k > 0; k-- {
		switch g.r.weighted(6, 3, 2, 3, 1) {
		case 0:
			n.C = append(n.C, mk("txt", g.text(n.Raw)))
		case 1:
			n.C = append(n.C, mk("esc", `\`+pick(g.r, "n", "t", "r", `\`, `"`, `'`, "$", "%", "{", "0", "x", "U", " ", "é", "中", "😀", "\t", "a", "}", "/")))
		case 2:
			set := "0123456789abcdefABCDEF"
			h := ""
			for i := pick(g.r, 4, 8); i > 0; i-- {
				h += string(set[g.r.n(22)])
			}
			if g.r.p(20) {
				// The spellings people write: a plane and a character of it.
				h = pick(g.r, "0000", "0001", "000", "") + h[:4]
				h = strings.Repeat("0", (8-len(h))%4) + h
			}
			n.C = append(n.C, mk("uni", h))
		case 3:
			n.C = append(n.C, mk("interp", "", g.nested(g.expr)))
		default:
			n.C = append(n.C, mk("directive", "", g.nested(g.expr)))
		}
	}
	n.C = joinFragments(n.C)
	return n
}

// joinFragments merges texts and keeps fragments from running into each other.
func joinFragments(in []*N) []*N {
	out := mergeText(in)
	for i, f := range out {
		if f.K != "txt" {
			continue
		}
		v := fixText(f.V)
		if i > 0 && out[i-1].K == "uni" && len(out[i-1].V) == 4 && len(v) >= 4 && isHex(v[0]) && isHex(v[1]) && isHex(v[2]) && isHex(v[3]) {
			v = "~" + v
		}
		if i+1 < len(out) && (out[i+1].K == "interp" || out[i+1].K == "directive") && (strings.HasSuffix(v, "$") || strings.HasSuffix(v, "%")) {
			v += "."
		}
		m := *f
		m.V = v
		out[i] = &m
	}
	return out
}

// fixText doubles the signs of lone ${ and %{.
func fixText(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		sb.WriteByte(c)
		if (c == '$' || c == '%') && i+1 < len(s) && s[i+1] == '{' && (i == 0 || s[i-1] != c) {
			sb.WriteByte(c)
		}
	}
	return sb.String()
}

var textPool = []string{"a", "hello", " ", "  x  ", "$", "%", "$$", "%%", "$$$", "{", "}", "${", "%{", "$x", "100%", "é", "中文", "😀", "\t", "\n", "\r\n", "\n\n", "//", "#", "/* c */", "<<EOF", "EOF", "u0041", "if", "()", "[]", "=", "\u00a0", "\u2028", "\x01", "0", "ab", "Face1", "$%", "%$", "{}", "}}", "$$%%", "a\nb\n", "..", ";", "`", "~"}

func (g *gen) text(quote string) string {
	if s := g.huge("a", "text ", "é", "ab\n", "😀 ", "{ "); s != "" {
		return s
	}
	var sb strings.Builder
	sb.WriteString(pick(g.r, textPool...))
	for k := g.count(3); k > 0; k-- {
		sb.WriteString(pick(g.r, textPool...))
	}
	if g.r.p(8) {
		sb.WriteString(strings.NewReplacer("\"", "", "'", "", "\\", "").Replace(g.free()))
	}
	if g.r.p(20) {
		if quote == `"` {
			sb.WriteByte('\'')
		} else if quote == `'` {
			sb.WriteByte('"')
		}
	}
	return sb.String()
}

// free is a text of any characters.
func (g *gen) free() string {
	var sb strings.Builder
	k := 1 + g.r.n(8)
	if g.unusual() {
		k += g.size() * 20
	}
	for ; k > 0; k-- {
		switch g.r.weighted(10, 4, 2, 1, 1) {
		case 0:
			sb.WriteByte(byte(' ' + g.r.n(95)))
		case 1:
			sb.WriteString(pick(g.r, textPool...))
		case 2:
			sb.WriteRune(rune(0xa1 + g.r.n(0x2000)))
		case 3:
			sb.WriteRune(rune(0x10000 + g.r.n(0x8000)))
		default:
			sb.WriteByte(byte(g.r.n(256)))
		}
	}
	return sb.String()
}

// labelText is s without what a label cannot hold.
func labelText(s string) string {
	s = strings.NewReplacer("\"", "", "'", "", "\\", "", "$", "", "%", "").Replace(s)
	if s == "" {
		return "l"
	}
	return s
}

func (g *gen) heredoc() *N {
	word := pick(g.r, "EOF", "E", "END_1", "_x", "1", "A1", "eof", "EOT", "if", "x")
	if g.unusual() {
		word = "E" + strings.Repeat(pick(g.r, "O", "_", "1"), g.size())
	}
	n := mk("heredoc", pick(g.r, "", "-")+word)
	var fr []*N
	for rows := g.count(4); rows > 0; rows-- {
		first := len(fr)
		for k := g.count(4); k > 0; k-- {
			switch g.r.weighted(6, 2, 1, 2) {
			case 0:
				t := strings.ReplaceAll(g.text(""), "\n", "|")
				fr = append(fr, mk("txt", t))
			case 1:
				fr = append(fr, mk("interp", "", g.nested(g.expr)))
			case 2:
				fr = append(fr, mk("directive", "", g.nested(g.expr)))
			default:
				fr = append(fr, mk("txt", pick(g.r, word+"x", " "+word, "\t"+word, word+"_", word+"1", `\`, `\n`, `"`, `'`, "x"+word, word[:1])))
			}
		}
		// A row never begins with the delimiter word, not even after
		// interpolations.
		for i := first; i < len(fr); i++ {
			if fr[i].K != "txt" {
				continue
			}
			if v := fr[i].V + "\n"; strings.HasPrefix(v, word) || strings.HasPrefix(word, fr[i].V) {
				whole := fr[i].V
				if !(strings.HasPrefix(v, word) && isWord(v[len(word)]) && i == first) {
					fr[i] = mk("txt", "-"+whole)
				}
			}
			break
		}
		fr = append(fr, mk("txt", "\n"))
	}
	fr = joinFragments(fr)
	if g.plainHd && emptyFirstRow(fr) {
		fr[0] = mk("txt", "x"+fr[0].V)
		if strings.HasPrefix("x", word) {
			fr[0] = mk("txt", "-"+fr[0].V)
		}
	}
	n.C = fr
	return n
}
