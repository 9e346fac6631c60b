package main

import (
	"strings"
	"unicode/utf8"
)

// rend writes a canonical document as source text in a random legal layout,
// recording in the nodes where their first token is.
type rend struct {
	sb      strings.Builder
	rs      *rng // structural choices: line breaks, parentheses, separators
	rw      *rng // spaces and tabs
	line    int
	col     int
	prev    string // previous token; "" after white space or a line break
	pending []*N
	// layout
	eol    int // percentage of \r\n line breaks
	spaces int // percentage of optional white space
	parens int // percentage of redundant parentheses
	blanks int // percentage of blank lines and optional line breaks
	dense  int // percentage of items sharing a line
	far    int // how many more gaps may be very large

	afterCmt bool // the text written last is a single-line comment
}

func newRend(rs, rw *rng) *rend {
	return &rend{rs: rs, rw: rw, line: 1, col: 1, far: pick(rw, 0, 0, 0, 0, 0, 0, 2),
		eol: pick(rs, 0, 0, 0, 30, 100), parens: pick(rs, 0, 5, 20), blanks: pick(rs, 0, 15, 50), dense: pick(rs, 0, 15, 60),
		spaces: pick(rw, 0, 40, 80, 100)}
}

// render writes doc and returns its text. Positions are recorded in doc.
func render(doc *N, rs, rw *rng) string {
	w := newRend(rs, rw)
	return w.document(doc)
}

func (w *rend) raw(s string) {
	if s == "" {
		return
	}
	for _, n := range w.pending {
		n.at(w.sb.Len(), w.line, w.col)
	}
	w.pending = w.pending[:0]
	w.put(s)
	w.prev = s
}

func (w *rend) put(s string) {
	if s == "" {
		return
	}
	w.sb.WriteString(s)
	if c := strings.Count(s, "\n"); c > 0 {
		w.line += c
		w.col = 1 + utf8.RuneCountInString(s[strings.LastIndexByte(s, '\n')+1:])
	} else {
		w.col += utf8.RuneCountInString(s)
	}
}

func (w *rend) mark(n *N) { w.pending = append(w.pending, n) }

func (w *rend) ws(atLeast int) {
	n := atLeast
	if w.rw.p(w.spaces) {
		n += w.rw.n(3)
		if n == 0 {
			n = 1
		}
	}
	if n > 0 && w.far > 0 && w.rw.p(5) {
		w.far--
		n += 10 + w.rw.n(pick(w.rw, 20, 300))
	}
	for ; n > 0; n-- {
		w.put(pick(w.rw, " ", " ", " ", "\t"))
	}
}

// glue tells whether two tokens would not stay apart without white space.
func glue(prev, next string) bool {
	if prev == "" || next == "" {
		return false
	}
	a, b := prev[len(prev)-1], next[0]
	switch {
	case prev == "<<":
		return true
	case isWord(a) && isWord(b):
		return true
	case isWord(a) && b == '-':
		return !isDigit(prev[0]) // an identifier or delimiter could go on
	case a == '.' && (isWord(b) || b == '.'):
		return !isAlpha(b)
	case isWord(a) && b == '.' && len(next) > 1:
		return true // .5
	case a == '<' && b == '<':
		return true
	case a == '-' && b == '>':
		return true
	}
	return false
}

// tok writes a token, after optional or needed white space.
func (w *rend) tok(s string) {
	need := 0
	if glue(w.prev, s) {
		need = 1
	}
	w.ws(need)
	w.raw(s)
}

// lf writes at least min line breaks, and maybe more.
func (w *rend) lf(min int) {
	n := min
	for w.rs.p(w.blanks) && n < min+3 {
		n++
	}
	if n > min && w.rs.p(2) {
		n += w.rs.n(pick(w.rs, 5, 60))
	}
	for ; n > 0; n-- {
		if !w.afterCmt {
			w.ws(0)
		}
		w.afterCmt = false
		if w.rs.p(w.eol) {
			w.put("\r\n")
		} else {
			w.put("\n")
		}
		w.prev = ""
	}
}

func (w *rend) document(doc *N) string {
	doc.at(0, 1, 1)
	if w.rs.p(w.blanks / 2) {
		w.lf(1)
	}
	w.container(doc.C, w.item, true, true)
	if w.rs.p(70) {
		w.lf(0)
	}
	return w.sb.String()
}

func (w *rend) comment(n *N) {
	w.mark(n)
	w.ws(0)
	w.raw(n.V)
	w.afterCmt = n.K == "cmt"
}

// container writes items and comments with the line breaks they need.
func (w *rend) container(items []*N, f func(*N), identFirst, root bool) {
	for i, n := range items {
		comment := n.K == "cmt" || n.K == "mcmt"
		if comment {
			w.comment(n)
		} else {
			f(n)
		}
		if i+1 == len(items) {
			if n.K == "cmt" && !(root && w.rs.p(30)) || w.rs.p(80) {
				w.lf(1)
			}
			break
		}
		next := items[i+1]
		nextComment := next.K == "cmt" || next.K == "mcmt"
		must := false
		switch {
		case n.K == "cmt":
			must = true
		case comment || nextComment:
		case n.K == "attr" && n.C[0].K == "none":
			must = true
		case !identFirst && next.K != "fdecl":
			must = true
		}
		if must || !w.rs.p(w.dense) {
			w.lf(1)
		}
	}
}

// entries writes list or map entries.
func (w *rend) entries(items []*N, f func(*N)) {
	w.lf(0)
	for i, n := range items {
		comment := n.K == "cmt" || n.K == "mcmt"
		if comment {
			w.comment(n)
		} else {
			f(n)
		}
		last := i+1 == len(items)
		sep := false
		if !comment && w.rs.p(pick(w.rs, 70, 30)) {
			w.tok(",")
			sep = true
		}
		switch {
		case n.K == "cmt":
			w.lf(1)
		case last, comment, sep:
			w.lf(0)
		case items[i+1].K == "cmt" || items[i+1].K == "mcmt":
			w.lf(0)
		default:
			w.lf(1)
		}
	}
}

func (w *rend) item(n *N) {
	w.mark(n)
	switch n.K {
	case "decl", "fdecl":
		kw, name, _ := strings.Cut(n.V, " ")
		w.tok(kw)
		w.tok(name)
		if n.C[0].K != "none" {
			w.tok(":")
			w.ptype(n.C[0])
		}
		if n.C[1].K != "none" {
			w.tok("=")
			w.expr(n.C[1])
		}
	case "attr":
		w.tok(n.V)
		if n.C[0].K != "none" {
			w.tok(pick(w.rs, "=", "=", "=", ":"))
			w.expr(n.C[0])
		}
	case "func":
		w.tok("def")
		w.tok(n.V)
		w.tok("(")
		for i, p := range n.C[0].C {
			if i > 0 {
				w.tok(",")
			}
			w.mark(p)
			w.tok(p.V)
			if p.C[0].K != "none" {
				w.tok(":")
				w.ptype(p.C[0])
			}
		}
		w.tok(")")
		rets := n.C[1].C
		if len(rets) == 1 && w.rs.p(70) {
			w.ptype(rets[0])
		} else if len(rets) > 0 || w.rs.p(30) {
			w.tok("(")
			for i, t := range rets {
				if i > 0 {
					w.tok(",")
				}
				w.ptype(t)
			}
			w.tok(")")
		}
		w.lf(0)
		w.tok("{")
		w.lf(0)
		w.container(n.C[2].C, func(s *N) {
			if s.K == "fdecl" {
				w.item(s)
			} else {
				w.expr(s)
			}
		}, false, false)
		w.tok("}")
	case "enum", "object":
		w.tok("type")
		w.tok(n.V)
		w.tok(n.K)
		w.tok("{")
		w.lf(0)
		w.container(n.C, func(m *N) {
			w.mark(m)
			w.tok(m.V)
			w.tok(":")
			if n.K == "enum" {
				w.expr(m.C[0])
			} else {
				w.ptype(m.C[0])
			}
		}, true, false)
		w.tok("}")
	case "block":
		w.tok(n.V)
		for _, l := range n.C[0].C {
			if l.Raw == "" {
				w.tok(l.V)
				continue
			}
			w.tok(l.Raw)
			w.raw(l.V)
			w.raw(l.Raw)
		}
		w.tok("{")
		w.lf(0)
		w.container(n.C[1].C, w.item, true, false)
		w.tok("}")
	default:
		panic("harness: item " + n.K)
	}
}

func (w *rend) ptype(t *N) {
	w.mark(t)
	if t.K == "tid" {
		w.dotted(t.V)
		return
	}
	w.tok("(")
	for i, p := range t.C[0].C {
		if i > 0 {
			w.tok(",")
		}
		w.ptype(p)
	}
	w.tok(")")
	w.tok("->")
	w.ptype(t.C[1])
}

func (w *rend) dotted(s string) {
	for i, part := range strings.Split(s, ".") {
		if i > 0 {
			w.tok(".")
		}
		w.tok(part)
	}
}

func ownLevel(n *N) int {
	switch n.K {
	case "cond", "if", "switch":
		return -1
	case "chain":
		for i, l := range levels {
			if l.name == n.V {
				return i
			}
		}
	case "un":
		return len(levels)
	}
	return len(levels) + 1
}

func (w *rend) expr(n *N) {
	if w.rs.p(w.parens / 2) {
		w.group(n)
		return
	}
	switch n.K {
	case "cond":
		w.mark(n)
		w.level(n.C[0], 0)
		w.tok("?")
		w.expr(n.C[1])
		w.tok(":")
		w.expr(n.C[2])
	case "if":
		w.mark(n)
		w.tok("if")
		w.level(n.C[0], 0)
		w.lf(0)
		w.tok("{")
		w.lf(0)
		if n.C[1].K != "none" {
			w.expr(n.C[1])
			w.lf(0)
		}
		w.tok("}")
		if n.C[2].K != "none" {
			w.lf(0)
			w.tok("else")
			w.tok("{")
			w.lf(0)
			w.expr(n.C[2])
			w.lf(0)
			w.tok("}")
		}
	case "switch":
		w.mark(n)
		w.tok("switch")
		w.level(n.C[0], 0)
		w.lf(0)
		w.tok("{")
		w.lf(0)
		for _, c := range n.C[1:] {
			w.mark(c)
			if c.K == "case" {
				w.tok("case")
				for i, x := range c.C[:len(c.C)-1] {
					if i > 0 {
						w.tok(",")
					}
					w.level(x, 0)
				}
			} else {
				w.tok("default")
			}
			w.tok(":")
			w.lf(0)
			w.tok("{")
			w.lf(0)
			w.expr(c.C[len(c.C)-1])
			w.lf(0)
			w.tok("}")
			if !w.rs.p(w.dense) {
				w.lf(1)
			}
		}
		w.tok("}")
	default:
		w.level(n, 0)
	}
}

func (w *rend) group(n *N) {
	w.tok("(")
	w.expr(n)
	w.tok(")")
}

func (w *rend) level(n *N, l int) {
	own := ownLevel(n)
	if own < l || w.rs.p(w.parens/2) {
		w.group(n)
		return
	}
	w.mark(n)
	switch n.K {
	case "chain":
		for i, c := range n.C {
			if i%2 == 1 {
				w.tok(c.V)
			} else {
				w.level(c, own+1)
			}
		}
	case "un":
		w.tok(n.V)
		w.level(n.C[0], own+1)
	case "path":
		w.path(n.C[0], n.C[1:])
	default:
		w.value(n)
	}
}

func (w *rend) path(base *N, sels []*N) {
	// An index on an index needs parentheses around what it applies to.
	cut := 0
	for i := range sels {
		if sels[i].K == "index" && i > 0 && sels[i-1].K == "index" {
			cut = i
		}
	}
	if k := w.rs.n(len(sels)); k > cut && sels[k].K != "call" && w.rs.p(w.parens) {
		cut = k
	}
	if cut > 0 {
		w.tok("(")
		w.path(base, sels[:cut])
		w.tok(")")
	} else {
		w.primary(base)
	}
	for _, s := range sels[cut:] {
		switch s.K {
		case "dot":
			w.tok(".")
			w.tok(s.V)
		case "dotval":
			w.tok(".")
			w.primary(s.C[0])
		case "index":
			w.tok("[")
			w.expr(s.C[0])
			w.tok("]")
		case "call":
			w.tok("(")
			for i, a := range s.C {
				if i > 0 {
					w.tok(",")
				}
				w.expr(a)
			}
			w.tok(")")
		}
	}
}

func (w *rend) primary(n *N) {
	if ownLevel(n) <= len(levels) || n.K == "path" {
		w.group(n)
		return
	}
	w.mark(n)
	w.value(n)
}

func (w *rend) value(n *N) {
	switch n.K {
	case "id", "bool":
		w.tok(n.V)
	case "null":
		w.tok("null")
	case "num":
		s := n.Raw
		if s == "" {
			s = n.V
		}
		w.tok(s)
	case "str":
		w.str(n)
	case "heredoc":
		word := strings.TrimPrefix(n.V, "-")
		w.tok("<<" + n.V + "\n")
		w.fragments(n)
		w.raw(word)
	case "list":
		w.tok("[")
		w.entries(n.C, w.expr)
		w.tok("]")
	case "map":
		w.tok("{")
		w.entries(n.C, func(e *N) {
			w.mark(e)
			w.mark(e.C[0])
			if k := e.C[0]; k.K == "key" {
				w.dotted(k.V)
			} else {
				w.str(k)
			}
			w.tok(pick(w.rs, "=", "=", ":"))
			w.expr(e.C[1])
		})
		w.tok("}")
	default:
		panic("harness: value " + n.K)
	}
}

func (w *rend) str(n *N) {
	q := n.Raw
	if q == "" {
		q = `"`
	}
	w.tok(q)
	w.fragments(n)
	w.raw(q)
}

func (w *rend) fragments(n *N) {
	for _, f := range n.C {
		w.mark(f)
		switch f.K {
		case "txt", "esc":
			w.raw(f.V)
		case "uni":
			w.raw(`\u`)
			w.raw(f.V)
		case "interp", "directive":
			if f.K == "interp" {
				w.raw("${")
			} else {
				w.raw("%{")
			}
			w.expr(f.C[0])
			w.tok("}")
		}
	}
}
