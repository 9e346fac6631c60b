package main

import (
	"fmt"
	"strings"
)

// N is a node of the canonical document tree: the common language of the
// generator, the reference reader and the projection of the tree under test.
//
// K is the kind, V its text. Off is the byte offset of the first token of the
// node in the source (-1: not specified).
//
// Raw is how the generator wants the node written (number spelling, quote).
type N struct {
	K, V, Raw      string
	C              []*N
	Off, Line, Col int
}

func mk(k, v string, c ...*N) *N { return &N{K: k, V: v, C: c, Off: -1} }

func (n *N) at(off, line, col int) *N { n.Off, n.Line, n.Col = off, line, col; return n }

var none = mk("none", "")

func orNone(n *N) *N {
	if n == nil {
		return none
	}
	return n
}

func (n *N) write(sb *strings.Builder) {
	sb.WriteByte('(')
	sb.WriteString(n.K)
	if n.V != "" {
		fmt.Fprintf(sb, " %q", n.V)
	}
	for _, c := range n.C {
		sb.WriteByte(' ')
		c.write(sb)
	}
	sb.WriteByte(')')
}

func (n *N) String() string {
	if n == nil {
		return "<nil>"
	}
	var sb strings.Builder
	n.write(&sb)
	return sb.String()
}

// diff returns "" when the trees are equal, and a description of the first
// difference otherwise.
func diff(want, got *N, withPos bool) string { return diffAt("", want, got, withPos) }

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func diffAt(path string, a, b *N, withPos bool) string {
	path += "/" + a.K
	if a.K != b.K || a.V != b.V {
		return fmt.Sprintf("at %s: want %s, got %s", path, clip(a.String()), clip(b.String()))
	}
	if withPos && a.Off >= 0 && b.Off >= 0 && (a.Off != b.Off || a.Line != b.Line || a.Col != b.Col) {
		return fmt.Sprintf("at %s %q: want position offset=%d %d:%d, got offset=%d %d:%d", path, a.V, a.Off, a.Line, a.Col, b.Off, b.Line, b.Col)
	}
	for i := range a.C {
		if i >= len(b.C) {
			return fmt.Sprintf("at %s %q: missing child %d: %s", path, a.V, i, clip(a.C[i].String()))
		}
		if d := diffAt(fmt.Sprintf("%s[%d]", path, i), a.C[i], b.C[i], withPos); d != "" {
			return d
		}
	}
	if len(b.C) > len(a.C) {
		return fmt.Sprintf("at %s %q: unexpected child %d: %s", path, a.V, len(a.C), clip(b.C[len(a.C)].String()))
	}
	return ""
}

// withoutComments returns the tree without its comment nodes.
func withoutComments(n *N) *N {
	out := &N{K: n.K, V: n.V, Raw: n.Raw, Off: n.Off, Line: n.Line, Col: n.Col}
	for _, c := range n.C {
		if c.K == "cmt" || c.K == "mcmt" {
			continue
		}
		out.C = append(out.C, withoutComments(c))
	}
	return out
}

func (n *N) walk(f func(*N)) {
	f(n)
	for _, c := range n.C {
		c.walk(f)
	}
}

func (n *N) has(f func(*N) bool) bool {
	if f(n) {
		return true
	}
	for _, c := range n.C {
		if c.has(f) {
			return true
		}
	}
	return false
}

// mergeText merges adjacent text fragments.
func mergeText(in []*N) []*N {
	var out []*N
	for _, f := range in {
		if f.K == "txt" && len(out) > 0 && out[len(out)-1].K == "txt" {
			last := out[len(out)-1]
			m := *last
			m.V += f.V
			out[len(out)-1] = &m
			continue
		}
		out = append(out, f)
	}
	return out
}

// mkPath builds a member access, call or index chain on a base, merging the
// chain of the base into it.
func mkPath(base *N, sels []*N) *N {
	if len(sels) == 0 {
		return base
	}
	if base.K == "path" {
		c := append([]*N{}, base.C...)
		return mk("path", "", append(c, sels...)...)
	}
	return mk("path", "", append([]*N{base}, sels...)...)
}

// copyTree returns a copy of the tree without positions.
func copyTree(n *N) *N {
	out := &N{K: n.K, V: n.V, Raw: n.Raw, Off: -1}
	for _, c := range n.C {
		out.C = append(out.C, copyTree(c))
	}
	return out
}

func (n *N) size() int {
	s := 1
	for _, c := range n.C {
		s += c.size()
	}
	return s
}
