package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// The reference lexer: written by hand from the lexical rules of the language,
// sharing nothing with the implementation under test.

type tok struct {
	K, V           string
	Off, Line, Col int
}

func (t tok) end() int { return t.Off + len(t.V) }

type lexErr struct {
	Off, Line, Col int
}

func (e *lexErr) Error() string { return fmt.Sprintf("%d:%d: invalid input", e.Line, e.Col) }

type lexState struct {
	name string
	arg  string
}

func isWord(c byte) bool {
	return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')
}
func isAlpha(c byte) bool { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') }
func isDigU(c byte) bool  { return c == '_' || (c >= '0' && c <= '9') }
func isHex(c byte) bool {
	return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

func spanWhile(s string, i int, f func(byte) bool) int {
	for i < len(s) && f(s[i]) {
		i++
	}
	return i
}

func lexIdent(s string) int {
	if s == "" || !isAlpha(s[0]) {
		return 0
	}
	i := spanWhile(s, 1, isWord)
	for i+1 < len(s) && s[i] == '-' && isWord(s[i+1]) {
		i = spanWhile(s, i+1, isWord)
	}
	return i
}

func lexNumber(s string) int {
	if len(s) >= 2 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			if n := spanWhile(s, 2, func(c byte) bool { return isHex(c) || c == '_' }); n > 2 {
				return n
			}
		case 'b', 'B':
			return spanWhile(s, 2, func(c byte) bool { return c == '0' || c == '1' || c == '_' })
		case 'o', 'O':
			return spanWhile(s, 2, func(c byte) bool { return (c >= '0' && c <= '7') || c == '_' })
		}
	}
	i := spanWhile(s, 0, isDigU)
	if i < len(s) && s[i] == '.' {
		if j := spanWhile(s, i+1, isDigU); j > i+1 {
			i = j
		}
	}
	if i == 0 {
		return 0
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		j := i + 1
		if j < len(s) && (s[j] == '+' || s[j] == '-') {
			j++
		}
		if k := spanWhile(s, j, isDigU); k > j {
			i = k
		}
	}
	return i
}

func lexHeredocStart(s string) (n int, word string) {
	if !strings.HasPrefix(s, "<<") {
		return 0, ""
	}
	i := 2
	if i < len(s) && s[i] == '-' {
		i++
	}
	j := spanWhile(s, i, isWord)
	if j == i || j >= len(s) || s[j] != '\n' {
		return 0, ""
	}
	return j + 1, s[i:j]
}

var coreOps = []string{",", "==", "!=", "&&", "||", "<<", ">>", "!", "~", "&", "|", "^", "*", "/", "%", "+", "-", "<=", ">=", "<", ">", "=", "?", ":", "[", "]"}

func lexCore(s string, mended bool) (kind string, n int) {
	switch {
	case strings.HasPrefix(s, "//"), s[0] == '#':
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			i = len(s)
		}
		return "cmt", i
	case strings.HasPrefix(s, "/*"):
		if i := strings.Index(s[2:], "*/"); i >= 0 {
			return "mcmt", i + 4
		}
	case strings.HasPrefix(s, "=>"), strings.HasPrefix(s, "->"):
		return s[:2], 2
	case s[0] == '(' || s[0] == ')' || s[0] == '{' || s[0] == '}':
		return s[:1], 1
	}
	for _, kw := range []string{"if", "else", "switch", "case"} {
		if strings.HasPrefix(s, kw) && (len(s) == len(kw) || !isWord(s[len(kw)])) && !(mended && lexIdent(s) > len(kw)) {
			return kw + "-kw", len(kw)
		}
	}
	if n := lexIdent(s); n > 0 {
		return "id", n
	}
	if n := lexNumber(s); n > 0 {
		return "num", n
	}
	if n, _ := lexHeredocStart(s); n > 0 {
		return "heredoc", n
	}
	for _, op := range coreOps {
		if strings.HasPrefix(s, op) {
			return op, len(op)
		}
	}
	switch s[0] {
	case '"', '\'':
		return "str", 1
	case '.':
		return ".", 1
	case '\r', '\n':
		return "LF", 1
	case ' ', '\t':
		return "ws", spanWhile(s, 0, func(c byte) bool { return c == ' ' || c == '\t' })
	}
	return "", 0
}

// refLex splits src into tokens, without white space. It stops at the first
// position where no token can start.
func refLex(src string) ([]tok, *lexErr) { return refLexMode(src, false) }

// oddText recognizes the texts of known findings: identifiers that begin with
// a keyword and a hyphen, and heredoc rows that begin with an interpolation
// followed by the delimiter. They read differently once those are mended, and
// are not judged.
func oddText(src string) bool {
	a, ea := refLexMode(src, false)
	b, eb := refLexMode(src, true)
	if len(a) != len(b) || (ea == nil) != (eb == nil) {
		return true
	}
	for i := range a {
		if a[i] != b[i] {
			return true
		}
	}
	return false
}

// refLexMode reads as the language is implemented or, mended, without the
// known findings.
func refLexMode(src string, mended bool) ([]tok, *lexErr) {
	var (
		out   []tok
		stack = []lexState{{name: "root"}}
		off   = 0
		line  = 1
		col   = 1
	)
	push := func(name, arg string) { stack = append(stack, lexState{name, arg}) }
	pop := func() { stack = stack[:len(stack)-1] }

	for off < len(src) {
		s := src[off:]
		st := stack[len(stack)-1]
		kind, n := "", 0

		switch st.name {
		case "root", "expr", "block":
			kind, n = lexCore(s, mended)
			switch kind {
			case "{":
				if st.name != "root" {
					push("block", "")
				}
			case "}":
				if st.name == "expr" {
					kind = "expr-end"
				}
				if st.name != "root" {
					pop()
				}
			case "heredoc":
				_, w := lexHeredocStart(s)
				push("heredoc", w)
			case "str":
				push("string", s[:1])
			}
		case "string":
			switch {
			case strings.HasPrefix(s, `\u`):
				kind, n = "uni", 2
				push("unicode", "")
			case s[0] == '\\' && len(s) > 1 && s[1] != '\n':
				_, w := utf8.DecodeRuneInString(s[1:])
				kind, n = "esc", 1+w
			case s[:1] == st.arg:
				kind, n = "str-end", 1
				pop()
			case s[0] == '"' || s[0] == '\'':
				kind, n = "txt", 1
			case strings.HasPrefix(s, "$${"), strings.HasPrefix(s, "%%{"):
				kind, n = "txt", 3
			case strings.HasPrefix(s, "${"):
				kind, n = "${", 2
				push("expr", "")
			case strings.HasPrefix(s, "%{"):
				kind, n = "%{", 2
				push("expr", "")
			case s[0] == '$' || s[0] == '%':
				kind, n = "txt", 1
			case s[0] != '\\':
				i := strings.IndexAny(s, "$%\"'\\")
				if i < 0 {
					i = len(s)
				}
				kind, n = "char", i
			}
		case "unicode":
			h := spanWhile(s, 0, isHex)
			if h >= 8 {
				kind, n = "hex", 8
			} else if h >= 4 {
				kind, n = "hex", 4
			}
			pop()
		case "heredoc", "row":
			w := st.arg
			inRow := func() {
				if mended && st.name == "heredoc" {
					push("row", "")
				}
			}
			switch {
			case st.name == "heredoc" && strings.HasPrefix(s, w) && (len(s) == len(w) || !isWord(s[len(w)])):
				kind, n = "heredoc-end", len(w)
				pop()
			case s[0] == '\n':
				kind, n = "txt", 1
				if st.name == "row" {
					pop()
				}
			case strings.HasPrefix(s, "$${"), strings.HasPrefix(s, "%%{"):
				kind, n = "txt", 3
			case strings.HasPrefix(s, "${"):
				kind, n = "${", 2
				inRow()
				push("expr", "")
			case strings.HasPrefix(s, "%{"):
				kind, n = "%{", 2
				inRow()
				push("expr", "")
			case s[0] == '$' || s[0] == '%':
				kind, n = "txt", 1
			default:
				i := strings.IndexAny(s, "\n$%")
				if i < 0 {
					i = len(s)
				}
				kind, n = "txt", i
			}
			if st.name == "heredoc" && kind == "txt" && s[0] != '\n' {
				push("row", "")
			}
		}

		if n == 0 {
			return out, &lexErr{off, line, col}
		}
		if kind != "ws" {
			out = append(out, tok{kind, s[:n], off, line, col})
		}
		span := s[:n]
		off += n
		if c := strings.Count(span, "\n"); c > 0 {
			line += c
			col = 1 + utf8.RuneCountInString(span[strings.LastIndexByte(span, '\n')+1:])
		} else {
			col += utf8.RuneCountInString(span)
		}
	}
	return out, nil
}
