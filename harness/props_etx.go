package main

import (
	"errors"
	"fmt"
	"io"
	"math/big"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/alecthomas/participle/v2"
	"github.com/hexbee-net/etxe/pkg/etx"
)

func (c *C) parseString(src string) (*etx.AST, error) {
	if c.fast {
		return reused(src)
	}
	return etx.ParseString(src)
}

// parse runs the parser and demands exactly one of a document and an error.
func (c *C) parse(src string) (*etx.AST, error) {
	a, err := c.parseString(src)
	if (a == nil) == (err == nil) {
		c.fail("parsing returned document=%v and error=%v", a != nil, err)
	}
	return a, err
}

// features counts what kinds of constructs were observed.
func (c *C) features(t *N) {
	t.walk(func(n *N) {
		switch n.K {
		case "chain":
			c.saw("node:"+n.V, 1)
		case "none", "op", "params", "rets", "body", "labels":
		default:
			c.saw("node:"+n.K, 1)
		}
	})
}

// model generates a document with the given generator settings.
func (c *C) model(set func(*gen), items int) (doc *N, src string) {
	g := newGen(c.r)
	if set != nil {
		set(g)
	}
	doc = g.doc(items)
	src = render(doc, c.r.fork(), c.r.fork())
	return doc, src
}

// observed parses src and projects the tree. ok is false if it is rejected.
func (c *C) observed(src string) (got *N, anomalies []string, a *etx.AST, err error) {
	a, err = c.parse(src)
	if err != nil {
		return nil, nil, nil, err
	}
	got, anomalies = project(a)
	return got, anomalies, a, nil
}

// against compares the parser with the model (for generated documents) and
// with the reference reader (for mutated ones, when both accept).
func (c *C) against(set func(*gen), filter func(*N) *N, structure bool) {
	if filter == nil {
		filter = func(n *N) *N { return n }
	}
	if c.given != nil {
		c.judge(*c.given, filter, structure)
		return
	}
	if c.r.p(30) {
		doc, src := c.model(set, 1+c.r.n(6))
		c.input("source", src)
		got, anom, _, err := c.observed(src)
		if err != nil {
			c.fail("a document of the language is rejected: %v", err)
		}
		c.eval(true, src)
		c.saw("generated", 1)
		c.features(doc)
		if d := diff(filter(doc), filter(got), false); d != "" {
			c.fail("the tree differs from the document: %s", d)
		}
		c.anomalies(anom, structure)
		if c.r.p(20) {
			// One of the same length, right after.
			c.saw("look-alikes", 1)
			c.judge(lookAlike(c.r, src), filter, structure)
		}
		return
	}
	gen := func() string { _, s := c.model(set, 1+c.r.n(3)); return s }
	src := ""
	if c.r.p(70) {
		src = tiny(c.r)
		c.saw("small documents", 1)
	} else {
		src = mutate(c.r, gen(), gen)
	}
	c.judge(src, filter, structure)
}

// judge compares the parser with the reference reader, if both accept.
func (c *C) judge(src string, filter func(*N) *N, structure bool) {
	c.input("source", src)
	ref := refParse(src)
	if nesting(src) > 90 || ref.Tree == nil || ref.Far || oddText(src) {
		c.eval(false, src)
		return
	}
	got, anom, _, err := c.observed(src)
	if err != nil {
		c.eval(false, src)
		c.saw("mutated, rejected", 1)
		return
	}
	c.eval(true, src)
	c.saw("mutated, accepted", 1)
	c.features(ref.Tree)
	if d := diff(filter(ref.Tree), filter(got), false); d != "" {
		c.fail("the tree differs from the document: %s", d)
	}
	c.anomalies(anom, structure)
}

func (c *C) anomalies(list []string, structure bool) {
	for _, a := range list {
		if strings.HasPrefix(a, "structure:") == structure {
			c.fail("%s", a)
		}
	}
}

// roundsOf repeats a workload, so that cases are not too short.
func repeat(n int, f func(*C)) func(*C) {
	return func(c *C) {
		for i := 0; i < n; i++ {
			c.inputs = nil
			f(c)
		}
	}
}

func init() {
	register(&prop{id: "E01", sweep: 60, quick: 11000, thorough: 432000, run: runE01,
		rule: "documents generated from the grammar in random layouts, the same mutated at token and byte level, token soup, constructs nested up to 100 deep, and small documents edited by a token or a character; non-trivial: distinct texts of at least 8 bytes",
		must: []string{"accepted", "rejected", "generated", "mutated", "soup", "nested"}})
	register(&prop{id: "E02", quick: 6500, thorough: 234000, run: runE02,
		rule: "generated and mutated documents read through every entry point, whole, in chunks and with a failure injected at a random or boundary position; non-trivial: distinct texts of at least 8 bytes",
		must: []string{"same document", "same error", "reader failures reported", "reader failure at the start", "reader failure after the last byte", "long texts", "texts of more than a megabyte"}})
	register(&prop{id: "E03", fast: true, quick: 27000, thorough: 648000, run: runE03,
		rule: "expressions built level by level, with minimal and redundant parentheses and random spacing, in every place of a document; non-trivial: distinct accepted texts",
		must: []string{"node:or", "node:and", "node:bor", "node:xor", "node:band", "node:eq", "node:rel", "node:shift", "node:add", "node:mul", "node:un", "node:cond", "node:path", "node:call", "node:index", "mutated, accepted"}})
	register(&prop{id: "E04", fast: true, sweep: 100, quick: 50000, thorough: 1224000, run: func(c *C) { c.against(nil, nil, true) },
		rule: "whole documents compared node by node with the model they were written from, and accepted mutants with the reference reader; non-trivial: distinct accepted texts",
		must: []string{"node:decl", "node:func", "node:param", "node:enum", "node:object", "node:member", "node:block", "node:label", "node:attr", "node:tfn", "node:if", "node:switch", "node:case", "node:default", "node:list", "node:map", "node:entry", "node:cmt", "node:mcmt", "mutated, accepted"}})
	register(&prop{id: "E05", fast: true, quick: 42000, thorough: 864000, run: runE05,
		rule: "string- and heredoc-heavy documents, both quotes, nested interpolations, escapes at every boundary, and accepted mutants; non-trivial: distinct accepted texts",
		must: []string{"node:str", "node:heredoc", "node:txt", "node:esc", "node:uni", "node:interp", "node:directive", "node:skey", "mutated, accepted"}})
	register(&prop{id: "E06", fast: true, quick: 60000, thorough: 720000, run: runE06,
		rule: "documents with about twenty number literals in every base, length, separator placement and exponent, and single malformed spellings; non-trivial: distinct spellings",
		must: []string{"integers", "decimals", "exponents", "hex", "octal", "leading-0 octal", "binary", "long integers", "malformed, rejected"}})
	register(&prop{id: "E07", fast: true, quick: 11000, thorough: 252000, run: runE07,
		rule: "one model written twice with independent white space, line breaks, line endings and comments; non-trivial: distinct pairs of texts",
		must: []string{"pairs", "pairs with CRLF", "pairs with different comments", "node:heredoc"}})
	register(&prop{id: "E08", fast: true, sweep: 100, quick: 27000, thorough: 684000, run: runE08,
		rule: "documents with tabs, CRs, multi-line literals and non-ASCII text, positions compared with those recorded while writing (generated) or reading (mutants); non-trivial: distinct accepted texts",
		must: []string{"positions", "multi-line literals", "non-ASCII", "mutated, accepted"}})
	register(&prop{id: "E09", fast: true, sweep: 100, quick: 60000, thorough: 1368000, run: runE09,
		rule: "generated documents, token- and byte-level mutants, soup, nested constructs, and small documents of every production edited by a token or a character, acceptance compared with the reference reader; non-trivial: distinct texts of at least 8 bytes",
		must: []string{"accepted", "rejected", "mutated, accepted", "mutated, rejected"}})
	register(&prop{id: "E10", fast: true, sweep: 50, quick: 34000, thorough: 972000, run: runE10,
		rule: "the significant tokens of every accepted document compared, in order, with those of its tree; non-trivial: distinct accepted texts",
		must: []string{"tokens", "labels in quotes", "generated, accepted", "mutated, accepted"}})
	register(&prop{id: "E11", fast: true, sweep: 60, quick: 60000, thorough: 1008000, run: runE11,
		rule: "mutants, soup and nested constructs; non-trivial: distinct rejected texts",
		must: []string{"bad characters", "syntax errors", "errors at the end", "errors past the first line", "through ParseString", "through ParseBytes", "through Parse"}})
}

func runE01(c *C) {
	src, kind := c.source()
	if kind == "nested" && c.r.p(50) {
		src = deep(c.r, 100)
	}
	if nesting(src) > 100 {
		return
	}
	c.input("source", src)
	a, err := c.parse(src)
	c.eval(len(src) >= 8, src)
	c.saw(kind, 1)
	if nesting(src) > 50 {
		c.saw("nested over 50 deep", 1)
	}
	if c.given == nil && c.r.p(30) {
		// Another text in between.
		c.parse(lookAlike(c.r, src))
	}
	parse := c.parse
	if c.given != nil && c.r.p(3) {
		parse = etx.ParseString
	}
	b, err2 := parse(src)
	if err != nil {
		c.saw("rejected", 1)
		if err2 == nil {
			c.fail("rejected (%v), then accepted", err)
		}
		if err.Error() != err2.Error() {
			c.fail("two errors for one text: %q and %q", err, err2)
		}
		return
	}
	c.saw("accepted", 1)
	if err2 != nil {
		c.fail("accepted, then rejected: %v", err2)
	}
	if x, y := snapshot(a, true), snapshot(b, true); x != y {
		c.fail("two trees for one text: %s", firstDifference(x, y))
	}
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := i - 60
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		to := i + 100
		if to > len(s) {
			to = len(s)
		}
		if from > to {
			return ""
		}
		return s[from:to]
	}
	return fmt.Sprintf("%q / %q", cut(a), cut(b))
}

// /////////////////////////////////////
// E02

var errInjected = errors.New("injected failure")

type readerError struct{ at int }

func (e *readerError) Error() string { return fmt.Sprint("reader failed at ", e.at) }

// faultyReader delivers data in random chunks, then err (nil: EOF).
type faultyReader struct {
	r        *rng
	data     []byte
	err      error
	together bool // the last data comes along with the error
	chunk    int
	zero     bool // sometimes returns 0, nil
	touched  []byte
}

func (f *faultyReader) Read(p []byte) (int, error) {
	end := f.err
	if end == nil {
		end = io.EOF
	}
	if f.zero && f.r.p(20) {
		return 0, nil
	}
	if len(f.data) == 0 {
		return 0, end
	}
	n := 1 + f.r.n(f.chunk)
	if n > len(f.data) {
		n = len(f.data)
	}
	n = copy(p, f.data[:n])
	f.data = f.data[n:]
	if len(f.data) == 0 && f.together {
		return n, end
	}
	return n, nil
}

// bulk is a text that ends a little before or after a power of two, or holds
// something there that takes more than one byte.
func bulk(r *rng) string {
	size := 1 << (10 + r.n(11))
	if r.p(25) {
		size = 1 << 20 << r.n(3)
	}
	tail := pick(r, "\n", "\nb = 1\n", "\n)\n", "\n\"", "\n/* é */\r\n", "\n# 😀", "\nc = 2", "\n\x00", "")
	var sb strings.Builder
	open := pick(r, "# ", "a = \"", "a = <<EOF\n", "/* ", "\n")
	sb.WriteString(open)
	unit := pick(r, "text ", "é", "中 ", "x", "😀")
	if open == "\n" {
		unit = pick(r, "\n", "\r\n", "# c\n", " \n", "\t# é\n")
	}
	size += r.n(12) - 6
	for sb.Len()+len(unit) <= size {
		n := (size - sb.Len()) / len(unit)
		if open != "\n" && n > 4000 {
			n = 4000
		}
		sb.WriteString(strings.Repeat(unit, n))
		if open == "# " && sb.Len()+len(unit) <= size {
			sb.WriteString("\n# ")
		}
	}
	sb.WriteString(map[string]string{"a = \"": "\"", "a = <<EOF\n": "\nEOF", "/* ": "*/"}[open])
	sb.WriteString(tail)
	return sb.String()
}

func runE02(c *C) {
	src := ""
	if c.r.n(400) == 0 {
		src = bulk(c.r)
		c.saw("long texts", 1)
		if len(src) > 1<<20 {
			c.saw("texts of more than a megabyte", 1)
		}
	} else {
		src, _ = c.source()
	}
	if nesting(src) > 90 {
		return
	}
	c.input("source", src)
	c.eval(len(src) >= 8, src)
	a, err := c.parse(src)
	want := outcomeText(a, err)

	same := func(how string, a *etx.AST, err error) {
		c.input("read", how)
		if (a == nil) == (err == nil) {
			c.fail("%s returned document=%v and error=%v", how, a != nil, err)
		}
		if got := outcomeText(a, err); got != want {
			c.fail("%s gives another outcome than a string: %s", how, firstDifference(want, got))
		}
		if err == nil {
			c.saw("same document", 1)
		} else {
			c.saw("same error", 1)
		}
	}
	if c.r.p(25) {
		etx.ParseBytes([]byte(lookAlike(c.r, src)))
	}
	buf := []byte(src)
	b, err2 := etx.ParseBytes(buf)
	if string(buf) != src {
		c.fail("parsing modified the bytes it was given: %q became %q", src, buf)
	}
	same("bytes", b, err2)
	if b != nil {
		for i := range buf {
			buf[i] ^= 0x55
		}
		same("bytes, overwritten afterwards", b, nil)
	}

	switch c.r.n(5) {
	case 0:
		a, err := etx.Parse(strings.NewReader(src))
		same("a strings.Reader", a, err)
	case 1:
		a, err := etx.Parse(iotest.OneByteReader(strings.NewReader(src)))
		same("a one-byte reader", a, err)
	case 2:
		a, err := etx.Parse(iotest.DataErrReader(strings.NewReader(src)))
		same("a reader that ends with its last data", a, err)
	default:
		fr := &faultyReader{r: c.r, data: []byte(src), chunk: pick(c.r, 1, 3, 17, 1000), zero: c.r.p(40), together: c.r.p(50)}
		a, err := etx.Parse(fr)
		same("a reader in random chunks", a, err)
	}

	// A failing reader.
	at := c.r.n(len(src) + 1)
	switch c.r.n(4) {
	case 0:
		at = 0
	case 1:
		at = len(src)
	case 2:
		// Cut where the prefix is a document of its own.
		if i := strings.LastIndexByte(src[:at], '\n'); i >= 0 {
			at = i + 1
		}
	}
	if at == 0 {
		c.saw("reader failure at the start", 1)
	}
	if at == len(src) {
		c.saw("reader failure after the last byte", 1)
	}
	own := &readerError{at}
	fault := pick[error](c.r, errInjected, own, io.ErrUnexpectedEOF, io.ErrClosedPipe)
	fr := &faultyReader{r: c.r, data: []byte(src[:at]), err: fault, chunk: pick(c.r, 1, 7, 1000, 100000), zero: c.r.p(30), together: c.r.p(50)}
	c.input("read", fmt.Sprintf("a reader failing after %d bytes with %T %v (along with data: %v)", at, fault, fault, fr.together))
	a, err = etx.Parse(fr)
	if err == nil {
		c.fail("the reader failed after %d of %d bytes, but parsing reported no error", at, len(src))
	}
	if a != nil {
		c.fail("the reader failed after %d of %d bytes, but parsing returned a document", at, len(src))
	}
	if !errors.Is(err, fault) {
		c.fail("the reader failed with %v, but this error cannot be unwrapped from %v", fault, err)
	}
	if fault == error(own) {
		var e *readerError
		if !errors.As(err, &e) || e != own {
			c.fail("the reader's own error cannot be unwrapped from %v", err)
		}
	}
	c.saw("reader failures reported", 1)
}

func outcomeText(a *etx.AST, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return snapshot(a, true)
}

// /////////////////////////////////////
// E03, E05

func runE03(c *C) {
	set := func(g *gen) {
		g.ops, g.comments, g.strs, g.nums = 14, false, 1, 1
		g.wide = c.r.p(30)
	}
	if c.r.p(1) {
		// A very long chain.
		l := c.r.n(len(levels))
		n := mk("chain", levels[l].name, mk("id", "x"))
		for i := 100 + c.r.n(150); i > 0; i-- {
			n.C = append(n.C, mk("op", pick(c.r, levels[l].ops...)), mk("id", pick(c.r, namePool...)))
		}
		doc := mk("doc", "", mk("attr", "a", n))
		src := render(doc, c.r.fork(), c.r.fork())
		c.input("source", src)
		got, _, _, err := c.observed(src)
		if err != nil {
			c.fail("a long expression is rejected: %v", err)
		}
		c.eval(true, src)
		c.saw("chains over 100 operators", 1)
		if d := diff(doc, got, false); d != "" {
			c.fail("the tree differs from the expression: %s", d)
		}
		return
	}
	if c.r.p(45) {
		// Expressions alone, several to a document.
		doc := mk("doc", "")
		for i := 1 + c.r.n(4); i > 0; i-- {
			g := newGen(c.r)
			set(g)
			g.budget, g.depth = 10+c.r.n(50), 3+c.r.n(8)
			e := g.chain()
			if c.r.p(20) {
				e = g.expr()
			}
			switch c.r.n(3) {
			case 0:
				doc.C = append(doc.C, mk("attr", "a", e))
			case 1:
				doc.C = append(doc.C, mk("decl", "val a", none, e))
			default:
				doc.C = append(doc.C, mk("func", "f", mk("params", ""), mk("rets", ""), mk("body", "", e)))
			}
		}
		src := render(doc, c.r.fork(), c.r.fork())
		c.input("source", src)
		got, _, _, err := c.observed(src)
		if err != nil {
			c.fail("an expression is rejected: %v", err)
		}
		c.eval(true, src)
		c.features(doc)
		if d := diff(doc, got, false); d != "" {
			c.fail("the tree differs from the expression: %s", d)
		}
		return
	}
	c.against(set, withoutComments, true)
}

func runE05(c *C) {
	set := func(g *gen) { g.strs, g.nums, g.comments = 16, 1, c.r.p(20) }
	if c.r.p(40) {
		doc := mk("doc", "")
		for i := 1 + c.r.n(5); i > 0; i-- {
			g := newGen(c.r)
			set(g)
			g.budget, g.depth = 4+c.r.n(20), 2+c.r.n(5)
			var v *N
			if c.r.p(40) {
				v = g.heredoc()
			} else {
				v = g.str(true)
			}
			switch c.r.n(4) {
			case 0:
				v = mk("chain", "shift", mk("id", "a"), mk("op", "<<"), v)
			case 1:
				v = mk("list", "", v, g.str(true))
			}
			doc.C = append(doc.C, mk("attr", "a", v))
		}
		src := render(doc, c.r.fork(), c.r.fork())
		c.input("source", src)
		got, anom, _, err := c.observed(src)
		if err != nil {
			c.fail("a literal is rejected: %v", err)
		}
		c.eval(true, src)
		c.features(doc)
		if d := diff(doc, got, false); d != "" {
			c.fail("the content of a literal differs: %s", d)
		}
		c.anomalies(anom, true)
		return
	}
	c.against(set, nil, true)
}

// /////////////////////////////////////
// E06

// exactNumber is the value of a literal, and the unit of its last digit.
func exactNumber(s string) (v, unit *big.Rat, integer bool) {
	s = strings.ReplaceAll(respell(s), "_", "")
	base := 0
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base = 16
		case 'o', 'O':
			base = 8
		case 'b', 'B':
			base = 2
		}
	}
	v = new(big.Rat)
	if base != 0 {
		i, ok := new(big.Int).SetString(s[2:], base)
		if !ok {
			panic("harness: number " + s)
		}
		return v.SetInt(i), new(big.Rat), true
	}
	mant, exp, hasExp := strings.Cut(strings.ToLower(s), "e")
	e := 0
	if hasExp {
		var err error
		if e, err = strconv.Atoi(exp); err != nil {
			panic("harness: exponent " + s)
		}
	}
	whole, frac, hasFrac := strings.Cut(mant, ".")
	digits := whole + frac
	e -= len(frac)
	i, ok := new(big.Int).SetString("0"+digits, 10)
	if !ok {
		panic("harness: number " + s)
	}
	v.SetInt(i)
	unit = new(big.Rat).SetInt64(1)
	p := new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil))
	if e < 0 {
		p.Inv(p)
	}
	v.Mul(v, p)
	unit.Mul(unit, p)
	return v, unit, !hasExp && !hasFrac
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func checkNumber(n *etx.ValueNumber, raw string) string {
	if n == nil || n.Value == nil {
		return "no value"
	}
	if n.Source != respell(raw) {
		return fmt.Sprintf("spelling %q became %q", raw, n.Source)
	}
	want, unit, integer := exactNumber(raw)
	if n.Value.IsInf() {
		return fmt.Sprintf("%s became infinite", raw)
	}
	got, _ := n.Value.Rat(nil)
	if got == nil {
		got = new(big.Rat)
	}
	if integer {
		if got.Cmp(want) != 0 {
			return fmt.Sprintf("%s has the value %s", raw, n.Value.Text('p', 0))
		}
		return ""
	}
	d := new(big.Rat).Sub(got, want)
	d.Abs(d)
	if d.Cmp(unit) > 0 {
		return fmt.Sprintf("%s is stored as %s, more than one unit of its last digit away", raw, n.Value.Text('g', 60))
	}
	rel := new(big.Rat).Mul(want, big.NewRat(1, 1<<52))
	if d.Cmp(rel) > 0 {
		return fmt.Sprintf("%s is stored as %s, less precisely than a float64", raw, n.Value.Text('g', 60))
	}
	return ""
}

func runE06(c *C) {
	if c.r.p(60) {
		doc := mk("doc", "")
		list := mk("list", "")
		g := newGen(c.r)
		for i := 0; i < 20; i++ {
			list.C = append(list.C, g.number())
		}
		doc.C = append(doc.C, mk("attr", "n", list))
		src := render(doc, c.r.fork(), c.r.fork())
		c.input("source", src)
		a, err := c.parse(src)
		if err != nil {
			c.fail("a document with well-formed numbers is rejected: %v", err)
		}
		var got []*etx.ValueNumber
		for _, n := range allNodes(a) {
			if v, ok := n.Interface().(*etx.ValueNumber); ok {
				got = append(got, v)
			}
		}
		if len(got) != len(list.C) {
			c.fail("%d numbers became %d", len(list.C), len(got))
		}
		for i, n := range list.C {
			c.eval(true, n.Raw)
			c.countNumber(n.Raw)
			if msg := checkNumber(got[i], n.Raw); msg != "" {
				c.fail("%s", msg)
			}
		}
		return
	}
	// One spelling, maybe malformed.
	g := newGen(c.r)
	s := g.number().Raw
	if len(s) > 30 {
		s = s[:30]
	}
	for k := c.r.n(3); k > 0; k-- {
		at := c.r.n(len(s) + 1)
		switch c.r.n(4) {
		case 0:
			s = s[:at] + pick(c.r, "_", "__", "e", "E", "x", "b", "o", ".", "8", "9", "2", "g", "f", "p", "+", "-", "0") + s[at:]
		case 1:
			if at < len(s) {
				s = s[:at] + s[at+1:]
			}
		case 2:
			s = s[:at]
		default:
			s = pick(c.r, "0", "_", "00", ".", "0x", "0b", "0o", "1", "0_", "08") + s
		}
	}
	src := "n = " + s + "\n"
	c.input("source", src)
	ref := refParse(src)
	for _, t := range ref.Toks {
		if t.K == "num" && len(t.V) > 0 {
			if i := strings.IndexAny(t.V, "eE"); i >= 0 && len(t.V)-i > 5 && !strings.HasPrefix(strings.ToLower(t.V), "0x") {
				return // astronomic exponents are out of the bounds
			}
		}
	}
	a, err := c.parse(src)
	c.eval(true, s)
	switch {
	case ref.Tree == nil && err == nil:
		c.fail("the malformed number %q is accepted as %s", s, a.FormattedString())
	case ref.Tree != nil && err != nil:
		c.fail("the number %q is rejected: %v", s, err)
	case err != nil:
		c.saw("malformed, rejected", 1)
	default:
		var toks []tok
		for _, t := range ref.Toks {
			if t.K == "num" {
				toks = append(toks, t)
			}
		}
		i := 0
		for _, n := range allNodes(a) {
			if v, ok := n.Interface().(*etx.ValueNumber); ok {
				if i >= len(toks) {
					c.fail("%q has more numbers in the tree than in the text", s)
				}
				c.countNumber(toks[i].V)
				if msg := checkNumber(v, toks[i].V); msg != "" {
					c.fail("%s", msg)
				}
				i++
			}
		}
		if i != len(toks) {
			c.fail("%q has %d numbers, its tree %d", s, len(toks), i)
		}
	}
}

func (c *C) countNumber(s string) {
	l := strings.ToLower(s)
	switch {
	case strings.HasPrefix(l, "0x"):
		c.saw("hex", 1)
	case strings.HasPrefix(l, "0b"):
		c.saw("binary", 1)
	case strings.HasPrefix(l, "0o"):
		c.saw("octal", 1)
	case respell(s) != s:
		c.saw("leading-0 octal", 1)
	case strings.Contains(l, "e"):
		c.saw("exponents", 1)
	case strings.Contains(l, "."):
		c.saw("decimals", 1)
	default:
		c.saw("integers", 1)
		if len(l) > 20 {
			c.saw("long integers", 1)
		}
	}
}

// /////////////////////////////////////
// E07

func runE07(c *C) {
	g := newGen(c.r)
	g.comments = false
	base := g.doc(1 + c.r.n(6))
	var trees []*N
	var texts []string
	for k := 0; k < 2; k++ {
		doc := copyTree(base)
		if c.r.p(70) {
			addComments(newGen(c.r), doc)
		}
		src := render(doc, c.r.fork(), c.r.fork())
		texts = append(texts, src)
		c.input(fmt.Sprintf("layout %d", k+1), src)
		got, _, _, err := c.observed(src)
		if err != nil {
			c.fail("layout %d is rejected: %v", k+1, err)
		}
		trees = append(trees, withoutComments(got))
		if k == 0 {
			c.features(doc)
		}
	}
	c.eval(texts[0] != texts[1], texts[0]+"\x00"+texts[1])
	c.saw("pairs", 1)
	if strings.Contains(texts[0], "\r\n") != strings.Contains(texts[1], "\r\n") {
		c.saw("pairs with CRLF", 1)
	}
	if strings.Contains(texts[0], "/*") || strings.Contains(texts[1], "/*") || strings.Contains(texts[0], "//") || strings.Contains(texts[1], "//") {
		c.saw("pairs with different comments", 1)
	}
	if d := diff(trees[0], trees[1], false); d != "" {
		c.fail("two layouts of one document give two trees: %s", d)
	}
	if d := diff(base, trees[0], false); d != "" {
		c.fail("the tree differs from the document: %s", d)
	}
}

// addComments puts comments in every container of a document.
func addComments(g *gen, n *N) {
	g.comments = true
	for _, x := range n.C {
		addComments(g, x)
	}
	switch n.K {
	case "doc", "enum", "object", "list", "map", "body":
		g.sprinkle(n)
	}
}

// /////////////////////////////////////
// E08

func runE08(c *C) {
	set := func(g *gen) { g.strs = 8; g.comments = c.r.p(70) }
	var want *N
	var src string
	mutated := c.given != nil || c.r.p(40)
	if !mutated {
		want, src = c.model(set, 1+c.r.n(6))
	} else {
		gen := func() string { _, s := c.model(set, 1+c.r.n(3)); return s }
		switch {
		case c.given != nil:
			src = *c.given
		case c.r.p(40):
			src = tiny(c.r)
		default:
			src = mutate(c.r, gen(), gen)
		}
		ref := refParse(src)
		if ref.Tree == nil || ref.Far || nesting(src) > 90 || oddText(src) {
			c.eval(false, src)
			return
		}
		want = ref.Tree
	}
	c.input("source", src)
	got, anom, a, err := c.observed(src)
	if err != nil {
		c.eval(false, src)
		return
	}
	if diff(want, got, false) != "" {
		// Another tree altogether: not a matter of positions.
		c.eval(false, src)
		c.saw("other trees", 1)
		return
	}
	if mutated {
		c.saw("mutated, accepted", 1)
	}
	c.eval(true, src)
	want.walk(func(n *N) {
		if n.Off >= 0 {
			c.saw("positions", 1)
			if strings.Contains(n.V, "\n") && (n.K == "txt" || n.K == "mcmt") {
				c.saw("multi-line literals", 1)
			}
		}
	})
	for i := 0; i < len(src); i++ {
		if src[i] >= 0x80 {
			c.saw("non-ASCII", 1)
			break
		}
	}
	if d := diff(want, got, true); d != "" {
		c.fail("%s", d)
	}
	c.anomalies(anom, false)

	// Every node, also those that the projection leaves out.
	toks, _ := refLex(src)
	at := map[int]tok{}
	for _, t := range toks {
		at[t.Off] = t
	}
	for _, n := range allNodes(a) {
		pos := n.Interface().(etx.Node).Node().Pos
		switch v := n.Interface().(type) {
		case *etx.ValueBool, *etx.ValueNumber:
			continue
		case *etx.Expr:
			if v.Left == nil && v.If == nil && v.Switch == nil {
				continue // placeholder
			}
		case *etx.ParameterType:
			if v.Ident == nil && v.Func == nil {
				continue // placeholder
			}
		case *etx.ExprInvocationParams:
			if len(v.Values) > 0 {
				if v.Values[0].Pos != pos {
					c.fail("arguments at %s, the first of them at %s", posStr(pos), posStr(v.Values[0].Pos))
				}
			} else if at[pos.Offset].V != ")" {
				c.fail("the empty arguments of a call are located at offset %d, which is not their ')'", pos.Offset)
			}
		case *etx.TypeEnum:
			if len(v.Items) > 0 && v.Items[0].Pos != pos {
				c.fail("enum body at %s, its first item at %s", posStr(pos), posStr(v.Items[0].Pos))
			} else if len(v.Items) == 0 && at[pos.Offset].V != "}" {
				c.fail("an empty enum body is located at %s, which is not its '}'", posStr(pos))
			}
		case *etx.TypeObject:
			if len(v.Items) > 0 && v.Items[0].Pos != pos {
				c.fail("object body at %s, its first item at %s", posStr(pos), posStr(v.Items[0].Pos))
			} else if len(v.Items) == 0 && at[pos.Offset].V != "}" {
				c.fail("an empty object body is located at %s, which is not its '}'", posStr(pos))
			}
		}
		if t, ok := at[pos.Offset]; ok {
			if t.Line != pos.Line || t.Col != pos.Column {
				c.fail("a %s is located at %s, but the token at this offset is at %d:%d", n.Type().Elem().Name(), posStr(pos), t.Line, t.Col)
			}
		} else if pos.Offset != len(src) {
			c.fail("a %s is located at %s, where no token starts", n.Type().Elem().Name(), posStr(pos))
		}
		if pos.Filename != "" {
			c.fail("a position has the file name %q", pos.Filename)
		}
		c.saw("node positions", 1)
	}
}

// /////////////////////////////////////
// E09, E10, E11

func runE09(c *C) {
	if c.given != nil {
		c.boundary(*c.given, "swept")
		return
	}
	var src, kind string
	switch c.r.weighted(8, 1, 1) {
	case 0:
		src, kind = tiny(c.r), "tiny"
	case 1:
		// A single small mutation of a small document: the boundary.
		_, s := c.model(nil, 1+c.r.n(2))
		src, kind = mutateOnce(c.r, s, func() string { return "a = 1\n" }), "mutated"
	default:
		src, kind = c.source()
	}
	c.boundary(src, kind)
	if c.r.p(10) {
		c.boundary(lookAlike(c.r, src), "look-alike")
	}
}

// boundary demands acceptance exactly if the reference reader accepts.
func (c *C) boundary(src, kind string) {
	if nesting(src) > 90 {
		return
	}
	c.input("source", src)
	ref := refParse(src)
	a, err := c.parse(src)
	c.eval(len(src) >= 8, src)
	if err == nil {
		c.saw("accepted", 1)
		c.saw(kind+", accepted", 1)
	} else {
		c.saw("rejected", 1)
		c.saw(kind+", rejected", 1)
	}
	if oddText(src) {
		c.saw("texts of a known finding, not judged", 1)
		return
	}
	if ref.Far {
		c.saw("decided at the lookahead limit, not judged", 1)
		return
	}
	switch {
	case ref.Tree == nil && err == nil:
		got, _ := project(a)
		c.fail("a text that is not in the language is accepted as %s", clip(got.String()))
	case ref.Tree != nil && err != nil:
		c.fail("a document of the language is rejected: %v", err)
	}
	if kind == "generated" && err != nil {
		c.fail("a generated document is rejected: %v", err)
	}
	if err == nil {
		got, _ := project(a)
		if x, y := countNodes(ref.Tree), countNodes(got); x != y {
			c.fail("accepted with %d of the %d parts of the document", y, x)
		}
	}
}

// countNodes counts the leaves of a tree.
func countNodes(n *N) int {
	k := 0
	n.walk(func(x *N) {
		if x.K != "none" {
			k++
		}
	})
	return k
}

// word is a significant token. Texts that touch each other are one word.
type word struct {
	V    string
	text bool // part of a literal
	open bool // start of a literal

	label bool
}

func textOfTokens(toks []tok) (out []word) {
	merge := false
	for _, t := range toks {
		switch t.K {
		case "txt", "char":
			if merge {
				out[len(out)-1].V += t.V
			} else {
				out = append(out, word{V: t.V, text: true})
			}
			merge = true
			continue
		case "str":
			out = append(out, word{V: "\"", open: true})
		case "heredoc":
			out = append(out, word{V: strings.TrimSuffix(t.V, "\n"), open: true})
		case "cmt":
			out = append(out, word{V: strings.TrimRight(t.V, "\r")})
		case "num":
			out = append(out, word{V: respell(t.V)})
		case "mcmt", "esc", "hex", "id", "${", "%{", "if-kw", "switch-kw", "case-kw", "else-kw", "?",
			"||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%", "!", "~":
			out = append(out, word{V: t.V})
		}
		merge = false
	}
	return out
}

func textOfTree(n *N) (out []word) {
	put := func(s ...string) {
		for _, x := range s {
			out = append(out, word{V: x})
		}
	}
	var rec func(n *N)
	all := func(ns []*N) {
		for _, c := range ns {
			rec(c)
		}
	}
	rec = func(n *N) {
		switch n.K {
		case "decl", "fdecl":
			put(strings.Split(n.V, " ")...)
			all(n.C)
		case "func":
			put("def", n.V)
			all(n.C)
		case "enum", "object":
			put("type", n.V, n.K)
			all(n.C)
		case "tid", "key":
			put(strings.Split(n.V, ".")...)
		case "cond":
			rec(n.C[0])
			put("?")
			all(n.C[1:])
		case "if":
			put("if")
			rec(n.C[0])
			rec(n.C[1])
			if n.C[2].K != "none" {
				put("else")
				rec(n.C[2])
			}
		case "switch", "case", "default":
			put(n.K)
			all(n.C)
		case "null":
			put("null")
		case "label":
			out = append(out, word{V: n.V, label: true})
		case "txt":
			out = append(out, word{V: n.V, text: true})
		case "str", "skey":
			out = append(out, word{V: "\"", open: true})
			all(n.C)
		case "heredoc":
			out = append(out, word{V: "<<" + n.V, open: true})
			all(n.C)
		case "interp":
			put("${")
			all(n.C)
		case "directive":
			put("%{")
			all(n.C)
		case "param", "member", "block", "attr", "id", "dot", "op", "un", "cmt", "mcmt", "num", "bool", "esc", "uni":
			put(n.V)
			all(n.C)
		default: // doc, chain, path, call, index, list, map, entry, str, ...
			all(n.C)
		}
	}
	rec(n)
	return out
}

func kindsOf(n *N) string {
	var sb strings.Builder
	n.walk(func(x *N) { sb.WriteString(x.K + " ") })
	return sb.String()
}

func runE10(c *C) {
	src, kind := c.source()
	if nesting(src) > 90 || oddText(src) {
		return
	}
	c.input("source", src)
	got, _, _, err := c.observed(src)
	toks, lerr := refLex(src)
	if err != nil {
		c.eval(false, src)
		return
	}
	if lerr != nil {
		c.fail("accepted, although %v", lerr)
	}
	c.eval(true, src)
	c.saw(kind+", accepted", 1)
	want, have := textOfTokens(toks), textOfTree(got)
	c.saw("tokens", len(want))
	i, j := 0, 0
	for ; i < len(want); i, j = i+1, j+1 {
		if j >= len(have) {
			c.fail("the tree lacks %q (significant token %d)", want[i].V, i)
		}
		if want[i].open && have[j].label {
			// A label is a name or a literal.
			text := ""
			if i+1 < len(want) && want[i+1].text {
				text = want[i+1].V
				i++
			}
			if text != have[j].V {
				c.fail("the label %q is %q in the tree", text, have[j].V)
			}
			c.saw("labels in quotes", 1)
			continue
		}
		if want[i].V != have[j].V {
			c.fail("significant token %d is %q, the tree has %q", i, want[i].V, have[j].V)
		}
	}
	if j < len(have) {
		c.fail("the tree has %q, which the source has not", have[j].V)
	}
	// The same for what is not a word: groups, calls, lists, optional parts.
	if ref := refParse(src); ref.Tree != nil && !ref.Far {
		if x, y := kindsOf(ref.Tree), kindsOf(got); x != y {
			c.fail("the parts of the source are not those of the tree: %s", firstDifference(x, y))
		}
	}
}

func runE11(c *C) {
	src, _ := c.source()
	way := c.r.n(3)
	if c.given == nil && c.r.p(15) {
		// A character that no token can start with.
		at := c.r.n(len(src) + 1)
		src = src[:at] + pick(c.r, "@", "`", ";", "\\", "é", "\x00", "€", "\u00a0", "\xff") + src[at:]
	}
	if nesting(src) > 90 || oddText(src) {
		return
	}
	c.input("source", src)
	ref := refParse(src)
	for _, t := range ref.Toks {
		if t.K == "num" && !validNumber(t.V) {
			return
		}
	}
	parse := c.parseString
	if !c.fast {
		parse = func(src string) (*etx.AST, error) { return parseAnyWay(src, way) }
	}
	_, err := parse(src)
	if err == nil {
		c.eval(false, src)
		return
	}
	c.eval(true, src)
	if c.fast {
		way = 0
	}
	c.saw("through "+[]string{"ParseString", "ParseBytes", "Parse"}[way], 1)
	var pe participle.Error
	if !errors.As(err, &pe) {
		c.fail("an error without position: %v", err)
	}
	pos := pe.Position()
	if want := fmt.Sprintf("parsing failed: %d:%d: ", pos.Line, pos.Column); !strings.HasPrefix(err.Error(), want) {
		c.fail("the message %q does not start with %q", err, want)
	}
	if pos.Line > 1 {
		c.saw("errors past the first line", 1)
	}
	if e := ref.LexErr; e != nil {
		c.saw("bad characters", 1)
		if pos.Offset != e.Off || pos.Line != e.Line || pos.Column != e.Col {
			c.fail("nothing can start at offset %d (%d:%d), the error is reported at %s: %v", e.Off, e.Line, e.Col, posStr(pos), err)
		}
		return
	}
	c.saw("syntax errors", 1)
	line, col := lineCol(src, pos.Offset)
	if pos.Line != line || pos.Column != col {
		c.fail("offset %d is at %d:%d, the error is reported at %s", pos.Offset, line, col, posStr(pos))
	}
	if pos.Offset == len(src) {
		c.saw("errors at the end", 1)
	} else {
		found := false
		for _, t := range ref.Toks {
			found = found || t.Off == pos.Offset
		}
		if !found {
			c.fail("the error is reported at %s, where no token starts: %v", posStr(pos), err)
		}
	}
	if !ref.Far && ref.Tree == nil && pos.Offset < ref.ItemStart {
		c.fail("the document is readable up to offset %d, the error is reported at %s: %v", ref.ItemStart, posStr(pos), err)
	}
}

func lineCol(src string, off int) (line, col int) {
	if off < 0 || off > len(src) {
		return -1, -1
	}
	line = 1 + strings.Count(src[:off], "\n")
	col = 1 + len([]rune(src[strings.LastIndexByte(src[:off], '\n')+1:off]))
	return line, col
}
