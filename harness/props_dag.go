package main

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hexbee-net/etxe/pkg/dag"
)

func init() {
	hist := "non-trivial: distinct histories with at least one edge"
	register(&prop{id: "D01", quick: 250000, thorough: 9000000, run: runD01,
		rule: "random histories of operations and queries over graphs of up to 40 vertices and ten kinds of identifiers, every answer and error compared with a plain set of vertices and edges; " + hist,
		must: []string{"huge graphs", "addVertex", "deleteVertex", "addEdge", "deleteEdge", "reduce", "query", "full comparisons",
			dag.ErrVertexIDEmpty.Error(), dag.ErrVertexDuplicate.Error(), dag.ErrVertexNotFound.Error(), dag.ErrEdgeSourceIDEmpty.Error(), dag.ErrEdgeTargetIDEmpty.Error(),
			dag.ErrEdgeSourceIDNotFound.Error(), dag.ErrEdgeTargetIDNotFound.Error(), dag.ErrEdgeSourceTargetIdentical.Error(), dag.ErrEdgeDuplicate.Error(), dag.ErrEdgeNotFound.Error(), dag.ErrEdgeLoop.Error()}})
	register(&prop{id: "D02", quick: 250000, thorough: 9000000, run: runD02,
		rule: "random histories; each edge addition judged against reachability over the edges observed just before, and the observed edges sorted topologically after each acceptance; " + hist,
		must: []string{"huge graphs", "edges refused as loops", "edges accepted", "edges accepted after deletions", "edges accepted that close a triangle", "reduce"}})
	register(&prop{id: "D03", quick: 55000, thorough: 1980000, run: runD03,
		rule: "random histories run on two graphs, one of which also gets operations that are refused; both compared at random points and at the end, and the full state taken before and after refusals; " + hist,
		must: []string{"huge graphs", "refused addVertex", "refused deleteVertex", "refused addEdge", "refused deleteEdge", "refused query", "states compared", "refused with: " + dag.ErrEdgeLoop.Error(), "refused with: " + dag.ErrEdgeDuplicate.Error()}})
	register(&prop{id: "D04", quick: 48000, thorough: 1728000, run: runD04,
		rule: "random histories in which few queries fill some caches before each change; ancestors and descendants compared with reachability over the edges observed at that moment; " + hist,
		must: []string{"huge graphs", "ancestors judged", "descendants judged", "judged after a deleted edge", "judged after a deleted vertex", "judged after a reduction", "re-added vertices"}})
	register(&prop{id: "D05", quick: 80000, thorough: 2880000, run: runD05,
		rule: "random acyclic graphs, some reached through histories and with caches filled, reduced and compared with the definition; " + hist,
		must: []string{"huge graphs", "reductions", "edges removed", "edges kept", "reductions again", "operations after a reduction"}})
	register(&prop{id: "D06", quick: 600000, thorough: 21600000, run: runD06,
		rule: "walks from random vertices, as streams with consumers of several speeds and as lists, compared with breadth-first distances over the observed edges; " + hist,
		must: []string{"huge graphs", "streams", "lists", "vertices delivered", "walks three or more levels deep", "walks refused"}})
	register(&prop{id: "D07", quick: 30000, thorough: 1080000, run: runD07, race: true, workers: 1,
		rule: "under the Go race detector: walks stopped after any number of deliveries by sending or closing, with consumers that go on or walk away, several at a time, goroutine stacks inspected until quiet; " + hist,
		must: []string{"huge graphs", "stopped before the first", "stopped in between", "stopped after the last", "stopped by closing", "stopped by sending", "consumers that left", "consumers that went on", "consumed entirely", "quiet"}})
	register(&prop{id: "D08", quick: 110000, thorough: 3960000, run: runD08,
		rule: "random histories in which returned maps and lists are overwritten by the caller, against a second graph whose results are left alone; results kept are read again after later operations; " + hist,
		must: []string{"huge graphs", "results overwritten", "results read again", "states compared"}})
	register(&prop{id: "D09", quick: 3000000, thorough: 108000000, run: runD09,
		rule: "random sequences of set operations over several sets, each result compared with sorted slices and every set read again after each step; non-trivial: distinct sequences",
		must: []string{"large universes", "add", "delete", "intersection", "difference", "filter", "list", "copy", "with a nil set", "with an empty set", "results modified"}})
	register(&prop{id: "D10", quick: 10000, thorough: 360000, run: runD10, race: true, workers: 1,
		rule: "under the Go race detector: walks in flight while the owner queries, and independent graphs in independent goroutines; every answer compared with the model; " + hist,
		must: []string{"huge graphs", "walks in flight", "queries meanwhile", "independent graphs", "vertices delivered"}})
}

// /////////////////////////////////////
// Histories

type hop struct {
	kind string // addVertex, deleteVertex, addEdge, deleteEdge, reduce, query
	a, b int
	v    int
	what string
}

func (h hop) String() string {
	switch h.kind {
	case "addVertex":
		return fmt.Sprintf("addVertex(%d,%d)", h.a, h.v)
	case "addEdge", "deleteEdge":
		return fmt.Sprintf("%s(%d,%d)", h.kind, h.a, h.b)
	case "reduce":
		return "reduce()"
	case "query":
		return fmt.Sprintf("%s(%d,%d)", h.what, h.a, h.b)
	}
	return fmt.Sprintf("%s(%d)", h.kind, h.a)
}

var (
	idQueries   = []string{"parents", "children", "ancestors", "descendants"}
	allQueries  = []string{"leaves", "roots", "vertices"}
	miscQueries = []string{"getVertex", "isEdge", "order", "size", "text", "orderedAncestors", "orderedDescendants"}
)

// hist is a history under way: the real graph and the model of what it should
// hold.
type hist struct {
	c     *C
	r     *rng
	kind  int
	n     int
	g     graph
	m     *dmodel
	log   []string
	w     []int // weights of the operations
	odd   int   // percentage of empty and unknown identifiers
	rank  []int // a hidden order of identifiers
	along int   // percentage of edges along the hidden order
	edges int
	huge  bool      // many more vertices than usual
	do    func(hop) // how shape performs operations (nil: step)
}

func newHist(c *C, maxN int) *hist { return newHugeHist(c, maxN, 0, 0) }

// newHugeHist makes a history that, in some of a thousand cases, is about a
// graph of up to hugeN vertices.
func newHugeHist(c *C, maxN, hugeN, permille int) *hist {
	r := c.r
	n := 2 + r.n(maxN-1)
	if r.p(60) {
		n = 2 + r.n(7)
	}
	huge := hugeN > 0 && r.n(1000) < permille
	if huge {
		n = maxN + r.n(hugeN-maxN)
		c.saw("huge graphs", 1)
	}
	h := &hist{c: c, r: r, kind: r.n(kinds), n: n, m: newModel(n), odd: pick(r, 0, 3, 10), along: pick(r, 60, 90, 97)}
	for n > 250 && h.kind == 5 { // one byte
		h.kind = r.n(kinds)
	}
	h.g = newGraph(h.kind, n)
	h.w = []int{2 + r.n(8), r.n(5), 8 + r.n(20), r.n(8), r.n(3), r.n(14)}
	if huge {
		h.huge, h.odd, h.along = true, 1, 95
	}
	h.rank = perm(r, n+1)
	h.log = append(h.log, fmt.Sprintf("kind %d, %d identifiers:", h.kind, n))
	return h
}

func perm(r *rng, n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.n(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

func (h *hist) note(s string) {
	h.log = append(h.log, s)
}

// fail reports a violation with the history that led to it.
func (h *hist) fail(format string, a ...any) {
	h.c.input("history", strings.Join(h.log, " "))
	h.c.fail("%s\nafter: %s", fmt.Sprintf(format, a...), clipTo(strings.Join(h.log, " "), 3000))
}

func (h *hist) done() { h.c.eval(h.edges > 0, strings.Join(h.log, " ")) }

func (h *hist) id() int {
	if h.r.p(h.odd) {
		if h.r.p(40) {
			return 0
		}
		return 1 + h.r.n(h.n)
	}
	if ids := h.m.ids(); len(ids) > 0 {
		return ids[h.r.n(len(ids))]
	}
	return 1 + h.r.n(h.n)
}

func (h *hist) ends() (a, b int) {
	a, b = h.id(), h.id()
	for try := 0; a == b && try < 4 && !h.r.p(3); try++ {
		b = h.id()
	}
	if h.r.p(h.along) && h.rank[a] > h.rank[b] {
		a, b = b, a
	}
	return
}

func (h *hist) pickOp() hop {
	switch h.r.weighted(h.w...) {
	case 0:
		id := 1 + h.r.n(h.n)
		if h.r.p(h.odd) {
			id = h.id()
		} else {
			for try := 0; try < 6; try++ {
				if _, in := h.m.vals[id]; !in {
					break
				}
				id = 1 + h.r.n(h.n)
			}
		}
		return hop{kind: "addVertex", a: id, v: h.r.n(60)}
	case 1:
		return hop{kind: "deleteVertex", a: h.id()}
	case 2:
		a, b := h.ends()
		return hop{kind: "addEdge", a: a, b: b}
	case 3:
		if es := h.m.edgeList(); len(es) > 0 && !h.r.p(15) {
			e := es[h.r.n(len(es))]
			if h.r.p(8) {
				e[0], e[1] = e[1], e[0]
			}
			return hop{kind: "deleteEdge", a: e[0], b: e[1]}
		}
		a, b := h.ends()
		return hop{kind: "deleteEdge", a: a, b: b}
	case 4:
		return hop{kind: "reduce"}
	}
	return h.pickQuery()
}

func (h *hist) pickQuery() hop {
	q := hop{kind: "query", a: h.id(), b: h.id()}
	switch h.r.n(4) {
	case 0:
		q.what = pick(h.r, miscQueries...)
	case 1:
		q.what = pick(h.r, allQueries...)
	default:
		q.what = pick(h.r, idQueries...)
	}
	return q
}

// perform runs an operation on a graph. A query gives its answer as text.
func perform(g graph, o hop) (answer string, err error) {
	switch o.kind {
	case "addVertex":
		return "", g.addVertex(o.a, o.v)
	case "deleteVertex":
		return "", g.deleteVertex(o.a)
	case "addEdge":
		return "", g.addEdge(o.a, o.b)
	case "deleteEdge":
		return "", g.deleteEdge(o.a, o.b)
	case "reduce":
		g.reduce()
		return "", nil
	}
	switch o.what {
	case "leaves", "roots", "vertices":
		return showMap(g.all(o.what).read()), nil
	case "getVertex":
		v, err := g.getVertex(o.a)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(v), nil
	case "isEdge":
		v, err := g.isEdge(o.a, o.b)
		if err != nil {
			return "", err
		}
		return fmt.Sprint(v), nil
	case "order":
		return fmt.Sprint(g.order()), nil
	case "size":
		return fmt.Sprint(g.size()), nil
	case "text":
		return sortedText(g.text()), nil
	case "orderedAncestors", "orderedDescendants":
		l, err := g.ordered(strings.ToLower(o.what[len("ordered"):]), o.a)
		if err != nil {
			return "", err
		}
		ids := l.read()
		sort.Ints(ids)
		return fmt.Sprint(ids), nil
	}
	coll, err := g.of(o.what, o.a)
	if err != nil {
		return "", err
	}
	return showMap(coll.read()), nil
}

// expect gives what an operation should answer, and applies it to the model.
// Of several errors that apply any will do.
func (m *dmodel) expect(g graph, o hop) (answer string, errs []error) {
	vertex := func() []error {
		if err := m.vertexErr(o.a); err != nil {
			return []error{err}
		}
		return nil
	}
	switch o.kind {
	case "addVertex":
		if o.a == 0 {
			return "", []error{dag.ErrVertexIDEmpty}
		}
		if _, in := m.vals[o.a]; in {
			return "", []error{dag.ErrVertexDuplicate}
		}
		m.vals[o.a] = o.v
		return "", nil
	case "deleteVertex":
		if errs := vertex(); errs != nil {
			return "", errs
		}
		m.deleteVertex(o.a)
		return "", nil
	case "addEdge":
		if errs := m.edgeErrs(o.a, o.b); errs != nil {
			return "", errs
		}
		if m.edges[[2]int{o.a, o.b}] {
			return "", []error{dag.ErrEdgeDuplicate}
		}
		if m.reach(o.b, o.a) {
			return "", []error{dag.ErrEdgeLoop}
		}
		m.edges[[2]int{o.a, o.b}] = true
		return "", nil
	case "deleteEdge":
		if errs := m.edgeErrs(o.a, o.b); errs != nil {
			return "", errs
		}
		if !m.edges[[2]int{o.a, o.b}] {
			return "", []error{dag.ErrEdgeNotFound}
		}
		delete(m.edges, [2]int{o.a, o.b})
		return "", nil
	case "reduce":
		m.edges = m.reduced()
		return "", nil
	}
	switch o.what {
	case "leaves", "roots", "vertices":
		return showMap(m.all(o.what)), nil
	case "order":
		return fmt.Sprint(len(m.vals)), nil
	case "size":
		return fmt.Sprint(len(m.edges)), nil
	case "text":
		return sortedText(m.text(g)), nil
	case "isEdge":
		if errs := m.edgeErrs(o.a, o.b); errs != nil {
			return "", errs
		}
		return fmt.Sprint(m.edges[[2]int{o.a, o.b}]), nil
	}
	if errs := vertex(); errs != nil {
		return "", errs
	}
	switch o.what {
	case "getVertex":
		return fmt.Sprint(m.vals[o.a]), nil
	case "orderedAncestors", "orderedDescendants":
		ids := []int{}
		for id := range m.distances(o.a, o.what == "orderedDescendants") {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		return fmt.Sprint(ids), nil
	}
	return showMap(m.of(o.what, o.a)), nil
}

func (m *dmodel) text(g graph) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "DAG Vertices: %d - Edges: %d\nVertices:\n", len(m.vals), len(m.edges))
	for id := range m.vals {
		fmt.Fprintf(&sb, "  %s\n", g.name(id))
	}
	sb.WriteString("Edges:\n")
	for e := range m.edges {
		fmt.Fprintf(&sb, "  %s -> %s\n", g.name(e[0]), g.name(e[1]))
	}
	return sb.String()
}

// sortedText sorts the rows of each part of a text rendering.
func sortedText(s string) string {
	parts := strings.SplitAfter(s, "\n")
	from := 0
	for i := 0; i <= len(parts); i++ {
		if i == len(parts) || !strings.HasPrefix(parts[i], "  ") {
			sort.Strings(parts[from:i])
			from = i + 1
		}
	}
	return strings.Join(parts, "")
}

// step performs an operation and keeps the model up with what happened.
func (h *hist) step(o hop) (answer string, err error) {
	h.note(o.String())
	defer h.crash()
	answer, err = perform(h.g, o)
	if o.kind == "query" {
		h.c.saw("query", 1)
		return
	}
	h.c.saw(o.kind, 1)
	if err == nil {
		switch o.kind {
		case "addVertex":
			h.m.vals[o.a] = o.v
		case "deleteVertex":
			h.m.deleteVertex(o.a)
		case "addEdge":
			h.m.edges[[2]int{o.a, o.b}] = true
			h.edges++
		case "deleteEdge":
			delete(h.m.edges, [2]int{o.a, o.b})
		case "reduce":
			h.m.edges = h.m.reduced()
		}
	}
	return
}

// crash turns a panic into a violation with its history.
func (h *hist) crash() {
	if e := recover(); e != nil {
		if f, ok := e.(failure); ok {
			panic(f)
		}
		if s := fmt.Sprint(e); strings.HasPrefix(s, "harness:") {
			panic(e)
		}
		h.fail("panic: %v", e)
	}
}

func (h *hist) length() int {
	if h.huge {
		return 5 + h.r.n(30)
	}
	return 10 + h.r.n(12+3*h.n)
}

// image renders everything that can be observed of a graph of n identifiers.
func image(g graph, n int) string {
	var sb strings.Builder
	row := func(o hop) {
		a, err := perform(g, o)
		if err != nil {
			a = "error: " + err.Error()
		}
		fmt.Fprintf(&sb, "%s: %s\n", o, a)
	}
	for _, q := range []string{"order", "size", "text", "leaves", "roots", "vertices"} {
		row(hop{kind: "query", what: q})
	}
	for id := 0; id <= n; id++ {
		for _, q := range []string{"getVertex", "parents", "children", "ancestors", "descendants", "orderedAncestors", "orderedDescendants"} {
			row(hop{kind: "query", what: q, a: id})
		}
	}
	if n <= 14 {
		for a := 0; a <= n; a++ {
			for b := 0; b <= n; b++ {
				row(hop{kind: "query", what: "isEdge", a: a, b: b})
			}
		}
	}
	return sb.String()
}

// observed reads vertices, values and edges back from the graph, without
// asking for ancestors or descendants.
func (h *hist) observed() *dmodel {
	defer h.crash()
	m := newModel(h.n)
	m.vals = h.g.all("vertices").read()
	for id := range m.vals {
		if id <= 0 {
			h.fail("the graph holds a vertex that was never added")
		}
		ch, err := h.g.of("children", id)
		if err != nil {
			h.fail("children of known vertex %d: %v", id, err)
		}
		for to := range ch.read() {
			m.edges[[2]int{id, to}] = true
		}
	}
	return m
}

// seedGraph fills the graph with a shape.
func (h *hist) shape() {
	do := h.do
	if do == nil {
		do = func(o hop) { h.step(o) }
	}
	present := h.r.p(50)
	for id := 1; id <= h.n; id++ {
		if present || h.r.p(75) {
			do(hop{kind: "addVertex", a: id, v: h.r.n(60)})
		}
	}
	ids := h.m.ids()
	sort.Slice(ids, func(i, j int) bool { return h.rank[ids[i]] < h.rank[ids[j]] })
	edge := func(i, j int) { do(hop{kind: "addEdge", a: ids[i], b: ids[j]}) }
	k := len(ids)
	if k < 2 {
		return
	}
	if h.huge && h.r.p(60) {
		h.wideShape(k, edge)
		return
	}
	switch h.r.n(7) {
	case 0: // chain
		for i := 1; i < k; i++ {
			edge(i-1, i)
		}
	case 1: // chain with shortcuts
		for i := 1; i < k; i++ {
			edge(i-1, i)
		}
		for t := h.r.n(2 * k); t > 0; t-- {
			if i := h.r.n(k - 1); i+2 < k {
				edge(i, i+2+h.r.n(k-i-2))
			}
		}
	case 2: // layers
		w := 1 + h.r.n(4)
		for i := range ids {
			for j := range ids {
				if j/w == i/w+1 && h.r.p(70) {
					edge(i, j)
				}
			}
		}
	case 3: // dense
		p := pick(h.r, 20, 50, 100)
		if k > 16 {
			p = 10
		}
		if k > 50 {
			p = 2
		}
		for i := range ids {
			for j := i + 1; j < k; j++ {
				if h.r.p(p) {
					edge(i, j)
				}
			}
		}
	case 4: // tree
		for i := 1; i < k; i++ {
			edge(h.r.n(i), i)
		}
	case 5: // diamonds
		for i := 0; i+3 < k; i += 3 {
			edge(i, i+1)
			edge(i, i+2)
			edge(i+1, i+3)
			edge(i+2, i+3)
		}
	case 6: // tree towards the root, and some more
		for i := 1; i < k; i++ {
			edge(i-1-h.r.n(i), i)
		}
		for t := h.r.n(k); t > 0; t-- {
			if i, j := h.r.n(k), h.r.n(k); i < j {
				edge(i, j)
			}
		}
	}
}

// wideShape adds edges between k vertices so that one of them has many
// children, many parents, or both.
func (h *hist) wideShape(k int, edge func(i, j int)) {
	share := pick(h.r, 100, 100, 90)
	switch h.r.n(4) {
	case 0: // one vertex above all
		for i := 1; i < k; i++ {
			if h.r.p(share) {
				edge(0, i)
			}
		}
	case 1: // one vertex below all
		for i := 0; i < k-1; i++ {
			if h.r.p(share) {
				edge(i, k-1)
			}
		}
	case 2: // both
		for i := 1; i < k-1; i++ {
			if h.r.p(share) {
				edge(0, i)
			}
			if h.r.p(share) {
				edge(i, k-1)
			}
		}
	case 3: // below all, and again below that
		m := k - 1 - h.r.n(k/3)
		for i := 0; i < m; i++ {
			if h.r.p(share) {
				edge(i, m)
			}
		}
		for i := m + 1; i < k; i++ {
			edge(m, i)
		}
	}
}

// warm asks for a few ancestors and descendants.
func (h *hist) warm(percent int) {
	for _, id := range h.m.ids() {
		if h.r.p(percent) {
			h.step(hop{kind: "query", what: pick(h.r, "ancestors", "descendants"), a: id})
		}
	}
}

// /////////////////////////////////////
// D01

func runD01(c *C) {
	h := newHugeHist(c, 40, 300, 4)
	model := newModel(h.n)
	do := func(o hop) {
		want, errs := model.expect(h.g, o)
		if o.kind != "query" {
			h.m = model // operations are chosen by the model
		}
		h.note(o.String())
		defer h.crash()
		got, err := perform(h.g, o)
		h.c.saw(o.kind, 1)
		for _, e := range errs {
			h.c.saw(e.Error(), 1)
		}
		if !sameErr(err, errs) {
			if len(errs) == 0 {
				h.fail("%s is refused: %v", o, err)
			}
			h.fail("%s reports %v, not %v", o, err, errs)
		}
		if err == nil && got != want {
			h.fail("%s answers %s, not %s", o, got, want)
		}
		if o.kind == "addEdge" && err == nil {
			h.edges++
		}
	}
	full := func() {
		h.c.saw("full comparisons", 1)
		for _, q := range []string{"order", "size", "text", "leaves", "roots", "vertices"} {
			do(hop{kind: "query", what: q})
		}
		for id := 0; id <= h.n; id++ {
			for _, q := range []string{"getVertex", "parents", "children", "ancestors", "descendants", "orderedAncestors", "orderedDescendants"} {
				do(hop{kind: "query", what: q, a: id})
			}
			for b := 0; b <= h.n && h.n <= 10; b++ {
				do(hop{kind: "query", what: "isEdge", a: id, b: b})
			}
		}
	}
	if h.huge {
		h.do = do
		h.shape()
	}
	for i := h.length(); i > 0; i-- {
		do(h.pickOp())
		if h.r.p(2) {
			full()
		}
	}
	k := len(h.log)
	full()
	h.log = h.log[:k]
	h.done()
}

// /////////////////////////////////////
// D02

func runD02(c *C) {
	h := newHugeHist(c, 30, 150, 3)
	h.along = pick(h.r, 50, 60, 90)
	if h.huge || h.r.p(60) {
		h.shape()
	}
	deleted := false
	for i := h.length(); i > 0; i-- {
		o := h.pickOp()
		if o.kind != "addEdge" {
			_, err := h.step(o)
			if err == nil && (o.kind == "deleteEdge" || o.kind == "deleteVertex") {
				deleted = true
			}
			continue
		}
		before := h.observed()
		_, err := h.step(o)
		if len(before.edgeErrs(o.a, o.b)) > 0 || before.edges[[2]int{o.a, o.b}] {
			continue // a matter of D01
		}
		if before.reach(o.b, o.a) {
			if !sameErr(err, []error{dag.ErrEdgeLoop}) {
				h.fail("%s closes a loop but answers %v", o, err)
			}
			c.saw("edges refused as loops", 1)
			continue
		}
		if err != nil {
			h.fail("%s closes no loop but is refused: %v", o, err)
		}
		c.saw("edges accepted", 1)
		if deleted {
			c.saw("edges accepted after deletions", 1)
		}
		if before.reach(o.a, o.b) {
			c.saw("edges accepted that close a triangle", 1)
		}
		if h.r.p(30) {
			h.acyclic()
		}
	}
	h.acyclic()
	for _, id := range h.m.ids() {
		for _, q := range []string{"ancestors", "descendants"} {
			m, err := h.g.of(q, id)
			if err != nil {
				continue
			}
			if _, in := m.read()[id]; in {
				h.fail("vertex %d is among its own %s", id, q)
			}
		}
	}
	h.done()
}

// acyclic sorts the observed edges topologically.
func (h *hist) acyclic() {
	m := h.observed()
	in := map[int]int{}
	for e := range m.edges {
		in[e[1]]++
	}
	adj := m.adjacency(true)
	var queue []int
	left := map[int]bool{}
	for id := range m.vals {
		left[id] = true
		if in[id] == 0 {
			queue = append(queue, id)
		}
	}
	for len(queue) > 0 {
		v := queue[0]
		queue = queue[1:]
		delete(left, v)
		for _, w := range adj[v] {
			if in[w]--; in[w] == 0 {
				queue = append(queue, w)
			}
		}
	}
	if len(left) > 0 {
		h.fail("the graph contains a cycle: %v", m.edgeList())
	}
}

// /////////////////////////////////////
// D03

func runD03(c *C) {
	h := newHugeHist(c, 14, 80, 4)
	h.odd = pick(h.r, 6, 15, 25)
	h.along = pick(h.r, 30, 60, 90)
	twin := newGraph(h.kind, h.n)
	if h.huge {
		h.do = func(o hop) {
			if _, err := h.step(o); err == nil {
				perform(twin, o)
			}
		}
		h.shape()
	}
	for i := h.length(); i > 0; i-- {
		o := h.pickOp()
		if h.r.p(10) && len(h.m.edges) > 0 { // an edge that is there, or its reverse
			es := h.m.edgeList()
			e := es[h.r.n(len(es))]
			o = hop{kind: "addEdge", a: e[0], b: e[1]}
			if h.r.p(50) {
				o.a, o.b = o.b, o.a
			}
		}
		if h.r.p(6) && len(h.m.vals) > 0 {
			ids := h.m.ids()
			o = hop{kind: "addVertex", a: ids[h.r.n(len(ids))], v: 60 + h.r.n(30)}
		}
		before := ""
		if h.r.p(25) && (!h.huge || h.r.p(30)) {
			before = image(h.g, h.n)
		}
		_, err := h.step(o)
		if err != nil {
			c.saw("refused "+o.kind, 1)
			c.saw("refused with: "+err.Error(), 1)
			if before != "" {
				c.saw("states compared", 1)
				if after := image(h.g, h.n); after != before {
					h.fail("%s is refused (%v) but changed the graph: %s", o, err, firstDifference(before, after))
				}
			}
		} else if _, err := perform(twin, o); err != nil {
			h.fail("%s is accepted, but without the refused operations before it: %v", o, err)
		}
		if h.r.p(10) {
			q := h.pickQuery()
			x, errX := perform(h.g, q)
			y, errY := perform(twin, q)
			if x != y || (errX == nil) != (errY == nil) {
				h.fail("%s answers %s %v, but without the refused operations %s %v", q, x, errX, y, errY)
			}
		}
	}
	c.saw("states compared", 1)
	if x, y := image(h.g, h.n), image(twin, h.n); x != y {
		h.fail("refused operations changed the graph: %s", firstDifference(y, x))
	}
	h.done()
}

// /////////////////////////////////////
// D04

func runD04(c *C) {
	h := newHugeHist(c, 30, 200, 5)
	h.along = 97
	h.odd = pick(h.r, 0, 0, 4)
	if h.huge || h.r.p(70) {
		h.shape()
	}
	last := ""
	gone := map[int]bool{}
	judge := func(id int, q string) {
		m := h.observed()
		if _, in := m.vals[id]; !in {
			return
		}
		h.note(fmt.Sprintf("%s(%d)", q, id))
		got, err := h.g.of(q, id)
		if err != nil {
			h.fail("%s of known vertex %d: %v", q, id, err)
		}
		want := map[int]int{}
		for v := range m.distances(id, q == "descendants") {
			want[v] = m.vals[v]
		}
		if g := got.read(); !sameMap(g, want) {
			h.fail("%s of %d are reported as %s, but over the current edges they are %s", q, id, showMap(g), showMap(want))
		}
		c.saw(q+" judged", 1)
		if last != "" {
			c.saw("judged after a "+last, 1)
		}
	}
	density := pick(h.r, 5, 20, 50, 100)
	for i := h.length(); i > 0; i-- {
		o := h.pickOp()
		if o.kind != "query" && h.r.p(40) {
			h.warm(density)
		}
		_, err := h.step(o)
		if err != nil {
			continue
		}
		switch o.kind {
		case "deleteEdge":
			last = "deleted edge"
		case "deleteVertex":
			last = "deleted vertex"
			gone[o.a] = true
		case "reduce":
			last = "reduction"
		case "addEdge":
			last = "added edge"
		case "addVertex":
			last = "added vertex"
			if gone[o.a] {
				c.saw("re-added vertices", 1)
				judge(o.a, "ancestors")
				judge(o.a, "descendants")
			}
		}
		if o.kind == "query" {
			continue
		}
		if h.r.p(60) {
			for t := 1 + h.r.n(3); t > 0; t-- {
				judge(h.id(), pick(h.r, "ancestors", "descendants"))
			}
		} else if h.r.p(20) {
			for _, id := range h.m.ids() {
				judge(id, "ancestors")
				judge(id, "descendants")
			}
		}
	}
	for _, id := range h.m.ids() {
		judge(id, "ancestors")
		judge(id, "descendants")
	}
	h.done()
}

// /////////////////////////////////////
// D05

func runD05(c *C) {
	h := newHugeHist(c, 40, 150, 5)
	h.along, h.odd = 98, 0
	if h.huge || h.r.p(80) {
		h.shape()
	}
	if h.r.p(50) {
		h.w[4] = 0
		for i := h.r.n(20 + h.n); i > 0; i-- {
			h.step(h.pickOp())
		}
	}
	rounds := 1 + h.r.n(3)
	for ; rounds > 0; rounds-- {
		h.warm(pick(h.r, 0, 0, 10, 50, 100))
		before := h.observed()
		_, err := h.step(hop{kind: "reduce"})
		if err != nil {
			h.fail("%v", err)
		}
		after := h.observed()
		c.saw("reductions", 1)
		if !sameMap(before.vals, after.vals) {
			h.fail("reduction changed the vertices: %s, then %s", showMap(before.vals), showMap(after.vals))
		}
		want := before.reduced()
		for e := range after.edges {
			if !before.edges[e] {
				h.fail("reduction added the edge %v", e)
			}
			if !want[e] {
				h.fail("reduction kept the edge %v, for which a longer path exists; edges before: %v", e, before.edgeList())
			}
		}
		for e := range want {
			if !after.edges[e] {
				h.fail("reduction removed the edge %v, for which no longer path exists; edges before: %v, after: %v", e, before.edgeList(), after.edgeList())
			}
		}
		c.saw("edges kept", len(want))
		c.saw("edges removed", len(before.edges)-len(want))
		if h.g.size() != len(want) {
			h.fail("the size is %d after a reduction to %d edges", h.g.size(), len(want))
		}
		h.m.edges = want
		// Both directions, and everything derived, agree with the rest.
		h.agrees("after the reduction", after)
		if h.r.p(50) {
			h.step(hop{kind: "reduce"})
			c.saw("reductions again", 1)
			again := h.observed()
			if len(again.edges) != len(after.edges) {
				h.fail("reducing again changed the edges from %v to %v", after.edgeList(), again.edgeList())
			}
			h.agrees("after the second reduction", after)
		}
		for i := h.r.n(8); i > 0; i-- {
			o := h.pickOp()
			m := h.observed()
			want, errs := m.expect(h.g, o)
			got, err := h.step(o)
			c.saw("operations after a reduction", 1)
			if !sameErr(err, errs) || err == nil && got != want {
				h.fail("after a reduction %s answers %s %v, not %s %v", o, got, err, want, errs)
			}
		}
	}
	h.done()
}

// agrees compares all queries with a set of vertices and edges.
func (h *hist) agrees(when string, m *dmodel) {
	ask := func(o hop) {
		want, errs := m.expect(h.g, o)
		got, err := perform(h.g, o)
		if !sameErr(err, errs) || err == nil && got != want {
			h.fail("%s %s answers %s %v, not %s %v", when, o, got, err, want, errs)
		}
	}
	for _, q := range []string{"order", "size", "text", "leaves", "roots", "vertices"} {
		ask(hop{kind: "query", what: q})
	}
	for _, id := range m.ids() {
		for _, q := range idQueries {
			ask(hop{kind: "query", what: q, a: id})
		}
	}
}

// /////////////////////////////////////
// D06

func runD06(c *C) {
	h := newHugeHist(c, 40, 420, 5)
	h.along, h.odd = 97, 0
	h.shape()
	if h.r.p(40) {
		for i := h.r.n(15); i > 0; i-- {
			h.step(h.pickOp())
		}
	}
	m := h.observed()
	ids := m.ids()
	rounds := 6
	for ; rounds > 0; rounds-- {
		what := pick(h.r, "ancestors", "descendants")
		if h.r.p(8) || len(ids) == 0 {
			id := 0
			for try := 0; try < 4 && h.r.p(70); try++ {
				if k := 1 + h.r.n(h.n); m.vertexErr(k) != nil {
					id = k
				}
			}
			want := []error{m.vertexErr(id)}
			if _, err := h.g.walk(what, id); !sameErr(err, want) {
				h.fail("walking the %s of %d reports %v, not %v", what, id, err, want)
			}
			if _, err := h.g.ordered(what, id); !sameErr(err, want) {
				h.fail("listing the ordered %s of %d reports %v, not %v", what, id, err, want)
			}
			c.saw("walks refused", 1)
			continue
		}
		id := ids[h.r.n(len(ids))]
		h.note(fmt.Sprintf("walk %s of %d", what, id))
		dist := m.distances(id, what == "descendants")
		var got []int
		if h.r.p(40) {
			l, err := h.g.ordered(what, id)
			if err != nil {
				h.fail("listing the ordered %s of %d: %v", what, id, err)
			}
			got = l.read()
			c.saw("lists", 1)
		} else {
			w, err := h.g.walk(what, id)
			if err != nil {
				h.fail("walking the %s of %d: %v", what, id, err)
			}
			speed := h.r.n(4)
			for {
				switch speed {
				case 1:
					runtime.Gosched()
				case 2:
					if h.r.p(3) {
						time.Sleep(time.Duration(h.r.n(50)) * time.Microsecond)
					}
				}
				v, ok := w.recv()
				if !ok {
					break
				}
				got = append(got, v)
				if len(got) > 2*h.n+2 {
					break
				}
			}
			c.saw("streams", 1)
		}
		h.judgeWalk(what, id, got, dist)
	}
	h.done()
}

func (h *hist) judgeWalk(what string, id int, got []int, dist map[int]int) {
	seen := map[int]bool{}
	at := 0
	for _, v := range got {
		d, in := dist[v]
		switch {
		case v == id:
			h.fail("the %s of %d include itself: %v", what, id, got)
		case !in:
			h.fail("the walk over the %s of %d delivers %d, which is not one of them: %v", what, id, v, got)
		case seen[v]:
			h.fail("the walk over the %s of %d delivers %d twice: %v", what, id, v, got)
		case d < at:
			h.fail("the walk over the %s of %d delivers %d at distance %d after one at distance %d: %v; edges %v", what, id, v, d, at, got, h.m.edgeList())
		}
		seen[v] = true
		at = d
	}
	if len(got) != len(dist) {
		h.fail("the walk over the %s of %d ends after %v, with %d of %d missing", what, id, got, len(dist)-len(got), len(dist))
	}
	h.c.saw("vertices delivered", len(got))
	if at >= 3 {
		h.c.saw("walks three or more levels deep", 1)
	}
}

// /////////////////////////////////////
// D07

const dagFrame = "etxe/pkg/dag."

// walkers counts the goroutines with frames of the package.
func walkers() (int, string) {
	s := allStacks()
	n := 0
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, dagFrame) {
			n++
		}
	}
	return n, s
}

func runD07(c *C) {
	h := newHugeHist(c, 24, 300, 15)
	h.along, h.odd = 97, 0
	h.shape()
	m := h.m
	ids := m.ids()
	if len(ids) == 0 {
		return
	}
	// Some noise for the scheduler.
	procs := pick(h.r, 1, 2, 4, 8)
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	noise := make(chan struct{})
	for i := h.r.n(3); i > 0; i-- {
		go func() {
			for {
				select {
				case <-noise:
					return
				default:
					runtime.Gosched()
				}
			}
		}()
	}
	var wg sync.WaitGroup
	problems := make(chan string, 64)
	counts := make(chan string, 1024)
	type plan struct {
		what         string
		id, k, total int
		how          int // 0 send true, 1 send false, 2 close, 3 nothing (consume all)
		leave        bool
		pause        int
		dist         map[int]int
		w            *walkChans
		late         bool // an extra goroutine signals while the consumer receives
	}
	for i := 1 + h.r.n(6); i > 0; i-- {
		p := plan{what: pick(h.r, "ancestors", "descendants"), id: ids[h.r.n(len(ids))], how: h.r.n(4), leave: h.r.p(50), pause: h.r.n(4)}
		p.dist = m.distances(p.id, p.what == "descendants")
		p.total = len(p.dist)
		p.k = h.r.n(p.total + 1)
		if h.r.p(15) {
			p.k = p.total
		}
		p.late = h.r.p(15)
		w, err := h.g.walk(p.what, p.id)
		if err != nil {
			h.fail("walking the %s of %d: %v", p.what, p.id, err)
		}
		p.w = w
		h.note(fmt.Sprintf("walk(%s of %d, %d of %d, how %d, leave %v)", p.what, p.id, p.k, p.total, p.how, p.leave))
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad := func(format string, a ...any) {
				problems <- fmt.Sprintf("walk over the %s of %d (%d of them): ", p.what, p.id, p.total) + fmt.Sprintf(format, a...)
			}
			defer func() {
				if e := recover(); e != nil {
					bad("signalling panics: %v", e)
				}
			}()
			seen := map[int]bool{}
			take := func() bool {
				v, ok := p.w.recv()
				if !ok {
					return false
				}
				if _, in := p.dist[v]; !in || seen[v] {
					bad("delivers %d, which is not one of them or was delivered before", v)
				}
				seen[v] = true
				return true
			}
			sleep := func() {
				switch p.pause {
				case 1:
					runtime.Gosched()
				case 2:
					time.Sleep(20 * time.Microsecond)
				case 3:
					time.Sleep(300 * time.Microsecond)
				}
			}
			if p.how == 3 {
				for take() {
				}
				if len(seen) != p.total {
					bad("ended after %d without a stop", len(seen))
				}
				counts <- "consumed entirely"
				return
			}
			signal := func() {
				if p.how == 2 {
					close(p.w.signal)
					counts <- "stopped by closing"
					return
				}
				select {
				case p.w.signal <- p.how == 0:
				case <-time.After(20 * time.Second):
					bad("signalling blocks after %d deliveries", len(seen))
				}
				counts <- "stopped by sending"
			}
			if p.late {
				// The signal comes from elsewhere while this consumer receives.
				done := make(chan struct{})
				go func() {
					defer close(done)
					defer func() {
						if e := recover(); e != nil {
							bad("signalling panics: %v", e)
						}
					}()
					sleep()
					signal()
				}()
				for take() {
					runtime.Gosched()
				}
				<-done
				return
			}
			for len(seen) < p.k {
				if !take() {
					bad("ended after %d without a stop", len(seen))
					return
				}
			}
			switch {
			case p.k == 0:
				counts <- "stopped before the first"
			case p.k == p.total:
				counts <- "stopped after the last"
			default:
				counts <- "stopped in between"
			}
			sleep()
			signal()
			if p.leave {
				counts <- "consumers that left"
				return
			}
			sleep()
			more := 0
			for take() {
				if more++; more > 1 {
					bad("delivers %d more vertices after a stop at %d", more, p.k)
					for take() {
					}
					return
				}
			}
			counts <- "consumers that went on"
		}()
	}
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	select {
	case <-finished:
	case <-time.After(40 * time.Second):
		_, s := walkers()
		h.fail("a consumer is stuck\n%s", clipTo(s, 6000))
	}
	close(noise)
	close(counts)
	for what := range counts {
		c.saw(what, 1)
	}
	select {
	case p := <-problems:
		h.fail("%s", p)
	default:
	}
	// Every walk was stopped or consumed: nothing stays.
	deadline := time.Now().Add(15 * time.Second)
	for i := 0; ; i++ {
		n, s := walkers()
		if n == 0 {
			break
		}
		if time.Now().After(deadline) {
			h.fail("%d goroutines of walks survive\n%s", n, clipTo(s, 6000))
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Millisecond)
		}
	}
	c.saw("quiet", 1)
	h.done()
}

// /////////////////////////////////////
// D08

func runD08(c *C) {
	h := newHugeHist(c, 16, 100, 4)
	h.along = 95
	twin := newGraph(h.kind, h.n)
	type kept struct {
		what string
		read func() string
		want string
	}
	var keep []kept
	both := func(o hop) {
		x, errX := h.step(o)
		y, errY := perform(twin, o)
		if x != y || (errX == nil) != (errY == nil) {
			h.fail("%s answers %s %v, but %s %v on a graph whose results nobody touched", o, x, errX, y, errY)
		}
	}
	overwritten := false
	if h.huge {
		h.do = both
		h.shape()
	}
	for i := h.length(); i > 0; i-- {
		both(h.pickOp())
		if h.r.p(50) {
			var read func() string
			var clobber func(*rng)
			what := pick(h.r, "leaves", "roots", "vertices", "parents", "children", "ancestors", "descendants", "ordered ancestors", "ordered descendants")
			id := h.id()
			switch what {
			case "leaves", "roots", "vertices":
				cl := h.g.all(what)
				read, clobber = func() string { return showMap(cl.read()) }, cl.clobber
			case "ordered ancestors", "ordered descendants":
				l, err := h.g.ordered(strings.TrimPrefix(what, "ordered "), id)
				if err != nil {
					continue
				}
				read, clobber = func() string { return fmt.Sprint(l.read()) }, l.clobber
			default:
				cl, err := h.g.of(what, id)
				if err != nil {
					continue
				}
				read, clobber = func() string { return showMap(cl.read()) }, cl.clobber
			}
			if h.r.p(50) {
				h.note(fmt.Sprintf("clobber(%s of %d)", what, id))
				clobber(h.r)
				overwritten = true
				c.saw("results overwritten", 1)
				if h.r.p(30) {
					h.sameAs(twin)
				}
			}
			keep = append(keep, kept{fmt.Sprintf("%s of %d", what, id), read, read()})
		}
		if len(keep) > 0 {
			k := keep[h.r.n(len(keep))]
			c.saw("results read again", 1)
			if now := k.read(); now != k.want {
				h.fail("a result returned before (%s) changed from %s to %s", k.what, k.want, now)
			}
		}
	}
	for _, k := range keep {
		c.saw("results read again", 1)
		if now := k.read(); now != k.want {
			h.fail("a result returned before (%s) changed from %s to %s", k.what, k.want, now)
		}
	}
	if overwritten {
		h.sameAs(twin)
	}
	h.done()
}

func (h *hist) sameAs(twin graph) {
	defer h.crash()
	h.c.saw("states compared", 1)
	if x, y := image(h.g, h.n), image(twin, h.n); x != y {
		h.fail("modifying results changed the graph: %s", firstDifference(y, x))
	}
}

// /////////////////////////////////////
// D09

func runD09(c *C) {
	if c.r.p(50) {
		setHistory(c, func(i int) int { return i - 3 })
	} else if c.r.p(50) {
		setHistory(c, func(i int) string { return strings.Repeat("s", i) })
	} else {
		setHistory(c, func(i int) structKey { return structKey{i / 2, strings.Repeat("b", i%2)} })
	}
}

const maxUniverse = 256

// bits is a set of small numbers.
type bits [maxUniverse / 64]uint64

func (b *bits) set(i int)     { b[i/64] |= 1 << (i % 64) }
func (b *bits) unset(i int)   { b[i/64] &^= 1 << (i % 64) }
func (b bits) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }
func (b bits) and(o bits) bits {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b bits) minus(o bits) bits {
	for i := range b {
		b[i] &^= o[i]
	}
	return b
}
func (b bits) String() string {
	var sb strings.Builder
	for i := range b {
		if b[i] != 0 || i == 0 {
			fmt.Fprintf(&sb, "%d:%x ", i, b[i])
		}
	}
	return strings.TrimSpace(sb.String())
}

func setHistory[T comparable](c *C, elem func(int) T) {
	r := c.r
	universe := 12
	if r.n(1000) < 8 {
		universe = 13 + r.n(maxUniverse-12)
		c.saw("large universes", 1)
	}
	elems := make([]T, universe)
	back := map[T]int{}
	for i := range elems {
		elems[i] = elem(i)
		back[elems[i]] = i
	}
	type entry struct {
		s    dag.Set[T]
		want bits
	}
	var log []string
	fail := func(format string, a ...any) {
		c.input("history", strings.Join(log, "; "))
		c.fail("%s\nafter: %s", fmt.Sprintf(format, a...), strings.Join(log, "; "))
	}
	check := func(i int, e entry, what string) {
		n := 0
		for b := 0; b < universe; b++ {
			want := e.want.has(b)
			if want {
				n++
			}
			if got := e.s.Includes(elems[b]); got != want {
				fail("%s: set %d includes element %d: %v, should be %v", what, i, b, got, want)
			}
		}
		if len(e.s) != n {
			fail("%s: set %d has %d elements, should have %d", what, i, len(e.s), n)
		}
		for k, v := range e.s {
			if k != v {
				fail("%s: set %d holds element %v under %v", what, i, v, k)
			}
		}
	}
	sets := []entry{{nil, bits{}}, {dag.Set[T]{}, bits{}}}
	for i := 0; i < 2+r.n(3); i++ {
		e := entry{dag.Set[T]{}, bits{}}
		for b := 0; b < universe; b++ {
			if r.p(pick(r, 10, 40, 80)) {
				e.s.Add(elems[b])
				e.want.set(b)
				c.saw("add", 1)
			}
		}
		log = append(log, fmt.Sprintf("set %d = %s", len(sets), e.want))
		sets = append(sets, e)
	}
	for step := 4 + r.n(14); step > 0; step-- {
		i, j := r.n(len(sets)), r.n(len(sets))
		x, y := sets[i], sets[j]
		what := pick(r, "add", "delete", "intersection", "difference", "filter", "list", "copy")
		if x.s == nil && what == "add" {
			continue
		}
		b := r.n(universe)
		log = append(log, fmt.Sprintf("%s(%d,%d,%d)", what, i, j, b))
		c.saw(what, 1)
		if x.s == nil || (what == "intersection" || what == "difference") && y.s == nil {
			c.saw("with a nil set", 1)
		}
		if len(x.s) == 0 && x.s != nil || len(y.s) == 0 && y.s != nil {
			c.saw("with an empty set", 1)
		}
		var res *entry
		switch what {
		case "add":
			x.s.Add(elems[b])
			sets[i].want.set(b)
		case "delete":
			x.s.Delete(elems[b])
			sets[i].want.unset(b)
		case "intersection":
			res = &entry{x.s.Intersection(y.s), x.want.and(y.want)}
		case "difference":
			res = &entry{x.s.Difference(y.s), x.want.minus(y.want)}
		case "filter":
			keep := bits{}
			for k := range keep {
				keep[k] = r.next()
			}
			res = &entry{x.s.Filter(func(v T) bool {
				k, ok := back[v]
				if !ok || !x.want.has(k) {
					fail("filter asks about %v, which is not an element", v)
				}
				return keep.has(k)
			}), x.want.and(keep)}
		case "copy":
			res = &entry{x.s.Copy(), x.want}
		case "list":
			l := x.s.List()
			var got bits
			for _, v := range l {
				k, ok := back[v]
				if !ok || got.has(k) {
					fail("list %v has a wrong or repeated element", l)
				}
				got.set(k)
			}
			if got != x.want {
				fail("list gives %s, should be %s", got, x.want)
			}
			for k := range l {
				l[k] = elems[r.n(universe)]
			}
		}
		for k := range sets {
			check(k, sets[k], what)
		}
		if res == nil {
			continue
		}
		check(-1, *res, "result of "+what)
		if res.s == nil {
			fail("%s(%d,%d) gives a nil set, to which nothing can be added", what, i, j)
		}
		// The result belongs to the caller.
		t := r.n(universe)
		res.s.Add(elems[t])
		res.s.Delete(elems[(t+1)%universe])
		res.want.set(t)
		res.want.unset((t + 1) % universe)
		c.saw("results modified", 1)
		for k := range sets {
			check(k, sets[k], "after modifying the result of "+what)
		}
		if len(sets) < 9 {
			sets = append(sets, *res)
			log = append(log, fmt.Sprintf("set %d = that with %d and without %d", len(sets)-1, t, (t+1)%universe))
		}
	}
	c.eval(true, strings.Join(log, "; "))
}

// /////////////////////////////////////
// D10

func runD10(c *C) {
	old := runtime.GOMAXPROCS(pick(c.r, 2, 4, 8))
	defer runtime.GOMAXPROCS(old)
	owners := 1 + c.r.n(3)
	if owners > 1 {
		c.saw("independent graphs", owners)
	}
	var wg sync.WaitGroup
	results := make([]any, owners)
	subs := make([]*C, owners)
	stats := make([]*stats, owners)
	for i := 0; i < owners; i++ {
		i := i
		sub := &C{p: c.p, idx: c.idx, r: c.r.fork(), s: newStats()}
		stats[i] = sub.s
		subs[i] = sub
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				results[i] = recover()
			}()
			owner(sub)
		}()
	}
	wg.Wait()
	for i := range results {
		if results[i] != nil {
			c.inputs = subs[i].inputs
			panic(results[i])
		}
	}
	for _, s := range stats {
		c.s.merge(s)
	}
}

// owner makes a graph and queries it while walks over it are in flight.
func owner(c *C) {
	h := newHugeHist(c, 24, 150, 15)
	h.along, h.odd = 97, 0
	h.shape()
	for round := 1 + h.r.n(3); round > 0; round-- {
		m := h.m
		ids := m.ids()
		if len(ids) == 0 {
			break
		}
		type flight struct {
			what string
			id   int
			got  []int
			ask  bool
		}
		var flights []*flight
		var wg sync.WaitGroup
		for i := 2 + h.r.n(6); i > 0; i-- {
			f := &flight{what: pick(h.r, "ancestors", "descendants"), id: ids[h.r.n(len(ids))]}
			w, err := h.g.walk(f.what, f.id)
			if err != nil {
				h.fail("walking the %s of %d: %v", f.what, f.id, err)
			}
			flights = append(flights, f)
			speed := h.r.n(3)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					if speed == 1 {
						runtime.Gosched()
					} else if speed == 2 {
						time.Sleep(10 * time.Microsecond)
					}
					v, ok := w.recv()
					if !ok || len(f.got) > 2*h.n {
						return
					}
					f.got = append(f.got, v)
				}
			}()
			c.saw("walks in flight", 1)
			if h.r.p(50) {
				h.ask(m)
			}
		}
		for i := 4 + h.r.n(20); i > 0; i-- {
			h.ask(m)
			if h.r.p(20) {
				runtime.Gosched()
			}
		}
		wg.Wait()
		for _, f := range flights {
			h.judgeWalk(f.what, f.id, f.got, m.distances(f.id, f.what == "descendants"))
		}
		// All walks have ended: the owner may change the graph again.
		for i := h.r.n(10); i > 0; i-- {
			h.step(h.pickOp())
		}
	}
	h.done()
}

// ask makes a query and judges its answer.
func (h *hist) ask(m *dmodel) {
	q := h.pickQuery()
	want, errs := m.expect(h.g, q)
	got, err := h.step(q)
	h.c.saw("queries meanwhile", 1)
	if !sameErr(err, errs) || err == nil && got != want {
		h.fail("with walks in flight %s answers %s %v, not %s %v", q, got, err, want, errs)
	}
}
