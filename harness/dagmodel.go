package main

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/hexbee-net/etxe/pkg/dag"
)

// graph is an AcyclicGraph seen through small numbers: identifier 0 is the
// empty one, and values are numbers too.
type graph interface {
	addVertex(id, val int) error
	getVertex(id int) (int, error)
	deleteVertex(id int) error
	addEdge(a, b int) error
	isEdge(a, b int) (bool, error)
	deleteEdge(a, b int) error
	order() int
	size() int
	all(what string) *coll                 // leaves, roots, vertices
	of(what string, id int) (*coll, error) // parents, children, ancestors, descendants
	ordered(what string, id int) (*list, error)
	walk(what string, id int) (*walkChans, error)
	reduce()
	text() string
	name(id int) string
}

// coll is a returned map. Reading it again shows whether it changed.
type coll struct {
	read    func() map[int]int
	clobber func(r *rng)
}

type list struct {
	read    func() []int
	clobber func(r *rng)
}

type walkChans struct {
	recv   func() (id int, ok bool)
	signal chan bool
	raw    func() int // length of the buffered part
}

type adapter[K comparable, T any] struct {
	g     *dag.AcyclicGraph[K, T]
	keys  []K
	index map[K]int
	val   func(int) T
	unval func(any) int
}

func newAdapter[K comparable, T any](n int, key func(int) K, val func(int) T, unval func(any) int) graph {
	a := &adapter[K, T]{g: dag.NewAcyclicGraph[K, T](), index: map[K]int{}, val: val, unval: unval}
	var zero K
	a.keys = append(a.keys, zero)
	a.index[zero] = 0
	for i := 1; i <= n; i++ {
		k := key(i)
		if _, dup := a.index[k]; dup {
			panic("harness: duplicate key")
		}
		a.keys = append(a.keys, k)
		a.index[k] = i
	}
	return a
}

func (a *adapter[K, T]) id(k K) int {
	if i, ok := a.index[k]; ok {
		return i
	}
	return -1
}

func (a *adapter[K, T]) name(id int) string          { return fmt.Sprint(a.keys[id]) }
func (a *adapter[K, T]) addVertex(id, val int) error { return a.g.AddVertex(a.keys[id], a.val(val)) }
func (a *adapter[K, T]) deleteVertex(id int) error   { return a.g.DeleteVertex(a.keys[id]) }
func (a *adapter[K, T]) addEdge(x, y int) error      { return a.g.AddEdge(a.keys[x], a.keys[y]) }
func (a *adapter[K, T]) deleteEdge(x, y int) error   { return a.g.DeleteEdge(a.keys[x], a.keys[y]) }
func (a *adapter[K, T]) order() int                  { return a.g.GetOrder() }
func (a *adapter[K, T]) size() int                   { return a.g.GetSize() }
func (a *adapter[K, T]) reduce()                     { a.g.ReduceTransitively() }
func (a *adapter[K, T]) text() string                { return a.g.String() }

func (a *adapter[K, T]) isEdge(x, y int) (bool, error) { return a.g.IsEdge(a.keys[x], a.keys[y]) }

func (a *adapter[K, T]) getVertex(id int) (int, error) {
	v, err := a.g.GetVertex(a.keys[id])
	if err != nil {
		return 0, err
	}
	return a.unval(v), nil
}

func (a *adapter[K, T]) coll(m map[K]T) *coll {
	return &coll{
		read: func() map[int]int {
			out := make(map[int]int, len(m))
			for k, v := range m {
				out[a.id(k)] = a.unval(v)
			}
			return out
		},
		clobber: func(r *rng) {
			if m == nil {
				return
			}
			for k := range m {
				switch r.n(3) {
				case 0:
					delete(m, k)
				case 1:
					m[k] = a.val(900 + r.n(50))
				}
			}
			for i := 0; i < 3; i++ {
				m[a.keys[r.n(len(a.keys))]] = a.val(950 + r.n(49))
			}
		},
	}
}

func (a *adapter[K, T]) all(what string) *coll {
	switch what {
	case "leaves":
		return a.coll(a.g.GetLeaves())
	case "roots":
		return a.coll(a.g.GetRoots())
	}
	return a.coll(a.g.GetVertices())
}

func (a *adapter[K, T]) of(what string, id int) (*coll, error) {
	f := map[string]func(K) (map[K]T, error){
		"parents": a.g.GetParents, "children": a.g.GetChildren,
		"ancestors": a.g.GetAncestors, "descendants": a.g.GetDescendants,
	}[what]
	m, err := f(a.keys[id])
	if err != nil {
		return nil, err
	}
	return a.coll(m), nil
}

func (a *adapter[K, T]) ordered(what string, id int) (*list, error) {
	f := a.g.GetOrderedAncestors
	if what == "descendants" {
		f = a.g.GetOrderedDescendants
	}
	l, err := f(a.keys[id])
	if err != nil {
		return nil, err
	}
	return &list{
		read: func() []int {
			out := make([]int, len(l))
			for i, k := range l {
				out[i] = a.id(k)
			}
			return out
		},
		clobber: func(r *rng) {
			full := l[:cap(l)]
			for i := range full {
				full[i] = a.keys[r.n(len(a.keys))]
			}
		},
	}, nil
}

func (a *adapter[K, T]) walk(what string, id int) (*walkChans, error) {
	f := a.g.AncestorsWalker
	if what == "descendants" {
		f = a.g.DescendantsWalker
	}
	ids, sig, err := f(a.keys[id])
	if err != nil {
		return nil, err
	}
	return &walkChans{
		recv: func() (int, bool) {
			k, ok := <-ids
			if !ok {
				return 0, false
			}
			return a.id(k), true
		},
		signal: sig,
		raw:    func() int { return len(ids) },
	}, nil
}

type structKey struct {
	A int
	B string
}

// alike is a number written as its last digit in base 3.
type alike int

func (a alike) String() string { return fmt.Sprint("n", int(a)%3) }

type alikeError int

func (a alikeError) Error() string { return "error" }

// pointees is what identifiers that are pointers point to.
var pointees [1 << 16]int

// kinds is how many combinations of types newGraph knows.
const kinds = 10

// newGraph makes an empty graph with room for n identifiers, with one of
// several types of identifiers and values.
func newGraph(kind, n int) graph {
	num := func(v any) int { return v.(int) }
	ident := func(i int) int { return i }
	switch kind % kinds {
	case 1:
		return newAdapter(n, func(i int) int { return i*7 - 40*(i%2) }, func(i int) string { return fmt.Sprint(i) }, func(v any) int {
			var i int
			fmt.Sscan(v.(string), &i)
			return i
		})
	case 2:
		return newAdapter(n, func(i int) structKey { return structKey{i / 3, strings.Repeat("k", i%3+1)} }, ident, num)
	case 3:
		vals := make([]*int, 1000)
		at := map[*int]int{nil: 0}
		for i := 1; i < len(vals); i++ {
			vals[i] = new(int)
			at[vals[i]] = i
		}
		return newAdapter(n, func(i int) string { return strings.Repeat(" ", i%4) + fmt.Sprint(i) }, func(i int) *int { return vals[i] }, func(v any) int {
			p, ok := v.(*int)
			if i, in := at[p]; ok && in {
				return i
			}
			return -2
		})
	case 4:
		return newAdapter(n, func(i int) [2]uint8 { return [2]uint8{uint8(i >> 8), uint8(i)} }, func(i int) any {
			if i == 0 {
				return nil
			}
			return i
		}, func(v any) int {
			if v == nil {
				return 0
			}
			return v.(int)
		})
	case 6: // identifiers of an interface type: nil is the empty one
		return newAdapter(n, func(i int) any {
			switch i % 4 {
			case 0:
				return i
			case 1:
				return fmt.Sprint(i)
			case 2:
				return structKey{i, ""}
			}
			return [1]int64{int64(i)}
		}, ident, num)
	case 7: // pointers as identifiers
		return newAdapter(n, func(i int) *int { return &pointees[i] }, func(i int) []int { return pointees[:i:1000] }, func(v any) int {
			if l, ok := v.([]int); ok && cap(l) == 1000 {
				return len(l)
			}
			return -2
		})
	case 8: // identifiers of which several are written the same
		return newAdapter(n, func(i int) alike { return alike(i) }, func(i int) alike { return alike(i) }, func(v any) int { return int(v.(alike)) })
	case 9: // floating point, from the smallest number to infinity
		return newAdapter(n, func(i int) float64 {
			switch i {
			case 1:
				return math.SmallestNonzeroFloat64
			case 2:
				return math.Inf(-1)
			case 3:
				return math.Inf(1)
			}
			return float64(i)/8 - 2.8125
		}, func(i int) error {
			if i == 0 {
				return nil
			}
			return alikeError(i)
		}, func(v any) int {
			if v == nil {
				return 0
			}
			return int(v.(alikeError))
		})
	case 5:
		return newAdapter(n, func(i int) int8 { return int8(i - 128 + i/128) }, func(i int) structKey { return structKey{i, "v"} }, func(v any) int { return v.(structKey).A })
	}
	return newAdapter(n, func(i int) string { return fmt.Sprintf("v%d", i) }, ident, num)
}

// /////////////////////////////////////
// The model: a set of vertices with values and a set of edges.

type dmodel struct {
	n     int
	vals  map[int]int
	edges map[[2]int]bool
}

func newModel(n int) *dmodel { return &dmodel{n, map[int]int{}, map[[2]int]bool{}} }

func (m *dmodel) clone() *dmodel {
	o := newModel(m.n)
	for k, v := range m.vals {
		o.vals[k] = v
	}
	for e := range m.edges {
		o.edges[e] = true
	}
	return o
}

func (m *dmodel) vertexErr(id int) error {
	if id == 0 {
		return dag.ErrVertexIDEmpty
	}
	if _, ok := m.vals[id]; !ok {
		return dag.ErrVertexNotFound
	}
	return nil
}

// edgeErrs gives the documented errors that apply to a pair of ends.
func (m *dmodel) edgeErrs(a, b int) (out []error) {
	if a == 0 {
		out = append(out, dag.ErrEdgeSourceIDEmpty)
	} else if _, ok := m.vals[a]; !ok {
		out = append(out, dag.ErrEdgeSourceIDNotFound)
	}
	if b == 0 {
		out = append(out, dag.ErrEdgeTargetIDEmpty)
	} else if _, ok := m.vals[b]; !ok {
		out = append(out, dag.ErrEdgeTargetIDNotFound)
	}
	if a == b {
		out = append(out, dag.ErrEdgeSourceTargetIdentical)
	}
	return out
}

func (m *dmodel) next(id int, down bool) (out []int) {
	for e := range m.edges {
		if down && e[0] == id {
			out = append(out, e[1])
		}
		if !down && e[1] == id {
			out = append(out, e[0])
		}
	}
	sort.Ints(out)
	return out
}

func (m *dmodel) adjacency(down bool) map[int][]int {
	adj := map[int][]int{}
	for e := range m.edges {
		if down {
			adj[e[0]] = append(adj[e[0]], e[1])
		} else {
			adj[e[1]] = append(adj[e[1]], e[0])
		}
	}
	return adj
}

// distances gives the vertices that can be reached in one step or more.
func (m *dmodel) distances(id int, down bool) map[int]int {
	adj := m.adjacency(down)
	dist := map[int]int{}
	level := []int{id}
	for d := 1; len(level) > 0; d++ {
		var next []int
		for _, v := range level {
			for _, w := range adj[v] {
				if _, ok := dist[w]; !ok {
					dist[w] = d
					next = append(next, w)
				}
			}
		}
		level = next
	}
	return dist
}

func (m *dmodel) reach(a, b int) bool {
	_, ok := m.distances(a, true)[b]
	return ok
}

func (m *dmodel) withVals(ids []int) map[int]int {
	out := map[int]int{}
	for _, i := range ids {
		out[i] = m.vals[i]
	}
	return out
}

func (m *dmodel) of(what string, id int) map[int]int {
	switch what {
	case "parents":
		return m.withVals(m.next(id, false))
	case "children":
		return m.withVals(m.next(id, true))
	}
	out := map[int]int{}
	for v := range m.distances(id, what == "descendants") {
		out[v] = m.vals[v]
	}
	return out
}

func (m *dmodel) all(what string) map[int]int {
	out := map[int]int{}
	for id, v := range m.vals {
		out[id] = v
	}
	for e := range m.edges {
		switch what {
		case "leaves":
			delete(out, e[0])
		case "roots":
			delete(out, e[1])
		}
	}
	return out
}

func (m *dmodel) deleteVertex(id int) {
	delete(m.vals, id)
	for e := range m.edges {
		if e[0] == id || e[1] == id {
			delete(m.edges, e)
		}
	}
}

// reduced gives the edges without those for which a longer path exists.
func (m *dmodel) reduced() map[[2]int]bool {
	down := map[int]map[int]int{}
	for id := range m.vals {
		down[id] = m.distances(id, true)
	}
	adj := m.adjacency(true)
	out := map[[2]int]bool{}
	for e := range m.edges {
		longer := false
		for _, c := range adj[e[0]] {
			if c != e[1] {
				if _, ok := down[c][e[1]]; ok {
					longer = true
					break
				}
			}
		}
		if !longer {
			out[e] = true
		}
	}
	return out
}

func (m *dmodel) ids() []int {
	var out []int
	for id := range m.vals {
		out = append(out, id)
	}
	sort.Ints(out)
	return out
}

func (m *dmodel) edgeList() [][2]int {
	var out [][2]int
	for e := range m.edges {
		out = append(out, e)
	}
	sort.Slice(out, func(i, j int) bool {
		return out[i][0] < out[j][0] || out[i][0] == out[j][0] && out[i][1] < out[j][1]
	})
	return out
}

func sameErr(got error, want []error) bool {
	if len(want) == 0 {
		return got == nil
	}
	for _, w := range want {
		if errors.Is(got, w) {
			return true
		}
	}
	return false
}

func sameMap(a, b map[int]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func showMap(m map[int]int) string {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	var sb strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&sb, " %d=%d", k, m[k])
	}
	return "[" + strings.TrimPrefix(sb.String(), " ") + "]"
}
