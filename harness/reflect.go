package main

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/hexbee-net/etxe/pkg/etx"
)

var (
	typeASTNode  = reflect.TypeOf(etx.ASTNode{})
	typePosition = reflect.TypeOf(etx.Position{})
	typeBigFloat = reflect.TypeOf(&big.Float{})
	typeNode     = reflect.TypeOf((*etx.Node)(nil)).Elem()
)

// nodeRef identifies a node: several structs may start at one address.
type nodeRef struct {
	ptr uintptr
	typ reflect.Type
}

func isNodeStruct(t reflect.Type) bool {
	return t.Kind() == reflect.Struct && reflect.PtrTo(t).Implements(typeNode)
}

// fieldChildren returns the nodes directly below the struct v (addressable),
// found by looking at its fields.
func fieldChildren(v reflect.Value) (out []reflect.Value) {
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if t.Field(i).Type == typeASTNode || !t.Field(i).IsExported() {
			continue
		}
		out = append(out, nodesIn(f)...)
	}
	return out
}

func nodesIn(f reflect.Value) (out []reflect.Value) {
	switch f.Kind() {
	case reflect.Pointer:
		if !f.IsNil() && f.Type() != typeBigFloat {
			out = append(out, nodesIn(f.Elem())...)
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			out = append(out, nodesIn(f.Index(i))...)
		}
	case reflect.Struct:
		if isNodeStruct(f.Type()) {
			out = append(out, f.Addr())
		} else if f.Type() != typePosition {
			out = append(out, fieldChildren(f)...)
		}
	}
	return out
}

// allNodes lists every node of the document, found through its fields.
func allNodes(a *etx.AST) (out []reflect.Value) {
	var rec func(v reflect.Value)
	rec = func(v reflect.Value) {
		out = append(out, v)
		for _, c := range fieldChildren(v.Elem()) {
			rec(c)
		}
	}
	for _, it := range a.Items {
		rec(reflect.ValueOf(it))
	}
	return out
}

// snapshotter writes a complete textual image of a tree.
type snapshotter struct {
	sb      strings.Builder
	ids     map[nodeRef]int
	parents bool
	plain   bool // no positions, no values of numbers
}

// contents renders v without positions and without the values of numbers.
func contents(v reflect.Value) string {
	s := &snapshotter{ids: map[nodeRef]int{}, plain: true}
	s.write(v)
	return s.sb.String()
}

// snapshot renders v with all its fields; with parents, the parent references
// are written as the number of the node they refer to.
func snapshot(v any, parents bool) string {
	s := &snapshotter{ids: map[nodeRef]int{}, parents: parents}
	s.write(reflect.ValueOf(v))
	return s.sb.String()
}

func (s *snapshotter) write(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			s.sb.WriteByte('-')
			return
		}
		if v.Type() == typeBigFloat {
			if s.plain {
				return
			}
			f := v.Interface().(*big.Float)
			s.sb.WriteString(f.Text('p', 0))
			s.sb.WriteByte('/')
			s.sb.WriteString(strconv.Itoa(int(f.Prec())))
			return
		}
		s.write(v.Elem())
	case reflect.Struct:
		t := v.Type()
		if t == typePosition {
			p := v.Interface().(etx.Position)
			fmt.Fprintf(&s.sb, "@%s:%d:%d:%d", p.Filename, p.Offset, p.Line, p.Column)
			return
		}
		s.sb.WriteString(t.Name())
		if v.CanAddr() && isNodeStruct(t) && t != typeASTNode {
			s.ids[nodeRef{v.Addr().Pointer(), t}] = len(s.ids)
		}
		s.sb.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch {
			case s.plain && f.Type() == typeASTNode:
			case f.Type() == typeNode:
				if s.parents {
					s.parent(f)
				}
			case !t.Field(i).IsExported():
				fmt.Fprintf(&s.sb, "%s:unexported", t.Field(i).Name)
			default:
				s.sb.WriteString(t.Field(i).Name)
				s.sb.WriteByte(':')
				s.write(f)
			}
			s.sb.WriteByte(' ')
		}
		s.sb.WriteByte('}')
	case reflect.Slice:
		s.sb.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			s.write(v.Index(i))
			s.sb.WriteByte(',')
		}
		s.sb.WriteByte(']')
	case reflect.String:
		s.sb.WriteString(strconv.Quote(v.String()))
	case reflect.Bool:
		s.sb.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.sb.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		s.sb.WriteString(strconv.FormatUint(v.Uint(), 10))
	case reflect.Float32, reflect.Float64:
		s.sb.WriteString(strconv.FormatFloat(v.Float(), 'x', -1, 64))
	case reflect.Interface:
		if v.IsNil() {
			s.sb.WriteByte('-')
		} else {
			s.write(v.Elem())
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(a, b int) bool { return fmt.Sprint(keys[a]) < fmt.Sprint(keys[b]) })
		s.sb.WriteString("map[")
		for _, k := range keys {
			s.write(k)
			s.sb.WriteByte(':')
			s.write(v.MapIndex(k))
			s.sb.WriteByte(',')
		}
		s.sb.WriteByte(']')
	default:
		s.sb.WriteString(v.Kind().String())
	}
}

func (s *snapshotter) parent(f reflect.Value) {
	if f.IsNil() {
		s.sb.WriteString("^nil")
		return
	}
	p := f.Elem()
	if p.Kind() != reflect.Pointer {
		fmt.Fprintf(&s.sb, "^(%s by value)", p.Type())
		return
	}
	if id, ok := s.ids[nodeRef{p.Pointer(), p.Type().Elem()}]; ok {
		fmt.Fprintf(&s.sb, "^%d", id)
	} else {
		fmt.Fprintf(&s.sb, "^(outside %s)", p.Type())
	}
}

// storage collects the addresses of everything mutable that v holds: structs
// behind pointers, slice arrays, maps, big numbers. With refs, parent
// references count as well.
func storage(v reflect.Value, refs bool, out map[uintptr]string, path string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		add(out, v.Pointer(), path)
		if v.Type() == typeBigFloat {
			if m := v.Elem().FieldByName("mant"); m.IsValid() && m.Kind() == reflect.Slice && m.Cap() > 0 {
				add(out, m.Pointer(), path+".mant")
			}
			return
		}
		storage(v.Elem(), refs, out, path)
	case reflect.Struct:
		if v.CanAddr() && v.Type().Size() > 0 {
			add(out, v.Addr().Pointer(), path)
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			name := path + "." + v.Type().Field(i).Name
			if f.Type() == typeNode {
				if refs && !f.IsNil() && f.Elem().Kind() == reflect.Pointer {
					add(out, f.Elem().Pointer(), name)
				}
				continue
			}
			storage(f, refs, out, name)
		}
	case reflect.Slice:
		if v.Cap() > 0 {
			add(out, v.Pointer(), path)
		}
		if size := v.Type().Elem().Size(); size > 0 {
			// What lies behind the last element belongs to the slice too.
			for i := v.Len(); i < v.Cap(); i++ {
				add(out, v.Pointer()+uintptr(i)*size, path+" (spare)")
			}
		}
		for i := 0; i < v.Len(); i++ {
			storage(v.Index(i), refs, out, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Map:
		if !v.IsNil() {
			add(out, v.Pointer(), path)
		}
	case reflect.Interface:
		if !v.IsNil() {
			storage(v.Elem(), refs, out, path)
		}
	}
}

func add(m map[uintptr]string, p uintptr, path string) {
	if _, ok := m[p]; !ok {
		m[p] = path
	}
}

// scramble overwrites everything below v that can be changed in place,
// bottom-up, without following parent references. It returns the number of
// fields changed.
func scramble(v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return 0
		}
		if v.Type() == typeBigFloat {
			f := v.Interface().(*big.Float)
			// In place: the digits are overwritten where they are.
			f.Add(f, big.NewFloat(1))
			f.Neg(f)
			return 1
		}
		return scramble(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() {
				continue
			}
			if f.Type() == typeNode {
				f.Set(reflect.Zero(f.Type()))
				n++
				continue
			}
			n += scramble(f)
			if f.Kind() == reflect.Pointer && !f.IsNil() {
				f.Set(reflect.Zero(f.Type()))
				n++
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i))
			if e := v.Index(i); e.Kind() == reflect.Pointer {
				e.Set(reflect.Zero(e.Type()))
				n++
			}
		}
	case reflect.String:
		v.SetString(v.String() + "~scrambled")
		n++
	case reflect.Bool:
		v.SetBool(!v.Bool())
		n++
	case reflect.Int, reflect.Int64:
		v.SetInt(v.Int() + 7777)
		n++
	}
	return n
}
