package oracle

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"github.com/jhump/gopoet"
)

// Snapshot describes a value in full: everything reachable from it, including
// unexported fields and what a slice has room for, and where it is stored, but
// not the files that declarations belong to nor what gopoet's own structs hide.
// Of declarations it only has the identity, if shallow.
func Snapshot(v interface{}, shallow bool) string {
	s := &snapper{seen: map[seenKey]int{}, shallow: shallow}
	s.val(reflect.ValueOf([]interface{}{v}).Index(0), 0)
	return s.out.String()
}

// Shape is like Snapshot, but does not tell where values are stored.
func Shape(v interface{}) string {
	s := &snapper{seen: map[seenKey]int{}, noAddr: true}
	s.val(reflect.ValueOf([]interface{}{v}).Index(0), 0)
	return s.out.String()
}

var declTypes = map[reflect.Type]bool{
	reflect.TypeOf(gopoet.ConstSpec{}): true, reflect.TypeOf(gopoet.VarSpec{}): true, reflect.TypeOf(gopoet.TypeSpec{}): true,
	reflect.TypeOf(gopoet.FuncSpec{}): true, reflect.TypeOf(gopoet.InterfaceMethod{}): true, reflect.TypeOf(gopoet.ConstDecl{}): true,
	reflect.TypeOf(gopoet.VarDecl{}): true, reflect.TypeOf(gopoet.TypeDecl{}): true,
}

type seenKey struct {
	p uintptr
	t reflect.Type
	n int
}

type snapper struct {
	out    strings.Builder
	seen   map[seenKey]int
	noAddr bool
	// declarations are only identified
	shallow bool
}

var (
	fileType = reflect.TypeOf((*gopoet.GoFile)(nil))
	poetPath = fileType.Elem().PkgPath()
)

// typ describes a type name by what it tells about itself.
func (s *snapper) typ(t gopoet.TypeName, depth int) {
	if depth > 60 {
		s.out.WriteString("…")
		return
	}
	defer func(save bool) { s.noAddr = save }(s.noAddr)
	s.noAddr = true // it may hand out copies
	sub := func(v interface{}) { s.val(reflect.ValueOf([]interface{}{v}).Index(0), depth+1) }
	fmt.Fprintf(&s.out, "type%d(", t.Kind())
	switch t.Kind() {
	case gopoet.KindBasic:
		fmt.Fprint(&s.out, t.BasicKind())
	case gopoet.KindNamed:
		sub(t.Symbol())
	case gopoet.KindPtr, gopoet.KindSlice:
		sub(t.Elem())
	case gopoet.KindArray:
		fmt.Fprint(&s.out, t.Len(), " ")
		sub(t.Elem())
	case gopoet.KindMap:
		sub(t.Key())
		sub(t.Elem())
	case gopoet.KindChan:
		fmt.Fprint(&s.out, t.Dir(), " ")
		sub(t.Elem())
	case gopoet.KindFunc:
		sub(t.Signature())
	case gopoet.KindStruct:
		sub(t.Fields())
	case gopoet.KindInterface:
		sub(t.Embeds())
		sub(t.Methods())
	default:
		s.out.WriteString(t.String())
	}
	s.out.WriteString(")")
}

func (s *snapper) addr(what string, p uintptr) {
	s.out.WriteString(what)
	if !s.noAddr {
		fmt.Fprintf(&s.out, "%x", p)
	}
}

func (s *snapper) val(v reflect.Value, depth int) {
	if depth > 60 {
		s.out.WriteString("…")
		return
	}
	if !v.IsValid() {
		s.out.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			s.out.WriteString("nil")
			return
		}
		e := v.Elem()
		if e.Type().PkgPath() == poetPath || e.Kind() == reflect.Ptr && e.Type().Elem().PkgPath() == poetPath {
			if v.CanInterface() {
				if t, ok := v.Interface().(gopoet.TypeName); ok {
					s.typ(t, depth)
					return
				}
			}
		}
		s.out.WriteString(e.Type().String() + ":")
		s.val(e, depth+1)
	case reflect.Ptr:
		if v.IsNil() {
			s.out.WriteString("nil")
			return
		}
		if v.Type() == fileType {
			f := (*gopoet.GoFile)(v.UnsafePointer())
			fmt.Fprintf(&s.out, "file(%s %s)", f.Name, f.PackageName)
			return
		}
		if p := v.Type().Elem().PkgPath(); p == "reflect" || p == "internal/abi" || p == "go/types" || p == "text/template" {
			if s.noAddr {
				fmt.Fprint(&s.out, v.Type())
				return
			}
			fmt.Fprintf(&s.out, "%s@%p", v.Type(), v.UnsafePointer())
			return
		}
		if s.shallow && declTypes[v.Type().Elem()] {
			s.addr(v.Type().String(), v.Pointer())
			return
		}
		k := seenKey{v.Pointer(), v.Type(), 0}
		if n, ok := s.seen[k]; ok {
			fmt.Fprintf(&s.out, "#%d", n)
			return
		}
		s.seen[k] = len(s.seen)
		s.addr("&", v.Pointer())
		s.val(v.Elem(), depth+1)
		if s.noAddr {
			delete(s.seen, k) // only cycles matter
		}
	case reflect.Struct:
		s.out.WriteString("{")
		if !v.CanAddr() {
			a := reflect.New(v.Type()).Elem()
			if v.CanInterface() {
				a.Set(v)
				v = a
			}
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().PkgPath() == poetPath && !v.Type().Field(i).IsExported() {
				continue // also what is computed when it is needed
			}
			if !f.CanInterface() && f.CanAddr() {
				f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			s.val(f, depth+1)
			s.out.WriteString(",")
		}
		s.out.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			s.out.WriteString("nil")
			return
		}
		s.addr("", v.Pointer())
		if !s.noAddr && v.Cap() > v.Len() {
			fmt.Fprint(&s.out, v.Len(), "/")
			v = v.Slice(0, v.Cap())
		}
		fallthrough
	case reflect.Array:
		s.out.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			s.val(v.Index(i), depth+1)
			s.out.WriteString(",")
		}
		s.out.WriteString("]")
	case reflect.Map:
		if v.IsNil() {
			s.out.WriteString("nil")
			return
		}
		var l []string
		for _, k := range v.MapKeys() {
			n := &snapper{seen: map[seenKey]int{}, noAddr: s.noAddr, shallow: s.shallow}
			n.val(k, depth+1)
			n.out.WriteString(":")
			n.val(v.MapIndex(k), depth+1)
			l = append(l, n.out.String())
		}
		sort.Strings(l)
		s.addr("map", v.Pointer())
		fmt.Fprint(&s.out, l)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		s.addr("", v.Pointer())
	case reflect.String:
		fmt.Fprintf(&s.out, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(&s.out, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(&s.out, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(&s.out, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(&s.out, v.Float())
	default:
		fmt.Fprint(&s.out, v.Type())
	}
}
