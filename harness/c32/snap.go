package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
)

// snapshot is everything that can be seen of a value: what all the methods say that need nothing, recursively.
type snapshot struct {
	b     strings.Builder
	seen  map[uintptr]int
	keep  []reflect.Value
	left  int
	parts int
}

const maxDepth = 60

func see(vs ...interface{}) (string, int) {
	s := &snapshot{seen: map[uintptr]int{}, left: 30000}
	for _, v := range vs {
		s.value(reflect.ValueOf(v), 0)
		s.b.WriteByte('\n')
	}
	return s.b.String(), s.parts
}

func ours(t reflect.Type) bool {
	if t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	return strings.HasPrefix(t.PkgPath(), "github.com/steve-care-software/steve/")
}

func (s *snapshot) value(v reflect.Value, depth int) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	s.left--
	if !v.IsValid() {
		s.b.WriteString("nil")
		return
	}
	if s.left < 0 || depth > maxDepth {
		s.b.WriteString("...")
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Ptr, reflect.Struct:
		if v.Kind() == reflect.Ptr && v.IsNil() {
			s.b.WriteString("nil")
			return
		}
		if !ours(t) {
			if v.Kind() == reflect.Ptr && t.Elem().Kind() != reflect.Struct {
				s.value(v.Elem(), depth+1)
				return
			}
			fmt.Fprintf(&s.b, "%v", v.Interface())
			return
		}
		if t.NumMethod() > 0 {
			s.methods(v, depth)
			return
		}
		if v.Kind() == reflect.Ptr {
			s.value(v.Elem(), depth+1)
			return
		}
		s.b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				s.b.WriteString(t.Field(i).Name + "=")
				s.value(v.Field(i), depth+1)
				s.b.WriteByte(' ')
			}
		}
		s.b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if t.Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&s.b, "%x", v.Interface())
			return
		}
		s.b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			s.value(v.Index(i), depth+1)
			s.b.WriteByte(' ')
		}
		s.b.WriteByte(']')
	case reflect.Map:
		lines := []string{}
		for _, k := range v.MapKeys() {
			one := &snapshot{seen: s.seen, left: s.left, keep: s.keep}
			one.value(k, depth+1)
			one.b.WriteString(":")
			one.value(v.MapIndex(k), depth+1)
			s.keep = one.keep
			lines = append(lines, one.b.String())
		}
		sort.Strings(lines)
		s.b.WriteString("map" + strings.Join(lines, " "))
	case reflect.Func, reflect.Chan:
		if f, ok := v.Interface().(view); ok {
			s.b.WriteString(f())
			return
		}
		fmt.Fprintf(&s.b, "%v", v.IsNil())
	default:
		fmt.Fprintf(&s.b, "%q", fmt.Sprint(v.Interface()))
	}
}

func (s *snapshot) methods(v reflect.Value, depth int) {
	if v.Kind() == reflect.Ptr {
		if n, ok := s.seen[v.Pointer()]; ok {
			fmt.Fprintf(&s.b, "^%d", n)
			return
		}
		s.seen[v.Pointer()] = len(s.seen)
		s.keep = append(s.keep, v)
	}
	t := v.Type()
	s.b.WriteByte('(')
	for i := 0; i < t.NumMethod(); i++ {
		m := t.Method(i)
		mt := v.Method(i).Type()
		if mt.NumIn() != 0 || mt.NumOut() == 0 || mt.NumOut() > 2 || m.Name == "HashTree" {
			continue
		}
		s.parts++
		s.b.WriteString(m.Name + "=")
		s.call(v.Method(i), depth)
		s.b.WriteByte(' ')
	}
	s.b.WriteByte(')')
}

func (s *snapshot) call(m reflect.Value, depth int) {
	out, ok := protect(m)
	if !ok {
		s.b.WriteString("panic")
		return
	}
	for _, x := range out {
		s.value(x, depth+1)
	}
}

// protect calls an accessor: one of a part that is not there may panic, and then it always does.
func protect(m reflect.Value) (out []reflect.Value, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return m.Call(nil), true
}
