//go:build verif

// Package vspec is the vocabulary of the contracts. Every function is
// executable, so a contract can also be evaluated on concrete values; the
// verifier interprets the same names symbolically.
package vspec

import (
	"fmt"
	"reflect"
	"sort"
)

// Entry is one key with its value.
type Entry[K comparable, V any] struct {
	Key K
	Val V
}

// FilterMap keeps f's results for the elements it accepts, in order.
func FilterMap[A, B any](s []A, f func(A) (B, bool)) []B {
	out := []B{}
	for _, a := range s {
		if b, ok := f(a); ok {
			out = append(out, b)
		}
	}
	return out
}

// FilterMapI also passes the position.
func FilterMapI[A, B any](s []A, f func(int, A) (B, bool)) []B {
	out := []B{}
	for i, a := range s {
		if b, ok := f(i, a); ok {
			out = append(out, b)
		}
	}
	return out
}

func Filter[A any](s []A, f func(A) bool) []A {
	out := []A{}
	for _, a := range s {
		if f(a) {
			out = append(out, a)
		}
	}
	return out
}

func Map[A, B any](s []A, f func(A) B) []B {
	out := []B{}
	for _, a := range s {
		out = append(out, f(a))
	}
	return out
}

func MapI[A, B any](s []A, f func(int, A) B) []B {
	out := []B{}
	for i, a := range s {
		out = append(out, f(i, a))
	}
	return out
}

func FlatMap[A, B any](s []A, f func(A) []B) []B {
	out := []B{}
	for _, a := range s {
		out = append(out, f(a)...)
	}
	return out
}

// Find is the index of the first element that satisfies f, or -1.
func Find[A any](s []A, f func(A) bool) int {
	for i, a := range s {
		if f(a) {
			return i
		}
	}
	return -1
}

func Exists[A any](s []A, f func(A) bool) bool { return Find(s, f) >= 0 }

func All[A any](s []A, f func(A) bool) bool {
	for _, a := range s {
		if !f(a) {
			return false
		}
	}
	return true
}

func Fold[S, A any](init S, s []A, f func(S, A) S) S {
	for _, a := range s {
		init = f(init, a)
	}
	return init
}

func FoldI[S, A any](init S, s []A, f func(S, int, A) S) S {
	for i, a := range s {
		init = f(init, i, a)
	}
	return init
}

// SortBy is the stable sort of s by less.
func SortBy[A any](s []A, less func(a, b A) bool) []A {
	out := append([]A{}, s...)
	sort.SliceStable(out, func(i, j int) bool { return less(out[i], out[j]) })
	return out
}

func Contains[A comparable](s []A, v A) bool {
	for _, a := range s {
		if a == v {
			return true
		}
	}
	return false
}

func Append[A any](s []A, a A) []A { return append(append([]A{}, s...), a) }

// Eq is structural equality; nil and empty slices and maps are the same.
func Eq[A any](a, b A) bool { return DeepEq(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem(), 0) }

func Implies(a, b bool) bool { return !a || b }

// Put is m with k set to v; m itself is not changed.
func Put[K comparable, V any](m map[K]V, k K, v V) map[K]V {
	out := make(map[K]V, len(m)+1)
	for a, b := range m {
		out[a] = b
	}
	out[k] = v
	return out
}

func Get[K comparable, V any](m map[K]V, k K) (V, bool) {
	v, ok := m[k]
	return v, ok
}

// MapValues is m with every value replaced by f of its key and value.
func MapValues[K comparable, V, W any](m map[K]V, f func(K, V) W) map[K]W {
	out := make(map[K]W, len(m))
	for k, v := range m {
		out[k] = f(k, v)
	}
	return out
}

// AllEntries: f holds for every entry of m.
func AllEntries[K comparable, V any](m map[K]V, f func(K, V) bool) bool {
	for k, v := range m {
		if !f(k, v) {
			return false
		}
	}
	return true
}

// SomeOrder: there is an order of m's entries for which f holds. Concretely
// all orders of small maps are tried; larger maps count as satisfied after a
// bounded number of attempts only if one of the attempts succeeds, and are
// otherwise given up on (true).
func SomeOrder[K comparable, V any](m map[K]V, f func([]Entry[K, V]) bool) bool {
	var es []Entry[K, V]
	for k, v := range m {
		es = append(es, Entry[K, V]{k, v})
	}
	n := 0
	found := false
	var rec func(i int)
	rec = func(i int) {
		if found || n > 5040 {
			return
		}
		if i == len(es) {
			n++
			if f(append([]Entry[K, V]{}, es...)) {
				found = true
			}
			return
		}
		for j := i; j < len(es); j++ {
			es[i], es[j] = es[j], es[i]
			rec(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	rec(0)
	return found || n > 5040
}

// DeepEq compares two values structurally.
func DeepEq(a, b reflect.Value, depth int) bool {
	if depth > 60 {
		return true
	}
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !DeepEq(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		it := a.MapRange()
		for it.Next() {
			bv := b.MapIndex(it.Key())
			if !bv.IsValid() || !DeepEq(it.Value(), bv, depth+1) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if a.Pointer() == b.Pointer() {
			return true
		}
		return DeepEq(a.Elem(), b.Elem(), depth+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		if e, ok := safeIface(a).(error); ok {
			if g, ok := safeIface(b).(error); ok {
				return e.Error() == g.Error()
			}
		}
		return DeepEq(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !DeepEq(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return true
	case reflect.Float32, reflect.Float64:
		x, y := a.Float(), b.Float()
		return x == y || x != x && y != y
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return true
}

func safeIface(v reflect.Value) (r any) {
	defer func() { _ = recover() }()
	if v.CanInterface() {
		return v.Interface()
	}
	return nil
}

// EqModOrder is equality for results whose slices come in no particular order
// because they are collected from maps.
func EqModOrder[A any](a, b A) bool {
	return canon(reflect.ValueOf(&a).Elem(), 0) == canon(reflect.ValueOf(&b).Elem(), 0)
}

func canon(v reflect.Value, depth int) string {
	if depth > 40 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		var es []string
		for i := 0; i < v.Len(); i++ {
			es = append(es, canon(v.Index(i), depth+1))
		}
		sort.Strings(es)
		return fmt.Sprintf("%q", es)
	case reflect.Map:
		var es []string
		for _, k := range v.MapKeys() {
			es = append(es, canon(k, depth+1)+":"+canon(v.MapIndex(k), depth+1))
		}
		sort.Strings(es)
		return fmt.Sprintf("%q", es)
	case reflect.Struct:
		s := "{"
		for i := 0; i < v.NumField(); i++ {
			s += canon(v.Field(i), depth+1) + ";"
		}
		return s + "}"
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + canon(v.Elem(), depth+1)
	}
	return fmt.Sprintf("%v", v)
}
