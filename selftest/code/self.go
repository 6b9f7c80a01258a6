// Package selftest holds small functions that the generator must or must not
// verify: Ok… meets its contract, Bad… does not.
package selftest

import (
	"errors"
	"sort"
	"strings"
)

type Item struct {
	Key  string
	N    int
	Tags []string
	M    map[string]int
}

func OkFind(xs []Item, k string) *Item {
	for i := range xs {
		if xs[i].Key == k {
			return &xs[i]
		}
	}
	return nil
}

func BadFindLast(xs []Item, k string) *Item {
	var r *Item
	for i := range xs {
		if xs[i].Key == k {
			r = &xs[i]
		}
	}
	return r
}

func BadFindSkipsFirst(xs []Item, k string) *Item {
	for i := range xs {
		if i > 0 && xs[i].Key == k {
			return &xs[i]
		}
	}
	return nil
}

func OkFilter(xs []Item, n int) []Item {
	ret := make([]Item, 0, len(xs))
	for _, x := range xs {
		if x.N <= n {
			continue
		}
		ret = append(ret, x)
	}
	return ret
}

func BadFilterBreak(xs []Item, n int) []Item {
	ret := make([]Item, 0, len(xs))
	for _, x := range xs {
		if x.N <= n {
			break
		}
		ret = append(ret, x)
	}
	return ret
}

func BadFilterFirstDropped(xs []Item, n int) []Item {
	ret := []Item{}
	for i, x := range xs {
		if x.N <= n || i == 1000 {
			continue
		}
		ret = append(ret, x)
	}
	return ret
}

func BadFilterReturnEarly(xs []Item, n int) []Item {
	ret := []Item{}
	for _, x := range xs {
		if x.N > n {
			ret = append(ret, x)
		}
		if x.N == 77 {
			return ret
		}
	}
	return ret
}

func OkSum(xs []int) int {
	s := 0
	for i := 0; i < len(xs); i++ {
		s += xs[i]
	}
	return s
}

func BadSumFrom1(xs []int) int {
	s := 0
	for i := 1; i < len(xs); i++ {
		s += xs[i]
	}
	return s
}

func BadSumTwice(xs []int) int {
	s := 0
	for _, x := range xs {
		s += x
		if x < -5 {
			s += x
		}
	}
	return s
}

func OkIndex(xs []int, i int) int {
	if i < 0 || i >= len(xs) {
		return 0
	}
	return xs[i]
}

func BadIndex(xs []int, i int) int {
	if i < 0 || i > len(xs) {
		return 0
	}
	return xs[i]
}

func BadNil(p *Item) string { return p.Key }

func OkNil(p *Item) string {
	if p == nil {
		return ""
	}
	return p.Key
}

func BadNilMapWrite(m map[string]int, k string) {
	m[k] = 1
}

func OkMapWrite(m map[string]int, k string) {
	if m != nil {
		m[k] = 1
	}
}

// aliasing
func BadAliasSliceWrite(xs []int) int {
	ys := xs
	ys[0] = 5
	return xs[0]
}

func BadAliasAppend(xs []int) int {
	ys := append(xs, 1)
	zs := append(xs, 2)
	return ys[len(xs)] + zs[len(xs)]
}

func BadAliasShort(xs []int) int {
	ys := xs[:0]
	for _, x := range xs {
		if x > 3 {
			ys = append(ys, x)
		}
	}
	_ = ys
	return xs[0]
}

func BadAliasMap(m map[string]int) int {
	a := m
	a["x"] = 1
	return m["y"] + m["x"]
}

func OkAliasMap(m map[string]int) int {
	a := m
	a["x"] = 1
	return m["x"]
}

func BadAliasStructMap(p Item) int {
	q := p
	q.M["x"] = 1
	return p.M["x"]
}

func BadAliasPointer(p *Item) int {
	old := p.N
	q := p
	q.N = old + 1
	return p.N
}

func OkAliasPointer(p *Item) int {
	old := p.N
	q := p
	q.N = old + 1
	return p.N
}

func BadAliasRangeSlice(xs [][]int) int {
	for _, x := range xs {
		if len(x) > 0 {
			x[0] = 9
		}
	}
	return xs[0][0]
}

func BadAliasElement(xs []Item) int {
	p := &xs[0]
	p.N = 4
	return xs[0].N
}

func BadFrame(xs []Item) int {
	xs[0].N = 4
	return len(xs)
}

// closures and defers
func OkClosure(a int) int {
	n := a
	f := func(d int) { n += d }
	f(1)
	f(2)
	return n
}

func BadClosure(a int) int {
	n := a
	f := func(d int) { n += d }
	f(1)
	f(1)
	return n
}

func OkDefer(a int) (r int) {
	defer func() { r++ }()
	return a
}

func BadDefer(a int) (r int) {
	defer func() { r++ }()
	r = a
	return r
}

// control flow
func OkSwitch(a int) string {
	switch {
	case a < 0:
		return "neg"
	case a == 0:
		return "zero"
	}
	return "pos"
}

func BadSwitchFallthrough(a int) string {
	r := ""
	switch {
	case a < 0:
		r = "neg"
		fallthrough
	case a == 0:
		r = "zero"
	default:
		r = "pos"
	}
	return r
}

func OkLabel(xs [][]int, k int) bool {
	found := false
outer:
	for _, x := range xs {
		for _, y := range x {
			if y == k {
				found = true
				break outer
			}
		}
	}
	return found
}

func BadLabel(xs [][]int, k int) bool {
	found := false
outer:
	for _, x := range xs {
		for _, y := range x {
			if y == k {
				found = true
				break outer
			}
			if y > k {
				break outer
			}
		}
	}
	return found
}

func BadInnerBreak(xs [][]int, k int) bool {
	found := false
	for _, x := range xs {
		found = false
		for _, y := range x {
			if y == k {
				found = true
				break
			}
		}
	}
	return found
}

func OkShadow(a int) (int, error) {
	n, err := a, error(nil)
	if a > 3 {
		m, err := a+1, errors.New("x")
		_ = err
		n = m
	}
	return n, err
}

func BadShadow(a int) (int, error) {
	n, err := a, error(nil)
	if a > 3 {
		var m int
		m, err = a+1, errors.New("x")
		n = m
	}
	return n, err
}

func OkMap(xs []Item) map[string]int {
	m := make(map[string]int)
	for _, x := range xs {
		m[x.Key] = x.N
	}
	return m
}

func BadMapFirstWins(xs []Item) map[string]int {
	m := make(map[string]int)
	for _, x := range xs {
		if _, ok := m[x.Key]; !ok {
			m[x.Key] = x.N
		}
	}
	return m
}

func OkSort(xs []Item) []Item {
	r := append([]Item{}, xs...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].N < r[j].N })
	return r
}

func BadSortUnstableKey(xs []Item) []Item {
	r := append([]Item{}, xs...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].N <= r[j].N })
	return r
}

func BadSortDescending(xs []Item) []Item {
	r := append([]Item{}, xs...)
	sort.SliceStable(r, func(i, j int) bool { return r[i].N > r[j].N })
	return r
}

func OkPrefix(s string) string {
	i := strings.Index(s, ":")
	if i < 0 {
		return s
	}
	return s[i+1:]
}

func BadPrefix(s string) string {
	i := strings.LastIndex(s, ":")
	if i < 0 {
		return s
	}
	return s[i+1:]
}

func BadDiv(a, b int) int { return a / b }

func OkDiv(a, b int) int {
	if b == 0 {
		return 0
	}
	return a / b
}

func BadVacuous(xs []int) int {
	for i := 0; ; i++ {
		if i >= len(xs) {
			return 1
		}
		if xs[i] == 3 {
			return 2
		}
	}
}

func helper(xs []int) int {
	if len(xs) == 0 {
		return -1
	}
	return xs[0]
}

func OkCaller(xs []int) bool { return helper(xs) >= 0 || len(xs) == 0 || xs[0] < 0 }

func BadCaller(xs []int) bool { return helper(xs) >= 0 || len(xs) == 0 }

func BadAppendLoopCarried(xs []Item) []string {
	var r []string
	seen := false
	for _, x := range xs {
		if seen {
			r = append(r, x.Key)
		}
		seen = true
	}
	return r
}

func BadContinueOnTag(xs []Item) int {
	n := 0
next:
	for _, x := range xs {
		for _, t := range x.Tags {
			if t == "skip" {
				continue next
			}
		}
		n++
	}
	return n
}

func OkTypeSwitch(v any) int {
	switch u := v.(type) {
	case int:
		return u
	}
	return 0
}
