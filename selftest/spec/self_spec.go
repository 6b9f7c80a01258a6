//go:build verif

package selftest

import (
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
)

func find(xs []Item, k string, r *Item) bool {
	is := func(x Item) bool { return x.Key == k }
	i := vspec.Find(xs, is)
	return r == nil && i < 0 || r != nil && i >= 0 && vspec.Eq(*r, xs[i])
}

func Ensures_OkFind__r(xs []Item, k string, r *Item) bool            { return find(xs, k, r) }
func Ensures_BadFindLast__r(xs []Item, k string, r *Item) bool       { return find(xs, k, r) }
func Ensures_BadFindSkipsFirst__r(xs []Item, k string, r *Item) bool { return find(xs, k, r) }

func filter(xs []Item, n int) []Item {
	return vspec.Filter(xs, func(x Item) bool { return x.N > n })
}

func Ensures_OkFilter__r(xs []Item, n int, r []Item) bool       { return vspec.Eq(r, filter(xs, n)) }
func Ensures_BadFilterBreak__r(xs []Item, n int, r []Item) bool { return vspec.Eq(r, filter(xs, n)) }
func Ensures_BadFilterFirstDropped__r(xs []Item, n int, r []Item) bool {
	return vspec.Eq(r, filter(xs, n))
}
func Ensures_BadFilterReturnEarly__r(xs []Item, n int, r []Item) bool {
	return vspec.Eq(r, filter(xs, n))
}

func sum(xs []int) int { return vspec.Fold(0, xs, func(a int, x int) int { return a + x }) }

func Ensures_OkSum__r(xs []int, r int) bool       { return r == sum(xs) }
func Ensures_BadSumFrom1__r(xs []int, r int) bool { return r == sum(xs) }
func Ensures_BadSumTwice__r(xs []int, r int) bool { return r == sum(xs) }

func Ensures_OkIndex__r(xs []int, i int, r int) bool  { return true }
func Ensures_BadIndex__r(xs []int, i int, r int) bool { return true }
func Ensures_BadNil__r(p *Item, r string) bool        { return true }
func Ensures_OkNil__r(p *Item, r string) bool         { return p == nil || r == p.Key }

func Ensures_BadNilMapWrite__r(m map[string]int, k string, post_m map[string]int) bool { return true }
func Ensures_OkMapWrite__r(m map[string]int, k string, post_m map[string]int) bool {
	return m == nil || post_m[k] == 1
}

func Requires_BadAliasSliceWrite(xs []int) bool                         { return len(xs) > 0 && xs[0] == 1 }
func Ensures_BadAliasSliceWrite__r(xs []int, r int, post_xs []int) bool { return r == 1 }
func Ensures_BadAliasAppend__r(xs []int, r int) bool                    { return r == 3 }
func Requires_BadAliasShort(xs []int) bool                              { return len(xs) > 0 }
func Ensures_BadAliasShort__r(xs []int, r int, post_xs []int) bool      { return r == xs[0] }
func Requires_BadAliasMap(m map[string]int) bool                        { return m != nil && m["x"] == 7 }
func Ensures_BadAliasMap__r(m map[string]int, r int, post_m map[string]int) bool {
	return r == m["y"]+7
}
func Requires_OkAliasMap(m map[string]int) bool                                 { return m != nil }
func Ensures_OkAliasMap__r(m map[string]int, r int, post_m map[string]int) bool { return r == 1 }
func Requires_BadAliasStructMap(p Item) bool                                    { return p.M != nil && p.M["x"] == 3 }
func Ensures_BadAliasStructMap__r(p Item, r int) bool                           { return r == 3 }
func Requires_BadAliasPointer(p *Item) bool                                     { return p != nil }
func Ensures_BadAliasPointer__r(p *Item, r int, post_p *Item) bool              { return r == p.N }
func Requires_OkAliasPointer(p *Item) bool                                      { return p != nil }
func Ensures_OkAliasPointer__r(p *Item, r int, post_p *Item) bool               { return r == p.N+1 }
func Requires_BadAliasRangeSlice(xs [][]int) bool {
	return len(xs) > 0 && len(xs[0]) > 0 && xs[0][0] == 1
}
func Ensures_BadAliasRangeSlice__r(xs [][]int, r int) bool             { return r == 1 }
func Requires_BadAliasElement(xs []Item) bool                          { return len(xs) > 0 }
func Ensures_BadAliasElement__r(xs []Item, r int, post_xs []Item) bool { return r == xs[0].N }
func Requires_BadFrame(xs []Item) bool                                 { return len(xs) > 0 }
func Ensures_BadFrame__r(xs []Item, r int) bool                        { return r == len(xs) }
func Ensures_OkClosure__r(a int, r int) bool                           { return r == a+3 }
func Ensures_BadClosure__r(a int, r int) bool                          { return r == a+3 }
func Ensures_OkDefer__r(a int, r int) bool                             { return r == a+1 }
func Ensures_BadDefer__r(a int, r int) bool                            { return r == a }
func sign(a int) string {
	if a < 0 {
		return "neg"
	}
	if a == 0 {
		return "zero"
	}
	return "pos"
}
func Ensures_OkSwitch__r(a int, r string) bool             { return r == sign(a) }
func Ensures_BadSwitchFallthrough__r(a int, r string) bool { return r == sign(a) }
func has(xs [][]int, k int) bool {
	return vspec.Exists(xs, func(x []int) bool { return vspec.Exists(x, func(y int) bool { return y == k }) })
}
func Ensures_OkLabel__r(xs [][]int, k int, r bool) bool       { return r == has(xs, k) }
func Ensures_BadLabel__r(xs [][]int, k int, r bool) bool      { return r == has(xs, k) }
func Ensures_BadInnerBreak__r(xs [][]int, k int, r bool) bool { return r == has(xs, k) }
func Ensures_OkShadow__r(a int, r int, err error) bool        { return err == nil }
func Ensures_BadShadow__r(a int, r int, err error) bool       { return err == nil }
func asMap(xs []Item) map[string]int {
	return vspec.Fold(map[string]int{}, xs, func(m map[string]int, x Item) map[string]int { return vspec.Put(m, x.Key, x.N) })
}
func Ensures_OkMap__r(xs []Item, r map[string]int) bool           { return vspec.Eq(r, asMap(xs)) }
func Ensures_BadMapFirstWins__r(xs []Item, r map[string]int) bool { return vspec.Eq(r, asMap(xs)) }
func sorted(xs []Item) []Item                                     { return vspec.SortBy(xs, func(a, b Item) bool { return a.N < b.N }) }
func Ensures_OkSort__r(xs []Item, r []Item) bool                  { return vspec.Eq(r, sorted(xs)) }
func Ensures_BadSortUnstableKey__r(xs []Item, r []Item) bool      { return vspec.Eq(r, sorted(xs)) }
func Ensures_BadSortDescending__r(xs []Item, r []Item) bool       { return vspec.Eq(r, sorted(xs)) }
func local(s string) string {
	i := strings.Index(s, ":")
	if i < 0 {
		return s
	}
	return s[i+1:]
}
func Ensures_OkPrefix__r(s string, r string) bool  { return r == local(s) }
func Ensures_BadPrefix__r(s string, r string) bool { return r == local(s) }
func Ensures_BadDiv__r(a, b int, r int) bool       { return true }
func Ensures_OkDiv__r(a, b int, r int) bool        { return true }
func Ensures_BadVacuous__r(xs []int, r int) bool   { return r == 1 }
func Ensures_helper__r(xs []int, r int) bool       { return len(xs) == 0 || r == xs[0] }
func Ensures_OkCaller__r(xs []int, r bool) bool    { return r }
func Ensures_BadCaller__r(xs []int, r bool) bool   { return r }
func Ensures_BadAppendLoopCarried__r(xs []Item, r []string) bool {
	return vspec.Eq(r, vspec.Map(xs, func(x Item) string { return x.Key }))
}
func Ensures_BadContinueOnTag__r(xs []Item, r int) bool { return r == len(xs) }
func Ensures_OkTypeSwitch__r(v any, r int) bool         { return true }
