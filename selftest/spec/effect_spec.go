//go:build verif

package selftest

import "ecksbee.com/telefacts/internal/vspec"

func SpecWhole(t *Tree) bool {
	return t != nil && vspec.All(t.Kids, func(k *Tree) bool { return SpecWhole(k) })
}

func SpecNames(t *Tree) []string {
	return append([]string{t.Name}, vspec.FlatMap(t.Kids, func(k *Tree) []string { return SpecNames(k) })...)
}

func Requires_OkEffectWalk(t *Tree) bool                  { return SpecWhole(t) }
func Needs_OkEffectWalk__walk(n *Tree, out []string) bool { return SpecWhole(n) }
func Effect_OkEffectWalk__walk(n *Tree, out []string) (post_out []string) {
	return append(out, SpecNames(n)...)
}
func Ensures_OkEffectWalk__names(t *Tree, r []string) bool { return vspec.Eq(r, SpecNames(t)) }

func Requires_BadEffectOrder(t *Tree) bool                  { return SpecWhole(t) }
func Needs_BadEffectOrder__walk(n *Tree, out []string) bool { return SpecWhole(n) }
func Effect_BadEffectOrder__walk(n *Tree, out []string) (post_out []string) {
	return append(out, SpecNames(n)...)
}
func Ensures_BadEffectOrder__names(t *Tree, r []string) bool { return vspec.Eq(r, SpecNames(t)) }

func Requires_BadEffectSkip(t *Tree) bool                  { return SpecWhole(t) }
func Needs_BadEffectSkip__walk(n *Tree, out []string) bool { return SpecWhole(n) }
func Effect_BadEffectSkip__walk(n *Tree, out []string) (post_out []string) {
	return append(out, SpecNames(n)...)
}
func Ensures_BadEffectSkip__names(t *Tree, r []string) bool { return vspec.Eq(r, SpecNames(t)) }

func Requires_BadEffectFrame(t *Tree) bool                  { return SpecWhole(t) }
func Needs_BadEffectFrame__walk(t *Tree, out []string) bool { return SpecWhole(t) }
func Effect_BadEffectFrame__walk(t *Tree, out []string) (post_out []string) {
	return append(out, SpecNames(t)...)
}
func Ensures_BadEffectFrame__none(t *Tree, r int) bool { return r == 0 }

func Requires_BadEffectNeeds(t *Tree) bool                  { return t != nil }
func Needs_BadEffectNeeds__walk(n *Tree, out []string) bool { return n != nil }
func Effect_BadEffectNeeds__walk(n *Tree, out []string) (post_out []string) {
	return append(out, SpecNames(n)...)
}
func Ensures_BadEffectNeeds__names(t *Tree, r []string) bool { return vspec.Eq(r, SpecNames(t)) }

func Ensures_OkNodeWrite__kid(name string, r *Tree) bool {
	return r != nil && r.Name == "a" && len(r.Kids) == 1 && r.Kids[0].Name == name
}
func Ensures_BadNodeWrite__kid(name string, r *Tree) bool {
	return r != nil && r.Name == name && len(r.Kids) == 1
}
func Ensures_BadNodeAlias__r(r string) bool { return r == "a" }

func Ensures_BadIndirectSwap__r(s []string, r string) bool { return r == "" || r == "same" }

func Ensures_OkSortTie__r(s []int, r []int) bool {
	return vspec.Eq(r, vspec.SortBy(s, func(a, b int) bool { return a < b }))
}
func Ensures_BadSortTie__r(s []int, r []int) bool {
	return vspec.Eq(r, vspec.SortBy(s, func(a, b int) bool { return a < b }))
}
