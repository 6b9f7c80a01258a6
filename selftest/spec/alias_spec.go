//go:build verif

package selftest

import "ecksbee.com/telefacts/internal/vspec"

// what would hold if references were copies
func Ensures_BadAliasInner__r(r int) bool           { return r == 0 }
func Ensures_BadAliasInnerBack__r(r int) bool       { return r == 0 }
func Ensures_BadAliasInSlice__r(r int) bool         { return r == 0 }
func Ensures_BadAliasInSliceBack__r(r int) bool     { return r == 0 }
func Ensures_BadAliasAppended__r(r int) bool        { return r == 0 }
func Ensures_BadAliasAppendedBack__r(r int) bool    { return r == 0 }
func Ensures_BadAliasInField__r(r int) bool         { return r == 0 }
func Ensures_BadAliasInFieldBack__r(r int) bool     { return r == 0 }
func Ensures_BadAliasStoredField__r(r int) bool     { return r == 0 }
func Ensures_BadAliasStoredFieldBack__r(r int) bool { return r == 0 }
func Ensures_BadAliasInMap__r(r int) bool           { return r == 0 }
func Ensures_BadAliasInMapBack__r(r int) bool       { return r == 0 }
func Ensures_BadAliasPutMap__r(r int) bool          { return r == 0 }
func Ensures_BadAliasReturned__r(r int) bool        { return r == 0 }
func Ensures_BadAliasReturnedBack__r(r int) bool    { return r == 0 }
func Ensures_BadAliasSame__r(r int) bool            { return r == 0 }
func Ensures_BadAliasSameBack__r(r int) bool        { return r == 0 }
func Ensures_BadAliasSameStored__r(r int) bool      { return r == 0 }
func Ensures_BadAliasSameLit__r(r int) bool         { return r == 0 }
func Ensures_BadAliasTuple__r(r int) bool           { return r == 0 }
func Ensures_BadAliasTupleCall__r(r int) bool       { return r == 0 }
func Ensures_BadAliasRange__r(r int) bool           { return r == 0 }
func Ensures_BadAliasRangeMap__r(r int) bool        { return r == 0 }
func Ensures_BadAliasAddr__r(r int) bool            { return r == 0 }
func Ensures_BadAliasAddrBack__r(r int) bool        { return r == 0 }
func Ensures_BadAliasAddrStored__r(r int) bool      { return r == 0 }
func Ensures_BadAliasAddrStoredBack__r(r int) bool  { return r == 0 }
func Ensures_BadAliasClosureVar__r(r int) bool      { return r == 0 }
func Ensures_BadAliasMerge__r(c bool, r int) bool   { return r == 0 }
func Ensures_BadAliasLoop__r(k int, r int) bool     { return r == 0 }
func Ensures_BadAliasMaybe__r(c bool, r int) bool   { return r == 0 }
func Ensures_BadAliasPtrFind__r(r int) bool         { return r == 0 }
func Ensures_OkAliasSame__r(r int) bool             { return r == 1 }
func Ensures_OkAliasPut__r(ks []string, r map[string]int) bool {
	return vspec.Eq(r, vspec.Fold(map[string]int{}, ks, func(m map[string]int, k string) map[string]int { return vspec.Put(m, k, 1) }))
}
func Ensures_BadAliasOwnCopy__r(in map[string]map[string]int, r int) bool   { return r == 0 }
func Ensures_BadAliasOwnShared__r(in map[string]map[string]int, r int) bool { return r == 0 }
func Ensures_BadAliasOwnStored__r(in map[string]int, r int) bool            { return r == 0 }
func Ensures_BadAliasOwnWhole__r(r int) bool                                { return r == 0 }
func Ensures_OkAliasOwn__r(in map[string]map[string]int, r int) bool        { return r == 1 }
