//go:build verif

package selftest

import "ecksbee.com/telefacts/internal/vspec"

func Ensures_suffix__some(a, b, r string) bool { return r == a+b }

func Ensures_each__map(ss []string, f func(string) string, r []string) bool {
	return vspec.Eq(r, vspec.Map(ss, func(s string) string { return f(s) }))
}

func Ensures_OkClosureArg__all(ss []string, end string, r []string) bool {
	return vspec.Eq(r, each(ss, func(s string) string { return suffix(s, end) }))
}

func Ensures_BadClosureCaptured__all(ss []string, end, other string, r []string) bool {
	return vspec.Eq(r, each(ss, func(s string) string { return suffix(s, end) }))
}

func Ensures_BadClosureSwapped__all(ss []string, end string, r []string) bool {
	return vspec.Eq(r, each(ss, func(s string) string { return suffix(s, end) }))
}

func Ensures_BadClosureChanges__none(ss []string, end string, r []string, n int) bool {
	return n == 0
}

type SpecFlag struct {
	Seen map[string]bool
	Ret  []string
	Stop bool
}

func SpecOnce(s SpecFlag, v string) SpecFlag {
	if s.Stop {
		return s
	}
	if s.Seen[v] {
		return SpecFlag{Seen: s.Seen, Stop: true}
	}
	return SpecFlag{Seen: vspec.Put(s.Seen, v, true), Ret: vspec.Append(s.Ret, v)}
}

func SpecRowOnce(s SpecFlag, row []string) SpecFlag {
	if s.Stop {
		return s
	}
	return vspec.Fold(s, row, func(t SpecFlag, v string) SpecFlag { return SpecOnce(t, v) })
}

func SpecAllOnce(rows [][]string) []string {
	s := vspec.Fold(SpecFlag{Seen: map[string]bool{}}, rows, func(t SpecFlag, row []string) SpecFlag { return SpecRowOnce(t, row) })
	if s.Stop {
		return nil
	}
	return s.Ret
}

func Ensures_OkFlag__once(rows [][]string, r []string) bool { return vspec.Eq(r, SpecAllOnce(rows)) }

func Ensures_BadFlag__once(rows [][]string, r []string) bool { return vspec.Eq(r, SpecAllOnce(rows)) }
