package selftest

type tree struct {
	Name string
	Kids []*tree
}

// each passes a function on to the functions below.
func each(ss []string, f func(string) string) []string {
	ret := []string{}
	for _, s := range ss {
		ret = append(ret, f(s))
	}
	return ret
}

func suffix(a, b string) string { return a + b }

func OkClosureArg(ss []string, end string) []string {
	add := func(s string) string { return suffix(s, end) }
	return each(ss, add)
}

func BadClosureCaptured(ss []string, end, other string) []string {
	add := func(s string) string { return suffix(s, other) }
	return each(ss, add)
}

func BadClosureSwapped(ss []string, end string) []string {
	return each(ss, func(s string) string { return suffix(end, s) })
}

func BadClosureChanges(ss []string, end string) ([]string, int) {
	n := 0
	r := each(ss, func(s string) string { n++; return suffix(s, end) })
	return r, n
}

// OkFlag stops at the first element that is there already.
func OkFlag(rows [][]string) []string {
	seen := make(map[string]bool)
	ret := []string{}
	for _, row := range rows {
		for _, s := range row {
			if seen[s] {
				return []string{}
			}
			seen[s] = true
			ret = append(ret, s)
		}
	}
	return ret
}

// BadFlag stops only the row.
func BadFlag(rows [][]string) []string {
	seen := make(map[string]bool)
	ret := []string{}
	for _, row := range rows {
		for _, s := range row {
			if seen[s] {
				ret = []string{}
				break
			}
			seen[s] = true
			ret = append(ret, s)
		}
	}
	return ret
}
