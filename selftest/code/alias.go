package selftest

type Box struct {
	P  *Item
	M  map[string]int
	MM map[string]map[string]int
	Ps []*Item
}

// each of these would return 0 if references were copies
func BadAliasInner() int {
	mm := map[string]map[string]int{"k": {"a": 0}}
	m := mm["k"]
	m["a"] = 1
	return mm["k"]["a"]
}

func BadAliasInnerBack() int {
	mm := map[string]map[string]int{"k": {"a": 0}}
	m := mm["k"]
	mm["k"]["a"] = 1
	return m["a"]
}

func BadAliasInSlice() int {
	p := &Item{}
	s := []*Item{p}
	p.N = 1
	return s[0].N
}

func BadAliasInSliceBack() int {
	p := &Item{}
	s := []*Item{p}
	s[0].N = 1
	return p.N
}

func BadAliasAppended() int {
	p := &Item{}
	var s []*Item
	s = append(s, p)
	p.N = 1
	return s[0].N
}

func BadAliasAppendedBack() int {
	p := &Item{}
	var s []*Item
	s = append(s, p)
	s[0].N = 1
	return p.N
}

func BadAliasInField() int {
	p := &Item{}
	b := Box{P: p}
	p.N = 1
	return b.P.N
}

func BadAliasInFieldBack() int {
	p := &Item{}
	b := Box{P: p}
	b.P.N = 1
	return p.N
}

func BadAliasStoredField() int {
	p := &Item{}
	b := Box{}
	b.P = p
	p.N = 1
	return b.P.N
}

func BadAliasStoredFieldBack() int {
	p := &Item{}
	b := Box{}
	b.P = p
	b.P.N = 1
	return p.N
}

func BadAliasInMap() int {
	m := map[string]int{"a": 0}
	mm := map[string]map[string]int{"k": m}
	m["a"] = 1
	return mm["k"]["a"]
}

func BadAliasInMapBack() int {
	m := map[string]int{"a": 0}
	mm := map[string]map[string]int{"k": m}
	mm["k"]["a"] = 1
	return m["a"]
}

func BadAliasPutMap() int {
	m := map[string]int{"a": 0}
	mm := map[string]map[string]int{}
	mm["k"] = m
	mm["k"]["a"] = 1
	return m["a"]
}

func field(b *Box) map[string]int { return b.M }

func BadAliasReturned() int {
	b := &Box{M: map[string]int{"a": 0}}
	m := field(b)
	m["a"] = 1
	return b.M["a"]
}

func BadAliasReturnedBack() int {
	b := &Box{M: map[string]int{"a": 0}}
	m := field(b)
	b.M["a"] = 1
	return m["a"]
}

func same(m map[string]int) map[string]int { return m }

func BadAliasSame() int {
	m := map[string]int{"a": 0}
	n := same(m)
	n["a"] = 1
	return m["a"]
}

func BadAliasSameBack() int {
	m := map[string]int{"a": 0}
	n := same(m)
	m["a"] = 1
	return n["a"]
}

func BadAliasSameStored() int {
	m := map[string]int{"a": 0}
	b := Box{}
	b.M = same(m)
	m["a"] = 1
	return b.M["a"]
}

func BadAliasSameLit() int {
	m := map[string]int{"a": 0}
	b := Box{M: same(m)}
	m["a"] = 1
	return b.M["a"]
}

func BadAliasTuple() int {
	m := map[string]int{"a": 0}
	a, b := m, m
	a["a"] = 1
	return b["a"]
}

func two(m map[string]int) (map[string]int, bool) { return m, true }

func BadAliasTupleCall() int {
	m := map[string]int{"a": 0}
	n, _ := two(m)
	n["a"] = 1
	return m["a"]
}

func BadAliasRange() int {
	ps := []*Item{{}}
	for _, p := range ps {
		p.N = 1
	}
	return ps[0].N
}

func BadAliasRangeMap() int {
	mm := map[string]map[string]int{"k": {"a": 0}}
	for _, m := range mm {
		m["a"] = 1
	}
	return mm["k"]["a"]
}

func BadAliasAddr() int {
	n := 0
	p := &n
	*p = 1
	return n
}

func BadAliasAddrBack() int {
	n := 0
	p := &n
	n = 1
	return *p
}

func BadAliasAddrStored() int {
	it := Item{}
	b := Box{P: &it}
	it.N = 1
	return b.P.N
}

func BadAliasAddrStoredBack() int {
	it := Item{}
	b := Box{P: &it}
	b.P.N = 1
	return it.N
}

func BadAliasClosureVar() int {
	m := map[string]int{"a": 0}
	f := func() map[string]int { return m }
	f()["a"] = 1
	return m["a"]
}

func BadAliasMerge(c bool) int {
	m := map[string]int{"a": 0}
	n := map[string]int{"a": 0}
	if c {
		n = m
	}
	n["a"] = 1
	return m["a"]
}

func BadAliasLoop(k int) int {
	m := map[string]int{"a": 0}
	n := map[string]int{"a": 0}
	for i := 0; i < k; i++ {
		n = m
	}
	n["a"] = 1
	return m["a"]
}

func BadAliasMaybe(c bool) int {
	b := &Box{M: map[string]int{"a": 0}}
	m := pick(b, c)
	m["a"] = 1
	return b.M["a"]
}

func pick(b *Box, c bool) map[string]int {
	if c {
		return b.M
	}
	return map[string]int{}
}

func BadAliasPtrFind() int {
	b := &Box{Ps: []*Item{{Key: "x"}}}
	p := first(b)
	if p != nil {
		p.N = 1
	}
	return b.Ps[0].N
}

func first(b *Box) *Item {
	for _, p := range b.Ps {
		if p.Key == "x" {
			return p
		}
	}
	return nil
}

func OkAliasSame() int {
	m := map[string]int{"a": 0}
	m = same(m)
	m["a"] = 1
	return m["a"]
}

func put(m map[string]int, k string) map[string]int {
	m[k] = 1
	return m
}

func OkAliasPut(ks []string) map[string]int {
	m := map[string]int{}
	for _, k := range ks {
		m = put(m, k)
	}
	return m
}

func BadAliasOwnCopy(in map[string]map[string]int) int {
	ret := make(map[string]map[string]int)
	ret["a"] = make(map[string]int)
	x := ret["a"]
	y := x
	for _, p := range in {
		ret["a"]["k"] = len(p)
	}
	ret["a"]["b"] = 1
	return y["b"]
}

func BadAliasOwnShared(in map[string]map[string]int) int {
	ret := make(map[string]map[string]int)
	other := make(map[string]map[string]int)
	ret["a"] = make(map[string]int)
	other["a"] = ret["a"]
	ret["a"]["b"] = 1
	return other["a"]["b"]
}

func BadAliasOwnStored(in map[string]int) int {
	ret := make(map[string]map[string]int)
	ret["a"] = in
	ret["a"]["b"] = 1
	if in == nil {
		return 0
	}
	return in["b"]
}

func BadAliasOwnWhole() int {
	ret := make(map[string]map[string]int)
	ret["a"] = make(map[string]int)
	all := ret
	ret["a"]["b"] = 1
	return all["a"]["b"]
}

func OkAliasOwn(in map[string]map[string]int) int {
	ret := make(map[string]map[string]int)
	for _, p := range in {
		ret["a"] = make(map[string]int)
		ret["a"]["b"] = len(p)
		ret["a"]["b"] = 1
	}
	if _, found := ret["a"]; !found {
		return 1
	}
	return 1
}
