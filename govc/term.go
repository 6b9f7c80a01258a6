package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Sorts ---------------------------------------------------------------

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KUnint  // uninterpreted: Str, Flt, Any, opaque external types, function types
	KStruct // datatype with one constructor
	KPtr    // datatype nil | some(elem)
	KOpt    // datatype none | some(elem), for map lookups
	KSeq    // uninterpreted, with the sequence axioms
	KMap    // datatype mk(isnil, Array K (Opt V))
	KArr    // SMT array (inside KMap)
)

type Field struct {
	Name string
	Sort *Sort
}

type Sort struct {
	Name   string
	Kind   SortKind
	Elem   *Sort
	Key    *Sort
	Fields []Field
	Opaque bool
}

func (s *Sort) String() string { return s.Name }

// Terms ---------------------------------------------------------------

type Term struct {
	Op   string
	Args []*Term
	Sort *Sort
	ID   int
	IVal int64  // Op=="#int"
	SVal string // Op=="#str"
}

type TermTable struct {
	tab    map[string]*Term
	list   []*Term
	sorts  map[string]*Sort
	order  []*Sort
	decls  map[string]string // declared function symbols: name -> declaration
	dorder []string

	Bool, Int, Str, Flt, Any *Sort
	True, False              *Term
	selMemo                  map[[2]int]*Term
	selNames                 map[string]int
	strlits                  []*Term
	fltlits                  map[string]*Term
	useSeq                   map[string]map[string]bool
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[string]*Term{}, sorts: map[string]*Sort{}, decls: map[string]string{},
		selMemo: map[[2]int]*Term{}, selNames: map[string]int{}, fltlits: map[string]*Term{}, useSeq: map[string]map[string]bool{}}
	t.Bool = t.addSort(&Sort{Name: "Bool", Kind: KBool})
	t.Int = t.addSort(&Sort{Name: "Int", Kind: KInt})
	t.Str = t.addSort(&Sort{Name: "Str", Kind: KUnint})
	t.Flt = t.addSort(&Sort{Name: "Flt", Kind: KUnint})
	t.Any = t.addSort(&Sort{Name: "Any", Kind: KUnint})
	t.True = t.mk("true", t.Bool)
	t.False = t.mk("false", t.Bool)
	return t
}

func (t *TermTable) addSort(s *Sort) *Sort {
	if o, ok := t.sorts[s.Name]; ok {
		return o
	}
	t.sorts[s.Name] = s
	t.order = append(t.order, s)
	return s
}

func (t *TermTable) SeqOf(e *Sort) *Sort {
	return t.addSort(&Sort{Name: "Seq_" + e.Name, Kind: KSeq, Elem: e})
}
func (t *TermTable) PtrOf(e *Sort) *Sort {
	return t.addSort(&Sort{Name: "Ptr_" + e.Name, Kind: KPtr, Elem: e})
}
func (t *TermTable) OptOf(e *Sort) *Sort {
	return t.addSort(&Sort{Name: "Opt_" + e.Name, Kind: KOpt, Elem: e})
}
func (t *TermTable) ArrOf(k, v *Sort) *Sort {
	return t.addSort(&Sort{Name: "(Array " + k.Name + " " + v.Name + ")", Kind: KArr, Key: k, Elem: v})
}
func (t *TermTable) MapOf(k, v *Sort) *Sort {
	t.ArrOf(k, t.OptOf(v))
	return t.addSort(&Sort{Name: "Map_" + k.Name + "_" + v.Name, Kind: KMap, Key: k, Elem: v})
}
func (t *TermTable) Unint(name string) *Sort {
	return t.addSort(&Sort{Name: name, Kind: KUnint, Opaque: true})
}

func (t *TermTable) mk(op string, s *Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s.Name)
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{Op: op, Args: args, Sort: s, ID: len(t.list)}
	t.tab[k] = x
	t.list = append(t.list, x)
	return x
}

func (t *TermTable) declare(name string, args []*Sort, ret *Sort) {
	if _, ok := t.decls[name]; ok {
		return
	}
	an := make([]string, len(args))
	for i, a := range args {
		an[i] = a.Name
	}
	t.decls[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", sym(name), strings.Join(an, " "), ret.Name)
	t.dorder = append(t.dorder, name)
}

// App is an application of an uninterpreted (declared) function symbol.
func (t *TermTable) App(name string, ret *Sort, args ...*Term) *Term {
	as := make([]*Sort, len(args))
	for i, a := range args {
		as[i] = a.Sort
	}
	t.declare(name, as, ret)
	return t.mk(name, ret, args...)
}

func (t *TermTable) Const(name string, s *Sort) *Term { return t.App(name, s) }

func sym(s string) string {
	s = strings.ReplaceAll(s, ":", "~")
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_.!@$%&*-+=<>/?~^", c)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "/").Replace(s) + "|"
}

func (t *TermTable) IntLit(n int64) *Term {
	x := t.mk("#int:"+strconv.FormatInt(n, 10), t.Int)
	x.IVal = n
	return x
}
func isInt(x *Term) bool { return strings.HasPrefix(x.Op, "#int:") }
func isStr(x *Term) bool { return strings.HasPrefix(x.Op, "#str:") }

func (t *TermTable) StrLit(s string) *Term {
	n := len(t.list)
	x := t.mk("#str:"+s, t.Str)
	x.SVal = s
	if len(t.list) > n {
		t.strlits = append(t.strlits, x)
	}
	return x
}

func (t *TermTable) FltLit(s string) *Term {
	if x, ok := t.fltlits[s]; ok {
		return x
	}
	x := t.Const("flt!"+s, t.Flt)
	t.fltlits[s] = x
	return x
}

func (t *TermTable) BoolLit(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

func (t *TermTable) Not(a *Term) *Term {
	switch {
	case a == t.True:
		return t.False
	case a == t.False:
		return t.True
	case a.Op == "not":
		return a.Args[0]
	}
	return t.mk("not", t.Bool, a)
}

func (t *TermTable) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == t.True || seen[x.ID] {
			return true
		}
		if x == t.False {
			return false
		}
		if x.Op == "and" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[t.Not(x).ID] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return t.False
		}
	}
	if len(out) == 0 {
		return t.True
	}
	if len(out) == 1 {
		return out[0]
	}
	return t.mk("and", t.Bool, out...)
}

func (t *TermTable) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == t.False || seen[x.ID] {
			return true
		}
		if x == t.True {
			return false
		}
		if x.Op == "or" {
			for _, y := range x.Args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[t.Not(x).ID] {
			return false
		}
		seen[x.ID] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return t.True
		}
	}
	if len(out) == 0 {
		return t.False
	}
	if len(out) == 1 {
		return out[0]
	}
	return t.mk("or", t.Bool, out...)
}

func (t *TermTable) Implies(a, b *Term) *Term {
	if a == t.True {
		return b
	}
	if a == t.False || b == t.True {
		return t.True
	}
	if b == t.False {
		return t.Not(a)
	}
	return t.mk("=>", t.Bool, a, b)
}

func (t *TermTable) Ite(c, a, b *Term) *Term {
	if c == t.True || a == b {
		return a
	}
	if c == t.False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sort mismatch %s / %s", a.Sort, b.Sort))
	}
	if a.Sort == t.Bool {
		if a == t.True && b == t.False {
			return c
		}
		if a == t.False && b == t.True {
			return t.Not(c)
		}
		if a == t.True {
			return t.Or(c, b)
		}
		if a == t.False {
			return t.And(t.Not(c), b)
		}
		if b == t.True {
			return t.Or(t.Not(c), a)
		}
		if b == t.False {
			return t.And(c, a)
		}
	}
	if c.Op == "not" {
		return t.Ite(c.Args[0], b, a)
	}
	if a.Op == "ite" && a.Args[0] == c {
		return t.Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return t.Ite(c, a, b.Args[2])
	}
	return t.mk("ite", a.Sort, c, a, b)
}

func (t *TermTable) isValue(x *Term) bool {
	return isInt(x) || isStr(x) || x == t.True || x == t.False
}

func (t *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sort mismatch %s / %s", a.Sort, b.Sort))
	}
	if t.isValue(a) && t.isValue(b) {
		return t.False
	}
	if a.Sort == t.Bool {
		if a == t.True {
			return b
		}
		if b == t.True {
			return a
		}
		if a == t.False {
			return t.Not(b)
		}
		if b == t.False {
			return t.Not(a)
		}
	}
	if a.Sort.Kind == KPtr {
		if b.Op == "nil:"+b.Sort.Name {
			return t.IsNil(a)
		}
		if a.Op == "nil:"+a.Sort.Name {
			return t.IsNil(b)
		}
	}
	if a.Sort.Kind == KStruct && strings.HasPrefix(a.Op, "mk:") && strings.HasPrefix(b.Op, "mk:") {
		cs := make([]*Term, len(a.Args))
		for i := range a.Args {
			cs[i] = t.Eq(a.Args[i], b.Args[i])
		}
		return t.And(cs...)
	}
	// distribute over ite when one side is a value, so that comparisons fold
	if a.Op == "ite" && t.isValue(b) && (t.isValue(a.Args[1]) || t.isValue(a.Args[2])) {
		return t.Ite(a.Args[0], t.Eq(a.Args[1], b), t.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && t.isValue(a) && (t.isValue(b.Args[1]) || t.isValue(b.Args[2])) {
		return t.Ite(b.Args[0], t.Eq(a, b.Args[1]), t.Eq(a, b.Args[2]))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return t.mk("=", t.Bool, a, b)
}

// Linear integer arithmetic, lightly normalised.
func (t *TermTable) Add(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return t.IntLit(a.IVal + b.IVal)
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) {
		if b.IVal == 0 {
			return a
		}
		if a.Op == "+" && isInt(a.Args[1]) {
			return t.Add(a.Args[0], t.IntLit(a.Args[1].IVal+b.IVal))
		}
		return t.mk("+", t.Int, a, b)
	}
	if a.Op == "+" && isInt(a.Args[1]) {
		return t.Add(t.Add(a.Args[0], b), a.Args[1])
	}
	if b.Op == "+" && isInt(b.Args[1]) {
		return t.Add(t.Add(a, b.Args[0]), b.Args[1])
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return t.mk("+", t.Int, a, b)
}
func (t *TermTable) Neg(a *Term) *Term {
	if isInt(a) {
		return t.IntLit(-a.IVal)
	}
	return t.mk("-", t.Int, a)
}
func (t *TermTable) Sub(a, b *Term) *Term {
	if a == b {
		return t.IntLit(0)
	}
	if isInt(b) {
		return t.Add(a, t.IntLit(-b.IVal))
	}
	if b.Op == "+" && isInt(b.Args[1]) {
		return t.Add(t.Sub(a, b.Args[0]), t.IntLit(-b.Args[1].IVal))
	}
	if a.Op == "+" && isInt(a.Args[1]) {
		return t.Add(t.Sub(a.Args[0], b), a.Args[1])
	}
	return t.mk("-", t.Int, a, b)
}
func (t *TermTable) Mul(a, b *Term) *Term {
	if isInt(a) && isInt(b) {
		return t.IntLit(a.IVal * b.IVal)
	}
	if isInt(a) {
		a, b = b, a
	}
	if isInt(b) && b.IVal == 1 {
		return a
	}
	return t.mk("*", t.Int, a, b)
}

// splits e into (base, constant)
func (t *TermTable) off(a *Term) (*Term, int64) {
	if isInt(a) {
		return nil, a.IVal
	}
	if a.Op == "+" && isInt(a.Args[1]) {
		return a.Args[0], a.Args[1].IVal
	}
	return a, 0
}

func nonneg(a *Term) bool {
	return strings.HasPrefix(a.Op, "len_") || a.Op == "strlen" || isInt(a) && a.IVal >= 0
}

func (t *TermTable) Le(a, b *Term) *Term {
	ba, ca := t.off(a)
	bb, cb := t.off(b)
	if ba == bb {
		return t.BoolLit(ca <= cb)
	}
	if ba == nil && nonneg(bb) && ca <= cb {
		return t.True
	}
	if bb == nil && nonneg(ba) && cb < ca {
		return t.False
	}
	// len <= 0  is  len = 0
	if bb == nil && nonneg(ba) && cb == ca {
		return t.Eq(ba, t.IntLit(0))
	}
	return t.mk("<=", t.Bool, a, b)
}
func (t *TermTable) Lt(a, b *Term) *Term { return t.Not(t.Le(b, a)) }

// Datatypes -----------------------------------------------------------

func (t *TermTable) Struct(s *Sort, args ...*Term) *Term {
	if len(args) != len(s.Fields) {
		panic("struct arity " + s.Name)
	}
	for i := range args {
		if args[i].Sort != s.Fields[i].Sort {
			panic(fmt.Sprintf("struct %s field %s: sort %s, want %s", s.Name, s.Fields[i].Name, args[i].Sort, s.Fields[i].Sort))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && strings.HasPrefix(args[0].Op, "sel:") && args[0].Args[0].Sort == s {
		x := args[0].Args[0]
		all := true
		for i, a := range args {
			if a != t.Sel(x, i) {
				all = false
				break
			}
		}
		if all {
			return x
		}
	}
	return t.mk("mk:"+s.Name, s, args...)
}

func selName(s *Sort, i int) string { return "sel:" + s.Name + ":" + strconv.Itoa(i) }

func (t *TermTable) Sel(x *Term, i int) *Term {
	s := x.Sort
	if s.Kind != KStruct {
		panic("sel on " + s.Name)
	}
	if strings.HasPrefix(x.Op, "mk:") {
		return x.Args[i]
	}
	key := [2]int{x.ID, i}
	if r, ok := t.selMemo[key]; ok {
		return r
	}
	var r *Term
	if x.Op == "ite" {
		r = t.Ite(x.Args[0], t.Sel(x.Args[1], i), t.Sel(x.Args[2], i))
	} else {
		r = t.mk(selName(s, i), s.Fields[i].Sort, x)
	}
	t.selMemo[key] = r
	return r
}

func (t *TermTable) SetField(x *Term, i int, v *Term) *Term {
	args := make([]*Term, len(x.Sort.Fields))
	for j := range args {
		if j == i {
			args[j] = v
		} else {
			args[j] = t.Sel(x, j)
		}
	}
	return t.Struct(x.Sort, args...)
}

func (t *TermTable) Nil(s *Sort) *Term { return t.mk("nil:"+s.Name, s) }
func (t *TermTable) Some(s *Sort, x *Term) *Term {
	if x.Sort != s.Elem {
		panic(fmt.Sprintf("some %s of %s", s.Name, x.Sort.Name))
	}
	return t.mk("some:"+s.Name, s, x)
}
func (t *TermTable) IsNil(x *Term) *Term {
	s := x.Sort
	if s.Kind != KPtr && s.Kind != KOpt {
		panic("isnil on " + s.Name)
	}
	switch {
	case x.Op == "nil:"+s.Name:
		return t.True
	case x.Op == "some:"+s.Name:
		return t.False
	case x.Op == "ite":
		return t.Ite(x.Args[0], t.IsNil(x.Args[1]), t.IsNil(x.Args[2]))
	}
	return t.mk("isnil:"+s.Name, t.Bool, x)
}
func (t *TermTable) Deref(x *Term) *Term {
	s := x.Sort
	switch {
	case x.Op == "some:"+s.Name:
		return x.Args[0]
	case x.Op == "ite":
		key := [2]int{x.ID, -1}
		if r, ok := t.selMemo[key]; ok {
			return r
		}
		var r *Term
		a, b := x.Args[1], x.Args[2]
		// deref of nil is arbitrary: choose the other branch
		if a.Op == "nil:"+s.Name {
			r = t.Deref(b)
		} else if b.Op == "nil:"+s.Name {
			r = t.Deref(a)
		} else {
			r = t.Ite(x.Args[0], t.Deref(a), t.Deref(b))
		}
		t.selMemo[key] = r
		return r
	}
	return t.mk("val:"+s.Name, s.Elem, x)
}

// Maps ----------------------------------------------------------------

func (t *TermTable) mkMap(s *Sort, nilf, arr *Term) *Term { return t.mk("mkmap:"+s.Name, s, nilf, arr) }
func (t *TermTable) arrSort(s *Sort) *Sort                { return t.ArrOf(s.Key, t.OptOf(s.Elem)) }
func (t *TermTable) emptyArr(s *Sort) *Term {
	return t.mk("constarr", t.arrSort(s), t.Nil(t.OptOf(s.Elem)))
}
func (t *TermTable) MapNil(s *Sort) *Term   { return t.mkMap(s, t.True, t.emptyArr(s)) }
func (t *TermTable) MapEmpty(s *Sort) *Term { return t.mkMap(s, t.False, t.emptyArr(s)) }
func (t *TermTable) MapIsNil(m *Term) *Term {
	if strings.HasPrefix(m.Op, "mkmap:") {
		return m.Args[0]
	}
	if m.Op == "ite" {
		return t.Ite(m.Args[0], t.MapIsNil(m.Args[1]), t.MapIsNil(m.Args[2]))
	}
	return t.mk("mapnil:"+m.Sort.Name, t.Bool, m)
}
func (t *TermTable) MapArr(m *Term) *Term {
	if strings.HasPrefix(m.Op, "mkmap:") {
		return m.Args[1]
	}
	if m.Op == "ite" {
		return t.Ite(m.Args[0], t.MapArr(m.Args[1]), t.MapArr(m.Args[2]))
	}
	return t.mk("maparr:"+m.Sort.Name, t.arrSort(m.Sort), m)
}
func (t *TermTable) Select(a, k *Term) *Term {
	for a.Op == "store" {
		e := t.Eq(a.Args[1], k)
		if e == t.True {
			return a.Args[2]
		}
		if e == t.False {
			a = a.Args[0]
			continue
		}
		break
	}
	if a.Op == "constarr" {
		return a.Args[0]
	}
	if a.Op == "ite" {
		return t.Ite(a.Args[0], t.Select(a.Args[1], k), t.Select(a.Args[2], k))
	}
	return t.mk("select", a.Sort.Elem, a, k)
}
func (t *TermTable) MapGetOpt(m, k *Term) *Term { return t.Select(t.MapArr(m), k) }
func (t *TermTable) MapPut(m, k, v *Term) *Term {
	return t.mkMap(m.Sort, t.False, t.storeArr(t.MapArr(m), k, t.Some(t.OptOf(m.Sort.Elem), v)))
}
func (t *TermTable) MapDel(m, k *Term) *Term {
	return t.mkMap(m.Sort, t.MapIsNil(m), t.storeArr(t.MapArr(m), k, t.Nil(t.OptOf(m.Sort.Elem))))
}
func (t *TermTable) storeArr(a, k, v *Term) *Term {
	if a.Op == "store" && a.Args[1] == k {
		a = a.Args[0]
	}
	return t.mk("store", a.Sort, a, k, v)
}

// Sequences -----------------------------------------------------------

func (t *TermTable) seqUse(e *Sort, op string) {
	m := t.useSeq[e.Name]
	if m == nil {
		m = map[string]bool{}
		t.useSeq[e.Name] = m
	}
	m[op] = true
}

func (t *TermTable) Empty(e *Sort) *Term {
	t.seqUse(e, "empty")
	return t.App("empty_"+e.Name, t.SeqOf(e))
}
func isEmptySeq(x *Term) bool { return strings.HasPrefix(x.Op, "empty_") && len(x.Args) == 0 }
func (t *TermTable) Snoc(s, x *Term) *Term {
	e := s.Sort.Elem
	if x.Sort != e {
		panic(fmt.Sprintf("snoc %s of %s", s.Sort.Name, x.Sort.Name))
	}
	t.seqUse(e, "snoc")
	return t.App("snoc_"+e.Name, s.Sort, s, x)
}
func isSnoc(x *Term) bool { return strings.HasPrefix(x.Op, "snoc_") && len(x.Args) == 2 }
func (t *TermTable) Concat(a, b *Term) *Term {
	e := a.Sort.Elem
	if isEmptySeq(a) {
		return b
	}
	if isEmptySeq(b) {
		return a
	}
	if isSnoc(b) {
		return t.Snoc(t.Concat(a, b.Args[0]), b.Args[1])
	}
	if strings.HasPrefix(a.Op, "concat_") {
		return t.Concat(a.Args[0], t.Concat(a.Args[1], b))
	}
	if isSnoc(a) && !isEmptySeq(a.Args[0]) {
		return t.Concat(a.Args[0], t.Concat(t.Snoc(t.Empty(e), a.Args[1]), b))
	}
	t.seqUse(e, "concat")
	return t.App("concat_"+e.Name, a.Sort, a, b)
}
func (t *TermTable) Len(s *Term) *Term {
	e := s.Sort.Elem
	if isEmptySeq(s) {
		return t.IntLit(0)
	}
	if isSnoc(s) {
		return t.Add(t.Len(s.Args[0]), t.IntLit(1))
	}
	if strings.HasPrefix(s.Op, "upd_") {
		return t.Len(s.Args[0])
	}
	t.seqUse(e, "len")
	return t.App("len_"+e.Name, t.Int, s)
}
func (t *TermTable) At(s, i *Term) *Term {
	e := s.Sort.Elem
	if isInt(i) {
		// literal list
		x := s
		for isSnoc(x) {
			n := t.Len(x.Args[0])
			if n == i {
				return x.Args[1]
			}
			if !isInt(n) {
				break
			}
			x = x.Args[0]
		}
	}
	if strings.HasPrefix(s.Op, "upd_") && s.Args[1] == i {
		return s.Args[2]
	}
	t.seqUse(e, "at")
	t.seqUse(e, "len")
	return t.App("at_"+e.Name, e, s, i)
}
func (t *TermTable) Upd(s, i, x *Term) *Term {
	e := s.Sort.Elem
	t.seqUse(e, "upd")
	return t.App("upd_"+e.Name, s.Sort, s, i, x)
}
func (t *TermTable) Take(s, n *Term) *Term {
	e := s.Sort.Elem
	if n == t.IntLit(0) {
		return t.Empty(e)
	}
	if n == t.Len(s) {
		return s
	}
	t.seqUse(e, "take")
	t.seqUse(e, "snoc")
	t.seqUse(e, "len")
	return t.App("take_"+e.Name, s.Sort, s, n)
}
func (t *TermTable) Drop(s, n *Term) *Term {
	e := s.Sort.Elem
	if n == t.IntLit(0) {
		return s
	}
	t.seqUse(e, "drop")
	t.seqUse(e, "len")
	return t.App("drop_"+e.Name, s.Sort, s, n)
}
func (t *TermTable) MkSeq(n, x *Term) *Term {
	e := x.Sort
	if n == t.IntLit(0) {
		return t.Empty(e)
	}
	t.seqUse(e, "mkseq")
	t.seqUse(e, "len")
	return t.App("mkseq_"+e.Name, t.SeqOf(e), n, x)
}

// Strings -------------------------------------------------------------

func (t *TermTable) StrCat(a, b *Term) *Term {
	if b.Op == "ite" && (isStr(b.Args[1]) || isStr(b.Args[2])) {
		return t.Ite(b.Args[0], t.StrCat(a, b.Args[1]), t.StrCat(a, b.Args[2]))
	}
	if a.Op == "ite" && (isStr(a.Args[1]) || isStr(a.Args[2])) {
		return t.Ite(a.Args[0], t.StrCat(a.Args[1], b), t.StrCat(a.Args[2], b))
	}
	var parts []*Term
	var flat func(x *Term)
	flat = func(x *Term) {
		if x.Op == "strcat" {
			flat(x.Args[0])
			flat(x.Args[1])
			return
		}
		if isStr(x) && x.SVal == "" {
			return
		}
		if isStr(x) && len(parts) > 0 && isStr(parts[len(parts)-1]) {
			parts[len(parts)-1] = t.StrLit(parts[len(parts)-1].SVal + x.SVal)
			return
		}
		parts = append(parts, x)
	}
	flat(a)
	flat(b)
	if len(parts) == 0 {
		return t.StrLit("")
	}
	// left-nested, so that accumulators keep a common prefix
	r := parts[0]
	for _, p := range parts[1:] {
		r = t.App("strcat", t.Str, r, p)
	}
	return r
}
func (t *TermTable) StrLen(s *Term) *Term {
	if isStr(s) {
		return t.IntLit(int64(len(s.SVal)))
	}
	return t.App("strlen", t.Int, s)
}
func (t *TermTable) Substr(s, i, j *Term) *Term {
	if isStr(s) && isInt(i) && isInt(j) && 0 <= i.IVal && i.IVal <= j.IVal && int(j.IVal) <= len(s.SVal) {
		return t.StrLit(s.SVal[i.IVal:j.IVal])
	}
	if i == t.IntLit(0) && j == t.StrLen(s) {
		return s
	}
	return t.App("substr", t.Str, s, i, j)
}

// Substitution --------------------------------------------------------

func (t *TermTable) Subst(x *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = t.Rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return rec(x)
}

func (t *TermTable) Rebuild(x *Term, a []*Term) *Term {
	op := x.Op
	switch op {
	case "not":
		return t.Not(a[0])
	case "and":
		return t.And(a...)
	case "or":
		return t.Or(a...)
	case "=>":
		return t.Implies(a[0], a[1])
	case "ite":
		return t.Ite(a[0], a[1], a[2])
	case "=":
		return t.Eq(a[0], a[1])
	case "<=":
		return t.Le(a[0], a[1])
	case "+":
		return t.Add(a[0], a[1])
	case "*":
		return t.Mul(a[0], a[1])
	case "-":
		if len(a) == 1 {
			return t.Neg(a[0])
		}
		return t.Sub(a[0], a[1])
	case "select":
		return t.Select(a[0], a[1])
	case "store":
		return t.storeArr(a[0], a[1], a[2])
	case "strcat":
		return t.StrCat(a[0], a[1])
	case "strlen":
		return t.StrLen(a[0])
	case "substr":
		return t.Substr(a[0], a[1], a[2])
	}
	switch {
	case strings.HasPrefix(op, "mk:"):
		return t.Struct(x.Sort, a...)
	case strings.HasPrefix(op, "sel:"):
		i, _ := strconv.Atoi(op[strings.LastIndexByte(op, ':')+1:])
		return t.Sel(a[0], i)
	case strings.HasPrefix(op, "isnil:"):
		return t.IsNil(a[0])
	case strings.HasPrefix(op, "val:"):
		return t.Deref(a[0])
	case strings.HasPrefix(op, "mapnil:"):
		return t.MapIsNil(a[0])
	case strings.HasPrefix(op, "maparr:"):
		return t.MapArr(a[0])
	case strings.HasPrefix(op, "len_"):
		return t.Len(a[0])
	case strings.HasPrefix(op, "at_"):
		return t.At(a[0], a[1])
	case strings.HasPrefix(op, "concat_"):
		return t.Concat(a[0], a[1])
	case strings.HasPrefix(op, "take_"):
		return t.Take(a[0], a[1])
	}
	return t.mk(op, x.Sort, a...)
}

// contains reports whether any of the terms in set occurs in x.
func contains(x *Term, set map[*Term]bool) bool {
	seen := map[int]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if set[x] {
			return true
		}
		if seen[x.ID] {
			return false
		}
		seen[x.ID] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(x)
}

// Printing ------------------------------------------------------------

func (t *TermTable) head(x *Term) string {
	op := x.Op
	switch {
	case isInt(x):
		if x.IVal < 0 {
			return fmt.Sprintf("(- %d)", -x.IVal)
		}
		return strconv.FormatInt(x.IVal, 10)
	case isStr(x):
		return fmt.Sprintf("str!%d", x.ID)
	case op == "constarr":
		return fmt.Sprintf("(as const %s)", x.Sort.Name)
	case strings.HasPrefix(op, "isnil:"):
		return "(_ is " + sym("nil:"+x.Args[0].Sort.Name) + ")"
	}
	return sym(op)
}

// Debug rendering of a term as a tree (bounded depth).
func (t *TermTable) Show(x *Term, depth int) string {
	if isStr(x) {
		return strconv.Quote(x.SVal)
	}
	h := t.head(x)
	if len(x.Args) == 0 {
		return h
	}
	if depth <= 0 {
		return "…"
	}
	parts := []string{h}
	for _, a := range x.Args {
		parts = append(parts, t.Show(a, depth-1))
	}
	return "(" + strings.Join(parts, " ") + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
