package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

type Val interface{}

type FuncVal struct {
	lit  *ast.FuncLit
	pkg  *Pkg
	obj  *types.Func
	recv Val
	env  *State // snapshot of the captured variables (specification mode)
	term *Term  // opaque function value
}

// RefVal is a pointer (addr) to, or an alias of the reference value stored in,
// a place known statically.
type RefVal struct {
	lv   *LV
	addr bool
}

type Tuple []Val

type Step struct {
	node types.Type // kind 4: a field of a recursive struct
	kind int        // 0 field, 1 deref, 2 slice index, 3 map key
	idx  int
	t    *Term
}

type LV struct {
	root  types.Object
	steps []Step
}

type deferred struct {
	call *ast.CallExpr
	fv   *FuncVal
	args []Val
	pkg  *Pkg
}

type State struct {
	vars   map[types.Object]Val
	pc     []*Term
	defers []deferred
}

func (s *State) clone() *State {
	n := &State{vars: make(map[types.Object]Val, len(s.vars)+4), pc: s.pc[:len(s.pc):len(s.pc)], defers: s.defers[:len(s.defers):len(s.defers)]}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	return n
}

const (
	ONext = iota
	OBreak
	OContinue
	OReturn
)

type Outcome struct {
	kind  int
	label string
	st    *State
	vals  []Val
}

type Obl struct {
	Name   string
	Kind   string // ensures, requires, safety, inv-init, inv-step, frame, alias, cover
	Pos    string
	Goal   *Term
	PC     *Term
	NFacts int
	Cand   string
	Status string
	By     string
	Out    string
	ms     int64
}

type unsupportedErr struct{ msg string }

type Ex struct {
	w          *World
	t          *TermTable
	sortMemo   map[string]*Sort
	sortStack  map[string]bool
	nanon      int
	facts      []*Term
	factSeen   map[int]bool
	obls       []*Obl
	spec       int
	pkg        *Pkg
	fn         *FuncInfo // function under verification
	stack      []string
	results    [][]*types.Var // named results of the frames
	bodies     []*ast.BlockStmt
	sigs       []*types.Signature
	fresh      map[string]int
	points     []*Obl
	assumption map[string]bool // external functions etc. relied upon
	usedCon    map[string]bool // contracts used
	inlined    map[string]bool
	aliasOrig  map[types.Object]int

	loopNo   int
	loopCtx  []string
	dropped  map[string]bool // Houdini: dropped candidates
	hints    map[string]bool
	modMemo  map[string]map[string]ModPath
	leaks    map[string]*leak
	lastCand map[string][]*Cand

	combs      map[string]*Comb
	combsBySeq map[int][]*Comb
	absorbed   map[string][]int
	combOrder  []*Comb
	unfolded   map[string]bool
	sorters    []*Sorter
	someOrders []*someOrder
	instDepth  int
	enums      []*mapEnum
	polarity   int // +1 prove, -1 assume
	seeding    bool
	orderFrees []*orderFree
	specMemo   map[string]Val
	recFuel    int
	nodeDone   map[string]bool
	nodeTypes  map[string]types.Type
	conDone    map[int]bool
	conVal     map[int]*Term
	escaped    map[types.Object]bool
	addrOut    map[types.Object]bool
	held       map[string][]holding
	retShared  []bool
	callShared bool
	pending    []bool // arguments of the call being made that others hold as well
	preds      []*Term
	conCache   *Contracts
	oldParams  map[types.Object]*Term
	trail      int
	noteSeen   map[string]bool
	invHints   []*hintInv
}

func NewEx(w *World, cons *Contracts) *Ex {
	return &Ex{w: w, t: NewTermTable(), sortMemo: map[string]*Sort{}, sortStack: map[string]bool{}, factSeen: map[int]bool{},
		fresh: map[string]int{}, assumption: map[string]bool{}, usedCon: map[string]bool{}, inlined: map[string]bool{}, dropped: map[string]bool{},
		modMemo: map[string]map[string]ModPath{}, combs: map[string]*Comb{}, combsBySeq: map[int][]*Comb{}, absorbed: map[string][]int{}, unfolded: map[string]bool{},
		specMemo: map[string]Val{}, nodeDone: map[string]bool{}, nodeTypes: map[string]types.Type{}, conDone: map[int]bool{}, conVal: map[int]*Term{}, escaped: map[types.Object]bool{}, addrOut: map[types.Object]bool{}, held: map[string][]holding{}, conCache: cons, recFuel: 2, polarity: 1, noteSeen: map[string]bool{}}
}

func (x *Ex) unsupported(n ast.Node, f string, a ...any) {
	p := ""
	if n != nil {
		p = x.w.pos(n.Pos()) + ": "
	}
	panic(unsupportedErr{p + fmt.Sprintf(f, a...)})
}

func (x *Ex) freshConst(hint string, s *Sort) *Term {
	x.fresh[hint]++
	return x.t.Const(fmt.Sprintf("%s!%d", hint, x.fresh[hint]), s)
}

func (x *Ex) fact(f *Term) {
	if f == x.t.True || x.factSeen[f.ID] {
		return
	}
	x.factSeen[f.ID] = true
	if f.Op == "and" {
		for _, a := range f.Args {
			x.factSeen[a.ID] = true
		}
	}
	x.facts = append(x.facts, f)
}

func (x *Ex) pcTerm(st *State) *Term { return x.t.And(st.pc...) }

func (x *Ex) assume(st *State, f *Term) { x.fact(x.t.Implies(x.pcTerm(st), f)) }

func (x *Ex) dead(st *State) bool { return x.pcTerm(st) == x.t.False }

func (st *State) with(c *Term) *State {
	n := st.clone()
	n.pc = append(n.pc, c)
	return n
}

func (x *Ex) obl(st *State, kind, name string, n ast.Node, goal *Term) *Obl {
	if goal == x.t.True && kind == "safety" {
		return nil
	}
	pc := x.pcTerm(st)
	if pc == x.t.False && kind == "safety" {
		return nil
	}
	p := ""
	if n != nil {
		p = x.w.pos(n.Pos())
	}
	o := &Obl{Name: name, Kind: kind, Pos: p, Goal: goal, PC: pc, NFacts: len(x.facts)}
	x.obls = append(x.obls, o)
	return o
}

// point records a statement whose reachability is looked at in the end: a
// contradiction among the assumed facts would show as an excluded statement.
func (x *Ex) point(st *State, what string, n ast.Node) {
	if x.spec > 0 || len(x.stack) > 0 || len(x.points) >= 40 {
		return
	}
	pc := x.pcTerm(st)
	if pc == x.t.False {
		return
	}
	o := &Obl{Name: what, Kind: "cover", Pos: x.w.pos(n.Pos()), Goal: x.t.False, PC: pc}
	for i, p := range x.points {
		if p.Pos == o.Pos && p.Name == o.Name {
			x.points[i] = o // the loop around it is looked at again
			return
		}
	}
	x.points = append(x.points, o)
}

// check emits a safety obligation and continues under its assumption.
func (x *Ex) check(st *State, goal *Term, what string, n ast.Node) {
	if x.spec > 0 {
		return
	}
	if goal == x.t.True {
		return
	}
	if strings.HasPrefix(what, "non-nil") && goal.Op == "not" && len(goal.Args[0].Args) == 1 {
		x.arcNodes(goal.Args[0].Args[0])
	}
	for _, p := range st.pc {
		if p == goal {
			return
		}
	}
	x.obl(st, "safety", what+": "+x.w.text(n), n, goal)
	st.pc = append(st.pc, goal)
}

// arcNodes: the nodes that the arc library returns are never nil.
func (x *Ex) arcNodes(p *Term) {
	if p.Op == "ite" {
		x.arcNodes(p.Args[1])
		x.arcNodes(p.Args[2])
		return
	}
	if strings.HasPrefix(p.Op, "at_") && len(p.Args) == 2 && strings.HasSuffix(p.Args[0].Op, "arcs.RArc.Children") {
		x.noteAssume("github.com/joshuanario/arcs: no node of a tree is nil")
		x.fact(x.t.Not(x.t.IsNil(p)))
	}
}

func (x *Ex) typeOf(e ast.Expr) types.Type {
	if tv, ok := x.pkg.Info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := x.pkg.Info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	x.unsupported(e, "no type for %s", x.w.text(e))
	return nil
}

// ---------------------------------------------------------------- values

func (x *Ex) toTerm(v Val, st *State, n ast.Node) *Term {
	switch u := v.(type) {
	case *Term:
		return u
	case *RefVal:
		if u.addr {
			c := x.readLV(st, u.lv, n)
			if st != nil && x.spec == 0 {
				x.escaped[u.lv.root] = true
				x.addrOut[u.lv.root] = true
				ps := x.t.PtrOf(c.Sort)
				x.held[ps.Name] = append(x.held[ps.Name], holding{u.lv.root, nodePos(n), nil})
			}
			return x.t.Some(x.t.PtrOf(c.Sort), c)
		}
		return x.readLV(st, u.lv, n)
	case *FuncVal:
		if u.term != nil {
			return u.term
		}
		id, caps := x.captures(u, st)
		var s *Sort
		if u.lit != nil {
			s = x.sortOf(u.pkg.Info.Types[u.lit].Type)
		} else {
			s = x.sortOf(u.obj.Type())
		}
		tm := x.t.App("clo!"+id, s, caps...)
		return tm
	}
	x.unsupported(n, "value %T used as a term", v)
	return nil
}

func (x *Ex) term(e ast.Expr, st *State) *Term { return x.toTerm(x.expr(e, st), st, e) }

func (x *Ex) constTerm(v constant.Value, t types.Type, n ast.Node) *Term {
	switch v.Kind() {
	case constant.Bool:
		return x.t.BoolLit(constant.BoolVal(v))
	case constant.String:
		return x.t.StrLit(constant.StringVal(v))
	case constant.Int:
		if x.sortOf(t) == x.t.Flt {
			return x.fltConst(v)
		}
		i, ok := constant.Int64Val(v)
		if !ok {
			return x.t.Const("bigint!"+v.ExactString(), x.t.Int)
		}
		return x.t.IntLit(i)
	case constant.Float:
		if x.sortOf(t) == x.t.Int {
			if i, ok := constant.Int64Val(constant.ToInt(v)); ok {
				return x.t.IntLit(i)
			}
		}
		return x.fltConst(v)
	}
	x.unsupported(n, "constant %s", v)
	return nil
}

func (x *Ex) fltConst(v constant.Value) *Term {
	f, _ := constant.Float64Val(v)
	return x.t.FltLit(fmt.Sprintf("%g", f))
}

// convert adapts a value to the static type it is assigned to (boxing).
func (x *Ex) convert(v Val, from, to types.Type, st *State, n ast.Node) Val {
	if to == nil || from == nil {
		return v
	}
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		switch to.Underlying().(type) {
		case *types.Signature:
			return x.t.Const("nilfn!"+x.sortOf(to).Name, x.sortOf(to))
		}
		return x.zero(to)
	}
	_, toI := to.Underlying().(*types.Interface)
	_, fromI := from.Underlying().(*types.Interface)
	if toI && !fromI {
		tm := x.toTerm(v, st, n)
		return x.box(tm, from)
	}
	_, toS := to.Underlying().(*types.Struct)
	_, fromS := from.Underlying().(*types.Struct)
	if toS && fromS {
		// the same fields under another type name
		a, b := x.sortOf(from), x.sortOf(to)
		if a != b && a.Kind == KStruct && b.Kind == KStruct && len(a.Fields) == len(b.Fields) {
			tm := x.toTerm(v, st, n)
			fs := make([]*Term, len(b.Fields))
			for i, f := range b.Fields {
				if a.Fields[i].Sort != f.Sort {
					return v
				}
				fs[i] = x.t.Sel(tm, i)
			}
			return x.t.Struct(b, fs...)
		}
	}
	return v
}

func (x *Ex) box(tm *Term, from types.Type) *Term {
	tn := sanitize(types.TypeString(from, shortQual))
	r := x.t.App("box:"+tm.Sort.Name, x.t.Any, tm)
	x.fact(x.t.App("istype!"+tn, x.t.Bool, r))
	return r
}

// ---------------------------------------------------------------- lvalues

func (x *Ex) getVar(st *State, o types.Object, n ast.Node) Val {
	if v, ok := st.vars[o]; ok {
		return v
	}
	if vr, ok := o.(*types.Var); ok && vr.Pkg() != nil && vr.Parent() == vr.Pkg().Scope() {
		// package-level variable
		c := x.t.Const("glob!"+vr.Pkg().Name()+"."+vr.Name(), x.sortOf(vr.Type()))
		x.assumption["package variable "+vr.Pkg().Name()+"."+vr.Name()+" keeps its value during a call"] = true
		if isModule(vr.Pkg()) {
			if tm := x.globalInit(vr); tm != nil {
				return tm
			}
		} else if c.Sort == x.t.Any {
			x.fact(x.t.Not(x.t.Eq(c, x.t.Const("nil_any", x.t.Any))))
		}
		return c
	}
	x.unsupported(n, "unknown variable %s", o.Name())
	return nil
}

// initial value of a package variable that no function assigns
func (x *Ex) globalInit(v *types.Var) *Term {
	if x.w.GlobalW[v] {
		return nil
	}
	p := x.w.Pkgs[v.Pkg().Path()]
	if p == nil {
		return nil
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, nm := range vs.Names {
					if p.Info.Defs[nm] == v && i < len(vs.Values) {
						switch vs.Values[i].(type) {
						case *ast.CompositeLit, *ast.BasicLit, *ast.BinaryExpr, *ast.Ident, *ast.SelectorExpr:
							old := x.pkg
							x.pkg = p
							x.spec++
							r := x.toTerm(x.expr(vs.Values[i], &State{vars: map[types.Object]Val{}}), nil, vs.Values[i])
							x.spec--
							x.pkg = old
							return r
						}
					}
				}
			}
		}
	}
	return nil
}

func (x *Ex) lval(e ast.Expr, st *State) *LV {
	switch u := e.(type) {
	case *ast.ParenExpr:
		return x.lval(u.X, st)
	case *ast.Ident:
		o := x.pkg.Info.ObjectOf(u)
		if o == nil {
			return nil
		}
		if _, ok := o.(*types.Var); !ok {
			return nil
		}
		return &LV{root: o}
	case *ast.SelectorExpr:
		sel := x.pkg.Info.Selections[u]
		if sel == nil {
			if o, ok := x.pkg.Info.Uses[u.Sel].(*types.Var); ok {
				return &LV{root: o}
			}
			return nil
		}
		if sel.Kind() != types.FieldVal {
			return nil
		}
		lv := x.lval(u.X, st)
		if lv == nil {
			return nil
		}
		t := x.typeOf(u.X)
		for _, i := range sel.Index() {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				lv = x.derefLV(lv, st, u.X)
				t = p.Elem()
			}
			s := x.sortOf(t)
			if s.Kind != KStruct {
				if !isNode(t) {
					return nil
				}
				lv = lv.add(Step{kind: 4, idx: i, node: t})
			} else {
				lv = lv.add(Step{kind: 0, idx: i})
			}
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
		return lv
	case *ast.StarExpr:
		lv := x.lval(u.X, st)
		if lv == nil {
			return nil
		}
		return x.derefLV(lv, st, u)
	case *ast.IndexExpr:
		lv := x.lval(u.X, st)
		if lv == nil {
			return nil
		}
		t := x.typeOf(u.X)
		if p, ok := t.Underlying().(*types.Pointer); ok {
			lv = x.derefLV(lv, st, u.X)
			t = p.Elem()
		}
		switch tt := t.Underlying().(type) {
		case *types.Map:
			lv = x.throughAlias(lv, st)
			k := x.convert(x.expr(u.Index, st), x.typeOf(u.Index), tt.Key(), st, u)
			return lv.add(Step{kind: 3, t: x.toTerm(k, st, u)})
		case *types.Slice, *types.Array:
			lv = x.throughAlias(lv, st)
			i := x.term(u.Index, st)
			s := x.readLV(st, lv, u)
			x.check(st, x.t.And(x.t.Le(x.t.IntLit(0), i), x.t.Lt(i, x.t.Len(s))), "index in range", u)
			return lv.add(Step{kind: 2, t: i})
		}
		return nil
	}
	return nil
}

func (lv *LV) add(s Step) *LV {
	return &LV{root: lv.root, steps: append(lv.steps[:len(lv.steps):len(lv.steps)], s)}
}

// throughAlias resolves variables that alias another place.
func (x *Ex) throughAlias(lv *LV, st *State) *LV {
	for {
		r, ok := st.vars[lv.root].(*RefVal)
		if !ok {
			return lv
		}
		if r.addr {
			// pointer variable: only its dereference goes elsewhere
			if len(lv.steps) > 0 && lv.steps[0].kind == 1 {
				lv = &LV{root: r.lv.root, steps: append(append([]Step{}, r.lv.steps...), lv.steps[1:]...)}
				continue
			}
			return lv
		}
		lv = &LV{root: r.lv.root, steps: append(append([]Step{}, r.lv.steps...), lv.steps...)}
	}
}

func (x *Ex) derefLV(lv *LV, st *State, n ast.Node) *LV {
	lv = x.throughAlias(lv.add(Step{kind: 1}), st)
	// nil check, unless the pointer is a known address
	if len(lv.steps) > 0 && lv.steps[len(lv.steps)-1].kind == 1 {
		base := &LV{root: lv.root, steps: lv.steps[:len(lv.steps)-1]}
		p := x.readLV(st, base, n)
		x.check(st, x.t.Not(x.t.IsNil(p)), "non-nil dereference", n)
	}
	return lv
}

func (x *Ex) readLV(st *State, lv *LV, n ast.Node) *Term {
	lv = x.throughAlias(lv, st)
	v := x.getVar(st, lv.root, n)
	cur := x.toTerm(v, st, n)
	for _, s := range lv.steps {
		cur = x.step(cur, s)
	}
	return cur
}

func (x *Ex) step(cur *Term, s Step) *Term {
	switch s.kind {
	case 0:
		return x.t.Sel(cur, s.idx)
	case 1:
		return x.t.Deref(cur)
	case 2:
		return x.t.At(cur, s.t)
	case 4:
		return x.nodeField(cur, s.node, s.idx)
	default:
		return x.t.Deref(x.t.MapGetOpt(cur, s.t))
	}
}

func (x *Ex) writeLV(st *State, lv *LV, v Val, n ast.Node) {
	lv = x.throughAlias(lv, st)
	x.shared(st, lv, false, n)
	if len(lv.steps) == 0 {
		x.setVar(st, lv.root, v)
		return
	}
	tv := x.toTerm(v, st, n)
	cur := x.toTerm(x.getVar(st, lv.root, n), st, n)
	st.vars[lv.root] = x.update(st, cur, lv.steps, tv, n)
}

func (x *Ex) update(st *State, cur *Term, steps []Step, v *Term, n ast.Node) *Term {
	if len(steps) == 0 {
		if cur.Sort != v.Sort {
			x.unsupported(n, "assignment changes sort %s to %s", cur.Sort, v.Sort)
		}
		return v
	}
	s := steps[0]
	switch s.kind {
	case 0:
		return x.t.SetField(cur, s.idx, x.update(st, x.t.Sel(cur, s.idx), steps[1:], v, n))
	case 1:
		return x.t.Some(cur.Sort, x.update(st, x.t.Deref(cur), steps[1:], v, n))
	case 4:
		fs := x.nodeFields(cur, s.node)
		fs[s.idx] = x.update(st, fs[s.idx], steps[1:], v, n)
		return x.mkNode(s.node, fs)
	case 2:
		return x.t.Upd(cur, s.t, x.update(st, x.t.At(cur, s.t), steps[1:], v, n))
	default:
		x.check(st, x.t.Not(x.t.MapIsNil(cur)), "write to nil map", n)
		var inner *Term
		if len(steps) == 1 {
			inner = v
		} else {
			old := x.t.Deref(x.t.MapGetOpt(cur, s.t))
			if old.Sort.Kind == KMap {
				// writing into a missing inner map is a nil-map write
				x.check(st, x.t.Not(x.t.IsNil(x.t.MapGetOpt(cur, s.t))), "write to nil map", n)
			}
			inner = x.update(st, old, steps[1:], v, n)
		}
		return x.t.MapPut(cur, s.t, inner)
	}
}

// writePlace changes the content of a place that others may alias.
func (x *Ex) writePlace(st *State, lv *LV, v *Term, n ast.Node) {
	lv = x.throughAlias(lv, st)
	x.shared(st, lv, true, n)
	if len(lv.steps) == 0 {
		st.vars[lv.root] = v
		return
	}
	x.writeLV(st, lv, v, n)
}

// setVar assigns a whole variable; variables that alias its old content keep it.
func (x *Ex) setVar(st *State, o types.Object, v Val) {
	for k, w := range st.vars {
		if r, ok := w.(*RefVal); ok && !r.addr && r.lv.root == o && k != o {
			st.vars[k] = x.readLV(st, r.lv, nil)
		}
	}
	st.vars[o] = v
}

// isRefType: maps and pointers, whose copies share content
func isRefType(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Map, *types.Pointer:
		return true
	}
	return false
}

// valueFor evaluates the right-hand side of an assignment or an argument; for
// reference types that are stored in a place it yields an alias of the place.
func (x *Ex) valueFor(e ast.Expr, st *State, alias bool) Val {
	if alias && x.spec == 0 && isRefType(x.typeOf(e)) {
		switch ue := unparen(e).(type) {
		case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr:
			if id, ok := ue.(*ast.Ident); ok {
				if r, ok := st.vars[x.pkg.Info.ObjectOf(id)].(*RefVal); ok {
					return r
				}
				if x.pkg.Info.Types[ue].IsNil() {
					break
				}
			}
			if ie, ok := ue.(*ast.IndexExpr); ok {
				if _, isMap := x.typeOf(ie.X).Underlying().(*types.Map); isMap {
					break // may be absent
				}
			}
			if lv := x.lval(ue, st); lv != nil {
				lv = x.throughAlias(lv, st)
				if _, known := st.vars[lv.root]; known {
					return &RefVal{lv: lv}
				}
			}
		}
	}
	v := x.expr(e, st)
	if !alias {
		x.copied(e, nil, st)
		if r, ok := v.(*RefVal); ok && !r.addr && x.spec == 0 {
			x.escaped[r.lv.root] = true
			for _, s := range x.refSorts(x.typeOf(e)) {
				x.held[s.Name] = append(x.held[s.Name], holding{nil, e.Pos(), nil})
			}
		}
	}
	return v
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---------------------------------------------------------------- merging

func (x *Ex) merge(a, b *State) *State {
	if a == nil || x.dead(a) {
		return b
	}
	if b == nil || x.dead(b) {
		return a
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ra, rb := x.t.And(a.pc[k:]...), x.t.And(b.pc[k:]...)
	n := &State{vars: make(map[types.Object]Val, len(a.vars)), pc: append([]*Term{}, a.pc[:k]...)}
	j := x.t.Or(ra, rb)
	j = x.simplifyOr(ra, rb, j)
	if j != x.t.True {
		n.pc = append(n.pc, j)
	}
	// choose the simpler discriminating condition
	cond, flip := ra, false
	if size(rb) < size(ra) {
		cond, flip = rb, true
	}
	for o, va := range a.vars {
		vb, ok := b.vars[o]
		if !ok {
			continue
		}
		if sameVal(va, vb) {
			n.vars[o] = va
			continue
		}
		if fa, ok := va.(*FuncVal); ok {
			fb, ok := vb.(*FuncVal)
			if ok && fa.lit != nil && fa.lit == fb.lit {
				n.vars[o] = va
				continue
			}
			if !ok {
				continue // not comparable: out of scope afterwards or unused
			}
		}
		_, refA := va.(*RefVal)
		_, refB := vb.(*RefVal)
		ta, tb := x.toTerm(va, a, nil), x.toTerm(vb, b, nil)
		if ta.Sort != tb.Sort {
			continue
		}
		if (refA || refB) && x.spec == 0 {
			x.escaped[o] = true // no longer a known alias: only reading is safe
		}
		if flip {
			n.vars[o] = x.t.Ite(cond, tb, ta)
		} else {
			n.vars[o] = x.t.Ite(cond, ta, tb)
		}
	}
	if len(a.defers) == len(b.defers) {
		n.defers = a.defers
	} else if len(a.defers) > len(b.defers) {
		n.defers = a.defers
	} else {
		n.defers = b.defers
	}
	return n
}

func size(t *Term) int {
	if t.Op == "and" || t.Op == "or" {
		return 1 + len(t.Args)
	}
	return 1
}

// (a ∧ c1..) ∨ (¬a ∧ c2..) patterns: drop what is implied structurally
func (x *Ex) simplifyOr(ra, rb, j *Term) *Term {
	if x.t.Not(ra) == rb {
		return x.t.True
	}
	return j
}

func sameVal(a, b Val) bool {
	if a == b {
		return true
	}
	ra, ok1 := a.(*RefVal)
	rb, ok2 := b.(*RefVal)
	if ok1 && ok2 && ra.addr == rb.addr && ra.lv.root == rb.lv.root && len(ra.lv.steps) == len(rb.lv.steps) {
		for i := range ra.lv.steps {
			if ra.lv.steps[i] != rb.lv.steps[i] {
				return false
			}
		}
		return true
	}
	fa, ok1 := a.(*FuncVal)
	fb, ok2 := b.(*FuncVal)
	if ok1 && ok2 {
		return fa.lit == fb.lit && fa.obj == fb.obj && fa.term == fb.term && sameVal(fa.recv, fb.recv)
	}
	return false
}

func (x *Ex) mergeVals(a, b *State, va, vb []Val) (*State, []Val) {
	if a == nil || x.dead(a) {
		return b, vb
	}
	if b == nil || x.dead(b) {
		return a, va
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	ra, rb := x.t.And(a.pc[k:]...), x.t.And(b.pc[k:]...)
	cond, flip := ra, false
	if size(rb) < size(ra) {
		cond, flip = rb, true
	}
	out := make([]Val, len(va))
	for i := range va {
		if sameVal(va[i], vb[i]) {
			out[i] = va[i]
			continue
		}
		ta, tb := x.toTerm(va[i], a, nil), x.toTerm(vb[i], b, nil)
		if flip {
			out[i] = x.t.Ite(cond, tb, ta)
		} else {
			out[i] = x.t.Ite(cond, ta, tb)
		}
	}
	return x.merge(a, b), out
}

// splitOutcomes merges all outcomes of one kind into one state.
func (x *Ex) collect(outs []Outcome, pred func(Outcome) bool) (*State, []Outcome) {
	var st *State
	var rest []Outcome
	for _, o := range outs {
		if pred(o) {
			st = x.merge(st, o.st)
		} else {
			rest = append(rest, o)
		}
	}
	return st, rest
}

// ---------------------------------------------------------------- statements

func (x *Ex) block(list []ast.Stmt, st *State) []Outcome {
	var done []Outcome
	cur := st
	for _, s := range list {
		if cur == nil {
			break
		}
		outs := x.stmt(s, cur)
		var next *State
		for _, o := range outs {
			if o.kind == ONext {
				next = x.merge(next, o.st)
			} else {
				done = append(done, o)
			}
		}
		cur = next
		if cur != nil && x.dead(cur) {
			cur = nil
		}
	}
	if cur != nil {
		done = append(done, Outcome{kind: ONext, st: cur})
	}
	return done
}

func next(st *State) []Outcome { return []Outcome{{kind: ONext, st: st}} }

func (x *Ex) stmt(s ast.Stmt, st *State) []Outcome {
	switch u := s.(type) {
	case *ast.BlockStmt:
		return x.block(u.List, st)
	case *ast.EmptyStmt:
		return next(st)
	case *ast.ExprStmt:
		if c, ok := unparen(u.X).(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "panic" {
				if _, ok := x.pkg.Info.Uses[id].(*types.Builtin); ok {
					if x.spec == 0 {
						x.obl(st, "safety", "panic is unreachable: "+x.w.text(c), c, x.t.False)
					}
					return nil
				}
			}
		}
		x.exprMulti(u.X, st)
		return next(st)
	case *ast.AssignStmt:
		x.assign(u, st)
		return next(st)
	case *ast.IncDecStmt:
		lv := x.lval(u.X, st)
		if lv == nil {
			x.unsupported(u, "++ on %s", x.w.text(u.X))
		}
		v := x.term(u.X, st)
		d := int64(1)
		if u.Tok == token.DEC {
			d = -1
		}
		if v.Sort != x.t.Int {
			x.unsupported(u, "++ on non-integer")
		}
		x.writeLV(st, lv, x.t.Add(v, x.t.IntLit(d)), u)
		return next(st)
	case *ast.DeclStmt:
		gd := u.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return next(st)
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, nm := range vs.Names {
					o := x.pkg.Info.Defs[nm]
					if o != nil {
						x.newVar(st, o, x.zeroVal(o.Type()))
					}
				}
				continue
			}
			lhs := make([]ast.Expr, len(vs.Names))
			for i := range vs.Names {
				lhs[i] = vs.Names[i]
			}
			x.assignTo(lhs, vs.Values, true, st, u)
		}
		return next(st)
	case *ast.IfStmt:
		if u.Init != nil {
			outs := x.stmt(u.Init, st)
			st = outs[0].st
		}
		c := x.term(u.Cond, st)
		var outs []Outcome
		if c != x.t.False {
			outs = append(outs, x.block(u.Body.List, st.with(c))...)
		}
		nc := x.t.Not(c)
		if nc != x.t.False {
			e := st.with(nc)
			if u.Else != nil {
				outs = append(outs, x.stmt(u.Else, e)...)
			} else {
				outs = append(outs, Outcome{kind: ONext, st: e})
			}
		}
		return outs
	case *ast.ReturnStmt:
		x.point(st, "return", u)
		return x.ret(u, st)
	case *ast.BranchStmt:
		l := ""
		if u.Label != nil {
			l = u.Label.Name
		}
		switch u.Tok {
		case token.BREAK:
			x.point(st, "break", u)
			return []Outcome{{kind: OBreak, label: l, st: st}}
		case token.CONTINUE:
			x.point(st, "continue", u)
			return []Outcome{{kind: OContinue, label: l, st: st}}
		}
		x.unsupported(u, "%s", u.Tok)
	case *ast.LabeledStmt:
		return x.loopStmt(u.Stmt, st, u.Label.Name)
	case *ast.ForStmt, *ast.RangeStmt:
		return x.loopStmt(s, st, "")
	case *ast.SwitchStmt:
		return x.switchStmt(u, st)
	case *ast.TypeSwitchStmt:
		return x.typeSwitch(u, st)
	case *ast.GoStmt:
		x.noteAssume("goroutines are executed as if started and finished in program order")
		x.call(u.Call, st)
		return next(st)
	case *ast.DeferStmt:
		fv, args := x.calleeAndArgs(u.Call, st)
		st.defers = append(st.defers[:len(st.defers):len(st.defers)], deferred{call: u.Call, fv: fv, args: args, pkg: x.pkg})
		return next(st)
	case *ast.SendStmt, *ast.SelectStmt:
		x.unsupported(s, "channel operation")
	}
	x.unsupported(s, "statement %T", s)
	return nil
}

func (x *Ex) noteAssume(s string) {
	if x.spec == 0 {
		x.assumption[s] = true
	}
}

func (x *Ex) newVar(st *State, o types.Object, v Val) {
	// a redeclared variable (next iteration or next inlining) is a new one
	x.setVar(st, o, v)
	delete(x.escaped, o)
	delete(x.addrOut, o)
}

func (x *Ex) zeroVal(t types.Type) Val {
	if _, ok := t.Underlying().(*types.Signature); ok {
		return x.t.Const("nilfn!"+x.sortOf(t).Name, x.sortOf(t))
	}
	return x.zero(t)
}

func (x *Ex) assign(u *ast.AssignStmt, st *State) {
	switch u.Tok {
	case token.ASSIGN, token.DEFINE:
		x.assignTo(u.Lhs, u.Rhs, u.Tok == token.DEFINE, st, u)
	default:
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND}
		op, ok := ops[u.Tok]
		if !ok {
			x.unsupported(u, "operator %s", u.Tok)
		}
		lv := x.lval(u.Lhs[0], st)
		if lv == nil {
			x.unsupported(u, "assignment to %s", x.w.text(u.Lhs[0]))
		}
		l := x.term(u.Lhs[0], st)
		r := x.term(u.Rhs[0], st)
		x.writeLV(st, lv, x.binop(op, l, r, x.typeOf(u.Lhs[0]), st, u), u)
	}
}

func (x *Ex) assignTo(lhs, rhs []ast.Expr, define bool, st *State, n ast.Node) {
	var vals []Val
	var tys []types.Type
	shared := map[int]bool{}
	if len(rhs) == len(lhs) {
		for i, r := range rhs {
			alias := false
			if id, ok := unparen(lhs[i]).(*ast.Ident); ok && id.Name != "_" {
				// local variable: may alias; fields hold values
				alias = true
			}
			x.callShared = false
			vals = append(vals, x.valueFor(r, st, alias && len(rhs) == 1))
			shared[i] = x.callShared
			tys = append(tys, x.typeOf(r))
		}
	} else {
		x.callShared = false
		vals = x.exprMulti(rhs[0], st)
		shared[0] = x.callShared
		if tup, ok := x.typeOf(rhs[0]).(*types.Tuple); ok {
			for i := 0; i < tup.Len(); i++ {
				tys = append(tys, tup.At(i).Type())
			}
		} else {
			for range vals {
				tys = append(tys, nil)
			}
		}
		if len(vals) != len(lhs) {
			x.unsupported(n, "assignment count: %d values for %d", len(vals), len(lhs))
		}
	}
	// places first (index expressions), then stores
	type place struct {
		lv  *LV
		obj types.Object
		def bool
		t   types.Type
	}
	ps := make([]place, len(lhs))
	for i, l := range lhs {
		if id, ok := l.(*ast.Ident); ok {
			if id.Name == "_" {
				continue
			}
			o := x.pkg.Info.Defs[id]
			def := o != nil
			if o == nil {
				o = x.pkg.Info.Uses[id]
			}
			ps[i] = place{obj: o, def: def, t: o.Type()}
			continue
		}
		lv := x.lval(l, st)
		if lv == nil {
			x.unsupported(n, "assignment to %s", x.w.text(l))
		}
		ps[i] = place{lv: lv, t: x.typeOf(l)}
	}
	for i, p := range ps {
		if p.t == nil {
			continue
		}
		v := x.convert(vals[i], tys[i], p.t, st, n)
		if p.obj != nil {
			r, isRef := v.(*RefVal)
			if isRef && !r.addr && r.lv.root == p.obj {
				if len(r.lv.steps) == 0 {
					continue // set to itself
				}
				v = x.readLV(st, r.lv, n)
				isRef = false
				x.escaped[p.obj] = true
			}
			if p.def {
				x.newVar(st, p.obj, v)
			}
			if !isRef {
				defer x.heldBy(lhs, rhs, i, p.obj, shared, st)
			}
			if p.def {
				continue
			}
			lv := &LV{root: p.obj}
			if r, ok := st.vars[p.obj].(*RefVal); ok && !r.addr {
				// plain reassignment of an aliasing variable rebinds it
				x.setVar(st, p.obj, v)
				continue
			}
			x.writeLV(st, lv, v, n)
			continue
		}
		x.writeLV(st, p.lv, v, n)
	}
}

func (x *Ex) ret(u *ast.ReturnStmt, st *State) []Outcome {
	res := x.curResults()
	var vals []Val
	if len(u.Results) == 0 {
		for _, r := range res {
			vals = append(vals, x.getVar(st, r, u))
		}
	} else if len(u.Results) == len(res) {
		for i, e := range u.Results {
			v := x.valueFor(e, st, true)
			v = x.convert(v, x.typeOf(e), res[i].Type(), st, u)
			if r, ok := v.(*RefVal); ok && !r.addr && x.spec == 0 {
				if len(x.bodies) > 1 && isRefType(res[i].Type()) && !x.localRoot(r.lv.root) && !x.isParam(r.lv.root) {
					vals = append(vals, r)
					continue
				}
				if x.escaped[r.lv.root] || len(r.lv.steps) > 0 {
					x.retShared[len(x.retShared)-1] = true
				}
			} else if id, ok := unparen(e).(*ast.Ident); ok && x.spec == 0 {
				if o := x.pkg.Info.ObjectOf(id); o != nil && (x.escaped[o] || x.addrOut[o]) {
					x.retShared[len(x.retShared)-1] = true
				}
			}
			if fv, ok := v.(*FuncVal); ok {
				vals = append(vals, fv)
				continue
			}
			if r, ok := v.(*RefVal); ok && r.addr && len(st.defers) == 0 && x.localRoot(r.lv.root) {
				// nothing can be written under the old name after the return
				c := x.readLV(st, r.lv, u)
				vals = append(vals, x.t.Some(x.t.PtrOf(c.Sort), c))
				continue
			}
			vals = append(vals, x.toTerm(v, st, u))
		}
	} else {
		vals = x.exprMulti(u.Results[0], st)
	}
	// named results are assigned before deferred calls run
	for i, r := range res {
		if r.Name() != "" && r.Name() != "_" && i < len(vals) {
			st.vars[r] = vals[i]
		}
	}
	return []Outcome{{kind: OReturn, st: st, vals: vals}}
}

// localRoot: declared in the body of the function being executed
func (x *Ex) localRoot(o types.Object) bool {
	if len(x.bodies) == 0 {
		return false
	}
	b := x.bodies[len(x.bodies)-1]
	return b.Pos() <= o.Pos() && o.Pos() < b.End()
}

// isParam: a parameter of the function being executed
func (x *Ex) isParam(o types.Object) bool {
	for _, p := range allParams(x.sigs[len(x.sigs)-1]) {
		if p == o {
			return true
		}
	}
	return false
}

// heldBy: after the assignment the variable holds what its right-hand side gave
func (x *Ex) heldBy(lhs, rhs []ast.Expr, i int, o types.Object, shared map[int]bool, st *State) {
	if x.spec > 0 {
		return
	}
	e, k := rhs[0], 0
	if len(lhs) == len(rhs) {
		e, k = rhs[i], i
	}
	if shared[k] {
		for _, s := range x.refSorts(o.Type()) {
			x.held[s.Name] = append(x.held[s.Name], holding{o, e.Pos(), nil}, holding{nil, e.Pos(), nil})
		}
		if isRefType(o.Type()) {
			x.escaped[o] = true
		}
		return
	}
	if len(lhs) == len(rhs) {
		x.copied(e, o, st)
		return
	}
	// several results
	if hasRefs(o.Type()) && !x.w.fresh(x.pkg, e) {
		for _, s := range x.refSorts(o.Type()) {
			x.held[s.Name] = append(x.held[s.Name], holding{o, e.Pos(), nil})
		}
		if isRefType(o.Type()) {
			x.escaped[o] = true
		}
	}
}

func (x *Ex) curResults() []*types.Var { return x.results[len(x.results)-1] }

func (x *Ex) switchStmt(u *ast.SwitchStmt, st *State) []Outcome {
	if u.Init != nil {
		st = x.stmt(u.Init, st)[0].st
	}
	var tag *Term
	if u.Tag != nil {
		tag = x.term(u.Tag, st)
	} else {
		tag = x.t.True
	}
	var outs []Outcome
	cur := st
	var def *ast.CaseClause
	type arm struct {
		st   *State
		body []ast.Stmt
		fall bool
	}
	var arms []arm
	for _, c := range u.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			arms = append(arms, arm{})
			continue
		}
		var alts []*Term
		for _, e := range cc.List {
			v := x.term(e, cur)
			if v.Sort != tag.Sort {
				x.unsupported(e, "case of another type")
			}
			alts = append(alts, x.t.Eq(tag, v))
		}
		c := x.t.Or(alts...)
		arms = append(arms, arm{st: cur.with(c), body: cc.Body})
		cur = cur.with(x.t.Not(c))
	}
	di := -1
	for i, c := range u.Body.List {
		if c.(*ast.CaseClause) == def && def != nil {
			di = i
		}
	}
	if def != nil {
		arms[di] = arm{st: cur, body: def.Body}
	} else {
		outs = append(outs, Outcome{kind: ONext, st: cur})
	}
	for i, a := range arms {
		if a.st == nil || x.dead(a.st) {
			continue
		}
		body := a.body
		for j := i; len(body) > 0; j++ {
			if b, ok := body[len(body)-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
				nb := append([]ast.Stmt{}, body[:len(body)-1]...)
				if j+1 < len(arms) {
					nb = append(nb, u.Body.List[j+1].(*ast.CaseClause).Body...)
				}
				body = nb
				continue
			}
			break
		}
		for _, o := range x.block(body, a.st) {
			if o.kind == OBreak && o.label == "" {
				o.kind = ONext
			}
			outs = append(outs, o)
		}
	}
	return outs
}

func (x *Ex) typeSwitch(u *ast.TypeSwitchStmt, st *State) []Outcome {
	if u.Init != nil {
		st = x.stmt(u.Init, st)[0].st
	}
	var e ast.Expr
	switch a := u.Assign.(type) {
	case *ast.ExprStmt:
		e = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		e = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	v := x.term(e, st)
	var outs []Outcome
	cur := st
	run := func(cc *ast.CaseClause, s *State, single types.Type) {
		if o := x.pkg.Info.Implicits[cc]; o != nil {
			var val Val = v
			if single != nil {
				val = x.unbox(v, single)
			}
			x.newVar(s, o, val)
		}
		for _, o := range x.block(cc.Body, s) {
			if o.kind == OBreak && o.label == "" {
				o.kind = ONext
			}
			outs = append(outs, o)
		}
	}
	var def *ast.CaseClause
	for _, c := range u.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
			continue
		}
		var alts []*Term
		var single types.Type
		for _, te := range cc.List {
			if x.pkg.Info.Types[te].IsNil() {
				alts = append(alts, x.t.Eq(v, x.t.Const("nil_any", x.t.Any)))
				continue
			}
			ty := x.typeOf(te)
			alts = append(alts, x.isType(v, ty))
			if len(cc.List) == 1 {
				single = ty
			}
		}
		c := x.t.Or(alts...)
		run(cc, cur.with(c), single)
		cur = cur.with(x.t.Not(c))
	}
	if def != nil {
		run(def, cur, nil)
	} else {
		outs = append(outs, Outcome{kind: ONext, st: cur})
	}
	return outs
}

func (x *Ex) isType(v *Term, ty types.Type) *Term {
	is := x.t.App("istype!"+sanitize(types.TypeString(ty, shortQual)), x.t.Bool, v)
	x.fact(x.t.Implies(is, x.t.Not(x.t.Eq(v, x.t.Const("nil_any", x.t.Any)))))
	return is
}

func (x *Ex) unbox(v *Term, ty types.Type) *Term {
	if _, ok := ty.Underlying().(*types.Interface); ok {
		return v
	}
	s := x.sortOf(ty)
	if v.Op == "box:"+s.Name {
		return v.Args[0]
	}
	x.t.declare("box:"+s.Name, []*Sort{s}, x.t.Any)
	return x.t.App("unbox:"+s.Name, s, v)
}

var _ = strings.TrimSpace

func nodePos(n ast.Node) token.Pos {
	if n == nil {
		return token.NoPos
	}
	return n.Pos()
}
