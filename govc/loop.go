package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// ModPath is a place changed by a loop body.
type ModPath struct {
	root  types.Object
	steps []Step // field and dereference steps only
	key   string
}

// Cand is a candidate loop invariant. Equality candidates give the value of a
// changed place at the loop head as a function of the iteration index.
type Cand struct {
	key  string
	path string
	eq   func(idx *Term) *Term            // value of the place
	inv  func(idx *Term, st *State) *Term // predicate on the head state
}

type hintInv struct{}

func pathKey(o types.Object, steps []Step) string {
	k := fmt.Sprintf("%s@%d", o.Name(), o.Pos())
	for _, s := range steps {
		k += fmt.Sprintf(".%d:%d", s.kind, s.idx)
	}
	return k
}

// diff lists the places where b differs from a.
func (x *Ex) diff(o types.Object, a, b *Term, steps []Step, out map[string]ModPath, depth int) {
	if a == b {
		return
	}
	if depth < 6 && a.Sort == b.Sort {
		switch a.Sort.Kind {
		case KStruct:
			for i := range a.Sort.Fields {
				x.diff(o, x.t.Sel(a, i), x.t.Sel(b, i), append(steps[:len(steps):len(steps)], Step{kind: 0, idx: i}), out, depth+1)
			}
			return
		case KUnint:
			if nt := x.nodeTypes[a.Sort.Name]; nt != nil && (a.Op == "mk!"+a.Sort.Name || b.Op == "mk!"+a.Sort.Name) {
				fa, fb := x.nodeFields(a, nt), x.nodeFields(b, nt)
				for i := range fa {
					x.diff(o, fa[i], fb[i], append(steps[:len(steps):len(steps)], Step{kind: 4, idx: i, node: nt}), out, depth+1)
				}
				return
			}
		case KPtr:
			na, nb := x.t.IsNil(a), x.t.IsNil(b)
			if na == x.t.False && nb == x.t.False || b.Op == "some:"+b.Sort.Name && contains(b, map[*Term]bool{x.t.Deref(a): true}) {
				x.diff(o, x.t.Deref(a), x.t.Deref(b), append(steps[:len(steps):len(steps)], Step{kind: 1}), out, depth+1)
				return
			}
		}
	}
	k := pathKey(o, steps)
	out[k] = ModPath{o, steps, k}
}

func covered(m map[string]ModPath, p ModPath) bool {
	if _, ok := m[p.key]; ok {
		return true
	}
	for i := 0; i < len(p.steps); i++ {
		if _, ok := m[pathKey(p.root, p.steps[:i])]; ok {
			return true
		}
	}
	return false
}

type loopInfo struct {
	key   string
	n     ast.Node
	label string
	entry *State
	mods  map[string]ModPath
	order []string

	seq    *Term // sequence iterated, or nil
	bound  *Term // upper bound of the index, or nil
	i0     *Term
	more   bool   // the condition has other conjuncts
	idxVar string // path of the index variable (for statements)
	cands  []*Cand
}

func (x *Ex) loopKey(n ast.Node) string {
	p := x.w.Fset.Position(n.Pos())
	k := fmt.Sprintf("%s:%d:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, p.Column)
	for _, c := range x.loopCtx {
		k += "<" + c
	}
	return k
}

func (x *Ex) loopStmt(s ast.Stmt, st *State, label string) []Outcome {
	if x.spec > 0 {
		if f, ok := s.(*ast.ForStmt); ok && f.Cond != nil {
			return x.onePass(f, st)
		}
		x.unsupported(s, "loop in a specification")
	}
	switch u := s.(type) {
	case *ast.RangeStmt:
		return x.rangeLoop(u, st, label)
	case *ast.ForStmt:
		return x.forLoop(u, st, label)
	}
	outs := x.stmt(s, st)
	for i := range outs {
		if outs[i].kind == OBreak && outs[i].label == label {
			outs[i].kind = ONext
		}
	}
	return outs
}

// onePass: a loop whose body always returns is a conditional.
func (x *Ex) onePass(u *ast.ForStmt, st *State) []Outcome {
	if u.Init != nil {
		st = x.stmt(u.Init, st)[0].st
	}
	c := x.term(u.Cond, st)
	outs := x.block(u.Body.List, st.with(c))
	for _, o := range outs {
		if o.kind != OReturn {
			x.unsupported(u, "loop in a specification")
		}
	}
	if nc := x.t.Not(c); nc != x.t.False {
		outs = append(outs, Outcome{kind: ONext, st: st.with(nc)})
	}
	return outs
}

func (x *Ex) rangeLoop(u *ast.RangeStmt, st *State, label string) []Outcome {
	li := &loopInfo{key: x.loopKey(u), n: u, label: label, entry: st, i0: x.t.IntLit(0)}
	t := x.typeOf(u.X)
	bind := func(b *State, e ast.Expr, v Val, ty types.Type) {
		if e == nil {
			return
		}
		if id, ok := e.(*ast.Ident); ok {
			if id.Name == "_" {
				return
			}
			if u.Tok == token.DEFINE {
				o := x.pkg.Info.Defs[id]
				x.newVar(b, o, v)
				if x.spec == 0 {
					for _, s := range x.refSorts(o.Type()) {
						x.held[s.Name] = append(x.held[s.Name], holding{o, id.Pos(), x.baseVar(u.X)})
					}
					if isRefType(o.Type()) {
						x.escaped[o] = true
					}
				}
				return
			}
		}
		lv := x.lval(e, b)
		if lv == nil {
			x.unsupported(u, "range variable")
		}
		x.writeLV(b, lv, v, u)
	}
	var pre func(b *State, i *Term)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if at, ok := p.Elem().Underlying().(*types.Array); ok {
			t = at
		}
	}
	switch tt := t.Underlying().(type) {
	case *types.Slice, *types.Array:
		s := x.term(u.X, st)
		if s.Sort.Kind == KPtr {
			s = x.t.Deref(s)
		}
		li.seq, li.bound = s, x.t.Len(s)
		// the elements are read when they are reached
		var place *LV
		if _, isSlice := tt.(*types.Slice); isSlice {
			if lv := x.lval(u.X, st); lv != nil {
				place = x.throughAlias(lv, st)
			}
		}
		pre = func(b *State, i *Term) {
			bind(b, u.Key, i, nil)
			el := x.t.At(s, i)
			if place != nil && li.changes(place) {
				cur := x.readLV(b, place, u)
				el = x.t.At(cur, i)
			}
			bind(b, u.Value, el, nil)
		}
	case *types.Map:
		m := x.term(u.X, st)
		e := x.newEnum(m, tt)
		li.seq, li.bound = e, x.t.Len(e)
		var place *LV
		if lv := x.lval(u.X, st); lv != nil {
			place = x.throughAlias(lv, st)
		}
		pre = func(b *State, i *Term) {
			el := x.t.At(e, i)
			k := x.t.Sel(el, 0)
			v := x.t.Sel(el, 1)
			if place != nil && li.changes(place) {
				cur := x.readLV(b, place, u)
				o := x.t.MapGetOpt(cur, k)
				x.obl(b, "safety", "keys are not removed while ranging over "+x.w.text(u.X), u, x.t.Not(x.t.IsNil(o)))
				v = x.t.Deref(o)
			}
			x.fact(x.t.Implies(x.t.And(x.t.Le(x.t.IntLit(0), i), x.t.Lt(i, x.t.Len(e))), x.t.Eq(x.t.MapGetOpt(m, k), x.t.Some(x.t.OptOf(m.Sort.Elem), x.t.Sel(el, 1)))))
			bind(b, u.Key, k, nil)
			bind(b, u.Value, v, nil)
		}
	case *types.Basic:
		v := x.term(u.X, st)
		if v.Sort == x.t.Int {
			li.bound = v
			pre = func(b *State, i *Term) { bind(b, u.Key, i, nil) }
			break
		}
		rs := x.t.App("str2runes", x.t.SeqOf(x.t.Int), v)
		li.seq, li.bound = rs, x.t.Len(rs)
		pre = func(b *State, i *Term) {
			k := x.t.App("runeoff", x.t.Int, v, i)
			x.t.StrLen(v)
			x.fact(x.t.And(x.t.Le(x.t.IntLit(0), k), x.t.Implies(x.t.Lt(i, x.t.Len(rs)), x.t.Lt(k, x.t.StrLen(v)))))
			bind(b, u.Key, k, nil)
			bind(b, u.Value, x.t.At(rs, i), nil)
		}
	default:
		x.unsupported(u, "range over %s", t)
	}
	if _, isInt := t.Underlying().(*types.Basic); !isInt || li.seq != nil {
		if li.bound == x.t.IntLit(0) {
			return next(st)
		}
	}
	return x.runLoop(li, nil, nil, u.Body, pre)
}

func (li *loopInfo) changes(lv *LV) bool {
	var fs []Step
	for _, s := range lv.steps {
		if s.kind > 1 {
			return true
		}
		fs = append(fs, s)
	}
	pk := pathKey(lv.root, fs)
	for k := range li.mods {
		if k == pk || strings.HasPrefix(k, pk+".") || strings.HasPrefix(pk, k+".") {
			return true
		}
	}
	return false
}

func (x *Ex) forLoop(u *ast.ForStmt, st *State, label string) []Outcome {
	if u.Init != nil {
		st = x.stmt(u.Init, st)[0].st
	}
	li := &loopInfo{key: x.loopKey(u), n: u, label: label, entry: st}
	return x.runLoop(li, u.Cond, u.Post, u.Body, nil)
}

// head builds the state at an arbitrary loop head (or at the exit).
func (x *Ex) head(li *loopInfo, idx *Term, tag string) *State {
	st := li.entry.clone()
	for _, k := range li.order {
		p := li.mods[k]
		// an alias that the loop rebinds becomes a plain value
		if r, ok := st.vars[p.root].(*RefVal); ok && len(p.steps) == 0 {
			if !r.addr {
				st.vars[p.root] = x.readLV(st, &LV{root: p.root}, li.n)
			} else {
				st.vars[p.root] = x.toTerm(r, st, li.n)
			}
			x.escaped[p.root] = true
		}
		if k == li.idxVar {
			x.setAt(st, p, idx, li.n)
			continue
		}
		var v *Term
		for _, c := range li.cands {
			if c.path == k && c.eq != nil && !x.dropped[c.key] {
				v = c.eq(idx)
				break
			}
		}
		if v == nil {
			old := x.readAt(st, p, li.n)
			v = x.t.Const("h!"+tag+"!"+li.key+"!"+k, old.Sort)
		}
		x.setAt(st, p, v, li.n)
	}
	return st
}

func (x *Ex) readAt(st *State, p ModPath, n ast.Node) *Term {
	cur := x.toTerm(st.vars[p.root], st, n)
	for _, s := range p.steps {
		cur = x.step(cur, s)
	}
	return cur
}

func (x *Ex) setAt(st *State, p ModPath, v *Term, n ast.Node) {
	if len(p.steps) == 0 {
		st.vars[p.root] = v
		return
	}
	cur := x.toTerm(st.vars[p.root], st, n)
	st.vars[p.root] = x.update(st, cur, p.steps, v, n)
}

// entry value of a changed place
func (x *Ex) entryVal(li *loopInfo, k string) *Term {
	p := li.mods[k]
	if r, ok := li.entry.vars[p.root].(*RefVal); ok && len(p.steps) == 0 {
		return x.toTermArg(r, li.entry, li.n)
	}
	return x.readAt(li.entry, p, li.n)
}

func (x *Ex) runLoop(li *loopInfo, cond ast.Expr, post ast.Stmt, body *ast.BlockStmt, pre func(*State, *Term)) []Outcome {
	tt := x.t
	if m, ok := x.modMemo[li.key]; ok {
		li.mods = map[string]ModPath{}
		for k, v := range m {
			if _, ok := li.entry.vars[v.root]; ok {
				li.mods[k] = v
			}
		}
	} else {
		li.mods = map[string]ModPath{}
	}
	nObl := len(x.obls)
	rangeBound, rangeSeq := li.bound, li.seq
	for round := 0; ; round++ {
		if round > 30 {
			x.unsupported(li.n, "loop does not stabilise")
		}
		x.obls = x.obls[:nObl]
		x.recall(li)
		before := x.outNow()
		li.order = sortedKeys(li.mods)
		li.cands = nil
		li.bound, li.seq, li.idxVar, li.more = rangeBound, rangeSeq, "", false
		if cond != nil {
			x.detectIndex(li, cond)
		}
		x.retarget(li)
		idx := tt.Const("i!"+li.key, tt.Int)
		exitIdx := li.bound
		if li.bound == nil {
			exitIdx = tt.Const("ix!"+li.key, tt.Int)
		}
		x.makeCands(li)
		// ---- initiation
		entryPC := li.entry.pc
		for _, c := range li.cands {
			if x.dropped[c.key] {
				continue
			}
			var g *Term
			if c.eq != nil {
				g = tt.Eq(x.entryVal(li, c.path), c.eq(li.i0))
			} else {
				g = c.inv(li.i0, li.entry)
			}
			o := x.obl(li.entry, "inv-init", c.key, li.n, g)
			if o != nil {
				o.Cand = c.key
			}
		}
		// ---- an arbitrary iteration
		h := x.head(li, idx, "b")
		x.assumeHead(li, h, idx, entryPC)
		if li.bound != nil {
			inr := tt.And(tt.Le(li.i0, idx), tt.Lt(idx, li.bound))
			h.pc = append(h.pc, inr)
			if li.i0 == tt.IntLit(0) && li.seq != nil {
				x.unfoldAll(li, idx)
			}
		}
		b := h.clone()
		var condExits []Outcome
		if cond != nil {
			c := x.term(cond, b)
			_ = condExits
			if li.bound == nil {
				b.pc = append(b.pc, c)
			} else {
				// cond is equivalent to idx < bound here
				b.pc = append(b.pc, c)
			}
		}
		if pre != nil {
			pre(b, idx)
		}
		nsite := len(x.loopCtx)
		x.point(b, "iteration", li.n)
		outs := x.block(body.List, b)
		x.loopCtx = x.loopCtx[:nsite]
		var end *State
		var leave []Outcome
		for _, o := range outs {
			switch {
			case o.kind == ONext || o.kind == OContinue && (o.label == "" || o.label == li.label):
				end = x.merge(end, o.st)
			default:
				leave = append(leave, o)
			}
		}
		if end != nil && post != nil {
			end = x.stmt(post, end)[0].st
		}
		// ---- what changed?
		newMods := map[string]ModPath{}
		states := []*State{}
		if end != nil {
			states = append(states, end)
		}
		for _, s := range states {
			for o := range li.entry.vars {
				hv, ok1 := h.vars[o]
				ev, ok2 := s.vars[o]
				if !ok1 || !ok2 || sameVal(hv, ev) {
					continue
				}
				if _, isF := hv.(*FuncVal); isF {
					if _, isF := ev.(*FuncVal); isF {
						x.unsupported(li.n, "loop changes the function variable %s", o.Name())
					}
				}
				_, ha := hv.(*RefVal)
				_, ea := ev.(*RefVal)
				if ha || ea {
					if ha && ea || x.isAliasable(o) {
						if ea && !ev.(*RefVal).addr {
							x.escaped[ev.(*RefVal).lv.root] = true
						}
						x.escaped[o] = true
						k := pathKey(o, nil)
						if _, ok := li.mods[k]; !ok {
							newMods[k] = ModPath{o, nil, k}
						}
						continue
					}
				}
				x.diff(o, x.toTermArg(hv, h, li.n), x.toTermArg(ev, s, li.n), nil, newMods, 0)
			}
		}
		grew := false
		for k, p := range newMods {
			if !covered(li.mods, p) {
				// drop longer paths subsumed by this one
				for k2 := range li.mods {
					if strings.HasPrefix(k2, k+".") {
						delete(li.mods, k2)
					}
				}
				li.mods[k] = p
				grew = true
			}
		}
		if grew {
			m := map[string]ModPath{}
			for k, v := range li.mods {
				m[k] = v
			}
			x.modMemo[li.key] = m
			panic(restartErr{})
		}
		if x.remember(li, before) {
			panic(restartErr{})
		}
		// ---- preservation
		if end != nil {
			nidx := tt.Add(idx, tt.IntLit(1))
			if li.idxVar != "" {
				got := x.readAt(end, li.mods[li.idxVar], li.n)
				ck := li.key + "|index"
				o := x.obl(end, "inv-step", ck, li.n, tt.Eq(got, nidx))
				o.Cand = ck
			}
			for _, c := range li.cands {
				if x.dropped[c.key] {
					continue
				}
				var g *Term
				if c.eq != nil {
					g = tt.Eq(x.endVal(end, li, c.path), c.eq(nidx))
				} else {
					g = c.inv(nidx, end)
				}
				o := x.obl(end, "inv-step", c.key, li.n, g)
				if o != nil {
					o.Cand = c.key
				}
			}
		}
		// ---- exit
		var result []Outcome
		var brk *State
		// the loop ends either from inside its body or at its condition: a free
		// constant chooses, so that no merge below takes one for the other
		ended := tt.Const("ended!"+li.key, tt.Bool)
		for _, o := range leave {
			o.st.pc = append(o.st.pc[:len(o.st.pc):len(o.st.pc)], tt.Not(ended))
			if o.kind == OBreak && (o.label == "" || o.label == li.label) {
				brk = x.merge(brk, x.restrict(o.st, li.entry))
			} else {
				result = append(result, o)
			}
		}
		var exit *State
		if li.bound != nil || cond != nil {
			exit = x.head(li, exitIdx, "x")
			exitPC := append([]*Term{}, entryPC...)
			if len(leave) > 0 {
				exit.pc = append(exit.pc, ended)
				exitPC = append(exitPC, ended)
			}
			early := tt.Const("early!"+li.key, tt.Bool)
			if li.more {
				exit.pc = append(exit.pc, tt.Not(early))
				x.assumeHead(li, exit, exitIdx, append(exitPC[:len(exitPC):len(exitPC)], tt.Not(early)))
			} else {
				x.assumeHead(li, exit, exitIdx, exitPC)
			}
			if cond != nil && li.bound == nil {
				c := x.term(cond, exit)
				exit.pc = append(exit.pc, tt.Not(c))
			}
			exit = x.restrict(exit, li.entry)
			if li.more {
				ix := tt.Const("iy!"+li.key, tt.Int)
				e2 := x.head(li, ix, "y")
				x.assumeHead(li, e2, ix, append(exitPC[:len(exitPC):len(exitPC)], early))
				e2.pc = append(e2.pc, tt.And(tt.Le(li.i0, ix), tt.Lt(ix, li.bound)))
				if li.i0 == tt.IntLit(0) && li.seq != nil {
					x.unfoldAll(li, ix)
				}
				c := x.term(cond, e2)
				e2.pc = append(e2.pc, tt.Not(c), early)
				if len(leave) > 0 {
					e2.pc = append(e2.pc, ended)
				}
				exit = x.merge(exit, x.restrict(e2, li.entry))
			}
		}
		if out := x.merge(exit, brk); out != nil {
			result = append(result, Outcome{kind: ONext, st: out})
		}
		return result
	}
}

// retarget: a loop over a sequence that no combinator mentions may still run
// over a sequence equal to one that is mentioned; the combinators are then
// followed on the loop's own sequence and congruence does the rest.
func (x *Ex) retarget(li *loopInfo) {
	if li.seq == nil || li.i0 != x.t.IntLit(0) || len(x.combsBySeq[li.seq.ID]) > 0 {
		return
	}
	for _, c := range append([]*Comb{}, x.combOrder...) {
		if c.seq.Sort != li.seq.Sort || c.retargeted {
			continue
		}
		n := *c
		n.seq = li.seq
		n.retargeted = true
		n.key = c.key[:strings.LastIndex(c.key, "@")] + fmt.Sprintf("@%d", li.seq.ID)
		if _, ok := x.combs[n.key]; ok {
			continue
		}
		x.combs[n.key] = &n
		x.combsBySeq[li.seq.ID] = append(x.combsBySeq[li.seq.ID], &n)
		x.combOrder = append(x.combOrder, &n)
		x.combBase(&n)
	}
}

func (x *Ex) isAliasable(o types.Object) bool { return true }

func (x *Ex) endVal(end *State, li *loopInfo, k string) *Term {
	p := li.mods[k]
	if r, ok := end.vars[p.root].(*RefVal); ok && len(p.steps) == 0 {
		return x.toTermArg(r, end, li.n)
	}
	return x.readAt(end, p, li.n)
}

// restrict drops the variables declared inside the loop.
func (x *Ex) restrict(st, entry *State) *State {
	for o := range st.vars {
		if _, ok := entry.vars[o]; !ok {
			delete(st.vars, o)
		}
	}
	return st
}

// detectIndex recognises  i < bound  with i changed by the loop.
func (x *Ex) detectIndex(li *loopInfo, cond ast.Expr) {
	ck := li.key + "|index"
	x.hinted(ck)
	x.hinted(li.key + "|bound")
	if x.dropped[ck] || x.dropped[li.key+"|bound"] {
		return
	}
	probe := li.entry.clone()
	consts := map[*Term]bool{}
	byConst := map[*Term]string{}
	for _, k := range li.order {
		old := x.entryVal(li, k)
		c := x.t.Const("probe!"+k, old.Sort)
		consts[c] = true
		byConst[c] = k
		x.setAt(probe, li.mods[k], c, li.n)
	}
	nObl := len(x.obls)
	c := x.term(cond, probe)
	x.obls = x.obls[:nObl]
	// a conjunction may contain the bound
	parts := []*Term{c}
	if c.Op == "and" {
		parts = c.Args
	}
	var bound, iv *Term
	k := ""
	for _, q := range parts {
		if q.Op != "not" || q.Args[0].Op != "<=" {
			continue
		}
		b, v := q.Args[0].Args[0], q.Args[0].Args[1]
		if kk, ok := byConst[v]; ok && !contains(b, consts) {
			bound, iv, k = b, v, kk
			break
		}
	}
	if iv == nil {
		return
	}
	li.more = len(parts) > 1
	li.idxVar = k
	li.bound = bound
	li.i0 = x.entryVal(li, k)
	if strings.HasPrefix(bound.Op, "len_") {
		li.seq = bound.Args[0]
	} else if bound.Op == "strlen" {
		li.seq = nil
	}
	if li.i0 != x.t.IntLit(0) {
		// the index must not pass the bound
		li.seq = nil
	}
}

// assumeHead assumes the surviving candidates at a loop head.
func (x *Ex) assumeHead(li *loopInfo, h *State, idx *Term, pc []*Term) {
	p := x.t.And(pc...)
	if li.bound != nil && !isInt(idx) {
		x.fact(x.t.Implies(p, x.t.Le(li.i0, idx)))
		if li.i0 == x.t.IntLit(0) && nonneg(li.bound) {
			x.fact(x.t.Implies(p, x.t.Le(idx, li.bound)))
		}
	}
	for _, c := range li.cands {
		if x.dropped[c.key] {
			continue
		}
		if c.eq != nil {
			x.fact(x.t.Implies(p, x.t.Eq(x.readAt(h, li.mods[c.path], li.n), c.eq(idx))))
		} else {
			x.fact(x.t.Implies(p, c.inv(idx, h)))
		}
	}
}

// storedKeys lists the keys of the last writes to an array.
func storedKeys(a *Term, out []*Term) []*Term {
	switch a.Op {
	case "store":
		for _, k := range out {
			if k == a.Args[1] {
				return out
			}
		}
		return append(out, a.Args[1])
	case "ite":
		return storedKeys(a.Args[2], storedKeys(a.Args[1], out))
	}
	return out
}

func (x *Ex) unfoldAll(li *loopInfo, idx *Term) {
	for k := 0; k < len(x.combsBySeq[li.seq.ID]); k++ {
		x.combUnfold(x.combsBySeq[li.seq.ID][k], idx)
	}
}

// makeCands proposes invariants.
func (x *Ex) makeCands(li *loopInfo) {
	tt := x.t
	add := func(c *Cand) {
		x.hinted(c.key)
		li.cands = append(li.cands, c)
	}
	var combs []*Comb
	if li.seq != nil && li.i0 == tt.IntLit(0) {
		// unfold first, so that the combinators of nested loops exist
		combs = append(combs, x.combsBySeq[li.seq.ID]...)
	}
	occ := map[string]int{}
	for _, cb := range combs {
		cb := cb
		occ[cb.sym]++
		ck := fmt.Sprintf("%s|%s.%d", li.key, cb.sym, occ[cb.sym])
		switch cb.kind {
		case "find":
			add(&Cand{key: ck + "|none before", inv: func(i *Term, st *State) *Term {
				return tt.Eq(x.combTerm(cb, tt.IntLit(0)), x.combTerm(cb, i))
			}})
		case "fold", "foldi":
			if cb.res.Kind == KMap {
				add(&Cand{key: ck + "|made", inv: func(i *Term, st *State) *Term { return tt.Not(tt.MapIsNil(x.combTerm(cb, i))) }})
			}
			for _, f := range x.absorbing(cb) {
				f := f
				add(&Cand{key: fmt.Sprintf("%s|unset %d", ck, f), inv: func(i *Term, st *State) *Term { return tt.Not(tt.Sel(x.combTerm(cb, i), f)) }})
			}
		case "all", "allent":
			add(&Cand{key: ck + "|all before", inv: func(i *Term, st *State) *Term { return x.combTerm(cb, i) }})
		}
	}
	for _, k := range li.order {
		k := k
		if k == li.idxVar {
			continue
		}
		p := li.mods[k]
		p0 := x.entryVal(li, k)
		cur := func(st *State) *Term {
			if r, ok := st.vars[p.root].(*RefVal); ok && len(p.steps) == 0 {
				return x.toTermArg(r, st, li.n)
			}
			return x.readAt(st, p, li.n)
		}
		// once an equation has failed it is tried while nothing was found
		guarded := func(c *Cand) {
			add(c)
			if !x.dropped[c.key] {
				return
			}
			occ := map[string]int{}
			for _, f := range combs {
				f := f
				if f.kind != "find" {
					continue
				}
				occ[f.sym]++
				add(&Cand{key: fmt.Sprintf("%s|unless %s.%d", c.key, f.sym, occ[f.sym]), inv: func(i *Term, st *State) *Term {
					r := x.combTerm(f, tt.IntLit(0))
					return tt.Or(tt.And(tt.Le(tt.IntLit(0), r), tt.Lt(r, i)), tt.Eq(cur(st), c.eq(i)))
				}})
			}
		}
		occ := map[string]int{}
		for _, cb := range combs {
			cb := cb
			occ[cb.sym]++
			ck := fmt.Sprintf("%s|%s|%s.%d", li.key, k, cb.sym, occ[cb.sym])
			switch cb.kind {
			case "filtermap", "filtermapi", "map", "mapi", "flatmap", "filter":
				if cb.res == p0.Sort {
					guarded(&Cand{key: ck + "|append", path: k, eq: func(i *Term) *Term { return tt.Concat(p0, x.combTerm(cb, i)) }})
				}
				if cb.res == p0.Sort && (cb.kind == "map" || cb.kind == "mapi") && !isEmptySeq(p0) {
					add(&Cand{key: ck + "|prefix", inv: func(i *Term, st *State) *Term {
						return tt.And(tt.Eq(tt.Len(cur(st)), tt.Len(p0)), tt.Eq(tt.Take(cur(st), i), x.combTerm(cb, i)))
					}})
				}
				if p0.Sort.Kind == KSeq && p0.Sort.Elem == cb.res && (cb.kind == "map" || cb.kind == "mapi") && strings.HasPrefix(p0.Op, "upd_") {
					// one row of a grid is being filled
					row := p0.Args[1]
					add(&Cand{key: ck + "|row", inv: func(i *Term, st *State) *Term {
						r := tt.At(cur(st), row)
						return tt.And(tt.Eq(cur(st), tt.Upd(p0.Args[0], row, r)), tt.Eq(tt.Len(r), tt.Len(tt.At(p0, row))), tt.Eq(tt.Take(r, i), x.combTerm(cb, i)))
					}})
				}
			case "fold", "foldi":
				if cb.res == p0.Sort {
					guarded(&Cand{key: ck + "|fold", path: k, eq: func(i *Term) *Term { return x.combTerm(cb, i) }})
				}
				if p0.Sort.Kind == KMap && p0.Sort.Elem == cb.res {
					// one entry of a map is being filled
					for n, key := range storedKeys(tt.MapArr(p0), nil) {
						key := key
						guarded(&Cand{key: fmt.Sprintf("%s|entry %d", ck, n), path: k, eq: func(i *Term) *Term { return tt.MapPut(p0, key, x.combTerm(cb, i)) }})
					}
				}
				if cb.res.Kind == KStruct {
					for fi, f := range cb.res.Fields {
						fi := fi
						if f.Sort == p0.Sort {
							guarded(&Cand{key: fmt.Sprintf("%s|fold.%d", ck, fi), path: k, eq: func(i *Term) *Term { return tt.Sel(x.combTerm(cb, i), fi) }})
						}
					}
				}
			case "find":
				if p0.Sort == tt.Bool {
					add(&Cand{key: ck + "|found", path: k, eq: func(i *Term) *Term {
						r := x.combTerm(cb, tt.IntLit(0))
						return tt.Or(p0, tt.And(tt.Le(tt.IntLit(0), r), tt.Lt(r, i)))
					}})
				}
				if p0.Sort == tt.Any || p0.Sort.Kind == KPtr {
					unset := func(v *Term) *Term {
						if v.Sort == tt.Any {
							return tt.Eq(v, tt.Const("nil_any", tt.Any))
						}
						return tt.IsNil(v)
					}
					add(&Cand{key: ck + "|set when found", inv: func(i *Term, st *State) *Term {
						r := x.combTerm(cb, tt.IntLit(0))
						return tt.Eq(unset(cur(st)), tt.And(unset(p0), tt.Not(tt.And(tt.Le(tt.IntLit(0), r), tt.Lt(r, i)))))
					}})
				}
			case "mapvals":
				if cb.res == p0.Sort {
					guarded(&Cand{key: ck + "|fold", path: k, eq: func(i *Term) *Term { return x.combTerm(cb, i) }})
				}
				// a view of the map that is being filled
				if p0.Sort.Kind == KMap {
					on := 0
					for _, o := range x.orderFrees {
						o := o
						if o.kind != "mapvals" || o.m.Sort != p0.Sort || o.res != cb.res || o.sym == cb.sym {
							continue
						}
						on++
						add(&Cand{key: fmt.Sprintf("%s|view %s.%d", ck, o.sym, on), inv: func(i *Term, st *State) *Term {
							return tt.Eq(x.project(o, tt.MapArr(cur(st))), x.combTerm(cb, i))
						}})
					}
				}
			case "all", "allent":
				if p0.Sort == tt.Bool {
					add(&Cand{key: ck + "|conj", path: k, eq: func(i *Term) *Term { return tt.And(p0, x.combTerm(cb, i)) }})
				}
			}
		}
		add(&Cand{key: li.key + "|" + k + "|same", path: k, eq: func(i *Term) *Term { return p0 }})
		switch p0.Sort.Kind {
		case KInt:
			if li.bound != nil {
				add(&Cand{key: li.key + "|" + k + "|count", path: k, eq: func(i *Term) *Term { return tt.Add(p0, tt.Sub(i, li.i0)) }})
			}
			add(&Cand{key: li.key + "|" + k + "|ge", inv: func(i *Term, st *State) *Term { return tt.Le(p0, cur(st)) }})
			if li.bound != nil {
				add(&Cand{key: li.key + "|" + k + "|lebound", inv: func(i *Term, st *State) *Term { return tt.Le(cur(st), li.bound) }})
				add(&Cand{key: li.key + "|" + k + "|ltbound", inv: func(i *Term, st *State) *Term { return tt.Lt(cur(st), li.bound) }})
			}
		case KSeq:
			add(&Cand{key: li.key + "|" + k + "|samelen", inv: func(i *Term, st *State) *Term { return tt.Eq(tt.Len(p0), tt.Len(cur(st))) }})
			if li.bound != nil {
				add(&Cand{key: li.key + "|" + k + "|addlen", inv: func(i *Term, st *State) *Term {
					return tt.Eq(tt.Len(cur(st)), tt.Add(tt.Len(p0), tt.Sub(i, li.i0)))
				}})
			}
			seen := map[string]int{}
			for _, cb := range x.combOrder {
				cb := cb
				if cb.kind != "all" || cb.seq.Sort != p0.Sort || cb.retargeted || seen[cb.sym] > 0 {
					continue
				}
				seen[cb.sym]++
				add(&Cand{key: fmt.Sprintf("%s|%s|each %s", li.key, k, cb.sym), inv: func(i *Term, st *State) *Term { return x.everywhere(cb, cur(st)) }})
			}
			add(&Cand{key: li.key + "|" + k + "|morelen", inv: func(i *Term, st *State) *Term { return tt.Le(tt.Len(p0), tt.Len(cur(st))) }})
		case KMap:
			// a set of the elements collected so far
			for _, k2 := range li.order {
				s0 := x.entryVal(li, k2)
				if s0.Sort.Kind != KSeq || s0.Sort.Elem != p0.Sort.Key {
					continue
				}
				p2 := li.mods[k2]
				x.seqContains(tt.Const("contains!use", s0.Sort), tt.Const("contains!key", p0.Sort.Key))
				opt := tt.OptOf(p0.Sort.Elem)
				in := fmt.Sprintf("(not (= (select $0 k) %s))", sym("nil:"+opt.Name))
				raw := "(forall ((k %s)) (! (= %s (%s $1 k)) :pattern ((select $0 k)) :pattern ((%[3]s $1 k))))"
				con := sym("contains_" + s0.Sort.Elem.Name)
				add(&Cand{key: li.key + "|" + k + "|keys of " + k2, inv: func(i *Term, st *State) *Term {
					return tt.mk("#raw:"+fmt.Sprintf(raw, p0.Sort.Key.Name, in, con), tt.Bool, x.named(tt.MapArr(cur(st))), x.named(x.readAt(st, p2, li.n)))
				}})
				if p0.Sort.Elem == tt.Bool {
					set := fmt.Sprintf("(and %s (%s (select $0 k)))", in, sym("val:"+opt.Name))
					add(&Cand{key: li.key + "|" + k + "|set of " + k2, inv: func(i *Term, st *State) *Term {
						return tt.mk("#raw:"+fmt.Sprintf(raw, p0.Sort.Key.Name, set, con), tt.Bool, x.named(tt.MapArr(cur(st))), x.named(x.readAt(st, p2, li.n)))
					}})
				}
			}
			add(&Cand{key: li.key + "|" + k + "|nonnil", inv: func(i *Term, st *State) *Term { return tt.Not(tt.MapIsNil(cur(st))) }})
			for n, key := range storedKeys(tt.MapArr(p0), nil) {
				key := key
				add(&Cand{key: fmt.Sprintf("%s|%s|has %d", li.key, k, n), inv: func(i *Term, st *State) *Term { return tt.Not(tt.IsNil(tt.MapGetOpt(cur(st), key))) }})
			}
			if p0.Sort.Elem.Kind == KPtr {
				opt := tt.OptOf(p0.Sort.Elem)
				raw := fmt.Sprintf("(forall ((k %s)) (! (or (= (select $0 k) %s) (not (= (%s (select $0 k)) %s))) :pattern ((select $0 k))))",
					p0.Sort.Key.Name, sym("nil:"+opt.Name), sym("val:"+opt.Name), sym("nil:"+p0.Sort.Elem.Name))
				add(&Cand{key: li.key + "|" + k + "|inner nonnil", inv: func(i *Term, st *State) *Term {
					return tt.mk("#raw:"+raw, tt.Bool, x.named(tt.MapArr(cur(st))))
				}})
			}
			if p0.Sort.Elem.Kind == KMap {
				opt := tt.OptOf(p0.Sort.Elem)
				tt.MapIsNil(tt.Const("mapnil!use", p0.Sort.Elem))
				raw := fmt.Sprintf("(forall ((k %s)) (! (or (= (select $0 k) %s) (not (%s (%s (select $0 k))))) :pattern ((select $0 k))))",
					p0.Sort.Key.Name, sym("nil:"+opt.Name), sym("mapnil:"+p0.Sort.Elem.Name), sym("val:"+opt.Name))
				add(&Cand{key: li.key + "|" + k + "|inner nonnil", inv: func(i *Term, st *State) *Term {
					return tt.mk("#raw:"+raw, tt.Bool, x.named(tt.MapArr(cur(st))))
				}})
			}
		case KPtr:
			add(&Cand{key: li.key + "|" + k + "|nonnil", inv: func(i *Term, st *State) *Term { return tt.Not(tt.IsNil(cur(st))) }})
		}
	}
	if li.idxVar != "" && li.bound != nil {
		// the index never passes the bound
		b := li.bound
		if !(li.i0 == tt.IntLit(0) && nonneg(b)) {
			x.noteSeen[li.key+"|bound"] = true
			add(&Cand{key: li.key + "|bound", inv: func(i *Term, st *State) *Term { return tt.Le(i, b) }})
		}
	}
	// candidates that can never hold are not worth a query
	var keep []*Cand
	for _, c := range li.cands {
		if c.eq != nil && !x.dropped[c.key] {
			v := c.eq(li.i0)
			p0 := x.entryVal(li, c.path)
			if g := tt.Eq(p0, v); g == tt.False {
				x.dropped[c.key] = true
			}
		}
		keep = append(keep, c)
	}
	li.cands = keep
}

// restartErr: the changed places of a loop or the references it lets out are
// known now; facts assumed without them must not stay.
type restartErr struct{}

// leak is what the body of a loop lets out, known at its next start.
type leak struct {
	escaped, addrOut map[types.Object]bool
	held             map[string]map[holding]bool
}

func (x *Ex) recall(li *loopInfo) {
	l := x.leaks[li.key]
	if l == nil {
		return
	}
	for o := range l.escaped {
		x.escaped[o] = true
	}
	for o := range l.addrOut {
		x.addrOut[o] = true
	}
	for n, hs := range l.held {
		for h := range hs {
			x.held[n] = append(x.held[n], h)
		}
	}
}

// outNow counts what is out.
func (x *Ex) outNow() *leak {
	l := &leak{map[types.Object]bool{}, map[types.Object]bool{}, map[string]map[holding]bool{}}
	for o := range x.escaped {
		l.escaped[o] = true
	}
	for o := range x.addrOut {
		l.addrOut[o] = true
	}
	for s, hs := range x.held {
		m := map[holding]bool{}
		for _, h := range hs {
			m[h] = true
		}
		l.held[s] = m
	}
	return l
}

func (x *Ex) remember(li *loopInfo, before *leak) bool {
	inside := func(o types.Object) bool { return o != nil && li.n.Pos() <= o.Pos() && o.Pos() < li.n.End() }
	l := x.leaks[li.key]
	if l == nil {
		l = &leak{map[types.Object]bool{}, map[types.Object]bool{}, map[string]map[holding]bool{}}
		x.leaks[li.key] = l
	}
	grew := false
	for o := range x.escaped {
		if _, ok := li.entry.vars[o]; ok && !inside(o) && !before.escaped[o] && !l.escaped[o] {
			l.escaped[o] = true
			grew = true
		}
	}
	for o := range x.addrOut {
		if _, ok := li.entry.vars[o]; ok && !inside(o) && !before.addrOut[o] && !l.addrOut[o] {
			l.addrOut[o] = true
			grew = true
		}
	}
	for s, hs := range x.held {
		for _, h := range hs {
			if inside(h.v) || before.held[s][h] {
				continue
			}
			if l.held[s] == nil {
				l.held[s] = map[holding]bool{}
			}
			if !l.held[s][h] {
				l.held[s][h] = true
				grew = true
			}
		}
	}
	return grew
}
