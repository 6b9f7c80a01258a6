package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

func (x *Ex) exprMulti(e ast.Expr, st *State) []Val {
	switch u := unparen(e).(type) {
	case *ast.CallExpr:
		v := x.call(u, st)
		if t, ok := v.(Tuple); ok {
			return t
		}
		if v == nil {
			return nil
		}
		return []Val{v}
	case *ast.IndexExpr: // v, ok := m[k]
		if mt, ok := x.typeOf(u.X).Underlying().(*types.Map); ok {
			if tv := x.pkg.Info.Types[e]; tv.Type != nil {
				if _, isTup := tv.Type.(*types.Tuple); isTup {
					m := x.term(u.X, st)
					k := x.toTerm(x.convert(x.expr(u.Index, st), x.typeOf(u.Index), mt.Key(), st, u), st, u)
					o := x.t.MapGetOpt(m, k)
					return []Val{x.t.Ite(x.t.IsNil(o), x.zero(mt.Elem()), x.t.Deref(o)), x.t.Not(x.t.IsNil(o))}
				}
			}
		}
	case *ast.TypeAssertExpr:
		if tv := x.pkg.Info.Types[e]; tv.Type != nil {
			if _, isTup := tv.Type.(*types.Tuple); isTup {
				v := x.term(u.X, st)
				ty := x.typeOf(u.Type)
				is := x.isType(v, ty)
				return []Val{x.t.Ite(is, x.unbox(v, ty), x.zero(ty)), is}
			}
		}
	}
	return []Val{x.expr(e, st)}
}

func (x *Ex) expr(e ast.Expr, st *State) Val {
	if tv, ok := x.pkg.Info.Types[e]; ok && tv.Value != nil {
		return x.constTerm(tv.Value, tv.Type, e)
	}
	switch u := e.(type) {
	case *ast.ParenExpr:
		return x.expr(u.X, st)
	case *ast.Ident:
		return x.ident(u, st)
	case *ast.BasicLit:
		x.unsupported(e, "literal")
	case *ast.SelectorExpr:
		return x.selector(u, st)
	case *ast.StarExpr:
		v := x.expr(u.X, st)
		if r, ok := v.(*RefVal); ok && r.addr {
			return x.readLV(st, r.lv, u)
		}
		p := x.toTerm(v, st, u)
		if p.Sort.Kind != KPtr {
			x.unsupported(u, "dereference of %s", p.Sort)
		}
		x.check(st, x.t.Not(x.t.IsNil(p)), "non-nil dereference", u)
		return x.t.Deref(p)
	case *ast.UnaryExpr:
		return x.unary(u, st)
	case *ast.BinaryExpr:
		return x.binary(u, st)
	case *ast.CallExpr:
		v := x.call(u, st)
		if t, ok := v.(Tuple); ok && len(t) == 1 {
			return t[0]
		}
		return v
	case *ast.IndexExpr:
		return x.index(u, st)
	case *ast.SliceExpr:
		return x.slice(u, st)
	case *ast.CompositeLit:
		return x.composite(u, st, x.typeOf(u))
	case *ast.FuncLit:
		fv := &FuncVal{lit: u, pkg: x.pkg}
		if x.spec > 0 {
			fv.env = st.clone()
		}
		return fv
	case *ast.TypeAssertExpr:
		v := x.term(u.X, st)
		ty := x.typeOf(u.Type)
		is := x.isType(v, ty)
		x.check(st, is, "type assertion", u)
		return x.unbox(v, ty)
	}
	x.unsupported(e, "expression %T", e)
	return nil
}

func (x *Ex) ident(u *ast.Ident, st *State) Val {
	if u.Name == "nil" {
		if x.pkg.Info.Types[u].IsNil() {
			t := x.pkg.Info.Types[u].Type
			if b, ok := t.(*types.Basic); !ok || b.Kind() != types.UntypedNil {
				return x.zeroVal(t)
			}
			return x.t.Const("nil_any", x.t.Any)
		}
	}
	o := x.pkg.Info.ObjectOf(u)
	switch f := o.(type) {
	case *types.Func:
		return &FuncVal{obj: f}
	case *types.Var:
		return x.getVar(st, f, u)
	}
	x.unsupported(u, "identifier %s", u.Name)
	return nil
}

// fieldPath follows a selection's implicit path from a value.
func (x *Ex) fieldPath(v Val, t types.Type, idx []int, st *State, n ast.Node) (*Term, types.Type) {
	cur := v
	for _, i := range idx {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if r, ok := cur.(*RefVal); ok && r.addr {
				cur = x.readLV(st, r.lv, n)
			} else {
				pt := x.toTerm(cur, st, n)
				x.check(st, x.t.Not(x.t.IsNil(pt)), "non-nil dereference", n)
				cur = x.t.Deref(pt)
			}
			t = p.Elem()
		}
		tm := x.toTerm(cur, st, n)
		stt := t.Underlying().(*types.Struct)
		f := stt.Field(i)
		if tm.Sort.Kind == KStruct {
			cur = x.t.Sel(tm, i)
		} else {
			// field of an opaque type
			cur = x.nodeField(tm, t, i)
		}
		t = f.Type()
	}
	return x.toTerm(cur, st, n), t
}

func (x *Ex) selector(u *ast.SelectorExpr, st *State) Val {
	sel := x.pkg.Info.Selections[u]
	if sel == nil { // qualified identifier
		switch o := x.pkg.Info.Uses[u.Sel].(type) {
		case *types.Func:
			return &FuncVal{obj: o}
		case *types.Var:
			return x.getVar(st, o, u)
		}
		x.unsupported(u, "selector %s", x.w.text(u))
	}
	switch sel.Kind() {
	case types.FieldVal:
		v := x.expr(u.X, st)
		t, _ := x.fieldPath(v, x.typeOf(u.X), sel.Index(), st, u)
		if _, ok := sel.Type().Underlying().(*types.Signature); ok {
			return &FuncVal{term: t}
		}
		return t
	case types.MethodVal:
		return x.methodVal(u, sel, st)
	}
	x.unsupported(u, "selector kind")
	return nil
}

// methodVal evaluates the receiver of a method value or call.
func (x *Ex) methodVal(u *ast.SelectorExpr, sel *types.Selection, st *State) *FuncVal {
	f := sel.Obj().(*types.Func)
	idx := sel.Index()
	t := x.typeOf(u.X)
	var recv Val
	fsig := f.Type().(*types.Signature)
	_, wantPtr := fsig.Recv().Type().(*types.Pointer)
	if len(idx) > 1 {
		// promoted through embedded fields
		v := x.expr(u.X, st)
		tm, ft := x.fieldPath(v, t, idx[:len(idx)-1], st, u)
		recv = tm
		t = ft
	} else {
		_, isPtr := t.Underlying().(*types.Pointer)
		if wantPtr && !isPtr {
			if lv := x.lval(u.X, st); lv != nil {
				return &FuncVal{obj: f, recv: &RefVal{lv: x.throughAlias(lv, st), addr: true}}
			}
		}
		recv = x.valueFor2(u.X, st)
	}
	_, isPtr := t.Underlying().(*types.Pointer)
	if _, isI := fsig.Recv().Type().Underlying().(*types.Interface); isI {
		return &FuncVal{obj: f, recv: recv}
	}
	if wantPtr && !isPtr {
		tm := x.toTerm(recv, st, u)
		recv = x.t.Some(x.t.PtrOf(tm.Sort), tm)
	}
	if !wantPtr && isPtr {
		if r, ok := recv.(*RefVal); ok && r.addr {
			recv = x.readLV(st, r.lv, u)
		} else {
			tm := x.toTerm(recv, st, u)
			x.check(st, x.t.Not(x.t.IsNil(tm)), "non-nil dereference", u)
			recv = x.t.Deref(tm)
		}
	}
	return &FuncVal{obj: f, recv: recv}
}

// valueFor2: argument/receiver position: alias places of reference type.
func (x *Ex) valueFor2(e ast.Expr, st *State) Val {
	if x.spec == 0 && isRefType(x.typeOf(e)) {
		switch ue := unparen(e).(type) {
		case *ast.Ident:
			if o, ok := x.pkg.Info.ObjectOf(ue).(*types.Var); ok && !x.pkg.Info.Types[ue].IsNil() {
				if r, ok := st.vars[o].(*RefVal); ok {
					return r
				}
				if _, ok := st.vars[o].(*Term); ok {
					return &RefVal{lv: &LV{root: o}}
				}
			}
		case *ast.SelectorExpr:
			if s := x.pkg.Info.Selections[ue]; s != nil && s.Kind() == types.FieldVal && !hasMapStep(x, ue) {
				if lv := x.lval(ue, st); lv != nil {
					lv = x.throughAlias(lv, st)
					if _, known := st.vars[lv.root]; known {
						return &RefVal{lv: lv}
					}
				}
			}
		}
	}
	return x.expr(e, st)
}

// hasMapStep: the place lies in an element of a map
func hasMapStep(x *Ex, e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if ix, ok := n.(*ast.IndexExpr); ok {
			if t := x.pkg.Info.TypeOf(ix.X); t != nil {
				if _, isMap := t.Underlying().(*types.Map); isMap {
					found = true
				}
			}
		}
		return true
	})
	return found
}

func (x *Ex) unary(u *ast.UnaryExpr, st *State) Val {
	switch u.Op {
	case token.AND:
		if cl, ok := unparen(u.X).(*ast.CompositeLit); ok {
			c := x.toTerm(x.composite(cl, st, x.typeOf(cl)), st, u)
			return x.t.Some(x.t.PtrOf(c.Sort), c)
		}
		if x.spec == 0 {
			if lv := x.lval(u.X, st); lv != nil {
				return &RefVal{lv: x.throughAlias(lv, st), addr: true}
			}
		}
		c := x.term(u.X, st)
		return x.t.Some(x.t.PtrOf(c.Sort), c)
	case token.NOT:
		return x.t.Not(x.term(u.X, st))
	case token.SUB:
		v := x.term(u.X, st)
		if v.Sort == x.t.Int {
			return x.t.Neg(v)
		}
		return x.t.App("flt.neg", v.Sort, v)
	case token.ADD:
		return x.expr(u.X, st)
	}
	x.unsupported(u, "operator %s", u.Op)
	return nil
}

func (x *Ex) binary(u *ast.BinaryExpr, st *State) Val {
	switch u.Op {
	case token.LAND, token.LOR:
		l := x.term(u.X, st)
		var s2 *State
		if u.Op == token.LAND {
			s2 = st.with(l)
		} else {
			s2 = st.with(x.t.Not(l))
		}
		if x.dead(s2) {
			return l
		}
		r := x.term(u.Y, s2)
		changed := false
		for o, v := range s2.vars {
			if ov, ok := st.vars[o]; ok && !sameVal(ov, v) {
				changed = true
			}
		}
		if changed {
			var other *State
			if u.Op == token.LAND {
				other = st.with(x.t.Not(l))
			} else {
				other = st.with(l)
			}
			m := x.merge(s2, other)
			st.vars = m.vars
		}
		if u.Op == token.LAND {
			return x.t.And(l, r)
		}
		return x.t.Or(l, r)
	case token.EQL, token.NEQ:
		r := x.equal(u, st)
		if u.Op == token.NEQ {
			return x.t.Not(r)
		}
		return r
	}
	l, r := x.term(u.X, st), x.term(u.Y, st)
	return x.binop(u.Op, l, r, x.typeOf(u.X), st, u)
}

func (x *Ex) equal(u *ast.BinaryExpr, st *State) *Term {
	a, b := u.X, u.Y
	isNil := func(e ast.Expr) bool { return x.pkg.Info.Types[unparen(e)].IsNil() }
	if isNil(a) {
		a, b = b, a
	}
	if isNil(b) {
		v := x.expr(a, st)
		if fv, ok := v.(*FuncVal); ok && fv.term == nil {
			return x.t.False
		}
		if r, ok := v.(*RefVal); ok && r.addr {
			return x.t.False
		}
		tm := x.toTerm(v, st, u)
		switch tm.Sort.Kind {
		case KPtr:
			return x.t.IsNil(tm)
		case KMap:
			return x.t.MapIsNil(tm)
		case KSeq:
			// nil and empty slices are not distinguished, except by this test
			if isEmptySeq(tm) {
				return x.t.App("isnilslice", x.t.Bool, x.t.IntLit(0))
			}
			r := x.t.App("isnil_"+tm.Sort.Name, x.t.Bool, tm)
			x.fact(x.t.Implies(r, x.t.Eq(x.t.Len(tm), x.t.IntLit(0))))
			return r
		}
		if tm.Sort == x.t.Any {
			return x.t.Eq(tm, x.t.Const("nil_any", x.t.Any))
		}
		if _, ok := x.typeOf(a).Underlying().(*types.Signature); ok {
			return x.t.Eq(tm, x.t.Const("nilfn!"+tm.Sort.Name, tm.Sort))
		}
		return x.t.Eq(tm, x.t.Const("zero!"+tm.Sort.Name, tm.Sort))
	}
	ta, tb := x.typeOf(a), x.typeOf(b)
	va, vb := x.expr(a, st), x.expr(b, st)
	if _, ok := ta.Underlying().(*types.Pointer); ok && x.spec == 0 {
		// pointer identity is not modelled
		return x.freshConst("ptreq", x.t.Bool)
	}
	if _, ok := ta.Underlying().(*types.Interface); ok {
		vb = x.convert(vb, tb, ta, st, u)
	} else if _, ok := tb.Underlying().(*types.Interface); ok {
		va = x.convert(va, ta, tb, st, u)
	}
	l, r := x.toTerm(va, st, u), x.toTerm(vb, st, u)
	if l.Sort != r.Sort {
		x.unsupported(u, "comparison of %s and %s", l.Sort, r.Sort)
	}
	if l.Sort == x.t.Flt {
		return x.t.App("flteq", x.t.Bool, l, r)
	}
	return x.t.Eq(l, r)
}

func (x *Ex) binop(op token.Token, l, r *Term, t types.Type, st *State, n ast.Node) *Term {
	tt := x.t
	switch l.Sort {
	case tt.Str:
		switch op {
		case token.ADD:
			return tt.StrCat(l, r)
		case token.LSS:
			return x.strlt(l, r)
		case token.GTR:
			return x.strlt(r, l)
		case token.LEQ:
			return tt.Not(x.strlt(r, l))
		case token.GEQ:
			return tt.Not(x.strlt(l, r))
		}
	case tt.Int:
		switch op {
		case token.ADD:
			return tt.Add(l, r)
		case token.SUB:
			return tt.Sub(l, r)
		case token.MUL:
			return tt.Mul(l, r)
		case token.LSS:
			return tt.Lt(l, r)
		case token.GTR:
			return tt.Lt(r, l)
		case token.LEQ:
			return tt.Le(l, r)
		case token.GEQ:
			return tt.Le(r, l)
		case token.QUO, token.REM:
			x.check(st, tt.Not(tt.Eq(r, tt.IntLit(0))), "division by non-zero", n)
			nm := "int.quo"
			if op == token.REM {
				nm = "int.rem"
			}
			if isInt(l) && isInt(r) && r.IVal != 0 {
				if op == token.QUO {
					return tt.IntLit(l.IVal / r.IVal)
				}
				return tt.IntLit(l.IVal % r.IVal)
			}
			q := tt.App(nm, tt.Int, l, r)
			if op == token.REM && isInt(r) && r.IVal > 0 {
				// truncated remainder of a non-negative number
				x.fact(tt.Implies(tt.Le(tt.IntLit(0), l), tt.And(tt.Le(tt.IntLit(0), q), tt.Lt(q, r))))
			}
			return q
		}
		return tt.App("int."+op.String(), tt.Int, l, r)
	case tt.Flt:
		switch op {
		case token.LSS:
			return tt.App("fltlt", tt.Bool, l, r)
		case token.GTR:
			return tt.App("fltlt", tt.Bool, r, l)
		case token.LEQ:
			return tt.Or(tt.App("fltlt", tt.Bool, l, r), tt.App("flteq", tt.Bool, l, r))
		case token.GEQ:
			return tt.Or(tt.App("fltlt", tt.Bool, r, l), tt.App("flteq", tt.Bool, l, r))
		}
		return tt.App("flt."+op.String(), tt.Flt, l, r)
	}
	x.unsupported(n, "operator %s on %s", op, l.Sort)
	return nil
}

func (x *Ex) strlt(a, b *Term) *Term {
	if a == b {
		return x.t.False
	}
	if isStr(a) && isStr(b) {
		return x.t.BoolLit(a.SVal < b.SVal)
	}
	return x.t.App("strlt", x.t.Bool, a, b)
}

func (x *Ex) index(u *ast.IndexExpr, st *State) Val {
	t := x.typeOf(u.X)
	if _, ok := t.Underlying().(*types.Signature); ok { // explicit instantiation
		return x.expr(u.X, st)
	}
	v := x.term(u.X, st)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		x.check(st, x.t.Not(x.t.IsNil(v)), "non-nil dereference", u)
		v = x.t.Deref(v)
		t = p.Elem()
	}
	switch tt := t.Underlying().(type) {
	case *types.Map:
		k := x.toTerm(x.convert(x.expr(u.Index, st), x.typeOf(u.Index), tt.Key(), st, u), st, u)
		o := x.t.MapGetOpt(v, k)
		return x.t.Ite(x.t.IsNil(o), x.zero(tt.Elem()), x.t.Deref(o))
	case *types.Slice, *types.Array:
		i := x.term(u.Index, st)
		x.check(st, x.t.And(x.t.Le(x.t.IntLit(0), i), x.t.Lt(i, x.t.Len(v))), "index in range", u)
		return x.t.At(v, i)
	case *types.Basic: // string
		i := x.term(u.Index, st)
		x.check(st, x.t.And(x.t.Le(x.t.IntLit(0), i), x.t.Lt(i, x.t.StrLen(v))), "index in range", u)
		return x.t.App("strat", x.t.Int, v, i)
	}
	x.unsupported(u, "index of %s", t)
	return nil
}

func (x *Ex) slice(u *ast.SliceExpr, st *State) Val {
	t := x.typeOf(u.X)
	v := x.term(u.X, st)
	if p, ok := t.Underlying().(*types.Pointer); ok {
		x.check(st, x.t.Not(x.t.IsNil(v)), "non-nil dereference", u)
		v = x.t.Deref(v)
		t = p.Elem()
	}
	var lo, hi, n *Term
	str := v.Sort == x.t.Str
	if str {
		n = x.t.StrLen(v)
	} else if v.Sort.Kind == KSeq {
		n = x.t.Len(v)
	} else {
		x.unsupported(u, "slice of %s", t)
	}
	lo, hi = x.t.IntLit(0), n
	if u.Low != nil {
		lo = x.term(u.Low, st)
	}
	if u.High != nil {
		hi = x.term(u.High, st)
	}
	if u.Slice3 {
		x.noteAssume("three-index slices: the capacity bound is not modelled")
	}
	// for slices the upper bound is the capacity; requiring the length is stronger
	x.check(st, x.t.And(x.t.Le(x.t.IntLit(0), lo), x.t.Le(lo, hi), x.t.Le(hi, n)), "slice bounds", u)
	if str {
		return x.t.Substr(v, lo, hi)
	}
	if lo == x.t.IntLit(0) {
		return x.t.Take(v, hi)
	}
	if hi == n {
		return x.t.Drop(v, lo)
	}
	return x.t.Drop(x.t.Take(v, hi), lo)
}

func (x *Ex) composite(u *ast.CompositeLit, st *State, t types.Type) Val {
	if p, ok := t.Underlying().(*types.Pointer); ok { // elided &T
		c := x.toTerm(x.composite(u, st, p.Elem()), st, u)
		return x.t.Some(x.t.PtrOf(c.Sort), c)
	}
	elem := func(e ast.Expr, et types.Type) *Term {
		if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
			return x.toTerm(x.composite(cl, st, et), st, e)
		}
		v := x.valueFor(e, st, false)
		return x.toTerm(x.convert(v, x.typeOf(e), et, st, e), st, e)
	}
	switch tt := t.Underlying().(type) {
	case *types.Struct:
		s := x.sortOf(t)
		if s.Kind != KStruct && isNode(t) {
			fs := x.nodeFields(x.zero(t), t)
			for i, el := range u.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					name := kv.Key.(*ast.Ident).Name
					for j := 0; j < tt.NumFields(); j++ {
						if tt.Field(j).Name() == name {
							fs[j] = elem(kv.Value, tt.Field(j).Type())
						}
					}
				} else {
					fs[i] = elem(el, tt.Field(i).Type())
				}
			}
			return x.mkNode(t, fs)
		}
		if s.Kind != KStruct {
			for _, el := range u.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					x.expr(kv.Value, st)
				}
			}
			return x.freshConst("opaque", s)
		}
		cur := x.zero(t)
		for i, el := range u.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				for j := 0; j < tt.NumFields(); j++ {
					if tt.Field(j).Name() == name {
						cur = x.t.SetField(cur, j, elem(kv.Value, tt.Field(j).Type()))
					}
				}
			} else {
				cur = x.t.SetField(cur, i, elem(el, tt.Field(i).Type()))
			}
		}
		return cur
	case *types.Slice, *types.Array:
		var et types.Type
		if sl, ok := tt.(*types.Slice); ok {
			et = sl.Elem()
		} else {
			et = tt.(*types.Array).Elem()
		}
		s := x.t.Empty(x.sortOf(et))
		for _, el := range u.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				x.unsupported(u, "keyed slice literal")
			}
			s = x.t.Snoc(s, elem(el, et))
		}
		return s
	case *types.Map:
		m := x.t.MapEmpty(x.sortOf(t))
		for _, el := range u.Elts {
			kv := el.(*ast.KeyValueExpr)
			k := elem(kv.Key, tt.Key())
			m = x.t.MapPut(m, k, elem(kv.Value, tt.Elem()))
		}
		return m
	}
	x.unsupported(u, "composite literal of %s", t)
	return nil
}
