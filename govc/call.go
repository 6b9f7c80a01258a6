package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// call evaluates a call expression; the result is a Val, a Tuple or nil.
func (x *Ex) call(u *ast.CallExpr, st *State) Val {
	fun := unparen(u.Fun)
	// conversion
	if tv, ok := x.pkg.Info.Types[fun]; ok && tv.IsType() {
		return x.conversion(u, tv.Type, st)
	}
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := x.pkg.Info.Uses[id].(*types.Builtin); ok {
			return x.builtin(b.Name(), u, st)
		}
	}
	if f := x.staticCallee(fun); f != nil {
		if f.Pkg() != nil && f.Pkg().Path() == vspecPath {
			return x.vspecCall(f, u, st)
		}
		if v, done := x.special(f, u, st); done {
			return v
		}
	}
	fv, args := x.calleeAndArgs(u, st)
	return x.apply(fv, args, u, st)
}

func (x *Ex) staticCallee(fun ast.Expr) *types.Func {
	switch f := unparen(fun).(type) {
	case *ast.Ident:
		o, _ := x.pkg.Info.Uses[f].(*types.Func)
		return o
	case *ast.SelectorExpr:
		if s := x.pkg.Info.Selections[f]; s != nil {
			o, _ := s.Obj().(*types.Func)
			return o
		}
		o, _ := x.pkg.Info.Uses[f.Sel].(*types.Func)
		return o
	case *ast.IndexExpr:
		return x.staticCallee(f.X)
	case *ast.IndexListExpr:
		return x.staticCallee(f.X)
	}
	return nil
}

// calleeAndArgs evaluates the function value and the arguments (converted to
// the parameter types; variadic arguments are packed unless the callee is
// outside the module).
func (x *Ex) calleeAndArgs(u *ast.CallExpr, st *State) (*FuncVal, []Val) {
	fval := x.expr(u.Fun, st)
	fv, ok := fval.(*FuncVal)
	if !ok {
		fv = &FuncVal{term: x.toTerm(fval, st, u)}
	}
	sig, _ := x.typeOf(u.Fun).Underlying().(*types.Signature)
	if sig == nil {
		x.unsupported(u, "call of %s", x.w.text(u.Fun))
	}
	var args []Val
	ext := fv.obj != nil && !isModule(fv.obj.Pkg())
	// f(g()) with several results
	if len(u.Args) == 1 && sig.Params().Len() > 1 {
		if tup, ok := x.typeOf(u.Args[0]).(*types.Tuple); ok {
			vs := x.exprMulti(u.Args[0], st)
			for i, v := range vs {
				args = append(args, x.convert(v, tup.At(i).Type(), sig.Params().At(i).Type(), st, u))
			}
			return fv, args
		}
	}
	np := sig.Params().Len()
	pending := make([]bool, len(u.Args))
	for i, a := range u.Args {
		var pt types.Type
		variadic := sig.Variadic() && i >= np-1
		if variadic {
			pt = sig.Params().At(np - 1).Type()
			if u.Ellipsis == token.NoPos {
				pt = pt.(*types.Slice).Elem()
			}
		} else {
			pt = sig.Params().At(i).Type()
		}
		v := x.valueFor2(a, st)
		if _, isRef := v.(*RefVal); !isRef && x.spec == 0 && !variadic && isRefType(pt) {
			pending[i] = !x.w.fresh(x.pkg, a)
		}
		v = x.convert(v, x.typeOf(a), pt, st, a)
		args = append(args, v)
	}
	x.pending = pending
	if sig.Variadic() && u.Ellipsis == token.NoPos && !ext {
		et := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		s := x.t.Empty(x.sortOf(et))
		for _, v := range args[np-1:] {
			s = x.t.Snoc(s, x.toTerm(v, st, u))
		}
		args = append(args[:np-1:np-1], s)
	}
	return fv, args
}

// apply calls a function value.
func (x *Ex) apply(fv *FuncVal, args []Val, u *ast.CallExpr, st *State) Val {
	if fv.term != nil {
		sig := x.typeOf(u.Fun).Underlying().(*types.Signature)
		return x.ufCall("apply!"+fv.term.Sort.Name, append([]Val{fv.term}, args...), sig, st, u)
	}
	if fv.lit != nil {
		return x.applyLit(fv, args, st, u)
	}
	f := fv.obj
	sig := f.Type().(*types.Signature)
	if fv.recv != nil {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			r := x.toTerm(fv.recv, st, u)
			// dynamic type known?
			if strings.HasPrefix(r.Op, "box:") {
				if m, rv := x.resolveDyn(r, f); m != nil {
					return x.apply(&FuncVal{obj: m, recv: rv}, args, u, st)
				}
			}
			if isModule(f.Pkg()) {
				if m, ty := x.soleMethod(sig.Recv().Type(), f); m != nil {
					x.noteAssume("values of " + types.TypeString(sig.Recv().Type(), shortQual) + " are " + types.TypeString(ty, shortQual) + ", the only type of the module with its methods")
					if x.spec == 0 {
						x.check(st, x.t.Not(x.t.Eq(r, x.t.Const("nil_any", x.t.Any))), "non-nil interface", u)
					}
					return x.apply(&FuncVal{obj: m, recv: x.unbox(r, ty)}, args, u, st)
				}
			}
			if x.spec == 0 && !isModule(f.Pkg()) {
				if _, isErr := sig.Recv().Type().Underlying().(*types.Interface); isErr && f.Name() == "Error" {
					x.check(st, x.t.Not(x.t.Eq(r, x.t.Const("nil_any", x.t.Any))), "non-nil interface", u)
				}
			}
			return x.extCall(f, fv.recv, args, st, u)
		}
		args = append([]Val{fv.recv}, args...)
	}
	if isModule(f.Pkg()) {
		fi := x.w.Funcs[f.Origin()]
		if fi == nil {
			x.unsupported(u, "no body for %s", f.Name())
		}
		if con := x.conCache.For(fi); con != nil && !(x.spec > 0 && fi.Spec) {
			return x.contractCall(con, args, st, u)
		}
		return x.inline(fi, args, st, u)
	}
	var recv Val
	if fv.recv != nil {
		recv, args = args[0], args[1:]
	}
	return x.extCall(f, recv, args, st, u)
}

// soleMethod: the method f of the only type of the module that implements the
// interface.
func (x *Ex) soleMethod(it types.Type, f *types.Func) (*types.Func, types.Type) {
	iface, ok := it.Underlying().(*types.Interface)
	if !ok {
		return nil, nil
	}
	var found types.Type
	for _, p := range x.w.Order {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams() != nil {
				continue
			}
			if _, isI := nt.Underlying().(*types.Interface); isI {
				continue
			}
			for _, cand := range []types.Type{nt, types.NewPointer(nt)} {
				if types.Implements(cand, iface) {
					if found != nil {
						return nil, nil
					}
					found = cand
				}
			}
		}
	}
	if found == nil {
		return nil, nil
	}
	o, _, _ := types.LookupFieldOrMethod(found, false, f.Pkg(), f.Name())
	m, _ := o.(*types.Func)
	return m, found
}

// resolveDyn finds the method of the boxed value's type
func (x *Ex) resolveDyn(r *Term, f *types.Func) (*types.Func, Val) {
	so := r.Args[0].Sort
	for _, p := range x.w.Order {
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams() != nil {
				continue
			}
			for _, cand := range []types.Type{nt, types.NewPointer(nt)} {
				if _, ok := nt.Underlying().(*types.Struct); !ok {
					continue
				}
				if x.sortOf(cand) != so {
					continue
				}
				o, _, _ := types.LookupFieldOrMethod(cand, false, f.Pkg(), f.Name())
				if m, ok := o.(*types.Func); ok {
					return m, r.Args[0]
				}
			}
		}
	}
	return nil, nil
}

func (x *Ex) applyLit(fv *FuncVal, args []Val, st *State, n ast.Node) Val {
	if x.spec == 0 && fv.env == nil {
		if e := x.w.effectOf(fv.lit); e != nil {
			return x.applyEffect(e, fv, args, st, n)
		}
	}
	sig := fv.pkg.Info.Types[fv.lit].Type.(*types.Signature)
	oldPkg := x.pkg
	x.pkg = fv.pkg
	defer func() { x.pkg = oldPkg }()
	cur := st
	if fv.env != nil {
		cur = fv.env.clone()
		cur.pc = st.pc
	}
	x.bindParams(sig, args, cur)
	key := fmt.Sprintf("lit@%d", fv.lit.Pos())
	cnt := 0
	for _, s := range x.stack {
		if s == key {
			cnt++
		}
	}
	// recursive specification functions bound the depth themselves
	if cnt > 0 && (x.spec == 0 || cnt > 8) {
		x.unsupported(n, "recursive closure without a contract")
	}
	x.stack = append(x.stack, key)
	x.loopCtx = append(x.loopCtx, x.site(n))
	v, out := x.runBody(fv.lit.Body, sig, cur, n)
	x.loopCtx = x.loopCtx[:len(x.loopCtx)-1]
	x.stack = x.stack[:len(x.stack)-1]
	if fv.env == nil {
		*st = *out
	}
	return v
}

func (x *Ex) bindParams(sig *types.Signature, args []Val, st *State) {
	pending := x.pending
	x.pending = nil
	i := 0
	if r := sig.Recv(); r != nil {
		st.vars[r] = args[0]
		delete(x.escaped, r)
		delete(x.addrOut, r)
		i = 1
	}
	for k := 0; k < sig.Params().Len(); k++ {
		p := sig.Params().At(k)
		if i+k < len(args) {
			st.vars[p] = args[i+k]
			delete(x.escaped, p)
			delete(x.addrOut, p)
			if k < len(pending) && pending[k] {
				x.escaped[p] = true
			}
		}
	}
}

// runBody executes a function body and merges its returns.
func (x *Ex) runBody(body *ast.BlockStmt, sig *types.Signature, st *State, n ast.Node) (Val, *State) {
	var res []*types.Var
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		res = append(res, r)
		if r.Name() != "" && r.Name() != "_" {
			st.vars[r] = x.zeroVal(r.Type())
		}
	}
	x.results = append(x.results, res)
	x.bodies = append(x.bodies, body)
	x.sigs = append(x.sigs, sig)
	x.retShared = append(x.retShared, false)
	nd := len(st.defers)
	outs := x.block(body.List, st)
	var rst *State
	var rvals []Val
	for _, o := range outs {
		switch o.kind {
		case OReturn, ONext:
			x.runDefers(o.st, nd)
			vals := o.vals
			if len(o.st.defers) != nd || true {
				// named results may have been changed by deferred calls
				for i, r := range res {
					if r.Name() != "" && r.Name() != "_" {
						if vals == nil {
							vals = make([]Val, len(res))
						}
						vals[i] = o.st.vars[r]
					}
				}
			}
			if o.kind == ONext && len(res) > 0 && (vals == nil || vals[0] == nil) {
				continue // cannot fall off the end
			}
			if rst == nil {
				rst, rvals = o.st, vals
			} else {
				rst, rvals = x.mergeVals(rst, o.st, rvals, vals)
			}
		default:
			x.unsupported(n, "break or continue leaves a function")
		}
	}
	x.results = x.results[:len(x.results)-1]
	x.bodies = x.bodies[:len(x.bodies)-1]
	x.sigs = x.sigs[:len(x.sigs)-1]
	x.callShared = x.retShared[len(x.retShared)-1]
	x.retShared = x.retShared[:len(x.retShared)-1]
	if rst == nil {
		// no return is reachable
		dead := st.clone()
		dead.pc = append(dead.pc, x.t.False)
		var vals Tuple
		for _, r := range res {
			vals = append(vals, x.zeroVal(r.Type()))
		}
		if len(vals) == 1 {
			return vals[0], dead
		}
		return vals, dead
	}
	rst.defers = rst.defers[:nd:nd]
	switch len(rvals) {
	case 0:
		return nil, rst
	case 1:
		return rvals[0], rst
	}
	return Tuple(rvals), rst
}

func (x *Ex) runDefers(st *State, nd int) {
	for i := len(st.defers) - 1; i >= nd; i-- {
		d := st.defers[i]
		old := x.pkg
		x.pkg = d.pkg
		if f := x.staticCallee(d.call.Fun); f != nil && isSync(f) {
			x.pkg = old
			continue
		}
		x.apply(d.fv, d.args, d.call, st)
		x.pkg = old
	}
	st.defers = st.defers[:nd:nd]
}

func (x *Ex) site(n ast.Node) string {
	if n == nil {
		return ""
	}
	p := x.w.Fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, p.Column)
}

func (x *Ex) inline(fi *FuncInfo, args []Val, st *State, n ast.Node) Val {
	name := funcName(fi.Obj)
	sig := fi.Obj.Type().(*types.Signature)
	if fi.Decl.Body == nil {
		x.unsupported(n, "no body for %s", name)
	}
	if x.spec > 0 {
		return x.specCall(fi, args, st, n)
	}
	for _, s := range x.stack {
		if s == name {
			if !valueArgs(sig) {
				x.unsupported(n, "recursive call of %s without a contract", name)
			}
			x.noteAssume("recursive calls of " + name + " have no contract: their results are unknown and their safety is not checked")
			return x.ufTerms("self!"+name, x.argTerms(args, st, n), sig, st, n)
		}
	}
	if len(x.stack) > 25 {
		x.unsupported(n, "inlining too deep at %s", name)
	}
	// slices that the callee changes in place are passed by reference
	args = x.refSlices(fi, args, n, st)
	x.inlined[name] = true
	x.stack = append(x.stack, name)
	oldPkg := x.pkg
	x.pkg = fi.Pkg
	x.loopCtx = append(x.loopCtx, x.site(n))
	x.shareObls(fi, st)
	x.bindParams(sig, args, st)
	v, out := x.runBody(fi.Decl.Body, sig, st, n)
	x.loopCtx = x.loopCtx[:len(x.loopCtx)-1]
	x.pkg = oldPkg
	x.stack = x.stack[:len(x.stack)-1]
	*st = *out
	return v
}

// valueArgs: nothing the function is given can be changed by it.
func valueArgs(sig *types.Signature) bool {
	if sig.Recv() != nil && !plain(sig.Recv().Type()) {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !plain(sig.Params().At(i).Type()) {
			return false
		}
	}
	return sig.Results().Len() > 0
}

func plain(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plain(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return plain(u.Elem())
	}
	return false
}

// refSlices: an argument that is a local slice variable is passed as an alias
// when the callee writes its elements or sorts it.
func (x *Ex) refSlices(fi *FuncInfo, args []Val, n ast.Node, st *State) []Val {
	call, ok := n.(*ast.CallExpr)
	if !ok {
		return args
	}
	sig := fi.Obj.Type().(*types.Signature)
	off := 0
	if sig.Recv() != nil {
		off = 1
	}
	out := append([]Val{}, args...)
	for i := 0; i < sig.Params().Len() && i < len(call.Args); i++ {
		p := sig.Params().At(i)
		if _, ok := p.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		if !x.w.mutatesSlice(fi, p, nil) {
			continue
		}
		if lv := x.lval(call.Args[i], st); lv != nil {
			out[off+i] = &RefVal{lv: x.throughAlias(lv, st)}
		}
	}
	return out
}

func (w *World) mutatesSlice(fi *FuncInfo, p *types.Var, seen map[*types.Var]bool) bool {
	if fi.Decl.Body == nil || seen[p] {
		return false
	}
	if seen == nil {
		seen = map[*types.Var]bool{}
	}
	seen[p] = true
	found := false
	is := func(e ast.Expr) bool {
		id, ok := unparen(e).(*ast.Ident)
		return ok && fi.Pkg.Info.Uses[id] == p
	}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.AssignStmt:
			for _, l := range u.Lhs {
				if ix, ok := unparen(l).(*ast.IndexExpr); ok && is(ix.X) {
					found = true
				}
			}
		case *ast.CallExpr:
			if s, ok := u.Fun.(*ast.SelectorExpr); ok {
				if id, ok := s.X.(*ast.Ident); ok && (id.Name == "sort" || id.Name == "slices") && strings.Contains(s.Sel.Name, "S") {
					if len(u.Args) > 0 && is(u.Args[0]) {
						found = true
					}
				}
			}
			var f *types.Func
			switch g := unparen(u.Fun).(type) {
			case *ast.Ident:
				f, _ = fi.Pkg.Info.Uses[g].(*types.Func)
			case *ast.SelectorExpr:
				f, _ = fi.Pkg.Info.Uses[g.Sel].(*types.Func)
			}
			if g := w.Funcs[f]; f != nil && g != nil {
				ps := f.Type().(*types.Signature).Params()
				for i, a := range u.Args {
					if is(a) && i < ps.Len() && w.mutatesSlice(g, ps.At(i), seen) {
						found = true
					}
				}
			}
		}
		return true
	})
	return found
}

// ---------------------------------------------------------------- uninterpreted calls

func (x *Ex) argTerms(args []Val, st *State, n ast.Node) []*Term {
	ts := make([]*Term, len(args))
	for i, a := range args {
		ts[i] = x.toTermArg(a, st, n)
	}
	return ts
}

// argument position: taking an address here is not an escape
func (x *Ex) toTermArg(v Val, st *State, n ast.Node) *Term {
	if r, ok := v.(*RefVal); ok && r.addr {
		c := x.readLV(st, r.lv, n)
		return x.t.Some(x.t.PtrOf(c.Sort), c)
	}
	return x.toTerm(v, st, n)
}

func (x *Ex) ufCall(name string, args []Val, sig *types.Signature, st *State, n ast.Node) Val {
	ts := x.argTerms(args, st, n)
	return x.ufTerms(name, ts, sig, st, n)
}

func (x *Ex) ufTerms(name string, ts []*Term, sig *types.Signature, st *State, n ast.Node) Val {
	nr := sig.Results().Len()
	sn := ""
	for _, a := range ts {
		sn += "/" + a.Sort.Name
	}
	mk := func(k int) *Term {
		return x.t.App(fmt.Sprintf("%s#%d%s", name, k, sn), x.sortOf(sig.Results().At(k).Type()), ts...)
	}
	switch nr {
	case 0:
		return nil
	case 1:
		return mk(0)
	}
	var tup Tuple
	for k := 0; k < nr; k++ {
		tup = append(tup, mk(k))
	}
	return tup
}

func isSync(f *types.Func) bool {
	return f.Pkg() != nil && f.Pkg().Path() == "sync"
}

func (x *Ex) extName(f *types.Func) string {
	return funcName(f)
}

// extCall models a function outside the module: deterministic and without
// side effects except on a stateful receiver and on places passed by address.
func (x *Ex) extCall(f *types.Func, recv Val, args []Val, st *State, n ast.Node) Val {
	if isSync(f) {
		x.noteAssume("locks and wait groups are no-ops in the sequential model")
		if f.Name() == "Do" && len(args) == 1 {
			if fv, ok := args[0].(*FuncVal); ok {
				return x.apply(fv, nil, n.(*ast.CallExpr), st)
			}
		}
		return nil
	}
	name := x.extName(f)
	x.noteAssume("external " + name + " is a deterministic function of its arguments")
	sig := f.Type().(*types.Signature)
	all := args
	if recv != nil {
		all = append([]Val{recv}, args...)
	}
	for i, a := range all {
		if fv, ok := a.(*FuncVal); ok && fv.lit != nil {
			_ = i
			x.noteAssume("callback passed to " + name + " is not executed in the model")
		}
	}
	ts := x.argTerms(all, st, n)
	res := x.ufTerms("ext!"+name, ts, sig, st, n)
	x.extFacts(name, ts, res)
	// effects
	sn := ""
	for _, a := range ts {
		sn += "/" + a.Sort.Name
	}
	{
		for i, a := range all {
			r, ok := a.(*RefVal)
			if !ok {
				continue
			}
			if i == 0 && recv != nil {
				if !x.stateful(f, sig) {
					continue
				}
			} else if !r.addr {
				if !stateArg(f, sig, i, recv != nil) {
					continue
				}
			}
			if r.addr {
				c := x.readLV(st, r.lv, n)
				x.writePlace(st, r.lv, x.t.App(fmt.Sprintf("ext!%s.out%d%s", name, i, sn), c.Sort, ts...), n)
			} else {
				c := x.readLV(st, r.lv, n)
				nv := x.t.App(fmt.Sprintf("ext!%s.out%d%s", name, i, sn), c.Sort, ts...)
				if c.Sort.Kind == KPtr {
					x.assume(st, x.t.Not(x.t.IsNil(nv)))
				}
				x.writePlace(st, r.lv, nv, n)
			}
		}
		// receivers of interface type stored in variables
		if recv != nil && x.stateful(f, sig) {
			if call, ok := n.(*ast.CallExpr); ok {
				if s, ok := unparen(call.Fun).(*ast.SelectorExpr); ok {
					if _, isRef := recv.(*RefVal); !isRef {
						if lv := x.lval(s.X, st); lv != nil {
							lv = x.throughAlias(lv, st)
							c := x.readLV(st, lv, n)
							x.writeLV(st, lv, x.t.App(fmt.Sprintf("ext!%s.out0%s", name, sn), c.Sort, ts...), n)
						}
					}
				}
			}
		}
	}
	return res
}

func stateArg(f *types.Func, sig *types.Signature, i int, hasRecv bool) bool { return false }

// pureMethods are methods of external reference types that change nothing.
var pureMethods = map[string]bool{"error.Error": true, "url.URL.String": true, "url.URL.Hostname": true, "url.URL.Port": true, "url.URL.IsAbs": true, "url.URL.ResolveReference": true, "regexp.Regexp": true, "digits.Expression": true, "fs.FileInfo": true, "fs.DirEntry": true}

func (x *Ex) stateful(f *types.Func, sig *types.Signature) bool {
	t := sig.Recv().Type()
	ptr := false
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
		ptr = true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	q := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	if strings.HasPrefix(n.Obj().Pkg().Path(), "ecksbee.com/telefacts/") {
		return false // finders: answered from the hydratable, see noteAssume
	}
	if pureMethods[q] || pureMethods[q+"."+f.Name()] {
		return false
	}
	_, isI := n.Underlying().(*types.Interface)
	_, isM := n.Underlying().(*types.Map)
	return ptr || isI || isM
}

func (x *Ex) extFacts(name string, ts []*Term, res Val) {
	tt := x.t
	nilAny := tt.Const("nil_any", tt.Any)
	get := func(k int) *Term {
		if t, ok := res.(*Term); ok && k == 0 {
			return t
		}
		if tp, ok := res.(Tuple); ok && k < len(tp) {
			t, _ := tp[k].(*Term)
			return t
		}
		return nil
	}
	switch name {
	case "fmt.Errorf", "errors.New":
		x.fact(tt.Not(tt.Eq(get(0), nilAny)))
	case "strings.Split":
		if len(ts) == 2 && isStr(ts[1]) && ts[1].SVal != "" {
			x.fact(tt.Le(tt.IntLit(1), tt.Len(get(0))))
		}
	case "strconv.ParseBool":
		x.fact(tt.Or(tt.Eq(get(1), nilAny), tt.Not(get(0))))
	case "strconv.Atoi":
		x.fact(tt.Implies(tt.Eq(ts[0], tt.StrLit("")), tt.Not(tt.Eq(get(1), nilAny))))
	case "url.Parse", "url.ParseRequestURI", "os.Open", "os.OpenFile", "os.Create", "os.Stat", "html.Parse", "xmlquery.Parse":
		// documented: a nil error comes with a non-nil value
		if r, e := get(0), get(1); r != nil && e != nil && r.Sort.Kind == KPtr {
			x.fact(tt.Implies(tt.Eq(e, nilAny), tt.Not(tt.IsNil(r))))
		}
	case "xml.NewDecoder", "strings.NewReader", "bufio.NewReader", "bytes.NewReader", "html.NewTokenizer", "strings.NewReplacer", "cache.New", "message.NewPrinter", "arcs.NewRArc":
		if r := get(0); r.Sort.Kind == KPtr {
			x.fact(tt.Not(tt.IsNil(r)))
		}
	}
}

// ---------------------------------------------------------------- conversions and builtins

func (x *Ex) conversion(u *ast.CallExpr, to types.Type, st *State) Val {
	from := x.typeOf(u.Args[0])
	v := x.expr(u.Args[0], st)
	if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return x.zeroVal(to)
	}
	if fv, ok := v.(*FuncVal); ok {
		return fv
	}
	if _, ok := to.Underlying().(*types.Interface); ok {
		return x.convert(v, from, to, st, u)
	}
	return x.convTerm(x.toTerm(v, st, u), from, to, u)
}

func (x *Ex) convTerm(t *Term, from, to types.Type, n ast.Node) *Term {
	s := x.sortOf(to)
	if t.Sort == s {
		return t
	}
	tt := x.t
	switch {
	case t.Sort == tt.Int && s == tt.Flt:
		if isInt(t) {
			return tt.FltLit(fmt.Sprintf("%g", float64(t.IVal)))
		}
		return tt.App("int2flt", tt.Flt, t)
	case t.Sort == tt.Flt && s == tt.Int:
		return tt.App("flt2int", tt.Int, t)
	case t.Sort == tt.Int && s == tt.Str:
		return tt.App("rune2str", tt.Str, t)
	case t.Sort == tt.Str && s.Kind == KSeq:
		if isByteSlice(to) {
			return tt.App("str2bytes", s, t)
		}
		return tt.App("str2runes", s, t)
	case t.Sort.Kind == KSeq && s == tt.Str:
		if isByteSlice(from) {
			if t.Op == "str2bytes" {
				return t.Args[0]
			}
			return tt.App("bytes2str", s, t)
		}
		return tt.App("runes2str", s, t)
	case t.Sort.Kind == KStruct && s.Kind == KStruct && len(t.Sort.Fields) == len(s.Fields):
		args := make([]*Term, len(s.Fields))
		for i := range args {
			f := tt.Sel(t, i)
			if f.Sort != s.Fields[i].Sort {
				x.unsupported(n, "conversion of %s to %s", from, to)
			}
			args[i] = f
		}
		return tt.Struct(s, args...)
	}
	x.unsupported(n, "conversion of %s to %s", from, to)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (x *Ex) mapLen(m *Term) *Term {
	arr := x.t.MapArr(m)
	c := x.t.App("card_"+m.Sort.Name, x.t.Int, arr)
	if arr.Op == "constarr" {
		return x.t.IntLit(0)
	}
	x.fact(x.t.Le(x.t.IntLit(0), c))
	x.fact(x.t.Eq(x.t.Eq(c, x.t.IntLit(0)), x.t.Eq(arr, x.t.emptyArr(m.Sort))))
	return c
}

func (x *Ex) builtin(name string, u *ast.CallExpr, st *State) Val {
	tt := x.t
	switch name {
	case "len", "cap":
		v := x.term(u.Args[0], st)
		if name == "cap" {
			c := x.freshConst("cap", tt.Int)
			if v.Sort.Kind == KSeq {
				x.fact(tt.Le(tt.Len(v), c))
			}
			return c
		}
		switch {
		case v.Sort.Kind == KSeq:
			return tt.Len(v)
		case v.Sort == tt.Str:
			return tt.StrLen(v)
		case v.Sort.Kind == KMap:
			return x.mapLen(v)
		}
	case "append":
		s := x.term(u.Args[0], st)
		st0 := x.typeOf(u.Args[0]).Underlying()
		sl, ok := st0.(*types.Slice)
		if !ok { // append(nil, ...)
			sl = x.typeOf(u).Underlying().(*types.Slice)
			s = tt.Empty(x.sortOf(sl.Elem()))
		}
		if u.Ellipsis != token.NoPos {
			b := x.term(u.Args[1], st)
			x.copied(u.Args[1], nil, st)
			if b.Sort == tt.Str {
				b = tt.App("str2bytes", s.Sort, b)
			}
			return tt.Concat(s, b)
		}
		for _, a := range u.Args[1:] {
			v := x.convert(x.valueFor(a, st, false), x.typeOf(a), sl.Elem(), st, a)
			s = tt.Snoc(s, x.toTerm(v, st, a))
		}
		return s
	case "make":
		t := x.typeOf(u)
		switch tu := t.Underlying().(type) {
		case *types.Slice:
			n := x.term(u.Args[1], st)
			x.check(st, tt.Le(tt.IntLit(0), n), "non-negative length", u)
			if len(u.Args) > 2 {
				c := x.term(u.Args[2], st)
				x.check(st, tt.Le(n, c), "capacity at least the length", u)
			}
			return tt.MkSeq(n, x.zero(tu.Elem()))
		case *types.Map:
			for _, a := range u.Args[1:] {
				x.expr(a, st)
			}
			return tt.MapEmpty(x.sortOf(t))
		case *types.Chan:
			return x.freshConst("chan", x.sortOf(t))
		}
	case "new":
		z := x.zero(x.typeOf(u.Args[0]))
		return tt.Some(tt.PtrOf(z.Sort), z)
	case "delete":
		lv := x.lval(u.Args[0], st)
		if lv == nil {
			x.unsupported(u, "delete from %s", x.w.text(u.Args[0]))
		}
		lv = x.throughAlias(lv, st)
		m := x.readLV(st, lv, u)
		mt := x.typeOf(u.Args[0]).Underlying().(*types.Map)
		k := x.toTerm(x.convert(x.expr(u.Args[1], st), x.typeOf(u.Args[1]), mt.Key(), st, u), st, u)
		x.writePlace(st, lv, tt.MapDel(m, k), u)
		return nil
	case "copy":
		lv := x.lval(u.Args[0], st)
		if lv == nil {
			x.unsupported(u, "copy to %s", x.w.text(u.Args[0]))
		}
		d, s := x.term(u.Args[0], st), x.term(u.Args[1], st)
		if s.Sort == tt.Str {
			s = tt.App("str2bytes", d.Sort, s)
		}
		ld, ls := tt.Len(d), tt.Len(s)
		r := tt.Ite(tt.Le(ld, ls), tt.Take(s, ld), tt.Concat(s, tt.Drop(d, ls)))
		x.writePlace(st, x.throughAlias(lv, st), r, u)
		return tt.Ite(tt.Le(ld, ls), ld, ls)
	case "min", "max":
		v := x.term(u.Args[0], st)
		for _, a := range u.Args[1:] {
			w := x.term(a, st)
			if v.Sort != tt.Int {
				return tt.App("flt."+name, v.Sort, v, w)
			}
			if name == "min" {
				v = tt.Ite(tt.Le(v, w), v, w)
			} else {
				v = tt.Ite(tt.Le(w, v), v, w)
			}
		}
		return v
	case "panic":
		if x.spec == 0 {
			x.obl(st, "safety", "panic is unreachable: "+x.w.text(u), u, tt.False)
		}
		st.pc = append(st.pc, tt.False)
		return nil
	case "print", "println":
		return nil
	}
	x.unsupported(u, "builtin %s", name)
	return nil
}

// ---------------------------------------------------------------- modelled library functions

func (x *Ex) strIndex(kind string, s, sub *Term) *Term {
	if isStr(s) && isStr(sub) {
		if kind == "strindex" {
			return x.t.IntLit(int64(strings.Index(s.SVal, sub.SVal)))
		}
		return x.t.IntLit(int64(strings.LastIndex(s.SVal, sub.SVal)))
	}
	x.t.StrLen(sub)
	x.t.StrLen(s)
	return x.t.App(kind, x.t.Int, s, sub)
}

func (x *Ex) constRune(e ast.Expr) (string, bool) {
	if tv, ok := x.pkg.Info.Types[e]; ok && tv.Value != nil && tv.Value.Kind() == constant.Int {
		i, _ := constant.Int64Val(tv.Value)
		if i > 0 && i < 128 {
			return string(rune(i)), true
		}
	}
	return "", false
}

func (x *Ex) special(f *types.Func, u *ast.CallExpr, st *State) (Val, bool) {
	if f.Pkg() == nil || f.Type().(*types.Signature).Recv() != nil {
		return nil, false
	}
	tt := x.t
	name := f.Pkg().Path() + "." + f.Name()
	arg := func(i int) *Term { return x.term(u.Args[i], st) }
	switch name {
	case "strings.Index":
		return x.strIndex("strindex", arg(0), arg(1)), true
	case "strings.LastIndex":
		return x.strIndex("strlastindex", arg(0), arg(1)), true
	case "strings.IndexRune", "strings.IndexByte":
		if c, ok := x.constRune(u.Args[1]); ok {
			return x.strIndex("strindex", arg(0), tt.StrLit(c)), true
		}
	case "strings.LastIndexByte":
		if c, ok := x.constRune(u.Args[1]); ok {
			return x.strIndex("strlastindex", arg(0), tt.StrLit(c)), true
		}
	case "strings.Contains":
		return tt.Le(tt.IntLit(0), x.strIndex("strindex", arg(0), arg(1))), true
	case "strings.ContainsRune":
		if c, ok := x.constRune(u.Args[1]); ok {
			return tt.Le(tt.IntLit(0), x.strIndex("strindex", arg(0), tt.StrLit(c))), true
		}
	case "strings.Cut":
		s, sep := arg(0), arg(1)
		i := x.strIndex("strindex", s, sep)
		ok := tt.Le(tt.IntLit(0), i)
		return Tuple{tt.Ite(ok, tt.Substr(s, tt.IntLit(0), i), s), tt.Ite(ok, tt.Substr(s, tt.Add(i, tt.StrLen(sep)), tt.StrLen(s)), tt.StrLit("")), ok}, true
	case "strings.SplitN", "strings.Split":
	case "strconv.Itoa":
		return x.itoa(arg(0)), true
	case "fmt.Sprintf":
		if v := x.sprintf(u, st); v != nil {
			return v, true
		}
	case "fmt.Sprint":
	case "sort.SliceStable", "sort.Slice", "slices.SortStableFunc", "slices.SortFunc", "sort.Strings", "slices.Sort", "sort.Stable", "sort.Sort":
		return nil, x.sortCall(f, u, st)
	case "slices.Contains":
		s, v := arg(0), arg(1)
		return x.seqContains(s, v), true
	}
	return nil, false
}

func (x *Ex) itoa(v *Term) *Term {
	if isInt(v) {
		return x.t.StrLit(fmt.Sprint(v.IVal))
	}
	return x.t.App("itoa", x.t.Str, v)
}

func (x *Ex) sprintf(u *ast.CallExpr, st *State) Val {
	if u.Ellipsis != token.NoPos {
		return nil
	}
	tv := x.pkg.Info.Types[u.Args[0]]
	if tv.Value == nil || tv.Value.Kind() != constant.String {
		return nil
	}
	f := constant.StringVal(tv.Value)
	out := x.t.StrLit("")
	ai := 1
	lit := ""
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			return nil
		}
		verb := f[i : j+1]
		i = j
		if verb == "%%" {
			lit += "%"
			continue
		}
		if ai >= len(u.Args) {
			return nil
		}
		a := x.toTermArg(x.expr(u.Args[ai], st), st, u)
		aty := x.typeOf(u.Args[ai])
		ai++
		var piece *Term
		_, basic := aty.(*types.Basic)
		switch {
		case a.Sort == x.t.Str && basic && (verb == "%s" || verb == "%v"):
			piece = a
		case a.Sort == x.t.Int && basic && (verb == "%d" || verb == "%v"):
			piece = x.itoa(a)
		default:
			piece = x.t.App("fmt"+verb+"/"+a.Sort.Name, x.t.Str, a)
		}
		out = x.t.StrCat(x.t.StrCat(out, x.t.StrLit(lit)), piece)
		lit = ""
	}
	if ai != len(u.Args) {
		return nil
	}
	x.noteAssume("external fmt.Sprintf formats each verb as a function of its operand")
	return x.t.StrCat(out, x.t.StrLit(lit))
}

func (x *Ex) seqContains(s, v *Term) *Term {
	// contains(s,v) with its ground unfoldings for literal sequences
	if isEmptySeq(s) {
		return x.t.False
	}
	if isSnoc(s) {
		return x.t.Or(x.seqContains(s.Args[0], v), x.t.Eq(s.Args[1], v))
	}
	return x.t.App("contains_"+s.Sort.Elem.Name, x.t.Bool, s, v)
}
