package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// A closure that calls itself is described by a function of the contract file,
//
//	Effect_<Function>__<variable>(parameters…, captured…) (results…, post_captured…)
//
// whose further parameters are named after the captured variables it depends
// on and whose results named post_<variable> are their values after the call.
// Needs_<Function>__<variable>, with the same parameters, is its precondition.
// The body is verified against it with the recursive calls replaced by it; the
// calls from outside are replaced by it then.

type Effect struct {
	name  string
	lit   *ast.FuncLit
	fi    *FuncInfo
	needs *FuncInfo
}

func (w *World) effectOf(lit *ast.FuncLit) *Effect {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.effects == nil {
		w.effects = map[*ast.FuncLit]*Effect{}
		for _, p := range w.Order {
			specs := map[string]*FuncInfo{}
			for _, f := range p.SpecFiles {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
						if o, ok := p.Info.Defs[fd.Name].(*types.Func); ok {
							specs[fd.Name.Name] = w.Funcs[o]
						}
					}
				}
			}
			for _, n := range sortedKeys(specs) {
				rest, ok := strings.CutPrefix(n, "Effect_")
				if !ok {
					continue
				}
				fn, v, _ := strings.Cut(rest, "__")
				target := w.ByName[p.Name+"."+strings.ReplaceAll(fn, "_", ".")]
				if target == nil || target.Spec || target.Decl.Body == nil {
					continue
				}
				ast.Inspect(target.Decl.Body, func(m ast.Node) bool {
					as, ok := m.(*ast.AssignStmt)
					if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
						return true
					}
					id, ok1 := as.Lhs[0].(*ast.Ident)
					l, ok2 := as.Rhs[0].(*ast.FuncLit)
					if ok1 && ok2 && id.Name == v {
						w.effects[l] = &Effect{target.Pkg.Name + "." + target.Obj.Name() + "." + v, l, specs[n], specs["Needs_"+rest]}
					}
					return true
				})
			}
		}
	}
	return w.effects[lit]
}

func (x *Ex) onStack(key string) bool {
	for _, s := range x.stack {
		if s == key {
			return true
		}
	}
	return false
}

func (x *Ex) applyEffect(e *Effect, fv *FuncVal, args []Val, st *State, n ast.Node) Val {
	sig := fv.pkg.Info.Types[fv.lit].Type.(*types.Signature)
	esig := e.fi.Obj.Type().(*types.Signature)
	np := sig.Params().Len()
	if esig.Params().Len() < np {
		x.unsupported(n, "the effect of %s has too few parameters", e.name)
	}
	for i := 0; i < np; i++ {
		if !types.Identical(esig.Params().At(i).Type(), sig.Params().At(i).Type()) {
			x.unsupported(n, "the effect of %s has other parameters", e.name)
		}
	}
	// the captured variables
	scope := fv.pkg.Types.Scope().Innermost(fv.lit.Pos())
	find := func(name string, t types.Type) types.Object {
		if scope == nil {
			x.unsupported(n, "no scope for %s", e.name)
		}
		_, o := scope.LookupParent(name, fv.lit.Pos())
		v, ok := o.(*types.Var)
		if !ok || !types.Identical(v.Type(), t) {
			x.unsupported(n, "%s captures no variable %s of that type", e.name, name)
		}
		if _, ok := st.vars[v]; !ok {
			x.unsupported(n, "%s has no value for %s", e.name, name)
		}
		return v
	}
	var caps []types.Object
	for i := np; i < esig.Params().Len(); i++ {
		p := esig.Params().At(i)
		caps = append(caps, find(p.Name(), p.Type()))
	}
	type post struct {
		k int
		v types.Object
	}
	var posts []post
	nr := 0
	for k := 0; k < esig.Results().Len(); k++ {
		r := esig.Results().At(k)
		if name, ok := strings.CutPrefix(r.Name(), "post_"); ok {
			posts = append(posts, post{k, find(name, r.Type())})
			continue
		}
		if nr >= sig.Results().Len() || nr != k || !types.Identical(r.Type(), sig.Results().At(nr).Type()) {
			x.unsupported(n, "the effect of %s has other results", e.name)
		}
		nr++
	}
	if nr != sig.Results().Len() {
		x.unsupported(n, "the effect of %s has other results", e.name)
	}
	eval := func(fi *FuncInfo, ps []*Term, s *State) []*Term {
		vals := make([]Val, 0, esig.Params().Len())
		for _, p := range ps {
			vals = append(vals, p)
		}
		for _, c := range caps {
			vals = append(vals, x.toTermArg(s.vars[c], s, n))
		}
		x.spec++
		v := x.specCall(fi, vals, &State{vars: map[types.Object]Val{}}, n)
		x.spec--
		if tup, ok := v.(Tuple); ok {
			var out []*Term
			for _, t := range tup {
				out = append(out, x.toTerm(t, nil, n))
			}
			return out
		}
		return []*Term{x.toTerm(v, nil, n)}
	}
	key := fmt.Sprintf("lit@%d", fv.lit.Pos())
	if !x.onStack(key) {
		// the body, for arbitrary arguments and contents of what it changes
		s := st.clone()
		tag := "e!" + x.site(n) + "!"
		for _, p := range posts {
			if r, ok := s.vars[p.v].(*RefVal); ok && r.addr {
				x.unsupported(n, "%s changes %s, which is an address", e.name, p.v.Name())
			}
			s.vars[p.v] = x.t.Const(tag+p.v.Name(), x.sortOf(p.v.Type()))
		}
		var ps []*Term
		var hid []types.Object
		for i := 0; i < np; i++ {
			p := sig.Params().At(i)
			c := x.t.Const(tag+"p!"+p.Name(), x.sortOf(p.Type()))
			ps = append(ps, c)
			switch p.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice:
				h := x.w.hiddenVar(p, fv.pkg.Types)
				s.vars[h] = c
				s.vars[p] = &RefVal{lv: &LV{root: h}}
				hid = append(hid, h)
			case *types.Signature:
				s.vars[p] = &FuncVal{term: c}
			default:
				s.vars[p] = c
			}
		}
		if e.needs != nil {
			old := x.polarity
			x.polarity = -1
			g := eval(e.needs, ps, s)[0]
			x.polarity = old
			s.pc = append(s.pc, g)
		}
		want := eval(e.fi, ps, s)
		before := map[types.Object]Val{}
		for o, v := range s.vars {
			before[o] = v
		}
		oldPkg := x.pkg
		x.pkg = fv.pkg
		x.stack = append(x.stack, key)
		x.loopCtx = append(x.loopCtx, x.site(n))
		x.point(s, "closure", fv.lit)
		v, out := x.runBody(fv.lit.Body, sig, s, n)
		x.loopCtx = x.loopCtx[:len(x.loopCtx)-1]
		x.stack = x.stack[:len(x.stack)-1]
		x.pkg = oldPkg
		changes := map[types.Object]bool{}
		for _, p := range posts {
			changes[p.v] = true
			x.obl(out, "effect", e.name+" "+p.v.Name(), fv.lit, x.t.Eq(x.toTerm(out.vars[p.v], out, n), want[p.k]))
		}
		for _, h := range hid {
			changes[h] = true
			x.obl(out, "frame", e.name+": what an argument leads to is left as it was", fv.lit, x.t.Eq(x.toTerm(out.vars[h], out, n), before[h].(*Term)))
		}
		var rv []Val
		switch t := v.(type) {
		case nil:
		case Tuple:
			rv = t
		default:
			rv = []Val{t}
		}
		for k, r := range rv {
			x.obl(out, "effect", fmt.Sprintf("%s result %d", e.name, k), fv.lit, x.t.Eq(x.toTerm(r, out, n), want[k]))
		}
		for o, b := range before {
			if a, ok := out.vars[o]; ok && !changes[o] && !sameVal(a, b) && !(fv.lit.Pos() <= o.Pos() && o.Pos() < fv.lit.End()) {
				x.unsupported(n, "%s changes %s, which its effect does not mention", e.name, o.Name())
			}
		}
	}
	ps := x.argTerms(args, st, n)
	if e.needs != nil {
		g := eval(e.needs, ps, st)[0]
		x.obl(st, "requires", "precondition of "+e.name, n, g)
		st.pc = append(st.pc, g)
	}
	res := eval(e.fi, ps, st)
	for _, p := range posts {
		if _, ok := p.v.Type().Underlying().(*types.Map); ok && !x.w.assigns(fv.pkg, fv.lit.Body, p.v) {
			// still the same map
			old := x.toTermArg(st.vars[p.v], st, n)
			st.pc = append(st.pc, x.t.Eq(x.t.MapIsNil(old), x.t.MapIsNil(res[p.k])))
		}
		st.vars[p.v] = res[p.k]
	}
	switch nr {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	var tup Tuple
	for k := 0; k < nr; k++ {
		tup = append(tup, res[k])
	}
	return tup
}

// assigns: the code gives the variable itself a value, or takes its address.
func (w *World) assigns(p *Pkg, body ast.Node, v types.Object) bool {
	is := func(e ast.Expr) bool {
		id, ok := unparen(e).(*ast.Ident)
		return ok && p.Info.ObjectOf(id) == v
	}
	found := false
	ast.Inspect(body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.AssignStmt:
			for _, l := range u.Lhs {
				found = found || is(l)
			}
		case *ast.RangeStmt:
			found = found || u.Key != nil && is(u.Key) || u.Value != nil && is(u.Value)
		case *ast.UnaryExpr:
			found = found || u.Op == token.AND && is(u.X)
		}
		return true
	})
	return found
}
