package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// Pointers and maps are values here as well: the content they lead to. A
// variable that is set to a place, a parameter and the result of an inlined
// call are followed as aliases of that place. Every other copy of a reference
// is recorded; a write that another holder of the same reference would see
// becomes an alias obligation that cannot be discharged.

// holding: a reference of one sort was copied; the variable v (if any) is one
// of its holders.
type holding struct {
	v    types.Object
	pos  token.Pos
	root types.Object // the variable it was copied out of, if known
}

// refSorts are the sorts of the references in a value of type t.
func (x *Ex) refSorts(t types.Type) []*Sort {
	var out []*Sort
	seen := map[types.Type]bool{}
	var walk func(t types.Type)
	walk = func(t types.Type) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer, *types.Map:
			out = append(out, x.sortOf(t))
		case *types.Slice:
			walk(u.Elem())
		case *types.Array:
			walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type())
			}
		}
	}
	if t != nil {
		walk(t)
	}
	return out
}

// copied: the value of e (an expression of x.pkg) is now also held by dst, or,
// when dst is nil, by some field, element or other place.
func (x *Ex) copied(e ast.Expr, dst types.Object, st *State) {
	if x.spec > 0 {
		return
	}
	e = unparen(e)
	t := x.pkg.Info.TypeOf(e)
	if t == nil || x.w.fresh(x.pkg, e) {
		return
	}
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) > 0 {
		if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "append" && dst != nil {
			// what is appended has been recorded
			if a, ok := unparen(c.Args[0]).(*ast.Ident); ok && x.pkg.Info.ObjectOf(a) == dst {
				return
			}
			x.copied(c.Args[0], dst, st)
			return
		}
	}
	sorts := x.refSorts(t)
	if len(sorts) == 0 {
		return
	}
	var src types.Object
	if id, ok := e.(*ast.Ident); ok {
		if v, ok := x.pkg.Info.ObjectOf(id).(*types.Var); ok {
			src = v
			if isRefType(v.Type()) {
				lv := x.throughAlias(&LV{root: v}, st)
				x.escaped[lv.root] = true
				if len(lv.steps) > 0 {
					src = nil // a stored reference
				}
			}
		}
	}
	if dst != nil && isRefType(dst.Type()) {
		x.escaped[dst] = true
	}
	for _, s := range sorts {
		if src != nil || dst == nil {
			x.held[s.Name] = append(x.held[s.Name], holding{src, e.Pos(), x.baseVar(e)})
		}
		if dst != nil {
			x.held[s.Name] = append(x.held[s.Name], holding{dst, e.Pos(), x.baseVar(e)})
		}
	}
}

// shared: does a write through this place reach content that is also reached
// another way? through: the last reference itself is followed as well.
func (x *Ex) shared(st *State, lv *LV, through bool, n ast.Node) {
	if x.spec > 0 {
		return
	}
	lv = x.throughAlias(lv, st)
	if x.addrOut[lv.root] {
		x.obl(st, "alias", "no write to a variable whose address is stored elsewhere: "+x.w.text(n), n, x.t.False)
		return
	}
	if (through || len(lv.steps) > 0) && x.escaped[lv.root] && isRefType(lv.root.Type()) {
		x.obl(st, "alias", "no write through a reference that was stored elsewhere: "+x.w.text(n), n, x.t.False)
		return
	}
	v, ok := st.vars[lv.root]
	if !ok || len(lv.steps) == 0 {
		return
	}
	cur := x.toTermArg(v, st, n)
	for i, s := range lv.steps {
		if i > 0 && (s.kind == 1 || s.kind == 3) && x.heldElsewhere(cur.Sort, lv.root) {
			x.obl(st, "alias", "no write through a stored reference with another holder: "+x.w.text(n), n, x.t.False)
			return
		}
		cur = x.step(cur, s)
	}
	if through && (cur.Sort.Kind == KPtr || cur.Sort.Kind == KMap) && x.heldElsewhere(cur.Sort, lv.root) {
		x.obl(st, "alias", "no write through a stored reference with another holder: "+x.w.text(n), n, x.t.False)
	}
}

func (x *Ex) heldElsewhere(s *Sort, root types.Object) bool {
	own, asked := false, false
	for _, h := range x.held[s.Name] {
		if h.v != nil && !x.w.usedAfter(h.v, h.pos) {
			continue
		}
		if h.root != nil && h.root != root {
			// what a container of fresh content holds was not copied out of
			// another variable
			if !asked {
				own, asked = x.w.ownContent(root), true
			}
			if own {
				continue
			}
		}
		return true
	}
	return false
}

// baseVar: the variable that e is a part of.
func (x *Ex) baseVar(e ast.Expr) types.Object {
	for {
		switch u := unparen(e).(type) {
		case *ast.Ident:
			if v, ok := x.pkg.Info.ObjectOf(u).(*types.Var); ok {
				return v
			}
			return nil
		case *ast.IndexExpr:
			e = u.X
		case *ast.SelectorExpr:
			e = u.X
		default:
			return nil
		}
	}
}

// ownContent: everything stored in the variable was made for it and it is
// never handed on, so a reference in it has only holders that were read out of
// the variable itself.
func (w *World) ownContent(root types.Object) bool {
	v, ok := root.(*types.Var)
	if !ok || v.Pkg() == nil {
		return false
	}
	w.mu.Lock()
	if w.own == nil {
		w.own = map[types.Object]bool{}
	}
	r, done := w.own[root]
	w.mu.Unlock()
	if done {
		return r
	}
	r = w.ownScan(v)
	w.mu.Lock()
	w.own[root] = r
	w.mu.Unlock()
	return r
}

func (w *World) ownScan(v *types.Var) bool {
	var fi *FuncInfo
	for _, f := range w.Funcs {
		if f.Decl.Body != nil && f.Decl.Body.Pos() <= v.Pos() && v.Pos() < f.Decl.Body.End() {
			fi = f
		}
	}
	if fi == nil {
		return false
	}
	info := fi.Pkg.Info
	// made: a new container without content, or a value without references
	made := func(e ast.Expr) bool {
		e = unparen(e)
		if t := info.TypeOf(e); t != nil && !hasRefs(t) {
			return true
		}
		switch u := e.(type) {
		case *ast.CompositeLit:
			return len(u.Elts) == 0
		case *ast.CallExpr:
			id, ok := unparen(u.Fun).(*ast.Ident)
			if !ok || id.Name != "make" {
				return false
			}
			_, ok = info.Uses[id].(*types.Builtin)
			return ok
		}
		return false
	}
	ok, defined := true, false
	var stack []ast.Node
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		stack = append(stack, n)
		id, isId := n.(*ast.Ident)
		if !isId || info.ObjectOf(id) != types.Object(v) {
			return true
		}
		for _, s := range stack {
			if _, lit := s.(*ast.FuncLit); lit {
				ok = false
			}
		}
		// climb to the whole place
		var e ast.Expr = id
		i := len(stack) - 2
		indexed := false
	climb:
		for ; i >= 0; i-- {
			switch u := stack[i].(type) {
			case *ast.ParenExpr:
				e = u
			case *ast.IndexExpr:
				if u.X != e {
					break climb
				}
				e, indexed = u, true
			default:
				break climb
			}
		}
		switch u := stack[i].(type) {
		case *ast.AssignStmt:
			for k, l := range u.Lhs {
				if l == e {
					defined = true
					if len(u.Lhs) != len(u.Rhs) || !made(u.Rhs[k]) {
						ok = false
					}
					return true
				}
			}
			if !indexed {
				ok = false
			}
		case *ast.RangeStmt:
			if u.X != e {
				ok = false
			}
		case *ast.ReturnStmt:
		case *ast.UnaryExpr:
			if _, ret := stack[i-1].(*ast.ReturnStmt); !ret || u.Op != token.AND || indexed {
				ok = false
			}
		case *ast.CallExpr:
			f, isF := unparen(u.Fun).(*ast.Ident)
			if !isF {
				ok = false
				return true
			}
			if _, b := info.Uses[f].(*types.Builtin); !b || f.Name == "append" || f.Name == "copy" {
				ok = false
			}
		case *ast.IndexExpr:
			// v as an index: not a container
			ok = false
		case *ast.IncDecStmt, *ast.BinaryExpr:
		default:
			ok = false
		}
		return true
	})
	return ok && defined
}

type useInfo struct {
	pos  token.Pos
	lits bool // inside a function literal
}

// usedAfter: is the variable mentioned behind pos, or before it in a loop that
// leads there again without declaring it anew?
func (w *World) usedAfter(v types.Object, pos token.Pos) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.uses == nil {
		w.uses, w.loops = map[types.Object][]useInfo{}, map[*token.File][]ast.Node{}
		for _, p := range w.Order {
			for _, f := range p.Files {
				tf := w.Fset.File(f.Pos())
				depth := 0
				var visit func(n ast.Node) bool
				visit = func(n ast.Node) bool {
					switch u := n.(type) {
					case *ast.FuncLit:
						depth++
						ast.Inspect(u.Body, visit)
						depth--
						return false
					case *ast.ForStmt, *ast.RangeStmt:
						w.loops[tf] = append(w.loops[tf], u)
					case *ast.Ident:
						if o := p.Info.Uses[u]; o != nil {
							w.uses[o] = append(w.uses[o], useInfo{u.Pos(), depth > 0})
						}
					}
					return true
				}
				ast.Inspect(f, visit)
			}
		}
	}
	if strings.HasSuffix(v.Name(), "°") {
		return true
	}
	again := false
	for _, l := range w.loops[w.Fset.File(pos)] {
		if l.Pos() <= pos && pos < l.End() && !(l.Pos() <= v.Pos() && v.Pos() < l.End()) {
			again = true
		}
	}
	for _, u := range w.uses[v] {
		if u.pos > pos || u.lits {
			return true
		}
		if again {
			for _, l := range w.loops[w.Fset.File(pos)] {
				if l.Pos() <= pos && pos < l.End() && l.Pos() <= u.pos && u.pos < l.End() && u.pos != pos {
					return true
				}
			}
		}
	}
	return false
}

// fresh: no other place holds the references in the value of e.
func (w *World) fresh(p *Pkg, e ast.Expr) bool { return w.freshExpr(p, e, map[any]bool{}) }

func (w *World) freshExpr(p *Pkg, e ast.Expr, seen map[any]bool) bool {
	e = unparen(e)
	if tv, ok := p.Info.Types[e]; ok && (tv.IsNil() || tv.Value != nil) {
		return true
	}
	switch u := e.(type) {
	case *ast.CompositeLit, *ast.BasicLit, *ast.FuncLit, *ast.BinaryExpr:
		return true // the elements are recorded on their own
	case *ast.UnaryExpr:
		if u.Op == token.AND {
			_, ok := unparen(u.X).(*ast.CompositeLit)
			return ok
		}
		return u.Op != token.ARROW
	case *ast.CallExpr:
		if tv, ok := p.Info.Types[u.Fun]; ok && tv.IsType() {
			return len(u.Args) == 1 && w.freshExpr(p, u.Args[0], seen)
		}
		if id, ok := unparen(u.Fun).(*ast.Ident); ok {
			if _, ok := p.Info.Uses[id].(*types.Builtin); ok {
				if id.Name != "append" {
					return true
				}
				return len(u.Args) > 0 && w.freshExpr(p, u.Args[0], seen)
			}
		}
		var f *types.Func
		switch c := unparen(u.Fun).(type) {
		case *ast.Ident:
			f, _ = p.Info.Uses[c].(*types.Func)
		case *ast.SelectorExpr:
			if s := p.Info.Selections[c]; s != nil {
				f, _ = s.Obj().(*types.Func)
			} else {
				f, _ = p.Info.Uses[c.Sel].(*types.Func)
			}
		}
		if f == nil {
			return false
		}
		if !isModule(f.Pkg()) {
			return true // assumed of external functions
		}
		if r := f.Type().(*types.Signature).Recv(); r != nil {
			if _, isI := r.Type().Underlying().(*types.Interface); isI {
				return false
			}
		}
		fi := w.Funcs[f.Origin()]
		if fi == nil || fi.Decl.Body == nil {
			return false
		}
		return w.freshResults(fi, seen)
	case *ast.Ident:
		_, isVar := p.Info.ObjectOf(u).(*types.Var)
		return !isVar
	}
	return false
}

// freshResults: every result is built by the call.
func (w *World) freshResults(fi *FuncInfo, seen map[any]bool) bool {
	if seen[fi] {
		return true
	}
	seen[fi] = true
	ok := true
	p := fi.Pkg
	var fresh func(e ast.Expr) bool
	vars := map[types.Object]bool{}
	fresh = func(e ast.Expr) bool {
		e = unparen(e)
		if t := p.Info.TypeOf(e); t != nil && !hasRefs(t) {
			return true
		}
		switch u := e.(type) {
		case *ast.Ident:
			v, isVar := p.Info.ObjectOf(u).(*types.Var)
			if !isVar {
				return true
			}
			if !(fi.Decl.Body.Pos() <= v.Pos() && v.Pos() < fi.Decl.Body.End()) {
				return false
			}
			if vars[v] {
				return true
			}
			vars[v] = true
			return w.freshVar(fi, v, fresh)
		case *ast.UnaryExpr:
			if u.Op == token.AND {
				if id, ok := unparen(u.X).(*ast.Ident); ok {
					return fresh(id)
				}
				if cl, ok := unparen(u.X).(*ast.CompositeLit); ok {
					return fresh(cl)
				}
			}
			return false
		case *ast.CompositeLit:
			for _, el := range u.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					el = kv.Value
				}
				if cl, ok := el.(*ast.CompositeLit); ok && cl.Type == nil {
					if !fresh(cl) {
						return false
					}
					continue
				}
				if !fresh(el) {
					return false
				}
			}
			return true
		case *ast.CallExpr:
			if id, ok := unparen(u.Fun).(*ast.Ident); ok && id.Name == "append" {
				for _, a := range u.Args {
					if !fresh(a) {
						return false
					}
				}
				return true
			}
			if tv, ok := p.Info.Types[u.Fun]; ok && tv.IsType() {
				return len(u.Args) == 1 && fresh(u.Args[0])
			}
		}
		return w.freshExpr(p, e, seen)
	}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt:
			if len(u.Results) == 0 && fi.Decl.Type.Results != nil {
				ok = false
			}
			for _, e := range u.Results {
				if !fresh(e) {
					ok = false
				}
			}
		}
		return ok
	})
	return ok
}

// freshVar: everything the local variable is set to, or that is put into it, is fresh.
func (w *World) freshVar(fi *FuncInfo, v types.Object, fresh func(ast.Expr) bool) bool {
	ok := true
	p := fi.Pkg
	root := func(e ast.Expr) types.Object {
		for {
			switch u := e.(type) {
			case *ast.ParenExpr:
				e = u.X
			case *ast.SelectorExpr:
				e = u.X
			case *ast.IndexExpr:
				e = u.X
			case *ast.StarExpr:
				e = u.X
			case *ast.Ident:
				return p.Info.ObjectOf(u)
			default:
				return nil
			}
		}
	}
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.AssignStmt:
			for i, l := range u.Lhs {
				if root(l) != v {
					continue
				}
				if len(u.Rhs) == len(u.Lhs) {
					ok = ok && fresh(u.Rhs[i])
				} else {
					ok = ok && fresh(u.Rhs[0])
				}
			}
		case *ast.RangeStmt:
			for _, l := range []ast.Expr{u.Key, u.Value} {
				if l != nil && root(l) == v {
					ok = false
				}
			}
		case *ast.ValueSpec:
			for i, id := range u.Names {
				if p.Info.ObjectOf(id) == v && len(u.Values) > 0 {
					if i < len(u.Values) {
						ok = ok && fresh(u.Values[i])
					} else {
						ok = ok && fresh(u.Values[0])
					}
				}
			}
		}
		return ok
	})
	return ok
}

func hasRefs(t types.Type) bool {
	seen := map[types.Type]bool{}
	var walk func(t types.Type) bool
	walk = func(t types.Type) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return false
		case *types.Slice:
			return walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if walk(u.Field(i).Type()) {
					return true
				}
			}
			return false
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				if walk(u.At(i).Type()) {
					return true
				}
			}
			return false
		case *types.Interface:
			return !types.Identical(t, types.Universe.Lookup("error").Type())
		}
		return true
	}
	return walk(t)
}
