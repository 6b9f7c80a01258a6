package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"sync"
)

// Slices are values here: a sequence of its elements. That is right as long as
// no element is written while another slice shows the same memory. The rules
// below find where a function body might do so; each hit becomes an alias
// obligation that cannot be discharged.

type shareHit struct {
	n    ast.Node
	what string
}

type sharer struct {
	p     *Pkg
	w     *World
	hits  []shareHit
	par   map[ast.Node]ast.Node
	pairs []sharePair
	muts  []shareMut
	apps  []shareMut
	decl  map[types.Object]token.Pos
}

type sharePair struct {
	a, b string // places
	ra   types.Object
	rb   types.Object
	pos  token.Pos
	n    ast.Node
}

type shareMut struct {
	place string
	root  types.Object
	n     ast.Node
}

func (s *sharer) typ(e ast.Expr) types.Type {
	if tv, ok := s.p.Info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := s.p.Info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// place is the text of a variable, field or element expression.
func (s *sharer) place(e ast.Expr) (string, types.Object) {
	switch u := unparen(e).(type) {
	case *ast.Ident:
		if o, ok := s.p.Info.ObjectOf(u).(*types.Var); ok {
			return u.Name, o
		}
	case *ast.SelectorExpr:
		if t, o := s.place(u.X); o != nil {
			return t + "." + u.Sel.Name, o
		}
	case *ast.IndexExpr:
		if t, o := s.place(u.X); o != nil {
			return t + "[" + s.w.text(u.Index) + "]", o
		}
	case *ast.StarExpr:
		return s.place(u.X)
	}
	return "", nil
}

func (s *sharer) hit(n ast.Node, what string) { s.hits = append(s.hits, shareHit{n, what}) }

// stored: the value of src is stored in dst (nil: somewhere).
func (s *sharer) stored(dst, src ast.Expr, n ast.Node) {
	if !isSlice(s.typ(src)) {
		return
	}
	p, r := s.place(src)
	if r == nil {
		return
	}
	q, rq := "", types.Object(nil)
	if dst != nil {
		q, rq = s.place(dst)
		if rq == r && p == q {
			return
		}
	}
	s.pairs = append(s.pairs, sharePair{q, p, rq, r, n.Pos(), n})
}

func (s *sharer) isBuiltin(e ast.Expr, name string) bool {
	id, ok := unparen(e).(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}
	_, ok = s.p.Info.Uses[id].(*types.Builtin)
	return ok
}

func (s *sharer) mutate(e ast.Expr, n ast.Node) {
	if p, r := s.place(e); r != nil {
		s.muts = append(s.muts, shareMut{p, r, n})
	}
}

func (s *sharer) node(n ast.Node) {
	switch u := n.(type) {
	case *ast.AssignStmt:
		for i, l := range u.Lhs {
			if ix, ok := unparen(l).(*ast.IndexExpr); ok && isSlice(s.typ(ix.X)) {
				s.mutate(ix.X, u)
			} else if sel, ok := unparen(l).(*ast.SelectorExpr); ok {
				// x[i].f = v
				for e := ast.Expr(sel); ; {
					if se, ok := unparen(e).(*ast.SelectorExpr); ok {
						if t := s.typ(se.X); t != nil {
							if _, ptr := t.Underlying().(*types.Pointer); ptr {
								break
							}
						}
						e = se.X
						continue
					}
					if ix, ok := unparen(e).(*ast.IndexExpr); ok && isSlice(s.typ(ix.X)) {
						s.mutate(ix.X, u)
					}
					break
				}
			}
			if len(u.Rhs) == len(u.Lhs) {
				s.stored(l, u.Rhs[i], u)
			}
		}
	case *ast.ValueSpec:
		for i, v := range u.Values {
			if i < len(u.Names) {
				s.stored(u.Names[i], v, u)
			}
		}
	case *ast.CompositeLit:
		for _, e := range u.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				e = kv.Value
			}
			s.stored(nil, e, u)
		}
	case *ast.RangeStmt:
		// the value variable holds slices of the elements
		if id, ok := u.Value.(*ast.Ident); ok && id != nil && isSlice(s.typ(id)) {
			if p, r := s.place(u.X); r != nil {
				s.pairs = append(s.pairs, sharePair{id.Name, p + "[]", s.p.Info.ObjectOf(id), r, u.Pos(), u})
			}
		}
	case *ast.CallExpr:
		if s.isBuiltin(u.Fun, "append") && len(u.Args) > 0 {
			s.appended(u)
			for _, a := range u.Args[1:] {
				if u.Ellipsis == token.NoPos {
					s.stored(nil, a, u)
				}
			}
		}
		if s.isBuiltin(u.Fun, "copy") && len(u.Args) == 2 {
			s.mutate(u.Args[0], u)
		}
		if se, ok := u.Fun.(*ast.SelectorExpr); ok {
			if id, ok := se.X.(*ast.Ident); ok && (id.Name == "sort" || id.Name == "slices") && len(u.Args) > 0 {
				switch se.Sel.Name {
				case "Slice", "SliceStable", "Strings", "Ints", "Sort", "Stable", "SortFunc", "SortStableFunc", "Reverse", "Float64s":
					s.mutate(u.Args[0], u)
				}
			}
		}
	case *ast.SliceExpr:
		s.sliced(u)
	}
}

// appended: append may write behind the end of its first argument.
func (s *sharer) appended(u *ast.CallExpr) {
	p, r := s.place(u.Args[0])
	if r == nil {
		return
	}
	s.apps = append(s.apps, shareMut{p, r, u})
	switch par := s.par[u].(type) {
	case *ast.AssignStmt:
		for i, v := range par.Rhs {
			if unparen(v) == ast.Expr(u) && i < len(par.Lhs) {
				if q, rq := s.place(par.Lhs[i]); q == p && rq == r {
					return
				}
			}
		}
	case *ast.ReturnStmt:
		if _, local := s.decl[r]; local && p == r.Name() {
			return // a local list that ends here
		}
	}
	s.hit(u, "the list that is appended to is not the one that is assigned: "+s.w.text(u))
}

// sliced: the shorter list leaves elements behind its end that an append to
// it overwrites.
func (s *sharer) sliced(u *ast.SliceExpr) {
	if u.High == nil || u.Slice3 || !isSlice(s.typ(u)) {
		return
	}
	switch par := s.par[u].(type) {
	case *ast.AssignStmt:
		p, r := s.place(u.X)
		for i, v := range par.Rhs {
			if unparen(v) == ast.Expr(u) && i < len(par.Lhs) {
				if q, rq := s.place(par.Lhs[i]); r != nil && q == p && rq == r {
					return
				}
			}
		}
	case *ast.RangeStmt:
		return
	case *ast.IndexExpr:
		return
	case *ast.CallExpr:
		if s.isBuiltin(par.Fun, "len") || s.isBuiltin(par.Fun, "append") && par.Args[0] != ast.Expr(u) {
			return
		}
		if tv, ok := s.p.Info.Types[par.Fun]; ok && tv.IsType() {
			return // conversion
		}
		if p, r := s.place(u.X); r != nil && s.isBuiltin(par.Fun, "append") {
			// x = append(x[:i], x[j:]...)
			if as, ok := s.par[par].(*ast.AssignStmt); ok && len(as.Lhs) == 1 {
				if q, rq := s.place(as.Lhs[0]); q == p && rq == r {
					return
				}
			}
		}
	}
	s.hit(u, "a shortened list that is kept beside the longer one: "+s.w.text(u))
}

// loopOf is a loop around both nodes that does not declare o.
func (s *sharer) commonLoop(a, b ast.Node, o types.Object) bool {
	for l := s.par[a]; l != nil; l = s.par[l] {
		switch l.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.FuncLit:
			if l.Pos() <= b.Pos() && b.End() <= l.End() && !(l.Pos() <= o.Pos() && o.Pos() <= l.End()) {
				return true
			}
		}
	}
	return false
}

func (s *sharer) check() {
	for _, m := range s.muts {
		for _, p := range s.pairs {
			if !(p.ra == m.root && p.a == m.place || p.rb == m.root && p.b == m.place) {
				continue
			}
			if p.pos < m.n.Pos() || s.commonLoop(p.n, m.n, m.root) {
				s.hit(m.n, "elements are written while another list shares them: "+s.w.text(m.n))
				break
			}
		}
	}
	for _, p := range s.pairs {
		var a, b bool
		for _, m := range s.apps {
			a = a || p.ra == m.root && p.a == m.place
			b = b || p.rb == m.root && p.b == m.place
		}
		if a && b {
			s.hit(p.n, "both lists that share memory are appended to: "+s.w.text(p.n))
		}
	}
}

// copied structs: writing through a map or pointer field of a copy
func (s *sharer) copies(body ast.Node) {
	from := map[types.Object]bool{}
	mark := func(l, r ast.Expr) {
		id, ok := unparen(l).(*ast.Ident)
		if !ok {
			return
		}
		o := s.p.Info.ObjectOf(id)
		if o == nil {
			return
		}
		if _, ok := o.Type().Underlying().(*types.Struct); !ok {
			return
		}
		switch unparen(r).(type) {
		case *ast.CompositeLit, *ast.CallExpr, *ast.FuncLit:
		default:
			from[o] = true
		}
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch u := n.(type) {
		case *ast.AssignStmt:
			if len(u.Lhs) == len(u.Rhs) {
				for i := range u.Lhs {
					mark(u.Lhs[i], u.Rhs[i])
				}
			} else if len(u.Rhs) == 1 {
				if _, call := unparen(u.Rhs[0]).(*ast.CallExpr); !call {
					for i := range u.Lhs {
						mark(u.Lhs[i], u.Rhs[0])
					}
				}
			}
		case *ast.RangeStmt:
			if u.Value != nil {
				mark(u.Value, u.X)
			}
		}
		return true
	})
	ast.Inspect(body, func(n ast.Node) bool {
		as, ok := n.(*ast.AssignStmt)
		if !ok {
			return true
		}
		for _, l := range as.Lhs {
			// does the written place cross a reference stored in a copy?
			cross := false
			e := unparen(l)
			for {
				switch u := e.(type) {
				case *ast.SelectorExpr:
					if _, ptr := s.typ(u.X).(*types.Pointer); ptr {
						cross = true
					}
					e = unparen(u.X)
					continue
				case *ast.IndexExpr:
					if t := s.typ(u.X); t != nil {
						switch t.Underlying().(type) {
						case *types.Map, *types.Slice, *types.Pointer:
							cross = true
						}
					}
					e = unparen(u.X)
					continue
				case *ast.StarExpr:
					cross = true
					e = unparen(u.X)
					continue
				}
				break
			}
			if id, ok := e.(*ast.Ident); ok && cross && from[s.p.Info.ObjectOf(id)] {
				s.hit(as, "a write through a reference held by a copy: "+s.w.text(as))
			}
		}
		return true
	})
}

var shareLock sync.Mutex

var shareMemo = map[*FuncInfo][]shareHit{}

func (w *World) shareHits(fi *FuncInfo) []shareHit {
	shareLock.Lock()
	defer shareLock.Unlock()
	if h, ok := shareMemo[fi]; ok {
		return h
	}
	s := &sharer{p: fi.Pkg, w: w, par: map[ast.Node]ast.Node{}, decl: map[types.Object]token.Pos{}}
	var stack []ast.Node
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if len(stack) > 0 {
			p := stack[len(stack)-1]
			for k := len(stack) - 1; k >= 0; k-- {
				if _, paren := stack[k].(*ast.ParenExpr); !paren {
					p = stack[k]
					break
				}
			}
			s.par[n] = p
		}
		if id, ok := n.(*ast.Ident); ok {
			if o := fi.Pkg.Info.Defs[id]; o != nil {
				s.decl[o] = id.Pos()
			}
		}
		stack = append(stack, n)
		return true
	})
	ast.Inspect(fi.Decl.Body, func(n ast.Node) bool {
		if n != nil {
			s.node(n)
		}
		return true
	})
	s.check()
	s.copies(fi.Decl.Body)
	shareMemo[fi] = s.hits
	return s.hits
}

func (x *Ex) shareObls(fi *FuncInfo, st *State) {
	if x.spec > 0 {
		return
	}
	for _, h := range x.w.shareHits(fi) {
		x.obl(st, "alias", h.what, h.n, x.t.False)
	}
}
