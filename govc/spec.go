package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- contracts

type Clause struct {
	Label string
	Fi    *FuncInfo
	Posts []string // names of the target's parameters whose final value is passed (post_x)
	// checked by execution only (//vc:bounded)
	Bounded bool
	// taken for granted by callers, checked by execution only (//vc:assumed why)
	Assumed string
}

type Contract struct {
	Fi       *FuncInfo
	Name     string
	Requires []*Clause
	Ensures  []*Clause
	Trusted  string
	Opaque   bool
	root     bool            // decides a property
	hints    map[string]bool // invariants not to propose
}

type Contracts struct {
	m       map[*types.Func]*Contract
	byName  map[string]*Contract
	Missing []string            // contracts whose target does not exist (any more)
	Lost    map[string][]string // clauses that are written but no longer fit the code, by function
}

func (c *Contracts) For(fi *FuncInfo) *Contract { return c.m[fi.Obj] }

func CollectContracts(w *World) *Contracts {
	cs := &Contracts{m: map[*types.Func]*Contract{}, byName: map[string]*Contract{}, Lost: map[string][]string{}}
	for _, d := range w.Dropped {
		if rest, ok := strings.CutPrefix(d, "Ensures_"); ok {
			rest, _, _ = strings.Cut(rest, " ")
			fn, label, _ := strings.Cut(rest, "__")
			for _, p := range w.Order {
				k := p.Name + "." + strings.ReplaceAll(fn, "_", ".")
				cs.Lost[k] = append(cs.Lost[k], label)
			}
		}
	}
	for _, p := range w.Order {
		for _, f := range p.SpecFiles {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				kind := ""
				switch {
				case strings.HasPrefix(n, "Requires_"):
					kind = "r"
				case strings.HasPrefix(n, "Ensures_"):
					kind = "e"
				default:
					continue
				}
				rest := n[strings.Index(n, "_")+1:]
				label := ""
				if i := strings.Index(rest, "__"); i >= 0 {
					label = rest[i+2:]
					rest = rest[:i]
				}
				obj, _ := p.Info.Defs[fd.Name].(*types.Func)
				fi := w.Funcs[obj]
				target := p.Name + "." + strings.ReplaceAll(rest, "_", ".")
				tfi := w.ByName[target]
				if tfi == nil || tfi.Spec {
					cs.Missing = append(cs.Missing, target)
					cs.Lost[target] = append(cs.Lost[target], label)
					continue
				}
				if msg := compatible(tfi, fi, kind); msg != "" {
					cs.Missing = append(cs.Missing, target+": "+msg)
					cs.Lost[target] = append(cs.Lost[target], label)
					continue
				}
				con := cs.m[tfi.Obj]
				if con == nil {
					con = &Contract{Fi: tfi, Name: target}
					cs.m[tfi.Obj] = con
					cs.byName[target] = con
				}
				cl := &Clause{Label: label, Fi: fi}
				sig := obj.Type().(*types.Signature)
				tps := allParams(tfi.Obj.Type().(*types.Signature))
				bad := ""
				for i := 0; i < sig.Params().Len(); i++ {
					pn, ok := strings.CutPrefix(sig.Params().At(i).Name(), "post_")
					if !ok {
						continue
					}
					found := false
					for j := range tps {
						if sig.Params().At(j).Name() == pn {
							cl.Posts = append(cl.Posts, tps[j].Name())
							found = true
						}
					}
					if !found {
						bad = pn
					}
				}
				if bad != "" {
					cs.Missing = append(cs.Missing, target+": no parameter "+bad)
					continue
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if s, ok := strings.CutPrefix(c.Text, "//vc:trusted "); ok {
							con.Trusted = s
						}
						if c.Text == "//vc:opaque" {
							con.Opaque = true
						}
						if c.Text == "//vc:bounded" {
							cl.Bounded = true
						}
						if s, ok := strings.CutPrefix(c.Text, "//vc:assumed "); ok {
							cl.Assumed = s
						}
					}
				}
				if kind == "r" {
					con.Requires = append(con.Requires, cl)
				} else {
					con.Ensures = append(con.Ensures, cl)
				}
			}
		}
	}
	return cs
}

func allParams(sig *types.Signature) []*types.Var {
	var ps []*types.Var
	if sig.Recv() != nil {
		ps = append(ps, sig.Recv())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, sig.Params().At(i))
	}
	return ps
}

// compatible checks that the clause's parameters are the target's parameters
// followed by its results (ensures) and post_ parameters.
func compatible(target, clause *FuncInfo, kind string) string {
	tsig := target.Obj.Type().(*types.Signature)
	csig := clause.Obj.Type().(*types.Signature)
	want := allParams(tsig)
	var ts []types.Type
	for _, v := range want {
		ts = append(ts, v.Type())
	}
	if kind == "e" {
		for i := 0; i < tsig.Results().Len(); i++ {
			ts = append(ts, tsig.Results().At(i).Type())
		}
	}
	if csig.Params().Len() < len(ts) {
		return "signature changed"
	}
	for i, t := range ts {
		if !types.Identical(t, csig.Params().At(i).Type()) {
			return "signature changed"
		}
	}
	for i := len(ts); i < csig.Params().Len(); i++ {
		if !strings.HasPrefix(csig.Params().At(i).Name(), "post_") {
			return "signature changed"
		}
	}
	return ""
}

// evalClause evaluates a contract clause on terms; posts are final values.
func (x *Ex) evalClause(cl *Clause, args []*Term, posts map[string]*Term, n ast.Node) *Term {
	sig := cl.Fi.Obj.Type().(*types.Signature)
	vals := make([]Val, 0, sig.Params().Len())
	for _, a := range args {
		vals = append(vals, a)
	}
	for i := len(args); i < sig.Params().Len(); i++ {
		pn := cl.Posts[i-len(args)]
		p := posts[pn]
		if p == nil {
			x.unsupported(n, "no final value of %s for %s", pn, cl.Fi.Obj.Name())
		}
		vals = append(vals, p)
	}
	x.spec++
	defer func() { x.spec-- }()
	v := x.specCall(cl.Fi, vals, &State{vars: map[types.Object]Val{}}, n)
	return x.toTerm(v, nil, n)
}

// contractCall replaces a call by the callee's contract.
func (x *Ex) contractCall(con *Contract, args []Val, st *State, n ast.Node) Val {
	x.usedCon[con.Name] = true
	sig := con.Fi.Obj.Type().(*types.Signature)
	if x.spec == 0 {
		args = x.refSlices(con.Fi, args, n, st)
	}
	args = append([]Val{}, args...)
	for i, a := range args {
		if fv, ok := a.(*FuncVal); ok && fv.lit != nil {
			args[i] = x.closureTerm(fv, st, n)
		}
	}
	ts := x.argTerms(args, st, n)
	ps := allParams(sig)
	req := x.t.True
	for _, r := range con.Requires {
		g := x.evalClause(r, ts, nil, n)
		req = x.t.And(req, g)
		if x.spec == 0 {
			x.obl(st, "requires", "precondition "+r.Label+" of "+con.Name, n, g)
			st.pc = append(st.pc, g)
		}
	}
	// final values of mutable parameters
	posts := map[string]*Term{}
	needed := map[string]bool{}
	for _, e := range con.Ensures {
		for _, p := range e.Posts {
			needed[p] = true
		}
	}
	sn := "call!" + con.Name
	for i, p := range ps {
		if needed[p.Name()] {
			pt := x.t.App(fmt.Sprintf("%s.post_%s", sn, p.Name()), ts[i].Sort, ts...)
			posts[p.Name()] = pt
			if x.spec == 0 {
				r, ok := args[i].(*RefVal)
				if !ok {
					x.unsupported(n, "argument %s of %s is changed by the call but is not a place", p.Name(), con.Name)
				}
				if r.addr {
					x.assume(st, x.t.Not(x.t.IsNil(pt)))
					x.writeLV(st, r.lv, x.t.Deref(pt), n)
				} else {
					x.shared(st, r.lv, true, n)
					x.writeLV(st, r.lv, pt, n)
				}
			}
		}
	}
	var res []*Term
	for k := 0; k < sig.Results().Len(); k++ {
		res = append(res, x.t.App(fmt.Sprintf("%s#%d", sn, k), x.sortOf(sig.Results().At(k).Type()), ts...))
	}
	key := x.t.App(sn+"!done", x.t.Bool, ts...)
	if !x.conDone[key.ID] && !con.Opaque {
		x.conDone[key.ID] = true
		all := append(append([]*Term{}, ts...), res...)
		old := x.polarity
		x.polarity = -1
		isRes := map[*Term]int{}
		for k, r := range res {
			isRes[r] = k
		}
		for _, e := range con.Ensures {
			if e.Bounded {
				continue
			}
			if e.Assumed != "" {
				x.assumption[con.Name+" "+e.Label+": "+e.Assumed] = true
			}
			g := x.evalClause(e, all, posts, n)
			x.fact(x.t.Implies(req, g))
			// result == term: use the term itself from here on
			parts := []*Term{g}
			if g.Op == "and" {
				parts = g.Args
			}
			for _, p := range parts {
				if p.Op != "=" {
					continue
				}
				for d := 0; d < 2; d++ {
					r, v := p.Args[d], p.Args[1-d]
					if _, ok := isRes[r]; ok && x.conVal[r.ID] == nil && !containsAny(v, res) {
						x.conVal[r.ID] = v
					}
				}
			}
		}
		x.polarity = old
	}
	if x.spec == 0 || x.given(req) {
		for k, r := range res {
			if v := x.conVal[r.ID]; v != nil {
				res[k] = v
			}
		}
	}
	switch len(res) {
	case 0:
		return nil
	case 1:
		return res[0]
	}
	var tup Tuple
	for _, r := range res {
		tup = append(tup, r)
	}
	return tup
}

// given: every part of p is among the facts that hold throughout.
func (x *Ex) given(p *Term) bool {
	if p.Op == "and" {
		for _, a := range p.Args {
			if !x.given(a) {
				return false
			}
		}
		return true
	}
	return p == x.t.True || x.factSeen[p.ID]
}

// closureTerm is the value of a function literal that a callee is given: two
// literals are the same value when their results are the same term of their
// parameters. The body must be safe for every argument and change nothing.
func (x *Ex) closureTerm(fv *FuncVal, st *State, n ast.Node) *Term {
	sig := fv.pkg.Info.Types[fv.lit].Type.(*types.Signature)
	env := fv.env
	if env == nil {
		env = st
	}
	ps := map[*Term]string{}
	var args []*Term
	var vals []Val
	for i := 0; i < sig.Params().Len(); i++ {
		c := x.t.Const(fmt.Sprintf("arg!%d!%d", fv.lit.Pos(), i), x.sortOf(sig.Params().At(i).Type()))
		ps[c] = fmt.Sprintf("$%d", i)
		args = append(args, c)
		vals = append(vals, c)
	}
	if x.spec == 0 {
		before := st.clone()
		cur := st.clone()
		x.applyLit(&FuncVal{lit: fv.lit, pkg: fv.pkg}, vals, cur, n)
		for o, v := range before.vars {
			if w, ok := cur.vars[o]; ok && !sameVal(v, w) {
				x.unsupported(n, "a function literal that changes %s is passed on", o.Name())
			}
		}
	}
	snap := env.clone()
	res := x.applySpec(&FuncVal{lit: fv.lit, pkg: fv.pkg, env: snap}, args...)
	var caps []*Term
	var sk strings.Builder
	memo := map[*Term]bool{}
	var has func(t *Term) bool
	has = func(t *Term) bool {
		if r, ok := memo[t]; ok {
			return r
		}
		_, r := ps[t]
		for _, a := range t.Args {
			r = has(a) || r
		}
		memo[t] = r
		return r
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if p, ok := ps[t]; ok {
			sk.WriteString(p)
			return
		}
		if !has(t) {
			caps = append(caps, t)
			sk.WriteString("#")
			return
		}
		sk.WriteString("(" + t.Op)
		for _, a := range t.Args {
			sk.WriteString(" ")
			walk(a)
		}
		sk.WriteString(")")
	}
	for _, r := range res {
		walk(r)
		sk.WriteString(";")
	}
	h := fnv.New64a()
	h.Write([]byte(sk.String()))
	return x.t.App(fmt.Sprintf("fn!%x", h.Sum64()), x.sortOf(sig), caps...)
}

// ---------------------------------------------------------------- specification functions

var recMemo = map[*types.Func]bool{}

func (x *Ex) isRecursive(fi *FuncInfo) bool {
	target := fi.Obj
	seen := map[*types.Func]bool{}
	var visit func(f *FuncInfo) bool
	visit = func(f *FuncInfo) bool {
		if f == nil || f.Decl.Body == nil || seen[f.Obj] {
			return false
		}
		seen[f.Obj] = true
		found := false
		ast.Inspect(f.Decl.Body, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := f.Pkg.Info.Uses[id].(*types.Func); ok && isModule(o.Pkg()) {
					if o == target {
						found = true
					} else if g := x.w.Funcs[o]; g != nil && g.Spec && visit(g) {
						found = true
					}
				}
			}
			return !found
		})
		return found
	}
	return visit(fi)
}

func (x *Ex) specCall(fi *FuncInfo, args []Val, st *State, n ast.Node) Val {
	sig := fi.Obj.Type().(*types.Signature)
	name := funcName(fi.Obj)
	// memo on term arguments
	memo := name + fmt.Sprintf("@%d/%d/%v", x.polarity, len(x.enums), x.seeding)
	pure := true
	for _, a := range args {
		switch t := a.(type) {
		case *Term:
			memo += fmt.Sprintf(",%d", t.ID)
		default:
			pure = false
		}
	}
	if strings.HasPrefix(fi.Obj.Name(), "Ensures_") {
		pure = false // may depend on the enumerations known so far
	}
	if pure {
		if v, ok := x.specMemo[memo]; ok {
			return v
		}
	}
	run := func() Val {
		ns := &State{vars: map[types.Object]Val{}}
		oldPkg := x.pkg
		x.pkg = fi.Pkg
		x.bindParams(sig, args, ns)
		x.stack = append(x.stack, "spec:"+name)
		v, _ := x.runBody(fi.Decl.Body, sig, ns, n)
		x.stack = x.stack[:len(x.stack)-1]
		x.pkg = oldPkg
		return v
	}
	if pure && fi.Spec && x.isRecursive(fi) {
		ts := make([]*Term, len(args))
		for i := range args {
			ts[i] = args[i].(*Term)
		}
		var res Tuple
		for k := 0; k < sig.Results().Len(); k++ {
			res = append(res, x.t.App(fmt.Sprintf("rec!%s#%d", name, k), x.sortOf(sig.Results().At(k).Type()), ts...))
		}
		var out Val = res
		if len(res) == 1 {
			out = res[0]
		}
		if x.recFuel > 0 {
			x.specMemo[memo] = out
			x.recFuel--
			v := run()
			x.recFuel++
			vs, ok := v.(Tuple)
			if !ok {
				vs = Tuple{v}
			}
			for k := range res {
				x.fact(x.t.Eq(res[k].(*Term), x.toTerm(vs[k], nil, n)))
			}
		}
		return out
	}
	if len(x.stack) > 60 {
		x.unsupported(n, "specification too deep at %s", name)
	}
	v := run()
	if pure {
		x.specMemo[memo] = v
	}
	return v
}

// captures returns an identity for a function value and the terms it captures.
func (x *Ex) captures(fv *FuncVal, st *State) (string, []*Term) {
	if fv.term != nil {
		return "fn", []*Term{fv.term}
	}
	if fv.obj != nil {
		id := funcName(fv.obj)
		if fv.recv != nil {
			return id, []*Term{x.toTerm(fv.recv, st, nil)}
		}
		return id, nil
	}
	p := x.w.Fset.Position(fv.lit.Pos())
	id := fmt.Sprintf("%s:%d:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, p.Column)
	env := fv.env
	if env == nil {
		env = st
	}
	var objs []*types.Var
	seen := map[*types.Var]bool{}
	ast.Inspect(fv.lit, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if v, ok := fv.pkg.Info.Uses[i].(*types.Var); ok && !seen[v] && !v.IsField() {
				if v.Pos() < fv.lit.Pos() || v.Pos() > fv.lit.End() {
					if env != nil {
						if _, ok := env.vars[v]; ok {
							seen[v] = true
							objs = append(objs, v)
						}
					}
				}
			}
		}
		return true
	})
	sort.Slice(objs, func(i, j int) bool { return objs[i].Pos() < objs[j].Pos() })
	var caps []*Term
	for _, o := range objs {
		switch v := env.vars[o].(type) {
		case *FuncVal:
			i2, c2 := x.captures(v, env)
			id += "+" + i2
			caps = append(caps, c2...)
		default:
			caps = append(caps, x.toTerm(v, env, nil))
		}
	}
	return id, caps
}

// applySpec calls a specification-level function value on terms.
func (x *Ex) applySpec(fv *FuncVal, args ...*Term) []*Term {
	vals := make([]Val, len(args))
	for i := range args {
		vals[i] = args[i]
	}
	x.spec++
	defer func() { x.spec-- }()
	var v Val
	st := &State{vars: map[types.Object]Val{}}
	if fv.lit != nil {
		if fv.env == nil {
			fv = &FuncVal{lit: fv.lit, pkg: fv.pkg, env: st}
		}
		v = x.applyLit(fv, vals, st, fv.lit)
	} else if fv.obj != nil {
		fi := x.w.Funcs[fv.obj.Origin()]
		if fi == nil {
			x.unsupported(nil, "specification uses %s as a function value", fv.obj.Name())
		}
		if fv.recv != nil {
			vals = append([]Val{fv.recv}, vals...)
		}
		if con := x.conCache.For(fi); con != nil {
			v = x.contractCall(con, vals, st, fi.Decl)
		} else {
			v = x.specCall(fi, vals, st, fi.Decl)
		}
	} else {
		x.unsupported(nil, "opaque function in a specification combinator")
	}
	if t, ok := v.(Tuple); ok {
		out := make([]*Term, len(t))
		for i := range t {
			out[i] = x.toTerm(t[i], st, nil)
		}
		return out
	}
	return []*Term{x.toTerm(v, st, nil)}
}

// ---------------------------------------------------------------- combinators

type Comb struct {
	kind string // filtermap, map, mapi, flatmap, find, fold, foldi, all
	sym  string
	caps []*Term
	seq  *Term
	init *Term
	f    *FuncVal
	res  *Sort
	key  string
	// follows a loop over a sequence that may equal the specification's
	retargeted bool
}

func (x *Ex) combTerm(c *Comb, i *Term) *Term {
	args := append([]*Term{}, c.caps...)
	if c.init != nil {
		args = append(args, c.init)
	}
	args = append(args, c.seq, i)
	return x.t.App(c.sym, c.res, args...)
}

func (x *Ex) mkComb(kind string, fv *FuncVal, st *State, seq, init *Term, res *Sort) *Comb {
	id, caps := x.captures(fv, st)
	sn := ""
	for _, c := range caps {
		sn += "/" + c.Sort.Name
	}
	name := kind + "!" + id + sn + "!" + seq.Sort.Name
	key := name
	for _, c := range caps {
		key += fmt.Sprintf(",%d", c.ID)
	}
	if init != nil {
		key += fmt.Sprintf(";%d", init.ID)
	}
	key += fmt.Sprintf("@%d", seq.ID)
	if c, ok := x.combs[key]; ok {
		return c
	}
	c := &Comb{kind: kind, sym: name, caps: caps, seq: seq, init: init, f: fv, res: res, key: key}
	x.combs[key] = c
	x.combsBySeq[seq.ID] = append(x.combsBySeq[seq.ID], c)
	x.combOrder = append(x.combOrder, c)
	x.combBase(c)
	return c
}

// combBase states the value at the start of the iteration.
func (x *Ex) combBase(c *Comb) {
	t := x.t
	z := t.IntLit(0)
	switch c.kind {
	case "filtermap", "filtermapi", "map", "mapi", "flatmap", "filter":
		x.fact(t.Eq(x.combTerm(c, z), t.Empty(c.res.Elem)))
		if c.kind == "map" || c.kind == "mapi" {
			n := t.Len(c.seq)
			x.fact(t.Eq(t.Len(x.combTerm(c, n)), n))
		}
	case "fold", "foldi", "mapvals":
		x.fact(t.Eq(x.combTerm(c, z), c.init))
		for _, k := range x.absorbing(c) {
			x.fact(t.Implies(t.Sel(c.init, k), t.Eq(x.combTerm(c, t.Len(c.seq)), c.init)))
		}
	case "all", "allent":
		x.fact(t.Eq(x.combTerm(c, z), t.True))
		if c.kind == "all" && !c.retargeted {
			x.fact(t.Eq(x.combTerm(c, t.Len(c.seq)), x.everywhere(c, c.seq)))
		}
	case "find":
		n := t.Len(c.seq)
		r := x.combTerm(c, z)
		x.fact(t.Eq(x.combTerm(c, n), t.IntLit(-1)))
		x.fact(t.Or(t.Eq(r, t.IntLit(-1)), t.And(t.Le(z, r), t.Lt(r, n))))
	}
}

// absorbing: the flags of the accumulator of a fold that, once set, keep it as
// it is (by the step function alone), and so to the end of the sequence.
func (x *Ex) absorbing(c *Comb) []int {
	if c.kind != "fold" || c.res.Kind != KStruct {
		return nil
	}
	if ks, ok := x.absorbed[c.key]; ok {
		return ks
	}
	x.absorbed[c.key] = nil
	t := x.t
	acc := t.Const("fold#s"+c.res.Name, c.res)
	el := t.Const("fold#e"+c.seq.Sort.Elem.Name, c.seq.Sort.Elem)
	x.spec++
	defer func() { x.spec-- }()
	var ks []int
	for k, f := range c.res.Fields {
		if f.Sort != t.Bool {
			continue
		}
		set := t.SetField(acc, k, t.True)
		if r := x.applySpec(c.f, set, el); r[0] == set {
			ks = append(ks, k)
		}
	}
	x.absorbed[c.key] = ks
	return ks
}

// named gives a compound term a plain name for use in patterns.
func (x *Ex) named(s *Term) *Term {
	if len(s.Args) == 0 {
		return s
	}
	n := x.t.Const(fmt.Sprintf("named!%d", s.ID), s.Sort)
	if k := fmt.Sprintf("named%d", s.ID); !x.unfolded[k] {
		x.unfolded[k] = true
		x.fact(x.t.Eq(n, s))
	}
	return n
}

// everywhere: the predicate of an "all" holds of every element of s. The
// predicate over sequences is described by how it splits over their parts.
func (x *Ex) everywhere(c *Comb, s *Term) *Term {
	t := x.t
	sym := "each" + strings.TrimPrefix(c.sym, "all")
	holds := func(s *Term) *Term {
		return t.App(sym, t.Bool, append(append([]*Term{}, c.caps...), s)...)
	}
	x.spec++
	defer func() { x.spec-- }()
	pred := func(el *Term) *Term { return x.applySpec(c.f, el)[0] }
	forall := func(body, pattern *Term, vars ...*Term) {
		x.fact(t.mk("#forall:", t.Bool, append(vars, body, pattern)...))
	}
	k := sym
	for _, a := range c.caps {
		k += fmt.Sprintf(",%d", a.ID)
	}
	if !x.unfolded[k] {
		x.unfolded[k] = true
		a, b := t.Const("all#a"+s.Sort.Name, s.Sort), t.Const("all#b"+s.Sort.Name, s.Sort)
		el := t.Const("all#e"+s.Sort.Elem.Name, s.Sort.Elem)
		x.fact(holds(t.Empty(s.Sort.Elem)))
		p := holds(t.Snoc(a, el))
		forall(t.Eq(p, t.And(holds(a), pred(el))), p, a, el)
		p = holds(t.Concat(a, b))
		forall(t.Eq(p, t.And(holds(a), holds(b))), p, a, b)
	}
	r := holds(s)
	if k = fmt.Sprintf("%s@%d", k, s.ID); !x.unfolded[k] {
		x.unfolded[k] = true
		n := x.named(s)
		z := t.IntLit(0)
		j := t.Const("all#j", t.Int)
		forall(t.Implies(t.And(r, t.Le(z, j), t.Lt(j, t.Len(n))), pred(t.At(n, j))), t.At(n, j), j)
		w := t.App("except"+strings.TrimPrefix(sym, "each"), t.Int, append(append([]*Term{}, c.caps...), s)...)
		x.fact(t.Or(r, t.And(t.Le(z, w), t.Lt(w, t.Len(s)), t.Not(pred(t.At(s, w))))))
	}
	return r
}

// combUnfold states one step of the combinator at index i.
func (x *Ex) combUnfold(c *Comb, i *Term) {
	k := fmt.Sprintf("%s#%d", c.key, i.ID)
	if x.unfolded[k] {
		return
	}
	x.unfolded[k] = true
	t := x.t
	inb := t.And(t.Le(t.IntLit(0), i), t.Lt(i, t.Len(c.seq)))
	el := t.At(c.seq, i)
	cur, nxt := x.combTerm(c, i), x.combTerm(c, t.Add(i, t.IntLit(1)))
	x.spec++
	defer func() { x.spec-- }()
	switch c.kind {
	case "filtermap":
		r := x.applySpec(c.f, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Ite(r[1], t.Snoc(cur, r[0]), cur))))
	case "filtermapi":
		r := x.applySpec(c.f, i, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Ite(r[1], t.Snoc(cur, r[0]), cur))))
	case "filter":
		r := x.applySpec(c.f, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Ite(r[0], t.Snoc(cur, el), cur))))
	case "map":
		r := x.applySpec(c.f, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Snoc(cur, r[0]))))
		x.fact(t.Implies(inb, t.Eq(t.At(x.combTerm(c, t.Len(c.seq)), i), r[0])))
	case "mapi":
		r := x.applySpec(c.f, i, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Snoc(cur, r[0]))))
		x.fact(t.Implies(inb, t.Eq(t.At(x.combTerm(c, t.Len(c.seq)), i), r[0])))
	case "flatmap":
		r := x.applySpec(c.f, el)
		x.fact(t.Implies(inb, t.Eq(nxt, t.Concat(cur, r[0]))))
	case "fold":
		r := x.applySpec(c.f, cur, el)
		x.fact(t.Implies(inb, t.Eq(nxt, r[0])))
		for _, k := range x.absorbing(c) {
			x.fact(t.Implies(t.And(inb, t.Sel(nxt, k)), t.Eq(x.combTerm(c, t.Len(c.seq)), nxt)))
		}
	case "foldi":
		r := x.applySpec(c.f, cur, i, el)
		x.fact(t.Implies(inb, t.Eq(nxt, r[0])))
	case "find":
		r := x.applySpec(c.f, el)
		x.fact(t.Implies(inb, t.Eq(cur, t.Ite(r[0], i, nxt))))
		first := x.combTerm(c, t.IntLit(0))
		x.fact(t.Implies(t.And(inb, t.Or(t.Lt(first, t.IntLit(0)), t.Lt(i, first))), t.Not(r[0])))
		x.fact(t.Implies(t.And(inb, t.Eq(first, i)), r[0]))
	case "mapvals":
		r := x.applySpec(c.f, t.Sel(el, 0), t.Sel(el, 1))
		x.fact(t.Implies(inb, t.Eq(nxt, t.MapPut(cur, t.Sel(el, 0), r[0]))))
	case "all", "allent":
		var r []*Term
		if c.kind == "all" {
			r = x.applySpec(c.f, el)
		} else {
			r = x.applySpec(c.f, t.Sel(el, 0), t.Sel(el, 1))
		}
		x.fact(t.Implies(inb, t.Eq(nxt, t.And(cur, r[0]))))
		x.fact(t.Implies(t.And(inb, x.combTerm(c, t.Len(c.seq))), t.And(nxt, r[0])))
	}
}

// orderFree is a combinator over the entries of a map whose value does not
// depend on the order in which they are visited: it has the same value on
// every enumeration of the map.
type orderFree struct {
	kind string
	sym  string
	caps []*Term
	m    *Term
	f    *FuncVal
	st   *State
	res  *Sort
}

func (x *Ex) orderFreeTerm(o *orderFree, arr *Term) *Term {
	return x.t.App(o.sym, o.res, append(append([]*Term{}, o.caps...), arr)...)
}

func (x *Ex) mkOrderFree(kind string, fv *FuncVal, st *State, m *Term, res *Sort) *Term {
	id, caps := x.captures(fv, st)
	o := &orderFree{kind: kind, sym: kind + "!m!" + id + "!" + m.Sort.Name, caps: caps, m: m, f: fv, st: st, res: res}
	for _, c := range caps {
		o.sym += "/" + c.Sort.Name
	}
	r := x.orderFreeTerm(o, x.t.MapArr(m))
	if x.unfolded[fmt.Sprintf("of%d", r.ID)] {
		return r
	}
	x.unfolded[fmt.Sprintf("of%d", r.ID)] = true
	x.orderFrees = append(x.orderFrees, o)
	if kind == "mapvals" {
		x.fact(x.t.Not(x.t.MapIsNil(r)))
	}
	for _, en := range x.enums {
		x.linkOrder(o, en)
	}
	return r
}

func (x *Ex) linkOrder(o *orderFree, en *mapEnum) {
	t := x.t
	if en.m.Sort != o.m.Sort {
		return
	}
	var init *Term
	if o.kind == "mapvals" {
		init = t.MapEmpty(o.res)
	}
	c := x.mkComb(o.kind, o.f, o.st, en.e, init, o.res)
	x.fact(t.Implies(t.Eq(t.MapArr(en.m), t.MapArr(o.m)), t.Eq(x.orderFreeTerm(o, t.MapArr(o.m)), x.combTerm(c, t.Len(en.e)))))
}

// project is the value of the combinator on a map that is being built.
func (x *Ex) project(o *orderFree, arr *Term) *Term {
	t := x.t
	r := x.orderFreeTerm(o, arr)
	switch {
	case arr.Op == "ite":
		return t.Ite(arr.Args[0], x.project(o, arr.Args[1]), x.project(o, arr.Args[2]))
	case arr == t.emptyArr(o.m.Sort):
		x.fact(t.Eq(r, t.MapEmpty(o.res)))
	case arr.Op == "store" && strings.HasPrefix(arr.Args[2].Op, "some:"):
		in := x.project(o, arr.Args[0])
		v := x.applySpec(o.f, arr.Args[1], t.Deref(arr.Args[2]))
		x.fact(t.Eq(r, t.MapPut(in, arr.Args[1], v[0])))
	}
	return r
}

type someOrder struct {
	m *Term
	f *FuncVal
}

type mapEnum struct {
	m    *Term
	e    *Term
	loop bool // the order of a loop of the function itself
}

// enumFacts: e lists the entries of m in some order.
func (x *Ex) enumFacts(m, e *Term) {
	t := x.t
	es := e.Sort.Elem
	arr := t.MapArr(m)
	pos := "pos_" + es.Name
	t.declare(pos, []*Sort{e.Sort, m.Sort.Key}, t.Int)
	t.seqUse(es, "len")
	t.seqUse(es, "at")
	t.Len(e)
	t.At(e, t.IntLit(0))
	k0, v0 := sym(selName(es, 0)), sym(selName(es, 1))
	at, ln := sym("at_"+es.Name), sym("len_"+es.Name)
	opt := t.OptOf(m.Sort.Elem)
	some := sym("some:" + opt.Name)
	raw := func(s string) { x.fact(t.mk("#raw:"+s, t.Bool, arr, e)) }
	raw(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i (%s $1))) (and (= (select $0 (%s (%s $1 i))) (%s (%s (%s $1 i)))) (= (%s $1 (%s (%s $1 i))) i))) :pattern ((%s $1 i))))",
		ln, k0, at, some, v0, at, sym(pos), k0, at, at))
	raw(fmt.Sprintf("(forall ((k %s)) (! (=> (not (= (select $0 k) %s)) (and (<= 0 (%s $1 k)) (< (%s $1 k) (%s $1)) (= (%s (%s $1 (%s $1 k))) k))) :pattern ((%s $1 k)) :pattern ((select $0 k))))",
		m.Sort.Key.Name, sym("nil:"+opt.Name), sym(pos), sym(pos), ln, k0, at, sym(pos), sym(pos)))
	c := x.mapLen(m)
	x.fact(t.Eq(t.Len(e), c))
}

func (x *Ex) entrySort(mt *types.Map) (*Sort, types.Type) {
	vs := x.w.Pkgs[vspecPath]
	o := vs.Types.Scope().Lookup("Entry")
	inst, err := types.Instantiate(nil, o.Type(), []types.Type{mt.Key(), mt.Elem()}, false)
	if err != nil {
		x.unsupported(nil, "entry type: %v", err)
	}
	return x.sortOf(inst), inst
}

// newEnum introduces the order in which one execution of a range visits m.
func (x *Ex) newEnum(m *Term, mt *types.Map) *Term {
	es, _ := x.entrySort(mt)
	e := x.freshConst("order", x.t.SeqOf(es))
	x.enumFacts(m, e)
	x.addEnum(m, e)
	x.enums[len(x.enums)-1].loop = true
	x.instantiate(m, e)
	return e
}

// instantiate applies the goals that speak about some order of such a map to
// a new one, so that their folds become candidates for the loops to come.
func (x *Ex) instantiate(m, e *Term) {
	if x.instDepth > 1 {
		return // an order that comes with what such a goal says
	}
	x.instDepth++
	defer func() { x.instDepth-- }()
	old := x.polarity
	x.polarity = 1
	for k := 0; k < len(x.someOrders); k++ {
		so := x.someOrders[k]
		if so.m.Sort == m.Sort {
			x.applySpec(so.f, e)
		}
	}
	x.polarity = old
}

func (x *Ex) addEnum(m, e *Term) {
	en := &mapEnum{m: m, e: e}
	x.enums = append(x.enums, en)
	for k := 0; k < len(x.orderFrees); k++ {
		x.linkOrder(x.orderFrees[k], en)
	}
}

func (x *Ex) vspecCall(f *types.Func, u *ast.CallExpr, st *State) Val {
	if x.spec == 0 {
		x.unsupported(u, "specification function in code")
	}
	t := x.t
	argF := func(i int) *FuncVal {
		fv, ok := x.expr(u.Args[i], st).(*FuncVal)
		if !ok {
			x.unsupported(u, "function argument expected")
		}
		return fv
	}
	arg := func(i int) *Term { return x.term(u.Args[i], st) }
	resElem := func() *Sort { return x.sortOf(x.typeOf(u)).Elem }
	switch f.Name() {
	case "FilterMap", "FilterMapI", "Map", "MapI", "FlatMap":
		s, fv := arg(0), argF(1)
		if isEmptySeq(s) {
			return t.Empty(resElem())
		}
		c := x.mkComb(strings.ToLower(f.Name()), fv, st, s, nil, x.sortOf(x.typeOf(u)))
		return x.combTerm(c, t.Len(s))
	case "Filter":
		s, fv := arg(0), argF(1)
		if isEmptySeq(s) {
			return s
		}
		c := x.mkComb("filter", fv, st, s, nil, s.Sort)
		return x.combTerm(c, t.Len(s))
	case "Find":
		s, fv := arg(0), argF(1)
		if isEmptySeq(s) {
			return t.IntLit(-1)
		}
		c := x.mkComb("find", fv, st, s, nil, t.Int)
		r := x.combTerm(c, t.IntLit(0))
		k := "findp" + c.key
		if !x.unfolded[k] {
			x.unfolded[k] = true
			p := x.applySpec(fv, t.At(s, r))
			x.fact(t.Implies(t.Le(t.IntLit(0), r), p[0]))
		}
		return r
	case "Exists":
		s, fv := arg(0), argF(1)
		if isEmptySeq(s) {
			return t.False
		}
		c := x.mkComb("find", fv, st, s, nil, t.Int)
		return t.Le(t.IntLit(0), x.combTerm(c, t.IntLit(0)))
	case "All":
		s, fv := arg(0), argF(1)
		if isEmptySeq(s) {
			return t.True
		}
		c := x.mkComb("all", fv, st, s, nil, t.Bool)
		return x.combTerm(c, t.Len(s))
	case "Fold", "FoldI":
		init := x.toTerm(x.convert(x.expr(u.Args[0], st), x.typeOf(u.Args[0]), x.typeOf(u), st, u), st, u)
		s, fv := arg(1), argF(2)
		if isEmptySeq(s) {
			return init
		}
		c := x.mkComb(strings.ToLower(f.Name()), fv, st, s, init, init.Sort)
		return x.combTerm(c, t.Len(s))
	case "SortBy":
		s, fv := arg(0), argF(1)
		a, b := t.Const("sort#a", s.Sort.Elem), t.Const("sort#b", s.Sort.Elem)
		body := x.applySpec(fv, a, b)[0]
		return x.sorted(s, body, true)
	case "Eq", "EqModOrder":
		a, b := arg(0), arg(1)
		if a.Sort != b.Sort {
			x.unsupported(u, "Eq on %s and %s", a.Sort, b.Sort)
		}
		return t.Eq(a, b)
	case "SameMap":
		a, b := arg(0), arg(1)
		return t.Eq(t.MapArr(a), t.MapArr(b))
	case "Put":
		m, k, v := arg(0), arg(1), arg(2)
		return t.MapPut(m, k, v)
	case "Get":
		m, k := arg(0), arg(1)
		o := t.MapGetOpt(m, k)
		mt := x.typeOf(u.Args[0]).Underlying().(*types.Map)
		return Tuple{t.Ite(t.IsNil(o), x.zero(mt.Elem()), t.Deref(o)), t.Not(t.IsNil(o))}
	case "Append":
		return t.Snoc(arg(0), arg(1))
	case "Implies":
		l := arg(0)
		if l == t.False {
			return t.True
		}
		return t.Implies(l, arg(1))
	case "Contains":
		return x.seqContains(arg(0), arg(1))
	case "NonNil":
		// a deliberate check that a pointer is set
		v := arg(0)
		return t.Not(t.IsNil(v))
	case "SomeOrder":
		m, fv := arg(0), argF(1)
		mt := x.typeOf(u.Args[0]).Underlying().(*types.Map)
		if x.polarity < 0 {
			es, _ := x.entrySort(mt)
			e := x.freshConst("order", t.SeqOf(es))
			x.enumFacts(m, e)
			x.addEnum(m, e)
			x.instantiate(m, e)
			return x.applySpec(fv, e)[0]
		}
		known := false
		for _, so := range x.someOrders {
			if so.m == m && so.f.lit == fv.lit {
				known = true
			}
		}
		if !known {
			x.someOrders = append(x.someOrders, &someOrder{m, fv})
		}
		var alts []*Term
		own := false
		for _, en := range x.enums {
			own = own || en.loop && en.m == m
		}
		for _, en := range x.enums {
			if en.m.Sort == m.Sort && (!own || en.loop) {
				alts = append(alts, t.And(t.Eq(t.MapArr(en.m), t.MapArr(m)), x.applySpec(fv, en.e)[0]))
			}
		}
		if x.seeding {
			// unknown yet; what follows it must be looked at all the same
			alts = append(alts, t.Const("seed!order", t.Bool))
		}
		return t.Or(alts...)
	case "MapValues":
		m, fv := arg(0), argF(1)
		return x.mkOrderFree("mapvals", fv, st, m, x.sortOf(x.typeOf(u)))
	case "AllEntries":
		m, fv := arg(0), argF(1)
		return x.mkOrderFree("allent", fv, st, m, t.Bool)
	}
	x.unsupported(u, "specification function %s", f.Name())
	return nil
}

// ---------------------------------------------------------------- sorting

type Sorter struct {
	elem   *Sort
	body   *Term
	name   string
	stable bool
}

func (x *Ex) sorted(s *Term, body *Term, stable bool) *Term {
	e := s.Sort.Elem
	if isEmptySeq(s) {
		return s
	}
	var found *Sorter
	for _, so := range x.sorters {
		if so.elem == e && so.body == body && so.stable == stable {
			found = so
		}
	}
	if found == nil && x.spec == 0 {
		// a comparator written differently: equivalent to a known one?
		for _, so := range x.sorters {
			if so.elem == e && so.stable == stable && x.equivalent(so.body, body) {
				found = so
				break
			}
		}
	}
	if found == nil {
		nm := "sort"
		if !stable {
			nm = "usort"
		}
		found = &Sorter{e, body, fmt.Sprintf("%s!%d!%s", nm, len(x.sorters), e.Name), stable}
		x.sorters = append(x.sorters, found)
	}
	r := x.t.App(found.name, s.Sort, s)
	x.fact(x.t.Eq(x.t.Len(r), x.t.Len(s)))
	return r
}

// equivalent asks the solver whether two Boolean terms agree.
func (x *Ex) equivalent(a, b *Term) bool {
	sc := x.t.NewScript()
	sc.assert(x.t.Not(x.t.Eq(a, b)))
	text := sc.text(z3opts(3000)) + "(check-sat)\n"
	res, _ := runSolver(solvers["z3-new"], text, 10e9)
	return len(res) == 1 && res[0] == "unsat"
}

func (x *Ex) sortCall(f *types.Func, u *ast.CallExpr, st *State) bool {
	tt := x.t
	lv := x.lval(u.Args[0], st)
	if lv == nil {
		x.unsupported(u, "sorting %s", x.w.text(u.Args[0]))
	}
	lv = x.throughAlias(lv, st)
	s := x.readLV(st, lv, u)
	if s.Sort.Kind != KSeq {
		x.unsupported(u, "sorting %s", x.w.text(u.Args[0]))
	}
	e := s.Sort.Elem
	a, b := tt.Const("sort#a", e), tt.Const("sort#b", e)
	stable := strings.Contains(f.Name(), "Stable")
	var body *Term
	switch f.Name() {
	case "Strings", "Sort":
		if e == tt.Str {
			body = tt.App("strlt", tt.Bool, a, b)
		} else if e == tt.Int {
			body = tt.Lt(a, b)
		} else {
			x.unsupported(u, "%s", f.Name())
		}
		stable = true // equal elements are indistinguishable
	case "SliceStable", "Slice":
		fv, ok := x.expr(u.Args[1], st).(*FuncVal)
		if !ok || fv.lit == nil {
			x.unsupported(u, "comparator is not a function literal")
		}
		xs := tt.Const("sort#s", s.Sort)
		ci, cj := tt.Const("sort#i", tt.Int), tt.Const("sort#j", tt.Int)
		c := st.clone()
		if len(lv.steps) == 0 {
			c.vars[lv.root] = xs
		} else {
			x.writeLV(c, lv, xs, u)
		}
		env := &FuncVal{lit: fv.lit, pkg: fv.pkg, env: c}
		r := x.applySpec(env, ci, cj)[0]
		body = tt.Subst(r, map[*Term]*Term{tt.At(xs, ci): a, tt.At(xs, cj): b})
		if stable && contains(body, map[*Term]bool{ci: true, cj: true}) {
			body = tt.Subst(body, map[*Term]*Term{tt.Lt(ci, cj): tt.False, tt.Lt(cj, ci): tt.True, tt.Le(ci, cj): tt.False, tt.Le(cj, ci): tt.True, tt.Eq(ci, cj): tt.False})
			x.noteAssume("external sort." + f.Name() + " only asks whether a later element belongs before an earlier one")
		}
		if contains(body, map[*Term]bool{xs: true, ci: true, cj: true}) {
			x.unsupported(u, "comparator does not compare the two elements only")
		}
	case "SortStableFunc", "SortFunc":
		fv, ok := x.expr(u.Args[1], st).(*FuncVal)
		if !ok {
			x.unsupported(u, "comparator")
		}
		if fv.lit != nil {
			fv = &FuncVal{lit: fv.lit, pkg: fv.pkg, env: st.clone()}
		}
		r := x.applySpec(fv, a, b)[0]
		body = tt.Lt(r, tt.IntLit(0))
	default:
		x.unsupported(u, "%s", f.Name())
	}
	x.noteAssume("external sort." + f.Name() + " sorts by its comparator")
	x.writePlace(st, lv, x.sorted(s, body, stable), u)
	return true
}

var _ = token.NoPos

func containsAny(v *Term, ts []*Term) bool {
	set := map[*Term]bool{}
	for _, t := range ts {
		set[t] = true
	}
	return contains(v, set)
}
