package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	Func        string
	Kind        string // proved, failed, error, undecided
	Err         string
	Obls        []*Obl
	Rounds      int
	Cands       int
	Kept        []string
	Assumptions []string
	Used        []string
	Inlined     []string
	SolverMS    map[string]int64
	Vacuous     []string
	Unreached   []string // statements the conditions exclude
	Points      int
	Lines       int
	x           *Ex
	modes       map[string]int // how the contracts used were treated
	dropped     map[string]bool
}

type Tier struct {
	candMS, oblMS, fallMS int
	deadline              time.Time    // for functions that are not roots
	decided               *atomic.Bool // a failing input is known
}

func (t Tier) over() bool {
	return !t.deadline.IsZero() && time.Now().After(t.deadline) || t.decided != nil && t.decided.Load()
}

const outOfTime = "given up: a failing input was found, or the time for one check is over"

var quickTier = Tier{candMS: 800, oblMS: 8000, fallMS: 15000}
var thoroughTier = Tier{candMS: 5000, oblMS: 60000, fallMS: 120000}

// symExec runs one symbolic execution of a function against its contract.
func symExec(w *World, cons *Contracts, con *Contract, dropped map[string]bool, mods map[string]map[string]ModPath, leaks map[string]*leak) (*Ex, error) {
	for n := 0; ; n++ {
		x, again, err := symExec1(w, cons, con, dropped, mods, leaks)
		if !again {
			return x, err
		}
		if n > 3000 {
			return x, fmt.Errorf("the loops do not stabilise")
		}
	}
}

func symExec1(w *World, cons *Contracts, con *Contract, dropped map[string]bool, mods map[string]map[string]ModPath, leaks map[string]*leak) (x *Ex, again bool, err error) {
	x = NewEx(w, cons)
	x.dropped = dropped
	x.hints = con.hints
	x.modMemo = mods
	x.leaks = leaks
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(restartErr); ok {
				again = true
				return
			}
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("unsupported: %s", u.msg)
				return
			}
			if os.Getenv("GOVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	fi := con.Fi
	x.fn = fi
	x.pkg = fi.Pkg
	sig := fi.Obj.Type().(*types.Signature)
	st := &State{vars: map[types.Object]Val{}}
	x.oldParams = map[types.Object]*Term{}
	hid := map[string]types.Object{}
	var pre []*Term
	for i, p := range allParams(sig) {
		c := x.t.Const(fmt.Sprintf("p%d!%s", i, p.Name()), x.sortOf(p.Type()))
		pre = append(pre, c)
		switch p.Type().Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Slice:
			h := w.hiddenVar(p, fi.Pkg.Types)
			hid[p.Name()] = h
			st.vars[h] = c
			st.vars[p] = &RefVal{lv: &LV{root: h}}
			x.oldParams[h] = c
		case *types.Signature:
			st.vars[p] = &FuncVal{term: c}
		default:
			st.vars[p] = c
		}
	}
	// preconditions
	x.polarity = -1
	for _, r := range con.Requires {
		x.fact(x.evalClause(r, pre, nil, fi.Decl))
	}
	x.polarity = 1
	// seed pass: evaluate the postconditions on placeholders
	var res []*Term
	for k := 0; k < sig.Results().Len(); k++ {
		res = append(res, x.t.Const(fmt.Sprintf("result!%d", k), x.sortOf(sig.Results().At(k).Type())))
	}
	posts := map[string]*Term{}
	for n, h := range hid {
		posts[n] = x.t.Const("post!"+n, x.sortOf(h.Type()))
	}
	all := append(append([]*Term{}, pre...), res...)
	x.seeding = true
	for _, e := range con.Ensures {
		if e.Bounded || e.Assumed != "" {
			continue
		}
		x.evalClause(e, all, posts, fi.Decl)
	}
	x.seeding = false
	x.obl(st, "cover", "the preconditions are satisfiable", fi.Decl, x.t.False)
	// body
	x.shareObls(fi, st)
	x.results = append(x.results, nil)
	x.results = x.results[:0]
	x.bodies, x.sigs, x.retShared = x.bodies[:0], x.sigs[:0], x.retShared[:0]
	v, out := x.runBody(fi.Decl.Body, sig, st, fi.Decl)
	var rv []*Term
	switch t := v.(type) {
	case nil:
	case Tuple:
		for _, a := range t {
			rv = append(rv, x.toTerm(a, out, fi.Decl))
		}
	default:
		rv = append(rv, x.toTerm(t, out, fi.Decl))
	}
	x.obl(out, "cover", "some return is reachable", fi.Decl, x.t.False)
	final := map[string]*Term{}
	for n, h := range hid {
		final[n] = x.toTerm(out.vars[h], out, fi.Decl)
	}
	needed := map[string]bool{}
	all = append(append([]*Term{}, pre...), rv...)
	for _, e := range con.Ensures {
		for _, p := range e.Posts {
			needed[p] = true
		}
		if e.Bounded || e.Assumed != "" {
			continue
		}
		g := x.evalClause(e, all, final, fi.Decl)
		x.obl(out, "ensures", e.Label, fi.Decl, g)
	}
	names := make([]string, 0)
	for n := range hid {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !needed[n] {
			x.obl(out, "frame", "argument "+n+" is left as it was", fi.Decl, x.t.Eq(final[n], x.oldParams[hid[n]]))
		}
	}
	// package variables
	for o, v := range out.vars {
		if vr, ok := o.(*types.Var); ok && vr.Pkg() != nil && vr.Parent() == vr.Pkg().Scope() {
			if t, ok := v.(*Term); ok {
				c := x.t.Const("glob!"+vr.Pkg().Name()+"."+vr.Name(), x.sortOf(vr.Type()))
				x.obl(out, "frame", "package variable "+vr.Name()+" is left as it was", fi.Decl, x.t.Eq(t, c))
			}
		}
	}
	return x, false, nil
}

// hiddenVar stands for what a parameter leads to.
func (w *World) hiddenVar(p *types.Var, pkg *types.Package) *types.Var {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.hidden == nil {
		w.hidden = map[*types.Var]*types.Var{}
	}
	if w.hidden[p] == nil {
		w.hidden[p] = types.NewVar(p.Pos(), pkg, p.Name()+"°", p.Type())
	}
	return w.hidden[p]
}

// discharge runs the obligations selected by sel through one solver process.
func (x *Ex) discharge(obls []*Obl, solver string, ms int, allFacts bool) int64 {
	t0 := time.Now()
	if len(obls) == 0 {
		return 0
	}
	os := append([]*Obl{}, obls...)
	sort.SliceStable(os, func(i, j int) bool { return os[i].NFacts < os[j].NFacts })
	var ask []*Obl
	for _, o := range os {
		if o.Goal == x.t.True || o.PC == x.t.False {
			if o.Kind == "cover" {
				o.Status = "vacuous"
			} else {
				o.Status, o.By = "valid", "simplifier"
			}
			continue
		}
		ask = append(ask, o)
	}
	if len(ask) == 0 {
		return 0
	}
	// many obligations are dealt out to several processes, in a way that does
	// not depend on the machine
	parts := make([][]*Obl, 1+min(len(ask)/50, 5))
	for i, o := range ask {
		parts[i%len(parts)] = append(parts[i%len(parts)], o)
	}
	cfg := solvers[solver]
	var wg sync.WaitGroup
	for _, part := range parts {
		sc := x.t.NewScript()
		nf := 0
		adv := func(n int) {
			for ; nf < n; nf++ {
				sc.assert(x.facts[nf])
			}
		}
		if allFacts {
			adv(len(x.facts))
		}
		for _, o := range part {
			adv(o.NFacts)
			pc, g := sc.ref(o.PC), sc.ref(o.Goal)
			fmt.Fprintf(&sc.b, "(push 1)\n(assert %s)\n(assert (not %s))\n(check-sat)\n(pop 1)\n", pc, g)
		}
		text := sc.text(cfg.opts(ms))
		if dumpDir != "" {
			dumpN++
			writeFile(fmt.Sprintf("%s/%s.%d.%s.smt2", dumpDir, sanitize(x.fn.Obj.Name()), dumpN, solver), text)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			x.ask(part, solver, cfg, text, ms)
		}()
	}
	wg.Wait()
	return time.Since(t0).Milliseconds()
}

// ask runs one script and files the answers.
func (x *Ex) ask(ask []*Obl, solver string, cfg solverCfg, text string, ms int) {
	limit := 4*time.Duration(ms)*time.Millisecond*time.Duration(len(ask)) + 5*time.Second
	if limit > 10*time.Minute {
		limit = 10 * time.Minute
	}
	res, raw := runSolver(cfg, text, limit)
	if strings.Contains(raw, "(error") {
		i := strings.Index(raw, "(error")
		e := raw[i:]
		if len(e) > 300 {
			e = e[:300]
		}
		fmt.Fprintf(os2, "solver error in %s (%s): %s\n", funcName(x.fn.Obj), solver, e)
	}
	for i, o := range ask {
		r := "timeout"
		if i < len(res) {
			r = res[i]
		}
		switch {
		case o.Kind == "cover" && r == "unsat":
			o.Status = "vacuous"
		case o.Kind == "cover":
			o.Status = "reachable"
		case r == "unsat":
			o.Status, o.By = "valid", solver
		default:
			o.Status = "open"
			o.Out += solver + ": " + r + "\n"
		}
	}
}

var os2 = os.Stderr
var dumpN int

// Verify proves one function against its contract.
func Verify(w *World, cons *Contracts, con *Contract, tier Tier) *Result {
	if hs := w.hints[con.Name]; len(hs) > 0 {
		c := *con
		c.hints = hs
		r := verify(w, cons, &c, tier)
		if r.Kind == "proved" && len(r.Vacuous) == 0 || r.Kind == "error" || r.Kind == "undecided" {
			return r
		}
		if tier.over() && !con.root {
			r.Kind, r.Err = "undecided", outOfTime
			return r
		}
		s := verify(w, cons, con, tier)
		for k, v := range r.SolverMS {
			s.SolverMS[k] += v
		}
		return s
	}
	return verify(w, cons, con, tier)
}

func verify(w *World, cons *Contracts, con *Contract, tier Tier) *Result {
	r := &Result{Func: con.Name, SolverMS: map[string]int64{}}
	a, b := w.Fset.Position(con.Fi.Decl.Pos()), w.Fset.Position(con.Fi.Decl.End())
	r.Lines = b.Line - a.Line + 1
	dropped := map[string]bool{}
	r.dropped = dropped
	mods := map[string]map[string]ModPath{}
	leaks := map[string]*leak{}
	debug := os.Getenv("GOVC_DEBUG") != ""
	for {
		r.Rounds++
		if tier.over() && !con.root {
			r.Kind, r.Err = "undecided", outOfTime
			return r
		}
		x, err := symExec(w, cons, con, dropped, mods, leaks)
		r.x = x
		if err != nil {
			r.Kind, r.Err = "error", err.Error()
			return r
		}
		var cands, rest, covers []*Obl
		for _, o := range x.obls {
			if o.Cand != "" {
				cands = append(cands, o)
			} else if o.Kind == "cover" {
				covers = append(covers, o)
			} else {
				rest = append(rest, o)
			}
		}
		ms := tier.candMS
		if len(cands) > 40 && ms < 1000 {
			ms = ms / 2
		}
		r.SolverMS["z3-new"] += x.discharge(cands, "z3-new", ms, false)
		fail := map[string]bool{}
		for _, o := range cands {
			if o.Status != "valid" {
				fail[o.Cand] = true
			}
		}
		if debug {
			fmt.Fprintf(os.Stderr, "%s round %d: %d candidates obligations, %d fail, %d facts\n", con.Name, r.Rounds, len(cands), len(fail), len(x.facts))
		}
		if len(fail) > 0 && r.Rounds < 40 {
			for k := range fail {
				dropped[k] = true
				if debug {
					fmt.Fprintf(os.Stderr, "   drop %s\n", k)
				}
			}
			continue
		}
		// the invariants that were kept
		kept := map[string]bool{}
		for _, o := range cands {
			kept[o.Cand] = true
		}
		r.Kept = sortedKeys(kept)
		r.SolverMS["z3-new"] += x.discharge(rest, "z3-new", tier.oblMS, false)
		// what holds at the end may use every fact; what must hold on the way
		// only those that come before it
		open := func(end bool) []*Obl {
			var out []*Obl
			for _, o := range rest {
				if o.Status == "open" && end == (o.Kind == "ensures" || o.Kind == "frame") {
					out = append(out, o)
				}
			}
			return out
		}
		if os_ := open(true); len(os_) > 0 {
			r.SolverMS["z3-new"] += x.discharge(os_, "z3-new", tier.oblMS/2, true)
		}
		for _, s := range []string{"cvc5", "z3"} {
			for _, end := range []bool{false, true} {
				if os_ := open(end); len(os_) > 0 && len(os_) <= 12 {
					r.SolverMS[s] += x.discharge(os_, s, tier.fallMS/len(os_)+1000, end)
				}
			}
		}
		r.SolverMS["z3-new"] += x.discharge(covers, "z3-new", 700, false)
		r.SolverMS["z3-new"] += x.discharge(x.points, "z3-new", 300, true)
		for _, o := range x.points {
			if o.Status == "vacuous" {
				r.Unreached = append(r.Unreached, o.Pos+" "+o.Name)
			}
		}
		r.Points = len(x.points)
		r.Obls = append(append(append([]*Obl{}, cands...), rest...), covers...)
		r.Kind = "proved"
		for _, o := range r.Obls {
			if o.Kind == "cover" {
				if o.Status == "vacuous" {
					r.Vacuous = append(r.Vacuous, o.Name)
				}
				continue
			}
			if o.Status != "valid" {
				r.Kind = "failed"
			}
		}
		r.Assumptions = sortedKeys(x.assumption)
		r.Used = sortedKeys(x.usedCon)
		r.Inlined = sortedKeys(x.inlined)
		return r
	}
}

func writeFile(p, s string) { _ = os.WriteFile(p, []byte(s), 0o644) }

var _ ast.Node
