package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// PropCfg says which contracts state a property. A root is a function whose
// contract is (part of) the property; the contracts of the functions it calls
// are proved as well, but they are lemmas: when one of them no longer holds,
// its function is verified in place at the call.
type PropCfg struct {
	Roots    []string `json:"roots"`
	Internal []string `json:"internal"` // proved contracts of internal functions, with an executed clause for the whole
	Bounded  []string `json:"bounded"`  // roots decided by execution only, never counted as proved
	Notes    string   `json:"bounded_clauses"`
	Assume   []string `json:"assumptions"`
}

type Known struct {
	Property, Func, Clause, Text string
}

func readKnown(path string) []Known {
	data, _ := os.ReadFile(path)
	var out []Known
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := Known{}
		parts := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 4)
		if len(parts) < 4 {
			continue
		}
		k.Property = strings.TrimPrefix(parts[0], "property=")
		k.Func = strings.TrimPrefix(parts[1], "func=")
		k.Clause = strings.TrimPrefix(parts[2], "clause=")
		k.Text = parts[3]
		out = append(out, k)
	}
	return out
}

// How the contract of a function is used at its calls.
const (
	asContract = iota
	asOpaque   // an uninterpreted function: its own postcondition is not proved
	asInline   // the body is verified in place
)

func (c *Contracts) with(mode map[string]int) *Contracts {
	n := &Contracts{m: map[*types.Func]*Contract{}, byName: map[string]*Contract{}, Missing: c.Missing, Lost: c.Lost}
	for f, con := range c.m {
		switch mode[con.Name] {
		case asInline:
			continue
		case asOpaque:
			cp := *con
			cp.Opaque = true
			con = &cp
		}
		n.m[f] = con
		n.byName[con.Name] = con
	}
	return n
}

// Root is a function with those clauses of its contract that state the property.
type Root struct {
	Name    string
	Clauses []string // all when empty
	kind    int
}

const (
	provedRoot = iota
	internalRoot
	boundedRoot
)

// key tells apart the proved and the executed clauses of one function
func (r Root) key() string {
	if r.kind == boundedRoot {
		return r.Name + " executed"
	}
	return r.Name
}

func parseRoot(s string) Root {
	n, cl, ok := strings.Cut(s, "#")
	r := Root{Name: n}
	if ok {
		r.Clauses = strings.Split(cl, ",")
	}
	return r
}

func (r Root) wants(label string) bool { return len(r.Clauses) == 0 || contains2(r.Clauses, label) }

func verifDir() string { return env("VERIF_DIR", "/verif") }

func loadProps() (map[string]*PropCfg, error) {
	data, err := os.ReadFile(filepath.Join(env("GOVC_CONTRACTS", verifDir()+"/contracts"), "properties.json"))
	if err != nil {
		return nil, err
	}
	ps := map[string]*PropCfg{}
	return ps, json.Unmarshal(data, &ps)
}

// verifyAll proves the roots and, transitively, every contract they rely on.
// A helper contract that fails is a lemma lost: the helper is first treated as
// an uninterpreted function and, if that is not enough for the roots, verified
// in place.
func verifyAll(w *World, cons *Contracts, roots []Root, tier Tier) (map[string]*Result, map[string]int) {
	isRoot := map[string]bool{}
	var names []string
	for _, r := range roots {
		if !contains2(names, r.Name) {
			names = append(names, r.Name)
		}
		if r.kind == provedRoot {
			isRoot[r.Name] = true
		}
	}
	mode := map[string]int{}
	results := map[string]*Result{}
	for round := 0; ; round++ {
		cur := cons.with(mode)
		todo := append([]string{}, names...)
		queued := map[string]bool{}
		for _, t := range todo {
			queued[t] = true
		}
		var mu sync.Mutex
		sem := make(chan bool, 8)
		for len(todo) > 0 {
			var wg sync.WaitGroup
			batch := todo
			todo = nil
			for _, n := range batch {
				con := cons.byName[n]
				if con == nil || mode[n] != asContract && !isRoot[n] {
					continue
				}
				mu.Lock()
				old := results[n]
				mu.Unlock()
				if old != nil {
					stale := false
					for _, u := range old.Used {
						if mode[u] != old.modes[u] {
							stale = true
						}
					}
					if !stale {
						for _, u := range old.Used {
							if !queued[u] {
								queued[u] = true
								todo = append(todo, u)
							}
						}
						continue
					}
				}
				wg.Add(1)
				sem <- true
				go func(n string, con *Contract) {
					defer func() { <-sem; wg.Done() }()
					var r *Result
					con.root = isRoot[n]
					if con.Trusted != "" {
						r = &Result{Func: n, Kind: "trusted", Err: con.Trusted}
					} else {
						r = Verify(w, cur, con, tier)
					}
					mu.Lock()
					results[n] = r
					r.modes = map[string]int{}
					for _, u := range r.Used {
						r.modes[u] = mode[u]
						if !queued[u] {
							queued[u] = true
							todo = append(todo, u)
						}
					}
					mu.Unlock()
				}(n, con)
			}
			wg.Wait()
			sort.Strings(todo)
		}
		more := false
		for n := range queued {
			r := results[n]
			if r == nil || isRoot[n] || mode[n] != asContract {
				continue
			}
			if r.Kind == "failed" || r.Kind == "error" || r.Kind == "undecided" || len(r.Vacuous) > 0 {
				mode[n] = asOpaque
				if r.Kind == "error" || r.Kind == "undecided" || len(openObls(r, Root{Clauses: []string{""}})) > 0 {
					mode[n] = asInline // it may crash or change its arguments
				}
				more = true
			}
		}
		if !more {
			open := false
			for _, r := range roots {
				if res := results[r.Name]; r.kind == provedRoot && res != nil && len(openObls(res, r)) > 0 {
					open = true
				}
			}
			if open {
				for n, m := range mode {
					if m == asOpaque {
						mode[n] = asInline
						more = true
					}
				}
			}
		}
		if !more || round > 8 {
			for n := range results {
				if !queued[n] {
					delete(results, n)
				}
			}
			return results, mode
		}
	}
}

func openObls(r *Result, root Root) []string {
	var out []string
	if r.Kind == "error" {
		return []string{"verification conditions could not be generated: " + r.Err}
	}
	for _, o := range r.Obls {
		if o.Kind == "ensures" && !root.wants(o.Name) {
			continue
		}
		if o.Kind != "cover" && o.Status != "valid" {
			out = append(out, o.Kind+" "+o.Name)
		}
	}
	for _, v := range r.Vacuous {
		out = append(out, "vacuous: not "+v)
	}
	return out
}

type violation struct {
	root     Root
	fn, what string
	replay   string
	noInput  bool
}

func cmdCheck(prop string) int {
	t0 := time.Now()
	tierName := env("VERIF_TIER", "quick")
	tier := quickTier
	tier.deadline = time.Now().Add(420 * time.Second)
	decided := &atomic.Bool{}
	tier.decided = decided
	if tierName == "thorough" {
		tier = thoroughTier
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	props, err := loadProps()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pc := props[prop]
	if pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 2
	}
	repo, cdir := env("GOVC_REPO", "/repo"), env("GOVC_CONTRACTS", verifDir()+"/contracts")
	w, err := LoadWorld(repo, cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cons := CollectContracts(w)
	scratch, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	h, err := NewHarness(w, cons, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	list := func(names []string, kind int) []Root {
		var out []Root
		for _, n := range names {
			r := parseRoot(n)
			r.kind = kind
			out = append(out, r)
		}
		return out
	}
	roots, internal, executed := list(pc.Roots, provedRoot), list(pc.Internal, internalRoot), list(pc.Bounded, boundedRoot)
	proved := append(append([]Root{}, roots...), internal...)
	all := append(append([]Root{}, proved...), executed...)
	// concrete executions run next to the proofs
	type conc struct {
		rep  *Report
		errs []string
	}
	concCh := make(chan conc, 1)
	ms, bms := 1500, 15000
	if tierName == "thorough" {
		ms, bms = 20000, 600000
	}
	go func() {
		rep, errs := h.search(roots, seed, ms, 1, "")
		if len(executed) > 0 {
			rep2, errs2 := h.search(executed, seed+1000, bms/len(executed), 6, "bounded")
			rep.Stats = append(rep.Stats, rep2.Stats...)
			rep.Failures = append(rep.Failures, rep2.Failures...)
			rep.Sample = append(rep.Sample, rep2.Sample...)
			errs = append(errs, errs2...)
		}
		if len(rep.Failures) > 0 {
			decided.Store(true)
		}
		concCh <- conc{rep, errs}
	}()
	results, dropped := verifyAll(w, cons, proved, tier)
	cr := <-concCh

	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	var viols []violation
	failing := map[string]*Failure{}
	failed := func(rep *Report, rs []Root) {
		for i := range rep.Failures {
			f := &rep.Failures[i]
			for _, r := range rs {
				if r.Name == f.Func && failing[r.key()] == nil {
					failing[r.key()] = f
				}
			}
		}
	}
	failed(cr.rep, append(append([]Root{}, roots...), executed...))
	open := map[string][]string{}
	var gone []string
	for _, r := range all {
		con := cons.byName[r.Name]
		if con == nil && r.kind == internalRoot {
			gone = append(gone, r.Name)
			continue
		}
		if con == nil {
			open[r.key()] = []string{"the function under contract is gone or its signature changed"}
			continue
		}
		for _, l := range cons.Lost[r.Name] {
			if r.wants(l) {
				if r.kind == internalRoot {
					gone = append(gone, r.Name+" "+l)
					continue
				}
				open[r.key()] = append(open[r.key()], "the code no longer has what the clause "+l+" speaks about")
			}
		}
		if r.kind == boundedRoot {
			n := 0
			for _, s := range cr.rep.Stats {
				if s.Func == r.Name {
					n += s.Accepted
				}
			}
			if n == 0 && failing[r.key()] == nil && open[r.key()] == nil {
				open[r.key()] = []string{"no execution meets the precondition"}
			}
			continue
		}
		res := results[r.Name]
		if res == nil {
			open[r.key()] = append(open[r.key()], "not verified")
			continue
		}
		if res.Kind == "trusted" {
			continue
		}
		if res.Kind == "undecided" {
			gone = append(gone, r.Name+": "+res.Err)
			continue
		}
		open[r.key()] = append(open[r.key()], openObls(res, r)...)
		if len(open[r.key()]) == 0 {
			delete(open, r.key())
		}
	}
	// a longer search where a proof failed; for internal functions it is the
	// behaviour of the whole that has to fail
	var long []Root
	wide := false
	for _, r := range proved {
		if len(open[r.key()]) > 0 && failing[r.key()] == nil {
			if r.kind == internalRoot {
				wide = true
			} else if cons.byName[r.Name] != nil {
				long = append(long, r)
			}
		}
	}
	for _, r := range executed {
		if (wide || len(open[r.key()]) > 0) && failing[r.key()] == nil && cons.byName[r.Name] != nil {
			long = append(long, r)
		}
	}
	if len(long) > 0 {
		budget := 60000
		if tierName == "thorough" {
			budget = 240000
		}
		per := budget / len(long)
		if per > 30000 {
			per = 30000
		}
		rep, errs := h.search(long, seed+100, per, 6, "long")
		cr.errs = append(cr.errs, errs...)
		failed(rep, long)
		cr.rep.Stats = append(cr.rep.Stats, rep.Stats...)
	}
	known := readKnown(filepath.Join(verifDir(), "known-findings.txt"))
	for _, root := range all {
		r := root.Name
		f, os_ := failing[root.key()], open[root.key()]
		if f == nil && len(os_) == 0 {
			continue
		}
		path := filepath.Join(evDir, "replay", prop+"-"+sanitize(r)+".json")
		if root.kind == boundedRoot {
			path = filepath.Join(evDir, "replay", prop+"-"+sanitize(r)+"-executed.json")
		}
		rec := map[string]any{"property": prop, "function": r, "open_obligations": os_, "seed": seed, "clauses": root.Clauses}
		if con := cons.byName[r]; con != nil {
			rec["source"] = w.pos(con.Fi.Decl.Pos())
		}
		if f != nil {
			rec["failing_input"] = f
			rec["how_to_replay"] = "/verif/bin/govc replay " + path
		}
		if res := results[r]; res != nil && root.kind != boundedRoot {
			var outs []string
			for _, o := range res.Obls {
				if o.Kind != "cover" && o.Status != "valid" {
					outs = append(outs, fmt.Sprintf("%s %s at %s: %s", o.Kind, o.Name, o.Pos, strings.TrimSpace(o.Out)))
				}
			}
			rec["solver_output"] = outs
		}
		if len(cr.errs) > 0 {
			rec["search_errors"] = cr.errs
		}
		data, _ := json.MarshalIndent(rec, "", " ")
		_ = os.WriteFile(path, data, 0o644)
		what := strings.Join(os_, "; ")
		if f != nil {
			what = "clause " + f.Clause
		}
		viols = append(viols, violation{root: root, fn: r, what: what, replay: path, noInput: f == nil})
	}
	if len(gone) > 0 && len(executed) == 0 {
		fmt.Fprintln(os.Stderr, "nothing left to check:", strings.Join(gone, ", "))
		return 2
	}
	// known findings
	var left []violation
	for _, v := range viols {
		k := matchKnown(known, prop, v, open[v.root.key()], failing[v.root.key()])
		if k != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Text)
			continue
		}
		left = append(left, v)
	}
	for _, v := range left {
		s := ""
		if v.noInput {
			s = " no-failing-input-found"
		}
		fmt.Printf("%s: %s\n", v.fn, v.what)
		if f := failing[v.root.key()]; f != nil {
			fmt.Printf("  input: %s\n  result: %s %s\n", strings.Join(f.Args, ", "), strings.Join(f.Result, ", "), f.Note)
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", prop, v.replay, s)
	}
	writeEvidence(w, prop, pc, tierName, seed, results, dropped, cr.rep, cr.errs, len(left), time.Since(t0), evDir, cons, gone)
	if len(left) > 0 {
		return 1
	}
	n := 0
	for _, r := range results {
		n += countObls(r)
	}
	if n == 0 && len(pc.Roots) > 0 {
		fmt.Fprintln(os.Stderr, "no obligations were generated")
		return 2
	}
	fmt.Printf("%s holds: %d functions, %d obligations, %.1f s\n", prop, len(results), n, time.Since(t0).Seconds())
	return 0
}

func matchKnown(known []Known, prop string, v violation, open []string, f *Failure) *Known {
	for i := range known {
		k := &known[i]
		if k.Property != prop || k.Func != v.fn {
			continue
		}
		if f != nil && f.Clause != k.Clause {
			continue
		}
		ok := true
		for _, o := range open {
			if o != "ensures "+k.Clause {
				ok = false
			}
		}
		if ok {
			return k
		}
	}
	return nil
}

func countObls(r *Result) int {
	n := 0
	for _, o := range r.Obls {
		if o.Kind != "cover" {
			n++
		}
	}
	return n
}

func contains2(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// search runs the contracts of the functions on generated inputs.
func (h *Harness) search(funcs []Root, seed int64, ms int, procs int, tag string) (*Report, []string) {
	total := &Report{}
	var errs []string
	byPkg := map[*Pkg][]Root{}
	var order []*Pkg
	for _, f := range funcs {
		con := h.cons.byName[f.Name]
		if con == nil {
			continue
		}
		if byPkg[con.Fi.Pkg] == nil {
			order = append(order, con.Fi.Pkg)
		}
		byPkg[con.Fi.Pkg] = append(byPkg[con.Fi.Pkg], f)
	}
	var mu sync.Mutex
	for _, p := range order {
		if _, err := h.Bin(p); err != nil {
			errs = append(errs, err.Error())
			continue
		}
		var wg sync.WaitGroup
		for k := 0; k < procs; k++ {
			cfg := map[string]FuncCfg{}
			for _, f := range byPkg[p] {
				cfg[f.Name] = FuncCfg{Words: h.w.Words(h.cons.byName[f.Name].Fi), MS: ms, Clauses: f.Clauses}
				if procs == 1 {
					c := cfg[f.Name]
					c.Runs = 4000
					if ms > 5000 {
						c.Runs = 60000
					}
					cfg[f.Name] = c
				}
			}
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				lim := time.Duration(ms*len(cfg))*time.Millisecond + 40*time.Second
				rep, err := h.Run(p, cfg, seed+int64(k), fmt.Sprintf("%s%d", tag, k), lim)
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					errs = append(errs, err.Error())
				}
				if rep != nil {
					total.Stats = append(total.Stats, rep.Stats...)
					total.Failures = append(total.Failures, rep.Failures...)
					if len(total.Sample) < 8 {
						total.Sample = append(total.Sample, rep.Sample...)
					}
				}
			}(k)
		}
		wg.Wait()
	}
	sort.SliceStable(total.Failures, func(i, j int) bool {
		return len(strings.Join(total.Failures[i].Args, "")) < len(strings.Join(total.Failures[j].Args, ""))
	})
	return total, errs
}

func writeEvidence(w *World, prop string, pc *PropCfg, tier string, seed int64, results map[string]*Result, dropped map[string]int, rep *Report, errs []string, nviol int, wall time.Duration, dir string, cons *Contracts, gone []string) {
	obls, disch := 0, 0
	by := map[string]int{}
	ms := map[string]int64{}
	var funcs []map[string]any
	assume := map[string]bool{}
	var trusted []string
	covers := 0
	excluded := []string{}
	for _, n := range sortedKeys(results) {
		r := results[n]
		if r.Kind == "trusted" {
			trusted = append(trusted, n+": "+r.Err)
			assume["trusted contract, not proved: "+n+" ("+r.Err+")"] = true
			continue
		}
		covers += r.Points - len(r.Unreached)
		for _, u := range r.Unreached {
			excluded = append(excluded, n+": "+u)
		}
		o, d := 0, 0
		for _, ob := range r.Obls {
			if ob.Kind == "cover" {
				if ob.Status == "reachable" {
					covers++
				}
				continue
			}
			o++
			if ob.Status == "valid" {
				d++
				by[ob.By]++
			}
		}
		obls += o
		disch += d
		for s, m := range r.SolverMS {
			ms[s] += m
		}
		for _, a := range r.Assumptions {
			assume[a] = true
		}
		for u, m := range r.modes {
			if m == asOpaque {
				assume[u+" is only known to be a deterministic function of its arguments here"] = true
			}
		}
		funcs = append(funcs, map[string]any{"function": n, "source": w.pos(cons.byName[n].Fi.Decl.Pos()), "lines": r.Lines, "status": r.Kind, "obligations": o, "discharged": d, "invariants_inferred": len(r.Kept), "inlined": r.Inlined, "contracts_used": r.Used, "root": isRoot(pc, n)})
	}
	runs, acc, dist := 0, 0, 0
	var stats []string
	for _, s := range rep.Stats {
		runs += s.Runs
		acc += s.Accepted
		dist += s.Distinct
		stats = append(stats, fmt.Sprintf("%s: %d inputs, %d meet the precondition, %d distinct results", s.Func, s.Runs, s.Accepted, s.Distinct))
	}
	level := "proof"
	if len(pc.Roots) == 0 {
		level = "exploration"
	}
	as := []string{
		"int and float arithmetic: ints are mathematical integers (no 64-bit overflow), floats are uninterpreted values with an order",
		"nil and empty slices are identified, except where the code compares with nil",
		"distinct pointer, map and slice parameters do not alias",
		"partial correctness: termination of loops and recursion is not proved",
		"goroutines are executed in program order; data races are outside the logic",
		"external functions are deterministic functions of their arguments (and of the values they were given)",
	}
	as = append(as, sortedKeys(assume)...)
	as = append(as, pc.Assume...)
	cov := map[string]any{
		"obligations":                 obls,
		"discharged":                  disch,
		"checker_cmd":                 "/verif/check.sh " + prop,
		"trusted_base":                append([]string{"/verif/govc (verification condition generator)", "z3 5.3.2 (z3-new)", "cvc5 1.1.2", "z3 4.8.12", "go/types"}, trusted...),
		"discharged_by":               by,
		"solver_ms":                   ms,
		"functions":                   funcs,
		"reachability_covers":         covers,
		"unreachable_statements":      excluded,
		"helper_contracts_not_used":   sortedKeys(dropped),
		"contracts_without_target":    cons.Missing,
		"contract_text_not_typed":     w.Dropped,
		"evaluations":                 runs,
		"distinct_nontrivial":         dist,
		"rule":                        "concrete executions of the roots on generated inputs with the same contracts; non-trivial: meets the precondition and gives a result not seen before",
		"samples":                     rep.Sample,
		"concrete_executions":         stats,
		"concrete_meet_precondition":  acc,
		"concrete_errors":             errs,
		"bounded_roots_never_counted": pc.Bounded,
		"bounded_clauses":             pc.Notes,
		"internal_functions_gone":     gone,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": as, "wall_s": wall.Seconds(), "violations": nviol}
	data, _ := json.MarshalIndent(ev, "", " ")
	_ = os.WriteFile(filepath.Join(dir, prop+".json"), data, 0o644)
}

func isRoot(pc *PropCfg, n string) bool {
	for _, r := range append(append([]string{}, pc.Roots...), pc.Internal...) {
		if parseRoot(r).Name == n {
			return true
		}
	}
	return false
}

// cmdFuzz runs only the concrete side: govc fuzz NAME... [ms]
func cmdFuzz(args []string) int {
	ms := 3000
	var names []string
	for _, a := range args {
		if n, err := strconv.Atoi(a); err == nil {
			ms = n
			continue
		}
		names = append(names, a)
	}
	w, err := LoadWorld(env("GOVC_REPO", "/repo"), env("GOVC_CONTRACTS", verifDir()+"/contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, d := range w.Dropped {
		fmt.Println("dropped:", d)
	}
	cons := CollectContracts(w)
	scratch, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratch)
	h, err := NewHarness(w, cons, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var list []Root
	for _, n := range names {
		for _, k := range sortedKeys(cons.byName) {
			if k == parseRoot(n).Name || n == "all" || strings.HasSuffix(n, "*") && strings.HasPrefix(k, strings.TrimSuffix(n, "*")) {
				list = append(list, Root{Name: k, Clauses: parseRoot(n).Clauses})
			}
		}
	}
	seed, _ := strconv.ParseInt(env("VERIF_SEED", "1"), 10, 64)
	rep, errs := h.search(list, seed, ms, 1, "")
	for _, e := range errs {
		fmt.Println("error:", e)
	}
	for _, s := range rep.Stats {
		fmt.Printf("%-50s runs %d accepted %d distinct %d\n", s.Func, s.Runs, s.Accepted, s.Distinct)
	}
	for _, f := range rep.Failures {
		fmt.Printf("FAIL %s clause %s seed %d size %d %s\n   args %s\n   result %s\n", f.Func, f.Clause, f.Seed, f.Size, f.Note, strings.Join(f.Args, "\n        "), strings.Join(f.Result, "\n        "))
	}
	return 0
}

// cmdReplay runs a recorded failing input against the current source.
func cmdReplay(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rec struct {
		Function string   `json:"function"`
		Failing  *Failure `json:"failing_input"`
		Clauses  []string `json:"clauses"`
	}
	if err := json.Unmarshal(data, &rec); err != nil || rec.Failing == nil {
		fmt.Fprintln(os.Stderr, "no failing input recorded")
		return 2
	}
	w, err := LoadWorld(env("GOVC_REPO", "/repo"), env("GOVC_CONTRACTS", verifDir()+"/contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	cons := CollectContracts(w)
	scratch, _ := os.MkdirTemp("", "govc")
	defer os.RemoveAll(scratch)
	h, err := NewHarness(w, cons, scratch)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	con := cons.byName[rec.Function]
	if con == nil {
		fmt.Fprintln(os.Stderr, "no contract for", rec.Function)
		return 2
	}
	rep, err := h.Run(con.Fi.Pkg, map[string]FuncCfg{rec.Function: {Words: w.Words(con.Fi), One: true, Clauses: rec.Clauses, Seed: rec.Failing.Seed, Size: rec.Failing.Size}}, 1, "one", time.Minute)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	for _, f := range rep.Failures {
		fmt.Printf("%s clause %s fails: %s\n  args %s\n  result %s\n", f.Func, f.Clause, f.Note, strings.Join(f.Args, ", "), strings.Join(f.Result, ", "))
		return 1
	}
	fmt.Println("the recorded input meets the contract")
	return 0
}
