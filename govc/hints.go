package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Hints list, per function, invariants that were proposed and did not hold
// when the contracts were written. They are not proposed again at first, which
// saves most of the rounds. Leaving out a proposal can only make a proof fail,
// and a proof that fails is tried again without hints.

type Hints map[string]map[string]bool

var (
	posRE = regexp.MustCompile(`[A-Za-z0-9_]+\.go:[0-9]+:[0-9]+`)
	varRE = regexp.MustCompile(`@[0-9]+`)
)

func loadHints(cdir string) Hints {
	data, err := os.ReadFile(filepath.Join(cdir, "hints.json"))
	if err != nil {
		return nil
	}
	var m map[string]string
	if json.Unmarshal(data, &m) != nil {
		return nil
	}
	h := Hints{}
	for f, s := range m {
		h[f] = map[string]bool{}
		for _, k := range strings.Fields(s) {
			h[f][k] = true
		}
	}
	return h
}

// nameNodes numbers the loops, calls and variables of every function, so that
// they can be told without their position.
func (w *World) nameNodes() {
	w.nodeNames, w.varNames = map[string]string{}, map[token.Pos]string{}
	for _, fi := range w.Funcs {
		if fi.Decl == nil || fi.Decl.Body == nil || fi.Pkg == nil {
			continue
		}
		fn := funcName(fi.Obj)
		n := map[string]int{}
		ast.Inspect(fi.Decl, func(nd ast.Node) bool {
			kind := ""
			switch u := nd.(type) {
			case *ast.ForStmt, *ast.RangeStmt:
				kind = "loop"
			case *ast.CallExpr:
				kind = "call"
			case *ast.Ident:
				if fi.Pkg.Info.Defs[u] != nil {
					n["var "+u.Name]++
					w.varNames[u.Pos()] = fmt.Sprintf("@%s.%d", fn, n["var "+u.Name])
				}
			}
			if kind != "" {
				n[kind]++
				p := w.Fset.Position(nd.Pos())
				k := fmt.Sprintf("%s:%d:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line, p.Column)
				if _, ok := w.nodeNames[k]; !ok || kind == "loop" {
					w.nodeNames[k] = fmt.Sprintf("%s.%s%d", fn, kind, n[kind])
				}
			}
			return true
		})
	}
}

// hintKey is the name of a proposed invariant without positions in the code.
func (w *World) hintKey(key string) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.nodeNames == nil {
		w.nameNodes()
	}
	key = posRE.ReplaceAllStringFunc(key, func(s string) string {
		if strings.Contains(s, "_spec.go:") {
			return s
		}
		if n, ok := w.nodeNames[s]; ok {
			return n
		}
		return s
	})
	key = varRE.ReplaceAllStringFunc(key, func(s string) string {
		p, _ := strconv.Atoi(s[1:])
		if n, ok := w.varNames[token.Pos(p)]; ok {
			return n
		}
		return s
	})
	h := fnv.New64a()
	h.Write([]byte(key))
	return fmt.Sprintf("%012x", h.Sum64()&0xffffffffffff)
}

// hinted marks a proposal that the hints rule out.
func (x *Ex) hinted(key string) {
	if x.hints != nil && !x.dropped[key] && x.hints[x.w.hintKey(key)] {
		x.dropped[key] = true
	}
}

// cmdHints proves everything without hints and writes down what was dropped.
func cmdHints() int {
	repo, cdir := env("GOVC_REPO", "/repo"), env("GOVC_CONTRACTS", "/verif/contracts")
	w, err := LoadWorld(repo, cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w.hints = nil
	cons := CollectContracts(w)
	out := map[string]string{}
	for _, n := range sortedKeys(cons.byName) {
		con := cons.byName[n]
		if con.Trusted != "" {
			continue
		}
		r := Verify(w, cons, con, quickTier)
		if r.Kind != "proved" || len(r.Vacuous) > 0 {
			fmt.Println(n, r.Kind, r.Err, openObls(r, Root{}))
		}
		if r.Kind != "proved" || r.Rounds < 2 {
			continue
		}
		ks := map[string]bool{}
		for k := range r.dropped {
			ks[w.hintKey(k)] = true
		}
		out[n] = strings.Join(sortedKeys(ks), " ")
		fmt.Println(n, r.Rounds, len(ks))
	}
	data, _ := json.MarshalIndent(out, "", " ")
	if err := os.WriteFile(filepath.Join(cdir, "hints.json"), append(data, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}
