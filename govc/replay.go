package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type Failure struct {
	Func   string   `json:"func"`
	Clause string   `json:"clause"`
	Seed   int64    `json:"seed"`
	Size   int      `json:"size"`
	Args   []string `json:"args"`
	Result []string `json:"result"`
	Note   string   `json:"note"`
}

type Stat struct {
	Func     string `json:"func"`
	Runs     int    `json:"runs"`
	Accepted int    `json:"accepted"`
	Distinct int    `json:"distinct"`
}

type Report struct {
	Stats    []Stat    `json:"stats"`
	Failures []Failure `json:"failures"`
	Sample   []string  `json:"sample"`
}

type FuncCfg struct {
	Words []string `json:"words"`
	MS    int      `json:"ms"`
	Runs  int      `json:"runs"`
	One   bool     `json:"one"`
	// only print the input
	DumpOnly bool  `json:"dumponly"`
	Seed     int64 `json:"seed"`
	Size     int   `json:"size"`
	// postconditions to look at, all when empty
	Clauses []string `json:"clauses"`
}

// Harness is the concrete counterpart: the contracts compiled together with
// the current source, one test binary per package.
type Harness struct {
	w       *World
	cons    *Contracts
	dir     string
	overlay string
	bins    map[string]string // package path -> test binary
	errs    map[string]string
}

func NewHarness(w *World, cons *Contracts, scratch string) (*Harness, error) {
	h := &Harness{w: w, cons: cons, dir: scratch, bins: map[string]string{}, errs: map[string]string{}}
	rep := map[string]string{}
	for _, p := range w.Order {
		if p.Path == vspecPath {
			for _, f := range p.Files {
				src := w.Fset.Position(f.Pos()).Filename
				rep[filepath.Join(w.Repo, "internal/vspec", filepath.Base(src))] = src
			}
			continue
		}
		for i, f := range p.SpecFiles {
			var b bytes.Buffer
			b.WriteString("//go:build verif\n\n")
			f.Comments = nil
			if err := format.Node(&b, w.Fset, stripDocs(f)); err != nil {
				return nil, err
			}
			n := fmt.Sprintf("zz_verif_spec_%d.go", i)
			dst := filepath.Join(scratch, sanitize(p.Path)+"_"+n)
			if err := os.WriteFile(dst, b.Bytes(), 0o644); err != nil {
				return nil, err
			}
			rep[filepath.Join(p.Dir, n)] = dst
		}
		if src := h.testFile(p); src != "" {
			dst := filepath.Join(scratch, sanitize(p.Path)+"_zz_verif_test.go")
			if err := os.WriteFile(dst, []byte(src), 0o644); err != nil {
				return nil, err
			}
			rep[filepath.Join(p.Dir, "zz_verif_harness_test.go")] = dst
		}
	}
	data, _ := json.Marshal(map[string]any{"Replace": rep})
	h.overlay = filepath.Join(scratch, "overlay.json")
	return h, os.WriteFile(h.overlay, data, 0o644)
}

// stripDocs removes comments, so that printing a pruned file cannot misplace them.
func stripDocs(f *ast.File) *ast.File {
	f.Doc = nil
	for _, d := range f.Decls {
		switch u := d.(type) {
		case *ast.FuncDecl:
			u.Doc = nil
		case *ast.GenDecl:
			u.Doc = nil
			for _, s := range u.Specs {
				switch v := s.(type) {
				case *ast.TypeSpec:
					v.Doc, v.Comment = nil, nil
				case *ast.ValueSpec:
					v.Doc, v.Comment = nil, nil
				case *ast.ImportSpec:
					v.Doc, v.Comment = nil, nil
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		if fl, ok := n.(*ast.Field); ok {
			fl.Doc, fl.Comment = nil, nil
		}
		return true
	})
	return f
}

func (h *Harness) testFile(p *Pkg) string {
	var cons []*Contract
	for _, k := range sortedKeys(h.cons.byName) {
		if c := h.cons.byName[k]; c.Fi.Pkg == p {
			cons = append(cons, c)
		}
	}
	if len(cons) == 0 {
		return ""
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build verif\n\npackage %s\n\nimport (\n\t\"testing\"\n\t\"%s\"\n)\n\nfunc TestVerifHarness(t *testing.T) {\n\tvspec.Main([]*vspec.Case{\n", p.Name, vspecPath)
	for _, c := range cons {
		sig := c.Fi.Obj.Type().(*types.Signature)
		fn := c.Fi.Obj.Name()
		if r := sig.Recv(); r != nil {
			t := r.Type()
			ptr := false
			if pt, ok := t.(*types.Pointer); ok {
				t, ptr = pt.Elem(), true
			}
			tn := t.(*types.Named).Obj().Name()
			if ptr {
				fn = "(*" + tn + ")." + fn
			} else {
				fn = tn + "." + fn
			}
		}
		idx := map[string]int{}
		for i, v := range allParams(sig) {
			idx[v.Name()] = i
		}
		fmt.Fprintf(&b, "\t\t{Name: %q, Fn: %s,\n", c.Name, fn)
		if len(c.Requires) > 0 {
			b.WriteString("\t\t\tRequires: []any{")
			for _, r := range c.Requires {
				b.WriteString(r.Fi.Obj.Name() + ", ")
			}
			b.WriteString("},\n")
		}
		b.WriteString("\t\t\tEnsures: []vspec.Clause{\n")
		for _, e := range c.Ensures {
			fmt.Fprintf(&b, "\t\t\t\t{Label: %q, Fn: %s", e.Label, e.Fi.Obj.Name())
			if len(e.Posts) > 0 {
				b.WriteString(", Posts: []int{")
				for _, q := range e.Posts {
					fmt.Fprintf(&b, "%d, ", idx[q])
				}
				b.WriteString("}")
			}
			b.WriteString("},\n")
		}
		b.WriteString("\t\t\t},\n\t\t\tMutable: []int{")
		for _, e := range c.Ensures {
			for _, q := range e.Posts {
				fmt.Fprintf(&b, "%d, ", idx[q])
			}
		}
		b.WriteString("},\n")
		gen := "Gen_" + strings.ReplaceAll(strings.TrimPrefix(c.Name, p.Name+"."), ".", "_")
		if o := p.Types.Scope().Lookup(gen); o != nil {
			fmt.Fprintf(&b, "\t\t\tGen: %s,\n", gen)
		}
		b.WriteString("\t\t},\n")
	}
	b.WriteString("\t})\n}\n")
	return b.String()
}

// Bin compiles the test binary of a package.
func (h *Harness) Bin(p *Pkg) (string, error) {
	if b, ok := h.bins[p.Path]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", h.errs[p.Path])
		}
		return b, nil
	}
	out := filepath.Join(h.dir, sanitize(p.Path)+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-tags", "verif", "-overlay", h.overlay, "-o", out, p.Path)
	cmd.Dir = h.w.Repo
	cmd.Env = goEnv()
	var eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &eb, &eb
	if err := cmd.Run(); err != nil {
		h.bins[p.Path] = ""
		h.errs[p.Path] = fmt.Sprintf("%v: %s", err, eb.String())
		return "", fmt.Errorf("%s", h.errs[p.Path])
	}
	h.bins[p.Path] = out
	return out, nil
}

// Run executes the cases of one package with a configuration. A crash of the
// whole process (a panic in a goroutine, a stack overflow) is a failure of the
// function that was running; the functions after it are run again.
func (h *Harness) Run(p *Pkg, funcs map[string]FuncCfg, seed int64, tag string, limit time.Duration) (*Report, error) {
	total := &Report{}
	left := map[string]FuncCfg{}
	for k, v := range funcs {
		left[k] = v
	}
	for {
		rep, crash, err := h.runOnce(p, left, seed, tag, limit)
		if rep != nil {
			total.Stats = append(total.Stats, rep.Stats...)
			total.Failures = append(total.Failures, rep.Failures...)
			total.Sample = append(total.Sample, rep.Sample...)
		}
		if crash == nil {
			return total, err
		}
		fc, ok := left[crash.Func]
		if !ok {
			return total, err
		}
		fc.DumpOnly, fc.Seed, fc.Size = true, crash.Seed, crash.Size
		if d, _, _ := h.runOnce(p, map[string]FuncCfg{crash.Func: fc}, seed, tag+"d", limit); d != nil && len(d.Failures) > 0 {
			crash.Args = d.Failures[0].Args
		}
		total.Failures = append(total.Failures, *crash)
		if crash.Clause == "termination" {
			return total, nil
		}
		delete(left, crash.Func)
		for _, s := range rep.Stats {
			delete(left, s.Func)
		}
		if len(left) == 0 {
			return total, nil
		}
	}
}

func (h *Harness) runOnce(p *Pkg, funcs map[string]FuncCfg, seed int64, tag string, limit time.Duration) (*Report, *Failure, error) {
	bin, err := h.Bin(p)
	if err != nil {
		return nil, nil, err
	}
	outf := filepath.Join(h.dir, sanitize(p.Path)+tag+".out.json")
	cfgf := filepath.Join(h.dir, sanitize(p.Path)+tag+".cfg.json")
	data, _ := json.Marshal(map[string]any{"funcs": funcs, "seed": seed, "out": outf})
	if err := os.WriteFile(cfgf, data, 0o644); err != nil {
		return nil, nil, err
	}
	_ = os.Remove(outf)
	cwd := filepath.Join(h.dir, "cwd"+sanitize(p.Path)+tag)
	_ = os.MkdirAll(cwd, 0o755)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVerifHarness", "-test.timeout", "0")
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "VERIF_CONFIG="+cfgf, "GOMEMLIMIT=3GiB", "VERIF_SCRATCH="+cwd)
	var eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &eb, &eb
	rerr := cmd.Run()
	rep := &Report{}
	if d, err := os.ReadFile(outf); err == nil {
		_ = json.Unmarshal(d, rep)
	}
	if rerr != nil {
		s := eb.String()
		if len(s) > 2000 {
			s = s[:2000]
		}
		d, _ := os.ReadFile(outf + ".cur")
		crash := &Failure{Clause: "no crash"}
		if n, _ := fmt.Sscan(string(d), &crash.Func, &crash.Seed, &crash.Size); n == 3 && ctx.Err() == nil &&
			(strings.Contains(s, "panic: ") || strings.Contains(s, "fatal error: ")) && !strings.Contains(s, "out of memory") {
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.Contains(l, "stack overflow") {
					crash.Note = l
					if strings.Contains(l, "no result after") {
						crash.Clause = "termination"
					}
					break
				}
			}
			return rep, crash, nil
		}
		return rep, nil, fmt.Errorf("%v: %s", rerr, s)
	}
	return rep, nil, nil
}

// Words collects the string literals and constants that a function and the
// module functions it calls mention.
func (w *World) Words(fi *FuncInfo) []string {
	seen := map[*types.Func]bool{}
	words := map[string]bool{}
	var visit func(f *FuncInfo, d int)
	visit = func(f *FuncInfo, d int) {
		if f == nil || seen[f.Obj] || d > 6 || f.Decl.Body == nil {
			return
		}
		seen[f.Obj] = true
		ast.Inspect(f.Decl.Body, func(n ast.Node) bool {
			switch u := n.(type) {
			case ast.Expr:
				if tv, ok := f.Pkg.Info.Types[u]; ok && tv.Value != nil && tv.Value.Kind() == constant.String {
					s := constant.StringVal(tv.Value)
					if len(s) < 120 {
						words[s] = true
					}
				}
			}
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := f.Pkg.Info.Uses[id].(*types.Func); ok && isModule(o.Pkg()) {
					visit(w.Funcs[o.Origin()], d+1)
				}
			}
			return true
		})
	}
	visit(fi, 0)
	var out []string
	for k := range words {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = token.NoPos
