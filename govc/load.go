package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

const modPath = "ecksbee.com/telefacts"
const vspecPath = modPath + "/internal/vspec"

type Pkg struct {
	Path, Name string
	Dir        string
	Files      []*ast.File
	SpecFiles  []*ast.File
	Types      *types.Package
	Info       *types.Info
}

type FuncInfo struct {
	Obj  *types.Func
	Decl *ast.FuncDecl
	Pkg  *Pkg
	Spec bool
}

type World struct {
	Repo      string
	Contracts string
	Fset      *token.FileSet
	Pkgs      map[string]*Pkg
	Order     []*Pkg
	Funcs     map[*types.Func]*FuncInfo
	ByName    map[string]*FuncInfo // "hydratables.hydrateFacts", "hydratables.Hydratable.FindFact"
	Dropped   []string             // contract declarations dropped because they no longer type-check
	Src       map[string][]byte
	GlobalW   map[*types.Var]bool // package-level variables assigned anywhere after init

	mu      sync.Mutex
	hidden  map[*types.Var]*types.Var
	uses    map[types.Object][]useInfo
	effects map[*ast.FuncLit]*Effect
	own     map[types.Object]bool
	loops   map[*token.File][]ast.Node

	hints     Hints
	nodeNames map[string]string
	varNames  map[token.Pos]string
}

type listPkg struct {
	ImportPath string
	Export     string
	GoFiles    []string
	Dir        string
	Standard   bool
	Imports    []string
	Error      *struct{ Err string }
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "HOME="+homeDir())
}

func homeDir() string {
	if h := os.Getenv("HOME"); h != "" {
		return h
	}
	return "/root"
}

// LoadWorld parses and type-checks the module's current source together with
// the contract files. Contract declarations that do not type-check any more
// (a helper was removed or changed its signature) are dropped and reported.
func LoadWorld(repo, contracts string) (*World, error) {
	w := &World{Repo: repo, Contracts: contracts, Fset: token.NewFileSet(), Pkgs: map[string]*Pkg{}, Funcs: map[*types.Func]*FuncInfo{}, ByName: map[string]*FuncInfo{}, Src: map[string][]byte{}}
	args := []string{"list", "-e", "-deps", "-export", "-json=ImportPath,Export,GoFiles,Dir,Standard,Imports,Error", "./pkg/...", "./internal/...",
		"reflect", "math/rand", "sort", "fmt", "strings", "encoding/json", "encoding/xml", "bytes", "os", "strconv", "net/url", "html", "net/http", "net/http/httptest", "path/filepath", "path", "math", "errors", "slices", "maps", "io", "time", "golang.org/x/net/html"}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = goEnv()
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return nil, fmt.Errorf("go list: %v\n%s", err, errb.String())
	}
	exports := map[string]string{}
	var mods []*listPkg
	dec := json.NewDecoder(&out)
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, modPath) && !strings.HasSuffix(p.ImportPath, "/test") {
			q := p
			mods = append(mods, &q)
		}
	}
	gc := importer.ForCompiler(w.Fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p, ok := w.Pkgs[path]; ok {
			return p.Types, nil
		}
		return gc.Import(path)
	})
	// the specification library
	vs := &Pkg{Path: vspecPath, Name: "vspec", Dir: filepath.Join(repo, "internal/vspec")}
	vfiles, _ := filepath.Glob(filepath.Join(contracts, "vspec", "*.go"))
	for _, f := range vfiles {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		w.Src[f] = src
		af, err := parser.ParseFile(w.Fset, f, src, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		vs.Files = append(vs.Files, af)
	}
	if err := w.check(vs, imp); err != nil {
		return nil, err
	}
	for _, m := range mods {
		p := &Pkg{Path: m.ImportPath, Dir: m.Dir}
		for _, f := range m.GoFiles {
			fn := filepath.Join(m.Dir, f)
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			w.Src[fn] = src
			af, err := parser.ParseFile(w.Fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
		}
		rel := strings.TrimPrefix(m.ImportPath, modPath+"/")
		sfs, _ := filepath.Glob(filepath.Join(contracts, rel, "*.go"))
		sort.Strings(sfs)
		for _, f := range sfs {
			src, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			w.Src[f] = src
			af, err := parser.ParseFile(w.Fset, f, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.SpecFiles = append(p.SpecFiles, af)
		}
		if err := w.check(p, imp); err != nil {
			return nil, err
		}
	}
	w.scanGlobals()
	w.hints = loadHints(contracts)
	return w, nil
}

type importerFunc func(path string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

func (w *World) check(p *Pkg, imp types.Importer) error {
	for round := 0; ; round++ {
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
		var errs []types.Error
		conf := types.Config{Importer: imp, GoVersion: "go1.22", Error: func(err error) {
			if te, ok := err.(types.Error); ok {
				errs = append(errs, te)
			}
		}}
		all := append(append([]*ast.File{}, p.Files...), p.SpecFiles...)
		tp, _ := conf.Check(p.Path, w.Fset, all, info)
		if len(errs) == 0 {
			p.Types, p.Info = tp, info
			p.Name = tp.Name()
			break
		}
		dropped := 0
		for _, e := range errs {
			for _, sf := range p.SpecFiles {
				if !(sf.FileStart <= e.Pos && e.Pos <= sf.FileEnd) {
					continue
				}
				for i, d := range sf.Decls {
					if d.Pos() <= e.Pos && e.Pos <= d.End() {
						name := fmt.Sprintf("declaration %d", i)
						if fd, ok := d.(*ast.FuncDecl); ok {
							name = fd.Name.Name
						}
						if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.IMPORT {
							// unused import after dropping its users: drop that spec only
							for j, sp := range gd.Specs {
								if sp.Pos() <= e.Pos && e.Pos <= sp.End() {
									gd.Specs = append(gd.Specs[:j:j], gd.Specs[j+1:]...)
									for k, im := range sf.Imports {
										if im == sp {
											sf.Imports = append(sf.Imports[:k:k], sf.Imports[k+1:]...)
											break
										}
									}
									dropped++
									break
								}
							}
							break
						}
						w.Dropped = append(w.Dropped, fmt.Sprintf("%s (%s)", name, e.Msg))
						sf.Decls = append(sf.Decls[:i:i], sf.Decls[i+1:]...)
						dropped++
						break
					}
				}
			}
		}
		if dropped == 0 || round > 60 {
			return fmt.Errorf("type errors in %s: %v", p.Path, errs[0])
		}
	}
	for i, f := range append(append([]*ast.File{}, p.Files...), p.SpecFiles...) {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			obj, ok := p.Info.Defs[fd.Name].(*types.Func)
			if !ok {
				continue
			}
			fi := &FuncInfo{Obj: obj, Decl: fd, Pkg: p, Spec: i >= len(p.Files)}
			w.Funcs[obj] = fi
			w.ByName[funcName(obj)] = fi
		}
	}
	w.Pkgs[p.Path] = p
	w.Order = append(w.Order, p)
	return nil
}

// funcName: "attr.FindAttr", "hydratables.Hydratable.FindFact"
func funcName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	n := f.Name()
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name() + "." + n
		}
	}
	if f.Pkg() != nil {
		return f.Pkg().Name() + "." + n
	}
	return n
}

func (w *World) pos(p token.Pos) string {
	q := w.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, w.Repo+"/"), q.Line)
}

func (w *World) text(n ast.Node) string {
	a, b := w.Fset.Position(n.Pos()), w.Fset.Position(n.End())
	src := w.Src[a.Filename]
	if src == nil || b.Offset > len(src) {
		return ""
	}
	s := strings.Join(strings.Fields(string(src[a.Offset:b.Offset])), " ")
	if len(s) > 80 {
		s = s[:77] + "..."
	}
	return s
}

// package-level variables that some function assigns
func (w *World) scanGlobals() {
	w.GlobalW = map[*types.Var]bool{}
	for _, p := range w.Pkgs {
		for _, f := range p.Files {
			ast.Inspect(f, func(n ast.Node) bool {
				as, ok := n.(*ast.AssignStmt)
				if !ok {
					return true
				}
				for _, l := range as.Lhs {
					if id, ok := l.(*ast.Ident); ok {
						if v, ok := p.Info.Uses[id].(*types.Var); ok && v.Parent() == p.Types.Scope() {
							w.GlobalW[v] = true
						}
					}
				}
				return true
			})
		}
	}
}
