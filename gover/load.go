package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program with its contracts.
type World struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // by import path
	contracts map[*ssa.Function]*Contract
	byTarget  map[string]*Contract
	bySpec    map[string]*Contract
	all       []*Contract
	problems  []string
	files     []string
	types     *TypeTable
	targets   map[*ssa.Function]*Contract
	initPkgs  []*ssa.Package
	caches    map[*ssa.Global]cacheInfo
	lockMu    sync.Mutex
	locks     map[*ssa.Function]bool
}

// loadWorld loads /repo with the contract files overlaid. Contract files that
// do not type-check against the code are dropped, and reported in problems.
func loadWorld(repo, contracts string) (*World, error) {
	dropped := map[string]bool{}
	var problems []string
	for {
		w, bad, err := tryLoad(repo, contracts, dropped)
		if err != nil {
			return nil, err
		}
		if len(bad) == 0 {
			w.problems = append(problems, w.problems...)
			return w, nil
		}
		for f, msg := range bad {
			dropped[f] = true
			problems = append(problems, fmt.Sprintf("contract file %s does not fit the code: %s", f, msg))
		}
	}
}

func tryLoad(repo, contracts string, dropped map[string]bool) (*World, map[string]string, error) {
	overlay := map[string][]byte{}
	var files []string
	back := map[string]string{}
	for _, sub := range []struct{ dir, dest string }{{"restruct", ""}, {"expr", "expr"}} {
		ms, _ := filepath.Glob(filepath.Join(contracts, sub.dir, "*.go"))
		for _, m := range ms {
			if dropped[m] {
				continue
			}
			b, err := os.ReadFile(m)
			if err != nil {
				return nil, nil, err
			}
			dst := filepath.Join(repo, sub.dest, "zz_verif_"+filepath.Base(m))
			overlay[dst] = b
			back[dst] = m
			files = append(files, m)
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedExportFile | packages.NeedModule,
		Dir:        repo,
		BuildFlags: []string{"-tags=verif"},
		Overlay:    overlay,
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	cfg.Mode &^= packages.NeedDeps
	pkgs, err := packages.Load(cfg, ".", "./expr", "encoding/binary")
	if err != nil {
		return nil, nil, err
	}
	bad := map[string]string{}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			file := e.Pos
			if i := strings.Index(file, ".go:"); i >= 0 {
				file = file[:i+3]
			}
			if m := back[file]; m != "" {
				if bad[m] == "" {
					bad[m] = e.Msg
				}
			} else {
				return nil, nil, fmt.Errorf("%s: %s", e.Pos, e.Msg)
			}
		}
	}
	if len(bad) > 0 {
		return nil, bad, nil
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, contracts: map[*ssa.Function]*Contract{},
		byTarget: map[string]*Contract{}, bySpec: map[string]*Contract{}, files: files, types: newTypeTable(), targets: map[*ssa.Function]*Contract{},
		caches: map[*ssa.Global]cacheInfo{}, locks: map[*ssa.Function]bool{}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		w.pkgs[pkgs[i].PkgPath] = sp
	}
	for i, p := range pkgs {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if back[name] == "" {
				continue
			}
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Doc != nil {
					w.addContract(p, spkgs[i], fd, filepath.Base(back[name]))
				}
			}
		}
	}
	for _, path := range []string{"github.com/go-restruct/restruct/expr", "github.com/go-restruct/restruct"} {
		w.initPkgs = append(w.initPkgs, w.pkgs[path])
	}
	return w, nil, nil
}

// findFunc finds a function by its name in a package: f, (T).m or (*T).m.
func (w *World) findFunc(pkg *ssa.Package, name string) *ssa.Function {
	if !strings.HasPrefix(name, "(") {
		return pkg.Func(name)
	}
	i := strings.Index(name, ").")
	tn, m := name[1:i], name[i+2:]
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	tm, ok := pkg.Members[tn].(*ssa.Type)
	if !ok {
		return nil
	}
	var t types.Type = tm.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	sel := w.prog.MethodSets.MethodSet(t).Lookup(pkg.Pkg, m)
	if sel == nil {
		return nil
	}
	fn := w.prog.MethodValue(sel)
	if fn == nil || fn.Synthetic != "" {
		return nil
	}
	return fn
}
