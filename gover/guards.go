package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Functions that touch a guarded variable must be under a contract, run in
// place by one, or be shown to hold the lock without one.

// repoFuncs lists the functions of the packages under test that are not part
// of contracts or package initialisation.
func (w *World) repoFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/go-restruct/") || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		if p := w.prog.Fset.Position(fn.Pos()); strings.Contains(p.Filename, "/zz_verif_") {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// touches tells whether a function mentions a guarded variable.
func (w *World) touches(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					if _, ok := w.caches[g]; ok {
						return true
					}
				}
			}
		}
	}
	return false
}

// writesShared tells whether a function assigns to a variable of a package, or
// changes a map that one holds.
func (w *World) writesShared(fn *ssa.Function) bool {
	global := func(v ssa.Value) bool {
		for {
			switch u := v.(type) {
			case *ssa.Global:
				return u.Pkg != nil && u.Pkg.Pkg.Path() != "encoding/binary" && !freeVars[u.Name()]
			case *ssa.FieldAddr:
				v = u.X
			case *ssa.IndexAddr:
				v = u.X
			case *ssa.UnOp:
				v = u.X
			default:
				return false
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if global(i.Addr) {
					return true
				}
			case *ssa.MapUpdate:
				if global(i.Map) {
					return true
				}
			case ssa.CallInstruction:
				c := i.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear" || bi.Name() == "copy") && global(c.Args[0]) {
					return true
				}
			}
		}
	}
	return false
}

// freeVars are switches that the documentation has the user set before
// anything else.
var freeVars = map[string]bool{"expressionsEnabled": true}

// sharedWrite demands a lock for a write to what a variable of a package holds.
func (x *Exec) sharedWrite(st *State, id int) {
	if !x.guardAll || x.inSpec {
		return
	}
	if _, ok := x.base[id]; !ok {
		return
	}
	for g, gid := range x.globals {
		if gid == id && freeVars[g.Name()] {
			return
		}
	}
	what := "writes a variable of the package without a lock"
	for _, l := range st.gh {
		if l.name == "w" {
			what = ""
		}
	}
	x.reqs = append(x.reqs, assertion{st.clone(), x.c.Bool(what == ""), what, "C23"})
}

// sharers are the contracts whose functions get hold of a shared result, also
// through helpers without a contract.
func (w *World) usesShared(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case ssa.CallInstruction:
					g := i.Common().StaticCallee()
					if g == nil || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/go-restruct/") {
						continue
					}
					if c := w.targets[g]; c != nil && c.readonly {
						return true
					} else if (c == nil || c.inlineCode) && walk(g) {
						return true
					}
				case *ssa.MakeClosure:
					if walk(i.Fn.(*ssa.Function)) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}

// verifyGuards checks only the use of locks of a function without a contract.
func verifyGuards(w *World, fn *ssa.Function) (res *Result) {
	con := &Contract{name: fn.Name() + " (locks)", props: []string{"C23"}, target: fn}
	res = &Result{con: con, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}}
	x := newExec(w)
	x.solver = z3Solver()
	defer x.solver.Close()
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case unsupported:
				res.err = e.msg
			default:
				res.err = fmt.Sprint(e)
			}
		}
	}()
	st := newState(x)
	var args []Value
	for _, p := range fn.Params {
		args = append(args, x.paramValue(st, p.Type(), p.Name(), true))
	}
	if len(fn.FreeVars) > 0 {
		unsup("closure")
	}
	x.root = fn
	x.guardAll = true
	outs := x.callFn(st, fn, args, nil, -1)
	for i, a := range x.reqs {
		if a.label == "C23" {
			x.addOb(res, con, a.st, fmt.Sprintf("%s/guard%d", con.name, i), a.goal, a.what, nil)
		}
	}
	for i, o := range outs {
		res.paths++
		if o.kind == oBack {
			continue
		}
		what := ""
		for k, l := range o.st.gh {
			if l.name != "free" {
				what = k + " is left " + l.name
			}
		}
		x.addOb(res, con, o.st, fmt.Sprintf("%s/path%d/locks", con.name, i), x.c.Bool(what == ""), what, nil)
	}
	res.inlined = x.inlined
	return res
}

// guardResults covers the functions that touch guarded variables and that the
// given results do not cover.
func guardResults(w *World, done []*Result) []*Result {
	covered := map[string]bool{}
	for _, r := range done {
		if r.err != "" {
			continue
		}
		for n := range r.inlined {
			covered[n] = true
		}
	}
	var out []*Result
	for _, fn := range w.repoFuncs() {
		if (w.touches(fn) && !covered[fn.String()] || w.writesShared(fn)) && fn.Parent() == nil {
			out = append(out, verifyGuards(w, fn))
		} else if fn.Parent() != nil && w.touches(fn) && !covered[fn.String()] {
			out = append(out, &Result{con: &Contract{name: fn.String(), props: []string{"C23"}}, err: "closure that touches a guarded variable"})
		}
	}
	return out
}
