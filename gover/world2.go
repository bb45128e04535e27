package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func (w *World) pos(ins []ssa.Instruction) string {
	for _, i := range ins {
		if i.Pos().IsValid() {
			p := w.prog.Fset.Position(i.Pos())
			return p.String()
		}
	}
	return "?"
}

// ghost2 runs the initialisation of the package.
func (x *Exec) ghost2(st *State, fn *ssa.Function, args []Value) ([]outcome, bool) {
	if !strings.HasPrefix(fn.Name(), "gvInit") {
		return nil, false
	}
	init := fn.Pkg.Func("init")
	// variables are zero before
	for _, m := range fn.Pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			id := x.global(st, g)
			st.setObj(x, id, x.zero(st, st.obj(x, id).t))
		}
	}
	outs := x.callFn(st, init, nil, nil, -1)
	if fn.Name() == "gvInitDone" {
		// what holds once the package is initialised
		var done []outcome
		for i := range outs {
			if outs[i].kind != oPanic {
				done = append(done, outs[i])
			}
		}
		return done, true
	}
	for i := range outs {
		if outs[i].kind == oPanic {
			x.asserts = append(x.asserts, assertion{outs[i].st, x.c.F, "the initialisation of the package panics", ""})
		}
	}
	return outs, true
}

// written looks for code other than the initialisation that could change a
// variable or, if it is a map, what is in it.
func (w *World) written(pkg *ssa.Package, name string) string {
	g, _ := pkg.Members[name].(*ssa.Global)
	if g == nil {
		return "no variable " + name
	}
	for fn := range ssautil.AllFunctions(w.prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), "github.com/go-restruct/") {
			continue
		}
		if fn.Synthetic != "" && fn.Name() == "init" && fn.Pkg == pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if *op != g {
						continue
					}
					ld, ok := ins.(*ssa.UnOp)
					if !ok {
						return fn.String() + " may change " + name
					}
					for _, r := range *ld.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if bi, ok := r.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
								continue
							}
							if _, ok := ld.Type().Underlying().(*types.Map); ok {
								return fn.String() + " may change " + name
							}
						default:
							if _, ok := ld.Type().Underlying().(*types.Map); ok {
								return fn.String() + " may change " + name
							}
						}
					}
				}
			}
		}
	}
	return ""
}
