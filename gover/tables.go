package main

import (
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A table is a map that the initialisation of a package fills with constant
// keys and that nothing changes afterwards. What it says of a constant key is
// taken from the source.
type table struct {
	keys []*ssa.Const
	vals []ssa.Value
}

var tables sync.Map // *ssa.Global -> *table, nil if it is none

func (w *World) tableOf(g *ssa.Global) *table {
	if t, ok := tables.Load(g); ok {
		return t.(*table)
	}
	t := w.readTable(g)
	tables.Store(g, t)
	return t
}

func (w *World) readTable(g *ssa.Global) *table {
	if g.Pkg == nil || w.written(g.Pkg, g.Name()) != "" {
		return nil
	}
	init := g.Pkg.Func("init")
	if init == nil {
		return nil
	}
	var made ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			if made != nil {
				return nil
			}
			made = st.Val
		}
	}
	mm, ok := made.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	t := &table{}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.MapUpdate:
			k, ok := r.Key.(*ssa.Const)
			if !ok || r.Map != ssa.Value(mm) || r.Block() != mm.Block() {
				return nil
			}
			t.keys = append(t.keys, k)
			t.vals = append(t.vals, r.Value)
		case *ssa.Store:
			if r.Val != ssa.Value(mm) || r.Addr != ssa.Value(g) {
				return nil
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return t
}

// inTable looks a constant key up. It returns whether that is known, whether
// the key is there, and its value if that is known.
func (x *Exec) inTable(st *State, base, k *Term) (known, has bool, v Value) {
	if base == nil || len(base.args) != 0 {
		return
	}
	if k = x.decide(st, k); !k.isConst() && k.op != oLit {
		return
	}
	g := x.globalBase[base]
	if g == nil {
		return
	}
	t := x.w.tableOf(g)
	if t == nil {
		return
	}
	kt := g.Type().(*types.Pointer).Elem().Underlying().(*types.Map).Key()
	if scalarSort(kt) == nil {
		return
	}
	for i := len(t.keys) - 1; i >= 0; i-- {
		if x.keyTerm(st, x.constant(st, t.keys[i]), kt) != k {
			continue
		}
		switch val := t.vals[i].(type) {
		case *ssa.Const:
			return true, true, x.constant(st, val)
		case *ssa.Call:
			if fn := val.Call.StaticCallee(); fn != nil && fn.String() == "reflect.TypeOf" {
				if mi, ok := val.Call.Args[0].(*ssa.MakeInterface); ok {
					return true, true, x.c.RTLit(mi.X.Type())
				}
			}
		}
		return true, true, nil
	}
	return true, false, nil
}
