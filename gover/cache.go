package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Caches: maps that hold results of a function under contract.

type cacheInfo struct {
	con  *Contract
	lock *ssa.Global
}

func (x *Exec) fresh(name string) *Term {
	x.nfresh++
	return x.c.App(boolSort, name+"!"+itoa(x.nfresh))
}

// guarded demands the lock of a map that is accessed.
func (x *Exec) guarded(st *State, mc *MapC, write bool) {
	if mc.guard == "" || x.inSpec {
		return
	}
	state := "free"
	if l := st.gh[mc.guard]; l != nil {
		state = l.name
	}
	if state == "w" || state == "r" && !write {
		x.reqs = append(x.reqs, assertion{st.clone(), x.c.T, "", "C23"})
		return
	}
	what := "reads"
	if write {
		what = "writes"
	}
	x.reqs = append(x.reqs, assertion{st.clone(), x.c.F, what + " the cache of " + mc.coh.name + " with its lock " + state, "C23"})
}

// locksFree demands that no lock is held when a function that takes locks is
// called.
func (x *Exec) locksFree(st *State, con *Contract) {
	if x.inSpec || con.target == nil || !x.w.takesLocks(con.target) {
		return
	}
	for _, l := range st.gh {
		if l.name != "free" {
			x.reqs = append(x.reqs, assertion{st.clone(), x.c.F, "calls " + con.name + ", which takes locks, with a lock held", "C23"})
			return
		}
	}
}

// takesLocks tells whether a function or those it calls lock something.
func (w *World) takesLocks(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var cc *ssa.CallCommon
				switch i := ins.(type) {
				case ssa.CallInstruction:
					cc = i.Common()
				case *ssa.MakeClosure:
					if walk(i.Fn.(*ssa.Function)) {
						return true
					}
				}
				if cc == nil {
					continue
				}
				if g := cc.StaticCallee(); g != nil {
					if s := g.String(); strings.HasPrefix(s, "(*sync.") && strings.HasSuffix(s, "Lock") {
						return true
					}
					if g.Pkg != nil && strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/go-restruct/") && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	w.lockMu.Lock()
	defer w.lockMu.Unlock()
	r, ok := w.locks[fn]
	if !ok {
		r = walk(fn)
		w.locks[fn] = r
	}
	return r
}

func (x *Exec) cacheArgs(con *Contract, k *Term, st *State) []Value {
	var args []Value
	for i, p := range con.spec.Params {
		if i == 0 {
			args = append(args, x.unflatten(st, p.Type(), []*Term{k}))
		} else {
			args = append(args, x.zero(st, p.Type()))
		}
	}
	return args
}

// cacheValue is the entry of a cache for a key: the function's result, which
// it returns without a panic. It is nil if that cannot be.
func (x *Exec) cacheValue(st *State, mc *MapC, k *Term) Value {
	con := mc.coh
	args := x.cacheArgs(con, k, st)
	in := x.inSpec
	x.inSpec = true
	outs := x.callOpaque(st, con, args)
	x.inSpec = in
	for _, o := range outs {
		if o.kind == oRet {
			*st = *o.st
			return o.vals[0]
		}
	}
	return nil
}

// cacheEntry tells whether an entry is the function's result for its key.
func (x *Exec) cacheEntry(st *State, mc *MapC, k *Term, v Value, solve bool) bool {
	s := st.clone()
	want := x.cacheValue(s, mc, k)
	if want == nil {
		return false
	}
	goals := x.valGoals(st, v, s, want, mc.vt, nil)
	for _, g := range goals {
		if !x.decide(st, g).isTrue() && !(solve && x.prove(s, g)) {
			return false
		}
	}
	// the function did not panic for the key
	if !mc.coh.nopanic {
		for _, t := range s.pc[len(st.pc):] {
			if !x.decide(st, t).isTrue() {
				return false
			}
		}
	}
	return true
}

// giveOut notes what a cache with new entries holds when its lock is given
// back.
func (x *Exec) giveOut(st *State, lock string) {
	if x.inSpec {
		return
	}
	for _, id := range sortedKeys(st.heap) {
		if mc, ok := st.heap[id].v.(*MapC); ok && mc.coh != nil && mc.guard == lock && len(mc.ents) > 0 {
			st.out = append(st.out, given{st.clone(), id})
		}
	}
}

// keptOut demands that what others could read was not changed later on.
func (x *Exec) keptOut(o outcome) {
	for _, g := range o.st.out {
		mc := g.st.heap[g.id].v.(*MapC)
		for _, e := range mc.ents {
			if e.deleted {
				continue
			}
			was, is := e.v, e.v
			if e.raw != nil {
				was, is = x.box(g.st, e.rawT, e.raw), x.box(o.st, e.rawT, e.raw)
			}
			goal := x.c.T
			for _, t := range x.valGoals(o.st, is, g.st, was, mc.vt, nil) {
				if !x.decide(o.st, t).isTrue() {
					goal = x.c.F
				}
			}
			x.reqs = append(x.reqs, assertion{o.st, goal, "changes an entry of the cache of " + mc.coh.name + " after others could read it", "C23"})
		}
	}
}

// cachesRight demands that entries made on a path are right when it ends.
func (x *Exec) cachesRight(con *Contract, o outcome, args []Value) {
	if o.kind == oBack {
		return
	}
	x.keptOut(o)
	own := map[int]bool{}
	for i, p := range con.spec.Params {
		for _, m := range con.cache {
			if m == p.Name() {
				own[args[i].(*MapRef).obj] = true
			}
		}
	}
	ids := sortedKeys(o.st.heap)
	for _, id := range ids {
		mc, ok := o.st.heap[id].v.(*MapC)
		if !ok || mc.coh == nil {
			continue
		}
		_, isBase := x.base[id]
		if !isBase && !(own[id] && o.kind == oRet) {
			continue
		}
		for _, e := range mc.ents {
			if e.deleted {
				continue
			}
			goal := x.c.F
			if e.raw != nil {
				e.v = x.box(o.st, e.rawT, e.raw)
			}
			if x.cacheEntry(o.st, mc, e.k, e.v, true) {
				goal = x.c.T
			} else if mc.coh == con && o.kind == oRet {
				// compare with what the contract says for the key
				if debugSync {
					println("entry", e.k.String(), x.flatten(o.st, args[0], con.spec.Params[0].Type())[0].String(), x.flatten(o.st, e.v, mc.vt)[0].String(), x.flatten(o.st, o.vals[0], con.spec.Signature.Results().At(0).Type())[0].String())
				}
				ts := x.flatten(o.st, args[0], con.spec.Params[0].Type())
				if len(ts) == 1 && ts[0] == e.k {
					vt := con.spec.Signature.Results().At(0).Type()
					a := x.flatten(o.st, e.v, mc.vt)
					b := x.flatten(o.st, o.vals[0], vt)
					same := len(a) == len(b)
					for i := range a {
						same = same && x.decide(o.st, x.c.Eq(a[i], b[i])).isTrue()
					}
					if same {
						goal = x.c.T // the result itself is compared with the contract
					}
				}
			}
			x.reqs = append(x.reqs, assertion{o.st, goal, "what is put into the cache of " + mc.coh.name + " is not its result", "C23"})
		}
	}
}

// passCache hands a map to a function that uses it as a cache.
func (x *Exec) passCache(st *State, con *Contract, v Value) {
	m, ok := v.(*MapRef)
	if !ok || m.obj == 0 {
		return
	}
	mc := *st.obj(x, m.obj).v.(*MapC)
	if mc.coh == con {
		return
	}
	if mc.base != nil || len(mc.ents) > 0 {
		if !x.inSpec {
			x.reqs = append(x.reqs, assertion{st.clone(), x.c.F, "a map with other contents is used as a cache of " + con.name, "C23"})
		}
	}
	x.nfresh++
	st.setObj(x, m.obj, &MapC{base: x.c.App(sMap, "cache!"+itoa(x.nfresh)), kt: mc.kt, vt: mc.vt, coh: con})
}

// isHit tells whether the result of a path is the answer of a cache of the
// function itself, which is its result by induction over the calls made.
func (x *Exec) isHit(con *Contract, o outcome, args []Value, pre *State) bool {
	own := false
	for _, m := range con.cache {
		own = own || m != ""
	}
	if !own || len(o.st.trace) > 0 {
		return false
	}
	st := pre.clone()
	st.facts(o.st)
	ts := x.flatten(st, args[0], con.spec.Params[0].Type())
	if len(ts) != 1 {
		return false
	}
	v := x.cacheValue(st, &MapC{coh: con}, ts[0])
	if v == nil {
		return false
	}
	t := con.spec.Signature.Results().At(0).Type()
	for _, g := range x.valGoals(o.st, o.vals[0], st, v, t, nil) {
		if !x.decide(st, g).isTrue() {
			return false
		}
	}
	for _, g := range x.sharedGoals(o.st, pre, nil) {
		if !x.decide(o.st, g).isTrue() {
			return false
		}
	}
	return true
}

// handOut is what a range over a cache with new entries sees: results. The
// entries have to be right by then.
func (x *Exec) handOut(st *State, mc *MapC) *MapC {
	for _, e := range mc.ents {
		if e.deleted {
			continue
		}
		if e.raw != nil {
			e.v = x.box(st, e.rawT, e.raw)
		}
		if !x.inSpec && !x.cacheEntry(st, mc, e.k, e.v, true) {
			x.reqs = append(x.reqs, assertion{st.clone(), x.c.F, "hands out what is no result of " + mc.coh.name + " yet", "C23"})
		}
	}
	x.nfresh++
	return &MapC{base: x.c.App(sMap, "cache!"+itoa(x.nfresh)), kt: mc.kt, vt: mc.vt, coh: mc.coh, guard: mc.guard}
}

// nextSym is a step of a range over a map with unknown contents.
func (x *Exec) nextSym(st *State, fr *frame, i *ssa.Next, it *IterV) []outcome {
	c := x.c
	mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	mc := st.obj(x, it.obj).v.(*MapC)
	switch {
	case it.of != nil && mc == it.of:
		mc = it.m
	case it.of != nil || mc.base != it.m.base || len(mc.ents) > 0:
		unsup("map changed while ranged over")
	}
	x.guarded(st, mc, false)
	n := c.app(bv64, "map.len", mc.base)
	x.litLen(st, n)
	nx := *it
	nx.pos = c.Add(it.pos, c.Int(1))
	fr.env[i.Iter] = &nx
	s := scalarSort(mt.Key())
	if s == nil {
		unsup("range over map with keys %s", mt.Key())
	}
	// past the end the key is any key
	k := c.App(s, "map.key", mc.base, it.pos)
	var v Value
	if mc.coh != nil {
		v = x.cacheValue(st, mc, k)
	} else {
		pre := "map.get:" + typeKey(mt.Elem()) + ":"
		v = x.symValue(st, mt.Elem(), "", func(p string, s *Sort) *Term { return c.app(s, pre+p, mc.base, k) })
	}
	if v == nil {
		unsup("cache without entries")
	}
	x.assume(st, c.Or(c.Not(c.Slt(it.pos, n)), c.App(boolSort, "map.has", mc.base, k)))
	fr.env[i] = TupleV{c.Slt(it.pos, n), x.unflatten(st, mt.Key(), []*Term{k}), v}
	return nil
}
