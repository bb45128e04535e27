package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec executes functions symbolically.
// deadline ends verification.
var deadline time.Time

type Exec struct {
	text       bool // the text of errors counts
	nscratch   int
	globalBase map[*Term]*ssa.Global
	open       map[*Contract]bool
	c          *Ctx
	w          *World
	nextObj    int
	base       map[int]*Obj
	globals    map[*ssa.Global]int
	ro         map[int]string // shared results of contracts, not to be written
	nfresh     int
	flatDepth  int
	steps      int
	maxSteps   int
	guardAll   bool // writes to variables of the package need a lock
	started    time.Time
	depth      int
	// spec run
	inSpec       bool
	trace        []*loopRec // loops the code went through, to be followed
	useSpec      bool       // calls of contracted functions use the contract
	root         *ssa.Function
	finding      map[string]bool
	assumed      map[string]bool
	used         map[string]bool // contracts used
	inlined      map[string]bool // functions executed
	perm         int
	lastMismatch string
	lastModel    string
	ind          *inductions
	recRec       int
	preMax       int
	solver       *Solver
	second       *Solver // confirms what the first one proves
	cache        map[string]bool
	asserts      []assertion
	reqs         []assertion // conditions that callees require, and invariants
	curCon       *Contract
	matched      map[string]int // variables of the specification's loops and those of the code
	matchedAll   map[string]int
	joining      int
	plans        map[string][]loopLocal // how loops of the specification follow those of the code
	specBase     int                    // facts of the specification's own start here
	curArgs      []Value
	refTerms     map[int]*Term
	loopc        *loopCache
}

type outKind int

const (
	oRet outKind = iota
	oPanic
	oBack // back edge of a symbolic loop
)

type outcome struct {
	kind outKind
	st   *State
	vals []Value
	pv   *Term
	// loopBack
	rec    *loopRec
	locals []Value
	ltypes []types.Type
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	// index of the panic record this deferred call may recover, or -1
	rec    int
	iters  map[*ssa.BasicBlock]int
	depth  int
	params []Value
}

func (f *frame) clone() *frame {
	n := *f
	n.env = maps.Clone(f.env)
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	n.iters = maps.Clone(f.iters)
	return &n
}

type item struct {
	st *State
	fr *frame
}

// ---- loops

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopCache struct {
	m map[*ssa.Function]map[*ssa.BasicBlock]*natLoop
}

func newLoopCache() *loopCache {
	return &loopCache{m: map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}}
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	out := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := out[h]
			if l == nil {
				l = &natLoop{header: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				out[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				n := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[n] {
					continue
				}
				l.blocks[n] = true
				work = append(work, n.Preds...)
			}
		}
	}
	return out
}

func (x *Exec) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	m, ok := x.loops().m[fn]
	if !ok {
		m = findLoops(fn)
		x.loops().m[fn] = m
	}
	return m
}

type loopMode struct {
	facts int // known when the loop began
	lp    *natLoop
	sym   bool
}

type needSym struct{ m *loopMode }

// ---- running

func (x *Exec) step() {
	x.steps++
	if x.steps&4095 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		unsup("out of time")
	}
	if x.steps > x.maxSteps {
		unsup("budget of %d steps exceeded", x.maxSteps)
	}
}

// callFn runs a function body.
func (x *Exec) callFn(st *State, fn *ssa.Function, args, bind []Value, rec int) []outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if x.depth > 60 {
		unsup("call depth at %s", fn)
	}
	x.depth++
	defer func() { x.depth-- }()
	if fn.Pkg != nil && !strings.HasPrefix(fn.Name(), "gv") {
		x.inlined[fn.String()] = true
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, block: fn.Blocks[0], rec: rec, iters: map[*ssa.BasicBlock]int{}, params: args}
	if len(args) != len(fn.Params) {
		unsup("call of %s with %d arguments", fn, len(args))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	var base *State
	if x.curCon != nil && x.curCon.merge && x.depth > 1 && x.joining == 0 && joins(fn) && x.ofCode(fn) {
		base = st.clone()
	}
	exits, outs, backs := x.region(item{st, fr}, nil)
	if len(exits) > 0 || len(backs) > 0 {
		unsup("region exits from function")
	}
	if base != nil {
		return x.joinRets(base, fn, outs)
	}
	return outs
}

// region runs from an item until control leaves the loop.
func (x *Exec) region(start item, m *loopMode) (exits []item, outs []outcome, backs []item) {
	work := []item{start}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		next, os := x.runBlock(it, m)
		outs = append(outs, os...)
		// keep order: process first successor first
		for i := len(next) - 1; i >= 0; i-- {
			n := next[i]
			b := n.fr.block
			if m != nil && n.fr.pc == 0 {
				if !m.lp.blocks[b] {
					exits = append(exits, n)
					continue
				}
				if b == m.lp.header {
					if m.sym {
						backs = append(backs, n)
						continue
					}
					n.fr.iters[b]++
					if k := n.fr.iters[b]; k > 70 && len(n.st.pc) >= m.facts+k {
						// each iteration depends on something unknown
						panic(needSym{m})
					}
					if n.fr.iters[b] > 600 {
						unsup("more than 600 iterations")
					}
					x.phis(n)
					work = append(work, n)
					continue
				}
			}
			if n.fr.pc == 0 {
				if lp := x.loopsOf(n.fr.fn)[b]; lp != nil {
					ex, os := x.loop(n, lp)
					outs = append(outs, os...)
					for _, e := range ex {
						if m != nil && !m.lp.blocks[e.fr.block] {
							exits = append(exits, e)
						} else if m != nil && e.fr.block == m.lp.header {
							// inner exit straight to the outer header
							if m.sym {
								backs = append(backs, e)
							} else {
								e.fr.iters[e.fr.block]++
								if e.fr.iters[e.fr.block] > 600 {
									unsup("more than 600 iterations")
								}
								x.phis(e)
								work = append(work, e)
							}
						} else if l2 := x.loopsOf(e.fr.fn)[e.fr.block]; l2 != nil {
							// exit of one loop into the header of another
							work = append(work, x.trampoline(e))
						} else {
							x.phis(e)
							work = append(work, e)
						}
					}
					continue
				}
				x.phis(n)
			}
			work = append(work, n)
		}
	}
	return
}

// trampoline makes an item that jumps to its block again.
func (x *Exec) trampoline(it item) item {
	it.fr.pc = -1
	return it
}

// phis evaluates the phis of the current block.
func (x *Exec) phis(it item) {
	fr := it.fr
	b := fr.block
	var vals []Value
	n := 0
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for i, q := range b.Preds {
			if q == fr.prev {
				k = i
			}
		}
		if k < 0 {
			unsup("phi without edge")
		}
		vals = append(vals, x.val(it.st, fr, p.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		fr.env[b.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	fr.pc = n
}

func (x *Exec) branch(st *State, cond *Term) (*State, *State) {
	d := x.decide(st, cond)
	if d.isTrue() {
		return st, nil
	}
	if d.isFalse() {
		return nil, st
	}
	f := st.clone()
	t := st
	if !x.addFact(t, d) {
		t = nil
	}
	if !x.addFact(f, x.c.Not(d)) {
		f = nil
	}
	return t, f
}

func jump(it item, succ int) item {
	it.fr.prev = it.fr.block
	it.fr.block = it.fr.block.Succs[succ]
	it.fr.pc = 0
	return it
}

// runBlock runs the instructions of an item up to the end of the block.
func (x *Exec) runBlock(it item, m *loopMode) (next []item, outs []outcome) {
	fr := it.fr
	if fr.pc == -1 {
		fr.pc = 0
		return []item{it}, nil
	}
	if fr.pc == 0 {
		x.phis0(it)
	}
	for {
		x.step()
		if fr.pc >= len(fr.block.Instrs) {
			unsup("end of block")
		}
		switch ins := fr.block.Instrs[fr.pc].(type) {
		case *ssa.Jump:
			return []item{jump(it, 0)}, outs
		case *ssa.If:
			cond := x.val(it.st, fr, ins.Cond).(*Term)
			d := x.decide(it.st, cond)
			if d.isTrue() {
				return []item{jump(it, 0)}, outs
			}
			if d.isFalse() {
				return []item{jump(it, 1)}, outs
			}
			if m != nil && !m.sym && m.lp.blocks[fr.block.Succs[0]] != m.lp.blocks[fr.block.Succs[1]] {
				panic(needSym{m})
			}
			if n, ok := x.mergeIf(it, m, d); ok {
				it, fr = n, n.fr
				continue
			}
			if n, os, ok := x.joinIf(it, m, d); ok {
				outs = append(outs, os...)
				if len(os) > 0 {
					return []item{n}, outs
				}
				it, fr = n, n.fr
				continue
			}
			t, f := x.branch(it.st, d)
			if t != nil {
				fr2 := fr
				if f != nil {
					fr2 = fr.clone()
				}
				next = append(next, jump(item{t, fr2}, 0))
			}
			if f != nil {
				next = append(next, jump(item{f, fr}, 1))
			}
			return next, outs
		case *ssa.Return:
			vals := make([]Value, len(ins.Results))
			for i, r := range ins.Results {
				vals[i] = x.val(it.st, fr, r)
			}
			return nil, append(outs, outcome{kind: oRet, st: it.st, vals: vals})
		case *ssa.Panic:
			v := x.val(it.st, fr, ins.X)
			pv := x.scalar(it.st, v, ins.X.Type())
			n, o := x.panicking(it.st, fr, pv)
			return append(next, n...), append(outs, o...)
		case *ssa.RunDefers:
			ns, os := x.runDefers(it.st, fr, -1)
			outs = append(outs, os...)
			if len(ns) == 1 && len(outs) == 0 {
				it = ns[0]
				fr = it.fr
				fr.pc++
				continue
			}
			for _, n := range ns {
				n.fr.pc++
				next = append(next, n)
			}
			return next, outs
		default:
			res := x.instr(it.st, fr, ins)
			if res == nil {
				fr.pc++
				continue
			}
			// several continuations
			cont := 0
			for _, r := range res {
				if r.kind == oRet {
					cont++
				}
			}
			if len(res) == 1 && cont == 1 {
				it.st = res[0].st
				x.setResult(fr, ins, res[0].vals)
				fr.pc++
				continue
			}
			for _, r := range res {
				switch r.kind {
				case oRet:
					f2 := fr.clone()
					x.setResult(f2, ins, r.vals)
					f2.pc++
					next = append(next, item{r.st, f2})
				case oPanic:
					n, o := x.panicking(r.st, fr.clone(), r.pv)
					next = append(next, n...)
					outs = append(outs, o...)
				default:
					outs = append(outs, r)
				}
			}
			return next, outs
		}
	}
}

func (x *Exec) phis0(it item) {
	if len(it.fr.block.Instrs) > 0 {
		if _, ok := it.fr.block.Instrs[0].(*ssa.Phi); ok {
			x.phis(it)
		}
	}
}

func (x *Exec) setResult(fr *frame, ins ssa.Instruction, vals []Value) {
	v, ok := ins.(ssa.Value)
	if !ok {
		return
	}
	if _, ok := v.Type().(*types.Tuple); ok {
		if _, isCall := ins.(*ssa.Call); isCall {
			fr.env[v] = TupleV(vals)
			return
		}
		if len(vals) != 1 {
			fr.env[v] = TupleV(vals)
			return
		}
	}
	if len(vals) == 0 {
		return
	}
	fr.env[v] = vals[0]
}

// runDefers runs the deferred calls of a frame. rec is the index of the panic
// being handled, or -1.
func (x *Exec) runDefers(st *State, fr *frame, rec int) ([]item, []outcome) {
	work := []item{{st, fr}}
	var done []item
	var outs []outcome
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		n := len(it.fr.defers)
		if n == 0 {
			done = append(done, it)
			continue
		}
		d := it.fr.defers[n-1]
		it.fr.defers = it.fr.defers[: n-1 : n-1]
		for _, o := range x.callValue(it.st, d.fn, d.args, d.call, rec) {
			switch o.kind {
			case oRet:
				work = append(work, item{o.st, it.fr.clone()})
			case oPanic:
				f2 := it.fr.clone()
				if rec >= 0 {
					// replaces the current panic
					o.st.panics[rec] = &panicRec{pv: o.pv}
					work = append(work, item{o.st, f2})
				} else {
					n2, o2 := x.panicking(o.st, f2, o.pv)
					outs = append(outs, o2...)
					for _, q := range n2 {
						_ = q
						unsup("recovery of panic in deferred call")
					}
				}
			default:
				outs = append(outs, o)
			}
		}
	}
	return done, outs
}

// panicking unwinds a frame.
func (x *Exec) panicking(st *State, fr *frame, pv *Term) ([]item, []outcome) {
	if len(fr.defers) == 0 {
		return nil, []outcome{{kind: oPanic, st: st, pv: pv}}
	}
	st.panics = append(st.panics[:len(st.panics):len(st.panics)], &panicRec{pv: pv})
	idx := len(st.panics) - 1
	items, outs := x.runDefers(st, fr, idx)
	var next []item
	for _, it := range items {
		p := it.st.panics[idx]
		it.st.panics = it.st.panics[:idx:idx]
		if p.recovered {
			if it.fr.fn.Recover == nil {
				var vals []Value
				res := it.fr.fn.Signature.Results()
				for i := 0; i < res.Len(); i++ {
					vals = append(vals, x.zero(it.st, res.At(i).Type()))
				}
				outs = append(outs, outcome{kind: oRet, st: it.st, vals: vals})
				continue
			}
			it.fr.prev = it.fr.block
			it.fr.block = it.fr.fn.Recover
			it.fr.pc = 0
			next = append(next, it)
			continue
		}
		outs = append(outs, outcome{kind: oPanic, st: it.st, pv: p.pv})
	}
	return next, outs
}

// ---- values

func (x *Exec) val(st *State, fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constant(st, v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Builtin:
		return &FuncV{fn: v}
	case *ssa.Global:
		return &PtrV{obj: x.global(st, v)}
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) global(st *State, g *ssa.Global) int {
	if id, ok := x.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	x.nextObj++
	id := x.nextObj
	x.globals[g] = id
	dummy := &State{heap: x.base, bnd: map[int][2]int64{}, lits: map[int]bool{}, known: map[int]*Term{}, refs: map[int]int{}}
	name := "global:" + g.String()
	var v Value
	if n := g.String(); n == "encoding/binary.LittleEndian" || n == "encoding/binary.BigEndian" || n == "encoding/binary.NativeEndian" {
		v = x.zero(dummy, t)
	} else if t.String() == "error" && !strings.HasPrefix(n, "github.com/go-restruct/") {
		v = x.c.Lit(sIface, n) // the known errors of libraries differ
	} else {
		v = x.symValue(dummy, t, name, func(p string, s *Sort) *Term { return x.c.App(s, p) })
	}
	x.base[id] = &Obj{t: t, v: v}
	if m, ok := v.(*MapRef); ok && m.obj != 0 {
		if b := x.base[m.obj].v.(*MapC).base; b != nil {
			x.globalBase[b] = g
		}
	}
	if ci, ok := x.w.caches[g]; ok {
		if m, ok := v.(*MapRef); ok {
			mc := *x.base[m.obj].v.(*MapC)
			mc.coh, mc.guard = ci.con, "lock:"+itoa(x.global(st, ci.lock))
			x.base[m.obj].v = &mc
		}
	}
	return id
}

func (x *Exec) constant(st *State, v *ssa.Const) Value {
	t := v.Type()
	if v.Value == nil {
		return x.zero(st, t)
	}
	s := scalarSort(t)
	if s == nil {
		unsup("constant of type %s", t)
	}
	switch {
	case s == boolSort:
		return x.c.Bool(constant.BoolVal(v.Value))
	case s.K == kBV:
		iv := constant.ToInt(v.Value)
		if i, ok := constant.Int64Val(iv); ok {
			return x.c.BV(uint64(i), s.W)
		}
		if u, ok := constant.Uint64Val(iv); ok {
			return x.c.BV(u, s.W)
		}
	case s == sStr:
		return x.c.Lit(sStr, constant.StringVal(v.Value))
	case s == sIface:
		unsup("constant interface")
	}
	if s == sF32 || s == sF64 || s == sC64 || s == sC128 {
		return x.c.Lit(s, v.Value.ExactString())
	}
	unsup("constant %s", v)
	return nil
}

// rtPanic is the outcome of a run-time error.
func (x *Exec) rtPanic(st *State, what string) outcome {
	return outcome{kind: oPanic, st: st, pv: x.c.App(sIface, "rt:"+what)}
}

func ret(st *State, vals ...Value) outcome { return outcome{kind: oRet, st: st, vals: vals} }

// instr executes an instruction. A nil result means that the path goes on with
// the same state.
func (x *Exec) instr(st *State, fr *frame, ins ssa.Instruction) []outcome {
	c := x.c
	switch i := ins.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		fr.env[i] = &PtrV{obj: x.newObj(st, t, x.zero(st, t))}
		return nil
	case *ssa.Store:
		p, nilst, oc := x.ptr(st, x.val(st, fr, i.Addr), i.Val.Type())
		if p == nil {
			return oc
		}
		_ = nilst
		x.store(st, p, x.val(st, fr, i.Val))
		return oc
	case *ssa.UnOp:
		return x.unop(st, fr, i)
	case *ssa.BinOp:
		a, b := x.val(st, fr, i.X), x.val(st, fr, i.Y)
		return x.binop(st, fr, i, a, b)
	case *ssa.FieldAddr:
		st0 := i.X.Type().Underlying().(*types.Pointer).Elem()
		p, _, oc := x.ptr(st, x.val(st, fr, i.X), st0)
		if p == nil {
			return oc
		}
		np := &PtrV{obj: p.obj, path: append(p.path[:len(p.path):len(p.path)], pathElem{f: i.Field})}
		if oc == nil {
			fr.env[i] = np
			return nil
		}
		oc[0].vals = []Value{np}
		return oc
	case *ssa.Field:
		fr.env[i] = x.val(st, fr, i.X).(*StructV).f[i.Field]
		return nil
	case *ssa.IndexAddr:
		return x.indexAddr(st, fr, i)
	case *ssa.Index:
		a := x.val(st, fr, i.X)
		idx := x.toInt64(x.val(st, fr, i.Index).(*Term), i.Index.Type())
		if av, ok := a.(*ArrV); ok {
			n := c.Int(int64(len(av.e)))
			t, f := x.branch(st, c.Ult(idx, n))
			var out []outcome
			if t != nil {
				et := i.X.Type().Underlying().(*types.Array).Elem()
				out = append(out, ret(t, x.walk(t, av, i.X.Type(), []pathElem{{idx: idx}})))
				_ = et
			}
			if f != nil {
				out = append(out, x.rtPanic(f, "index"))
			}
			return out
		}
		return x.strIndex(st, a.(*Term), idx)
	case *ssa.Lookup:
		return x.lookup(st, fr, i)
	case *ssa.Extract:
		fr.env[i] = x.val(st, fr, i.Tuple).(TupleV)[i.Index]
		return nil
	case *ssa.Phi:
		unsup("phi out of place")
	case *ssa.MakeInterface:
		v := x.val(st, fr, i.X)
		fr.env[i] = x.box(st, i.X.Type(), v)
		return nil
	case *ssa.ChangeInterface:
		v := x.val(st, fr, i.X)
		if t, ok := v.(*Term); ok && t.s == sRT && scalarSort(i.Type()) == sIface {
			v = c.App(sIface, "box:reflect.Type", t)
		}
		fr.env[i] = v
		return nil
	case *ssa.ChangeType:
		v := x.val(st, fr, i.X)
		if s := scalarSort(i.Type()); s != nil {
			fr.env[i] = x.scalar(st, v, i.X.Type())
		} else {
			fr.env[i] = v
		}
		return nil
	case *ssa.Convert:
		return x.convert(st, fr, i)
	case *ssa.MakeClosure:
		f := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.bind = append(f.bind, x.val(st, fr, b))
		}
		fr.env[i] = f
		return nil
	case *ssa.MakeSlice:
		return x.makeSlice(st, fr, i)
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		fr.env[i] = &MapRef{x.newObj(st, i.Type(), &MapC{kt: m.Key(), vt: m.Elem()})}
		return nil
	case *ssa.MapUpdate:
		m := x.val(st, fr, i.Map).(*MapRef)
		if m.obj == 0 {
			return []outcome{x.rtPanic(st, "nilmap")}
		}
		mt := i.Map.Type().Underlying().(*types.Map)
		mc := st.obj(x, m.obj).v.(*MapC)
		x.guarded(st, mc, true)
		x.sharedWrite(st, x.val(st, fr, i.Map).(*MapRef).obj)
		k := x.keyTerm(st, x.val(st, fr, i.Key), mt.Key())
		v := x.val(st, fr, i.Value)
		if mc.coh != nil && x.cacheEntry(st, mc, k, v, false) {
			return nil
		}
		e := mapEnt{k: k, v: v}
		if mi, ok := i.Value.(*ssa.MakeInterface); ok {
			e.raw, e.rawT = x.val(st, fr, mi.X), mi.X.Type()
		}
		n := *mc
		n.ents = append(mc.ents[:len(mc.ents):len(mc.ents)], e)
		st.setObj(x, m.obj, &n)
		return nil
	case *ssa.Slice:
		return x.slice(st, fr, i)
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.Range:
		v := x.val(st, fr, i.X)
		switch v := v.(type) {
		case *Term:
			fr.env[i] = &IterV{str: v, pos: c.Int(0)}
		case *MapRef:
			mc := &MapC{}
			if v.obj != 0 {
				mc = st.obj(x, v.obj).v.(*MapC)
			}
			x.guarded(st, mc, false)
			it := &IterV{m: mc, pos: c.Int(0), obj: v.obj}
			if mc.base != nil && len(mc.ents) > 0 {
				if mc.coh == nil {
					unsup("range over changed map")
				}
				it.m, it.of = x.handOut(st, mc), mc
			}
			fr.env[i] = it
		default:
			unsup("range over %T", v)
		}
		return nil
	case *ssa.Next:
		return x.next(st, fr, i)
	case *ssa.Call:
		fnv, args, oc := x.callee(st, fr, &i.Call)
		if oc != nil {
			return oc
		}
		x.recRec = fr.rec
		return x.callValue(st, fnv, args, &i.Call, -1)
	case *ssa.Defer:
		fnv, args, oc := x.callee(st, fr, &i.Call)
		if oc != nil {
			return oc
		}
		fr.defers = append(fr.defers[:len(fr.defers):len(fr.defers)], deferred{fnv, args, &i.Call})
		// a recover of the deferred builtin is not supported
		return nil
	}
	unsup("instruction %T", ins)
	return nil
}

// ptr turns a value into a pointer that is known not to be nil. If the pointer
// may be nil, the outcomes are the continuation and the panic.
func (x *Exec) ptr(st *State, v Value, et types.Type) (*PtrV, *State, []outcome) {
	switch v := v.(type) {
	case *PtrV:
		if v.obj == 0 {
			return nil, nil, []outcome{x.rtPanic(st, "nil")}
		}
		return v, st, nil
	case *Term:
		t, f := x.branch(st, x.c.Not(x.c.Eq(v, x.c.Lit(sRef, "nil"))))
		if t == nil {
			return nil, nil, []outcome{x.rtPanic(f, "nil")}
		}
		p := x.deref(t, v, et)
		if f == nil {
			return p, t, nil
		}
		return p, t, []outcome{ret(t), x.rtPanic(f, "nil")}
	}
	unsup("pointer %T", v)
	return nil, nil, nil
}

func (x *Exec) unop(st *State, fr *frame, i *ssa.UnOp) []outcome {
	c := x.c
	v := x.val(st, fr, i.X)
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok && st.gh != nil {
			_ = g
		}
		p, _, oc := x.ptr(st, v, i.Type())
		if p == nil {
			return oc
		}
		r := x.load(st, p)
		if oc == nil {
			fr.env[i] = r
			return nil
		}
		oc[0].vals = []Value{r}
		return oc
	case token.NOT:
		fr.env[i] = c.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.s.K == kBV {
			fr.env[i] = c.Neg(t)
		} else {
			fr.env[i] = c.app(t.s, "neg", t)
		}
	case token.XOR:
		fr.env[i] = c.BNot(v.(*Term))
	default:
		unsup("operator %s", i.Op)
	}
	return nil
}

// toInt64 converts an integer to 64 bits.
func (x *Exec) toInt64(t *Term, typ types.Type) *Term {
	if t.s.W == 64 {
		return t
	}
	if isSigned(typ) {
		return x.c.Sext(t, 64)
	}
	return x.c.Zext(t, 64)
}

func (x *Exec) indexAddr(st *State, fr *frame, i *ssa.IndexAddr) []outcome {
	c := x.c
	v := x.val(st, fr, i.X)
	idx := x.toInt64(x.val(st, fr, i.Index).(*Term), i.Index.Type())
	var p *PtrV
	var n *Term
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(*SliceV)
		n = s.len
		p = &PtrV{obj: s.obj, path: []pathElem{{idx: c.Add(s.off, idx)}}}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		n = c.Int(at.Len())
		base, _, oc := x.ptr(st, v, u.Elem())
		if base == nil || oc != nil {
			unsup("index through possibly nil array pointer")
		}
		p = &PtrV{obj: base.obj, path: append(base.path[:len(base.path):len(base.path)], pathElem{idx: idx})}
	default:
		unsup("index of %s", i.X.Type())
	}
	t, f := x.branch(st, c.Ult(idx, n))
	if f == nil {
		fr.env[i] = p
		return nil
	}
	var out []outcome
	if t != nil {
		out = append(out, ret(t, p))
	}
	return append(out, x.rtPanic(f, "index"))
}

func (x *Exec) keyTerm(st *State, v Value, t types.Type) *Term {
	fl := x.flatten(st, v, t)
	if len(fl) == 1 {
		return fl[0]
	}
	return x.c.App(sIface, "box:"+typeKey(t), fl...)
}

func (x *Exec) lookup(st *State, fr *frame, i *ssa.Lookup) []outcome {
	c := x.c
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok {
		return x.strIndex(st, x.val(st, fr, i.X).(*Term), x.toInt64(x.val(st, fr, i.Index).(*Term), i.Index.Type()))
	}
	m := x.val(st, fr, i.X).(*MapRef)
	k := x.keyTerm(st, x.val(st, fr, i.Index), mt.Key())
	mk := func(v Value, ok *Term) []Value {
		if i.CommaOk {
			return []Value{TupleV{v, ok}}
		}
		return []Value{v}
	}
	var mc *MapC
	if m.obj != 0 {
		mc = st.obj(x, m.obj).v.(*MapC)
	} else {
		mc = &MapC{}
	}
	x.guarded(st, mc, false)
	var out []outcome
	for j := len(mc.ents) - 1; j >= 0 && st != nil; j-- {
		e := mc.ents[j]
		t, f := x.branch(st, c.Eq(k, e.k))
		if t != nil {
			if e.deleted {
				out = append(out, ret(t, mk(x.zero(t, mt.Elem()), c.F)...))
			} else {
				out = append(out, ret(t, mk(e.v, c.T)...))
			}
		}
		st = f
	}
	if st != nil {
		if mc.base == nil {
			out = append(out, ret(st, mk(x.zero(st, mt.Elem()), c.F)...))
		} else if mc.coh != nil {
			t, f := x.branch(st, x.fresh("cached"))
			if t != nil {
				if v := x.cacheValue(t, mc, k); v != nil {
					t.hit = true
					out = append(out, ret(t, mk(v, c.T)...))
				}
			}
			if f != nil {
				out = append(out, ret(f, mk(x.zero(f, mt.Elem()), c.F)...))
			}
		} else {
			has := c.App(boolSort, "map.has", mc.base, k)
			known, in, tv := x.inTable(st, mc.base, k)
			if known {
				has = c.Bool(in)
			}
			t, f := x.branch(st, has)
			if t != nil && tv != nil {
				out = append(out, ret(t, mk(tv, c.T)...))
			} else if t != nil {
				pre := "map.get:" + typeKey(mt.Elem()) + ":"
				v := x.symValue(t, mt.Elem(), "", func(p string, s *Sort) *Term { return c.app(s, pre+p, mc.base, k) })
				out = append(out, ret(t, mk(v, c.T)...))
			}
			if f != nil {
				out = append(out, ret(f, mk(x.zero(f, mt.Elem()), c.F)...))
			}
		}
	}
	return out
}

func (x *Exec) makeSlice(st *State, fr *frame, i *ssa.MakeSlice) []outcome {
	c := x.c
	n := x.toInt64(x.val(st, fr, i.Len).(*Term), i.Len.Type())
	et := i.Type().Underlying().(*types.Slice).Elem()
	// negative lengths panic
	t, f := x.branch(st, c.Sle(c.Int(0), n))
	var out []outcome
	if t != nil {
		x.litLen(t, n)
		var v Value
		n = x.decide(t, n)
		if bs := bufElem(et); bs != nil {
			v = &BufV{c.ConstArr(arrSort(bs), c.BV(0, bs.W))}
		} else if n.isConst() && n.val <= 64 {
			av := &ArrV{}
			for k := uint64(0); k < n.val; k++ {
				av.e = append(av.e, x.zero(t, et))
			}
			v = av
		} else {
			v = &SeqV{c.App(sSeq, "seq.make:"+typeKey(et), n)}
		}
		if n.isConst() && n.val == 0 {
			v = &ArrV{}
			if bs := bufElem(et); bs != nil {
				v = &BufV{c.ConstArr(arrSort(bs), c.BV(0, bs.W))}
			}
		}
		s := &SliceV{obj: x.newObj(t, i.Type(), v), off: c.Int(0), len: n, cap: n, et: et}
		if f == nil {
			fr.env[i] = s
			return nil
		}
		out = append(out, ret(t, s))
	}
	return append(out, x.rtPanic(f, "makeslice"))
}

func (x *Exec) slice(st *State, fr *frame, i *ssa.Slice) []outcome {
	c := x.c
	v := x.val(st, fr, i.X)
	get := func(e ssa.Value) *Term {
		if e == nil {
			return nil
		}
		return x.toInt64(x.val(st, fr, e).(*Term), e.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if s, ok := v.(*Term); ok && s.s == sStr {
		n := x.strLen(st, s)
		if lo == nil {
			lo = c.Int(0)
		}
		if hi == nil {
			hi = n
		}
		cond := c.And(c.Sle(c.Int(0), lo), c.Sle(lo, hi), c.Sle(hi, n))
		t, f := x.branch(st, cond)
		var out []outcome
		if t != nil {
			out = append(out, ret(t, x.strSub(t, s, lo, hi)))
		}
		if f != nil {
			out = append(out, x.rtPanic(f, "slice"))
		}
		return out
	}
	var s *SliceV
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s = v.(*SliceV)
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p, _, oc := x.ptr(st, v, u.Elem())
		if p == nil || oc != nil || len(p.path) > 0 {
			unsup("slice of array")
		}
		s = &SliceV{obj: p.obj, off: c.Int(0), len: c.Int(at.Len()), cap: c.Int(at.Len()), et: at.Elem()}
	default:
		unsup("slice of %s", i.X.Type())
	}
	if lo == nil {
		lo = c.Int(0)
	}
	if hi == nil {
		hi = s.len
	}
	if mx == nil {
		mx = s.cap
	}
	conds := []*Term{c.Sle(c.Int(0), lo), c.Sle(lo, hi)}
	if i.High != nil && hi != s.len {
		conds = append(conds, c.Or(c.Sle(hi, s.len), c.Sle(hi, mx)))
	}
	if i.Max != nil {
		conds = append(conds, c.Sle(mx, s.cap))
	}
	t, f := x.branch(st, c.And(conds...))
	r := &SliceV{obj: s.obj, off: c.Add(s.off, lo), len: c.Sub(hi, lo), cap: c.Sub(mx, lo), et: s.et}
	if t != nil {
		x.litLen(t, r.len)
	}
	if f == nil {
		fr.env[i] = r
		return nil
	}
	var out []outcome
	if t != nil {
		out = append(out, ret(t, r))
	}
	return append(out, x.rtPanic(f, "slice"))
}

func (x *Exec) convert(st *State, fr *frame, i *ssa.Convert) []outcome {
	c := x.c
	from, to := i.X.Type(), i.Type()
	v := x.val(st, fr, i.X)
	fs, ts := scalarSort(from), scalarSort(to)
	if fs != nil && ts != nil {
		fr.env[i] = x.convScalar(v.(*Term), from, to)
		return nil
	}
	// string <-> []byte, []rune
	if ts == sStr {
		if s, ok := v.(*SliceV); ok && scalarSort(s.et) == bv32 && s.len.isConst() && s.len.val <= 64 {
			r := c.Lit(sStr, "")
			for k := uint64(0); k < s.len.val; k++ {
				e := x.walk(st, st.obj(x, s.obj).v, types.NewSlice(s.et), []pathElem{{idx: c.Add(s.off, c.Int(int64(k)))}})
				r = x.strCat(st, r, x.convScalar(e.(*Term), types.Typ[types.Rune], to))
			}
			fr.env[i] = r
			return nil
		}
	}
	if fs == sStr {
		if bs := bufElem(to.Underlying().(*types.Slice).Elem()); bs != nil {
			s := v.(*Term)
			n := x.strLen(st, s)
			arr := c.app(arrSort(bs), "str.arr", s)
			fr.env[i] = &SliceV{obj: x.newObj(st, to, &BufV{arr}), off: c.Int(0), len: n, cap: n, et: to.Underlying().(*types.Slice).Elem()}
			return nil
		}
	}
	if ts == sStr {
		s, ok := v.(*SliceV)
		if ok {
			if bs := bufElem(s.et); bs != nil {
				if s.len.isConst() && s.len.val == 0 {
					fr.env[i] = c.Lit(sStr, "")
					return nil
				}
				arr, off := x.bufArr(st, s, bs)
				fr.env[i] = x.strOf(st, arr, off, s.len)
				return nil
			}
		}
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) convScalar(t *Term, from, to types.Type) *Term {
	c := x.c
	fs, ts := scalarSort(from), scalarSort(to)
	if fs.K == kBV && ts.K == kBV {
		if ts.W <= fs.W {
			return c.Extract(t, ts.W-1, 0)
		}
		if isSigned(from) {
			return c.Sext(t, ts.W)
		}
		return c.Zext(t, ts.W)
	}
	if fs == ts && fs.K != kBV {
		return t
	}
	if ts == sStr && fs.K == kBV && t.isConst() {
		if isSigned(from) {
			t = c.Sext(t, 64)
		} else {
			t = c.Zext(t, 64)
		}
		if r := int64(t.val); r < 0 || r > 0x10ffff {
			return c.Lit(sStr, "\ufffd")
		}
		return c.Lit(sStr, string(rune(t.val)))
	}
	sg := func(t types.Type) string {
		s := scalarSort(t)
		if s.K == kBV {
			if isSigned(t) {
				return fmt.Sprintf("s%d", s.W)
			}
			return fmt.Sprintf("u%d", s.W)
		}
		return s.Name
	}
	if (t.isConst() || t.op == oLit) && (t.isConst() && t.val == 0 || t.name == "0") && t.s.K != kBool {
		switch ts {
		case sF32, sF64:
			return c.Lit(ts, "0")
		}
	}
	return c.app(ts, "conv:"+sg(from)+":"+sg(to), t)
}

func (x *Exec) binop(st *State, fr *frame, i *ssa.BinOp, a, b Value) []outcome {
	c := x.c
	t := i.X.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		e, oc := x.equal(st, a, b, i.X.Type(), i.Y.Type())
		if i.Op == token.NEQ {
			e = c.Not(e)
		}
		if oc == nil {
			fr.env[i] = e
			return nil
		}
		for k := range oc {
			if oc[k].kind == oRet {
				oc[k].vals = []Value{e}
			}
		}
		return oc
	}
	r, panics := x.arith(st, i.Op, a.(*Term), b.(*Term), t, i.Y.Type())
	if panics == nil {
		fr.env[i] = r
		return nil
	}
	pt, ok := x.branch(st, panics)
	var out []outcome
	if ok != nil {
		if pt == nil {
			fr.env[i] = r
			return nil
		}
		out = append(out, ret(ok, r))
	}
	return append(out, x.rtPanic(pt, "arith"))
}

// arith computes a binary operation, and the condition under which it panics.
func (x *Exec) arith(st *State, op token.Token, a, b *Term, t, bt types.Type) (*Term, *Term) {
	c := x.c
	if a.s.K != kBV {
		if a.s == boolSort {
			switch op {
			case token.AND:
				return c.And(a, b), nil
			case token.OR:
				return c.Or(a, b), nil
			}
		}
		if a.s == sStr {
			switch op {
			case token.ADD:
				return x.strCat(st, a, b), nil
			case token.LSS:
				return c.app(boolSort, "str.lt", a, b), nil
			case token.GTR:
				return c.app(boolSort, "str.lt", b, a), nil
			case token.LEQ:
				return c.Not(c.app(boolSort, "str.lt", b, a)), nil
			case token.GEQ:
				return c.Not(c.app(boolSort, "str.lt", a, b)), nil
			}
		}
		n := "f" + op.String() + a.s.Name
		switch op {
		case token.LSS, token.LEQ:
			return c.app(boolSort, n, a, b), nil
		case token.GTR:
			return c.app(boolSort, "f<"+a.s.Name, b, a), nil
		case token.GEQ:
			return c.app(boolSort, "f<="+a.s.Name, b, a), nil
		case token.ADD, token.MUL:
			return c.app(a.s, n, a, b), nil
		case token.SUB, token.QUO:
			return c.app(a.s, n, a, b), nil
		}
		unsup("operator %s on %s", op, a.s.Name)
	}
	sg := isSigned(t)
	w := a.s.W
	switch op {
	case token.ADD:
		return c.Add(a, b), nil
	case token.SUB:
		return c.Sub(a, b), nil
	case token.MUL:
		return c.Mul(a, b), nil
	case token.AND:
		return c.BAnd(a, b), nil
	case token.OR:
		return c.BOr(a, b), nil
	case token.XOR:
		return c.BXor(a, b), nil
	case token.AND_NOT:
		return c.BAnd(a, c.BNot(b)), nil
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if op == token.GTR || op == token.LEQ {
			a, b = b, a
		}
		var r *Term
		if sg {
			r = c.Slt(a, b)
		} else {
			r = c.Ult(a, b)
		}
		if op == token.LEQ || op == token.GEQ {
			r = c.Not(r)
		}
		return r, nil
	case token.QUO, token.REM:
		zero := c.Eq(b, c.BV(0, w))
		if zero.isFalse() {
			zero = nil
		}
		switch {
		case op == token.QUO && sg:
			return x.sdiv(st, a, b), zero
		case op == token.QUO:
			return c.UDiv(a, b), zero
		case sg:
			return x.srem(st, a, b), zero
		}
		return c.URem(a, b), zero
	case token.SHL, token.SHR:
		var panics *Term
		if isSigned(bt) {
			panics = c.Slt(b, c.BV(0, b.s.W))
			if panics.isFalse() {
				panics = nil
			}
		}
		b = x.decide(st, b)
		// bring the amount to the width of a
		amt := b
		if b.s.W < w {
			amt = c.Zext(b, w)
		} else if b.s.W > w {
			amt = c.Ite(c.Ult(b, c.BV(uint64(w), b.s.W)), c.Extract(b, w-1, 0), c.BV(uint64(w), w))
			if b.isConst() {
				amt = c.BV(min(b.val, uint64(w)), w)
			}
		}
		switch {
		case op == token.SHL:
			return c.Shl(a, amt), panics
		case sg:
			return c.AShr(a, amt), panics
		}
		return c.LShr(a, amt), panics
	}
	unsup("operator %s", op)
	return nil, nil
}

func (x *Exec) isNonneg(st *State, a *Term) bool {
	if x.c.nonneg(a) {
		return true
	}
	if a.s.W == 64 {
		lo, _, ok := x.interval(st, a)
		return ok && lo >= 0
	}
	return false
}

func (x *Exec) sdiv(st *State, a, b *Term) *Term {
	if x.isNonneg(st, a) && x.isNonneg(st, b) {
		return x.c.UDiv(a, b)
	}
	return x.c.SDiv(a, b)
}

func (x *Exec) srem(st *State, a, b *Term) *Term {
	if x.isNonneg(st, a) && x.isNonneg(st, b) {
		return x.c.URem(a, b)
	}
	return x.c.SRem(a, b)
}

// equal compares two values of comparable types.
func (x *Exec) equal(st *State, a, b Value, at, bt types.Type) (*Term, []outcome) {
	c := x.c
	if isIface(at) != isIface(bt) {
		if isIface(at) {
			b = x.box(st, bt, b)
		} else {
			a = x.box(st, at, a)
		}
		at = types.NewInterfaceType(nil, nil)
	}
	switch u := at.Underlying().(type) {
	case *types.Slice:
		// comparison with nil
		sa, sb := a.(*SliceV), b.(*SliceV)
		if sb.obj != 0 || len(sb.lenArgs()) > 0 {
			sa, sb = sb, sa
		}
		return x.sliceNil(st, sa), nil
	case *types.Map:
		ma, mb := a.(*MapRef), b.(*MapRef)
		if mb.obj != 0 {
			ma = mb
		}
		if ma.obj == 0 {
			return c.T, nil
		}
		mc := st.obj(x, ma.obj).v.(*MapC)
		if mc.base == nil || len(mc.ents) > 0 {
			return c.F, nil
		}
		return c.Eq(mc.base, c.Lit(sMap, "nil")), nil
	case *types.Signature:
		return c.Eq(x.funcTerm(st, a), x.funcTerm(st, b)), nil
	case *types.Pointer:
		pa, oka := a.(*PtrV)
		pb, okb := b.(*PtrV)
		if oka && okb {
			if pa.obj == 0 || pb.obj == 0 {
				return c.Bool(pa.obj == pb.obj), nil
			}
			if pa.obj == pb.obj && len(pa.path) == 0 && len(pb.path) == 0 {
				return c.T, nil
			}
			ra, rb := st.obj(x, pa.obj).ref, st.obj(x, pb.obj).ref
			if ra != nil && rb != nil {
				return c.Eq(ra, rb), nil
			}
			if pa.obj != pb.obj {
				return c.F, nil
			}
		}
		if oka && pa.obj != 0 && st.obj(x, pa.obj).ref == nil || okb && pb.obj != 0 && st.obj(x, pb.obj).ref == nil {
			o, isT := a.(*Term)
			if !isT {
				o, isT = b.(*Term)
			}
			if isT {
				// a fresh object differs from any earlier reference
				_ = o
				return c.F, nil
			}
			unsup("comparison of pointers")
		}
		return c.Eq(x.ptrTerm(st, a, u.Elem()), x.ptrTerm(st, b, u.Elem())), nil
	case *types.Interface:
		ta, tb := x.scalar(st, a, at), x.scalar(st, b, bt)
		if ta.s == sIface && tb.s == sRT {
			tb = c.App(sIface, "box:reflect.Type", tb)
		} else if tb.s == sIface && ta.s == sRT {
			ta = c.App(sIface, "box:reflect.Type", ta)
		}
		e := c.Eq(ta, tb)
		if ta.s == sIface && !ta.ground() && !tb.ground() && x.mayPanicCmp(ta) && x.mayPanicCmp(tb) {
			pn := c.app(boolSort, "cmp.panics", ta, tb)
			p, ok := x.branch(st, pn)
			if p == nil {
				return e, nil
			}
			var out []outcome
			if ok != nil {
				out = append(out, ret(ok))
			}
			return e, append(out, x.rtPanic(p, "cmp"))
		}
		return e, nil
	case *types.Struct, *types.Array:
		fa, fb := x.flatten(st, a, at), x.flatten(st, b, bt)
		var es []*Term
		for i := range fa {
			es = append(es, c.Eq(fa[i], fb[i]))
		}
		return c.And(es...), nil
	}
	ta, tb := x.scalar(st, a, at), x.scalar(st, b, bt)
	if ta.s.K == kUn && strings.HasPrefix(ta.s.Name, "F") && (ta.s == sF32 || ta.s == sF64) || ta.s == sC64 || ta.s == sC128 {
		if ta.op == oLit && tb.op == oLit {
			return c.Bool(ta == tb), nil
		}
		if ta.id > tb.id {
			ta, tb = tb, ta
		}
		return c.app(boolSort, "f=="+ta.s.Name, ta, tb), nil
	}
	return c.Eq(ta, tb), nil
}

// mayPanicCmp reports whether comparing an interface value may panic, because
// its dynamic type may be uncomparable.
func (x *Exec) mayPanicCmp(t *Term) bool {
	if t.op == oApp && strings.HasPrefix(t.name, "box:") {
		if ty, ok := t.gotyp.(types.Type); ok {
			return !types.Comparable(ty)
		}
		return t.name != "box:reflect.Type"
	}
	return true
}

func (s *SliceV) lenArgs() []*Term {
	if s.obj == 0 && s.len.isConst() {
		return nil
	}
	return []*Term{s.len}
}

func (x *Exec) sliceNil(st *State, s *SliceV) *Term {
	if s.obj == 0 {
		return x.c.T
	}
	o := st.obj(x, s.obj)
	if sv, ok := o.v.(*SeqV); ok && !s.off.isConst() == false && s.off.val == 0 {
		if sv.seq.op == oApp && !strings.HasPrefix(sv.seq.name, "snoc:") && !strings.HasPrefix(sv.seq.name, "seq.make") && !strings.HasPrefix(sv.seq.name, "upd:") {
			return x.c.App(boolSort, "seq.isnil", sv.seq)
		}
	}
	if bv, ok := o.v.(*BufV); ok && bv.arr.op == oApp && bv.arr.name != "str.arr" {
		return x.c.App(boolSort, "buf.isnil", bv.arr, s.len)
	}
	return x.c.F
}

func (x *Exec) typeAssert(st *State, fr *frame, i *ssa.TypeAssert) []outcome {
	c := x.c
	v := x.val(st, fr, i.X)
	if i.X.Type() != nil && scalarSort(i.X.Type()) == sRT {
		unsup("type assertion on reflect.Type")
	}
	t := x.scalar(st, v, i.X.Type())
	if isIface(i.AssertedType) {
		ok := x.implements(st, t, i.AssertedType)
		tt, ff := x.branch(st, ok)
		var out []outcome
		var res Value = t
		if scalarSort(i.AssertedType) == sRT {
			if t.op == oApp && t.name == "box:reflect.Type" {
				res = t.args[0]
			} else {
				res = c.app(sRT, "unbox:reflect.Type", t)
			}
		}
		if tt != nil {
			if i.CommaOk {
				out = append(out, ret(tt, TupleV{res, c.T}))
			} else {
				out = append(out, ret(tt, res))
			}
		}
		if ff != nil {
			if i.CommaOk {
				out = append(out, ret(ff, TupleV{x.zero(ff, i.AssertedType), c.F}))
			} else {
				out = append(out, x.rtPanic(ff, "assert"))
			}
		}
		return out
	}
	id := x.w.types.id(i.AssertedType)
	ok := c.Eq(x.dyntype(t), c.BV(uint64(id), 32))
	tt, ff := x.branch(st, ok)
	var out []outcome
	if tt != nil {
		u := x.unbox(tt, t, i.AssertedType)
		if i.CommaOk {
			out = append(out, ret(tt, TupleV{u, c.T}))
		} else {
			out = append(out, ret(tt, u))
		}
	}
	if ff != nil {
		if i.CommaOk {
			out = append(out, ret(ff, TupleV{x.zero(ff, i.AssertedType), c.F}))
		} else {
			out = append(out, x.rtPanic(ff, "assert"))
		}
	}
	return out
}

// dyntype is the number of the dynamic type of an interface value.
func (x *Exec) dyntype(t *Term) *Term {
	c := x.c
	switch {
	case t.op == oLit && t.name == "nil":
		return c.BV(0, 32)
	case t.op == oApp && strings.HasPrefix(t.name, "box:"):
		if ty, ok := t.gotyp.(types.Type); ok {
			return c.BV(uint64(x.w.types.id(ty)), 32)
		}
	case t.op == oIte:
		return c.Ite(t.args[0], x.dyntype(t.args[1]), x.dyntype(t.args[2]))
	}
	return c.app(sortTypID, "dyntype", t)
}

func (x *Exec) implements(st *State, t *Term, it types.Type) *Term {
	c := x.c
	u := it.Underlying().(*types.Interface)
	if t.op == oLit && t.name == "nil" {
		return c.F
	}
	if u.NumMethods() == 0 {
		return c.Not(c.Eq(t, c.Lit(sIface, "nil")))
	}
	if ty := x.knownType(st, t); ty != nil {
		return c.Bool(types.Implements(ty, u))
	}
	if t.op == oApp && t.name == "box:reflect.Type" {
		return c.Bool(scalarSort(it) == sRT || typeKey(it) == "fmt.Stringer")
	}
	if t.op == oApp && (strings.HasPrefix(t.name, "rt:") || isOwnErr(t)) && typeKey(it) == "error" {
		return c.T
	}
	return c.And(c.Not(c.Eq(t, c.Lit(sIface, "nil"))), c.app(boolSort, "implements:"+typeKey(it), x.dyntype(t)))
}

// knownType returns the dynamic type of an interface value if it is known.
func (x *Exec) knownType(st *State, t *Term) types.Type {
	d := x.decide(st, x.dyntype(t))
	if d.isConst() {
		return x.w.types.typ(int(d.val))
	}
	return nil
}

func isOwnErr(t *Term) bool {
	return t.op == oApp && (strings.HasPrefix(t.name, "own:"))
}

func (x *Exec) next(st *State, fr *frame, i *ssa.Next) []outcome {
	c := x.c
	it := x.val(st, fr, i.Iter).(*IterV)
	if it.m == nil && it.str == nil {
		fr.env[i] = TupleV{c.F, c.Int(0), x.zero(st, types.Typ[types.Int])}
		return nil
	}
	if it.m != nil && it.m.base != nil {
		return x.nextSym(st, fr, i, it)
	}
	if it.m != nil {
		if it.i < len(it.m.ents) {
			e := it.m.ents[it.i]
			n := *it
			n.i++
			fr.env[i.Iter] = &n
			kv := x.unflatten(st, it.m.kt, []*Term{e.k})
			fr.env[i] = TupleV{c.T, kv, e.v}
		} else {
			fr.env[i] = TupleV{c.F, x.zero(st, it.m.kt), x.zero(st, it.m.vt)}
		}
		return nil
	}
	if it.str.op == oLit && it.pos.isConst() {
		s := it.str.name
		p := int(it.pos.val)
		if p >= len(s) {
			fr.env[i] = TupleV{c.F, c.Int(0), c.BV(0, 32)}
			return nil
		}
		for k, r := range s[p:] {
			if k == 0 {
				n := *it
				n.pos = c.Int(int64(p + len(string(r))))
				fr.env[i.Iter] = &n
				fr.env[i] = TupleV{c.T, c.Int(int64(p)), c.BV(uint64(r), 32)}
				return nil
			}
		}
	}
	return x.nextRune(st, fr, i, it)
}

// nextRune steps through a string that is not known.
func (x *Exec) nextRune(st *State, fr *frame, i *ssa.Next, it *IterV) []outcome {
	c := x.c
	n := x.strLen(st, it.str)
	in := c.Slt(it.pos, n)
	rest := x.strSub(st, it.str, it.pos, n)
	r, w := x.decodeRune(st, rest, c.Not(in))
	m := *it
	m.pos = c.Add(it.pos, w)
	fr.env[i.Iter] = &m
	fr.env[i] = TupleV{in, it.pos, r}
	return nil
}

// decodeRune is the first character of a string and its width, unless the
// string is empty.
func (x *Exec) decodeRune(st *State, s, empty *Term) (r, w *Term) {
	c := x.c
	r = c.App(bv32, "unicode/utf8.DecodeRuneInString.0", s)
	w = c.App(bv64, "unicode/utf8.DecodeRuneInString.1", s)
	b := x.strAt(st, s, c.Int(0))
	ascii := c.Ult(b, c.BV(0x80, 8))
	n := x.strLen(st, s)
	x.assume(st, c.Or(empty, c.And(c.Slt(c.Int(0), w), c.Slt(w, c.Int(5)), c.Not(c.Slt(n, w)))))
	x.assume(st, c.Or(empty, c.Not(ascii), c.And(c.Eq(r, c.Zext(b, 32)), c.Eq(w, c.Int(1)))))
	x.assume(st, c.Or(empty, ascii, c.Not(c.Ult(r, c.BV(0x80, 32)))))
	return r, w
}
