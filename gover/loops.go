package main

import (
	"fmt"
	"go/token"
	"go/types"
	"maps"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loopLocal is a variable of the loop that is not part of the shared state.
type loopLocal struct {
	name  string
	t     types.Type
	entry Value
	head  Value
	run   Value      // head of the run in progress
	phi   *ssa.Phi   // or
	iter  *ssa.Range // or
	obj   int
	delta *Term // step of induction variables
	rec   int   // matched local of the record, -1 if none
	pre   int64 // the value is the part of that one before this + iterations
	isPre bool
	isOff bool // the value is that one plus what they differ by at the entry
}

// loopRec records a symbolic loop on a path of the code.
type loopRec struct {
	ord    int
	entry  *State
	head   *State
	it     *Term
	locals []*loopLocal
	where  string
	ind    *inductions
	inv    bool // the conditions required by the contract are invariants
}

// loop runs a loop whose header is the current block of the item.
func (x *Exec) loop(n item, lp *natLoop) ([]item, []outcome) {
	if x.inSpec && n.st.loopN < len(x.trace) {
		if ex, ou, ok := x.syncLoop(n, lp); ok {
			return ex, ou
		}
		if debugSync {
			println("sync failed", n.st.loopN, x.lastMismatch)
		}
	}
	// try to unroll
	var ex []item
	var ou []outcome
	ok := func() (ok bool) {
		m := &loopMode{lp: lp, facts: len(n.st.pc)}
		depth, fd := x.depth, x.flatDepth
		defer func() {
			if r := recover(); r != nil {
				if ns, is := r.(needSym); is && ns.m == m {
					x.depth, x.flatDepth = depth, fd
					ok = false
					return
				}
				panic(r)
			}
		}()
		it := item{n.st.clone(), n.fr.clone()}
		delete(it.fr.iters, lp.header)
		x.phis(it)
		var backs []item
		ex, ou, backs = x.region(it, m)
		if len(backs) > 0 {
			unsup("back edges")
		}
		return true
	}()
	if ok {
		return ex, ou
	}
	return x.symLoop(n, lp)
}

func (x *Exec) headerPhis(lp *natLoop) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range lp.header.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

func (x *Exec) isLocalObj(st *State, id int) bool {
	if id <= x.preMax {
		return false
	}
	if _, ok := x.base[id]; ok {
		return false
	}
	o := st.heap[id]
	if o != nil && o.ref != nil {
		return false
	}
	for _, r := range st.refs {
		if r == id {
			return false
		}
	}
	return true
}

// collectLocals lists the variables of a loop: phis and local objects.
func (x *Exec) collectLocals(it item, lp *natLoop) []*loopLocal {
	var out []*loopLocal
	var iters []*ssa.Range
	for _, p := range x.headerPhis(lp) {
		v := it.fr.env[p]
		out = append(out, &loopLocal{name: p.Comment, t: p.Type(), entry: v, head: v, phi: p, rec: -1})
	}
	for b := range lp.blocks {
		for _, ins := range b.Instrs {
			if nx, ok := ins.(*ssa.Next); ok {
				r := nx.Iter.(*ssa.Range)
				if iv, ok := it.fr.env[r].(*IterV); ok && iv.pos != nil {
					iters = append(iters, r)
				}
			}
		}
	}
	sort.Slice(iters, func(i, j int) bool { return iters[i].Pos() < iters[j].Pos() })
	for _, r := range iters {
		v := it.fr.env[r].(*IterV).pos
		out = append(out, &loopLocal{name: "position", t: types.Typ[types.Int], entry: v, head: v, iter: r, rec: -1})
	}
	ids := sortedKeys(it.st.heap)
	for _, id := range ids {
		if x.isLocalObj(it.st, id) {
			o := it.st.heap[id]
			out = append(out, &loopLocal{t: o.t, entry: o.v, head: o.v, obj: id, rec: -1})
		}
	}
	return out
}

func (l *loopLocal) get(st *State, fr *frame, x *Exec) Value {
	if l.phi != nil {
		return fr.env[l.phi]
	}
	if l.iter != nil {
		return fr.env[l.iter].(*IterV).pos
	}
	return st.obj(x, l.obj).v
}

func (l *loopLocal) set(st *State, fr *frame, x *Exec, v Value) {
	if l.phi != nil {
		fr.env[l.phi] = v
		return
	}
	if l.iter != nil {
		n := *fr.env[l.iter].(*IterV)
		n.pos = v.(*Term)
		fr.env[l.iter] = &n
		return
	}
	st.setObj(x, l.obj, v)
}

// backVal is the value of the local when the back edge is taken.
func (l *loopLocal) backVal(x *Exec, b item) Value {
	if l.phi != nil {
		for i, q := range l.phi.Block().Preds {
			if q == b.fr.prev {
				return x.val(b.st, b.fr, l.phi.Edges[i])
			}
		}
		unsup("back edge")
	}
	if l.iter != nil {
		return b.fr.env[l.iter].(*IterV).pos
	}
	return b.st.obj(x, l.obj).v
}

var debugSync = os.Getenv("GOVER_SYNC") != ""

const maxFix = 12

// inductions are parts of the shared state that change by the same amount in
// every iteration.
type inductions struct {
	it    *Term
	vars  map[string]*inductive
	run   map[string]*Term // values at the head of the run in progress
	isLen map[*Term]bool
}

type inductive struct {
	head  *Term
	delta *Term
	dead  bool
}

// step compares the value of a component at the head and at a back edge. It
// returns the value for the head, nil if nothing is known of it.
func (n *inductions) step(x *Exec, h, b *Term, bst *State, name string) (*Term, bool) {
	c := x.c
	run := n.run[name]
	if run == nil {
		run = h
		n.run[name] = h
	}
	v := n.vars[name]
	if b == run || x.decide(bst, c.Eq(b, run)).isTrue() {
		if v == nil {
			return h, false
		}
	} else if d := x.decide(bst, c.Sub(b, run)); d.isConst() && d.s == bv64 {
		if v == nil && h == run {
			t := c.Add(h, c.Mul(d, n.it))
			n.vars[name] = &inductive{head: t, delta: d}
			return t, true
		}
		if v != nil && !v.dead && v.delta == d && v.head == h {
			return h, false
		}
	}
	n.vars[name] = &inductive{dead: true}
	return nil, true
}

// symLoop verifies one generic iteration.
func (x *Exec) symLoop(n item, lp *natLoop) ([]item, []outcome) {
	c := x.c
	x.phis(n)
	n.fr.pc = 0
	ord := len(n.st.trace)
	pre := fmt.Sprintf("L%d!", ord)
	if x.inSpec {
		pre = fmt.Sprintf("S%d.%d!", n.st.loopN, ord)
	}
	entry := n.st.clone()
	itv := c.App(bv64, pre+"it")
	rec := &loopRec{ord: ord, entry: entry, it: itv, where: x.w.pos(lp.header.Instrs)}
	if x.curCon != nil && len(x.curCon.requires) > 0 {
		rec.inv = true
		for _, r := range x.curCon.requires {
			s := n.st.clone()
			if g := x.decide(s, x.factTerm(s, r, x.curArgs)); !g.isTrue() && !x.prove(s, g) {
				rec.inv = false
			}
		}
	}
	head := item{n.st.clone(), n.fr.clone()}
	head.st.setBound(x, itv, 0, maxLen)
	locals := x.collectLocals(head, lp)
	rec.locals = locals
	ind := &inductions{it: itv, vars: map[string]*inductive{}, isLen: map[*Term]bool{}}
	rec.ind = ind
	for round := 0; ; round++ {
		if round > maxFix {
			unsup("loop at %s does not stabilise", rec.where)
		}
		backs := x.dryRun(head, lp, rec, locals)
		changed := false
		outer := x.ind
		x.ind = ind
		ind.run = map[string]*Term{}
		for _, b := range backs {
			if x.havocShared(head.st, b.st, pre) {
				changed = true
			}
			for k, l := range locals {
				nv, ch := x.generalise(head.st, l, l.backVal(x, b), b.st, itv, fmt.Sprintf("%sv%d", pre, k))
				if ch {
					changed = true
					l.head = nv
				}
			}
		}
		x.ind = outer
		for _, l := range locals {
			l.set(head.st, head.fr, x, l.head)
		}
		if !changed {
			x.untouched(head.st, locals, backs, itv)
			break
		}
	}
	return x.finalRun(head, lp, rec, locals, func(b item) []Value {
		var vals []Value
		for _, l := range locals {
			vals = append(vals, l.backVal(x, b))
		}
		return vals
	})
}

// untouched adds that the element an iteration is about to write is still the
// one the loop began with, for stores whose elements were all the same and
// which the iterations write in turn, each its own element only.
func (x *Exec) untouched(st *State, locals []*loopLocal, backs []item, it *Term) {
	c := x.c
	for _, l := range locals {
		if l.obj == 0 {
			continue
		}
		e, ok1 := l.entry.(*BufV)
		h, ok2 := l.head.(*BufV)
		if !ok1 || !ok2 || e.arr == h.arr || e.arr.op != oConstArr {
			continue
		}
		own := true
		for _, b := range backs {
			v, ok := b.st.obj(x, l.obj).v.(*BufV)
			if !ok {
				own = false
				break
			}
			t := v.arr
			for t != h.arr && t.op == oStore && x.decide(b.st, c.Eq(t.args[1], it)).isTrue() {
				t = t.args[0]
			}
			own = own && t == h.arr
		}
		if own {
			x.assume(st, c.Eq(c.Select(h.arr, it), c.Select(e.arr, it)))
		}
	}
}

func (x *Exec) startHead(head item, lp *natLoop, rec *loopRec, locals []*loopLocal) item {
	it := item{head.st.clone(), head.fr.clone()}
	for _, l := range locals {
		l.run = l.head
		l.set(it.st, it.fr, x, l.head)
	}
	it.fr.block = lp.header
	it.fr.pc = len(x.headerPhis(lp))
	if it.fr.pc == 0 {
		// no phis: do not take the header for a new loop
		it.fr.pc = 0
	}
	x.boundFacts(it, lp, locals)
	if rec.ind != nil {
		for _, v := range rec.ind.vars {
			if !v.dead && rec.ind.isLen[v.head] {
				x.assume(it.st, x.c.Sle(x.c.Int(0), v.head))
			}
		}
	}
	if rec.inv && x.curCon != nil {
		for _, r := range x.curCon.requires {
			x.runFacts(it.st, r, x.curArgs)
		}
	}
	return it
}

func (x *Exec) dryRun(head item, lp *natLoop, rec *loopRec, locals []*loopLocal) []item {
	it := x.startHead(head, lp, rec, locals)
	if !x.inSpec {
		it.st.trace = append(it.st.trace[:len(it.st.trace):len(it.st.trace)], &loopRec{ord: rec.ord, entry: rec.entry, head: it.st.clone(), it: rec.it, locals: locals})
	}
	_, _, backs := x.region(it, &loopMode{lp: lp, sym: true})
	backs, _ = x.threadBacks(backs, lp, locals)
	return backs
}

func (x *Exec) finalRun(head item, lp *natLoop, rec *loopRec, locals []*loopLocal, vals func(b item) []Value) ([]item, []outcome) {
	it := x.startHead(head, lp, rec, locals)
	if !x.inSpec {
		rec.head = it.st.clone()
		it.st.trace = append(it.st.trace[:len(it.st.trace):len(it.st.trace)], rec)
	}
	exits, outs, backs := x.region(it, &loopMode{lp: lp, sym: true})
	backs, more := x.threadBacks(backs, lp, locals)
	exits = append(exits, more...)
	if rec.inv && x.curCon != nil && !x.inSpec {
		for _, b := range backs {
			for _, r := range x.curCon.requires {
				s := b.st.clone()
				x.reqs = append(x.reqs, assertion{s, x.factTerm(s, r, x.curArgs), "the loop preserves " + r.Name(), ""})
			}
		}
	}
	for _, b := range backs {
		o := outcome{kind: oBack, st: b.st, rec: rec, locals: vals(b)}
		for _, l := range locals {
			o.ltypes = append(o.ltypes, l.t)
		}
		outs = append(outs, o)
	}
	return exits, outs
}

// threadBacks follows the ways back to the head of a loop a little further: a
// flag that was set in the iteration may make the head leave the loop at once
// (for i := 0; i < n && v == nil; i++ { v = ... }). Where every way with
// another value than at the head does so, it is an exit of this iteration, and
// the flag is the same in all of them.
func (x *Exec) threadBacks(backs []item, lp *natLoop, locals []*loopLocal) (out, exits []item) {
	for _, b := range backs {
		for _, l := range locals {
			if l.phi == nil || x.inSpec {
				continue
			}
			h, ok := l.run.(*Term)
			if !ok || l.run != l.entry || len(h.args) > 0 || h.s == bv64 {
				continue
			}
			v, ok := l.backVal(x, b).(*Term)
			if !ok || v == h || v.s != h.s {
				continue
			}
			d := x.decide(b.st, x.c.Eq(v, h))
			if d.isTrue() || d.isFalse() {
				// one way only: the flag is tested in the iteration
				if d.isFalse() {
					if ex, ok := x.leaves(item{b.st.clone(), b.fr.clone()}, lp); ok {
						exits = append(exits, ex...)
						b.st = nil
						break
					}
				}
				continue
			}
			ne := b.st.clone()
			if !x.addFact(ne, x.c.Not(d)) {
				continue
			}
			ex, ok := x.leaves(item{ne, b.fr.clone()}, lp)
			if !ok {
				continue
			}
			eq := b.st.clone()
			exits = append(exits, ex...)
			if !x.addFact(eq, d) {
				b.st = nil
				break
			}
			b.st = eq
		}
		if b.st != nil {
			out = append(out, b)
		}
	}
	return
}

// leaves runs the head of a loop, and reports whether it always leaves it,
// without doing anything else.
func (x *Exec) leaves(it item, lp *natLoop) (exits []item, ok bool) {
	work := []item{it}
	for n := 0; len(work) > 0; n++ {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if !lp.blocks[it.fr.block] {
			exits = append(exits, it)
			continue
		}
		if n > 20 || n > 0 && it.fr.block == lp.header {
			return nil, false
		}
		for _, ins := range it.fr.block.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.Jump, *ssa.Field, *ssa.FieldAddr, *ssa.DebugRef, *ssa.Convert, *ssa.ChangeType, *ssa.Extract:
			case *ssa.UnOp:
			case *ssa.Call:
				if b, ok := ins.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return nil, false
				}
			default:
				return nil, false
			}
		}
		x.phis(it)
		next, outs := x.runBlock(it, &loopMode{lp: lp, sym: true})
		if len(outs) > 0 {
			return nil, false
		}
		work = append(work, next...)
	}
	return exits, true
}

// boundFacts adds i <= n for loops counting up to n.
func (x *Exec) boundFacts(it item, lp *natLoop, locals []*loopLocal) {
	c := x.c
	h := lp.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || !isSigned(cmp.X.Type()) {
		return
	}
	var ph *ssa.Phi
	off := int64(0)
	switch v := cmp.X.(type) {
	case *ssa.Phi:
		ph = v
	case *ssa.BinOp:
		p, ok := v.X.(*ssa.Phi)
		k, ok2 := v.Y.(*ssa.Const)
		if !ok || !ok2 || v.Op != token.ADD {
			return
		}
		ph = p
		off = k.Int64()
	default:
		return
	}
	var n *Term
	switch y := cmp.Y.(type) {
	case *ssa.Const:
		n, _ = x.constant(it.st, y).(*Term)
	default:
		if ins, ok := y.(ssa.Instruction); ok && lp.blocks[ins.Block()] {
			return
		}
		n, _ = it.fr.env[y].(*Term)
	}
	if n == nil || n.s != bv64 {
		return
	}
	for _, l := range locals {
		if l.phi == ph && l.delta != nil && l.delta.isConst() && l.delta.val == 1 {
			e := c.Add(l.entry.(*Term), c.Int(off))
			if x.decide(it.st, c.Sle(e, n)).isTrue() {
				x.assume(it.st, c.Sle(c.Add(l.head.(*Term), c.Int(off)), n))
			}
		}
	}
}

// generalise compares the value of a variable at the loop head with the one at
// the back edge, and returns a value for the head that covers both.
func (x *Exec) generalise(st *State, l *loopLocal, back Value, bst *State, it *Term, name string) (Value, bool) {
	c := x.c
	if h, ok := l.head.(*Term); ok && h.s.K == kBV {
		if h.op == oApp && h.name == name {
			return h, false
		}
		run, _ := l.run.(*Term)
		if run == nil {
			run = h
		}
		b := back.(*Term)
		if b != run {
			b = x.decide(bst, b)
		}
		if b != run && x.decide(bst, c.Eq(b, run)).isTrue() {
			b = run
		}
		if b == run && h == run {
			return h, false
		}
		e := l.entry.(*Term)
		d := c.Sub(b, run)
		if raw := c.Sub(back.(*Term), run); !d.isConst() && raw.isConst() {
			d = raw
		}
		if d.isConst() && d.val != 0 && h.s.W >= 8 {
			if l.delta == nil && h == e {
				l.delta = d
				itw := it
				if h.s.W < 64 {
					itw = c.Extract(it, h.s.W-1, 0)
				}
				return c.Add(e, c.Mul(d, itw)), true
			}
			if l.delta == d {
				return h, false
			}
		}
		l.delta = nil
		f := c.App(h.s, name)
		return f, true
	}
	return x.cover(st, l.head, back, bst, l.t, name)
}

func isHavoc(t *Term, name string) bool {
	return t.op == oApp && len(t.args) == 0 && strings.HasPrefix(t.name, name)
}

// cover returns head with the components that differ in back made unknown.
func (x *Exec) cover(st *State, head, back Value, bst *State, t types.Type, name string) (Value, bool) {
	c := x.c
	if s := scalarSort(t); s != nil {
		h, b := x.scalar(st, head, t), x.scalar(bst, back, t)
		if h == b || isHavoc(h, name) || x.decide(bst, c.Eq(h, b)).isTrue() {
			return head, false
		}
		f := c.App(s, name)
		return f, true
	}
	fresh := func() (Value, bool) {
		return x.symValue(st, t, name, func(p string, s *Sort) *Term { return c.App(s, p) }), true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		h, b := head.(*StructV), back.(*StructV)
		n := &StructV{}
		ch := false
		for i := range h.f {
			v, k := x.cover(st, h.f[i], b.f[i], bst, u.Field(i).Type(), name+"."+u.Field(i).Name())
			ch = ch || k
			n.f = append(n.f, v)
		}
		if !ch {
			return head, false
		}
		return n, true
	case *types.Array:
		if hb, ok := head.(*BufV); ok {
			if hb.arr == back.(*BufV).arr || isHavoc(hb.arr, name) {
				return head, false
			}
			return &BufV{c.App(hb.arr.s, name)}, true
		}
		h, b := head.(*ArrV), back.(*ArrV)
		n := &ArrV{}
		ch := false
		for i := range h.e {
			v, k := x.cover(st, h.e[i], b.e[i], bst, u.Elem(), fmt.Sprintf("%s[%d]", name, i))
			ch = ch || k
			n.e = append(n.e, v)
		}
		if !ch {
			return head, false
		}
		return n, true
	case *types.Slice:
		h, hok := head.(*SliceV)
		b, bok := back.(*SliceV)
		if !hok || !bok {
			// contents of a backing store
			return x.coverStore(st, head, back, bst, u, name)
		}
		if h.obj == b.obj {
			n := *h
			ch := false
			for _, p := range []struct {
				h **Term
				b *Term
				n string
			}{{&n.off, b.off, ".off"}, {&n.len, b.len, ".len"}} {
				if isHavoc(*p.h, name) {
					continue
				}
				if x.ind != nil {
					nh, ch2 := x.ind.step(x, *p.h, p.b, bst, name+p.n)
					if nh == *p.h {
						continue
					}
					ch = ch || ch2
					if nh != nil {
						*p.h = nh
						x.ind.isLen[nh] = x.ind.isLen[nh] || p.n == ".len"
						continue
					}
				} else if *p.h == p.b || x.decide(bst, c.Eq(*p.h, p.b)).isTrue() {
					continue
				}
				*p.h = c.App(bv64, name+p.n)
				st.setBound(x, *p.h, 0, maxLen)
				ch = true
			}
			if !ch {
				return head, false
			}
			n.cap = c.App(bv64, name+".cap")
			return &n, true
		}
		// another backing store
		if h.obj != 0 {
			o := st.obj(x, h.obj)
			if sv, ok := o.v.(*SeqV); ok && isHavoc(sv.seq, name) {
				return head, false
			}
			if bv, ok := o.v.(*BufV); ok && isHavoc(bv.arr, name) {
				return head, false
			}
		}
		if bufElem(u.Elem()) == nil && x.decide(bst, c.Eq(x.sliceSeq(st, h), x.sliceSeq(bst, b))).isTrue() {
			return head, false
		}
		return fresh()
	case *types.Pointer:
		if h, ok := head.(*Term); ok && isHavoc(h, name) {
			return head, false
		}
		hp, ok1 := head.(*PtrV)
		bp, ok2 := back.(*PtrV)
		if ok1 && ok2 && hp.obj == bp.obj && len(hp.path) == len(bp.path) {
			same := true
			for i := range hp.path {
				if hp.path[i] != bp.path[i] {
					same = false
				}
			}
			if same {
				return head, false
			}
		}
		if !(ok1 && ok2) && x.ptrTerm(st, head, u.Elem()) == x.ptrTerm(bst, back, u.Elem()) {
			return head, false
		}
		return fresh()
	case *types.Map:
		if hm, ok := head.(*MapC); ok {
			bm := back.(*MapC)
			if hm.base != nil && isHavoc(hm.base, name) || x.mapTerm(st, hm) == x.mapTerm(bst, bm) {
				return head, false
			}
			return &MapC{base: c.App(sMap, name), kt: hm.kt, vt: hm.vt}, true
		}
		if head.(*MapRef).obj == back.(*MapRef).obj {
			return head, false
		}
		return fresh()
	case *types.Signature:
		h, b := x.funcTerm(st, head), x.funcTerm(bst, back)
		if h == b || isHavoc(h, name) {
			return head, false
		}
		if hf, ok := head.(*FuncV); ok {
			if bf, ok := back.(*FuncV); ok && hf.fn == bf.fn && len(hf.bind) == len(bf.bind) {
				return head, false
			}
		}
		return fresh()
	}
	unsup("loop variable of type %s", t)
	return nil, false
}

func (x *Exec) coverStore(st *State, head, back Value, bst *State, u *types.Slice, name string) (Value, bool) {
	c := x.c
	switch h := head.(type) {
	case *BufV:
		b, ok := back.(*BufV)
		if ok && h.arr == b.arr || isHavoc(h.arr, name) {
			return head, false
		}
		return &BufV{c.App(h.arr.s, name)}, true
	case *SeqV:
		b, ok := back.(*SeqV)
		if ok && h.seq == b.seq || isHavoc(h.seq, name) {
			return head, false
		}
		return &SeqV{c.App(sSeq, name)}, true
	case *ArrV:
		b, ok := back.(*ArrV)
		if ok && len(b.e) == len(h.e) {
			n := &ArrV{}
			ch := false
			for i := range h.e {
				v, k := x.cover(st, h.e[i], b.e[i], bst, u.Elem(), fmt.Sprintf("%s[%d]", name, i))
				ch = ch || k
				n.e = append(n.e, v)
			}
			if !ch {
				return head, false
			}
			return n, true
		}
	}
	unsup("contents of a slice in a loop")
	return nil, false
}

// havocShared makes the shared state that the loop changes unknown.
func (x *Exec) havocShared(head, back *State, pre string) bool {
	changed := false
	ids := map[int]bool{}
	for id := range head.heap {
		ids[id] = true
	}
	for id := range back.heap {
		if _, ok := x.base[id]; ok {
			ids[id] = true
		}
	}
	for _, id := range sortedKeys(ids) {
		if x.isLocalObj(head, id) {
			continue
		}
		ho, bo := head.obj(x, id), back.obj(x, id)
		if ho == bo {
			continue
		}
		nv, ch := x.cover(head, ho.v, bo.v, back, ho.t, fmt.Sprintf("%so%d", pre, id))
		if ch {
			changed = true
			head.setObj(x, id, nv)
		}
	}
	if head.rh != back.rh && !isHavoc(head.rh, pre+"rh") {
		head.rh = x.c.App(sRH, pre+"rh")
		changed = true
	}
	for k, v := range back.gh {
		if head.gh[k] != v {
			unsup("lock taken in loop")
		}
	}
	// objects first seen through references inside the body and changed there
	for term, id := range back.refs {
		if _, ok := head.refs[term]; !ok && back.heap[id] != nil && back.heap[id].ref == nil {
			unsup("loop writes through a pointer that is not known before the loop")
		}
	}
	return changed
}

func sortedKeys[V any](m map[int]V) []int {
	out := make([]int, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// syncLoop runs a loop of the specification in step with the loop of the code.
func (x *Exec) syncLoop(n item, lp *natLoop) ([]item, []outcome, bool) {
	c := x.c
	rec := x.trace[n.st.loopN]
	st := n.st.clone()
	ea, eb := rec.entry, st
	if x.curCon != nil {
		ea, eb = x.dropScratch(ea, x.curCon, x.curArgs), x.dropScratch(eb, x.curCon, x.curArgs)
	}
	goals := x.sharedGoals(ea, eb, nil)
	if g := x.decide(st, c.And(goals...)); !g.isTrue() {
		if !x.prove(st, g) {
			x.lastMismatch = fmt.Sprintf("state at loop %d: %s", rec.ord, x.mismatch(st, goals))
			return nil, nil, false
		}
	}
	st.loopN++
	head := item{st, n.fr.clone()}
	x.phis(head)
	head.fr.pc = 0
	locals := x.collectLocals(head, lp)
	x.copyShared(rec.head, st)
	st.setBound(x, rec.it, 0, maxLen)
	used := map[int]bool{}
	fail := false
	// what an iteration changes is found out without the facts that hold for
	// the iteration at hand: earlier ones may have gone other ways
	weak := &State{}
	weak.facts(rec.head)
	weak.bnd = maps.Clone(weak.bnd)
	weak.setBound(x, rec.it, 0, maxLen)
	for _, t := range n.st.pc[min(x.specBase, len(n.st.pc)):] {
		if !x.assume(weak, t) {
			break
		}
	}
	key := x.syncKey(n, lp, rec)
	if plan, ok := x.plans[key]; ok {
		for i, l := range locals {
			p := plan[i]
			l.delta = p.delta
			if p.rec >= 0 {
				l.rec = p.rec
				x.noteMatch(rec, locals, i)
				if p.isPre {
					l.isPre, l.pre = true, p.pre
					l.head = x.prefixHead(head.st, rec, l)
				} else if p.isOff {
					l.isOff = true
					l.head = c.Add(rec.locals[l.rec].head.(*Term), x.offset(rec, l))
				} else {
					l.head = x.adopt(head.st, rec.head, rec.locals[l.rec].head)
				}
			} else if l.delta != nil {
				l.head = p.head
			}
			l.set(head.st, head.fr, x, l.head)
		}
	}
	for round := 0; x.plans[key] == nil && !fail; round++ {
		if round > maxFix {
			fail = true
			break
		}
		dry := item{head.st.clone(), head.fr.clone()}
		dry.st.facts(weak)
		backs := x.dryRun(dry, lp, rec, locals)
		changed := false
		for _, b := range backs {
			for i, l := range locals {
				if l.rec >= 0 {
					continue
				}
				back := l.backVal(x, b)
				nv, ch := x.generalise(head.st, l, back, b.st, rec.it, "?")
				if !ch {
					continue
				}
				changed = true
				if l.delta != nil {
					l.head = nv
					continue
				}
				// follow a variable of the code
				k := x.matchLocal(head.st, rec, l, used)
				if k < 0 {
					if k = x.matchPrefix(head.st, rec, l, b.st, back, used); k >= 0 {
						used[k] = true
						l.rec = k
						l.head = x.prefixHead(head.st, rec, l)
						continue
					}
					if k = x.matchOffset(rec, l, used); k >= 0 {
						used[k] = true
						l.rec, l.isOff = k, true
						l.head = c.Add(rec.locals[k].head.(*Term), x.offset(rec, l))
						continue
					}
					if debugSync {
						fmt.Println("local", l.name, l.t, x.show(head.st, l.entry, l.t), "->", x.show(b.st, back, l.t))
						for _, r := range rec.locals {
							fmt.Println("   code:", r.name, r.t, x.show(rec.entry, r.entry, r.t), "->", x.show(rec.head, r.head, r.t), "varies", x.variesAtHead(rec, r))
						}
					}
					x.lastMismatch = fmt.Sprintf("loop %d: no counterpart of variable %s of the specification", rec.ord, l.name)
					fail = true
					break
				}
				used[k] = true
				l.rec = k
				x.noteMatch(rec, locals, i)
				l.head = x.adopt(head.st, rec.head, rec.locals[k].head)
			}
			if fail {
				break
			}
		}
		for _, l := range locals {
			l.set(head.st, head.fr, x, l.head)
		}
		if !changed {
			break
		}
	}
	if fail {
		return nil, nil, false
	}
	if x.plans[key] == nil {
		plan := []loopLocal{}
		for _, l := range locals {
			plan = append(plan, loopLocal{rec: l.rec, delta: l.delta, head: l.head, isPre: l.isPre, pre: l.pre, isOff: l.isOff})
		}
		x.plans[key] = plan
	}
	exits, outs := x.finalRun(head, lp, rec, locals, func(b item) []Value {
		vals := make([]Value, len(rec.locals))
		for _, l := range locals {
			if l.rec >= 0 {
				vals[l.rec] = l.backVal(x, b)
				if l.isOff {
					vals[l.rec] = c.Sub(vals[l.rec].(*Term), x.offset(rec, l))
				}
				if l.isPre {
					vals[l.rec] = prefixV{vals[l.rec].(*SliceV), c.Add(c.Int(l.pre+1), rec.it)}
				}
			}
		}
		return vals
	})
	return exits, outs, true
}

// noteMatch notes which variable of the code a variable of the specification
// follows.
func (x *Exec) noteMatch(rec *loopRec, locals []*loopLocal, i int) {
	if x.matched == nil {
		return
	}
	l := locals[i]
	id := ""
	if l.phi != nil {
		id = fmt.Sprintf("%p", l.phi)
	} else if l.iter != nil {
		id = fmt.Sprintf("%p", l.iter)
	} else {
		n := 0
		for _, m := range locals[:i] {
			if m.obj != 0 && types.Identical(m.t, l.t) {
				n++
			}
		}
		id = fmt.Sprintf("obj%d", n)
	}
	x.matched[fmt.Sprintf("%p %s %s", rec, id, l.t)] = l.rec
}

// syncKey describes what the plan for a loop of the specification, that is how
// its variables follow those of the code, depends on: it is made without the
// facts of the path at hand.
func (x *Exec) syncKey(n item, lp *natLoop, rec *loopRec) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p %p %d|", rec, lp.header, x.perm)
	for _, t := range n.st.pc[min(x.specBase, len(n.st.pc)):] {
		fmt.Fprintf(&b, "%p,", t)
	}
	ids := map[int]int{}
	var objs []int
	for _, id := range sortedKeys(n.st.heap) {
		if x.isLocalObj(n.st, id) {
			ids[id] = len(ids) + 1
			objs = append(objs, id)
		}
	}
	var val func(v Value)
	val = func(v Value) {
		switch v := v.(type) {
		case *Term:
			fmt.Fprintf(&b, "%p", v)
		case *StructV:
			for _, f := range v.f {
				val(f)
				b.WriteByte(',')
			}
		case *ArrV:
			for _, f := range v.e {
				val(f)
				b.WriteByte(',')
			}
		case TupleV:
			for _, f := range v {
				val(f)
				b.WriteByte(',')
			}
		case *BufV:
			val(v.arr)
		case *SeqV:
			val(v.seq)
		case *SliceV:
			if v.obj == 0 {
				b.WriteString("nil")
				return
			}
			obj(&b, ids, v.obj)
			val(v.off)
			b.WriteByte(',')
			val(v.len)
		case *PtrV:
			obj(&b, ids, v.obj)
			for _, p := range v.path {
				fmt.Fprintf(&b, ".%d.%p", p.f, p.idx)
			}
		case *IfaceV:
			fmt.Fprintf(&b, "(%s)", v.t)
			val(v.v)
		case *MapRef:
			obj(&b, ids, v.obj)
		case *MapC:
			fmt.Fprintf(&b, "map%p", v.base)
			for _, e := range v.ents {
				fmt.Fprintf(&b, "[%p %t", e.k, e.deleted)
				val(e.v)
				b.WriteByte(']')
			}
		case *FuncV:
			fmt.Fprintf(&b, "%v", v.fn)
			for _, f := range v.bind {
				val(f)
			}
		default:
			fmt.Fprintf(&b, "%p", v)
		}
	}
	for _, id := range objs {
		b.WriteByte(';')
		val(n.st.heap[id].v)
	}
	var names []string
	vs := map[string]Value{}
	for k, v := range n.fr.env {
		nm := fmt.Sprintf("%s.%p", k.Name(), k)
		names = append(names, nm)
		vs[nm] = v
	}
	sort.Strings(names)
	for _, nm := range names {
		b.WriteByte('\n')
		b.WriteString(nm)
		b.WriteByte('=')
		val(vs[nm])
	}
	return b.String()
}

func obj(b *strings.Builder, ids map[int]int, id int) {
	if n, ok := ids[id]; ok {
		fmt.Fprintf(b, "#%d", n)
	} else {
		fmt.Fprintf(b, "@%d", id)
	}
}

// adopt brings a value of another state into a state.
func (x *Exec) adopt(st, from *State, v Value) Value {
	switch v := v.(type) {
	case *SliceV:
		if v.obj != 0 && st.heap[v.obj] == nil && x.base[v.obj] == nil {
			st.heap[v.obj] = from.obj(x, v.obj)
		}
	case *PtrV:
		if v.obj != 0 && st.heap[v.obj] == nil && x.base[v.obj] == nil {
			st.heap[v.obj] = from.obj(x, v.obj)
		}
	case *MapRef:
		if v.obj != 0 && st.heap[v.obj] == nil && x.base[v.obj] == nil {
			st.heap[v.obj] = from.obj(x, v.obj)
		}
	case *StructV:
		for _, f := range v.f {
			x.adopt(st, from, f)
		}
	}
	return v
}

func (x *Exec) matchLocal(st *State, rec *loopRec, l *loopLocal, used map[int]bool) int {
	n := 0
	for k, r := range rec.locals {
		if used[k] || !types.Identical(r.t, l.t) || !x.variesAtHead(rec, r) {
			continue
		}
		var goals []*Term
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(unsupported); !ok {
						panic(e)
					}
					goals = []*Term{x.c.F}
				}
			}()
			goals = x.contentGoals(rec.entry, r.entry, st, l.entry, l.t)
		}()
		if x.decide(st, x.c.And(goals...)).isTrue() {
			if n == x.perm {
				return k
			}
			n++
		}
	}
	if n > 0 {
		// fewer candidates than the permutation asks for
		for k, r := range rec.locals {
			if used[k] || !types.Identical(r.t, l.t) || !x.variesAtHead(rec, r) {
				continue
			}
			goals := x.contentGoals(rec.entry, r.entry, st, l.entry, l.t)
			if x.decide(st, x.c.And(goals...)).isTrue() {
				return k
			}
		}
	}
	return -1
}

// prefixV is a slice that has to be the first n elements of another.
type prefixV struct {
	s *SliceV
	n *Term
}

// matchPrefix looks for a store that the code fills one element after the
// other, for a slice that the specification appends to.
func (x *Exec) matchPrefix(st *State, rec *loopRec, l *loopLocal, bst *State, back Value, used map[int]bool) int {
	e, ok1 := l.entry.(*SliceV)
	r, ok2 := l.run.(*SliceV)
	b, ok3 := back.(*SliceV)
	if !ok1 || !ok2 || !ok3 {
		return -1
	}
	n := x.decide(st, e.len)
	if !n.isConst() || !x.decide(bst, x.c.Eq(b.len, x.c.Add(r.len, x.c.Int(1)))).isTrue() {
		return -1
	}
	for k, o := range rec.locals {
		if used[k] || o.obj == 0 || !types.Identical(o.t, l.t) || !x.variesAtHead(rec, o) {
			continue
		}
		if _, ok := o.head.(*BufV); ok && n.val == 0 {
			l.isPre = true
			return k
		}
		oe, ok1 := o.entry.(*SeqV)
		_, ok2 := o.head.(*SeqV)
		if !ok1 || !ok2 {
			continue
		}
		if n.val == 0 || x.decide(st, x.c.Eq(x.sliceSeq(st, e), x.seqSub(st, oe.seq, x.c.Int(0), n))).isTrue() {
			l.isPre, l.pre = true, int64(n.val)
			return k
		}
	}
	return -1
}

// matchOffset looks for a number that differs from one of the specification by
// what they differ by before the loop: a sum that starts elsewhere.
func (x *Exec) matchOffset(rec *loopRec, l *loopLocal, used map[int]bool) int {
	e, ok := l.entry.(*Term)
	if !ok || e.s.K != kBV || l.iter != nil {
		return -1
	}
	n, last := 0, -1
	for k, o := range rec.locals {
		if used[k] || !types.Identical(o.t, l.t) || !x.variesAtHead(rec, o) {
			continue
		}
		if oe, ok := o.entry.(*Term); !ok || oe.s != e.s {
			continue
		}
		if last = k; n == x.perm {
			break
		}
		n++
	}
	return last
}

func (x *Exec) offset(rec *loopRec, l *loopLocal) *Term {
	return x.c.Sub(l.entry.(*Term), rec.locals[l.rec].entry.(*Term))
}

// prefixHead is the value of such a slice at the head of the loop.
func (x *Exec) prefixHead(st *State, rec *loopRec, l *loopLocal) Value {
	c := x.c
	et := l.entry.(*SliceV).et
	n := c.Add(c.Int(l.pre), rec.it)
	if b, ok := rec.locals[l.rec].head.(*BufV); ok {
		return &SliceV{obj: x.newObj(st, l.t, b), off: c.Int(0), len: n, cap: n, et: et}
	}
	seq := x.seqSub(st, rec.locals[l.rec].head.(*SeqV).seq, c.Int(0), n)
	return &SliceV{obj: x.newObj(st, l.t, &SeqV{seq}), off: c.Int(0), len: n, cap: n, et: et}
}

func (x *Exec) variesAtHead(rec *loopRec, l *loopLocal) bool {
	return l.delta == nil && !sameVal(l.entry, l.head)
}

func sameVal(a, b Value) bool {
	if ta, ok := a.(*Term); ok {
		return ta == b
	}
	return a == b
}

// copyShared copies the shared objects of one state into another.
func (x *Exec) copyShared(from, to *State) {
	for id, o := range from.heap {
		if !x.isLocalObj(from, id) {
			to.heap[id] = o
			continue
		}
	}
	// locals reachable from the shared state
	for id, o := range from.heap {
		if to.heap[id] == nil {
			to.heap[id] = o
		}
	}
	for t, id := range from.refs {
		if _, ok := to.refs[t]; !ok {
			to.refs[t] = id
		}
	}
	to.rh = from.rh
	for t, b := range from.bnd {
		if o, ok := to.bnd[t]; ok {
			b[0], b[1] = max(b[0], o[0]), min(b[1], o[1])
		}
		to.bnd[t] = b
	}
	maps.Copy(to.gh, from.gh)
}

func (x *Exec) show(st *State, v Value, t types.Type) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprint("?", e)
		}
	}()
	return fmt.Sprint(x.flattenContent(st, v, t))
}
