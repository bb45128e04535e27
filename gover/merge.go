package main

import (
	"go/token"
	"maps"
	"path/filepath"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mergeIf joins the branches of a condition that only choose values. The
// contract asks for it.
func (x *Exec) mergeIf(it item, m *loopMode, cond *Term) (item, bool) {
	if x.curCon == nil || !x.curCon.merge {
		return it, false
	}
	b := it.fr.block
	lps := x.loopsOf(it.fr.fn)
	// candidates for the block where the branches meet
	var cands []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 && len(seen) < 40 {
		k := work[0]
		work = work[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(k.Preds) > 1 {
			cands = append(cands, k)
			continue
		}
		if pureBlock(k) {
			work = append(work, k.Succs...)
		}
	}
	type edge struct {
		pred *ssa.BasicBlock
		cond *Term
	}
next:
	for _, j := range cands {
		if lps[j] != nil || m != nil && !m.lp.blocks[j] || len(j.Instrs) == 0 {
			continue
		}
		fr := it.fr.clone()
		var edges []edge
		var walk func(k, pred *ssa.BasicBlock, c *Term) bool
		walk = func(k, pred *ssa.BasicBlock, c *Term) bool {
			if k == j {
				edges = append(edges, edge{pred, c})
				return true
			}
			if len(k.Preds) != 1 || !pureBlock(k) || lps[k] != nil {
				return false
			}
			for _, ins := range k.Instrs[:len(k.Instrs)-1] {
				if os := x.instr(it.st, fr, ins); os != nil {
					if len(os) != 1 || os[0].kind != oRet || os[0].st != it.st {
						return false
					}
					x.setResult(fr, ins, os[0].vals)
				}
			}
			switch t := k.Instrs[len(k.Instrs)-1].(type) {
			case *ssa.Jump:
				return walk(k.Succs[0], k, c)
			case *ssa.If:
				d := x.decide(it.st, x.val(it.st, fr, t.Cond).(*Term))
				return walk(k.Succs[0], k, x.c.And(c, d)) && walk(k.Succs[1], k, x.c.And(c, x.c.Not(d)))
			}
			return false
		}
		if !walk(b.Succs[0], b, cond) || !walk(b.Succs[1], b, x.c.Not(cond)) {
			continue
		}
		n := 0
		vals := map[*ssa.Phi]Value{}
		for _, ins := range j.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			if scalarSort(p.Type()) == nil {
				continue next
			}
			var v *Term
			for i := len(edges) - 1; i >= 0; i-- {
				k := -1
				for q, pr := range j.Preds {
					if pr == edges[i].pred {
						k = q
					}
				}
				t := x.scalar(it.st, x.val(it.st, fr, p.Edges[k]), p.Type())
				if v == nil {
					v = t
				} else {
					v = x.c.Ite(edges[i].cond, t, v)
				}
			}
			vals[p] = x.decide(it.st, v)
		}
		for p, v := range vals {
			fr.env[p] = v
		}
		fr.prev, fr.block, fr.pc = edges[0].pred, j, n
		return item{it.st, fr}, true
	}
	return it, false
}

// joinIf runs both branches of a condition up to the block where they meet,
// and joins them: what they wrote is a choice between values. The ways that
// do not reach the block are outcomes.
func (x *Exec) joinIf(it item, m *loopMode, cond *Term) (res item, outs []outcome, ok bool) {
	if x.curCon == nil || !x.curCon.merge || x.joining > 0 {
		return it, nil, false
	}
	b := it.fr.block
	lps := x.loopsOf(it.fr.fn)
	j := meet(b)
	if j == nil || lps[j] != nil || m != nil && !m.lp.blocks[j] {
		return it, nil, false
	}
	x.joining++
	defer func() { x.joining-- }()
	base := it.st.clone()
	heap := maps.Clone(it.st.heap)
	t, f := x.branch(it.st.clone(), cond)
	var work, ends []item
	if f != nil {
		work = append(work, jump(item{f, it.fr.clone()}, 1))
	}
	if t != nil {
		work = append(work, jump(item{t, it.fr.clone()}, 0))
	}
	for n := 0; len(work) > 0; n++ {
		k := work[len(work)-1]
		work = work[:len(work)-1]
		if k.fr.pc == 0 && k.fr.block == j {
			ends = append(ends, k)
			continue
		}
		if n > 12 || k.fr.pc == 0 && (lps[k.fr.block] != nil || m != nil && !m.lp.blocks[k.fr.block]) {
			return it, nil, false
		}
		next, os := x.runBlock(k, m)
		outs = append(outs, os...)
		for i := len(next) - 1; i >= 0; i-- {
			work = append(work, next[i])
		}
	}
	if len(ends) < 2 || len(ends) > 6 {
		return it, nil, false
	}
	st := base
	sts := make([]*State, len(ends))
	for i, e := range ends {
		sts[i] = e.st
	}
	conds, ok := x.joinFacts(st, sts)
	if !ok {
		return it, nil, false
	}
	for _, e := range ends {
		if !x.joinable(st, e.st, heap) || len(e.fr.defers) != len(it.fr.defers) {
			return it, nil, false
		}
	}
	ids := map[int]bool{}
	for _, e := range ends {
		for id, o := range e.st.heap {
			if o != heap[id] {
				ids[id] = true
			}
		}
	}
	pick := func(get func(e item) Value) (Value, bool) {
		v := get(ends[len(ends)-1])
		for i := len(ends) - 2; i >= 0; i-- {
			var ok bool
			if v, ok = x.choose(st, conds[i], get(ends[i]), v); !ok {
				return nil, false
			}
		}
		return v, true
	}
	for _, id := range sortedKeys(ids) {
		v, ok := pick(func(e item) Value { return e.st.obj(x, id).v })
		if !ok {
			return it, nil, false
		}
		st.setObj(x, id, v)
	}
	fr := it.fr.clone()
	n := 0
	phis := map[*ssa.Phi]Value{}
	for _, ins := range j.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		v, ok := pick(func(e item) Value {
			for q, pr := range j.Preds {
				if pr == e.fr.prev {
					return x.val(e.st, e.fr, p.Edges[q])
				}
			}
			return nil
		})
		if !ok {
			return it, nil, false
		}
		phis[p] = v
	}
	for p, v := range phis {
		fr.env[p] = v
	}
	fr.prev, fr.block, fr.pc = ends[0].fr.prev, j, n
	return item{st, fr}, outs, true
}

// joinFacts has st assume what holds in all of the states that follow it, and
// returns the conditions each of them is under.
func (x *Exec) joinFacts(st *State, ends []*State) ([]*Term, bool) {
	n0 := len(st.pc)
	count := map[*Term]int{}
	for _, e := range ends {
		for _, t := range e.pc[n0:] {
			count[t]++
		}
	}
	conds := make([]*Term, len(ends))
	for i, e := range ends {
		var own []*Term
		for _, t := range e.pc[n0:] {
			if count[t] < len(ends) {
				own = append(own, t)
			}
		}
		conds[i] = x.c.And(own...)
	}
	for _, t := range ends[0].pc[n0:] {
		if count[t] == len(ends) && !x.assume(st, t) {
			return nil, false
		}
	}
	return conds, x.assume(st, x.c.Or(conds...))
}

// joinable tells whether e, a state that follows st, differs from it at most
// in facts and in what the objects that st has hold.
func (x *Exec) joinable(st, e *State, heap map[int]*Obj) bool {
	if !maps.Equal(e.refs, st.refs) || e.rh != st.rh || !maps.Equal(e.gh, st.gh) || len(e.trace) != len(st.trace) || len(e.out) != len(st.out) || e.loopN != st.loopN || len(e.panics) != len(st.panics) {
		return false
	}
	for id := range e.heap {
		if heap[id] == nil && x.base[id] == nil {
			return false
		}
	}
	return true
}

// joinRets joins the ways through a function that only choose its results.
// st is the state it was called in.
func (x *Exec) joinRets(st *State, fn *ssa.Function, outs []outcome) []outcome {
	if len(outs) < 2 || len(outs) > 6 {
		return outs
	}
	sts := make([]*State, len(outs))
	for i, o := range outs {
		if o.kind != oRet || !x.joinable(st, o.st, st.heap) {
			return outs
		}
		for id, ob := range o.st.heap {
			if ob != st.heap[id] {
				return outs
			}
		}
		sts[i] = o.st
	}
	conds, ok := x.joinFacts(st, sts)
	if !ok {
		return outs
	}
	vals := slices.Clone(outs[len(outs)-1].vals)
	for i := len(outs) - 2; i >= 0; i-- {
		for k := range vals {
			if vals[k], ok = x.choose(st, conds[i], outs[i].vals[k], vals[k]); !ok {
				return outs
			}
		}
	}
	o := outs[0]
	o.st, o.vals = st, vals
	return []outcome{o}
}

// joins tells whether the results of a function can be joined: they are
// scalars, and it returns at several places.
func joins(fn *ssa.Function) bool {
	rs, n := fn.Signature.Results(), 0
	for i := 0; i < rs.Len(); i++ {
		if s := scalarSort(rs.At(i).Type()); s == nil || s == sIface {
			return false
		}
	}
	for _, b := range fn.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			n++
		}
	}
	return rs.Len() > 0 && n > 1 && len(fn.Blocks) <= 12
}

// ofCode tells whether a function is part of the code, not of a contract.
func (x *Exec) ofCode(fn *ssa.Function) bool {
	return !strings.HasPrefix(filepath.Base(x.w.prog.Fset.Position(fn.Pos()).Filename), "zz_verif_")
}

// meet is the first block that all ways from b lead to, nil if there is none
// nearby.
func meet(b *ssa.BasicBlock) *ssa.BasicBlock {
	reach := func(s *ssa.BasicBlock) []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		work := []*ssa.BasicBlock{s}
		for len(work) > 0 && len(out) < 12 {
			k := work[0]
			work = work[1:]
			if seen[k] {
				continue
			}
			seen[k] = true
			out = append(out, k)
			work = append(work, k.Succs...)
		}
		return out
	}
	r1 := reach(b.Succs[1])
	for _, k := range reach(b.Succs[0]) {
		if len(k.Preds) > 1 && slices.Contains(r1, k) {
			return k
		}
	}
	return nil
}

// choose is a where the condition holds, and b elsewhere.
func (x *Exec) choose(st *State, cond *Term, a, b Value) (Value, bool) {
	if a == nil || b == nil {
		return nil, false
	}
	switch a := a.(type) {
	case *Term:
		t, ok := b.(*Term)
		if !ok || a.s != t.s {
			return nil, false
		}
		return x.chooseTerm(st, cond, a, t), true
	case *StructV:
		t, ok := b.(*StructV)
		if !ok || len(a.f) != len(t.f) {
			return nil, false
		}
		n := &StructV{}
		for i := range a.f {
			v, ok := x.choose(st, cond, a.f[i], t.f[i])
			if !ok {
				return nil, false
			}
			n.f = append(n.f, v)
		}
		return n, true
	case *ArrV:
		t, ok := b.(*ArrV)
		if !ok || len(a.e) != len(t.e) {
			return nil, false
		}
		n := &ArrV{}
		for i := range a.e {
			v, ok := x.choose(st, cond, a.e[i], t.e[i])
			if !ok {
				return nil, false
			}
			n.e = append(n.e, v)
		}
		return n, true
	case *BufV:
		t, ok := b.(*BufV)
		if !ok {
			return nil, false
		}
		return &BufV{x.chooseTerm(st, cond, a.arr, t.arr)}, true
	case *SliceV:
		t, ok := b.(*SliceV)
		if !ok || a.obj != t.obj {
			return nil, false
		}
		n := *a
		n.off, n.len, n.cap = x.chooseTerm(st, cond, a.off, t.off), x.chooseTerm(st, cond, a.len, t.len), x.chooseTerm(st, cond, a.cap, t.cap)
		return &n, true
	}
	return a, a == b || sameVal(a, b)
}

func (x *Exec) chooseTerm(st *State, cond, a, b *Term) *Term {
	c := x.c
	if a == b || x.decide(st, c.Eq(a, b)).isTrue() {
		return a
	}
	// the same element written
	if a.op == oStore && b.op == oStore && a.args[0] == b.args[0] && a.args[1] == b.args[1] {
		return c.Store(a.args[0], a.args[1], x.chooseTerm(st, cond, a.args[2], b.args[2]))
	}
	if a.op == oStore && a.args[0] == b {
		return c.Store(b, a.args[1], x.chooseTerm(st, cond, a.args[2], c.Select(b, a.args[1])))
	}
	if b.op == oStore && b.args[0] == a {
		return c.Store(a, b.args[1], x.chooseTerm(st, cond, c.Select(a, b.args[1]), b.args[2]))
	}
	if a.s.K == kBV && a.s.W <= 8 {
		// bit by bit
		var bits []*Term
		for i := a.s.W - 1; i >= 0; i-- {
			bits = append(bits, c.chooseBit(cond, c.Extract(a, i, i), c.Extract(b, i, i)))
		}
		return c.Concat(bits...)
	}
	return c.Ite(cond, a, b)
}

func (c *Ctx) chooseBit(cond, p, q *Term) *Term {
	if p == q {
		return p
	}
	for cond.op == oNot {
		cond, p, q = cond.args[0], q, p
	}
	if cond.op == oEq && cond.args[0].s.K == kBV && cond.args[0].s.W == 1 {
		x, k := cond.args[0], cond.args[1]
		if x.isConst() {
			x, k = k, x
		}
		if k.isConst() {
			if k.val == 0 {
				p, q = q, p
			}
			// p where x is set, q elsewhere
			nx := c.BNot(x)
			return c.BOr(c.BAnd(x, p), c.BAnd(nx, q))
		}
	}
	return c.Ite(cond, p, q)
}

// pureBlock tells whether a block computes values without effects or panics.
func pureBlock(b *ssa.BasicBlock) bool {
	for _, ins := range b.Instrs[:len(b.Instrs)-1] {
		switch i := ins.(type) {
		case *ssa.BinOp:
			if i.Op == token.QUO || i.Op == token.REM {
				return false
			}
			if s := scalarSort(i.X.Type()); s == nil || s == sIface {
				return false
			}
		case *ssa.DebugRef:
		case *ssa.UnOp:
			if i.Op == token.MUL {
				return false
			}
		case *ssa.Field:
		default:
			return false
		}
	}
	return true
}
