package main

import (
	"go/types"
	"maps"
	"math"
	"strings"
)

type panicRec struct {
	pv        *Term
	recovered bool
	// marks the record as belonging to a specification's own panic
	own bool
}

// State is the state of one path.
type State struct {
	heap   map[int]*Obj
	refs   map[int]int // symbolic references to objects
	pc     []*Term
	lits   map[int]bool
	known  map[int]*Term
	bnd    map[int][2]int64
	rh     *Term
	rw     map[int]*Term
	gh     map[string]*Term
	labels map[string]bool
	only   string
	panics []*panicRec
	trace  []*loopRec // symbolic loops passed
	loopN  int        // loops of the trace followed by the specification
	hit    bool       // the path found an answer in a cache
	out    []given    // what caches held when their locks were given back
}

// given is a cache others can read from a state on.
type given struct {
	st *State
	id int
}

func (st *State) clone() *State {
	n := *st
	n.heap = maps.Clone(st.heap)
	n.refs = maps.Clone(st.refs)
	n.pc = st.pc[:len(st.pc):len(st.pc)]
	n.lits = maps.Clone(st.lits)
	n.known = maps.Clone(st.known)
	n.bnd = maps.Clone(st.bnd)
	n.rw = maps.Clone(st.rw)
	n.gh = maps.Clone(st.gh)
	n.labels = maps.Clone(st.labels)
	n.trace = st.trace[:len(st.trace):len(st.trace)]
	n.out = st.out[:len(st.out):len(st.out)]
	n.panics = append([]*panicRec(nil), st.panics...)
	for i, p := range n.panics {
		q := *p
		n.panics[i] = &q
	}
	return &n
}

// facts copies the facts known in from into st.
func (st *State) facts(from *State) {
	st.pc = from.pc[:len(from.pc):len(from.pc)]
	st.lits = maps.Clone(from.lits)
	st.known = maps.Clone(from.known)
	st.bnd = maps.Clone(from.bnd)
	st.rw = maps.Clone(from.rw)
}

// simp rewrites a term with the known facts.
func (x *Exec) decide(st *State, t *Term) *Term {
	if t.ground() {
		return t
	}
	if t.op == oApp && len(t.args) == 0 {
		if k := st.known[t.id]; k != nil {
			return k
		}
		if v, ok := st.lits[t.id]; ok {
			return x.c.Bool(v)
		}
		return t
	}
	r := x.c.Subst(t, func(t *Term) *Term {
		if k := st.known[t.id]; k != nil {
			return k
		}
		if v, ok := st.lits[t.id]; ok {
			return x.c.Bool(v)
		}
		if t.op == oSlt || t.op == oUlt {
			return x.cmp(st, t)
		}
		if t.op == oEq && t.args[0].s.K == kBV && t.args[0].s.W == 64 {
			if lo, hi, ok := x.interval(st, x.c.Sub(t.args[0], t.args[1])); ok && (lo > 0 || hi < 0) {
				return x.c.F
			} else if ok && lo == 0 && hi == 0 {
				return x.c.T
			}
		}
		return nil
	}, map[int]*Term{})
	return r
}

// cmp decides a comparison with the known bounds.
func (x *Exec) cmp(st *State, t *Term) *Term {
	a, b := t.args[0], t.args[1]
	if a.s.W != 64 {
		return nil
	}
	if t.op == oUlt {
		// decided as signed when both sides are known to be non-negative
		alo, _, aok := x.interval(st, a)
		blo, bhi, bok := x.interval(st, b)
		if !aok || !bok || blo < 0 {
			_ = bhi
			return nil
		}
		if alo < 0 {
			if _, ahi, _ := x.interval(st, a); ahi < 0 {
				return x.c.F // huge unsigned value
			}
			return nil
		}
	}
	if _, _, ok := x.interval(st, a); !ok {
		return nil
	}
	if _, _, ok := x.interval(st, b); !ok {
		return nil
	}
	lo, hi, ok := x.interval(st, x.c.Sub(a, b))
	if !ok {
		return nil
	}
	if hi < 0 {
		return x.c.T
	}
	if lo >= 0 {
		return x.c.F
	}
	if t.op == oUlt {
		if v, ok := st.lits[x.c.Slt(a, b).id]; ok {
			return x.c.Bool(v)
		}
	}
	return nil
}

const bigBound = int64(1) << 60

// split separates the constant of a linear term.
func (x *Exec) split(t *Term) (*Term, int64) {
	if t.op == oAdd {
		l := x.c.lin(t)
		k := l.k
		l.k = 0
		return x.c.fromLin(l, t.s.W), int64(k)
	}
	return t, 0
}

// interval bounds a 64-bit term as a signed number.
func (x *Exec) interval(st *State, t *Term) (lo, hi int64, ok bool) {
	if t.isConst() {
		v := t.sval()
		if v > bigBound || v < -bigBound {
			return 0, 0, false
		}
		return v, v, true
	}
	if k := st.known[t.id]; k != nil && k.isConst() {
		return x.interval(st, k)
	}
	base, k := x.split(t)
	if k > bigBound || k < -bigBound {
		return 0, 0, false
	}
	lo, hi = math.MinInt64, math.MaxInt64
	have := false
	meet := func(l, h int64) {
		have = true
		lo, hi = max(lo, l), min(hi, h)
	}
	if b, ok := st.bnd[base.id]; ok {
		meet(b[0], b[1])
	}
	if base.op == oConcat && base.args[0].isConst() && base.args[0].val == 0 {
		w := base.s.W - base.args[0].s.W
		if w < 60 {
			meet(0, int64(mask(w)))
		}
	}
	if base.op == oSext && base.args[0].s.W < 60 {
		w := uint(base.args[0].s.W)
		meet(-(1 << (w - 1)), 1<<(w-1)-1)
	}
	if base.op == oIte {
		l1, h1, ok1 := x.interval(st, base.args[1])
		l2, h2, ok2 := x.interval(st, base.args[2])
		if ok1 && ok2 {
			meet(min(l1, l2), max(h1, h2))
		}
	}
	if base.op == oAdd {
		nb := x.c.Neg(base)
		if b, ok := st.bnd[nb.id]; ok {
			meet(-b[1], -b[0])
		}
		sl, sh, ok := int64(0), int64(0), true
		for i, a := range base.args {
			co := int64(base.coefs[i])
			l, h, k := x.interval(st, a)
			if !k || co > 1<<8 || co < -(1<<8) || l < -(1<<52) || h > 1<<52 {
				ok = false
				break
			}
			if co >= 0 {
				sl += co * l
				sh += co * h
			} else {
				sl += co * h
				sh += co * l
			}
		}
		if ok {
			meet(sl, sh)
		}
	}
	if !have || lo > hi || lo < -bigBound || hi > bigBound {
		return 0, 0, false
	}
	return lo + k, hi + k, true
}

func (st *State) setBound(x *Exec, t *Term, lo, hi int64) {
	base, k := x.split(t)
	if base.isConst() {
		return
	}
	lo, hi = lo-k, hi-k
	if b, ok := st.bnd[base.id]; ok {
		lo, hi = max(lo, b[0]), min(hi, b[1])
	}
	if lo <= hi {
		st.bnd[base.id] = [2]int64{lo, hi}
	}
}

// mentions reports whether u occurs in t.
func mentions(t, u *Term) bool {
	if t == u {
		return true
	}
	for _, a := range t.args {
		if mentions(a, u) {
			return true
		}
	}
	return false
}

// assume adds a fact. It returns false if the path is infeasible.
func (x *Exec) assume(st *State, t *Term) bool {
	t = x.decide(st, t)
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	return x.addFact(st, t)
}

func (x *Exec) addFact(st *State, t *Term) bool {
	switch {
	case t.isTrue():
		return true
	case t.isFalse():
		return false
	case t.op == oAnd:
		for _, a := range t.args {
			if !x.assume(st, a) {
				return false
			}
		}
		return true
	case t.op == oNot && t.args[0].op == oOr:
		for _, a := range t.args[0].args {
			if !x.assume(st, x.c.Not(a)) {
				return false
			}
		}
		return true
	}
	st.pc = append(st.pc, t)
	atom, pos := t, true
	if t.op == oNot {
		atom, pos = t.args[0], false
	}
	st.lits[atom.id] = pos
	if !pos && atom.op == oEq && atom.args[0].s.K == kBV && atom.args[0].s.W == 1 {
		a, b := atom.args[0], atom.args[1]
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			st.known[a.id] = x.c.BV(1-b.val, 1)
		}
	}
	if pos && atom.op == oEq {
		a, b := atom.args[0], atom.args[1]
		if a.ground() {
			a, b = b, a
		}
		if b.ground() {
			st.known[a.id] = b
			if a.op == oConcat {
				// pieces are known as well
				p := a.s.W
				for _, q := range a.args {
					p -= q.s.W
					if !q.isConst() {
						st.known[q.id] = x.c.Extract(b, p+q.s.W-1, p)
					}
				}
			}
		} else if a.s.W == 64 {
			st.setBound(x, x.c.Sub(a, b), 0, 0)
		}
	}
	if atom.op == oSlt || atom.op == oUlt {
		a, b := atom.args[0], atom.args[1]
		if a.s.W == 64 {
			ok := true
			if atom.op == oUlt {
				// b non-negative and a < b: a is non-negative too
				blo, bhi, bok := x.interval(st, b)
				alo, _, aok := x.interval(st, a)
				switch {
				case pos && bok && blo >= 0:
					base, _ := x.split(a)
					if base == a {
						st.setBound(x, a, 0, bhi-1)
					}
					ok = true
					if _, _, k := x.interval(st, a); !k {
						ok = false
					}
				case !pos && aok && bok && alo >= 0 && blo >= 0:
				default:
					ok = false
				}
			} else {
				// constants bound a plain term even if it was unbounded
				if b.isConst() || a.isConst() {
					v, other := b, a
					if a.isConst() {
						v, other = a, b
					}
					if base, k := x.split(other); k == 0 && v.sval() > -bigBound && v.sval() < bigBound {
						l, h := int64(math.MinInt64), int64(math.MaxInt64)
						if bb, ok := st.bnd[base.id]; ok {
							l, h = bb[0], bb[1]
						}
						switch {
						case other == a && pos: // a < v
							h = min(h, v.sval()-1)
						case other == a: // a >= v
							l = max(l, v.sval())
						case pos: // v < b
							l = max(l, v.sval()+1)
						default: // v >= b
							h = min(h, v.sval())
						}
						if l > h {
							return false
						}
						st.bnd[base.id] = [2]int64{l, h}
					}
				}
				_, _, ok1 := x.interval(st, a)
				_, _, ok2 := x.interval(st, b)
				ok = ok1 && ok2
			}
			if ok {
				d := x.c.Sub(a, b)
				if pos {
					st.setBound(x, d, -bigBound, -1)
				} else {
					st.setBound(x, d, 0, bigBound)
				}
				// a loop that counts to n leaves with n
				for _, p := range [2][2]*Term{{a, b}, {b, a}} {
					if u := p[0]; !pos && u.op == oApp && len(u.args) == 0 && strings.HasSuffix(u.name, "!it") && st.known[u.id] == nil && !mentions(p[1], u) {
						if lo, hi, ok := x.interval(st, d); ok && lo == 0 && hi == 0 {
							st.known[u.id] = p[1]
						}
					}
				}
				alo, ahi, _ := x.interval(st, a)
				blo, bhi, _ := x.interval(st, b)
				if pos { // a < b
					ahi, blo = min(ahi, bhi-1), max(blo, alo+1)
				} else { // b <= a
					alo, bhi = max(alo, blo), min(bhi, ahi)
				}
				if alo > ahi || blo > bhi {
					return false
				}
				if !a.isConst() && a.op != oAdd {
					st.setBound(x, a, alo, ahi)
				}
				if !b.isConst() && b.op != oAdd {
					st.setBound(x, b, blo, bhi)
				}
			}
		}
	}
	return true
}

var _ = types.Typ
