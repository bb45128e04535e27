package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Sorts are interned, so they can be compared by pointer.
type sortKind uint8

const (
	kBool sortKind = iota
	kBV
	kUn  // uninterpreted
	kArr // BV64 -> Rng
)

// Sort is the sort of a term.
type Sort struct {
	K    sortKind
	W    int
	Name string
	Rng  *Sort
}

var (
	sortMu  sync.Mutex
	sortTab = map[string]*Sort{}
)

func internSort(name string, mk func() *Sort) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	if s := sortTab[name]; s != nil {
		return s
	}
	s := mk()
	s.Name = name
	sortTab[name] = s
	return s
}

var boolSort = internSort("Bool", func() *Sort { return &Sort{K: kBool} })

func bvSort(w int) *Sort {
	return internSort(fmt.Sprintf("(_ BitVec %d)", w), func() *Sort { return &Sort{K: kBV, W: w} })
}

func unSort(name string) *Sort {
	return internSort(name, func() *Sort { return &Sort{K: kUn} })
}

func arrSort(rng *Sort) *Sort {
	return internSort("(Array (_ BitVec 64) "+rng.Name+")", func() *Sort { return &Sort{K: kArr, Rng: rng} })
}

var (
	bv64      = bvSort(64)
	bv32      = bvSort(32)
	bv8       = bvSort(8)
	sStr      = unSort("Str")
	sIface    = unSort("Iface")
	sRV       = unSort("RV")
	sRT       = unSort("RT")
	sRH       = unSort("RH")
	sRef      = unSort("Ref")
	sFunc     = unSort("Func")
	sF32      = unSort("F32")
	sF64      = unSort("F64")
	sC64      = unSort("C64")
	sC128     = unSort("C128")
	sMap      = unSort("Map")
	sSeq      = unSort("GSeq")
	sChan     = unSort("Chan")
	sortTypID = bvSort(32)
)

// Op is the operator of a term.
type Op uint8

const (
	oTrue Op = iota
	oFalse
	oNot
	oAnd
	oOr
	oIte
	oEq
	oConst // BV constant
	oLit   // distinct literal of an uninterpreted sort
	oApp   // uninterpreted function or variable
	oAdd   // linear form: args are the terms, coefs the coefficients, val the constant
	oMul
	oUDiv
	oSDiv
	oURem
	oSRem
	oBAnd
	oBOr
	oBXor
	oBNot
	oShl
	oLShr
	oAShr
	oConcat
	oExtract
	oSext
	oUlt
	oSlt
	oSelect
	oStore
	oConstArr
)

// Term is a hash-consed term.
type Term struct {
	id    int
	op    Op
	s     *Sort
	name  string
	val   uint64
	hi    int
	lo    int
	args  []*Term
	coefs []uint64
	gotyp any // extra payload of literals (types.Type)
}

type tkey struct {
	op     Op
	s      *Sort
	name   string
	val    uint64
	hi, lo int
	a, b   int
	rest   string
}

// Ctx holds the terms of one verification task.
type Ctx struct {
	tab   map[tkey]*Term
	n     int
	fresh int
	T, F  *Term
	axlit map[string]bool
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}}
	c.T = c.mk(&Term{op: oTrue, s: boolSort})
	c.F = c.mk(&Term{op: oFalse, s: boolSort})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	k := tkey{op: t.op, s: t.s, name: t.name, val: t.val, hi: t.hi, lo: t.lo, a: -1, b: -1}
	if len(t.args) > 0 {
		k.a = t.args[0].id
	}
	if len(t.args) > 1 {
		k.b = t.args[1].id
	}
	if len(t.args) > 2 || len(t.coefs) > 0 {
		b := make([]byte, 0, len(t.args)*4)
		for _, a := range t.args {
			b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
		}
		for _, v := range t.coefs {
			for i := 0; i < 8; i++ {
				b = append(b, byte(v>>(8*uint(i))))
			}
		}
		k.rest = string(b)
	}
	if o := c.tab[k]; o != nil {
		return o
	}
	c.n++
	t.id = c.n
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(w) - 1
}

func (t *Term) isConst() bool { return t.op == oConst }
func (t *Term) isTrue() bool  { return t.op == oTrue }
func (t *Term) isFalse() bool { return t.op == oFalse }

func (t *Term) sval() int64 {
	w := uint(t.s.W)
	return int64(t.val<<(64-w)) >> (64 - w)
}

// ground reports whether t is a value that differs from all other ground values.
func (t *Term) ground() bool {
	return t.op == oConst || t.op == oLit || t.op == oTrue || t.op == oFalse
}

func (c *Ctx) BV(v uint64, w int) *Term {
	return c.mk(&Term{op: oConst, s: bvSort(w), val: v & mask(w)})
}
func (c *Ctx) Int(v int64) *Term { return c.BV(uint64(v), 64) }

func (c *Ctx) Lit(s *Sort, name string) *Term { return c.mk(&Term{op: oLit, s: s, name: name}) }

func (c *Ctx) App(s *Sort, name string, args ...*Term) *Term {
	return c.mk(&Term{op: oApp, s: s, name: name, args: args})
}

func (c *Ctx) Fresh(s *Sort, hint string) *Term {
	c.fresh++
	return c.App(s, fmt.Sprintf("%s!%d", hint, c.fresh))
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.op {
	case oTrue:
		return c.F
	case oFalse:
		return c.T
	case oNot:
		return a.args[0]
	}
	return c.mk(&Term{op: oNot, s: boolSort, args: []*Term{a}})
}

func (c *Ctx) nary(op Op, neutral, absorb *Term, in []*Term) *Term {
	set := map[int]*Term{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == neutral {
			return true
		}
		if t == absorb {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		set[t.id] = t
		return true
	}
	for _, t := range in {
		if !add(t) {
			return absorb
		}
	}
	for _, t := range set {
		if n := c.Not(t); set[n.id] != nil {
			return absorb
		}
	}
	if len(set) == 0 {
		return neutral
	}
	ts := make([]*Term, 0, len(set))
	for _, t := range set {
		ts = append(ts, t)
	}
	if len(ts) == 1 {
		return ts[0]
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return c.mk(&Term{op: op, s: boolSort, args: ts})
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary(oAnd, c.T, c.F, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary(oOr, c.F, c.T, ts) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if a == b {
		return a
	}
	switch cond.op {
	case oTrue:
		return a
	case oFalse:
		return b
	case oNot:
		return c.Ite(cond.args[0], b, a)
	}
	if a.s == boolSort {
		if a.isTrue() && b.isFalse() {
			return cond
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(cond)
		}
		return c.And(c.Or(c.Not(cond), a), c.Or(cond, b))
	}
	if a.op == oIte && a.args[0] == cond {
		return c.Ite(cond, a.args[1], b)
	}
	if b.op == oIte && b.args[0] == cond {
		return c.Ite(cond, a, b.args[2])
	}
	return c.mk(&Term{op: oIte, s: a.s, args: []*Term{cond, a, b}})
}

// ---- linear forms

type linear struct {
	k  uint64
	m  map[int]uint64
	ts map[int]*Term
}

func (c *Ctx) linInto(l *linear, t *Term, coef uint64) {
	w := t.s.W
	switch {
	case t.op == oConst:
		l.k += coef * t.val
	case t.op == oAdd:
		l.k += coef * t.val
		for i, a := range t.args {
			l.m[a.id] += coef * t.coefs[i]
			l.ts[a.id] = a
		}
	case t.op == oBNot: // ^x = -x-1
		l.k -= coef
		c.linInto(l, t.args[0], -coef)
	default:
		l.m[t.id] += coef
		l.ts[t.id] = t
	}
	l.k &= mask(w)
}

func (c *Ctx) lin(t *Term) *linear {
	l := &linear{m: map[int]uint64{}, ts: map[int]*Term{}}
	c.linInto(l, t, 1)
	return l
}

func (c *Ctx) fromLin(l *linear, w int) *Term {
	ids := []int{}
	for id, k := range l.m {
		if k&mask(w) != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	k := l.k & mask(w)
	if len(ids) == 0 {
		return c.BV(k, w)
	}
	if len(ids) == 1 && l.m[ids[0]]&mask(w) == 1 && k == 0 {
		return l.ts[ids[0]]
	}
	// keep disjoint x+const as is
	t := &Term{op: oAdd, s: bvSort(w), val: k}
	for _, id := range ids {
		t.args = append(t.args, l.ts[id])
		t.coefs = append(t.coefs, l.m[id]&mask(w))
	}
	return c.mk(t)
}

func (c *Ctx) Add(a, b *Term) *Term {
	l := c.lin(a)
	c.linInto(l, b, 1)
	return c.fromLin(l, a.s.W)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.s.W)
	}
	l := c.lin(a)
	c.linInto(l, b, ^uint64(0))
	return c.fromLin(l, a.s.W)
}

func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.BV(0, a.s.W), a) }

func (c *Ctx) Mul(a, b *Term) *Term {
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		l := &linear{m: map[int]uint64{}, ts: map[int]*Term{}}
		c.linInto(l, b, a.val)
		return c.fromLin(l, a.s.W)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: oMul, s: a.s, args: []*Term{a, b}})
}

// ---- concatenations

// pieces splits a term into its concatenated parts, most significant first.
func pieces(t *Term) []*Term {
	if t.op == oConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) Concat(in ...*Term) *Term {
	var ps []*Term
	for _, t := range in {
		for _, p := range pieces(t) {
			if n := len(ps); n > 0 {
				q := ps[n-1]
				if q.isConst() && p.isConst() && q.s.W+p.s.W <= 64 {
					ps[n-1] = c.BV(q.val<<uint(p.s.W)|p.val, q.s.W+p.s.W)
					continue
				}
				qb, qh, ql := extractOf(q)
				pb, ph, pl := extractOf(p)
				if qb == pb && ql == ph+1 {
					ps[n-1] = c.Extract(qb, qh, pl)
					continue
				}
			}
			ps = append(ps, p)
		}
	}
	if len(ps) == 1 {
		return ps[0]
	}
	w := 0
	for _, p := range ps {
		w += p.s.W
	}
	return c.mk(&Term{op: oConcat, s: bvSort(w), args: append([]*Term(nil), ps...)})
}

func extractOf(t *Term) (*Term, int, int) {
	if t.op == oExtract {
		return t.args[0], t.hi, t.lo
	}
	return t, t.s.W - 1, 0
}

func (c *Ctx) Extract(t *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == t.s.W {
		return t
	}
	if w <= 0 || hi >= t.s.W || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, t.s.W))
	}
	switch t.op {
	case oConst:
		return c.BV(t.val>>uint(lo), w)
	case oExtract:
		return c.Extract(t.args[0], hi+t.lo, lo+t.lo)
	case oConcat:
		var out []*Term
		pos := t.s.W
		for _, p := range t.args {
			ph, pl := pos-1, pos-p.s.W
			pos = pl
			h, l := min(hi, ph), max(lo, pl)
			if h >= l {
				out = append(out, c.Extract(p, h-pl, l-pl))
			}
		}
		return c.Concat(out...)
	case oSext:
		iw := t.args[0].s.W
		if hi < iw {
			return c.Extract(t.args[0], hi, lo)
		}
		if lo == 0 {
			return c.Sext(t.args[0], w)
		}
	case oBAnd:
		return c.BAnd(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case oBOr:
		return c.BOr(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case oBXor:
		return c.BXor(c.Extract(t.args[0], hi, lo), c.Extract(t.args[1], hi, lo))
	case oBNot:
		return c.BNot(c.Extract(t.args[0], hi, lo))
	case oIte:
		if t.args[1].isConst() || t.args[2].isConst() {
			return c.Ite(t.args[0], c.Extract(t.args[1], hi, lo), c.Extract(t.args[2], hi, lo))
		}
	case oAdd:
		if lo == 0 {
			l := &linear{m: map[int]uint64{}, ts: map[int]*Term{}}
			l.k = t.val
			for i, a := range t.args {
				c.linInto(l, c.Extract(a, hi, 0), t.coefs[i])
			}
			return c.fromLin(l, w)
		}
	case oMul:
		if lo == 0 {
			return c.Mul(c.Extract(t.args[0], hi, 0), c.Extract(t.args[1], hi, 0))
		}
	}
	return c.mk(&Term{op: oExtract, s: bvSort(w), hi: hi, lo: lo, args: []*Term{t}})
}

func (c *Ctx) Zext(t *Term, w int) *Term {
	if w == t.s.W {
		return t
	}
	return c.Concat(c.BV(0, w-t.s.W), t)
}

func (c *Ctx) Sext(t *Term, w int) *Term {
	if w == t.s.W {
		return t
	}
	if t.isConst() {
		return c.BV(uint64(t.sval()), w)
	}
	if t.op == oSext {
		return c.Sext(t.args[0], w)
	}
	if t.op == oConcat && t.args[0].isConst() && t.args[0].val>>(uint(t.args[0].s.W)-1) == 0 {
		return c.Zext(t, w)
	}
	return c.mk(&Term{op: oSext, s: bvSort(w), args: []*Term{t}})
}

func boundaries(t *Term, set map[int]bool) {
	pos := t.s.W
	for _, p := range pieces(t) {
		pos -= p.s.W
		set[pos] = true
	}
}

func constRuns(t *Term, set map[int]bool) {
	pos := t.s.W
	for _, p := range pieces(t) {
		pos -= p.s.W
		if p.isConst() {
			for i := 1; i < p.s.W; i++ {
				if (p.val>>uint(i))&1 != (p.val>>uint(i-1))&1 {
					set[pos+i] = true
				}
			}
		}
	}
}

// bitwise applies a bitwise operation piece by piece.
func (c *Ctx) bitwise(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op != oConcat && b.op != oConcat && !a.isConst() && !b.isConst() {
		return f(a, b)
	}
	set := map[int]bool{}
	boundaries(a, set)
	boundaries(b, set)
	constRuns(a, set)
	constRuns(b, set)
	if len(set) == 1 {
		return f(a, b)
	}
	cuts := make([]int, 0, len(set))
	for k := range set {
		cuts = append(cuts, k)
	}
	sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
	hi := a.s.W - 1
	var out []*Term
	for _, lo := range cuts {
		out = append(out, f(c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
		hi = lo - 1
	}
	return c.Concat(out...)
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	return c.bitwise(a, b, func(a, b *Term) *Term {
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if b.isConst() {
				return c.BV(a.val&b.val, a.s.W)
			}
			if a.val == 0 {
				return a
			}
			if a.val == mask(a.s.W) {
				return b
			}
		}
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: oBAnd, s: a.s, args: []*Term{a, b}})
	})
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	return c.bitwise(a, b, func(a, b *Term) *Term {
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if b.isConst() {
				return c.BV(a.val|b.val, a.s.W)
			}
			if a.val == 0 {
				return b
			}
			if a.val == mask(a.s.W) {
				return a
			}
		}
		if a == b {
			return a
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: oBOr, s: a.s, args: []*Term{a, b}})
	})
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a == b {
		return c.BV(0, a.s.W)
	}
	return c.bitwise(a, b, func(a, b *Term) *Term {
		if b.isConst() {
			a, b = b, a
		}
		if a.isConst() {
			if b.isConst() {
				return c.BV(a.val^b.val, a.s.W)
			}
			if a.val == 0 {
				return b
			}
			if a.val == mask(a.s.W) {
				return c.BNot(b)
			}
		}
		if a == b {
			return c.BV(0, a.s.W)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(&Term{op: oBXor, s: a.s, args: []*Term{a, b}})
	})
}

func (c *Ctx) BNot(a *Term) *Term {
	switch a.op {
	case oConst:
		return c.BV(^a.val, a.s.W)
	case oBNot:
		return a.args[0]
	case oConcat:
		var out []*Term
		for _, p := range a.args {
			out = append(out, c.BNot(p))
		}
		return c.Concat(out...)
	case oAdd:
		return c.Sub(c.BV(mask(a.s.W), a.s.W), a)
	}
	return c.mk(&Term{op: oBNot, s: a.s, args: []*Term{a}})
}

// Shifts: both operands have the same width, amounts >= width give 0 (or sign).
func (c *Ctx) Shl(a, n *Term) *Term {
	w := a.s.W
	if n.isConst() {
		if n.val >= uint64(w) {
			return c.BV(0, w)
		}
		if n.val == 0 {
			return a
		}
		return c.Concat(c.Extract(a, w-1-int(n.val), 0), c.BV(0, int(n.val)))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(&Term{op: oShl, s: a.s, args: []*Term{a, n}})
}

func (c *Ctx) LShr(a, n *Term) *Term {
	w := a.s.W
	if n.isConst() {
		if n.val >= uint64(w) {
			return c.BV(0, w)
		}
		if n.val == 0 {
			return a
		}
		return c.Concat(c.BV(0, int(n.val)), c.Extract(a, w-1, int(n.val)))
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(&Term{op: oLShr, s: a.s, args: []*Term{a, n}})
}

func (c *Ctx) AShr(a, n *Term) *Term {
	w := a.s.W
	if n.isConst() {
		k := n.val
		if k >= uint64(w) {
			k = uint64(w) - 1
		}
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, w-1, int(k)), w)
	}
	if a.isConst() && a.val == 0 {
		return a
	}
	return c.mk(&Term{op: oAShr, s: a.s, args: []*Term{a, n}})
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.val/b.val, a.s.W)
		}
		if b.val&(b.val-1) == 0 {
			return c.LShr(a, c.BV(uint64(bits.TrailingZeros64(b.val)), a.s.W))
		}
	}
	return c.mk(&Term{op: oUDiv, s: a.s, args: []*Term{a, b}})
}

func (c *Ctx) URem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			return c.BV(a.val%b.val, a.s.W)
		}
		if b.val&(b.val-1) == 0 {
			return c.BAnd(a, c.BV(b.val-1, a.s.W))
		}
	}
	return c.mk(&Term{op: oURem, s: a.s, args: []*Term{a, b}})
}

func (c *Ctx) nonneg(a *Term) bool {
	if a.isConst() {
		return a.sval() >= 0
	}
	return a.op == oConcat && a.args[0].isConst() && a.args[0].val>>(uint(a.args[0].s.W)-1) == 0
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			if b.sval() == -1 {
				return c.Neg(a)
			}
			return c.BV(uint64(a.sval()/b.sval()), a.s.W)
		}
		if b.sval() == 1 {
			return a
		}
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.UDiv(a, b)
	}
	return c.mk(&Term{op: oSDiv, s: a.s, args: []*Term{a, b}})
}

func (c *Ctx) SRem(a, b *Term) *Term {
	if b.isConst() && b.val != 0 {
		if a.isConst() {
			if b.sval() == -1 {
				return c.BV(0, a.s.W)
			}
			return c.BV(uint64(a.sval()%b.sval()), a.s.W)
		}
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.URem(a, b)
	}
	return c.mk(&Term{op: oSRem, s: a.s, args: []*Term{a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.s != b.s {
		panic(fmt.Sprintf("eq of different sorts: %s:%s, %s:%s", a, a.s.Name, b, b.s.Name))
	}
	if a.ground() && b.ground() {
		return c.F
	}
	if a.s == boolSort {
		switch {
		case a.isTrue():
			return b
		case b.isTrue():
			return a
		case a.isFalse():
			return c.Not(b)
		case b.isFalse():
			return c.Not(a)
		case c.Not(a) == b:
			return c.F
		}
	}
	if a.isConst() && a.val == 0 && b.op == oApp && b.name == "str.len" {
		a, b = b, a
	}
	if b.isConst() && b.val == 0 && a.op == oApp && a.name == "str.len" {
		return c.Eq(a.args[0], c.Lit(sStr, ""))
	}
	if a.s == sIface {
		// new errors are not nil
		if a.op == oLit {
			a, b = b, a
		}
		if b.op == oLit && b.name == "nil" && a.op == oApp && strings.HasPrefix(a.name, "own:") {
			return c.F
		}
	}
	if b.op == oIte && a.op != oIte {
		a, b = b, a
	}
	if a.op == oIte && b.ground() {
		x, y := a.args[1], a.args[2]
		if x.ground() || y.ground() {
			return c.Ite(a.args[0], c.Eq(x, b), c.Eq(y, b))
		}
	}
	if a.s.K == kBV {
		if a.s.W == 1 {
			// one bit: always compared with 1
			if a.isConst() {
				a, b = b, a
			}
			if b.isConst() && b.val == 0 {
				return c.Not(c.Eq(a, c.BV(1, 1)))
			}
		}
		if a.op == oConcat || b.op == oConcat {
			set := map[int]bool{}
			boundaries(a, set)
			boundaries(b, set)
			if len(set) > 1 {
				cuts := make([]int, 0, len(set))
				for k := range set {
					cuts = append(cuts, k)
				}
				sort.Sort(sort.Reverse(sort.IntSlice(cuts)))
				hi := a.s.W - 1
				var out []*Term
				for _, lo := range cuts {
					e := c.Eq(c.Extract(a, hi, lo), c.Extract(b, hi, lo))
					if e.isFalse() {
						return e
					}
					out = append(out, e)
					hi = lo - 1
				}
				return c.And(out...)
			}
		}
		if a.op == oAdd || b.op == oAdd {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.val == 0)
			}
			if d.op == oAdd {
				w := d.s.W
				if len(d.args) == 1 {
					switch d.coefs[0] {
					case 1:
						a, b = d.args[0], c.BV(-d.val, w)
					case mask(w):
						a, b = d.args[0], c.BV(d.val, w)
					default:
						a, b = d, c.BV(0, w)
					}
				} else {
					// positive coefficients left, negative ones right
					l, r := c.lin(c.BV(0, w)), c.lin(c.BV(0, w))
					for i, t := range d.args {
						if d.coefs[i]>>uint(w-1) == 0 {
							c.linInto(l, t, d.coefs[i])
						} else {
							c.linInto(r, t, -d.coefs[i])
						}
					}
					r.k -= d.val
					a, b = c.fromLin(l, w), c.fromLin(r, w)
				}
			} else {
				a, b = d, c.BV(0, d.s.W)
			}
		}
		if a.op == oSext && b.isConst() {
			iw := a.args[0].s.W
			nb := c.Extract(b, iw-1, 0)
			if c.Sext(nb, b.s.W) != b {
				return c.F
			}
			return c.Eq(a.args[0], nb)
		}
		if b.op == oSext && a.isConst() {
			return c.Eq(b, a)
		}
	}
	// constructors of interfaces
	if a.op == oApp && b.op == oApp && isCtor(a.name) && isCtor(b.name) {
		if a.name != b.name {
			return c.F
		}
		var out []*Term
		for i := range a.args {
			out = append(out, c.Eq(a.args[i], b.args[i]))
		}
		return c.And(out...)
	}
	if a.op == oLit && b.op == oApp && isCtor(b.name) || b.op == oLit && a.op == oApp && isCtor(a.name) {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: oEq, s: boolSort, args: []*Term{a, b}})
}

// isCtor reports whether an application is injective and disjoint from others.
func isCtor(name string) bool {
	return strings.HasPrefix(name, "box:") || strings.HasPrefix(name, "mkref:")
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b || b.isConst() && b.val == 0 {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() && b.val == 1 {
		return c.Eq(a, c.BV(0, a.s.W))
	}
	if a.isConst() && a.val == mask(a.s.W) {
		return c.F
	}
	if a.isConst() && a.val == 0 {
		return c.Not(c.Eq(b, a))
	}
	if a.op == oConcat && a.args[0].isConst() && b.isConst() && a.args[0].val == 0 {
		lw := a.s.W - a.args[0].s.W
		if b.val > mask(lw) {
			return c.T
		}
		return c.Ult(c.Extract(a, lw-1, 0), c.Extract(b, lw-1, 0))
	}
	if b.op == oConcat && b.args[0].isConst() && a.isConst() && b.args[0].val == 0 {
		lw := b.s.W - b.args[0].s.W
		if a.val >= mask(lw) {
			return c.F
		}
		return c.Ult(c.Extract(a, lw-1, 0), c.Extract(b, lw-1, 0))
	}
	return c.mk(&Term{op: oUlt, s: boolSort, args: []*Term{a, b}})
}

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.sval() < b.sval())
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if c.nonneg(a) && b.isConst() && b.sval() <= 0 {
		return c.F
	}
	if a.isConst() && a.sval() < 0 && c.nonneg(b) {
		return c.T
	}
	return c.mk(&Term{op: oSlt, s: boolSort, args: []*Term{a, b}})
}

func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case oStore:
			if a.args[1] == i {
				return a.args[2]
			}
			if d := c.Sub(a.args[1], i); d.isConst() && d.val != 0 {
				a = a.args[0]
				continue
			}
		case oConstArr:
			return a.args[0]
		}
		break
	}
	return c.mk(&Term{op: oSelect, s: a.s.Rng, args: []*Term{a, i}})
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == oStore && a.args[1] == i {
		a = a.args[0]
	}
	// order stores at known distinct indices by index term, so that the order
	// of writing does not matter
	if a.op == oStore {
		if d := c.Sub(a.args[1], i); d.isConst() && d.val != 0 {
			if int64(d.val) > 0 {
				return c.mkStore(c.Store(a.args[0], i, v), a.args[1], a.args[2])
			}
		}
	}
	return c.mkStore(a, i, v)
}

func (c *Ctx) mkStore(a, i, v *Term) *Term {
	if v.op == oSelect && v.args[0] == a && v.args[1] == i {
		return a
	}
	// an earlier store to the same index
	return c.mk(&Term{op: oStore, s: a.s, args: []*Term{a, i, v}})
}

func (c *Ctx) ConstArr(s *Sort, v *Term) *Term {
	return c.mk(&Term{op: oConstArr, s: s, args: []*Term{v}})
}

// ---- printing and substitution

func (t *Term) String() string {
	var b strings.Builder
	t.write(&b, 6)
	return b.String()
}

var opNames = map[Op]string{
	oNot: "not", oAnd: "and", oOr: "or", oIte: "ite", oEq: "=", oMul: "bvmul", oUDiv: "bvudiv", oSDiv: "bvsdiv",
	oURem: "bvurem", oSRem: "bvsrem", oBAnd: "bvand", oBOr: "bvor", oBXor: "bvxor", oBNot: "bvnot",
	oShl: "bvshl", oLShr: "bvlshr", oAShr: "bvashr", oConcat: "concat", oUlt: "bvult", oSlt: "bvslt",
	oSelect: "select", oStore: "store",
}

func (t *Term) write(b *strings.Builder, depth int) {
	if depth == 0 && len(t.args) > 0 {
		fmt.Fprintf(b, "#%d", t.id)
		return
	}
	switch t.op {
	case oTrue:
		b.WriteString("true")
	case oFalse:
		b.WriteString("false")
	case oConst:
		fmt.Fprintf(b, "%d:%d", t.sval(), t.s.W)
	case oLit:
		fmt.Fprintf(b, "'%s", t.name)
	case oApp:
		b.WriteString(t.name)
		if len(t.args) > 0 {
			b.WriteString("(")
			for i, a := range t.args {
				if i > 0 {
					b.WriteString(", ")
				}
				a.write(b, depth-1)
			}
			b.WriteString(")")
		}
	case oAdd:
		b.WriteString("(")
		for i, a := range t.args {
			if i > 0 {
				b.WriteString(" + ")
			}
			if k := int64(t.coefs[i]<<(64-uint(t.s.W))) >> (64 - uint(t.s.W)); k != 1 {
				fmt.Fprintf(b, "%d*", k)
			}
			a.write(b, depth-1)
		}
		if t.val != 0 {
			fmt.Fprintf(b, " + %d", int64(t.val<<(64-uint(t.s.W)))>>(64-uint(t.s.W)))
		}
		b.WriteString(")")
	case oExtract:
		t.args[0].write(b, depth-1)
		fmt.Fprintf(b, "[%d:%d]", t.hi, t.lo)
	case oSext:
		fmt.Fprintf(b, "sext%d(", t.s.W)
		t.args[0].write(b, depth-1)
		b.WriteString(")")
	case oConstArr:
		b.WriteString("arr(")
		t.args[0].write(b, depth-1)
		b.WriteString(")")
	default:
		b.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			b.WriteString(" ")
			a.write(b, depth-1)
		}
		b.WriteString(")")
	}
}

// rebuild applies the simplifying constructor of t to new arguments.
func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case oNot:
		return c.Not(a[0])
	case oAnd:
		return c.And(a...)
	case oOr:
		return c.Or(a...)
	case oIte:
		return c.Ite(a[0], a[1], a[2])
	case oEq:
		return c.Eq(a[0], a[1])
	case oApp:
		return c.app(t.s, t.name, a...)
	case oAdd:
		l := &linear{m: map[int]uint64{}, ts: map[int]*Term{}, k: t.val}
		for i, x := range a {
			c.linInto(l, x, t.coefs[i])
		}
		return c.fromLin(l, t.s.W)
	case oMul:
		return c.Mul(a[0], a[1])
	case oUDiv:
		return c.UDiv(a[0], a[1])
	case oSDiv:
		return c.SDiv(a[0], a[1])
	case oURem:
		return c.URem(a[0], a[1])
	case oSRem:
		return c.SRem(a[0], a[1])
	case oBAnd:
		return c.BAnd(a[0], a[1])
	case oBOr:
		return c.BOr(a[0], a[1])
	case oBXor:
		return c.BXor(a[0], a[1])
	case oBNot:
		return c.BNot(a[0])
	case oShl:
		return c.Shl(a[0], a[1])
	case oLShr:
		return c.LShr(a[0], a[1])
	case oAShr:
		return c.AShr(a[0], a[1])
	case oConcat:
		return c.Concat(a...)
	case oExtract:
		return c.Extract(a[0], t.hi, t.lo)
	case oSext:
		return c.Sext(a[0], t.s.W)
	case oUlt:
		return c.Ult(a[0], a[1])
	case oSlt:
		return c.Slt(a[0], a[1])
	case oSelect:
		return c.Select(a[0], a[1])
	case oStore:
		return c.Store(a[0], a[1], a[2])
	case oConstArr:
		return c.ConstArr(t.s, a[0])
	}
	return t
}

// Subst replaces terms, looking at most depth levels down.
func (c *Ctx) Subst(t *Term, f func(*Term) *Term, memo map[int]*Term) *Term {
	if r := f(t); r != nil {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r := memo[t.id]; r != nil {
		return r
	}
	var na []*Term
	for i, a := range t.args {
		n := c.Subst(a, f, memo)
		if n != a && na == nil {
			na = append([]*Term(nil), t.args...)
		}
		if na != nil {
			na[i] = n
		}
	}
	r := t
	if na != nil {
		r = c.rebuild(t, na)
		if q := f(r); q != nil {
			r = q
		}
	}
	memo[t.id] = r
	return r
}
