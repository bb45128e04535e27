package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/types/typeutil"
)

// Value is a symbolic Go value. Scalars are *Term.
type Value interface{}

// StructV is a struct value.
type StructV struct{ f []Value }

// ArrV is an array, or the contents of a backing store, of known length.
type ArrV struct{ e []Value }

// BufV is the contents of a backing store of scalars.
type BufV struct{ arr *Term }

// SeqV is the contents of a backing store of other elements.
type SeqV struct{ seq *Term }

// SliceV is a slice. obj is 0 for nil slices.
type SliceV struct {
	obj           int
	off, len, cap *Term
	et            types.Type
}

type pathElem struct {
	f   int
	idx *Term
}

// PtrV is a pointer into an object. obj is 0 for nil.
type PtrV struct {
	obj  int
	path []pathElem
}

// IfaceV is an interface value of known dynamic type.
type IfaceV struct {
	t types.Type
	v Value
}

// FuncV is a function value.
type FuncV struct {
	fn   any // *ssa.Function or *ssa.Builtin
	bind []Value
}

// MapRef refers to a map object.
type MapRef struct{ obj int }

type mapEnt struct {
	k *Term
	v Value
	// present is nil if the entry is there
	deleted bool
	// the value before it was turned into an interface, and its type
	raw  Value
	rawT types.Type
}

// MapC is the contents of a map: entries, latest last, over a symbolic base.
type MapC struct {
	ents   []mapEnt
	base   *Term
	kt, vt types.Type
	// a cache holds results of a function: entries of the base are right,
	// those in ents are to be shown right when the function returns
	coh   *Contract
	guard string // lock that protects it
}

// TupleV is a tuple of results.
type TupleV []Value

// IterV is the state of a range over a string or map.
type IterV struct {
	str *Term
	pos *Term
	m   *MapC
	i   int
	obj int   // object of the map
	of  *MapC // its contents when the range began, if m is not that
}

// Obj is an object of the heap.
type Obj struct {
	t   types.Type
	v   Value
	ref *Term // symbolic reference the object stands for
}

// TypeTable numbers types.
type TypeTable struct {
	mu  sync.Mutex
	m   typeutil.Map
	ids map[string]int
	ts  []types.Type
}

func newTypeTable() *TypeTable { return &TypeTable{ids: map[string]int{}, ts: []types.Type{nil}} }

var typeKeys sync.Map

var byteRune = regexp.MustCompile(`\b(byte|rune)\b`)

func typeKey(t types.Type) string {
	if k, ok := typeKeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	k = byteRune.ReplaceAllStringFunc(k, func(s string) string {
		if s == "byte" {
			return "uint8"
		}
		return "int32"
	})
	typeKeys.Store(t, k)
	return k
}

func (tt *TypeTable) id(t types.Type) int {
	k := typeKey(types.Unalias(t))
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if i, ok := tt.ids[k]; ok {
		return i
	}
	tt.ts = append(tt.ts, t)
	tt.ids[k] = len(tt.ts) - 1
	return len(tt.ts) - 1
}

func (tt *TypeTable) typ(id int) types.Type {
	tt.mu.Lock()
	defer tt.mu.Unlock()
	if id <= 0 || id >= len(tt.ts) {
		return nil
	}
	return tt.ts[id]
}

type unsupported struct{ msg string }

func unsup(format string, a ...any) { panic(unsupported{fmt.Sprintf(format, a...)}) }

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

// scalarSort returns the sort of types represented by a single term, or nil.
func scalarSort(t types.Type) *Sort {
	if isNamed(t, "reflect", "Value") {
		return sRV
	}
	if isNamed(t, "reflect", "Type") {
		return sRT
	}
	if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") || isNamed(t, "sync", "Once") {
		return unSort("Lock")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return boolSort
		case types.Int8, types.Uint8:
			return bv8
		case types.Int16, types.Uint16:
			return bvSort(16)
		case types.Int32, types.Uint32, types.UntypedRune:
			return bv32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return bv64
		case types.Float32:
			return sF32
		case types.Float64, types.UntypedFloat:
			return sF64
		case types.Complex64:
			return sC64
		case types.Complex128:
			return sC128
		case types.String, types.UntypedString:
			return sStr
		case types.UnsafePointer:
			return sRef
		}
	case *types.Interface:
		return sIface
	}
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// bufElem reports whether slices of t are backed by an SMT array.
func bufElem(t types.Type) *Sort {
	s := scalarSort(t)
	if s != nil && s.K == kBV && s.W == 8 {
		return s
	}
	return nil
}

// newObj allocates an object.
func (x *Exec) newObj(st *State, t types.Type, v Value) int {
	x.nextObj++
	st.heap[x.nextObj] = &Obj{t: t, v: v}
	return x.nextObj
}

func (x *Exec) litLen(st *State, n *Term) {
	if !n.isConst() {
		st.setBound(x, n, 0, maxLen)
	}
}

const maxLen = 1 << 48

// symValue makes a value of type t from terms made by mk.
func (x *Exec) symValue(st *State, t types.Type, path string, mk func(path string, s *Sort) *Term) Value {
	if s := scalarSort(t); s != nil {
		v := mk(path, s)
		return v
	}
	c := x.c
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.symValue(st, u.Field(i).Type(), path+"."+u.Field(i).Name(), mk))
		}
		return sv
	case *types.Array:
		if u.Len() > 64 {
			unsup("array of %d elements", u.Len())
		}
		av := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			av.e = append(av.e, x.symValue(st, u.Elem(), fmt.Sprintf("%s[%d]", path, i), mk))
		}
		return av
	case *types.Slice:
		if bs := bufElem(u.Elem()); bs != nil {
			arr := mk(path+".arr", arrSort(bs))
			n := mk(path+".len", bv64)
			x.litLen(st, n)
			id := x.newObj(st, t, &BufV{arr})
			cp := mk(path+".cap", bv64)
			x.litLen(st, cp)
			return &SliceV{obj: id, off: c.Int(0), len: n, cap: cp, et: u.Elem()}
		}
		seq := mk(path+".seq", sSeq)
		return x.seqSlice(st, seq, u.Elem())
	case *types.Pointer:
		return mk(path, sRef)
	case *types.Signature:
		return mk(path, sFunc)
	case *types.Map:
		m := mk(path, sMap)
		return &MapRef{x.newObj(st, t, &MapC{base: m, kt: u.Key(), vt: u.Elem()})}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.symValue(st, u.At(i).Type(), fmt.Sprintf("%s.%d", path, i), mk))
		}
		return tv
	}
	unsup("symbolic value of type %s", t)
	return nil
}

func (x *Exec) seqSlice(st *State, seq *Term, et types.Type) *SliceV {
	n := x.seqLen(seq)
	x.litLen(st, n)
	return &SliceV{obj: x.newObj(st, types.NewSlice(et), &SeqV{seq}), off: x.c.Int(0), len: n, cap: n, et: et}
}

// zero returns the zero value of t.
func (x *Exec) zero(st *State, t types.Type) Value {
	c := x.c
	if s := scalarSort(t); s != nil {
		switch s {
		case boolSort:
			return c.F
		case sStr:
			return c.Lit(sStr, "")
		case sIface:
			return c.Lit(sIface, "nil")
		case sRT:
			return c.Lit(sRT, "nil")
		case sRV:
			return c.Lit(sRV, "zero")
		case sF32, sF64, sC64, sC128:
			return c.Lit(s, "0")
		}
		if s.K == kBV {
			return c.BV(0, s.W)
		}
		return c.Lit(s, "zero")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, x.zero(st, u.Field(i).Type()))
		}
		return sv
	case *types.Array:
		if bs := bufElem(u.Elem()); bs != nil && u.Len() > 64 {
			return &BufV{c.ConstArr(arrSort(bs), c.BV(0, bs.W))}
		}
		av := &ArrV{}
		for i := int64(0); i < u.Len(); i++ {
			av.e = append(av.e, x.zero(st, u.Elem()))
		}
		return av
	case *types.Slice:
		return &SliceV{off: c.Int(0), len: c.Int(0), cap: c.Int(0), et: u.Elem()}
	case *types.Pointer:
		return &PtrV{}
	case *types.Signature:
		return c.Lit(sFunc, "nil")
	case *types.Map:
		return &MapRef{}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, x.zero(st, u.At(i).Type()))
		}
		return tv
	}
	unsup("zero value of type %s", t)
	return nil
}

// ---- sequences

func (x *Exec) seqEmpty() *Term { return x.c.Lit(sSeq, "empty") }

func (x *Exec) seqLen(s *Term) *Term {
	c := x.c
	k := uint64(0)
	for {
		if s.op == oApp && strings.HasPrefix(s.name, "snoc:") {
			k++
			s = s.args[0]
			continue
		}
		if s.op == oApp && strings.HasPrefix(s.name, "upd:") {
			s = s.args[0]
			continue
		}
		break
	}
	switch {
	case s.op == oLit && s.name == "empty":
		return c.BV(k, 64)
	case s.op == oApp && s.name == "seq.slice":
		return c.Add(s.args[2], c.BV(k, 64))
	case s.op == oIte:
		return c.Add(c.Ite(s.args[0], x.seqLen(s.args[1]), x.seqLen(s.args[2])), c.BV(k, 64))
	}
	return c.Add(c.App(bv64, "seq.len", s), c.BV(k, 64))
}

// leafCount is the number of terms of a flattened value of type t.
func (x *Exec) leafSorts(t types.Type) []*Sort {
	var out []*Sort
	dummy := &State{heap: map[int]*Obj{}, bnd: map[int][2]int64{}, lits: map[int]bool{}, known: map[int]*Term{}}
	x.symValue(dummy, t, "", func(p string, s *Sort) *Term {
		if !strings.HasSuffix(p, ".cap") {
			out = append(out, s)
		}
		return x.c.App(s, "dummy"+p)
	})
	return out
}

// seqAt reads the element at an index of a sequence.
func (x *Exec) seqAt(st *State, seq, idx *Term, et types.Type) Value {
	c := x.c
	switch {
	case seq.op == oApp && strings.HasPrefix(seq.name, "snoc:"):
		n := x.seqLen(seq.args[0])
		switch r := x.decide(st, c.Eq(idx, n)); {
		case r.isTrue():
			return x.unflatten(st, et, seq.args[1:])
		case r.isFalse():
			return x.seqAt(st, seq.args[0], idx, et)
		}
		if r := x.decide(st, c.Slt(idx, n)); r.isTrue() {
			return x.seqAt(st, seq.args[0], idx, et)
		}
		a := x.flatten(st, x.seqAt(st, seq.args[0], idx, et), et)
		var out []*Term
		for i := range a {
			out = append(out, c.Ite(c.Eq(idx, n), seq.args[1+i], a[i]))
		}
		return x.unflatten(st, et, out)
	case seq.op == oApp && strings.HasPrefix(seq.name, "upd:"):
		switch r := x.decide(st, c.Eq(idx, seq.args[1])); {
		case r.isTrue():
			return x.unflatten(st, et, seq.args[2:])
		case r.isFalse():
			return x.seqAt(st, seq.args[0], idx, et)
		}
		a := x.flatten(st, x.seqAt(st, seq.args[0], idx, et), et)
		var out []*Term
		for i := range a {
			out = append(out, c.Ite(c.Eq(idx, seq.args[1]), seq.args[2+i], a[i]))
		}
		return x.unflatten(st, et, out)
	case seq.op == oApp && seq.name == "seq.slice":
		return x.seqAt(st, seq.args[0], c.Add(seq.args[1], idx), et)
	}
	k := typeKey(et)
	v := x.symValue(st, et, "", func(p string, s *Sort) *Term {
		return c.app(s, "at:"+k+":"+p, seq, idx)
	})
	x.typesNotNil(st, et, v)
	return v
}

func (x *Exec) seqSnoc(st *State, seq *Term, v Value, et types.Type) *Term {
	return x.c.App(sSeq, "snoc:"+typeKey(et), append([]*Term{seq}, x.flatten(st, v, et)...)...)
}

func (x *Exec) seqUpd(st *State, seq, idx *Term, v Value, et types.Type) *Term {
	c := x.c
	fl := x.flatten(st, v, et)
	if seq.op == oApp && strings.HasPrefix(seq.name, "snoc:") {
		n := x.seqLen(seq.args[0])
		switch r := x.decide(st, c.Eq(idx, n)); {
		case r.isTrue():
			return c.App(sSeq, seq.name, append([]*Term{seq.args[0]}, fl...)...)
		case r.isFalse():
			return c.App(sSeq, seq.name, append([]*Term{x.seqUpd(st, seq.args[0], idx, v, et)}, seq.args[1:]...)...)
		}
	}
	if seq.op == oApp && strings.HasPrefix(seq.name, "upd:") && seq.args[1] == idx {
		seq = seq.args[0]
	}
	return c.App(sSeq, "upd:"+typeKey(et), append([]*Term{seq, idx}, fl...)...)
}

// seqTake is the part [off, off+n) of a sequence.
func (x *Exec) seqSub(st *State, seq, off, n *Term) *Term {
	c := x.c
	for {
		if off.isConst() && off.val == 0 {
			if n.isConst() && n.val == 0 {
				return x.seqEmpty()
			}
			l := x.seqLen(seq)
			if r := x.decide(st, c.Eq(l, n)); r.isTrue() {
				return seq
			}
			if seq.op == oApp && strings.HasPrefix(seq.name, "snoc:") {
				if r := x.decide(st, c.Sle(n, x.seqLen(seq.args[0]))); r.isTrue() {
					seq = seq.args[0]
					continue
				}
			}
			if seq.op == oApp && strings.HasPrefix(seq.name, "upd:") {
				if r := x.decide(st, c.Sle(n, seq.args[1])); r.isTrue() {
					seq = seq.args[0]
					continue
				}
				if r := x.decide(st, c.Eq(n, c.Add(seq.args[1], c.Int(1)))); r.isTrue() {
					return c.App(sSeq, "snoc:"+strings.TrimPrefix(seq.name, "upd:"), append([]*Term{x.seqSub(st, seq.args[0], off, seq.args[1])}, seq.args[2:]...)...)
				}
			}
		}
		if seq.op == oApp && seq.name == "seq.slice" {
			return x.seqSub(st, seq.args[0], c.Add(seq.args[1], off), n)
		}
		return c.App(sSeq, "seq.slice", seq, off, n)
	}
}

// sliceSeq returns the contents of a slice as a sequence term.
func (x *Exec) sliceSeq(st *State, s *SliceV) *Term {
	if s.obj == 0 {
		return x.seqEmpty()
	}
	switch v := st.obj(x, s.obj).v.(type) {
	case *SeqV:
		return x.seqSub(st, v.seq, s.off, s.len)
	case *ArrV:
		if !s.off.isConst() || !s.len.isConst() {
			l := x.decide(st, s.len)
			if !s.off.isConst() || !l.isConst() {
				// whole contents, then a part of it
				seq := x.seqEmpty()
				for _, e := range v.e {
					seq = x.seqSnoc(st, seq, e, s.et)
				}
				return x.seqSub(st, seq, s.off, s.len)
			}
		}
		seq := x.seqEmpty()
		for i := s.off.val; i < s.off.val+x.decide(st, s.len).val; i++ {
			seq = x.seqSnoc(st, seq, v.e[i], s.et)
		}
		return seq
	case *BufV:
		return x.c.App(sSeq, "seq.buf", v.arr, s.off, s.len)
	}
	unsup("contents of slice")
	return nil
}

// bufArr returns the contents of a byte slice as an array term.
func (x *Exec) bufArr(st *State, s *SliceV, bs *Sort) (arr, off *Term) {
	if s.obj == 0 {
		return x.c.ConstArr(arrSort(bs), x.c.BV(0, bs.W)), x.c.Int(0)
	}
	switch v := st.obj(x, s.obj).v.(type) {
	case *BufV:
		return v.arr, s.off
	case *ArrV:
		a := x.c.ConstArr(arrSort(bs), x.c.BV(0, bs.W))
		for i, e := range v.e {
			a = x.c.Store(a, x.c.Int(int64(i)), e.(*Term))
		}
		return a, s.off
	}
	unsup("contents of byte slice")
	return nil, nil
}

// ---- flattening

func (x *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	if s := scalarSort(t); s != nil {
		return []*Term{x.scalar(st, v, t)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var out []*Term
		sv := v.(*StructV)
		for i := range sv.f {
			out = append(out, x.flatten(st, sv.f[i], u.Field(i).Type())...)
		}
		return out
	case *types.Array:
		var out []*Term
		for _, e := range v.(*ArrV).e {
			out = append(out, x.flatten(st, e, u.Elem())...)
		}
		return out
	case *types.Slice:
		s := v.(*SliceV)
		if bs := bufElem(u.Elem()); bs != nil {
			arr, off := x.bufArr(st, s, bs)
			if s.len.isConst() && s.len.val == 0 {
				return []*Term{x.c.ConstArr(arrSort(bs), x.c.BV(0, bs.W)), x.c.Int(0), s.len}
			}
			return []*Term{arr, off, s.len}
		}
		return []*Term{x.sliceSeq(st, s)}
	case *types.Pointer:
		return []*Term{x.ptrTerm(st, v, u.Elem())}
	case *types.Signature:
		return []*Term{x.funcTerm(st, v)}
	case *types.Map:
		m := v.(*MapRef)
		if m.obj == 0 {
			return []*Term{x.c.Lit(sMap, "nil")}
		}
		return []*Term{x.mapTerm(st, st.obj(x, m.obj).v.(*MapC))}
	case *types.Tuple:
		var out []*Term
		for i, e := range v.(TupleV) {
			out = append(out, x.flatten(st, e, u.At(i).Type())...)
		}
		return out
	}
	unsup("flatten %s", t)
	return nil
}

func (x *Exec) mapTerm(st *State, m *MapC) *Term {
	t := m.base
	if t == nil {
		t = x.c.Lit(sMap, "empty")
	}
	for _, e := range m.ents {
		if e.deleted {
			t = x.c.App(sMap, "map.delete", t, e.k)
			continue
		}
		t = x.c.App(sMap, "map.put:"+typeKey(m.vt), append([]*Term{t, e.k}, x.flatten(st, e.v, m.vt)...)...)
	}
	return t
}

// scalar returns the term of a scalar value.
func (x *Exec) scalar(st *State, v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *IfaceV:
		return x.box(st, v.t, v.v)
	}
	unsup("scalar %T of type %s", v, t)
	return nil
}

func (x *Exec) funcTerm(st *State, v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *FuncV:
		name := fmt.Sprint(v.fn)
		if len(v.bind) > 0 {
			x.nextObj++
			return x.c.App(sFunc, fmt.Sprintf("closure:%s!%d", name, x.nextObj))
		}
		return x.c.Lit(sFunc, name)
	}
	unsup("function %T", v)
	return nil
}

func (x *Exec) ptrTerm(st *State, v Value, et types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *PtrV:
		if v.obj == 0 {
			return x.c.Lit(sRef, "nil")
		}
		o := st.obj(x, v.obj)
		if o.ref != nil && len(v.path) == 0 {
			return o.ref
		}
		if x.flatDepth > 6 {
			return x.c.App(sRef, fmt.Sprintf("addr:%d", v.obj))
		}
		x.flatDepth++
		defer func() { x.flatDepth-- }()
		return x.c.App(sRef, "mkref:"+typeKey(et), x.flatten(st, x.load(st, v), et)...)
	}
	unsup("pointer %T", v)
	return nil
}

// box makes an interface term.
func (x *Exec) box(st *State, t types.Type, v Value) *Term {
	fl := x.flatten(st, v, t)
	k := typeKey(t)
	// box(unbox(i)) = i, the caller knows the dynamic type
	if len(fl) > 0 {
		if pre := "unbox:" + k + ":"; fl[0].op == oApp && strings.HasPrefix(fl[0].name, pre) {
			src := fl[0].args[0]
			same := true
			for _, f := range fl {
				if f.op != oApp || !strings.HasPrefix(f.name, pre) || f.args[0] != src {
					same = false
				}
			}
			if same {
				return src
			}
		}
	}
	x.w.types.id(t)
	b := x.c.App(sIface, "box:"+k, fl...)
	if b.gotyp == nil {
		b.gotyp = t
	}
	return b
}

// unbox extracts the value of type t of an interface term.
func (x *Exec) unbox(st *State, i *Term, t types.Type) Value {
	k := typeKey(t)
	if i.op == oApp && i.name == "box:"+k {
		return x.unflatten(st, t, i.args)
	}
	v := x.symValue(st, t, "", func(p string, s *Sort) *Term {
		return x.c.app(s, "unbox:"+k+":"+p, i)
	})
	x.typesNotNil(st, t, v)
	return v
}

// typesNotNil assumes that the expression types in a data structure are there.
func (x *Exec) typesNotNil(st *State, t types.Type, v Value) {
	switch v := v.(type) {
	case *Term:
		if isNamed(t, exprPath, "Type") && v.op != oLit && !(v.op == oApp && strings.HasPrefix(v.name, "box:")) {
			x.assumed["the types of expression values, and the parts of types, are never nil"] = true
			x.assume(st, x.c.Not(x.c.Eq(v, x.c.Lit(sIface, "nil"))))
		}
	case *StructV:
		u := t.Underlying().(*types.Struct)
		for i, f := range v.f {
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == exprPath {
				x.typesNotNil(st, u.Field(i).Type(), f)
			}
		}
	}
}

// unflatten is the inverse of flatten.
func (x *Exec) unflatten(st *State, t types.Type, ts []*Term) Value {
	i := 0
	last := ""
	v := x.symValue(st, t, "", func(p string, s *Sort) *Term {
		if strings.HasSuffix(p, ".arr") && s.K == kArr {
			last = p
			r := ts[i]
			i++
			return r
		}
		if last != "" && p == strings.TrimSuffix(last, ".arr")+".len" {
			// offset and length
			r := ts[i+1]
			i += 2
			return r
		}
		if last != "" && p == strings.TrimSuffix(last, ".arr")+".cap" {
			return ts[i-1]
		}
		if s != ts[i].s {
			unsup("unflatten %s: %s is %s, not %s", t, p, ts[i].s.Name, s.Name)
		}
		r := ts[i]
		i++
		return r
	})
	if i != len(ts) {
		unsup("unflatten %s: %d of %d terms used", t, i, len(ts))
	}
	// restore the offsets of byte slices
	j := 0
	x.fixOffsets(t, v, ts, &j)
	return v
}

func (x *Exec) fixOffsets(t types.Type, v Value, ts []*Term, j *int) {
	if scalarSort(t) != nil {
		*j++
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i, f := range v.(*StructV).f {
			x.fixOffsets(u.Field(i).Type(), f, ts, j)
		}
	case *types.Array:
		for _, f := range v.(*ArrV).e {
			x.fixOffsets(u.Elem(), f, ts, j)
		}
	case *types.Slice:
		if bufElem(u.Elem()) != nil {
			v.(*SliceV).off = ts[*j+1]
			*j += 3
			return
		}
		*j++
	default:
		*j++
	}
}

// ---- memory

func (st *State) obj(x *Exec, id int) *Obj {
	if o := st.heap[id]; o != nil {
		return o
	}
	if o := x.base[id]; o != nil {
		return o
	}
	unsup("no object %d", id)
	return nil
}

func (st *State) setObj(x *Exec, id int, v Value) {
	o := st.obj(x, id)
	st.heap[id] = &Obj{t: o.t, v: v, ref: nil}
}

func (x *Exec) load(st *State, p *PtrV) Value {
	if p.obj == 0 {
		unsup("load through nil")
	}
	o := st.obj(x, p.obj)
	return x.walk(st, o.v, o.t, p.path)
}

// elemType returns the type of a component.
func stepType(t types.Type, e pathElem) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return u.Field(e.f).Type()
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	unsup("step into %s", t)
	return nil
}

func (x *Exec) walk(st *State, v Value, t types.Type, path []pathElem) Value {
	for k, e := range path {
		et := stepType(t, e)
		switch cv := v.(type) {
		case *StructV:
			v = cv.f[e.f]
		case *ArrV:
			idx := x.decide(st, e.idx)
			if !idx.isConst() {
				return x.iteWalk(st, cv, et, idx, path[k+1:])
			}
			if idx.val >= uint64(len(cv.e)) {
				unsup("index %s out of concrete range %d", idx, len(cv.e))
			}
			v = cv.e[idx.val]
		case *BufV:
			v = x.c.Select(cv.arr, e.idx)
		case *SeqV:
			v = x.seqAt(st, cv.seq, e.idx, et)
		default:
			unsup("walk into %T", v)
		}
		t = et
	}
	return v
}

func (x *Exec) iteWalk(st *State, a *ArrV, et types.Type, idx *Term, rest []pathElem) Value {
	if len(a.e) == 0 || len(a.e) > 256 {
		unsup("symbolic index into %d elements", len(a.e))
	}
	t := et
	for _, e := range rest {
		t = stepType(t, e)
	}
	var out []*Term
	for i := len(a.e) - 1; i >= 0; i-- {
		fl := x.flatten(st, x.walk(st, a.e[i], et, rest), t)
		if out == nil {
			out = fl
			continue
		}
		n := make([]*Term, len(fl))
		for j := range fl {
			n[j] = x.c.Ite(x.c.Eq(idx, x.c.Int(int64(i))), fl[j], out[j])
		}
		out = n
	}
	return x.unflatten(st, t, out)
}

func (x *Exec) store(st *State, p *PtrV, nv Value) {
	if p.obj == 0 {
		unsup("store through nil")
	}
	o := st.obj(x, p.obj)
	if n := x.ro[p.obj]; n != "" && !x.inSpec {
		x.reqs = append(x.reqs, assertion{st.clone(), x.c.F, "writes into the shared result of " + n, "C23"})
	}
	x.sharedWrite(st, p.obj)
	st.setObj(x, p.obj, x.update(st, o.v, o.t, p.path, nv))
}

func (x *Exec) update(st *State, v Value, t types.Type, path []pathElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	et := stepType(t, e)
	switch cv := v.(type) {
	case *StructV:
		n := &StructV{f: append([]Value(nil), cv.f...)}
		n.f[e.f] = x.update(st, cv.f[e.f], et, path[1:], nv)
		return n
	case *ArrV:
		idx := x.decide(st, e.idx)
		n := &ArrV{e: append([]Value(nil), cv.e...)}
		if !idx.isConst() {
			for i := range n.e {
				u := x.flatten(st, x.update(st, cv.e[i], et, path[1:], nv), et)
				old := x.flatten(st, cv.e[i], et)
				for j := range u {
					u[j] = x.c.Ite(x.c.Eq(idx, x.c.Int(int64(i))), u[j], old[j])
				}
				n.e[i] = x.unflatten(st, et, u)
			}
			return n
		}
		if idx.val >= uint64(len(cv.e)) {
			unsup("index %s out of concrete range %d", idx, len(cv.e))
		}
		n.e[idx.val] = x.update(st, cv.e[idx.val], et, path[1:], nv)
		return n
	case *BufV:
		return &BufV{x.c.Store(cv.arr, e.idx, nv.(*Term))}
	case *SeqV:
		el := nv
		if len(path) > 1 {
			el = x.update(st, x.seqAt(st, cv.seq, e.idx, et), et, path[1:], nv)
		}
		return &SeqV{x.seqUpd(st, cv.seq, e.idx, el, et)}
	}
	unsup("update of %T", v)
	return nil
}

// deref turns a pointer value into a PtrV; symbolic references get an object.
func (x *Exec) deref(st *State, v Value, et types.Type) *PtrV {
	switch v := v.(type) {
	case *PtrV:
		return v
	case *Term:
		if v.op == oLit && v.name == "nil" {
			return &PtrV{}
		}
		if id, ok := st.refs[v.id]; ok {
			return &PtrV{obj: id}
		}
		k := typeKey(et)
		var val Value
		if v.op == oApp && v.name == "mkref:"+k {
			val = x.unflatten(st, et, v.args)
		} else {
			val = x.symValue(st, et, "", func(p string, s *Sort) *Term {
				return x.c.app(s, "sel:"+k+":"+p, v)
			})
			x.typesNotNil(st, et, val)
		}
		id := x.newObj(st, et, val)
		st.heap[id].ref = v
		st.refs[v.id] = id
		x.refTerms[v.id] = v
		return &PtrV{obj: id}
	}
	unsup("dereference of %T", v)
	return nil
}
