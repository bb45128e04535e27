package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) loops() *loopCache {
	if x.loopc == nil {
		x.loopc = newLoopCache()
	}
	return x.loopc
}

// invokeTarget is a method of an interface, called on an unknown type.
type invokeTarget struct {
	m  *types.Func
	it types.Type
}

// callee evaluates the function and the arguments of a call.
func (x *Exec) callee(st *State, fr *frame, call *ssa.CallCommon) (Value, []Value, []outcome) {
	var args []Value
	for _, a := range call.Args {
		args = append(args, x.val(st, fr, a))
	}
	v := x.val(st, fr, call.Value)
	if !call.IsInvoke() {
		return v, args, nil
	}
	t := x.scalar(st, v, call.Value.Type())
	return &FuncV{fn: &invokeTarget{call.Method, call.Value.Type()}}, append([]Value{t}, args...), nil
}

// callValue calls a function value.
func (x *Exec) callValue(st *State, fnv Value, args []Value, call *ssa.CallCommon, rec int) []outcome {
	switch f := fnv.(type) {
	case *FuncV:
		switch fn := f.fn.(type) {
		case *ssa.Builtin:
			return x.builtin(st, fn, args, call, rec)
		case *ssa.Function:
			return x.callStatic(st, fn, args, f.bind, rec)
		case *invokeTarget:
			return x.invoke(st, fn, args, rec)
		}
	case *Term:
		if f.op == oLit && f.name == "nil" {
			return []outcome{x.rtPanic(st, "nilfunc")}
		}
		return x.callUnknown(st, f, args, call)
	}
	unsup("call of %T", fnv)
	return nil
}

// callUnknown calls an unknown function: its results are functions of its
// arguments and of what is reachable.
func (x *Exec) callUnknown(st *State, f *Term, args []Value, call *ssa.CallCommon) []outcome {
	sig := call.Signature()
	reads := []*Term{f}
	for i, a := range args {
		reads = append(reads, x.flatten(st, a, sig.Params().At(i).Type())...)
	}
	return x.uf(st, "callfn", reads, sig.Results(), true, true, true)
}

// uf applies an uninterpreted function.
func (x *Exec) uf(st *State, name string, reads []*Term, res *types.Tuple, panics, readsRH, writesRH bool) []outcome {
	c := x.c
	if readsRH || writesRH {
		reads = append(reads[:len(reads):len(reads)], st.rh)
	}
	var out []outcome
	ok := st
	if panics {
		p, f := x.branch(st, c.app(boolSort, name+".panics", reads...))
		ok = f
		if p != nil {
			if writesRH {
				p.rh = c.App(sRH, name+".prh", reads...)
			}
			out = append(out, outcome{kind: oPanic, st: p, pv: c.App(sIface, "ext:"+name+".pv", reads...)})
		}
	}
	if ok == nil {
		return out
	}
	if writesRH {
		ok.rh = c.app(sRH, name+".rh", reads...)
	}
	var vals []Value
	for i := 0; i < res.Len(); i++ {
		pre := name
		if res.Len() > 1 {
			pre = fmt.Sprintf("%s.%d", name, i)
		}
		vals = append(vals, x.symValue(ok, res.At(i).Type(), pre, func(p string, s *Sort) *Term {
			return c.app(s, p, reads...)
		}))
	}
	switch name {
	case "(reflect.Value).Len", "(reflect.Value).Cap", "(reflect.Type).Len", "(reflect.Value).NumField", "(reflect.Type).NumField":
		// lengths
		n := vals[0].(*Term)
		if !x.assume(ok, c.Not(c.Slt(n, c.Int(0)))) || !x.assume(ok, c.Slt(n, c.Int(1<<48))) {
			return out
		}
	case "strconv.ParseUint", "strconv.ParseInt":
		// the result has the size asked for
		if b := reads[2]; b.isConst() && b.val > 0 && b.val < 64 {
			n := vals[0].(*Term)
			fit := c.Ult(n, c.Int(1<<b.val))
			if name == "strconv.ParseInt" {
				lim := int64(1) << (b.val - 1)
				fit = c.And(c.Slt(n, c.Int(lim)), c.Not(c.Slt(n, c.Int(-lim))))
			}
			if !x.assume(ok, fit) {
				return out
			}
		}
	case "strings.IndexByte", "strings.IndexRune", "strings.Index":
		n := vals[0].(*Term)
		if !x.assume(ok, c.Not(c.Slt(n, c.Int(-1)))) || !x.assume(ok, c.Not(c.Slt(x.strLen(ok, reads[0]), n))) {
			return out
		}
	}
	return append([]outcome{ret(ok, vals...)}, out...)
}

func (x *Exec) callStatic(st *State, fn *ssa.Function, args, bind []Value, rec int) []outcome {
	if strings.HasPrefix(fn.Name(), "gv") && fn.Pkg != nil {
		if r, ok := x.ghost(st, fn, args); ok {
			return r
		}
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if h := intrinsics[name]; h != nil {
		return h(x, st, fn, args)
	}
	if fl, ok := ufTable[name]; ok {
		return x.extern(st, name, fn.Signature, args, fl)
	}
	if fn.Name() == "init" && x.depth > 0 && (x.root == nil || fn.Pkg != x.root.Pkg) && fn.Signature.Recv() == nil && len(args) == 0 && fn.Synthetic != "" {
		if x.root == nil {
			return []outcome{ret(st)} // other packages
		}
	}
	if x.useSpec {
		if con := x.w.targets[fn]; con != nil {
			x.used[con.name] = true
			if con.opaque && x.open[con] {
				x.require(st, con, args)
				x.locksFree(st, con)
				return x.callFn(st, con.spec, args, bind, rec)
			}
			if con.opaque {
				return x.callOpaque(st, con, args)
			}
			if !con.inlineCode {
				return x.callFn(st, con.spec, args, bind, rec)
			}
		}
	}
	if len(fn.Blocks) == 0 {
		pkg := ""
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if fn.Object() != nil && fn.Object().Pkg() != nil {
			pkg = fn.Object().Pkg().Path()
		}
		switch pkg {
		case "strings", "strconv", "unicode", "unicode/utf8", "math", "math/bits", "path":
			x.assumed["pure library function "+name] = true
			return x.extern(st, name, fn.Signature, args, "")
		}
		unsup("no contract for external function %s", name)
	}
	return x.callFn(st, fn, args, bind, rec)
}

// extern applies an external function given by flags: P may panic, R reads
// reflected memory, W writes it.
func (x *Exec) extern(st *State, name string, sig *types.Signature, args []Value, fl string) []outcome {
	var reads []*Term
	k := 0
	if sig.Recv() != nil && len(args) > sig.Params().Len() {
		reads = append(reads, x.flatten(st, args[0], sig.Recv().Type())...)
		k = 1
	}
	for i := 0; i < sig.Params().Len(); i++ {
		reads = append(reads, x.flatten(st, args[k+i], sig.Params().At(i).Type())...)
	}
	return x.uf(st, name, reads, sig.Results(), strings.Contains(fl, "P"), strings.Contains(fl, "R"), strings.Contains(fl, "W"))
}

func (x *Exec) invoke(st *State, tgt *invokeTarget, args []Value, rec int) []outcome {
	c := x.c
	t := args[0].(*Term)
	if t.s == sRT {
		name := "(reflect.Type)." + tgt.m.Name()
		if t.op == oLit && t.name == "nil" {
			return []outcome{x.rtPanic(st, "nil")}
		}
		if h := intrinsics[name]; h != nil {
			return h(x, st, nil, args)
		}
		fl, ok := ufTable[name]
		if !ok {
			unsup("no contract for %s", name)
		}
		sig := tgt.m.Type().(*types.Signature)
		reads := []*Term{t}
		for i := 0; i < sig.Params().Len(); i++ {
			reads = append(reads, x.flatten(st, args[1+i], sig.Params().At(i).Type())...)
		}
		return x.uf(st, name, reads, sig.Results(), strings.Contains(fl, "P"), false, false)
	}
	if ty := x.knownType(st, t); ty != nil {
		return x.invokeOn(st, ty, tgt, t, args, rec)
	}
	if tgt.m.Name() == "Kind" && isNamed(tgt.it, exprPath, "Type") {
		return x.invokeKind(st, t)
	}
	// nil receiver
	nt, nn := x.branch(st, c.Eq(t, c.Lit(sIface, "nil")))
	var out []outcome
	if nt != nil {
		out = append(out, x.rtPanic(nt, "nil"))
	}
	if nn == nil {
		return out
	}
	st = nn
	// closed world of implementers
	if impls := x.closedWorld(tgt.it); impls != nil {
		for _, ty := range impls {
			if st == nil {
				break
			}
			id := c.BV(uint64(x.w.types.id(ty)), 32)
			y, n := x.branch(st, c.Eq(x.dyntype(t), id))
			if y != nil {
				out = append(out, x.invokeOn(y, ty, tgt, t, args, rec)...)
			}
			st = n
		}
		return out
	}
	return append(out, x.invokeUnknown(st, tgt, t, args)...)
}

func (x *Exec) invokeOn(st *State, ty types.Type, tgt *invokeTarget, t *Term, args []Value, rec int) []outcome {
	m := x.w.prog.LookupMethod(ty, tgt.m.Pkg(), tgt.m.Name())
	if m == nil {
		// the path contradicts the static type
		return nil
	}
	if len(m.Blocks) == 0 && ufTable[m.String()] == "" && intrinsics[m.String()] == nil {
		return x.invokeUnknown(st, tgt, t, args)
	}
	recv := x.unbox(st, t, ty)
	return x.callStatic(st, m, append([]Value{recv}, args[1:]...), nil, rec)
}

// invokeKind is the kind of an expression type of unknown dynamic type.
func (x *Exec) invokeKind(st *State, t *Term) []outcome {
	c := x.c
	x.assumed["implementations of expr.Value and expr.Type are those of the package, types being pointers made by its constructors"] = true
	nt, nn := x.branch(st, c.Eq(t, c.Lit(sIface, "nil")))
	var out []outcome
	if nn != nil {
		out = append(out, ret(nn, c.App(bv64, "kindof", t)))
	}
	if nt != nil {
		out = append(out, x.rtPanic(nt, "nil"))
	}
	return out
}

func (x *Exec) invokeUnknown(st *State, tgt *invokeTarget, t *Term, args []Value) []outcome {
	name := "invoke:" + typeKey(tgt.it) + "." + tgt.m.Name()
	sig := tgt.m.Type().(*types.Signature)
	reads := []*Term{t}
	for i := 0; i < sig.Params().Len(); i++ {
		reads = append(reads, x.flatten(st, args[1+i], sig.Params().At(i).Type())...)
	}
	if h := unknownMethods[tgt.m.Name()]; h != nil {
		if r := h(x, st, name, sig, t, args, reads); r != nil {
			return r
		}
	}
	return x.uf(st, name, reads, sig.Results(), true, true, true)
}

// closedWorld lists the implementers of unexported-by-construction interfaces.
func (x *Exec) closedWorld(it types.Type) []types.Type {
	var names []string
	switch {
	case isNamed(it, exprPath, "Value"):
		names = []string{"val"}
	case isNamed(it, exprPath, "Type"):
	default:
		return nil
	}
	x.assumed["implementations of expr.Value and expr.Type are those of the package, types being pointers made by its constructors"] = true
	pkg := x.w.pkgs[exprPath]
	u := it.Underlying().(*types.Interface)
	var out []types.Type
	if names == nil {
		for _, n := range pkg.Pkg.Scope().Names() {
			tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() || isIface(tn.Type()) {
				continue
			}
			if p := types.NewPointer(tn.Type()); types.Implements(p, u) {
				out = append(out, p)
			}
		}
		return out
	}
	for _, n := range names {
		tn, ok := pkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			return nil
		}
		out = append(out, tn.Type())
	}
	return out
}

const exprPath = "github.com/go-restruct/restruct/expr"
const rootPath = "github.com/go-restruct/restruct"

// ---- opaque contracts

// resolvePath finds a parameter component such as e.buf. It returns a getter
// and setter by pointer.
func (x *Exec) resolvePath(st *State, con *Contract, args []Value, path string) (Value, types.Type, *PtrV) {
	parts := strings.Split(path, ".")
	idx := -1
	for i, p := range con.spec.Params {
		if p.Name() == parts[0] {
			idx = i
		}
	}
	if idx < 0 {
		unsup("contract %s: no parameter %s", con.name, parts[0])
	}
	t := con.spec.Params[idx].Type()
	v := args[idx]
	if len(parts) == 1 {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			pt := x.deref(st, v, p.Elem())
			return v, t, pt
		}
		return v, t, nil
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		// component of a value
		for _, name := range parts[1:] {
			obj, index, _ := types.LookupFieldOrMethod(t, true, con.spec.Pkg.Pkg, name)
			if obj == nil {
				unsup("contract %s: no field %s", con.name, path)
			}
			for _, i := range index {
				sv := v.(*StructV)
				v = sv.f[i]
				t = t.Underlying().(*types.Struct).Field(i).Type()
			}
		}
		return v, t, nil
	}
	p := x.deref(st, v, pt.Elem())
	if p.obj == 0 {
		unsup("contract %s: nil %s", con.name, parts[0])
	}
	t = pt.Elem()
	np := &PtrV{obj: p.obj, path: p.path[:len(p.path):len(p.path)]}
	for _, name := range parts[1:] {
		if q, ok := t.Underlying().(*types.Pointer); ok {
			np = x.deref(st, x.load(st, np), q.Elem())
			if np.obj == 0 {
				unsup("contract %s: nil %s", con.name, path)
			}
			np = &PtrV{obj: np.obj, path: np.path[:len(np.path):len(np.path)]}
			t = q.Elem()
		}
		obj, index, _ := types.LookupFieldOrMethod(t, true, con.spec.Pkg.Pkg, name)
		if obj == nil {
			unsup("contract %s: no field %s", con.name, path)
		}
		for _, i := range index {
			np.path = append(np.path, pathElem{f: i})
			t = t.Underlying().(*types.Struct).Field(i).Type()
		}
	}
	return x.load(st, np), t, np
}

func (x *Exec) conReads(st *State, con *Contract, args []Value) []*Term {
	var reads []*Term
	if con.reads != nil {
		for _, p := range con.reads {
			if p == "rh" {
				reads = append(reads, st.rh)
				continue
			}
			if q, ok := strings.CutPrefix(p, "len:"); ok {
				v, _, _ := x.resolvePath(st, con, args, q)
				reads = append(reads, v.(*SliceV).len)
				continue
			}
			v, t, _ := x.resolvePath(st, con, args, p)
			if bt, ok := v.(*Term); ok && bt.op == oApp && strings.HasPrefix(bt.name, "box:*") && len(bt.args) == 1 {
				// a known pointer: its target is read
				gt, _ := bt.gotyp.(types.Type)
				if id, ok := st.refs[bt.args[0].id]; ok && gt != nil {
					if pt, ok := gt.Underlying().(*types.Pointer); ok {
						reads = append(reads, x.c.RTLit(gt))
						reads = append(reads, x.flatten(st, x.load(st, &PtrV{obj: id}), pt.Elem())...)
						continue
					}
				}
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				d := x.deref(st, v, pt.Elem())
				reads = append(reads, x.flatten(st, x.load(st, d), pt.Elem())...)
				continue
			}
			reads = append(reads, x.flatten(st, v, t)...)
		}
		return reads
	}
	for i, p := range con.spec.Params {
		reads = append(reads, x.flatten(st, args[i], p.Type())...)
	}
	if !con.pure {
		reads = append(reads, st.rh)
	}
	return reads
}

func (x *Exec) callOpaque(st *State, con *Contract, args []Value) []outcome {
	c := x.c
	x.require(st, con, args)
	x.locksFree(st, con)
	if con.pure && con.nopanic && len(con.spec.Blocks) > 0 && !con.trusted && len(args) > 0 {
		known := true
		for _, a := range args {
			t, ok := a.(*Term)
			known = known && ok && (t.isConst() || t.op == oLit)
		}
		if known {
			return x.callFn(st, con.spec, args, nil, 0)
		}
	}
	for i, p := range con.spec.Params {
		if slices.Contains(con.cache, p.Name()) {
			x.passCache(st, con, args[i])
		}
	}
	reads := x.conReads(st, con, args)
	for i, r := range reads {
		reads[i] = x.decide(st, r)
	}
	havoc := func(st *State, suffix string) {
		for _, m := range con.modifies {
			if slices.Contains(con.silent, m) {
				x.assumed["functions called in expressions do not change the values that are packed, unpacked or sized"] = true
				continue
			}
			if m == "rh" {
				st.rh = c.App(sRH, con.name+suffix+".rh", reads...)
				continue
			}
			v, t, p := x.resolvePath(st, con, args, m)
			if p == nil {
				unsup("contract %s modifies a value", con.name)
			}
			if slices.Contains(con.scratch, m) {
				// what is left there may depend on anything
				x.nscratch++
				x.store(st, p, x.havocVal(st, v, t, fmt.Sprintf("%s.scratch%d.%s", con.name, x.nscratch, m), nil))
				continue
			}
			x.store(st, p, x.havocVal(st, v, t, con.name+suffix+".m."+m, reads))
		}
	}
	var out []outcome
	ok := st
	if !con.nopanic {
		p, f := x.branch(st, c.App(boolSort, con.name+".panics", reads...))
		ok = f
		if p != nil {
			havoc(p, "!p")
			out = append(out, outcome{kind: oPanic, st: p, pv: c.App(sIface, "ext:"+con.name+".pv", reads...)})
		}
	}
	if ok == nil {
		return out
	}
	havoc(ok, "")
	res := con.spec.Signature.Results()
	var vals []Value
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, x.symValue(ok, res.At(i).Type(), fmt.Sprintf("%s.r%d", con.name, i), func(p string, s *Sort) *Term {
			return c.app(s, p, reads...)
		}))
	}
	if con.readonly {
		for _, v := range vals {
			if s, ok := v.(*SliceV); ok && s.obj != 0 {
				x.ro[s.obj] = con.name
			}
		}
	}
	for _, e := range con.ensures {
		// facts promised by the contract
		if !x.runFacts(ok, e, append(append([]Value(nil), args...), vals...)) {
			return out
		}
	}
	return append([]outcome{ret(ok, vals...)}, out...)
}

// havocVal makes an unknown value, keeping the backing store of byte slices.
func (x *Exec) havocVal(st *State, v Value, t types.Type, name string, reads []*Term) Value {
	c := x.c
	if s, ok := v.(*SliceV); ok && s.obj != 0 && bufElem(s.et) != nil {
		if _, ok := st.obj(x, s.obj).v.(*BufV); ok {
			bs := bufElem(s.et)
			st.setObj(x, s.obj, &BufV{c.App(arrSort(bs), name+".arr", reads...)})
			n := c.App(bv64, name+".len", reads...)
			x.litLen(st, n)
			cp := c.App(bv64, name+".cap", reads...)
			x.litLen(st, cp)
			return &SliceV{obj: s.obj, off: c.App(bv64, name+".off", reads...), len: n, cap: cp, et: s.et}
		}
	}
	return x.symValue(st, t, name, func(p string, s *Sort) *Term { return c.App(s, p, reads...) })
}

// runFacts evaluates a boolean ghost function and assumes its result.
func (x *Exec) runFacts(st *State, fn *ssa.Function, args []Value) bool {
	return x.assume(st, x.factTerm(st, fn, args))
}

// require demands the conditions of a contract at a call.
func (x *Exec) require(st *State, con *Contract, args []Value) {
	if x.inSpec {
		return
	}
	for _, r := range con.requires {
		s := st.clone()
		if g := x.decide(s, x.factTerm(s, r, args)); !g.isTrue() {
			x.reqs = append(x.reqs, assertion{s, g, con.name + " requires " + r.Name(), ""})
		} else {
			x.reqs = append(x.reqs, assertion{s, x.c.T, "", ""})
		}
	}
}

// factTerm evaluates a boolean ghost function.
func (x *Exec) factTerm(st *State, fn *ssa.Function, args []Value) *Term {
	save := x.useSpec
	x.useSpec = true
	n := len(st.pc)
	outs := x.callFn(st.clone(), fn, args, nil, -1)
	x.useSpec = save
	if len(outs) == 1 && outs[0].kind == oRet {
		*st = *outs[0].st
		return outs[0].vals[0].(*Term)
	}
	// the paths are a partition
	var ts []*Term
	for _, o := range outs {
		if o.kind == oRet {
			ts = append(ts, x.c.And(append(append([]*Term(nil), o.st.pc[n:]...), o.vals[0].(*Term))...))
		} else if o.kind != oPanic {
			unsup("loop in condition %s", fn)
		}
	}
	return x.c.Or(ts...)
}

// ---- builtins

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Value, call *ssa.CallCommon, rec int) []outcome {
	c := x.c
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case *SliceV:
			if b.Name() == "cap" {
				return []outcome{ret(st, v.cap)}
			}
			return []outcome{ret(st, v.len)}
		case *Term:
			return []outcome{ret(st, x.strLen(st, v))}
		case *ArrV:
			return []outcome{ret(st, c.Int(int64(len(v.e))))}
		case *MapRef:
			if v.obj == 0 {
				return []outcome{ret(st, c.Int(0))}
			}
			x.guarded(st, st.obj(x, v.obj).v.(*MapC), false)
			n := c.app(bv64, "map.len", x.mapTerm(st, st.obj(x, v.obj).v.(*MapC)))
			return []outcome{ret(st, n)}
		}
	case "append":
		return x.append(st, args, call)
	case "copy":
		return x.copy(st, args, call)
	case "recover":
		// the record of the panic is that of the deferred call
		r := x.recRec
		if r < 0 || r >= len(st.panics) || st.panics[r].recovered {
			return []outcome{ret(st, c.Lit(sIface, "nil"))}
		}
		st.panics[r].recovered = true
		pv := st.panics[r].pv
		return []outcome{ret(st, pv)}
	case "real", "imag":
		t := args[0].(*Term)
		s := sF64
		if t.s == sC64 {
			s = sF32
		}
		// a conversion converts both parts, complex() has them
		cv, narrow := t, t.op == oApp && t.name == "conv:"+sC128.Name+":"+sC64.Name
		if narrow {
			cv = t.args[0]
		}
		var r *Term
		if cv.op == oApp && cv.name == "complex"+cv.s.Name {
			r = cv.args[0]
			if b.Name() == "imag" {
				r = cv.args[1]
			}
		} else {
			r = c.app(scalarSort(partType(cv.s)), b.Name()+cv.s.Name, cv)
		}
		if narrow {
			r = x.convScalar(r, types.Typ[types.Float64], types.Typ[types.Float32])
		}
		if r.s != s {
			unsup("%s of %s", b.Name(), t.s.Name)
		}
		return []outcome{ret(st, r)}
	case "complex":
		a, d := args[0].(*Term), args[1].(*Term)
		s := sC128
		if a.s == sF32 {
			s = sC64
		}
		return []outcome{ret(st, c.app(s, "complex"+s.Name, a, d))}
	case "delete":
		m := args[0].(*MapRef)
		if m.obj != 0 {
			mc := st.obj(x, m.obj).v.(*MapC)
			x.guarded(st, mc, true)
			x.sharedWrite(st, m.obj)
			n := *mc
			n.ents = append(mc.ents[:len(mc.ents):len(mc.ents)], mapEnt{k: x.keyTerm(st, args[1], mc.kt), deleted: true})
			st.setObj(x, m.obj, &n)
		}
		return []outcome{ret(st)}
	case "min", "max":
		r := args[0].(*Term)
		for i, a := range args[1:] {
			t := a.(*Term)
			var lt *Term
			if isSigned(call.Args[i+1].Type()) {
				lt = c.Slt(t, r)
			} else {
				lt = c.Ult(t, r)
			}
			if b.Name() == "max" {
				lt = c.And(c.Not(lt))
			}
			r = c.Ite(lt, t, r)
		}
		return []outcome{ret(st, r)}
	case "ssa:wrapnilchk":
		return []outcome{ret(st, args[0])}
	}
	unsup("builtin %s", b.Name())
	return nil
}

func (x *Exec) append(st *State, args []Value, call *ssa.CallCommon) []outcome {
	c := x.c
	s := args[0].(*SliceV)
	if len(args) == 1 {
		return []outcome{ret(st, s)}
	}
	if t, ok := args[1].(*Term); ok { // string
		n := x.strLen(st, t)
		arr := c.app(arrSort(bv8), "str.arr", t)
		args = []Value{s, &SliceV{obj: x.newObj(st, types.NewSlice(types.Typ[types.Byte]), &BufV{arr}), off: c.Int(0), len: n, cap: n, et: types.Typ[types.Byte]}}
	}
	a := args[1].(*SliceV)
	if bs := bufElem(s.et); bs != nil {
		sl, al := x.decide(st, s.len), x.decide(st, a.len)
		if al.isConst() && al.val == 0 && s.obj != 0 {
			return []outcome{ret(st, s)}
		}
		arr, off := x.bufArr(st, s, bs)
		aarr, aoff := x.bufArr(st, a, bs)
		var res *Term
		if sl.isConst() && sl.val == 0 {
			res = x.subArr(aarr, aoff, al, bs)
		} else if al.isConst() && al.val <= 16 {
			res = x.subArr(arr, off, sl, bs)
			for k := int64(0); k < int64(al.val); k++ {
				res = c.Store(res, c.Add(sl, c.Int(k)), c.Select(aarr, c.Add(aoff, c.Int(k))))
			}
		} else {
			res = c.app(arrSort(bs), "buf.append", arr, off, sl, aarr, aoff, al)
		}
		n := c.Add(sl, al)
		x.litLen(st, n)
		x.assumed["append does not write into memory that is visible elsewhere"] = true
		return []outcome{ret(st, &SliceV{obj: x.newObj(st, types.NewSlice(s.et), &BufV{res}), off: c.Int(0), len: n, cap: n, et: s.et})}
	}
	seq := x.sliceSeq(st, s)
	al := x.decide(st, a.len)
	if !al.isConst() {
		seq = c.app(sSeq, "seq.cat", seq, x.sliceSeq(st, a))
	} else {
		for k := uint64(0); k < al.val; k++ {
			e := x.walk(st, st.obj(x, a.obj).v, types.NewSlice(s.et), []pathElem{{idx: c.Add(a.off, c.Int(int64(k)))}})
			seq = x.seqSnoc(st, seq, e, s.et)
		}
	}
	x.assumed["append does not write into memory that is visible elsewhere"] = true
	// known contents stay concrete
	if al.isConst() {
		if sl := x.decide(st, s.len); sl.isConst() && sl.val+al.val <= 64 && s.off.isConst() {
			n := &ArrV{}
			ok := true
			if s.obj != 0 && sl.val > 0 {
				av, isArr := st.obj(x, s.obj).v.(*ArrV)
				if isArr {
					n.e = append(n.e, av.e[s.off.val:s.off.val+sl.val]...)
				} else {
					ok = false
				}
			}
			if ok {
				for k := uint64(0); k < al.val; k++ {
					n.e = append(n.e, x.walk(st, st.obj(x, a.obj).v, types.NewSlice(s.et), []pathElem{{idx: c.Add(a.off, c.Int(int64(k)))}}))
				}
				l := c.Int(int64(len(n.e)))
				return []outcome{ret(st, &SliceV{obj: x.newObj(st, types.NewSlice(s.et), n), off: c.Int(0), len: l, cap: l, et: s.et})}
			}
		}
	}
	return []outcome{ret(st, x.seqSlice(st, seq, s.et))}
}

// subArr is the array shifted to start at off.
func (x *Exec) subArr(arr, off, n *Term, bs *Sort) *Term {
	if off.isConst() && off.val == 0 {
		return arr
	}
	if n.isConst() && n.val <= 16 {
		r := x.c.ConstArr(arrSort(bs), x.c.BV(0, bs.W))
		for k := int64(0); k < int64(n.val); k++ {
			r = x.c.Store(r, x.c.Int(k), x.c.Select(arr, x.c.Add(off, x.c.Int(k))))
		}
		return r
	}
	return x.c.app(arrSort(bs), "buf.shift", arr, off)
}

func (x *Exec) copy(st *State, args []Value, call *ssa.CallCommon) []outcome {
	c := x.c
	d := args[0].(*SliceV)
	s, ok := args[1].(*SliceV)
	if !ok {
		unsup("copy of string")
	}
	bs := bufElem(d.et)
	if bs == nil {
		unsup("copy of %s", d.et)
	}
	dv, sv := *d, *s
	d, s = &dv, &sv
	d.len, s.len = x.decide(st, d.len), x.decide(st, s.len)
	// the shorter one decides
	var out []outcome
	lt, ge := x.branch(st, c.Slt(d.len, s.len))
	for k, st := range []*State{lt, ge} {
		if st == nil {
			continue
		}
		n := s.len
		if k == 0 {
			n = d.len
		}
		n = x.decide(st, n)
		if d.obj != 0 && s.obj != 0 {
			sarr, soff := x.bufArr(st, s, bs)
			darr, doff := x.bufArr(st, d, bs)
			if n.isConst() && n.val <= 16 {
				r := darr
				for k := int64(0); k < int64(n.val); k++ {
					r = c.Store(r, c.Add(doff, c.Int(k)), c.Select(sarr, c.Add(soff, c.Int(k))))
				}
				darr = r
			} else if !n.isConst() && s.len.isConst() && s.len.val <= 16 || !n.isConst() && d.len.isConst() && d.len.val <= 16 {
				// case split on the length
				lim := s.len
				if !lim.isConst() || d.len.isConst() {
					lim = d.len
				}
				for v := uint64(0); v <= lim.val && st != nil; v++ {
					y, nn := x.branch(st, c.Eq(n, c.BV(v, 64)))
					if y != nil {
						r := darr
						for k := int64(0); k < int64(v); k++ {
							r = c.Store(r, c.Add(doff, c.Int(k)), c.Select(sarr, c.Add(soff, c.Int(k))))
						}
						y.setObj(x, d.obj, &BufV{r})
						out = append(out, ret(y, c.BV(v, 64)))
					}
					st = nn
				}
				continue
			} else {
				darr = c.app(arrSort(bs), "buf.copy", darr, doff, sarr, soff, n)
			}
			st.setObj(x, d.obj, &BufV{darr})
		}
		out = append(out, ret(st, n))
	}
	return out
}

func partType(s *Sort) types.Type {
	if s == sC64 {
		return types.Typ[types.Float32]
	}
	return types.Typ[types.Float64]
}
