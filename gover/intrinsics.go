package main

import (
	"go/types"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ufTable lists the external functions that are uninterpreted: P may panic, R
// reads reflected memory, W writes it.
var ufTable = map[string]string{
	"(reflect.Value).Kind": "", "(reflect.Value).IsValid": "", "(reflect.Value).CanAddr": "", "(reflect.Value).CanSet": "",
	"(reflect.Value).CanInterface": "", "(reflect.Value).Type": "P", "(reflect.Value).Addr": "P",
	"(reflect.Value).Interface": "PR", "(reflect.Value).Int": "PR", "(reflect.Value).Uint": "PR", "(reflect.Value).Float": "PR",
	"(reflect.Value).Complex": "PR", "(reflect.Value).Bool": "PR", "(reflect.Value).String": "PR", "(reflect.Value).Bytes": "PR",
	"(reflect.Value).Len": "PR", "(reflect.Value).Cap": "PR", "(reflect.Value).IsNil": "PR", "(reflect.Value).Elem": "PR",
	"(reflect.Value).Index": "PR", "(reflect.Value).Field": "P", "(reflect.Value).FieldByName": "PR", "(reflect.Value).NumField": "P",
	"(reflect.Value).FieldByIndex": "PR", "(reflect.Value).MapIndex": "PR", "(reflect.Value).MapKeys": "PR", "(reflect.Value).NumMethod": "P",
	"(reflect.Value).Method": "P", "(reflect.Value).MethodByName": "P", "(reflect.Value).Convert": "PR", "(reflect.Value).Call": "PRW",
	"(reflect.Value).Set": "PW", "(reflect.Value).SetBool": "PW", "(reflect.Value).SetInt": "PW", "(reflect.Value).SetUint": "PW",
	"(reflect.Value).SetFloat": "PW", "(reflect.Value).SetComplex": "PW", "(reflect.Value).SetString": "PW", "(reflect.Value).SetBytes": "PW",
	"(reflect.Value).SetLen": "PW", "(reflect.Value).Slice": "PR", "(reflect.Value).Pointer": "PR", "(reflect.Value).IsZero": "PR",
	"(reflect.Value).SetMapIndex": "PW", "(reflect.Value).OverflowInt": "P", "(reflect.Value).OverflowUint": "P",
	"reflect.Zero": "P", "reflect.New": "PW", "reflect.MakeSlice": "PW", "reflect.Append": "PW", "reflect.AppendSlice": "PW",
	"reflect.Copy": "PW", "reflect.Indirect": "PR",
	"reflect.SliceOf": "P", "reflect.PtrTo": "P", "reflect.PointerTo": "P", "reflect.MapOf": "P", "reflect.ArrayOf": "P", "reflect.FuncOf": "P", "reflect.StructOf": "P",
	"reflect.DeepEqual":   "",
	"(reflect.Type).Kind": "", "(reflect.Type).Elem": "P", "(reflect.Type).Len": "P", "(reflect.Type).Name": "", "(reflect.Type).String": "",
	"(reflect.Type).NumField": "P", "(reflect.Type).Field": "P", "(reflect.Type).PkgPath": "", "(reflect.Type).AssignableTo": "P",
	"(reflect.Type).Implements": "P", "(reflect.Type).ConvertibleTo": "P", "(reflect.Type).Key": "P", "(reflect.Type).NumIn": "P",
	"(reflect.Type).NumOut": "P", "(reflect.Type).In": "P", "(reflect.Type).Out": "P", "(reflect.Type).IsVariadic": "P",
	"(reflect.Type).NumMethod": "", "(reflect.Type).Size": "", "(reflect.Type).Bits": "P", "(reflect.Type).Comparable": "",
	"(reflect.Type).FieldByName": "P", "(reflect.Type).MethodByName": "", "(reflect.Type).Method": "P", "(reflect.Type).Align": "",
	"(reflect.Kind).String": "", "(reflect.StructTag).Get": "", "(reflect.StructTag).Lookup": "",
	"math.Float32bits": "", "math.Float64bits": "", "math.Float32frombits": "", "math.Float64frombits": "",
	"strings.IndexByte": "", "strings.IndexRune": "", "strings.Index": "", "strings.HasPrefix": "", "strings.HasSuffix": "", "strings.TrimSpace": "",
	"strings.ContainsRune": "", "strings.Contains": "", "strings.ToLower": "", "strings.ToUpper": "", "strings.EqualFold": "", "strings.Join": "",
	"strings.TrimPrefix": "", "strings.TrimSuffix": "", "strings.ContainsAny": "", "strings.TrimLeft": "", "strings.TrimRight": "",
	"strconv.ParseInt": "", "strconv.ParseUint": "", "strconv.ParseFloat": "", "strconv.Atoi": "", "strconv.ParseBool": "", "strconv.Itoa": "",
	"strconv.Quote": "", "strconv.Unquote": "", "strconv.UnquoteChar": "",
	"unicode.IsLetter": "", "unicode.IsDigit": "", "unicode.IsSpace": "", "unicode.IsUpper": "", "unicode.IsLower": "", "unicode.IsPrint": "",
	"unicode/utf8.DecodeRuneInString": "", "unicode/utf8.RuneCountInString": "", "unicode/utf8.RuneLen": "",
	"go/token.IsExported": "", "go/ast.IsExported": "", "os.Getenv": "", "go/parser.ParseExpr": "",
	"bytes.NewBufferString": "", "bytes.NewBuffer": "", "bytes.NewReader": "", "strings.NewReader": "",
}

type intrinsic func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome

var intrinsics map[string]intrinsic

// unknownMethods handles methods of interfaces on values of unknown type.
var unknownMethods map[string]func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome

// formatted lists the arguments of a function like Sprintf.
func formatted(x *Exec, st *State, fn *ssa.Function, args []Value) []*Term {
	sig := fn.Signature
	var reads []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		if s, ok := args[i].(*SliceV); ok && s.len.isConst() && s.obj != 0 {
			// wrapped values keep their identity
			for k := uint64(0); k < s.len.val; k++ {
				e := x.walk(st, st.obj(x, s.obj).v, types.NewSlice(s.et), []pathElem{{idx: x.c.Add(s.off, x.c.Int(int64(k)))}})
				reads = append(reads, x.flatten(st, e, s.et)...)
			}
			continue
		}
		reads = append(reads, x.flatten(st, args[i], sig.Params().At(i).Type())...)
	}
	return reads
}

func ownErr(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
	return []outcome{ret(st, x.c.App(sIface, "own:"+fn.String(), formatted(x, st, fn, args)...))}
}

func pureStr(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
	return []outcome{ret(st, x.c.app(sStr, fn.String(), formatted(x, st, fn, args)...))}
}

// encodeRune writes the UTF-8 encoding of a rune.
func encodeRune(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
	c := x.c
	r := args[1].(*Term)
	w := func(v uint64) *Term { return c.BV(v, 32) }
	bad := c.Or(c.Ult(w(0x10ffff), r), c.And(c.Not(c.Ult(r, w(0xd800))), c.Ult(r, w(0xe000))))
	r = c.Ite(bad, w(0xfffd), r)
	part := func(hi, lo int, or uint64) *Term {
		return c.BOr(c.Zext(c.Extract(r, hi, lo), 8), c.BV(or, 8))
	}
	var out []outcome
	for n, lim := range []uint64{0x80, 0x800, 0x10000, 0} {
		now := st
		if lim != 0 {
			now, st = x.branch(st, c.Ult(r, w(lim)))
		}
		if now == nil {
			continue
		}
		var b []*Term
		switch n {
		case 0:
			b = []*Term{part(7, 0, 0)}
		case 1:
			b = []*Term{part(10, 6, 0xc0), part(5, 0, 0x80)}
		case 2:
			b = []*Term{part(15, 12, 0xe0), part(11, 6, 0x80), part(5, 0, 0x80)}
		case 3:
			b = []*Term{part(20, 18, 0xf0), part(17, 12, 0x80), part(11, 6, 0x80), part(5, 0, 0x80)}
		}
		d := args[0].(*SliceV)
		short, fits := x.branch(now, c.Slt(d.len, c.Int(int64(len(b)))))
		if short != nil {
			out = append(out, x.rtPanic(short, "index"))
		}
		if fits != nil {
			a := c.ConstArr(arrSort(bv8), c.BV(0, 8))
			for k, e := range b {
				a = c.Store(a, c.Int(int64(k)), e)
			}
			l := c.Int(int64(len(b)))
			src := &SliceV{obj: x.newObj(fits, types.NewSlice(d.et), &BufV{a}), off: c.Int(0), len: l, cap: l, et: d.et}
			out = append(out, x.copy(fits, []Value{d, src}, nil)...)
		}
		if st == nil {
			break
		}
	}
	return out
}

func lockOp(name string) intrinsic {
	return func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		return x.lock(st, name, args[0])
	}
}

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Errorf": ownErr, "errors.New": ownErr,
		"fmt.Sprintf": pureStr, "fmt.Sprint": pureStr, "fmt.Sprintln": pureStr,
		"reflect.TypeOf": func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
			return []outcome{ret(st, x.c.app(sRT, "typeof", args[0].(*Term)))}
		},
		"reflect.ValueOf": func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
			return []outcome{ret(st, x.c.app(sRV, "valueof", args[0].(*Term)))}
		},
		"(*sync.Mutex).Lock": lockOp("Lock"), "(*sync.Mutex).Unlock": lockOp("Unlock"),
		"(*sync.RWMutex).Lock": lockOp("Lock"), "(*sync.RWMutex).Unlock": lockOp("Unlock"),
		"(*sync.RWMutex).RLock": lockOp("RLock"), "(*sync.RWMutex).RUnlock": lockOp("RUnlock"),
	}
	for n, f := range map[string]func(rune) bool{
		"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPrint": unicode.IsPrint,
	} {
		n, f := "unicode."+n, f
		intrinsics[n] = func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
			if t := args[0].(*Term); t.isConst() {
				return []outcome{ret(st, x.c.Bool(f(rune(uint32(t.val)))))}
			}
			return x.extern(st, n, fn.Signature, args, "")
		}
	}
	intrinsics["unicode/utf8.EncodeRune"] = encodeRune
	intrinsics["unicode/utf8.DecodeRuneInString"] = func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		c := x.c
		s := args[0].(*Term)
		if s.op == oLit {
			r, w := utf8.DecodeRuneInString(s.name)
			return []outcome{ret(st, c.BV(uint64(uint32(r)), 32), c.Int(int64(w)))}
		}
		var out []outcome
		none, some := x.branch(st, c.Eq(x.strLen(st, s), c.Int(0)))
		if none != nil {
			out = append(out, ret(none, c.BV(utf8.RuneError, 32), c.Int(0)))
		}
		if some != nil {
			r, w := x.decodeRune(some, s, c.F)
			out = append(out, ret(some, r, w))
		}
		return out
	}
	intrinsics["(reflect.Type).Bits"] = func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		c := x.c
		k := c.App(bv64, "(reflect.Type).Kind", args[0].(*Term))
		var out []outcome
		in, other := x.branch(st, c.And(c.Not(c.Ult(k, c.Int(2))), c.Ult(k, c.Int(17))))
		if other != nil {
			out = append(out, outcome{kind: oPanic, st: other, pv: c.App(sIface, "ext:(reflect.Type).Bits.pv", args[0].(*Term))})
		}
		if in != nil {
			n := c.Int(128)
			for kind, bits := range []int64{2: 64, 8, 16, 32, 64, 64, 8, 16, 32, 64, 64, 32, 64, 64} {
				if bits != 0 {
					n = c.Ite(c.Eq(k, c.Int(int64(kind))), c.Int(bits), n)
				}
			}
			out = append(out, ret(in, x.decide(in, n)))
		}
		return out
	}
	index := func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		c := x.c
		s, k := args[0].(*Term), args[1].(*Term)
		if k.s == sStr {
			if k.op != oLit {
				return x.extern(st, fn.String(), fn.Signature, args, "")
			}
			if s.op == oLit {
				return []outcome{ret(st, c.Int(int64(strings.Index(s.name, k.name))))}
			}
		} else if k.isConst() {
			k = c.Lit(sStr, string(rune(k.val)))
			if fn.Name() == "IndexByte" && args[1].(*Term).val >= 0x80 {
				return x.extern(st, fn.String(), fn.Signature, args, "")
			}
		} else {
			return x.extern(st, fn.String(), fn.Signature, args, "")
		}
		n := c.App(bv64, "strings.Index", s, k)
		if !x.assume(st, c.Not(c.Slt(n, c.Int(-1)))) || !x.assume(st, c.Or(c.Eq(n, c.Int(-1)), c.Not(c.Slt(c.Sub(x.strLen(st, s), c.Int(int64(len(k.name)))), n)))) {
			return nil
		}
		return []outcome{ret(st, n)}
	}
	intrinsics["strings.Index"], intrinsics["strings.IndexByte"], intrinsics["strings.IndexRune"] = index, index, index
	contains := func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		k := args[1].(*Term)
		if k.s == sStr && k.op == oLit || k.s != sStr && k.isConst() {
			var out []outcome
			for _, o := range index(x, st, fn, args) {
				out = append(out, ret(o.st, x.c.Not(x.c.Slt(o.vals[0].(*Term), x.c.Int(0)))))
			}
			return out
		}
		return x.extern(st, fn.String(), fn.Signature, args, "")
	}
	intrinsics["strings.Contains"], intrinsics["strings.ContainsRune"] = contains, contains
	intrinsics["strings.SplitN"] = func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		c := x.c
		s, sep, n := args[0].(*Term), args[1].(*Term), args[2].(*Term)
		if sep.op != oLit || sep.name == "" || !n.isConst() || n.val != 2 {
			unsup("strings.SplitN other than into two parts")
		}
		mk := func(st *State, parts ...Value) []outcome {
			l := c.Int(int64(len(parts)))
			return []outcome{ret(st, &SliceV{obj: x.newObj(st, types.NewArray(types.Typ[types.String], int64(len(parts))), &ArrV{e: parts}), off: c.Int(0), len: l, cap: l, et: types.Typ[types.String]})}
		}
		var out []outcome
		for _, o := range index(x, st, fn, args[:2]) {
			k := o.vals[0].(*Term)
			no, yes := x.branch(o.st, c.Slt(k, c.Int(0)))
			if no != nil {
				out = append(out, mk(no, s)...)
			}
			if yes != nil {
				out = append(out, mk(yes, x.strSub(yes, s, c.Int(0), k), x.strSub(yes, s, c.Add(k, c.Int(int64(len(sep.name)))), x.strLen(yes, s)))...)
			}
		}
		return out
	}
	intrinsics["strings.HasPrefix"] = func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		c := x.c
		s, p := args[0].(*Term), args[1].(*Term)
		if p.op != oLit || len(p.name) > 64 {
			return x.extern(st, "strings.HasPrefix", fn.Signature, args, "")
		}
		all := []*Term{c.Not(c.Slt(x.strLen(st, s), c.Int(int64(len(p.name)))))}
		for k := range p.name {
			all = append(all, c.Eq(x.strAt(st, s, c.Int(int64(k))), c.BV(uint64(p.name[k]), 8)))
		}
		return []outcome{ret(st, c.And(all...))}
	}
	wrap := func(x *Exec, st *State, fn *ssa.Function, args []Value) []outcome {
		var out []outcome
		isNil, not := x.branch(st, x.c.Eq(args[0].(*Term), x.c.Lit(sIface, "nil")))
		if isNil != nil {
			out = append(out, ret(isNil, x.c.Lit(sIface, "nil")))
		}
		if not != nil {
			out = append(out, ownErr(x, not, fn, args)...)
		}
		return out
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		intrinsics["github.com/pkg/errors."+n] = wrap
	}
	intrinsics["github.com/pkg/errors.New"], intrinsics["github.com/pkg/errors.Errorf"] = ownErr, ownErr
	codec := func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome {
		// func(buf []byte, order binary.ByteOrder) ([]byte, error)
		if sig.Params().Len() != 2 || sig.Results().Len() != 2 {
			return nil
		}
		c := x.c
		x.assumed["custom codecs return a part of the buffer they are given, and do not touch the state of the traversal"] = true
		buf := args[1].(*SliceV)
		reads = append(reads, st.rh)
		var out []outcome
		p, ok := x.branch(st, c.App(boolSort, name+".panics", reads...))
		if p != nil {
			p.rh = c.App(sRH, name+".prh", reads...)
			out = append(out, outcome{kind: oPanic, st: p, pv: c.App(sIface, "ext:"+name+".pv", reads...)})
		}
		if ok != nil {
			ok.rh = c.App(sRH, name+".rh", reads...)
			v := x.havocVal(ok, buf, sig.Results().At(0).Type(), name+".buf", reads)
			out = append(out, ret(ok, v, c.App(sIface, name+".err", reads...)))
		}
		return out
	}
	runes := func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome {
		c := x.c
		x.assumed["a RuneScanner yields the same rune again after UnreadRune, and does not panic"] = true
		if sig.Results().Len() == 3 {
			a := []*Term{t, st.rh}
			vals := []Value{c.App(bvSort(32), "runes.next", a...), c.App(bv64, "runes.size", a...), c.App(sIface, "runes.err", a...)}
			st.rh = c.App(sRH, "runes.read", a...)
			return []outcome{ret(st, vals...)}
		}
		if sig.Results().Len() == 1 && len(sig.Params().String()) == 2 {
			if st.rh.op == oApp && st.rh.name == "runes.read" && st.rh.args[0] == t {
				st.rh = st.rh.args[1]
				return []outcome{ret(st, c.Lit(sIface, "nil"))}
			}
			err := c.App(sIface, "runes.unread.err", t, st.rh)
			st.rh = c.App(sRH, "runes.unread", t, st.rh)
			return []outcome{ret(st, err)}
		}
		return nil
	}
	unknownMethods = map[string]func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome{
		"Pack": codec, "Unpack": codec, "ReadRune": runes, "UnreadRune": runes,
		"Error": func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome {
			return []outcome{ret(st, x.c.app(sStr, "error.Error", t))}
		},
		"Resolve": func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome {
			return x.uf(st, name, reads, sig.Results(), true, true, false)
		},
		"String": func(x *Exec, st *State, name string, sig *types.Signature, t *Term, args []Value, reads []*Term) []outcome {
			return x.uf(st, name, reads, sig.Results(), false, false, false)
		},
	}
}

// ---- strings

func (x *Exec) strLen(st *State, s *Term) *Term {
	c := x.c
	switch {
	case s.op == oLit:
		return c.Int(int64(len(s.name)))
	case s.op == oApp && s.name == "str.sub":
		return c.Sub(s.args[2], s.args[1])
	case s.op == oApp && s.name == "str.cat":
		return c.Add(x.strLen(st, s.args[0]), x.strLen(st, s.args[1]))
	case s.op == oApp && s.name == "str.of":
		return s.args[2]
	}
	n := c.App(bv64, "str.len", s)
	x.litLen(st, n)
	return n
}

func (x *Exec) strIndex(st *State, s, idx *Term) []outcome {
	c := x.c
	n := x.strLen(st, s)
	t, f := x.branch(st, c.Ult(idx, n))
	var out []outcome
	if t != nil {
		out = append(out, ret(t, x.strAt(t, s, idx)))
	}
	if f != nil {
		out = append(out, x.rtPanic(f, "index"))
	}
	return out
}

func (x *Exec) strAt(st *State, s, idx *Term) *Term {
	c := x.c
	idx = x.decide(st, idx)
	if s.op == oLit && idx.isConst() && idx.val < uint64(len(s.name)) {
		return c.BV(uint64(s.name[idx.val]), 8)
	}
	if s.op == oApp && s.name == "str.sub" {
		return x.strAt(st, s.args[0], c.Add(s.args[1], idx))
	}
	if s.op == oApp && s.name == "str.of" {
		return c.Select(s.args[0], c.Add(s.args[1], idx))
	}
	return c.App(bv8, "str.at", s, idx)
}

func (x *Exec) strSub(st *State, s, lo, hi *Term) *Term {
	c := x.c
	lo, hi = x.decide(st, lo), x.decide(st, hi)
	if s.op == oLit && lo.isConst() && hi.isConst() {
		return c.Lit(sStr, s.name[lo.val:hi.val])
	}
	if lo == hi {
		return c.Lit(sStr, "")
	}
	if s.op == oApp && s.name == "str.sub" {
		return x.strSub(st, s.args[0], c.Add(s.args[1], lo), c.Add(s.args[1], hi))
	}
	if s.op == oApp && s.name == "str.of" {
		return x.strOf(st, s.args[0], c.Add(s.args[1], lo), c.Sub(hi, lo))
	}
	if lo.isConst() && lo.val == 0 && x.decide(st, c.Eq(hi, x.strLen(st, s))).isTrue() {
		return s
	}
	return c.App(sStr, "str.sub", s, lo, hi)
}

func (x *Exec) strOf(st *State, arr, off, n *Term) *Term {
	c := x.c
	if arr.op == oApp && arr.name == "str.arr" {
		return x.strSub(st, arr.args[0], off, c.Add(off, n))
	}
	if n.isConst() && n.val == 0 {
		return c.Lit(sStr, "")
	}
	return c.App(sStr, "str.of", arr, off, n)
}

func (x *Exec) strCat(st *State, a, b *Term) *Term {
	if a.op == oLit && b.op == oLit {
		return x.c.Lit(sStr, a.name+b.name)
	}
	if a.op == oLit && a.name == "" {
		return b
	}
	if b.op == oLit && b.name == "" {
		return a
	}
	return x.c.App(sStr, "str.cat", a, b)
}

// lock updates the ghost state of a lock: free, r or w.
func (x *Exec) lock(st *State, op string, p Value) []outcome {
	pv, ok := p.(*PtrV)
	if !ok {
		unsup("lock of unknown object")
	}
	var key strings.Builder
	key.WriteString("lock:")
	key.WriteString(itoa(pv.obj))
	for _, e := range pv.path {
		key.WriteString("." + itoa(e.f))
	}
	k := key.String()
	cur := st.gh[k]
	state := "free"
	if cur != nil {
		state = cur.name
	}
	next := ""
	switch {
	case op == "Lock" && state == "free":
		next = "w"
	case op == "RLock" && state == "free":
		next = "r"
	case op == "Unlock" && state == "w":
		next = "free"
		x.giveOut(st, k)
	case op == "RUnlock" && state == "r":
		next = "free"
	default:
		return []outcome{{kind: oPanic, st: st, pv: x.c.App(sIface, "rt:lock "+op+" in state "+state)}}
	}
	st.gh[k] = x.c.Lit(unSort("LockState"), next)
	return []outcome{ret(st)}
}

func itoa(i int) string {
	return strings.TrimSpace(strings.Join([]string{intStr(i)}, ""))
}

func intStr(i int) string {
	if i < 0 {
		return "-" + intStr(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return intStr(i/10) + string(rune('0'+i%10))
}
