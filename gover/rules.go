package main

import (
	"go/types"
	"strings"
)

// kindNum is the reflect.Kind of a type.
func kindNum(t types.Type) (uint64, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1, true
		case types.Int:
			return 2, true
		case types.Int8:
			return 3, true
		case types.Int16:
			return 4, true
		case types.Int32:
			return 5, true
		case types.Int64:
			return 6, true
		case types.Uint:
			return 7, true
		case types.Uint8:
			return 8, true
		case types.Uint16:
			return 9, true
		case types.Uint32:
			return 10, true
		case types.Uint64:
			return 11, true
		case types.Uintptr:
			return 12, true
		case types.Float32:
			return 13, true
		case types.Float64:
			return 14, true
		case types.Complex64:
			return 15, true
		case types.Complex128:
			return 16, true
		case types.String:
			return 24, true
		case types.UnsafePointer:
			return 26, true
		}
	case *types.Array:
		return 17, true
	case *types.Chan:
		return 18, true
	case *types.Signature:
		return 19, true
	case *types.Interface:
		return 20, true
	case *types.Map:
		return 21, true
	case *types.Pointer:
		return 22, true
	case *types.Slice:
		return 23, true
	case *types.Struct:
		return 25, true
	}
	return 0, false
}

// converted gives the type of a reflect.Value that was converted to a known
// basic type.
func converted(v *Term) types.Type {
	if v.op == oApp && v.name == "(reflect.Value).Convert" && v.args[1].op == oLit {
		if t, ok := v.args[1].gotyp.(types.Type); ok {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
				return t
			}
		}
	}
	return nil
}

// RTLit is the literal of a runtime type.
func (c *Ctx) RTLit(t types.Type) *Term {
	l := c.Lit(sRT, typeKey(t))
	if l.gotyp == nil {
		l.gotyp = t
	}
	return l
}

// app applies a function with the rules that hold for known functions.
func (c *Ctx) app(s *Sort, name string, a ...*Term) *Term {
	switch name {
	case "sel:" + exprPath + ".PrimitiveType:.kind", "sel:" + exprPath + ".littype:.kind":
		if k := strings.TrimSuffix(strings.TrimPrefix(name, "sel:"), ":.kind"); a[0].op == oApp && a[0].name == "unbox:*"+k+":" {
			return c.App(s, "kindof", a[0].args[0])
		}
	case "typeof":
		i := a[0]
		if i.op == oLit && i.name == "nil" {
			return c.Lit(sRT, "nil")
		}
		if t, ok := i.gotyp.(types.Type); ok && i.op == oApp && strings.HasPrefix(i.name, "box:") && i.name != "box:reflect.Type" {
			return c.RTLit(t)
		}
		if i.op == oApp && i.name == "(reflect.Value).Interface" {
			// dynamic type of an interface value's contents, of the value otherwise
			return c.App(s, name, a...)
		}
	case "(reflect.Value).Interface":
		if a[0].op == oApp && a[0].name == "valueof" {
			return a[0].args[0]
		}
		if t := converted(a[0]); t != nil {
			var v *Term
			get := func(s *Sort, n string) *Term {
				return c.app(s, "(reflect.Value)."+n, append([]*Term{a[0]}, a[1:]...)...)
			}
			b := t.Underlying().(*types.Basic)
			switch {
			case b.Info()&types.IsBoolean != 0:
				v = get(boolSort, "Bool")
			case b.Info()&types.IsUnsigned != 0:
				v = get(bv64, "Uint")
			case b.Info()&types.IsInteger != 0:
				v = get(bv64, "Int")
			}
			if v != nil {
				if w := scalarSort(t); w != boolSort && w.W < 64 {
					v = c.Extract(v, w.W-1, 0)
				}
				b := c.App(sIface, "box:"+typeKey(t), v)
				b.gotyp = t
				return b
			}
		}
	case "(reflect.Value).Interface.panics":
		if converted(a[0]) != nil && a[0].args[0].op == oApp && a[0].args[0].name == "valueof" {
			return c.F
		}
		if a[0].op == oApp && a[0].name == "valueof" {
			return c.Eq(a[0].args[0], c.Lit(sIface, "nil"))
		}
	case "(reflect.Value).Type":
		if t := converted(a[0]); t != nil {
			return a[0].args[1]
		}
		if a[0].op == oApp && a[0].name == "valueof" {
			return c.app(sRT, "typeof", a[0].args[0])
		}
	case "(reflect.Value).Type.panics":
		return c.Not(c.app(boolSort, "(reflect.Value).IsValid", a[0]))
	case "(reflect.Value).IsValid":
		if a[0].op == oApp && a[0].name == "valueof" {
			return c.Not(c.Eq(a[0].args[0], c.Lit(sIface, "nil")))
		}
		if a[0].op == oLit && a[0].name == "zero" {
			return c.F
		}
		return c.Not(c.Eq(c.app(bvSort(64), "(reflect.Value).Kind", a[0]), c.Int(0)))
	case "valueof":
		if a[0].op == oLit && a[0].name == "nil" {
			return c.Lit(sRV, "zero")
		}
	case "(reflect.Value).Kind":
		if a[0].op == oLit && a[0].name == "zero" {
			return c.Int(0)
		}
		if a[0].op == oApp && a[0].name == "reflect.New" {
			return c.Int(22)
		}
		if a[0].op == oApp && a[0].name == "reflect.Zero" {
			return c.app(s, "(reflect.Type).Kind", a[0].args[0])
		}
		if a[0].op == oApp && a[0].name == "(reflect.Value).Elem" && a[0].args[0].op == oApp && a[0].args[0].name == "reflect.New" {
			return c.app(s, "(reflect.Type).Kind", a[0].args[0].args[0])
		}
		if t := converted(a[0]); t != nil {
			k, _ := kindNum(t)
			return c.Int(int64(k))
		}
		if a[0].op == oApp && a[0].name == "valueof" {
			if t, ok := a[0].args[0].gotyp.(types.Type); ok {
				if k, ok := kindNum(t); ok {
					return c.Int(int64(k))
				}
			}
		}
	case "(reflect.Type).Kind":
		if a[0].op == oApp && a[0].name == "(reflect.Value).Type" {
			return c.app(s, "(reflect.Value).Kind", a[0].args[0])
		}
		if t, ok := a[0].gotyp.(types.Type); ok && a[0].op == oLit {
			if k, ok := kindNum(t); ok {
				return c.Int(int64(k))
			}
		}
	case "(reflect.Type).Elem":
		if t, ok := a[0].gotyp.(types.Type); ok && a[0].op == oLit {
			if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return c.RTLit(e.Elem())
			}
		}
	case "reflect.SliceOf", "reflect.PtrTo", "reflect.PointerTo":
		if t, ok := a[0].gotyp.(types.Type); ok && a[0].op == oLit {
			if name == "reflect.SliceOf" {
				return c.RTLit(types.NewSlice(t))
			}
			return c.RTLit(types.NewPointer(t))
		}
	case "(reflect.Type).Elem.panics":
		if t, ok := a[0].gotyp.(types.Type); ok && a[0].op == oLit {
			if _, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return c.F
			}
		}
	case "(reflect.Value).CanAddr":
		if a[0].op == oApp && a[0].name == "valueof" || a[0].op == oLit && a[0].name == "zero" {
			return c.F
		}
	case "reflect.SliceOf.panics", "reflect.PtrTo.panics", "reflect.PointerTo.panics", "reflect.Zero.panics", "reflect.New.panics":
		if a[0].op == oApp {
			switch a[0].name {
			case "(reflect.Type).Elem", "(reflect.Value).Type", "reflect.SliceOf", "reflect.PtrTo", "reflect.PointerTo":
				return c.F // never nil
			}
		}
		return c.Eq(a[0], c.Lit(sRT, "nil"))
	case "(reflect.Value).Bool", "(reflect.Value).Int", "(reflect.Value).Uint":
		if v := a[0]; v.op == oApp && v.name == "valueof" && v.args[0].op == oApp && len(v.args[0].args) == 1 && strings.HasPrefix(v.args[0].name, "box:") {
			if t, ok := v.args[0].gotyp.(types.Type); ok {
				b, _ := t.Underlying().(*types.Basic)
				e := v.args[0].args[0]
				switch {
				case b == nil:
				case b.Info()&types.IsBoolean != 0 && strings.HasSuffix(name, "Bool"):
					return e
				case b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 && strings.HasSuffix(name, ".Int"):
					return c.Sext(e, 64)
				case b.Info()&types.IsUnsigned != 0 && strings.HasSuffix(name, ".Uint"):
					return c.Zext(e, 64)
				}
			}
		}
	case "(reflect.Value).IsNil.panics":
		return c.kindNot(a[0], 18, 19, 20, 21, 22, 23, 26)
	case "(reflect.Value).Int.panics":
		return c.kindNot(a[0], 2, 3, 4, 5, 6)
	case "(reflect.Value).Uint.panics":
		return c.kindNot(a[0], 7, 8, 9, 10, 11, 12)
	case "(reflect.Value).Float.panics":
		return c.kindNot(a[0], 13, 14)
	case "(reflect.Value).Complex.panics":
		return c.kindNot(a[0], 15, 16)
	case "(reflect.Value).Bool.panics":
		return c.kindNot(a[0], 1)
	case "(reflect.Value).String.panics":
		return c.F
	case "(reflect.Value).Elem.panics":
		return c.kindNot(a[0], 20, 22)
	case "(reflect.Value).NumField.panics":
		return c.kindNot(a[0], 25)
	case "(reflect.Value).Len.panics":
		return c.And(c.kindNot(a[0], 17, 18, 21, 23, 24), c.Or(c.kindNot(a[0], 22), c.App(s, name, a...)))
	case "reflect.DeepEqual":
		if a[0] == a[1] {
			return c.T // for types
		}
		if a[0].id > a[1].id {
			a = append([]*Term{a[1], a[0]}, a[2:]...)
		}
	case "math.Float32frombits":
		if a[0].op == oApp && a[0].name == "math.Float32bits" {
			return a[0].args[0]
		}
	}
	return c.App(s, name, a...)
}

// kindNot is the condition that a reflect.Value is of none of the kinds.
func (c *Ctx) kindNot(v *Term, ks ...int64) *Term {
	k := c.app(bvSort(64), "(reflect.Value).Kind", v)
	var ts []*Term
	for _, n := range ks {
		ts = append(ts, c.Not(c.Eq(k, c.Int(n))))
	}
	return c.And(ts...)
}
