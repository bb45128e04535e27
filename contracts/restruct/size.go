//go:build verif

package restruct

import (
	"errors"
	"reflect"
)

// gvSeq is the type of the sequence of a field: strings are bytes.
func gvSeq(t reflect.Type) reflect.Type {
	if t.Kind() == reflect.String {
		return reflect.TypeOf([]byte{})
	}
	return t
}

// An element has the types of its sequence's elements and the byte order of
// the sequence, and no other options.
//
//gover:spec (*field).Elem
//gover:props C06 C07 C08
func specElem(f *field) field {
	bt, nt := gvSeq(f.BinaryType), gvSeq(f.NativeType)
	return field{Name: "*" + f.Name, Index: -1, SIndex: -1, TIndex: -1, Order: f.Order,
		BinaryType: bt.Elem(), NativeType: nt.Elem(), Trivial: isTypeTrivial(bt.Elem())}
}

//gover:spec (*field).constantSize
//gover:props C05
func specConstantSize(f *field) bool {
	k := f.BinaryType.Kind()
	if k == reflect.Array || k == reflect.Ptr || k == reflect.Struct {
		return false
	}
	p := reflect.PtrTo(f.NativeType)
	return f.Trivial && !p.Implements(sizerType) && !p.Implements(bitSizerType)
}

func gvBitSizer(v reflect.Value) (BitSizer, bool) {
	if s, ok := v.Interface().(BitSizer); ok {
		return s, true
	}
	if v.CanAddr() {
		s, ok := v.Addr().Interface().(BitSizer)
		return s, ok
	}
	return nil, false
}

func gvSizer(v reflect.Value) (Sizer, bool) {
	if s, ok := v.Interface().(Sizer); ok {
		return s, true
	}
	if v.CanAddr() {
		s, ok := v.Addr().Interface().(Sizer)
		return s, ok
	}
	return nil, false
}

// The size a value or its address reports is used; sizes are in bytes or bits.
// Nil pointers are not asked.
//
//gover:spec (*field).bitSizeUsingInterface
//gover:props C16
//gover:opaque
//gover:reads val rh
//gover:modifies rh
func specBitSizeUsingInterface(f *field, val reflect.Value) (int, bool) {
	if val.Kind() == reflect.Ptr && val.IsNil() {
		return 0, false
	}
	if s, ok := gvBitSizer(val); ok {
		return s.BitSize(), true
	}
	if s, ok := gvSizer(val); ok {
		return 8 * s.SizeOf(), true
	}
	return 0, false
}

// gvKindBits is the documented size of a kind, 0 if it has none of its own.
func gvKindBits(k reflect.Kind) int {
	switch k {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int, reflect.Uint, reflect.Int32, reflect.Uint32, reflect.Float32:
		return 32
	case reflect.Int64, reflect.Uint64, reflect.Float64, reflect.Complex64:
		return 64
	case reflect.Complex128:
		return 128
	}
	return 0
}

// The size of a field. Skipped bytes come first; links and excluded fields
// take no space.
//
//gover:spec (*structstack).fieldbits
//gover:props C05
//gover:notes C25 C11 C16 C04
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f val rh
//gover:modifies rh
func specFieldbits(s *structstack, f field, val reflect.Value) int {
	if gvLink(s, f, val) {
		return 0
	}
	skip := 8 * f.Skip
	if f.Name == "_" {
		gvNote("C04")
		gvNote("C16")
		if !isTypeTrivial(val.Type()) {
			return skip
		}
		val = reflect.New(val.Type()).Elem()
	}
	if !s.evalIf(f) {
		return 0
	}
	if f.SwitchExpr != nil {
		gvNote("C11")
		return skip + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
	}
	if f.Name != "_" {
		if n, ok := f.bitSizeUsingInterface(val); ok {
			gvNote("C16")
			return skip + n
		}
	}
	k := f.BinaryType.Kind()
	if n := s.evalBits(f); n != 0 {
		if k == reflect.Complex64 || k == reflect.Complex128 {
			n *= 2
		}
		return skip + n
	}
	if n := gvKindBits(k); n != 0 {
		return skip + n
	}
	switch k {
	case reflect.Ptr:
		if val.IsNil() {
			return skip
		}
		return skip + s.fieldbits(f.Elem(), val.Elem())
	case reflect.Struct:
		gvNote("C25")
		s.push(val)
		fs := cachedFieldsFromStruct(f.BinaryType)
		for i := range fs {
			skip += s.fieldbits(fs[i], val.Field(fs[i].Index))
		}
		s.pop(val)
		return skip
	case reflect.Array, reflect.Slice, reflect.String:
		nk := f.NativeType.Kind()
		n := 0
		if k == reflect.Array {
			n = f.BinaryType.Len()
		} else {
			if nk != reflect.Slice && nk != reflect.String && nk != reflect.Array && nk != reflect.Ptr {
				return skip
			}
			n = val.Len()
		}
		if n == 0 || nk != reflect.Slice && nk != reflect.String && nk != reflect.Array {
			return skip
		}
		ef := f.Elem()
		if ef.constantSize() {
			return skip + n*s.fieldbits(ef, reflect.Zero(ef.NativeType))
		}
		for i := 0; i < n; i++ {
			if i < val.Len() {
				skip += s.fieldbits(ef, val.Index(i))
			} else {
				skip += s.fieldbits(ef, reflect.New(ef.BinaryType).Elem())
			}
		}
		return skip
	}
	return skip
}

// Bytes are whole.
//
//gover:spec (*structstack).fieldbytes
//gover:props C05
func specFieldbytes(s *structstack, f field, val reflect.Value) int {
	n := s.fieldbits(f, val)
	return (n + 7) / 8
}

//gover:spec (*structstack).fieldsbits
//gover:props C05
func specFieldsbits(s *structstack, fs fields, val reflect.Value) int {
	n := 0
	for i := range fs {
		n += s.fieldbits(fs[i], val.Field(fs[i].Index))
	}
	return n
}

// ---- switches (C11)

//gover:spec caseEqual
//gover:props C11
//gover:opaque
//gover:nilable
//gover:reads a b rh
func specCaseEqual(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	xi, xu := isIntKind(x.Kind()), isUintKind(x.Kind())
	yi, yu := isIntKind(y.Kind()), isUintKind(y.Kind())
	if !(xi || xu) || !(yi || yu) {
		switch {
		case x.Kind() == reflect.String && y.Kind() == reflect.String:
			return x.String() == y.String()
		case x.Kind() == reflect.Bool && y.Kind() == reflect.Bool:
			return x.Bool() == y.Bool()
		case isFloatKind(x.Kind()) && isFloatKind(y.Kind()):
			// in single precision when one of them has no more
			if x.Kind() == reflect.Float64 && y.Kind() == reflect.Float64 {
				return x.Float() == y.Float()
			}
			return float32(x.Float()) == float32(y.Float())
		}
		return a == b
	}
	// as numbers: equal when the signs agree and the bits are the same
	xb, yb, xneg, yneg := uint64(0), uint64(0), false, false
	if xi {
		n := x.Int()
		xb, xneg = uint64(n), n < 0
	} else {
		xb = x.Uint()
	}
	if yi {
		n := y.Int()
		yb, yneg = uint64(n), n < 0
	} else {
		yb = y.Uint()
	}
	return xb == yb && xneg == yneg
}

//gover:spec isIntKind
//gover:props C11
func specIsIntKind(k reflect.Kind) bool {
	return k == reflect.Int || k == reflect.Int8 || k == reflect.Int16 || k == reflect.Int32 || k == reflect.Int64
}

//gover:spec isUintKind
//gover:props C11
func specIsUintKind(k reflect.Kind) bool {
	return k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64 || k == reflect.Uintptr
}

//gover:spec isFloatKind
//gover:props C11
func specIsFloatKind(k reflect.Kind) bool {
	return k == reflect.Float64 || k == reflect.Float32
}

//gover:spec (*structstack).switcbits
//gover:props C11
//gover:notes C05
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f v on rh
//gover:modifies rh
func specSwitcbits(s *structstack, f field, v reflect.Value, on interface{}) int {
	gvNote("C05")
	if v.Kind() != reflect.Struct {
		panic(errors.New("no struct"))
	}
	fs := cachedFieldsFromStruct(f.BinaryType)
	var def *switchcase
	for i := 0; i < len(fs); i++ {
		c, cv := fs[i], v.Field(fs[i].Index)
		if c.Flags&DefaultFlag != 0 {
			if def != nil {
				panic(errors.New("two defaults"))
			}
			def = &switchcase{c, cv}
		} else if c.CaseExpr == nil {
			panic(errors.New("no case"))
		} else if caseEqual(s.evalExpr(c.CaseExpr), on) {
			return s.fieldbits(c, cv)
		}
	}
	if def == nil {
		return 0
	}
	return s.fieldbits(def.f, def.v)
}
