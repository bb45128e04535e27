//go:build verif && go1.21

package expr

import "reflect"

// ---- values

//gover:spec ValueOf
//gover:props C24
//gover:inline
func specValueOf(i interface{}) Value { return val{reflect.ValueOf(i), TypeOf(i)} }

// A value of a named primitive type counts as one of the primitive type.
//
//gover:spec base
//gover:props C17 C18
//gover:opaque
func specBase(v Value) Value {
	t, ok := v.Type().(*PrimitiveType)
	if !ok {
		return v
	}
	rt := primRType[t.Kind()]
	if v.Value().Type() == rt {
		return v
	}
	return val{v.Value().Convert(rt), t}
}

// Untyped integers that meet each other are ints.
//
//gover:spec coerce1
//gover:props C18
//gover:opaque
func specCoerce1(v Value) Value {
	if v.Type().Kind() == UntypedInt {
		if n, ok := v.RawValue().(uint64); ok {
			return gvVal(int(n), Int)
		}
		if n, ok := v.RawValue().(int64); ok {
			return gvVal(int(n), Int)
		}
	}
	return base(v)
}

func gvVal[T any](n T, k Kind) Value { return val{reflect.ValueOf(n), NewPrimitiveType(k)} }

// gvConst is an untyped integer in the type it adopts.
func gvConst[T int64 | uint64](n T, to Type) Value {
	switch to.Kind() {
	case Int:
		return val{reflect.ValueOf(int(n)), to}
	case Int8:
		return val{reflect.ValueOf(int8(n)), to}
	case Int16:
		return val{reflect.ValueOf(int16(n)), to}
	case Int32:
		return val{reflect.ValueOf(int32(n)), to}
	case Int64:
		return val{reflect.ValueOf(int64(n)), to}
	case Uint:
		return val{reflect.ValueOf(uint(n)), to}
	case Uint8:
		return val{reflect.ValueOf(uint8(n)), to}
	case Uint16:
		return val{reflect.ValueOf(uint16(n)), to}
	case Uint32:
		return val{reflect.ValueOf(uint32(n)), to}
	case Uint64:
		return val{reflect.ValueOf(uint64(n)), to}
	case Uintptr:
		return val{reflect.ValueOf(uintptr(n)), to}
	case Float32:
		return val{reflect.ValueOf(float32(float64(n))), to}
	case Float64:
		return val{reflect.ValueOf(float64(n)), to}
	}
	panic("not a number type")
}

// A literal adopts the type of the other operand or of the place it is used in.
//
//gover:spec promote
//gover:props C18
//gover:opaque
//gover:requires gvPromoted
func specPromote(from Value, to Type) Value {
	if TypeEqual(from.Type(), to) {
		return from
	}
	switch from.Type().Kind() {
	case UntypedBool:
		if to.Kind() == Bool {
			return val{from.Value(), to}
		}
	case UntypedFloat:
		if to.Kind() == Float32 {
			return val{reflect.ValueOf(float32(from.Value().Float())), to}
		}
		if to.Kind() == Float64 {
			return val{reflect.ValueOf(from.Value().Float()), to}
		}
	case UntypedInt:
		switch n := from.RawValue().(type) {
		case int64:
			return gvConst(n, to)
		case uint64:
			return gvConst(n, to)
		}
		return gvConst(int64(0), to)
	case UntypedNil:
		if assignable(from.Type(), to) {
			return val{reflect.Zero(toreflecttype(to)), to}
		}
	}
	panic("no conversion")
}

// The operands of an operator get one type.
//
//gover:spec coerce
//gover:props C18
//gover:opaque
func specCoerce(lhs Value, rhs Value) (Value, Value) {
	lt, rt := lhs.Type(), rhs.Type()
	switch {
	case lt.Kind() == UntypedNil && rt.Kind() != UntypedNil && assignable(lt, rt):
		return val{reflect.Zero(rhs.Value().Type()), rt}, rhs
	case rt.Kind() == UntypedNil && lt.Kind() != UntypedNil && assignable(rt, lt):
		return lhs, val{reflect.Zero(lhs.Value().Type()), lt}
	case TypeEqual(lt, rt):
		return coerce1(lhs), coerce1(rhs)
	case assignable(lt, rt):
		return promote(lhs, rt), base(rhs)
	case assignable(rt, lt):
		return base(lhs), promote(rhs, lt)
	}
	panic("operands of different types")
}

// gvKind is the primitive type of a Go number.
func gvNumKind(n interface{}) Kind {
	switch n.(type) {
	case int:
		return Int
	case int8:
		return Int8
	case int16:
		return Int16
	case int32:
		return Int32
	case int64:
		return Int64
	case uint:
		return Uint
	case uint8:
		return Uint8
	case uint16:
		return Uint16
	case uint32:
		return Uint32
	case uint64:
		return Uint64
	case uintptr:
		return Uintptr
	case float32:
		return Float32
	case float64:
		return Float64
	}
	panic("not a number")
}

type gvInts interface {
	int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr
}

type gvNums interface {
	gvInts | float32 | float64
}

// gvInt2 is what an operator on integers computes, in the type of its operands.
func gvInt2[T gvInts](op string, a T, r Value) Value {
	b := r.RawValue().(T)
	switch op {
	case "+", "-", "*", "/":
		return gvNum2(op, a, r)
	case "%":
		a %= b
	case "|":
		a |= b
	case "^":
		a ^= b
	case "&":
		a &= b
	case "&^":
		a &^= b
	}
	return gvVal(a, gvNumKind(a))
}

// gvNum2 is what an operator on numbers computes, in the type of its operands.
func gvNum2[T gvNums](op string, a T, r Value) Value {
	b := r.RawValue().(T)
	switch op {
	case "+":
		a += b
	case "-":
		a -= b
	case "*":
		a *= b
	case "/":
		a /= b
	default:
		panic("not for floats")
	}
	return gvVal(a, gvNumKind(a))
}

// gvArith says what arithmetic and bit operators compute.
func gvArith(op string, lhs, rhs Value) Value {
	l, r := coerce(lhs, rhs)
	switch a := l.RawValue().(type) {
	case int:
		return gvInt2(op, a, r)
	case int8:
		return gvInt2(op, a, r)
	case int16:
		return gvInt2(op, a, r)
	case int32:
		return gvInt2(op, a, r)
	case int64:
		return gvInt2(op, a, r)
	case uint:
		return gvInt2(op, a, r)
	case uint8:
		return gvInt2(op, a, r)
	case uint16:
		return gvInt2(op, a, r)
	case uint32:
		return gvInt2(op, a, r)
	case uint64:
		return gvInt2(op, a, r)
	case uintptr:
		return gvInt2(op, a, r)
	case float32:
		return gvNum2(op, a, r)
	case float64:
		return gvNum2(op, a, r)
	case string:
		if op == "+" {
			return gvVal(a+r.RawValue().(string), String)
		}
	}
	panic("operator not defined")
}

//gover:spec (val).Add
//gover:props C17
//gover:opaque
func specAdd(v val, rhs Value) Value { return gvArith("+", v, rhs) }

//gover:spec (val).Sub
//gover:props C17
//gover:opaque
func specSub(v val, rhs Value) Value { return gvArith("-", v, rhs) }

//gover:spec (val).Mul
//gover:props C17
//gover:opaque
func specMul(v val, rhs Value) Value { return gvArith("*", v, rhs) }

//gover:spec (val).Div
//gover:props C17
//gover:opaque
func specDiv(v val, rhs Value) Value { return gvArith("/", v, rhs) }

//gover:spec (val).Rem
//gover:props C17
//gover:opaque
func specRem(v val, rhs Value) Value { return gvArith("%", v, rhs) }

//gover:spec (val).Or
//gover:props C17
//gover:opaque
func specOr(v val, rhs Value) Value { return gvArith("|", v, rhs) }

//gover:spec (val).Xor
//gover:props C17
//gover:opaque
func specXor(v val, rhs Value) Value { return gvArith("^", v, rhs) }

//gover:spec (val).And
//gover:props C17
//gover:opaque
func specAnd(v val, rhs Value) Value { return gvArith("&", v, rhs) }

//gover:spec (val).AndNot
//gover:props C17
//gover:opaque
func specAndNot(v val, rhs Value) Value { return gvArith("&^", v, rhs) }

func gvLess[T gvNums | string](op string, a T, r Value) Value {
	b := r.RawValue().(T)
	switch op {
	case "<":
		return gvVal(a < b, Bool)
	case "<=":
		return gvVal(a <= b, Bool)
	case ">":
		return gvVal(a > b, Bool)
	}
	return gvVal(a >= b, Bool)
}

// gvCompare says what ordering operators compute.
func gvCompare(op string, lhs, rhs Value) Value {
	l, r := coerce(lhs, rhs)
	switch a := l.RawValue().(type) {
	case int:
		return gvLess(op, a, r)
	case int8:
		return gvLess(op, a, r)
	case int16:
		return gvLess(op, a, r)
	case int32:
		return gvLess(op, a, r)
	case int64:
		return gvLess(op, a, r)
	case uint:
		return gvLess(op, a, r)
	case uint8:
		return gvLess(op, a, r)
	case uint16:
		return gvLess(op, a, r)
	case uint32:
		return gvLess(op, a, r)
	case uint64:
		return gvLess(op, a, r)
	case uintptr:
		return gvLess(op, a, r)
	case float32:
		return gvLess(op, a, r)
	case float64:
		return gvLess(op, a, r)
	}
	panic("operator not defined")
}

//gover:spec (val).Lesser
//gover:props C17
//gover:opaque
func specLesser(v val, rhs Value) Value { return gvCompare("<", v, rhs) }

//gover:spec (val).LesserEqual
//gover:props C17
//gover:opaque
func specLesserEqual(v val, rhs Value) Value { return gvCompare("<=", v, rhs) }

//gover:spec (val).Greater
//gover:props C17
//gover:opaque
func specGreater(v val, rhs Value) Value { return gvCompare(">", v, rhs) }

//gover:spec (val).GreaterEqual
//gover:props C17
//gover:opaque
func specGreaterEqual(v val, rhs Value) Value { return gvCompare(">=", v, rhs) }

// gvSame tells whether two values are equal; nil has the type of the other.
func gvSame(lhs, rhs Value) bool {
	lt, rt := lhs.Type(), rhs.Type()
	if lt.Kind() == UntypedNil && assignable(lt, rt) {
		return rhs.Value().IsNil()
	}
	if rt.Kind() == UntypedNil && assignable(rt, lt) {
		return lhs.Value().IsNil()
	}
	l, r := coerce(lhs, rhs)
	return l.RawValue() == r.RawValue()
}

//gover:spec (val).Equal
//gover:props C17
//gover:opaque
func specEqual(v val, rhs Value) Value { return gvVal(gvSame(v, rhs), Bool) }

//gover:spec (val).NotEqual
//gover:props C17
//gover:opaque
func specNotEqual(v val, rhs Value) Value { return gvVal(!gvSame(v, rhs), Bool) }

func gvBool(v Value) bool {
	b, ok := base(v).RawValue().(bool)
	if !ok {
		panic("not a bool")
	}
	return b
}

//gover:spec (val).LogicalOr
//gover:props C17
//gover:opaque
func specLogicalOr(v val, rhs Value) Value {
	a, b := gvBool(v), gvBool(rhs)
	if a {
		return gvVal(true, Bool)
	}
	return gvVal(b, Bool)
}

//gover:spec (val).LogicalAnd
//gover:props C17
//gover:opaque
func specLogicalAnd(v val, rhs Value) Value {
	a, b := gvBool(v), gvBool(rhs)
	if a {
		return gvVal(b, Bool)
	}
	return gvVal(false, Bool)
}

//gover:spec (val).Not
//gover:props C17
//gover:opaque
func specNot(v val) Value { return val{reflect.ValueOf(!gvBool(v)), v.t} }

func gvMinus[T gvNums](n T, t Type) Value { return val{reflect.ValueOf(-n), t} }

// Negative integer literals are signed.
//
//gover:spec (val).Negate
//gover:props C17
//gover:opaque
func specNegate(v val) Value {
	switch n := base(v).RawValue().(type) {
	case int:
		return gvMinus(n, v.t)
	case int8:
		return gvMinus(n, v.t)
	case int16:
		return gvMinus(n, v.t)
	case int32:
		return gvMinus(n, v.t)
	case int64:
		return gvMinus(n, v.t)
	case uint:
		return gvMinus(n, v.t)
	case uint8:
		return gvMinus(n, v.t)
	case uint16:
		return gvMinus(n, v.t)
	case uint32:
		return gvMinus(n, v.t)
	case uint64:
		if v.t.Kind() == UntypedInt {
			return gvMinus(int64(n), v.t)
		}
		return gvMinus(n, v.t)
	case uintptr:
		return gvMinus(n, v.t)
	case float32:
		return gvMinus(n, v.t)
	case float64:
		return gvMinus(n, v.t)
	}
	panic("operator not defined")
}

func gvInvert[T gvInts](n T, t Type) Value { return val{reflect.ValueOf(^n), t} }

//gover:spec (val).BitNot
//gover:props C17
//gover:opaque
func specBitNot(v val) Value {
	switch n := base(v).RawValue().(type) {
	case int:
		return gvInvert(n, v.t)
	case int8:
		return gvInvert(n, v.t)
	case int16:
		return gvInvert(n, v.t)
	case int32:
		return gvInvert(n, v.t)
	case int64:
		return gvInvert(n, v.t)
	case uint:
		return gvInvert(n, v.t)
	case uint8:
		return gvInvert(n, v.t)
	case uint16:
		return gvInvert(n, v.t)
	case uint32:
		return gvInvert(n, v.t)
	case uint64:
		if v.t.Kind() == UntypedInt {
			return gvInvert(int64(n), v.t)
		}
		return gvInvert(n, v.t)
	case uintptr:
		return gvInvert(n, v.t)
	}
	panic("operator not defined")
}

// gvCount is the count of a shift, which is unsigned.
func gvCount(v Value) uint64 {
	switch n := base(v).RawValue().(type) {
	case uint:
		return uint64(n)
	case uint8:
		return uint64(n)
	case uint16:
		return uint64(n)
	case uint32:
		return uint64(n)
	case uint64:
		return n
	case uintptr:
		return uint64(n)
	}
	panic("not a count")
}

func gvShift1[T gvInts](left bool, n T, by uint64) Value {
	if left {
		return gvVal(n<<by, gvNumKind(n))
	}
	return gvVal(n>>by, gvNumKind(n))
}

func gvShift(left bool, v Value, rhs Value) Value {
	l := coerce1(v)
	by := gvCount(rhs)
	switch n := l.RawValue().(type) {
	case int:
		return gvShift1(left, n, by)
	case int8:
		return gvShift1(left, n, by)
	case int16:
		return gvShift1(left, n, by)
	case int32:
		return gvShift1(left, n, by)
	case int64:
		return gvShift1(left, n, by)
	case uint:
		return gvShift1(left, n, by)
	case uint8:
		return gvShift1(left, n, by)
	case uint16:
		return gvShift1(left, n, by)
	case uint32:
		return gvShift1(left, n, by)
	case uint64:
		return gvShift1(left, n, by)
	case uintptr:
		return gvShift1(left, n, by)
	}
	panic("operator not defined")
}

//gover:spec (val).Lsh
//gover:props C17
//gover:opaque
func specLsh(v val, rhs Value) Value { return gvShift(true, v, rhs) }

//gover:spec (val).Rsh
//gover:props C17
//gover:opaque
func specRsh(v val, rhs Value) Value { return gvShift(false, v, rhs) }

//gover:spec (val).Deref
//gover:props C17
//gover:opaque
func specDeref(v val) Value {
	p, ok := v.t.(*PtrType)
	if !ok {
		panic("not a pointer")
	}
	return val{v.v.Elem(), p.Elem()}
}

//gover:spec (val).Ref
//gover:props C17
//gover:opaque
func specRef(v val) Value {
	if !v.v.CanAddr() {
		panic("no address")
	}
	return val{v.v.Addr(), NewPtrType(v.t)}
}

// Members of structs, of what pointers point to, and of packages.
//
//gover:spec (val).Dot
//gover:props C22
//gover:opaque
func specDot(v val, ident string) Value {
	switch v.t.(type) {
	case *PackageType:
		if m := v.RawValue().(Package).Symbol(ident); m != nil {
			return m
		}
	case *StructType:
		if f := v.v.FieldByName(ident); f.IsValid() {
			return val{f, TypeOf(f.Interface())}
		}
	case *PtrType:
		return v.Deref().Dot(ident)
	}
	panic("no such member")
}

func gvIndexInt(rhs Value) int { return base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int) }

//gover:spec (val).Index
//gover:props C17
//gover:opaque
func specIndex(v val, rhs Value) Value {
	if v.t.Kind() == String {
		i := gvIndexInt(rhs)
		return gvVal(base(v).RawValue().(string)[i], Uint8)
	}
	if t, ok := v.t.(*ArrayType); ok {
		return val{v.v.Index(gvIndexInt(rhs)), t.Elem()}
	}
	if t, ok := v.t.(*SliceType); ok {
		return val{v.v.Index(gvIndexInt(rhs)), t.Elem()}
	}
	if t, ok := v.t.(*MapType); ok {
		kt := v.v.Type().Key()
		var k reflect.Value
		if rhs.Type().Kind() == UntypedNil && assignable(rhs.Type(), t.Key()) {
			k = reflect.Zero(kt)
		} else {
			k = promote(rhs, t.Key()).Value().Convert(kt)
		}
		e := v.v.MapIndex(k)
		if !e.IsValid() {
			e = reflect.Zero(v.v.Type().Elem())
		}
		return val{e, t.Value()}
	}
	panic("operator not defined")
}

// Arguments adopt the types of the parameters.
//
//gover:spec (val).Call
//gover:props C17
//gover:opaque
//gover:modifies rh
func specCall(v val, in []Value) Value {
	ft, ok := v.t.(*FuncType)
	if !ok {
		panic("not a function")
	}
	if len(in) != ft.NumIn() {
		panic("wrong number of arguments")
	}
	args := []reflect.Value{}
	for i, a := range in {
		if a.Type().Kind() == UntypedNil && assignable(a.Type(), ft.In(i)) {
			args = append(args, reflect.Zero(v.v.Type().In(i)))
		} else {
			args = append(args, promote(a, ft.In(i)).Value().Convert(v.v.Type().In(i)))
		}
	}
	res := v.v.Call(args)
	if len(res) != 1 {
		panic("not one result")
	}
	return val{res[0], ft.Out(0)}
}

//gover:spec literalboolval
//gover:props C19
//gover:inline
func specLiteralbool(v bool) Value { return val{reflect.ValueOf(v), NewLiteralType(UntypedBool)} }

//gover:spec literalstrval
//gover:props C19
//gover:inline
func specLiteralstr(v string) Value { return val{reflect.ValueOf(v), NewPrimitiveType(String)} }

//gover:spec literalintval
//gover:props C19
//gover:inline
func specLiteralint(v int64) Value { return val{reflect.ValueOf(v), NewLiteralType(UntypedInt)} }

//gover:spec literaluintval
//gover:props C19
//gover:inline
func specLiteraluint(v uint64) Value { return val{reflect.ValueOf(v), NewLiteralType(UntypedInt)} }

//gover:spec literalfloatval
//gover:props C19
//gover:inline
func specLiteralfloat(v float64) Value { return val{reflect.ValueOf(v), NewLiteralType(UntypedFloat)} }

//gover:spec literalnilval
//gover:props C19
//gover:inline
func specLiteralnil() Value { return val{reflect.Value{}, NewLiteralType(UntypedNil)} }
