//go:build go1.21

package expr

// Bounded stand-in for the operators: every operator on every pair of types
// against Go's own operators.

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"testing"
)

type vInt interface {
	int | int8 | int16 | int32 | int64 | uint | uint8 | uint16 | uint32 | uint64 | uintptr
}
type vNum interface{ vInt | float32 | float64 }

var vBinary = []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<", "<=", ">", ">=", "==", "!="}

func vDo(op string, a, b Value) Value {
	switch op {
	case "+":
		return a.Add(b)
	case "-":
		return a.Sub(b)
	case "*":
		return a.Mul(b)
	case "/":
		return a.Div(b)
	case "%":
		return a.Rem(b)
	case "&":
		return a.And(b)
	case "|":
		return a.Or(b)
	case "^":
		return a.Xor(b)
	case "&^":
		return a.AndNot(b)
	case "<":
		return a.Lesser(b)
	case "<=":
		return a.LesserEqual(b)
	case ">":
		return a.Greater(b)
	case ">=":
		return a.GreaterEqual(b)
	case "==":
		return a.Equal(b)
	case "!=":
		return a.NotEqual(b)
	case "<<":
		return a.Lsh(b)
	case ">>":
		return a.Rsh(b)
	case "&&":
		return a.LogicalAnd(b)
	case "||":
		return a.LogicalOr(b)
	}
	panic("unknown operator")
}

func vCompare[T vNum](op string, a, b T) interface{} {
	switch op {
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	case ">=":
		return a >= b
	case "==":
		return a == b
	case "!=":
		return a != b
	}
	panic("undefined")
}

func vIntOp[T vInt](op string, a, b T) interface{} {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	case "%":
		return a % b
	case "&":
		return a & b
	case "|":
		return a | b
	case "^":
		return a ^ b
	case "&^":
		return a &^ b
	}
	return vCompare(op, a, b)
}

func vFloatOp[T float32 | float64](op string, a, b T) interface{} {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		return a / b
	}
	return vCompare(op, a, b)
}

// vKind describes one numeric type.
type vKind struct {
	zero   interface{}
	gen    func(r *rand.Rand) interface{}
	op     func(op string, a, b interface{}) interface{}
	unary  func(op string, a interface{}) interface{}
	shift  func(op string, a interface{}, n uint64) interface{}
	lit    func(n int64) interface{}
	ulit   func(n uint64) interface{}
	flit   func(f float64) interface{}
	signed bool
	isint  bool
}

func vBits(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(9)) - 4
	case 1:
		return 1<<uint(r.Intn(65)) - uint64(r.Intn(3))
	case 2:
		return uint64(r.Intn(300))
	case 3:
		return 0
	}
	return r.Uint64() >> uint(r.Intn(64))
}

func vIntKind[T vInt]() vKind {
	return vKind{
		zero: T(0),
		gen:  func(r *rand.Rand) interface{} { return T(vBits(r)) },
		op:   func(op string, a, b interface{}) interface{} { return vIntOp(op, a.(T), b.(T)) },
		unary: func(op string, a interface{}) interface{} {
			if op == "-" {
				return -a.(T)
			}
			return ^a.(T)
		},
		shift: func(op string, a interface{}, n uint64) interface{} {
			if op == "<<" {
				return a.(T) << n
			}
			return a.(T) >> n
		},
		lit:   func(n int64) interface{} { return T(n) },
		ulit:  func(n uint64) interface{} { return T(n) },
		isint: true,
	}
}

func vFloat(r *rand.Rand) float64 {
	switch r.Intn(8) {
	case 0:
		return float64(r.Intn(20)) - 10
	case 5:
		return math.NaN()
	case 6:
		return math.Copysign(0, -1)
	case 1:
		return r.NormFloat64()
	case 2:
		return math.Inf(1 - 2*r.Intn(2))
	case 3:
		return 0
	case 4:
		return r.NormFloat64() * math.Pow(2, float64(r.Intn(200)-100))
	}
	return float64(r.Int63())
}

func vFloatKind[T float32 | float64]() vKind {
	return vKind{
		zero: T(0),
		gen:  func(r *rand.Rand) interface{} { return T(vFloat(r)) },
		op:   func(op string, a, b interface{}) interface{} { return vFloatOp(op, a.(T), b.(T)) },
		unary: func(op string, a interface{}) interface{} {
			if op == "-" {
				return -a.(T)
			}
			panic("undefined")
		},
		shift: func(op string, a interface{}, n uint64) interface{} { panic("undefined") },
		lit:   func(n int64) interface{} { return T(n) },
		ulit:  func(n uint64) interface{} { return T(n) },
		flit:  func(f float64) interface{} { return T(f) },
	}
}

var vKinds = []vKind{
	vIntKind[int](), vIntKind[int8](), vIntKind[int16](), vIntKind[int32](), vIntKind[int64](),
	vIntKind[uint](), vIntKind[uint8](), vIntKind[uint16](), vIntKind[uint32](), vIntKind[uint64](), vIntKind[uintptr](),
	vFloatKind[float32](), vFloatKind[float64](),
}

func vSame(a, b interface{}) bool {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return false
	}
	switch x := a.(type) {
	case float32:
		return math.Float32bits(x) == math.Float32bits(b.(float32)) || x != x && b.(float32) != b.(float32)
	case float64:
		return math.Float64bits(x) == math.Float64bits(b.(float64)) || x != x && b.(float64) != b.(float64)
	}
	return reflect.DeepEqual(a, b)
}

// vCheck compares the value of an operation with the expected one.
func (r *verifRun) vCheck(what string, want func() interface{}, got func() Value) {
	r.cases++
	w, wfail := verifTry(want)
	var typ Type
	g, gfail := verifTry(func() interface{} {
		v := got()
		typ = v.Type()
		return v.RawValue()
	})
	switch {
	case wfail && gfail:
	case wfail:
		r.fail("%s = %v (%T), want an error", what, g, g)
	case gfail:
		r.fail("%s failed, want %v (%T)", what, w, w)
	case !vSame(w, g):
		r.fail("%s = %v (%T), want %v (%T)", what, g, g, w, w)
	case !TypeEqual(typ, TypeOf(w)):
		r.fail("%s has type %v, want %T", what, typ, w)
	}
}

func vShow(v interface{}) string { return fmt.Sprintf("%T(%v)", v, v) }

func vUndefined() interface{} { panic("undefined") }

type (
	vNamedInt8  int8
	vNamedUint  uint32
	vNamedFloat float32
	vNamedStr   string
	vNamedBool  bool
	vNamedInt   int
	vNamedI16   int16
	vNamedI32   int32
	vNamedI64   int64
	vNamedUInt  uint
	vNamedU8    uint8
	vNamedU16   uint16
	vNamedU64   uint64
	vNamedPtr   uintptr
	vNamedF64   float64
)

// vNamed holds a named type of each kind, in the order of vKinds.
var vNamed = []interface{}{vNamedInt(0), vNamedInt8(0), vNamedI16(0), vNamedI32(0), vNamedI64(0), vNamedUInt(0), vNamedU8(0), vNamedU16(0), vNamedUint(0), vNamedU64(0), vNamedPtr(0), vNamedFloat(0), vNamedF64(0)}

func TestVerifC17(t *testing.T) {
	r := newVerifRun(t, "each operator on generated operands of every numeric type, string and bool, by method and by expression, against Go's operators")
	for r.more() {
		for ki, k := range vKinds {
			a, b := k.gen(r.r), k.gen(r.r)
			va, vb := ValueOf(a), ValueOf(b)
			res := NewMapResolver(map[string]Value{"a": va, "b": vb})
			for _, op := range vBinary {
				what := vShow(a) + " " + op + " " + vShow(b)
				want := func() interface{} { return k.op(op, a, b) }
				r.vCheck(what, want, func() Value { return vDo(op, va, vb) })
				r.vCheck("expression "+what, want, func() Value {
					v, err := Eval(res, "a "+op+" b")
					if err != nil {
						panic(err)
					}
					return ValueOf(v)
				})
			}
			for _, op := range []string{"-", "^"} {
				r.vCheck(op+vShow(a), func() interface{} { return k.unary(op, a) }, func() Value {
					if op == "-" {
						return va.Negate()
					}
					return va.BitNot()
				})
			}
			for _, op := range []string{"&&", "||"} {
				r.vCheck(vShow(a)+op+vShow(b), vUndefined, func() Value { return vDo(op, va, vb) })
			}
			r.vCheck("!"+vShow(a), vUndefined, va.Not)
			// Named types take part with their underlying type.
			nt := reflect.TypeOf(vNamed[ki])
			na, nb := ValueOf(reflect.ValueOf(a).Convert(nt).Interface()), ValueOf(reflect.ValueOf(b).Convert(nt).Interface())
			for i, op := range vBinary {
				x, y := na, nb
				if i%3 == 1 {
					x = va
				} else if i%3 == 2 {
					y = vb
				}
				r.vCheck("named "+vShow(a)+" "+op+" "+vShow(b), func() interface{} { return k.op(op, a, b) }, func() Value { return vDo(op, x, y) })
			}
			r.vCheck("-named "+vShow(a), func() interface{} { return k.unary("-", a) }, na.Negate)
			r.vCheck("named "+vShow(a)+" named", func() interface{} { return k.op("==", a, b) }, func() Value { return vDo("==", na, nb) })
			for _, n := range vKinds[:5] {
				for _, op := range []string{"<<", ">>"} {
					r.vCheck("shift by a signed count", vUndefined, func() Value { return vDo(op, va, ValueOf(n.gen(r.r))) })
				}
			}
			for _, n := range vKinds[5:11] {
				c := n.gen(r.r)
				for _, op := range []string{"<<", ">>"} {
					r.vCheck(vShow(a)+" "+op+" "+vShow(c), func() interface{} {
						return k.shift(op, a, reflect.ValueOf(c).Convert(reflect.TypeOf(uint64(0))).Uint())
					}, func() Value { return vDo(op, va, ValueOf(c)) })
				}
			}
		}
		for _, s := range [][2]string{{"", "x"}, {"ab", "cd"}, {"é", "\x00"}, {"same", "same"}} {
			a, b := ValueOf(s[0]), ValueOf(s[1])
			r.vCheck("concatenation", func() interface{} { return s[0] + s[1] }, func() Value { return a.Add(b) })
			r.vCheck("string ==", func() interface{} { return s[0] == s[1] }, func() Value { return a.Equal(b) })
			r.vCheck("string !=", func() interface{} { return s[0] != s[1] }, func() Value { return a.NotEqual(b) })
			for _, op := range []string{"-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "&&", "||"} {
				r.vCheck("string "+op, vUndefined, func() Value { return vDo(op, a, b) })
			}
			r.vCheck("-string", vUndefined, a.Negate)
			r.vCheck("^string", vUndefined, a.BitNot)
			r.vCheck("!string", vUndefined, a.Not)
			for i := range []byte(s[0]) {
				r.vCheck("string index", func() interface{} { return s[0][i] }, func() Value { return a.Index(ValueOf(i)) })
			}
		}
		for _, o := range []Value{ValueOf(1), ValueOf("x"), literalintval(1), literalstrval("true"), literalnilval(), ValueOf(0.5)} {
			for _, b := range []Value{ValueOf(true), ValueOf(false), literalboolval(true), literalboolval(false)} {
				for _, op := range []string{"&&", "||"} {
					r.vCheck(op+" of a bool and something else", vUndefined, func() Value { return vDo(op, b, o) })
					r.vCheck(op+" of something else and a bool", vUndefined, func() Value { return vDo(op, o, b) })
				}
			}
		}
		// Arguments are converted between a named type and its plain one.
		cn, cs := int8(r.r.Intn(256)-128), "s"
		named := func(a vNamedInt8, b vNamedStr) vNamedStr { return vNamedStr(fmt.Sprint(a, b)) }
		plain := func(a int8, b string) string { return fmt.Sprint(a, b) }
		for _, in := range [][]Value{{ValueOf(cn), ValueOf(cs)}, {ValueOf(vNamedInt8(cn)), ValueOf(cs)}, {ValueOf(cn), ValueOf(vNamedStr(cs))}, {literalintval(int64(cn)), literalstrval(cs)}} {
			r.vCheck("call of a function of named types", func() interface{} { return named(vNamedInt8(cn), "s") }, func() Value { return ValueOf(named).Call(in) })
			r.vCheck("call of a function", func() interface{} { return plain(cn, "s") }, func() Value { return ValueOf(plain).Call(in) })
			r.vCheck("call with too few arguments", vUndefined, func() Value { return ValueOf(plain).Call(in[:1]) })
			r.vCheck("call with too many arguments", vUndefined, func() Value { return ValueOf(plain).Call(append(in[:2:2], in[0])) })
		}
		// Rune and number literals in expressions have their value.
		for _, c := range []rune{0, 'a', 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x1f600, 0x10ffff} {
			for _, text := range []string{fmt.Sprintf("'\\U%08x' + z", c), fmt.Sprintf("%d + z", c), fmt.Sprintf("z + %#x", c)} {
				r.vCheck(text, func() interface{} { return int64(c) }, func() Value {
					v, err := Eval(NewMapResolver(map[string]Value{"z": ValueOf(int64(0))}), text)
					if err != nil {
						panic(err)
					}
					return ValueOf(v)
				})
			}
		}
		lu, lf := vBits(r.r), vFloat(r.r)
		for _, v := range []Value{literaluintval(lu), literalintval(int64(lu))} {
			r.vCheck("^literal + int64", func() interface{} { return ^int64(lu) + 1 }, func() Value { return v.BitNot().Add(ValueOf(int64(1))) })
			r.vCheck("^literal + uint64", func() interface{} { return ^lu + 1 }, func() Value { return v.BitNot().Add(ValueOf(uint64(1))) })
			r.vCheck("^literal + float64", func() interface{} { return float64(^int64(lu)) + lf }, func() Value { return v.BitNot().Add(ValueOf(lf)) })
			r.vCheck("-literal + float64", func() interface{} { return float64(-int64(lu)) + lf }, func() Value { return v.Negate().Add(ValueOf(lf)) })
			r.vCheck("-literal + int8", func() interface{} { return int8(-int64(lu)) + 1 }, func() Value { return v.Negate().Add(ValueOf(int8(1))) })
		}
		for i := 0; i < 4; i++ {
			x, y := i&1 != 0, i&2 != 0
			a, b := ValueOf(x), ValueOf(y)
			r.vCheck("&&", func() interface{} { return x && y }, func() Value { return a.LogicalAnd(b) })
			r.vCheck("||", func() interface{} { return x || y }, func() Value { return a.LogicalOr(b) })
			r.vCheck("==", func() interface{} { return x == y }, func() Value { return a.Equal(b) })
			r.vCheck("!=", func() interface{} { return x != y }, func() Value { return a.NotEqual(b) })
			r.vCheck("!", func() interface{} { return !x }, a.Not)
			for _, op := range []string{"+", "-", "*", "/", "%", "&", "|", "^", "&^", "<<", ">>", "<", "<=", ">", ">="} {
				r.vCheck("bool "+op, vUndefined, func() Value { return vDo(op, a, b) })
			}
			r.vCheck("-bool", vUndefined, a.Negate)
			r.vCheck("^bool", vUndefined, a.BitNot)
		}
		// Pointers are equal when they are the same; what Go does not
		// compare is not compared.
		x, y := r.r.Intn(3), r.r.Intn(3)
		px, py := &x, &y
		var none *int
		for _, c := range [][2]*int{{px, px}, {px, py}, {py, none}, {none, none}} {
			r.vCheck("pointer ==", func() interface{} { return c[0] == c[1] }, func() Value { return ValueOf(c[0]).Equal(ValueOf(c[1])) })
			r.vCheck("pointer !=", func() interface{} { return c[0] != c[1] }, func() Value { return ValueOf(c[0]).NotEqual(ValueOf(c[1])) })
		}
		r.vCheck("deref", func() interface{} { return x }, ValueOf(px).Deref)
		r.vCheck("deref of a nil pointer", vUndefined, ValueOf(none).Deref)
		r.vCheck("deref of a number", vUndefined, ValueOf(x).Deref)
		type pair struct{ A, B int }
		for _, c := range []interface{}{[]int{1}, map[string]int{"a": 1}, func() {}, []int(nil), map[int]int(nil)} {
			r.vCheck(fmt.Sprintf("%T ==", c), vUndefined, func() Value { return ValueOf(c).Equal(ValueOf(c)) })
			r.vCheck(fmt.Sprintf("%T !=", c), vUndefined, func() Value { return ValueOf(c).NotEqual(ValueOf(c)) })
		}
		r.vCheck("struct ==", func() interface{} { return pair{1, x} == pair{1, y} }, func() Value { return ValueOf(pair{1, x}).Equal(ValueOf(pair{1, y})) })
		r.vCheck("array !=", func() interface{} { return [2]int{1, x} != [2]int{1, y} }, func() Value { return ValueOf([2]int{1, x}).NotEqual(ValueOf([2]int{1, y})) })
		// Members of sequences and maps; keys that are missing have the zero.
		names := []string{"", "a", "b", "\xff"}
		i, key, str := r.r.Intn(4), names[r.r.Intn(4)], "x\x80\xffé"
		u8, u16 := uint8(i), uint16(i)
		sm, nm, km := map[string]int16{"": 4, "a": -5}, map[vNamedStr]vNamedUint{"a": 7, "\xff": 8}, map[vNamedInt8]string{0: "zero", 2: "two", -3: "neg"}
		r.vCheck("string index", func() interface{} { return str[i] }, func() Value { return ValueOf(str).Index(ValueOf(i)) })
		r.vCheck("named string index", func() interface{} { return str[i] }, func() Value { return ValueOf(vNamedStr(str)).Index(ValueOf(i)) })
		r.vCheck("string index literal", func() interface{} { return str[i] }, func() Value { return ValueOf(str).Index(literaluintval(uint64(i))) })
		r.vCheck("string index out of range", vUndefined, func() Value { return ValueOf(str[:i]).Index(ValueOf(i)) })
		r.vCheck("string index of another type", vUndefined, func() Value { return ValueOf(str).Index(ValueOf(u8)) })
		r.vCheck("slice index out of range", vUndefined, func() Value { return ValueOf(names[:i]).Index(ValueOf(i)) })
		r.vCheck("slice index of another type", vUndefined, func() Value { return ValueOf(names).Index(ValueOf(u16)) })
		r.vCheck("slice index", func() interface{} { return names[i] }, func() Value { return ValueOf(names).Index(ValueOf(i)) })
		r.vCheck("map index", func() interface{} { return sm[key] }, func() Value { return ValueOf(sm).Index(ValueOf(key)) })
		r.vCheck("map index", func() interface{} { return sm[key] }, func() Value { return ValueOf(sm).Index(literalstrval(key)) })
		r.vCheck("map of named types", func() interface{} { return nm[vNamedStr(key)] }, func() Value { return ValueOf(nm).Index(ValueOf(vNamedStr(key))) })
		r.vCheck("map of named types and plain key", func() interface{} { return nm[vNamedStr(key)] }, func() Value { return ValueOf(nm).Index(ValueOf(key)) })
		r.vCheck("map of named types and literal", func() interface{} { return nm[vNamedStr(key)] }, func() Value { return ValueOf(nm).Index(literalstrval(key)) })
		r.vCheck("map of named keys", func() interface{} { return km[vNamedInt8(i-3)] }, func() Value { return ValueOf(km).Index(literalintval(int64(i - 3))) })
		r.vCheck("map of named keys", func() interface{} { return km[vNamedInt8(i-3)] }, func() Value { return ValueOf(km).Index(ValueOf(int8(i - 3))) })
		r.vCheck("map index of another type", vUndefined, func() Value { return ValueOf(km).Index(ValueOf(i - 3)) })
		r.vCheck("map index of another type", vUndefined, func() Value { return ValueOf(sm).Index(ValueOf(i)) })
		// Literals are shifted as int, and have no operators of other kinds.
		lit, sh := int64(vBits(r.r)), uint(r.r.Intn(80))
		r.vCheck(fmt.Sprintf("literal %d << %d", lit, sh), func() interface{} { return int(lit) << sh }, func() Value { return literalintval(lit).Lsh(ValueOf(sh)) })
		r.vCheck(fmt.Sprintf("literal %d >> %d", lit, sh), func() interface{} { return int(lit) >> sh }, func() Value { return literalintval(lit).Rsh(ValueOf(sh)) })
		r.vCheck("shift of a float literal", vUndefined, func() Value { return literalfloatval(2.5).Lsh(ValueOf(sh)) })
		// Named types take part with their underlying type.
		n8, m8 := vKinds[1].gen(r.r).(int8), vKinds[1].gen(r.r).(int8)
		nu, mu := vKinds[8].gen(r.r).(uint32), vKinds[8].gen(r.r).(uint32)
		nf, mf := vKinds[11].gen(r.r).(float32), vKinds[11].gen(r.r).(float32)
		for _, op := range vBinary {
			r.vCheck("named int8 "+op, func() interface{} { return vKinds[1].op(op, n8, m8) },
				func() Value { return vDo(op, ValueOf(vNamedInt8(n8)), ValueOf(vNamedInt8(m8))) })
			r.vCheck("named uint32 "+op, func() interface{} { return vKinds[8].op(op, nu, mu) },
				func() Value { return vDo(op, ValueOf(vNamedUint(nu)), ValueOf(mu)) })
			r.vCheck("named float32 "+op, func() interface{} { return vKinds[11].op(op, nf, mf) },
				func() Value { return vDo(op, ValueOf(nf), ValueOf(vNamedFloat(mf))) })
		}
	}
	r.done()
}

func TestVerifC18(t *testing.T) {
	r := newVerifRun(t, "each operator with an untyped operand on either side and a typed one of every type, mismatched types, nil with every kind of type")
	type st struct{ A int }
	for r.more() {
		// Nil as the key of a map is a nil pointer.
		for _, m := range []interface{}{map[*int]int{nil: 3}, map[*st]int{nil: 3}, map[*bool]int{nil: 3}} {
			r.vCheck("nil as a key", func() interface{} { return 3 }, func() Value { return ValueOf(m).Index(literalnilval()) })
		}
		r.vCheck("nil as a key of another type", vUndefined, func() Value { return ValueOf(map[int]int{0: 1}).Index(literalnilval()) })
		r.vCheck("nil as an index", vUndefined, func() Value { return ValueOf([]int{1}).Index(literalnilval()) })
		for ki, k := range vKinds {
			a := k.gen(r.r)
			va := ValueOf(a)
			n := int64(vBits(r.r))
			un := vBits(r.r)
			f := vFloat(r.r)
			for _, op := range vBinary {
				if op == "==" || op == "!=" || k.isint || op[0] != '%' {
					r.vCheck(fmt.Sprintf("%s %s literal %d", vShow(a), op, n), func() interface{} { return k.op(op, a, k.lit(n)) },
						func() Value { return vDo(op, va, literalintval(n)) })
					r.vCheck(fmt.Sprintf("literal %d %s %s", n, op, vShow(a)), func() interface{} { return k.op(op, k.lit(n), a) },
						func() Value { return vDo(op, literalintval(n), va) })
				}
				r.vCheck(fmt.Sprintf("%s %s literal %d", vShow(a), op, un), func() interface{} { return k.op(op, a, k.ulit(un)) },
					func() Value { return vDo(op, va, literaluintval(un)) })
				r.vCheck(fmt.Sprintf("literal %d %s %s", un, op, vShow(a)), func() interface{} { return k.op(op, k.ulit(un), a) },
					func() Value { return vDo(op, literaluintval(un), va) })
				r.vCheck(fmt.Sprintf("%s %s literal %v", vShow(a), op, f), func() interface{} { return k.op(op, a, k.flit(f)) },
					func() Value { return vDo(op, va, literalfloatval(f)) })
				r.vCheck(fmt.Sprintf("literal %v %s %s", f, op, vShow(a)), func() interface{} { return k.op(op, k.flit(f), a) },
					func() Value { return vDo(op, literalfloatval(f), va) })
				r.vCheck(fmt.Sprintf("%s %s true", vShow(a), op), vUndefined, func() Value { return vDo(op, va, literalboolval(true)) })
				r.vCheck(fmt.Sprintf("true %s %s", op, vShow(a)), vUndefined, func() Value { return vDo(op, literalboolval(true), va) })
				r.vCheck(fmt.Sprintf("%s %s nil", vShow(a), op), vUndefined, func() Value { return vDo(op, va, literalnilval()) })
				r.vCheck(fmt.Sprintf("nil %s %s", op, vShow(a)), vUndefined, func() Value { return vDo(op, literalnilval(), va) })
				r.vCheck(fmt.Sprintf("%s %s string", vShow(a), op), vUndefined, func() Value { return vDo(op, va, ValueOf("s")) })
				for kj, k2 := range vKinds {
					if ki != kj {
						b := k2.gen(r.r)
						r.vCheck(vShow(a)+" "+op+" "+vShow(b), vUndefined, func() Value { return vDo(op, va, ValueOf(b)) })
					}
				}
			}
		}
		n, m := int64(vBits(r.r)), vBits(r.r)
		for _, op := range vBinary {
			for i := 0; i < 4; i++ {
				x, y := literalintval(n), literalintval(int64(m))
				if i&1 != 0 {
					x = literaluintval(uint64(n))
				}
				if i&2 != 0 {
					y = literaluintval(m)
				}
				r.vCheck(fmt.Sprintf("literals %d %s %d", n, op, int64(m)), func() interface{} { return vKinds[0].op(op, int(n), int(m)) },
					func() Value { return vDo(op, x, y) })
			}
		}
		s := uint(r.r.Intn(70))
		r.vCheck(fmt.Sprintf("literal %d << %d", n, s), func() interface{} { return int(n) << s }, func() Value { return literalintval(n).Lsh(literaluintval(uint64(s))) })
		r.vCheck(fmt.Sprintf("literal %d >> %d", n, s), func() interface{} { return int(n) >> s }, func() Value { return literalintval(n).Rsh(literaluintval(uint64(s))) })
		for i := 0; i < 4; i++ {
			x, y := i&1 != 0, i&2 != 0
			r.vCheck("true == bool", func() interface{} { return x == y }, func() Value { return literalboolval(x).Equal(ValueOf(y)) })
			r.vCheck("bool != true", func() interface{} { return x != y }, func() Value { return ValueOf(x).NotEqual(literalboolval(y)) })
			r.vCheck("bool && true", func() interface{} { return x && y }, func() Value { return ValueOf(x).LogicalAnd(literalboolval(y)) })
			r.vCheck("true || true", func() interface{} { return x || y }, func() Value { return literalboolval(x).LogicalOr(literalboolval(y)) })
			r.vCheck("bool == 1", vUndefined, func() Value { return ValueOf(x).Equal(literaluintval(1)) })
		}
		one := 1
		for _, c := range []struct {
			v  interface{}
			ok bool
			is bool
		}{
			{(*int)(nil), true, true}, {&one, true, false}, {[]int(nil), true, true}, {[]int{}, true, false},
			{map[string]int(nil), true, true}, {map[string]int{}, true, false}, {(func())(nil), true, true}, {func() {}, true, false},
			{st{}, false, false}, {[1]int{}, false, false}, {"", false, false}, {true, false, false}, {0.5, false, false},
		} {
			want := func(b bool) func() interface{} {
				return func() interface{} {
					if !c.ok {
						panic("undefined")
					}
					return b
				}
			}
			r.vCheck(fmt.Sprintf("%T == nil", c.v), want(c.is), func() Value { return ValueOf(c.v).Equal(literalnilval()) })
			r.vCheck(fmt.Sprintf("nil == %T", c.v), want(c.is), func() Value { return literalnilval().Equal(ValueOf(c.v)) })
			r.vCheck(fmt.Sprintf("%T != nil", c.v), want(!c.is), func() Value { return ValueOf(c.v).NotEqual(literalnilval()) })
			r.vCheck(fmt.Sprintf("nil != %T", c.v), want(!c.is), func() Value { return literalnilval().NotEqual(ValueOf(c.v)) })
		}
		// Literals as indexes, keys and arguments.
		i := r.r.Intn(3)
		sl := []int32{5, 6, 7}
		r.vCheck("slice index", func() interface{} { return sl[i] }, func() Value { return ValueOf(sl).Index(literaluintval(uint64(i))) })
		r.vCheck("array index", func() interface{} { return sl[i] }, func() Value { return ValueOf([3]int32{5, 6, 7}).Index(literalintval(int64(i))) })
		mp := map[uint16]string{0: "zero", 2: "two"}
		r.vCheck("map index", func() interface{} { return mp[uint16(i)] }, func() Value { return ValueOf(mp).Index(literaluintval(uint64(i))) })
		fn := func(a int8, b float32, c bool, d string) string { return fmt.Sprint(a, b, c, d) }
		fl := vFloat(r.r)
		r.vCheck("call", func() interface{} { return fn(int8(n), float32(fl), true, "s") }, func() Value {
			return ValueOf(fn).Call([]Value{literalintval(n), literalfloatval(fl), literalboolval(true), literalstrval("s")})
		})
		for _, c := range []struct {
			f  interface{}
			ok bool
		}{
			{func(p *int) bool { return p == nil }, true}, {func(p []int) bool { return p == nil }, true}, {func(p map[int]int) bool { return p == nil }, true},
			{func(p func()) bool { return p == nil }, true}, {func(p [2]int) bool { return true }, false}, {func(p st) bool { return true }, false},
			{func(p string) bool { return true }, false}, {func(p int) bool { return true }, false}, {func(p bool) bool { return true }, false},
		} {
			r.vCheck(fmt.Sprintf("%T called with nil", c.f), func() interface{} {
				if !c.ok {
					panic("undefined")
				}
				return true
			}, func() Value { return ValueOf(c.f).Call([]Value{literalnilval()}) })
		}
		r.vCheck("call with wrong types", vUndefined, func() Value {
			return ValueOf(fn).Call([]Value{literalfloatval(1.5), literalfloatval(fl), literalboolval(true), literalstrval("s")})
		})
	}
	r.done()
}
