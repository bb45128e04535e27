package expr

// Bounded stand-in for the types of the language: generated runtime types
// against their structure.

import (
	"fmt"
	"reflect"
	"testing"
	"unsafe"
)

type (
	vtInt   int16
	vtList  struct{ Next *vtList }
	vtTree  struct{ Kids []vtTree }
	vtFn    func(vtFn, int) vtFn
	vtMap   map[string]vtMap
	vtA     struct{ B *vtB }
	vtB     struct{ A *vtA }
	vtPlain struct {
		X int
		y string
		Z [3]vtInt
	}
	vtBlank struct {
		X int
		_ int8
		Z string
	}
	vtUnder struct{ _ [2]string }
)

var vtPrims = map[reflect.Kind]Kind{
	reflect.Bool: Bool, reflect.Int: Int, reflect.Int8: Int8, reflect.Int16: Int16, reflect.Int32: Int32, reflect.Int64: Int64,
	reflect.Uint: Uint, reflect.Uint8: Uint8, reflect.Uint16: Uint16, reflect.Uint32: Uint32, reflect.Uint64: Uint64,
	reflect.Uintptr: Uintptr, reflect.Float32: Float32, reflect.Float64: Float64, reflect.String: String,
}

var vtBase = []reflect.Type{
	reflect.TypeOf(true), reflect.TypeOf(int(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uintptr(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(""),
}

var vtNamed = []reflect.Type{
	reflect.TypeOf(vtInt(0)), reflect.TypeOf(vtList{}), reflect.TypeOf(vtTree{}), reflect.TypeOf(vtFn(nil)), reflect.TypeOf(vtMap{}),
	reflect.TypeOf(vtA{}), reflect.TypeOf(vtB{}), reflect.TypeOf(vtPlain{}), reflect.TypeOf(vtBlank{}), reflect.TypeOf(vtUnder{}),
}

var vtBad = []reflect.Type{
	reflect.TypeOf(make(chan int)), reflect.TypeOf(complex64(0)), reflect.TypeOf(complex128(0)), reflect.TypeOf(new(interface{})).Elem(),
	reflect.TypeOf(new(error)).Elem(), reflect.TypeOf(unsafe.Pointer(nil)),
}

// vtGen makes a type; plain types are built from unnamed parts only, and bad
// tells whether the type has a part the language cannot represent.
func (r *verifRun) vtGen(depth int, plain, bad *bool) reflect.Type {
	if depth <= 0 || r.r.Intn(4) == 0 {
		switch {
		case *bad && r.r.Intn(4) == 0:
			*bad = false
			return vtBad[r.r.Intn(len(vtBad))]
		case r.r.Intn(5) == 0:
			*plain = false
			return vtNamed[r.r.Intn(len(vtNamed))]
		case r.r.Intn(60) == 0:
			return reflect.ArrayOf(1<<16+r.r.Intn(9), vtBase[r.r.Intn(2)*7])
		}
		return vtBase[r.r.Intn(len(vtBase))]
	}
	d := depth - 1
	switch r.r.Intn(6) {
	case 0:
		return reflect.ArrayOf(r.r.Intn(5), r.vtGen(d, plain, bad))
	case 1:
		return reflect.SliceOf(r.vtGen(d, plain, bad))
	case 2:
		return reflect.PtrTo(r.vtGen(d, plain, bad))
	case 3:
		return reflect.MapOf(vtBase[r.r.Intn(len(vtBase))], r.vtGen(d, plain, bad))
	case 4:
		in, out := []reflect.Type{}, []reflect.Type{}
		for i := r.r.Intn(4); i > 0; i-- {
			in = append(in, r.vtGen(d, plain, bad))
		}
		for i := r.r.Intn(3); i > 0; i-- {
			out = append(out, r.vtGen(d, plain, bad))
		}
		variadic := r.r.Intn(3) == 0
		if variadic {
			in = append(in, reflect.SliceOf(r.vtGen(d, plain, bad)))
		}
		return reflect.FuncOf(in, out, variadic)
	}
	fs := []reflect.StructField{}
	for i := r.r.Intn(5); i > 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: r.vtGen(d, plain, bad)})
	}
	return reflect.StructOf(fs)
}

func vtSame(rt reflect.Type, t Type, depth int) error {
	bad := func() error { return fmt.Errorf("%v for %v", t, rt) }
	if depth == 0 {
		return nil
	}
	d := depth - 1
	if k, ok := vtPrims[rt.Kind()]; ok {
		if p, ok := t.(*PrimitiveType); !ok || p.Kind() != k {
			return bad()
		}
		return nil
	}
	switch rt.Kind() {
	case reflect.Array:
		a, ok := t.(*ArrayType)
		if !ok || a.Len() != rt.Len() || a.Kind() != Array {
			return bad()
		}
		return vtSame(rt.Elem(), a.Elem(), d)
	case reflect.Slice:
		a, ok := t.(*SliceType)
		if !ok || a.Kind() != Slice {
			return bad()
		}
		return vtSame(rt.Elem(), a.Elem(), d)
	case reflect.Ptr:
		a, ok := t.(*PtrType)
		if !ok || a.Kind() != Ptr {
			return bad()
		}
		return vtSame(rt.Elem(), a.Elem(), d)
	case reflect.Map:
		a, ok := t.(*MapType)
		if !ok || a.Kind() != Map {
			return bad()
		}
		if err := vtSame(rt.Key(), a.Key(), d); err != nil {
			return err
		}
		return vtSame(rt.Elem(), a.Value(), d)
	case reflect.Func:
		a, ok := t.(*FuncType)
		if !ok || a.Kind() != Func || a.NumIn() != rt.NumIn() || a.NumOut() != rt.NumOut() || a.IsVariadic() != rt.IsVariadic() {
			return bad()
		}
		for i := 0; i < rt.NumIn(); i++ {
			if err := vtSame(rt.In(i), a.In(i), d); err != nil {
				return err
			}
		}
		for i := 0; i < rt.NumOut(); i++ {
			if err := vtSame(rt.Out(i), a.Out(i), d); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		a, ok := t.(*StructType)
		if !ok || a.Kind() != Struct || a.NumFields() != rt.NumField() {
			return bad()
		}
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			if a.Field(i).Name != f.Name {
				return fmt.Errorf("field %d of %v is called %s", i, rt, a.Field(i).Name)
			}
			if err := vtSame(f.Type, a.Field(i).Type, d); err != nil {
				return err
			}
			if g, ok := a.FieldByName(f.Name); !ok || g.Name != f.Name || vtSame(f.Type, g.Type, d) != nil {
				return fmt.Errorf("field %s of %v not found by name", f.Name, rt)
			}
		}
		if _, ok := a.FieldByName("no such field"); ok {
			return fmt.Errorf("a field of %v that does not exist", rt)
		}
		return nil
	}
	return bad()
}

func TestVerifC24(t *testing.T) {
	r := newVerifRun(t, "generated runtime types: structure of the expression type recursively, conversion back for types without named parts, parts the language cannot represent")
	for r.more() {
		for i := 0; i < 200; i++ {
			r.cases++
			plain, bad := true, i%5 == 0
			wanted := bad
			rt := r.vtGen(1+r.r.Intn(4), &plain, &bad)
			hasBad := wanted && !bad
			got, failed := verifTry(func() interface{} { return TypeOf(reflect.New(rt).Elem().Interface()) })
			if rt.Kind() == reflect.Interface {
				continue
			}
			if hasBad {
				if !failed {
					r.fail("the type of %v is %v, want a panic", rt, got)
				}
				continue
			}
			if failed {
				r.fail("%v has no type", rt)
				continue
			}
			if err := vtSame(rt, got.(Type), 6); err != nil {
				r.fail("type of %v: %v", rt, err)
			}
			v := ValueOf(reflect.New(rt).Elem().Interface())
			if !TypeEqual(v.Type(), got.(Type)) {
				r.fail("a value of type %v has type %v", rt, v.Type())
			}
			if plain {
				back, failed := verifTry(func() interface{} { return toreflecttype(got.(Type)) })
				if failed || back != rt {
					r.fail("the runtime type of the type of %v is %v", rt, back)
				}
			}
		}
	}
	// what cannot be made again is not made otherwise
	for _, rt := range []reflect.Type{reflect.TypeOf(vtPlain{}), reflect.TypeOf(vtBlank{}), reflect.TypeOf(vtUnder{}), reflect.TypeOf([]vtBlank{}), reflect.TypeOf(vtInt(0)), reflect.TypeOf(map[vtInt]*vtUnder{})} {
		r.cases++
		t := TypeOf(reflect.New(rt).Elem().Interface())
		if back, failed := verifTry(func() interface{} { return toreflecttype(t) }); !failed {
			if err := vtSame(back.(reflect.Type), t, 4); err != nil {
				r.fail("the runtime type of the type of %v is %v: %v", rt, back, err)
			}
		}
	}
	r.done()
}
