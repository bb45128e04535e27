//go:build verif && go1.21

package expr

import "reflect"

// Types are equal if they have the same structure.
//
//gover:spec TypeEqual
//gover:props C18 C24
//gover:opaque
//gover:nopanic
//gover:pure
func specTypeEqual(a, b Type) bool { return reflect.DeepEqual(a, b) }

// Literals go to the types that can take them.
//
//gover:spec assignable
//gover:props C18
//gover:opaque
//gover:pure
//gover:nopanic
//gover:requires gvTypes2
func specAssignable(from Type, to Type) bool {
	if TypeEqual(from, to) {
		return true
	}
	f := from.Kind()
	if f != UntypedNil && f != UntypedBool && f != UntypedInt && f != UntypedFloat {
		return false
	}
	k := to.Kind()
	switch f {
	case UntypedNil:
		return k == Ptr || k == Func || k == Slice || k == Map
	case UntypedBool:
		return k == Bool
	case UntypedInt:
		return k == Int || k == Int8 || k == Int16 || k == Int32 || k == Int64 ||
			k == Uint || k == Uint8 || k == Uint16 || k == Uint32 || k == Uint64 || k == Uintptr ||
			k == Float32 || k == Float64
	}
	return k == Float32 || k == Float64
}

// The runtime type of an expression type.
//
//gover:spec toreflecttype
//gover:props C24
//gover:opaque
//gover:requires gvType1
func specToreflecttype(t Type) reflect.Type {
	switch t := t.(type) {
	case *PrimitiveType:
		return primRType[t.Kind()]
	case *ArrayType:
		return reflect.ArrayOf(t.Len(), toreflecttype(t.Elem()))
	case *SliceType:
		return reflect.SliceOf(toreflecttype(t.Elem()))
	case *MapType:
		return reflect.MapOf(toreflecttype(t.Key()), toreflecttype(t.Value()))
	case *PtrType:
		return reflect.PtrTo(toreflecttype(t.Elem()))
	case *StructType:
		fs := []reflect.StructField{}
		for i := 0; i < t.NumFields(); i++ {
			fs = append(fs, reflect.StructField{Name: t.Field(i).Name, Type: toreflecttype(t.Field(i).Type)})
		}
		return reflect.StructOf(fs)
	case *FuncType:
		in, out := []reflect.Type{}, []reflect.Type{}
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, toreflecttype(t.In(i)))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, toreflecttype(t.Out(i)))
		}
		return reflect.FuncOf(in, out, t.IsVariadic())
	}
	panic("no runtime type")
}

func gvTypes2(a, b Type) bool { return a != nil && b != nil }

func gvType1(t Type) bool { return t != nil }

func gvPromoted(from Value, to Type) bool { return to != nil }

// The expression type of a runtime type has its structure. Answers found in
// the caches are those given before.
//
//gover:spec convertreflecttype
//gover:props C24 C23
//gover:opaque
//gover:pure
//gover:reads t
//gover:cache types
//gover:cache typemap@typemutex
func specConvertreflecttype(t reflect.Type, types map[reflect.Type]Type) Type {
	switch k := t.Kind(); k {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return primType[k]
	case reflect.Array:
		return &ArrayType{count: t.Len(), elem: convertreflecttype(t.Elem(), types)}
	case reflect.Slice:
		return &SliceType{elem: convertreflecttype(t.Elem(), types)}
	case reflect.Ptr:
		return &PtrType{elem: convertreflecttype(t.Elem(), types)}
	case reflect.Map:
		return &MapType{key: convertreflecttype(t.Key(), types), val: convertreflecttype(t.Elem(), types)}
	case reflect.Func:
		in, out := []Type{}, []Type{}
		for i := 0; i < t.NumIn(); i++ {
			in = append(in, convertreflecttype(t.In(i), types))
		}
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, convertreflecttype(t.Out(i), types))
		}
		return &FuncType{in: in, out: out, variadic: t.IsVariadic()}
	case reflect.Struct:
		fs := []Field{}
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, Field{Name: t.Field(i).Name, Type: convertreflecttype(t.Field(i).Type, types)})
		}
		return NewStructType(fs)
	}
	panic("the language has no such type")
}

//gover:spec fromreflecttype
//gover:props C24 C23
//gover:opaque
//gover:pure
func specFromreflecttype(t reflect.Type) Type { return convertreflecttype(t, nil) }

//gover:spec TypeOf
//gover:props C24 C23
//gover:opaque
func specTypeOf(i interface{}) Type {
	if pkg, ok := i.(Package); ok {
		return pkg.Type()
	}
	return fromreflecttype(reflect.TypeOf(i))
}

// The tables hold each primitive type under its own kind.
//
//gover:lemma
//gover:props C24
//gover:tables primType primRType
func lemTables() {
	gvInit()
	gvAssert(primRType[Bool] == reflect.TypeOf(false))
	gvAssert(primRType[Int] == reflect.TypeOf(int(0)))
	gvAssert(primRType[Int8] == reflect.TypeOf(int8(0)))
	gvAssert(primRType[Int16] == reflect.TypeOf(int16(0)))
	gvAssert(primRType[Int32] == reflect.TypeOf(int32(0)))
	gvAssert(primRType[Int64] == reflect.TypeOf(int64(0)))
	gvAssert(primRType[Uint] == reflect.TypeOf(uint(0)))
	gvAssert(primRType[Uint8] == reflect.TypeOf(uint8(0)))
	gvAssert(primRType[Uint16] == reflect.TypeOf(uint16(0)))
	gvAssert(primRType[Uint32] == reflect.TypeOf(uint32(0)))
	gvAssert(primRType[Uint64] == reflect.TypeOf(uint64(0)))
	gvAssert(primRType[Uintptr] == reflect.TypeOf(uintptr(0)))
	gvAssert(primRType[Float32] == reflect.TypeOf(float32(0)))
	gvAssert(primRType[Float64] == reflect.TypeOf(float64(0)))
	gvAssert(primRType[String] == reflect.TypeOf(""))
	gvAssert(gvIsPrim(reflect.Bool, Bool))
	gvAssert(gvIsPrim(reflect.Int, Int))
	gvAssert(gvIsPrim(reflect.Int8, Int8))
	gvAssert(gvIsPrim(reflect.Int16, Int16))
	gvAssert(gvIsPrim(reflect.Int32, Int32))
	gvAssert(gvIsPrim(reflect.Int64, Int64))
	gvAssert(gvIsPrim(reflect.Uint, Uint))
	gvAssert(gvIsPrim(reflect.Uint8, Uint8))
	gvAssert(gvIsPrim(reflect.Uint16, Uint16))
	gvAssert(gvIsPrim(reflect.Uint32, Uint32))
	gvAssert(gvIsPrim(reflect.Uint64, Uint64))
	gvAssert(gvIsPrim(reflect.Uintptr, Uintptr))
	gvAssert(gvIsPrim(reflect.Float32, Float32))
	gvAssert(gvIsPrim(reflect.Float64, Float64))
	gvAssert(gvIsPrim(reflect.String, String))
}

func gvIsPrim(k reflect.Kind, want Kind) bool {
	t, ok := primType[k].(*PrimitiveType)
	return ok && t.Kind() == want
}

// ---- the parts of types

//gover:spec (PrimitiveType).Kind
//gover:props C24 C18
//gover:inline
func specPrimitiveTypeKind(t PrimitiveType) Kind { return t.kind }

//gover:spec (littype).Kind
//gover:props C24 C18
//gover:inline
func speclittypeKind(t littype) Kind { return t.kind }

//gover:spec (PackageType).Kind
//gover:props C24 C18
//gover:inline
func specPackageTypeKind(t PackageType) Kind { return Pkg }

//gover:spec (ArrayType).Kind
//gover:props C24 C18
//gover:inline
func specArrayTypeKind(t ArrayType) Kind { return Array }

//gover:spec (SliceType).Kind
//gover:props C24 C18
//gover:inline
func specSliceTypeKind(t SliceType) Kind { return Slice }

//gover:spec (MapType).Kind
//gover:props C24 C18
//gover:inline
func specMapTypeKind(t MapType) Kind { return Map }

//gover:spec (StructType).Kind
//gover:props C24 C18
//gover:inline
func specStructTypeKind(t StructType) Kind { return Struct }

//gover:spec (PtrType).Kind
//gover:props C24 C18
//gover:inline
func specPtrTypeKind(t PtrType) Kind { return Ptr }

//gover:spec (FuncType).Kind
//gover:props C24 C18
//gover:inline
func specFuncTypeKind(t FuncType) Kind { return Func }

//gover:spec (ArrayType).Elem
//gover:props C24
//gover:inline
func specArrayTypeElem(t ArrayType) Type { return t.elem }

//gover:spec (ArrayType).Len
//gover:props C24
//gover:inline
func specArrayTypeLen(t ArrayType) int { return t.count }

//gover:spec (SliceType).Elem
//gover:props C24
//gover:inline
func specSliceTypeElem(t SliceType) Type { return t.elem }

//gover:spec (MapType).Key
//gover:props C24
//gover:inline
func specMapTypeKey(t MapType) Type { return t.key }

//gover:spec (MapType).Value
//gover:props C24
//gover:inline
func specMapTypeValue(t MapType) Type { return t.val }

//gover:spec (StructType).NumFields
//gover:props C24
//gover:inline
func specStructTypeNumFields(t StructType) int { return len(t.fields) }

//gover:spec (StructType).Field
//gover:props C24
//gover:inline
func specStructTypeField(t StructType, i int) Field { return t.fields[i] }

//gover:spec (PtrType).Elem
//gover:props C24
//gover:inline
func specPtrTypeElem(t PtrType) Type { return t.elem }

//gover:spec (FuncType).NumIn
//gover:props C24 C17
//gover:inline
func specFuncTypeNumIn(t FuncType) int { return len(t.in) }

//gover:spec (FuncType).In
//gover:props C24 C17
//gover:inline
func specFuncTypeIn(t FuncType, i int) Type { return t.in[i] }

//gover:spec (FuncType).IsVariadic
//gover:props C24 C17
//gover:inline
func specFuncTypeIsVariadic(t FuncType) bool { return t.variadic }

//gover:spec (FuncType).NumOut
//gover:props C24 C17
//gover:inline
func specFuncTypeNumOut(t FuncType) int { return len(t.out) }

//gover:spec (FuncType).Out
//gover:props C24 C17
//gover:inline
func specFuncTypeOut(t FuncType, i int) Type { return t.out[i] }

//gover:spec (PackageType).Symbol
//gover:props C22 C24
//gover:inline
func specPackageTypeSymbol(t PackageType, ident string) Type {
	return t.symbols[ident]
}

//gover:spec (StructType).FieldByName
//gover:props C24 C22
//gover:inline
func specStructTypeFieldByName(t StructType, name string) (Field, bool) {
	f, ok := t.fieldMap[name]
	return f, ok
}

//gover:spec NewStructType
//gover:props C24
//gover:inline
func specNewStructType(fields []Field) *StructType {
	m := map[string]Field{}
	for _, f := range fields {
		m[f.Name] = f
	}
	return &StructType{fields: fields, fieldMap: m}
}

//gover:spec NewArrayType
//gover:props C24
//gover:inline
func specNewArrayType(count int, elem Type) *ArrayType { return &ArrayType{count: count, elem: elem} }

//gover:spec NewSliceType
//gover:props C24
//gover:inline
func specNewSliceType(elem Type) *SliceType { return &SliceType{elem: elem} }

//gover:spec NewMapType
//gover:props C24
//gover:inline
func specNewMapType(key Type, val Type) Type { return &MapType{key: key, val: val} }

//gover:spec NewPtrType
//gover:props C24
//gover:inline
func specNewPtrType(elem Type) *PtrType { return &PtrType{elem: elem} }

//gover:spec NewFuncType
//gover:props C24
//gover:inline
func specNewFuncType(in []Type, out []Type, variadic bool) *FuncType {
	return &FuncType{in: in, out: out, variadic: variadic}
}

//gover:spec NewPackageType
//gover:props C24
//gover:inline
func specNewPackageType(symbols map[string]Type) *PackageType { return &PackageType{symbols: symbols} }

//gover:spec NewPrimitiveType
//gover:props C24 C17
//gover:inline
func specNewPrimitiveType(k Kind) Type {
	if k < Bool || String < k {
		panic("not primitive")
	}
	return &PrimitiveType{kind: k}
}

//gover:spec NewLiteralType
//gover:props C24 C18
//gover:inline
func specNewLiteralType(k Kind) Type {
	if k < UntypedBool || UntypedNil < k {
		panic("not a literal's kind")
	}
	return &littype{kind: k}
}
