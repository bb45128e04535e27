//go:build verif

package restruct

import (
	"reflect"

	"github.com/go-restruct/restruct/expr"
)

// ---- field tables

//gover:spec validBitType
//gover:props C15 C13
//gover:inline
func specValidBitType(typ reflect.Type) bool {
	k := typ.Kind()
	return k == reflect.Int || k == reflect.Int8 || k == reflect.Int16 || k == reflect.Int32 || k == reflect.Int64 ||
		k == reflect.Uint || k == reflect.Uint8 || k == reflect.Uint16 || k == reflect.Uint32 || k == reflect.Uint64 ||
		k == reflect.Float32 || k == reflect.Complex64 || k == reflect.Complex128
}

//gover:spec validSizeType
//gover:props C15
//gover:inline
func specValidSizeType(typ reflect.Type) bool {
	return typ.Kind() == reflect.String || typ.Kind() == reflect.Slice
}

// The table of a struct type.
//
//gover:spec fieldsFromStruct
//gover:props C15 C10
//gover:opaque
//gover:merge
//gover:reads typ
//gover:cache fieldCache@cacheMutex
func specFieldsFromStruct(typ reflect.Type) (result fields) {
	if typ.Kind() != reflect.Struct {
		panic("not a struct")
	}
	open := map[string]int{} // targets of sizeof that have not come up
	n := typ.NumField()
	for i := 0; i < n; i++ {
		sf := typ.Field(i)
		if sf.PkgPath != "" && sf.Name != "_" {
			continue
		}
		o := mustParseTag(sf.Tag.Get("struct"))
		if o.Ignore {
			continue
		}
		if o.RootFlag {
			result = append(result, field{Name: sf.Name, Index: i, Flags: RootFlag})
			continue
		}
		if o.ParentFlag {
			result = append(result, field{Name: sf.Name, Index: i, Flags: ParentFlag})
			continue
		}
		wire := sf.Type
		if o.Type != nil {
			wire = o.Type
		}
		source := -1
		if j, ok := open[sf.Name]; ok {
			if !validSizeType(sf.Type) {
				panic("sizeof names a field without a size")
			}
			source = j
			for k := range result {
				if result[k].Index == j {
					result[k].TIndex = i
				}
			}
			delete(open, sf.Name)
		} else if o.SizeOf != "" {
			open[o.SizeOf] = i
		}
		if o.SizeFrom != "" {
			if !validSizeType(sf.Type) {
				panic("sizefrom on a field without a size")
			}
			for k := range result {
				if result[k].Name == o.SizeFrom {
					source = result[k].Index
					result[k].TIndex = i
				}
			}
			if source == -1 {
				panic("sizefrom names no field before this one")
			}
		}
		f := field{Name: sf.Name, Index: i, NativeType: sf.Type, BinaryType: wire, Order: o.Order, Skip: o.Skip, BitSize: o.BitSize, SIndex: source, TIndex: -1}
		f.IfExpr = parseExpr(o.IfExpr, sf.Tag.Get("struct-if"))
		f.SizeExpr = parseExpr(o.SizeExpr, sf.Tag.Get("struct-size"))
		f.BitsExpr = parseExpr(o.BitsExpr, sf.Tag.Get("struct-bits"))
		f.InExpr = parseExpr(o.InExpr, sf.Tag.Get("struct-in"))
		f.OutExpr = parseExpr(o.OutExpr, sf.Tag.Get("struct-out"))
		f.WhileExpr = parseExpr(o.WhileExpr, sf.Tag.Get("struct-while"))
		f.SwitchExpr = parseExpr(o.SwitchExpr, sf.Tag.Get("struct-switch"))
		f.CaseExpr = parseExpr(o.CaseExpr, sf.Tag.Get("struct-case"))
		if f.SizeExpr != nil && !validSizeType(sf.Type) {
			panic("size on a field without a size")
		}
		if f.BitsExpr != nil && !validBitType(f.BinaryType) {
			panic("bits on a field without bits")
		}
		flags := FieldFlags(0)
		if o.VariantBoolFlag {
			flags |= VariantBoolFlag
		}
		if o.InvertedBoolFlag {
			flags |= InvertedBoolFlag
		}
		if o.DefaultFlag {
			flags |= DefaultFlag
		}
		f.Flags = flags
		f.Trivial = isTypeTrivial(f.BinaryType)
		result = append(result, f)
	}
	if len(open) > 0 {
		panic("sizeof names no field after it")
	}
	return result
}

// The expression of an option, or else of its own tag.
//
//gover:spec parseExpr
//gover:props C15
//gover:opaque
//gover:reads sources
func specParseExpr(sources ...string) *expr.Program {
	for i := 0; i < len(sources); i++ {
		if len(sources[i]) != 0 {
			return expr.ParseString(sources[i])
		}
	}
	return nil
}

// The table is derived once, and then read from the cache.
//
//gover:spec cachedFieldsFromStruct
//gover:props C15 C23
//gover:opaque
//gover:readonly
//gover:reads typ
func specCachedFields(typ reflect.Type) fields { return fieldsFromStruct(typ) }

// A type is trivial if its values all have the same size.
//
//gover:spec isTypeTrivial
//gover:props C15 C05 C07
//gover:opaque
//gover:reads typ
func specIsTypeTrivial(typ reflect.Type) bool {
	if typ == nil {
		return false
	}
	switch k := typ.Kind(); {
	case k == reflect.Array:
		return isTypeTrivial(typ.Elem())
	case k == reflect.Struct:
		for _, f := range cachedFieldsFromStruct(typ) {
			if !isTypeTrivial(f.BinaryType) {
				return false
			}
		}
		return true
	default:
		return k == reflect.Bool || k >= reflect.Int && k <= reflect.Uintptr || k >= reflect.Float32 && k <= reflect.Complex128
	}
}

// The field of a value that is not part of a struct.
//
//gover:spec fieldFromType
//gover:props C15 C12
//gover:inline
func specFieldFromType(typ reflect.Type) field {
	return field{Index: -1, SIndex: -1, TIndex: -1, BinaryType: typ, NativeType: typ, Trivial: isTypeTrivial(typ)}
}

//gover:spec mustParseTag
//gover:props C15 C13
//gover:inline
func specMustParseTag(tag string) tagOptions {
	o, err := parseTag(tag)
	if err != nil {
		panic(err)
	}
	return o
}
