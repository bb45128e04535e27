//go:build verif

package restruct

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"reflect"
	"strconv"
)

// ---- type expressions in tags (C14)

// What a type expression denotes. Anything else is an error.
//
//gover:spec typeOfExpr
//gover:reads e
//gover:props C14
//gover:opaque
func specTypeOfExpr(e ast.Expr) (reflect.Type, error) {
	if id, ok := e.(*ast.Ident); ok {
		if t, ok := typeMap[id.Name]; ok {
			return t, nil
		}
	}
	if ptr, ok := e.(*ast.StarExpr); ok {
		elem, err := typeOfExpr(ptr.X)
		if err != nil {
			return nil, err
		}
		return reflect.PtrTo(elem), nil
	}
	if arr, ok := e.(*ast.ArrayType); ok {
		if arr.Len == nil {
			elem, err := typeOfExpr(arr.Elt)
			if err != nil {
				return nil, err
			}
			return reflect.SliceOf(elem), nil
		}
		lit, ok := arr.Len.(*ast.BasicLit)
		if !ok || lit.Kind != token.INT {
			return nil, errors.New("not a length")
		}
		n, err := strconv.ParseInt(lit.Value, 0, 0)
		if err != nil {
			return nil, err
		}
		elem, err := typeOfExpr(arr.Elt)
		if err != nil {
			return nil, err
		}
		return reflect.ArrayOf(int(n), elem), nil
	}
	return nil, errors.New("not a type")
}

// A text denotes what the expression it spells denotes.
//
//gover:spec parseType
//gover:reads typ
//gover:props C14
//gover:opaque
func specParseType(typ string) (reflect.Type, error) {
	e, err := parser.ParseExpr(typ)
	if err != nil {
		return nil, errors.New("not an expression")
	}
	return typeOfExpr(e)
}

// Each name denotes its own type, and there are no others.
//
//gover:lemma
//gover:props C14
//gover:tables typeMap
func lemTypeMap(other string) {
	gvInitDone()
	gvAssert(typeMap["bool"] == reflect.TypeOf(false))
	gvAssert(typeMap["int"] == reflect.TypeOf(int(0)))
	gvAssert(typeMap["int8"] == reflect.TypeOf(int8(0)))
	gvAssert(typeMap["int16"] == reflect.TypeOf(int16(0)))
	gvAssert(typeMap["int32"] == reflect.TypeOf(int32(0)))
	gvAssert(typeMap["int64"] == reflect.TypeOf(int64(0)))
	gvAssert(typeMap["uint"] == reflect.TypeOf(uint(0)))
	gvAssert(typeMap["uint8"] == reflect.TypeOf(uint8(0)))
	gvAssert(typeMap["uint16"] == reflect.TypeOf(uint16(0)))
	gvAssert(typeMap["uint32"] == reflect.TypeOf(uint32(0)))
	gvAssert(typeMap["uint64"] == reflect.TypeOf(uint64(0)))
	gvAssert(typeMap["uintptr"] == reflect.TypeOf(uintptr(0)))
	gvAssert(typeMap["float32"] == reflect.TypeOf(float32(0)))
	gvAssert(typeMap["float64"] == reflect.TypeOf(float64(0)))
	gvAssert(typeMap["complex64"] == reflect.TypeOf(complex64(0)))
	gvAssert(typeMap["complex128"] == reflect.TypeOf(complex128(0)))
	gvAssert(typeMap["byte"] == reflect.TypeOf(byte(0)))
	gvAssert(typeMap["rune"] == reflect.TypeOf(rune(0)))
	gvAssert(typeMap["string"] == reflect.TypeOf([]byte(nil)))
	switch other {
	case "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "byte", "rune", "string":
	default:
		_, ok := typeMap[other]
		gvAssert(!ok)
	}
}
