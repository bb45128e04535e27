//go:build verif

package restruct

import (
	"math/bits"

	"github.com/go-restruct/restruct/expr"
)

// What a name in an expression denotes: the end-of-data marker, else a
// built-in package, else the field of the innermost struct.
//
//gover:spec (*structstack).Resolve
//gover:props C22
func specStackResolve(s *structstack, ident string) expr.Value {
	if ident == "_eof" {
		return expr.ValueOf(len(s.buf) == 0)
	}
	if v := stdLibResolver.Resolve(ident); v != nil {
		return v
	}
	n := len(s.stack)
	if n == 0 {
		return nil
	}
	f := s.stack[n-1].FieldByName(ident)
	if !f.IsValid() {
		return nil
	}
	return expr.ValueOf(f.Interface())
}

// The only built-in package is bits, and each of its names is the function of
// that name.
//
//gover:lemma
//gover:props C22
//gover:tables exprStdLib stdLibResolver
func lemStdLib(ident string) {
	gvRequires(ident != "bits")
	gvInitDone()
	gvAssert(stdLibResolver.Resolve(ident) == nil)
	p := map[string]expr.Value{}
	p["LeadingZeros"] = expr.ValueOf(bits.LeadingZeros)
	p["LeadingZeros8"] = expr.ValueOf(bits.LeadingZeros8)
	p["LeadingZeros16"] = expr.ValueOf(bits.LeadingZeros16)
	p["LeadingZeros32"] = expr.ValueOf(bits.LeadingZeros32)
	p["LeadingZeros64"] = expr.ValueOf(bits.LeadingZeros64)
	p["Len"] = expr.ValueOf(bits.Len)
	p["Len8"] = expr.ValueOf(bits.Len8)
	p["Len16"] = expr.ValueOf(bits.Len16)
	p["Len32"] = expr.ValueOf(bits.Len32)
	p["Len64"] = expr.ValueOf(bits.Len64)
	p["OnesCount"] = expr.ValueOf(bits.OnesCount)
	p["OnesCount8"] = expr.ValueOf(bits.OnesCount8)
	p["OnesCount16"] = expr.ValueOf(bits.OnesCount16)
	p["OnesCount32"] = expr.ValueOf(bits.OnesCount32)
	p["OnesCount64"] = expr.ValueOf(bits.OnesCount64)
	p["Reverse"] = expr.ValueOf(bits.Reverse)
	p["Reverse8"] = expr.ValueOf(bits.Reverse8)
	p["Reverse16"] = expr.ValueOf(bits.Reverse16)
	p["Reverse32"] = expr.ValueOf(bits.Reverse32)
	p["Reverse64"] = expr.ValueOf(bits.Reverse64)
	p["ReverseBytes"] = expr.ValueOf(bits.ReverseBytes)
	p["ReverseBytes16"] = expr.ValueOf(bits.ReverseBytes16)
	p["ReverseBytes32"] = expr.ValueOf(bits.ReverseBytes32)
	p["ReverseBytes64"] = expr.ValueOf(bits.ReverseBytes64)
	p["RotateLeft"] = expr.ValueOf(bits.RotateLeft)
	p["RotateLeft8"] = expr.ValueOf(bits.RotateLeft8)
	p["RotateLeft16"] = expr.ValueOf(bits.RotateLeft16)
	p["RotateLeft32"] = expr.ValueOf(bits.RotateLeft32)
	p["RotateLeft64"] = expr.ValueOf(bits.RotateLeft64)
	p["TrailingZeros"] = expr.ValueOf(bits.TrailingZeros)
	p["TrailingZeros8"] = expr.ValueOf(bits.TrailingZeros8)
	p["TrailingZeros16"] = expr.ValueOf(bits.TrailingZeros16)
	p["TrailingZeros32"] = expr.ValueOf(bits.TrailingZeros32)
	p["TrailingZeros64"] = expr.ValueOf(bits.TrailingZeros64)
	gvAssert(stdLibResolver.Resolve("bits") == expr.ValueOf(expr.NewPackage(p)))
}
