//go:build verif

package restruct

import (
	"fmt"
	"reflect"

	"github.com/go-restruct/restruct/expr"
)

// ---- the record of enclosing structs (C25)

//gover:spec (*structstack).root
//gover:props C25
//gover:nopanic
func specRoot(s *structstack) reflect.Value {
	if len(s.stack) == 0 {
		return reflect.Value{}
	}
	return s.stack[0]
}

//gover:spec (*structstack).ancestor
//gover:props C25
//gover:pre gvPreAncestor
//gover:nopanic
func specAncestor(s *structstack, generation int) reflect.Value {
	if generation >= len(s.stack) {
		return reflect.Value{}
	}
	return s.stack[len(s.stack)-1-generation]
}

func gvPreAncestor(s *structstack, generation int) { gvRequires(generation >= 0) }

//gover:spec (*structstack).push
//gover:props C25
//gover:nopanic
func specPush(s *structstack, v reflect.Value) { s.stack = append(s.stack, v) }

// Leaving a struct restores the record; leaving one that was not entered last
// is an error.
//
//gover:spec (*structstack).pop
//gover:props C25
func specPop(s *structstack, v reflect.Value) {
	n := len(s.stack) - 1
	top := s.stack[n]
	s.stack = s.stack[:n]
	if top != v {
		panic("struct stack misaligned")
	}
}

// A link is set to the address of the struct if its type allows it.
//
//gover:spec (*structstack).setancestor
//gover:props C25
//gover:opaque
//gover:reads v ancestor rh
//gover:modifies rh
func specSetancestor(s *structstack, f field, v reflect.Value, ancestor reflect.Value) bool {
	p := ancestor
	if p.Kind() != reflect.Ptr {
		if !p.CanAddr() {
			return false
		}
		p = p.Addr()
	}
	if !p.Type().AssignableTo(v.Type()) {
		return false
	}
	v.Set(p)
	return true
}

// gvLink is what happens to root and parent fields.
func gvLink(s *structstack, f field, v reflect.Value) bool {
	if f.Flags&RootFlag != 0 {
		gvNote("C25")
		s.setancestor(f, v, s.root())
		return true
	}
	if f.Flags&ParentFlag != 0 {
		gvNote("C25")
		for g := 1; g < len(s.stack); g++ {
			if s.setancestor(f, v, s.ancestor(g)) {
				break
			}
		}
		return true
	}
	return false
}

// ---- expressions

//gover:spec (*structstack).evalExpr
//gover:props C12
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr program rh
func specEvalExpr(s *structstack, program *expr.Program) interface{} {
	if !s.allowexpr {
		panic("expressions are not enabled")
	}
	v, err := expr.EvalProgram(s, program)
	if err != nil {
		panic(err)
	}
	return v
}

func gvInt(x interface{}) int {
	return reflect.ValueOf(x).Convert(reflect.TypeOf(int(0))).Interface().(int)
}

//gover:spec (*structstack).evalBits
//gover:props C05 C06 C07
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f.BitSize f.BitsExpr rh
//gover:ensures gvBitsNonneg
func specEvalBits(s *structstack, f field) int {
	if f.BitsExpr == nil {
		return int(f.BitSize)
	}
	n := gvInt(s.evalExpr(f.BitsExpr))
	if n < 0 {
		panic(fmt.Errorf("negative"))
	}
	return n
}

func gvBitsNonneg(s *structstack, f field, n int) bool { return n >= 0 }

//gover:spec (*structstack).evalSize
//gover:props C10
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f.SizeExpr rh
func specEvalSize(s *structstack, f field) int {
	if f.SizeExpr == nil {
		return 0
	}
	return gvInt(s.evalExpr(f.SizeExpr))
}

//gover:spec (*structstack).evalIf
//gover:props C06 C07
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f.IfExpr rh
func specEvalIf(s *structstack, f field) bool {
	if f.IfExpr == nil {
		return true
	}
	b, ok := s.evalExpr(f.IfExpr).(bool)
	if !ok {
		panic("not a bool")
	}
	return b
}

//gover:spec (*structstack).evalWhile
//gover:props C07
//gover:opaque
//gover:reads s.buf s.stack s.allowexpr f.WhileExpr rh
func specEvalWhile(s *structstack, f field) bool {
	b, ok := s.evalExpr(f.WhileExpr).(bool)
	if !ok {
		panic("not a bool")
	}
	return b
}
