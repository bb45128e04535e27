//go:build verif && go1.21

package expr

import (
	"fmt"
	"reflect"
)

// What an expression denotes, node by node.
//
//gover:spec evalnode
//gover:props C19
//gover:opaque
//gover:modifies rh
func specEvalnode(resolver Resolver, node node) Value {
	switch n := node.(type) {
	case identnode:
		if v := resolver.Resolve(n.ident); v != nil {
			return v
		}
	case intnode:
		if n.sign {
			return val{reflect.ValueOf(n.ival), NewLiteralType(UntypedInt)}
		}
		return val{reflect.ValueOf(n.uval), NewLiteralType(UntypedInt)}
	case floatnode:
		return val{reflect.ValueOf(n.fval), NewLiteralType(UntypedFloat)}
	case boolnode:
		return val{reflect.ValueOf(n.val), NewLiteralType(UntypedBool)}
	case strnode:
		return val{reflect.ValueOf(n.val), NewPrimitiveType(String)}
	case runenode:
		return val{reflect.ValueOf(int64(n.val)), NewLiteralType(UntypedInt)}
	case nilnode:
		return val{reflect.Value{}, NewLiteralType(UntypedNil)}
	case unaryexpr:
		v := evalnode(resolver, n.n)
		switch n.op {
		case unaryplus:
			return v
		case unarynegate:
			return v.Negate()
		case unarynot:
			return v.Not()
		case unarybitnot:
			return v.BitNot()
		case unaryderef:
			return v.Deref()
		case unaryref:
			return v.Ref()
		}
	case ternaryexpr:
		if base(evalnode(resolver, n.a)).RawValue().(bool) {
			return evalnode(resolver, n.b)
		}
		return evalnode(resolver, n.c)
	case binaryexpr:
		return gvEvalBinary(resolver, n)
	}
	panic("no value")
}

func gvEvalBinary(resolver Resolver, n binaryexpr) Value {
	l := evalnode(resolver, n.a)
	switch n.op {
	case binarymember:
		return l.Dot(n.b.(identnode).ident)
	case binarycall:
		args := []Value{}
		for _, a := range flattengroup(n.b) {
			args = append(args, evalnode(resolver, a))
		}
		return l.Call(args)
	case binarylogicalor:
		if b, ok := base(l).RawValue().(bool); ok && b {
			return l.LogicalOr(l)
		}
		return l.LogicalOr(evalnode(resolver, n.b))
	case binarylogicaland:
		if b, ok := base(l).RawValue().(bool); ok && !b {
			return l.LogicalAnd(l)
		}
		return l.LogicalAnd(evalnode(resolver, n.b))
	}
	r := evalnode(resolver, n.b)
	switch n.op {
	case binarygroup:
		return r
	case binaryequal:
		return l.Equal(r)
	case binarynotequal:
		return l.NotEqual(r)
	case binarylesser:
		return l.Lesser(r)
	case binarylesserequal:
		return l.LesserEqual(r)
	case binarygreater:
		return l.Greater(r)
	case binarygreaterequal:
		return l.GreaterEqual(r)
	case binaryadd:
		return l.Add(r)
	case binarysub:
		return l.Sub(r)
	case binaryor:
		return l.Or(r)
	case binaryxor:
		return l.Xor(r)
	case binarymul:
		return l.Mul(r)
	case binarydiv:
		return l.Div(r)
	case binaryrem:
		return l.Rem(r)
	case binarylsh:
		return l.Lsh(r)
	case binaryrsh:
		return l.Rsh(r)
	case binaryand:
		return l.And(r)
	case binaryandnot:
		return l.AndNot(r)
	case binarysubscript:
		return l.Index(r)
	}
	panic("no such operator")
}

// The arguments of a call, in order.
//
//gover:spec flattengroup
//gover:props C19
//gover:opaque
//gover:nopanic
func specFlattengroup(n node) []node {
	if n == nil {
		return nil
	}
	if g, ok := n.(binaryexpr); ok && g.op == binarygroup {
		return append(flattengroup(g.a), flattengroup(g.b)...)
	}
	return []node{n}
}

// Evaluation does not panic, and its result is the value of the root.
//
//gover:spec EvalProgram
//gover:props C19
//gover:opaque
//gover:reads resolver program rh
//gover:modifies rh
//gover:silent rh
//gover:nopanic
func specEvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicError(r)
		}
	}()
	v = evalnode(resolver, program.root).RawValue()
	return
}

//gover:spec panicError
//gover:props C19
//gover:text
func specPanicError(r interface{}) error {
	if err, ok := r.(error); ok {
		return err
	}
	return fmt.Errorf("%v", r)
}

// Texts that cannot be parsed are errors as well.
//
//gover:spec Eval
//gover:props C19
//gover:nopanic
func specEval(resolver Resolver, expr string) (v interface{}, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = panicError(r)
		}
	}()
	return EvalProgram(resolver, ParseString(expr))
}
