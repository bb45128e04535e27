package expr

// Bounded stand-in for evaluation: random syntax trees against a reference
// evaluator that also records which names are resolved and which functions
// are called, in order.

import (
	"fmt"
	"io"
	"math"
	"reflect"
	"testing"
)

type evalErr struct{}

type evalNamedBool bool

// evalBool gives the value of a condition, which may be of a named type.
func evalBool(v Value) (bool, bool) {
	rv := reflect.ValueOf(v.RawValue())
	if rv.Kind() != reflect.Bool {
		return false, false
	}
	return rv.Bool(), true
}

type evalEnv struct {
	vars map[string]interface{}
	log  *[]string
}

func (e evalEnv) Resolve(name string) Value {
	*e.log = append(*e.log, name)
	if v, ok := e.vars[name]; ok {
		return ValueOf(v)
	}
	return nil
}

type evalStruct struct {
	X, Y int
	In   struct{ Z uint8 }
}

func evalVars(log *[]string, r *verifRun) map[string]interface{} {
	st := evalStruct{X: r.r.Intn(9), Y: r.r.Intn(9)}
	st.In.Z = uint8(r.r.Intn(256))
	x := r.r.Intn(5)
	floats := []float64{0, 1.5, -2.25, math.NaN(), math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), 1e300}
	return map[string]interface{}{
		"a": r.r.Intn(7) - 3, "b": r.r.Intn(7) - 3, "u": uint8(r.r.Intn(256)), "w": uint8(r.r.Intn(9)),
		"x": floats[r.r.Intn(len(floats))], "y": floats[r.r.Intn(len(floats))], "z": float32(floats[r.r.Intn(len(floats))]),
		"pk": NewPackage(map[string]Value{
			"n": ValueOf(r.r.Intn(9)), "fl": ValueOf(2.5), "pf": ValueOf(func(x int) int { *log = append(*log, fmt.Sprint("pk.pf", x)); return x - 1 }),
			"in": ValueOf(NewPackage(map[string]Value{"n": ValueOf(r.r.Intn(9))})),
		}),
		"p": r.r.Intn(2) == 0, "q": r.r.Intn(2) == 0, "nb": evalNamedBool(r.r.Intn(2) == 0), "s": "str", "st": st, "ps": &st, "px": &x,
		"sl": []int{4, 5, 6}, "m": map[string]int{"str": 9},
		"f": func(x int) int { *log = append(*log, fmt.Sprint("f", x)); return x*3 + 1 },
		"g": func(x, y, z int) int {
			*log = append(*log, fmt.Sprint("g", x, y, z))
			return x*100 + y*10 + z
		},
		"h":  func() bool { *log = append(*log, "h"); return true },
		"pf": func(x uint8, y bool) uint8 { *log = append(*log, fmt.Sprint("pf", x, y)); return x + 1 },
	}
}

// evalTree is a syntax tree the reference evaluator understands: op is an
// operator symbol, or "name", "int", "bool", "str", "rune", "call", "dot",
// "index", "?:", ",".
type evalTree struct {
	op   string
	name string
	n    uint64
	kids []evalTree
}

var evalUnaryOps = map[string]unaryop{"u+": unaryplus, "u-": unarynegate, "u!": unarynot, "u^": unarybitnot, "u*": unaryderef}

var evalBinaryOps = map[string]binaryop{
	"||": binarylogicalor, "&&": binarylogicaland, "==": binaryequal, "!=": binarynotequal, "<": binarylesser,
	"<=": binarylesserequal, ">": binarygreater, ">=": binarygreaterequal, "+": binaryadd, "-": binarysub,
	"|": binaryor, "^": binaryxor, "*": binarymul, "/": binarydiv, "%": binaryrem, "<<": binarylsh, ">>": binaryrsh,
	"&": binaryand, "&^": binaryandnot, "index": binarysubscript, ",": binarygroup,
}

func (t evalTree) node() node {
	if op, ok := evalUnaryOps[t.op]; ok {
		return unaryexpr{op: op, n: t.kids[0].node()}
	}
	if op, ok := evalBinaryOps[t.op]; ok {
		return binaryexpr{op: op, a: t.kids[0].node(), b: t.kids[1].node()}
	}
	switch t.op {
	case "name":
		return identnode{ident: t.name}
	case "int":
		return intnode{uval: t.n, ival: int64(t.n)}
	case "neg":
		return intnode{uval: t.n, ival: int64(t.n), sign: true}
	case "float":
		return floatnode{fval: float64(t.n) / 2}
	case "bool":
		return boolnode{val: t.n != 0}
	case "str":
		return strnode{val: t.name}
	case "rune":
		return runenode{val: rune(t.n)}
	case "dot":
		return binaryexpr{op: binarymember, a: t.kids[0].node(), b: identnode{ident: t.name}}
	case "?:":
		return ternaryexpr{a: t.kids[0].node(), b: t.kids[1].node(), c: t.kids[2].node()}
	case "call":
		var arg node
		for i, k := range t.kids[1:] {
			if i == 0 {
				arg = k.node()
			} else {
				arg = binaryexpr{op: binarygroup, a: arg, b: k.node()}
			}
		}
		return binaryexpr{op: binarycall, a: t.kids[0].node(), b: arg}
	}
	panic(t.op)
}

// eval gives the value of a tree; operators on values are those of Value,
// which have a property of their own.
func (t evalTree) eval(e evalEnv) Value {
	if _, ok := evalUnaryOps[t.op]; ok {
		v := t.kids[0].eval(e)
		switch t.op {
		case "u-":
			return v.Negate()
		case "u!":
			return v.Not()
		case "u^":
			return v.BitNot()
		case "u*":
			return v.Deref()
		}
		return v
	}
	switch t.op {
	case "name":
		v := e.Resolve(t.name)
		if v == nil {
			panic(evalErr{})
		}
		return v
	case "int":
		return literaluintval(t.n)
	case "neg":
		return literalintval(int64(t.n))
	case "float":
		return literalfloatval(float64(t.n) / 2)
	case "bool":
		return literalboolval(t.n != 0)
	case "str":
		return literalstrval(t.name)
	case "rune":
		return literalintval(int64(t.n))
	case "dot":
		return evalDot(t.kids[0].eval(e), t.name)
	case ",":
		t.kids[0].eval(e)
		return t.kids[1].eval(e)
	case "?:":
		c, ok := evalBool(t.kids[0].eval(e))
		if !ok {
			panic(evalErr{})
		}
		if c {
			return t.kids[1].eval(e)
		}
		return t.kids[2].eval(e)
	case "call":
		f := t.kids[0].eval(e)
		args := []Value{}
		// a group in an argument adds arguments
		var add func(k evalTree)
		add = func(k evalTree) {
			if k.op == "," {
				add(k.kids[0])
				add(k.kids[1])
				return
			}
			args = append(args, k.eval(e))
		}
		for _, k := range t.kids[1:] {
			add(k)
		}
		return f.Call(args)
	case "&&", "||":
		a := t.kids[0].eval(e)
		if l, ok := evalBool(a); ok && l == (t.op == "||") {
			return ValueOf(l)
		}
		b := t.kids[1].eval(e)
		l, ok := evalBool(a)
		m, ok2 := evalBool(b)
		if !ok || !ok2 {
			panic(evalErr{})
		}
		if t.op == "&&" {
			return ValueOf(l && m)
		}
		return ValueOf(l || m)
	case "index":
		a := t.kids[0].eval(e)
		return a.Index(t.kids[1].eval(e))
	}
	a := t.kids[0].eval(e)
	b := t.kids[1].eval(e)
	switch t.op {
	case "==":
		return a.Equal(b)
	case "!=":
		return a.NotEqual(b)
	case "<":
		return a.Lesser(b)
	case "<=":
		return a.LesserEqual(b)
	case ">":
		return a.Greater(b)
	case ">=":
		return a.GreaterEqual(b)
	case "+":
		return a.Add(b)
	case "-":
		return a.Sub(b)
	case "|":
		return a.Or(b)
	case "^":
		return a.Xor(b)
	case "*":
		return a.Mul(b)
	case "/":
		return a.Div(b)
	case "%":
		return a.Rem(b)
	case "<<":
		return a.Lsh(b)
	case ">>":
		return a.Rsh(b)
	case "&":
		return a.And(b)
	case "&^":
		return a.AndNot(b)
	}
	panic(t.op)
}

// evalDot gives a member of a value, by reflection.
func evalDot(v Value, name string) Value {
	raw := v.RawValue()
	if p, ok := raw.(Package); ok {
		if s, ok := p.symbols[name]; ok {
			return s
		}
		panic(evalErr{})
	}
	rv := reflect.ValueOf(raw)
	for rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	return ValueOf(rv.FieldByName(name).Interface())
}

// gen makes a tree of the given kind of value: i(nt), b(ool), u(int8), f(loat),
// or any.
func (r *verifRun) evalGen(kind byte, depth int) evalTree {
	pick := func(s ...string) string { return s[r.r.Intn(len(s))] }
	name := func(s ...string) evalTree { return evalTree{op: "name", name: pick(s...)} }
	k := func(op string, kids ...evalTree) evalTree { return evalTree{op: op, kids: kids} }
	if r.r.Intn(40) == 0 {
		return name("zz", "st", "f", "s", "sl", "px", "pk", "z")
	}
	if r.r.Intn(30) == 0 {
		kind = "ibuisf"[r.r.Intn(6)]
	}
	if depth <= 0 {
		switch kind {
		case 'b':
			if r.r.Intn(3) == 0 {
				return evalTree{op: "bool", n: uint64(r.r.Intn(2))}
			}
			return name("p", "q", "nb")
		case 'u':
			return name("u", "w")
		case 's':
			return name("s")
		case 'f':
			if r.r.Intn(5) == 0 {
				return evalTree{op: "float", n: uint64(r.r.Intn(9))}
			}
			return name("x", "y")
		}
		switch r.r.Intn(6) {
		case 0:
			return evalTree{op: "int", n: uint64(r.r.Intn(5))}
		case 1:
			return evalTree{op: "neg", n: -uint64(1 + r.r.Intn(3))}
		case 2:
			return evalTree{op: "rune", n: uint64('a' + r.r.Intn(3))}
		}
		return name("a", "b")
	}
	d := depth - 1
	switch kind {
	case 'b':
		switch r.r.Intn(8) {
		case 0, 1:
			return k("||", r.evalGen('b', d), r.evalGen('b', d))
		case 2, 3:
			return k("&&", r.evalGen('b', d), r.evalGen('b', d))
		case 4:
			return k("u!", r.evalGen('b', d))
		case 5:
			return k("call", name("h"))
		case 6:
			return k("?:", r.evalGen('b', d), r.evalGen('b', d), r.evalGen('b', d))
		}
		kk := "iuf"[r.r.Intn(3)]
		return k(pick("==", "!=", "<", "<=", ">", ">="), r.evalGen(kk, d), r.evalGen(kk, d))
	case 'u':
		switch r.r.Intn(7) {
		case 0:
			return k(pick("<<", ">>"), r.evalGen('u', d), r.evalGen('u', d))
		case 1:
			return k("call", name("pf"), r.evalGen('u', d), r.evalGen('b', d))
		case 2:
			return evalTree{op: "dot", name: "Z", kids: []evalTree{{op: "dot", name: "In", kids: []evalTree{name("st", "ps")}}}}
		case 3:
			return k(pick("u^", "u-", "u+"), r.evalGen('u', d))
		}
		return k(pick("+", "-", "*", "/", "%", "&", "|", "^", "&^"), r.evalGen('u', d), r.evalGen('u', d))
	case 's':
		return k("+", r.evalGen('s', d), evalTree{op: "str", name: pick("", "x", "tail")})
	case 'f':
		switch r.r.Intn(6) {
		case 0:
			return k(pick("u-", "u+"), r.evalGen('f', d))
		case 1:
			return k("?:", r.evalGen('b', d), r.evalGen('f', d), r.evalGen('f', d))
		case 2:
			return evalTree{op: "dot", name: "fl", kids: []evalTree{name("pk")}}
		}
		return k(pick("+", "-", "*", "/"), r.evalGen('f', d), r.evalGen('f', d))
	}
	switch r.r.Intn(14) {
	case 0:
		return k("?:", r.evalGen('b', d), r.evalGen('i', d), r.evalGen('i', d))
	case 1:
		return k("call", name("f"), r.evalGen('i', d))
	case 2:
		x, y, z := r.evalGen('i', d), r.evalGen('i', d), r.evalGen('i', d)
		switch r.r.Intn(4) {
		case 0:
			return k("call", name("g"), x, k(",", y, z))
		case 1:
			return k("call", name("g"), k(",", x, y), z)
		}
		return k("call", name("g"), x, y, z)
	case 3:
		return evalTree{op: "dot", name: pick("X", "Y", "X", "Y", "None"), kids: []evalTree{name("st", "ps")}}
	case 4:
		return k("index", name("sl"), evalTree{op: "int", n: uint64(r.r.Intn(4))})
	case 5:
		return k(pick("u-", "u^", "u+"), r.evalGen('i', d))
	case 6:
		return k("index", name("m"), r.evalGen('s', d))
	case 7:
		return k(",", r.evalGen('i', d), r.evalGen('i', d))
	case 8:
		return k("u*", name("px"))
	case 9:
		return evalTree{op: "dot", name: pick("n", "n", "n", "none"), kids: []evalTree{name("pk")}}
	case 10:
		return k("call", evalTree{op: "dot", name: "pf", kids: []evalTree{name("pk")}}, r.evalGen('i', d))
	case 11:
		return evalTree{op: "dot", name: "n", kids: []evalTree{{op: "dot", name: "in", kids: []evalTree{name("pk")}}}}
	}
	return k(pick("+", "-", "*", "/", "%", "&", "|", "^", "&^"), r.evalGen('i', d), r.evalGen('i', d))
}

func evalSame(a, b interface{}) bool {
	if v := reflect.ValueOf(a); v.Kind() == reflect.Func {
		w := reflect.ValueOf(b)
		return w.Kind() == reflect.Func && v.Pointer() == w.Pointer()
	}
	if _, ok := a.(Package); ok {
		_, ok = b.(Package)
		return ok
	}
	if x, ok := a.(float64); ok && x != x {
		y, ok := b.(float64)
		return ok && y != y
	}
	if x, ok := a.(float32); ok && x != x {
		y, ok := b.(float32)
		return ok && y != y
	}
	return reflect.DeepEqual(a, b)
}

type (
	evalRecMap  map[string]evalRecMap
	evalRecList []evalRecList
	evalRecFunc func(evalRecFunc) evalRecFunc
	evalRecPtr  *evalRecPtr
	evalRec     struct {
		R *evalRec
		M evalRecMap
		S evalRecList
		F evalRecFunc
		P evalRecPtr
	}
)

// evalFault is a value which is an error as well.
type evalFault struct{ N int }

func (e evalFault) Error() string { return "not failed" }

func TestVerifC19(t *testing.T) {
	r := newVerifRun(t, "random syntax trees over names, literals, calls, members, subscripts and all operators, against a reference evaluator, with the order of resolved names and calls")
	for r.more() {
		log := []string{}
		env := evalEnv{vars: evalVars(&log, r), log: &log}
		for i := 0; i < 50; i++ {
			r.cases++
			tree := r.evalGen("ibuf"[r.r.Intn(4)], 1+r.r.Intn(4))
			log = nil
			want, wfail := verifTry(func() interface{} { return tree.eval(env).RawValue() })
			wlog := log
			log = nil
			got, err := EvalProgram(env, &Program{root: tree.node()})
			if (err != nil) != wfail || err == nil && !evalSame(want, got) || !reflect.DeepEqual(wlog, log) {
				r.fail("%s = %v (%T), %v, resolving and calling %v; want %v (%T), error %v, %v",
					tree.node().source(), got, got, err, log, want, want, wfail, wlog)
			}
		}
		// values that are errors are values
		for _, v := range []interface{}{evalFault{r.r.Intn(5)}, &evalFault{1}, io.EOF} {
			r.cases++
			got, err := Eval(NewMapResolver(map[string]Value{"v": ValueOf(v)}), "v")
			if err != nil || got != v {
				r.fail("a variable holding the error %v yields %v, %v", v, got, err)
			}
		}
		// values of types without end
		rec := &evalRec{M: evalRecMap{}, S: evalRecList{nil}}
		recs := NewMapResolver(map[string]Value{"r": ValueOf(rec), "m": ValueOf(rec.M), "s": ValueOf(rec.S), "f": ValueOf(rec.F), "p": ValueOf(rec.P),
			"k": ValueOf(map[*evalRec]int{nil: 7, rec: 8}), "yes": ValueOf(true)})
		for text, want := range map[string]interface{}{"r == r": true, "r.R == nil": true, "m == nil": false, "s[0] == nil": true, "f == nil": true, "p == nil": true, "k[nil]": 7, "k[r]": 8, "k[r.R]": 7,
			"yes ? r.R == nil : m": true} {
			r.cases++
			if got, err := Eval(recs, text); err != nil || got != want {
				r.fail("%s = %v, %v, want %v", text, got, err, want)
			}
		}
		for _, a := range []string{"r", "m", "s", "f", "p", "k"} {
			for _, text := range []string{a + " + 1", a + " == 1", "1 == " + a, "-" + a, "!" + a, a + " && yes", "yes && " + a, a + " << 1", "1 << " + a, a + ".none", a + " ? 1 : 2", "s[" + a + "]", a + "[yes]", a + "(1)",
				"m == s", "r == p", "f == s", a + " == \"x\"", "\"x\" + " + a} {
				r.cases++
				if got, err := Eval(recs, text); err == nil {
					r.fail("%s = %v, want an error", text, got)
				}
			}
		}
		for _, text := range []string{"", "1 +", "zz", "zz.x", "f(1, 2)", "a ? 1 : 2", "a &&p", "a(1)", "st.none", "1 + p", "s - s", "sl[9]", "nil", "(1", "a = b", "\"abc"} {
			r.cases++
			if v, err := Eval(env, text); err == nil && text != "nil" {
				r.fail("%q = %v, want an error", text, v)
			}
		}
	}
	r.done()
}
