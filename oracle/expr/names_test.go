package expr

// Bounded stand-in for the resolvers: random stacks of resolvers.

import (
	"fmt"
	"reflect"
	"testing"
)

func TestVerifC22(t *testing.T) {
	r := newVerifRun(t, "random lists of map, struct and nested resolvers of values and types, names with and without an answer")
	names := []string{"A", "B", "C", "D", "E", "", "a", "missing", "_"}
	// members of structs, their embedded structs, and of what points at them
	for i := 0; i < 10; i++ {
		type Deep struct{ D, E int }
		type Inner struct {
			Deep
			C uint8
			D string
		}
		type Outer struct {
			Inner
			A int8
			P *Inner
		}
		v := Outer{Inner{Deep{i, i + 1}, uint8(i + 2), fmt.Sprint("d", i)}, int8(i + 3), &Inner{Deep{i + 4, i + 5}, uint8(i + 6), "p"}}
		p := &v
		pp := &p
		res := NewMapResolver(map[string]Value{"v": ValueOf(v), "p": ValueOf(p), "pp": ValueOf(pp), "ppp": ValueOf(&pp)})
		for _, x := range []string{"v", "p", "pp", "ppp"} {
			for m, w := range map[string]interface{}{"A": v.A, "C": v.C, "D": v.Inner.D, "E": v.E, "Inner.Deep.D": i, "P.C": v.P.C, "P.D": v.P.D, "P.E": v.P.E, "P.F": nil, "F": nil, "A.A": nil, "Deep.X": nil} {
				r.cases++
				got, err := Eval(res, x+"."+m)
				if (err != nil) != (w == nil) || err == nil && got != w {
					r.fail("%s.%s of %+v is %v (%T), %v, not %v (%T)", x, m, v, got, got, err, w, w)
				}
			}
		}
	}
	// packages in packages, functions in packages
	in := NewPackage(map[string]Value{"x": ValueOf(int8(5)), "f": ValueOf(func(a int16, b string) string { return fmt.Sprint(a, b) })})
	mid := NewPackage(map[string]Value{"in": ValueOf(in), "x": ValueOf("mid"), "y": ValueOf(uint8(7))})
	pres := NewMapResolver(map[string]Value{"mid": ValueOf(mid), "x": ValueOf(1.5)})
	for text, w := range map[string]interface{}{"mid.in.x": int8(5), "mid.x": "mid", "x": 1.5, "mid.in.f(-3, mid.x)": "-3mid", "mid.y": uint8(7), "mid.in.y": nil, "mid.z": nil, "mid.mid": nil, "in.x": nil, "y": nil} {
		r.cases++
		got, err := Eval(pres, text)
		if (err != nil) != (w == nil) || err == nil && got != w {
			r.fail("%s is %v (%T), %v, not %v (%T)", text, got, got, err, w, w)
		}
	}
	// resolvers answer from what they hold when they are asked
	m, tm := map[string]Value{}, map[string]Type{}
	meta, inner, tmeta, tinner := NewMetaResolver(), NewMetaResolver(), NewMetaTypeResolver(), NewMetaTypeResolver()
	meta.AddResolver(inner)
	tmeta.AddResolver(tinner)
	inner.AddResolver(NewMapResolver(m))
	tinner.AddResolver(NewMapTypeResolver(tm))
	for i := 0; i < 10; i++ {
		r.cases++
		name := fmt.Sprint("n", i)
		if meta.Resolve(name) != nil || tmeta.TypeResolve(name) != nil {
			r.fail("%q has a value before it is given one", name)
		}
		m[name], tm[name] = ValueOf(i), TypeOf(i)
		if v, t := meta.Resolve(name), tmeta.TypeResolve(name); v == nil || v.RawValue() != interface{}(i) || t == nil || t.Kind() != Int {
			r.fail("%q is %v (%v) after it was made %d", name, v, t, i)
		}
	}
	for r.more() {
		for i := 0; i < 100; i++ {
			meta, tmeta := NewMetaResolver(), NewMetaTypeResolver()
			var want []map[string]interface{}
			for n := r.r.Intn(8); n > 0; n-- {
				m := map[string]interface{}{}
				for k := r.r.Intn(4); k > 0; k-- {
					m[names[r.r.Intn(5)]] = r.r.Intn(1000)
				}
				var res Resolver
				var tres TypeResolver
				if r.r.Intn(2) == 0 {
					delete(m, "")
					fs := []reflect.StructField{}
					for _, k := range names[:5] {
						if _, ok := m[k]; ok {
							if r.r.Intn(2) == 0 {
								m[k] = fmt.Sprint(m[k])
							}
							fs = append(fs, reflect.StructField{Name: k, Type: reflect.TypeOf(m[k])})
						}
					}
					s := reflect.New(reflect.StructOf(fs)).Elem()
					for _, f := range fs {
						s.FieldByName(f.Name).Set(reflect.ValueOf(m[f.Name]))
					}
					res, tres = NewStructResolver(s), NewStructTypeResolver(s.Interface())
				} else {
					vm, tm := map[string]Value{}, map[string]Type{}
					for k, v := range m {
						vm[k], tm[k] = ValueOf(v), TypeOf(v)
					}
					res, tres = NewMapResolver(vm), NewMapTypeResolver(tm)
				}
				if r.r.Intn(4) == 0 {
					tres = NewTypeResolverAdapter(res)
				}
				if r.r.Intn(4) == 0 {
					inner, tinner := NewMetaResolver(), NewMetaTypeResolver()
					inner.AddResolver(res)
					tinner.AddResolver(tres)
					res, tres = inner, tinner
				}
				meta.AddResolver(res)
				tmeta.AddResolver(tres)
				want = append(want, m)
			}
			for _, name := range names {
				r.cases++
				var w interface{}
				for _, m := range want {
					if v, ok := m[name]; ok {
						w = v
						break
					}
				}
				v, typ := meta.Resolve(name), tmeta.TypeResolve(name)
				if w == nil {
					if v != nil || typ != nil {
						r.fail("%q is %v (%v) in %v", name, v, typ, want)
					}
					continue
				}
				if v == nil || !reflect.DeepEqual(v.RawValue(), w) {
					r.fail("%q is %v in %v", name, v, want)
				}
				if typ == nil || !TypeEqual(typ, TypeOf(w)) {
					r.fail("the type of %q is %v in %v", name, typ, want)
				}
			}
			// Values of every kind, with their own types.
			for what, v := range map[string]Value{
				"int": literalintval(int64(i)), "uint": literaluintval(uint64(i)), "float": literalfloatval(0.5), "string": literalstrval("s"), "bool": literalboolval(i%2 == 0),
				"nil": literalnilval(), "func": ValueOf(func(int) string { return "" }), "package": ValueOf(NewPackage(nil)), "pointer": ValueOf(&names), "nil pointer": ValueOf((*int)(nil)),
				"slice": ValueOf(names), "nil slice": ValueOf([]int(nil)), "map": ValueOf(map[string]int{}), "array": ValueOf([2]bool{}), "number": ValueOf(uint16(i)),
			} {
				r.cases++
				mr := NewMapResolver(map[string]Value{"v": v})
				if got := mr.Resolve("v"); got != v {
					r.fail("the %s in a map resolves to %v", what, got)
				}
				for _, t := range []Type{NewMapTypeResolver(map[string]Type{"v": v.Type()}).TypeResolve("v"), NewTypeResolverAdapter(mr).TypeResolve("v"), NewPackage(map[string]Value{"v": v}).Type().(*PackageType).Symbol("v")} {
					if t == nil || t != v.Type() && !TypeEqual(t, v.Type()) {
						r.fail("the type of the %s is %v, not %v", what, t, v.Type())
					}
				}
			}
			// Symbols of packages, and their types.
			m := map[string]Value{}
			for k := r.r.Intn(4); k > 0; k-- {
				if r.r.Intn(2) == 0 {
					m[names[r.r.Intn(6)]] = ValueOf(r.r.Intn(1000))
				} else {
					m[names[r.r.Intn(6)]] = ValueOf("x")
				}
			}
			pkg := NewPackage(m)
			pt := pkg.Type().(*PackageType)
			if TypeOf(pkg).Kind() != Pkg {
				r.fail("the type of a package is %v", TypeOf(pkg))
			}
			for _, name := range names {
				r.cases++
				w, ok := m[name]
				g := pkg.Symbol(name)
				if !ok && (g != nil || pt.Symbol(name) != nil) || ok && (g == nil || g.RawValue() != w.RawValue() || pt.Symbol(name) == nil || !TypeEqual(pt.Symbol(name), w.Type())) {
					r.fail("symbol %q is %v of type %v, want %v", name, g, pt.Symbol(name), w)
				}
			}
		}
	}
	r.done()
}
