package restruct

// Bounded stand-in for the names in the expressions of struct tags.

import (
	"math/bits"
	"reflect"
	"testing"

	"github.com/go-restruct/restruct/expr"
)

var nameFuncs = map[string]interface{}{
	"LeadingZeros": bits.LeadingZeros, "LeadingZeros8": bits.LeadingZeros8, "LeadingZeros16": bits.LeadingZeros16,
	"LeadingZeros32": bits.LeadingZeros32, "LeadingZeros64": bits.LeadingZeros64,
	"Len": bits.Len, "Len8": bits.Len8, "Len16": bits.Len16, "Len32": bits.Len32, "Len64": bits.Len64,
	"OnesCount": bits.OnesCount, "OnesCount8": bits.OnesCount8, "OnesCount16": bits.OnesCount16,
	"OnesCount32": bits.OnesCount32, "OnesCount64": bits.OnesCount64,
	"Reverse": bits.Reverse, "Reverse8": bits.Reverse8, "Reverse16": bits.Reverse16, "Reverse32": bits.Reverse32, "Reverse64": bits.Reverse64,
	"ReverseBytes": bits.ReverseBytes, "ReverseBytes16": bits.ReverseBytes16, "ReverseBytes32": bits.ReverseBytes32, "ReverseBytes64": bits.ReverseBytes64,
	"RotateLeft": bits.RotateLeft, "RotateLeft8": bits.RotateLeft8, "RotateLeft16": bits.RotateLeft16,
	"RotateLeft32": bits.RotateLeft32, "RotateLeft64": bits.RotateLeft64,
	"TrailingZeros": bits.TrailingZeros, "TrailingZeros8": bits.TrailingZeros8, "TrailingZeros16": bits.TrailingZeros16,
	"TrailingZeros32": bits.TrailingZeros32, "TrailingZeros64": bits.TrailingZeros64,
}

type nameOuter struct {
	A, B, C int
	Only    int
	bits    int
}
type nameMid struct {
	A    string
	B    uint8
	More []int
}
type nameInner struct {
	A int16
	E struct{ X int }
}
type nameEmbed struct {
	nameMid
	Plain int
}

func TestVerifC22(t *testing.T) {
	EnableExprBeta()
	r := newTagRun(t, "every built-in function on generated arguments, names of fields of stacked structs, the end-of-data marker")
	for r.more() {
		s := &structstack{allowexpr: true}
		for name, f := range nameFuncs {
			r.cases++
			fv := reflect.ValueOf(f)
			in := []reflect.Value{}
			vars := map[string]expr.Value{}
			text := "bits." + name + "("
			for i := 0; i < fv.Type().NumIn(); i++ {
				n := r.r.Uint64() >> uint(r.r.Intn(65))
				if fv.Type().In(i).Kind() == reflect.Int {
					n = uint64(r.r.Intn(70))
				}
				a := reflect.ValueOf(n).Convert(fv.Type().In(i))
				in = append(in, a)
				id := string(rune('a' + i))
				vars[id] = expr.ValueOf(a.Interface())
				if i > 0 {
					text += ", "
				}
				text += id
			}
			text += ")"
			meta := expr.NewMetaResolver()
			meta.AddResolver(s)
			meta.AddResolver(expr.NewMapResolver(vars))
			want := fv.Call(in)[0].Interface()
			got, err := expr.Eval(meta, text)
			if err != nil || got != want {
				r.fail("%s of %v = %v (%T), %v, want %v (%T)", text, in, got, got, err, want, want)
			}
		}
		outer := nameOuter{A: r.r.Int(), B: r.r.Int(), C: r.r.Int(), Only: r.r.Int()}
		mid := nameMid{A: "mid", B: uint8(r.r.Int()), More: []int{1, 2}}
		inner := nameInner{A: int16(r.r.Int())}
		emb := nameEmbed{nameMid: mid, Plain: r.r.Int()}
		all := []interface{}{outer, mid, inner, emb}
		stack := []interface{}{}
		for n := r.r.Intn(5); n > 0; n-- {
			stack = append(stack, all[r.r.Intn(len(all))])
		}
		s = &structstack{allowexpr: true, buf: make([]byte, r.r.Intn(3))}
		for _, x := range stack {
			v := reflect.New(reflect.TypeOf(x)).Elem()
			v.Set(reflect.ValueOf(x))
			s.push(v)
		}
		for _, name := range []string{"A", "B", "C", "Only", "More", "E", "Plain", "X", "", "none", "_", "_EOF"} {
			r.cases++
			var want interface{}
			if len(stack) > 0 {
				if f := reflect.ValueOf(stack[len(stack)-1]).FieldByName(name); f.IsValid() {
					want = f.Interface()
				}
			}
			got := s.Resolve(name)
			if want == nil && got != nil || want != nil && (got == nil || !reflect.DeepEqual(got.RawValue(), want)) {
				r.fail("%q is %v within %+v, want %v", name, got, stack, want)
			}
		}
		r.cases += 2
		if v := s.Resolve("_eof"); v == nil || v.RawValue() != (len(s.buf) == 0) {
			r.fail("_eof is %v with %d bytes left", v, len(s.buf))
		}
		if v := s.Resolve("bits"); v == nil || v.Type().Kind() != expr.Pkg {
			r.fail("bits is %v within %+v", v, stack)
		}
	}
	r.done()
}
