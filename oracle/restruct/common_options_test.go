package restruct_test

// Handwritten cases of options that the generator does not produce.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/go-restruct/restruct"
)

// outs checks out=, in= and the sizes of what they replace.
func outs(r *runner) {
	rnd := rand.New(rand.NewSource(seed() + 11))
	type T struct {
		A uint8
		B uint16  `struct:"out=B + 1,in=B - 1"`
		C int32   `struct:"little,out=C * 3"`
		D int64   `struct-in:"D - 7" struct-out:"D + 7"`
		E bool    `struct:"out=!E,in=!E"`
		F float64 `struct:"out=F + F"`
		G uint8   `struct:"in=A"`
		H string  `struct:"[3]byte,out=\"xy\""`
		I uint16  `struct:"uint16:12,out=I"`
		J uint8   `struct:"uint8:4,out=A"`
		K []uint8 `struct:"size=2,in=K"`
		L uint64  `struct:"if=A > 9,out=L + 1,in=L - 1"`
		M uint32
	}
	for k := 0; k < 300 && r.more(); k++ {
		r.cases++
		v := T{A: uint8(rnd.Intn(20)), B: uint16(rnd.Intn(65536)), C: int32(rnd.Uint32()), D: int64(rnd.Uint64()), E: rnd.Intn(2) == 0,
			F: rnd.NormFloat64(), G: uint8(rnd.Intn(256)), H: "abc"[:rnd.Intn(4)], I: uint16(rnd.Intn(4096)), K: []uint8{1, uint8(k)}, L: rnd.Uint64(), M: rnd.Uint32()}
		w := v
		w.K = append([]uint8{}, v.K...)
		var want []byte
		put := func(n int, x uint64) {
			for i := n - 1; i >= 0; i-- {
				want = append(want, byte(x>>uint(8*i)))
			}
		}
		put(1, uint64(v.A))
		put(2, uint64(v.B+1))
		c := uint32(v.C * 3)
		put(4, uint64(c<<24|c>>24|c<<8&0xff0000|c>>8&0xff00))
		put(8, uint64(v.D+7))
		e := uint64(1)
		if v.E {
			e = 0
		}
		put(1, e)
		put(8, math.Float64bits(v.F+v.F))
		put(1, uint64(v.G))
		want = append(want, 'x', 'y', 0)
		put(2, uint64(v.I)<<4|uint64(v.A&15))
		want = append(want, v.K...)
		if v.A > 9 {
			put(8, v.L+1)
		}
		put(4, uint64(v.M))
		got, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of %+v with out= yields %x, %v, not %x", w, got, err, want)
			continue
		}
		if !reflect.DeepEqual(v, w) {
			r.fail("Pack with out= changed %+v to %+v", w, v)
			continue
		}
		if n, err := restruct.SizeOf(&v); err != nil || n != len(want) {
			r.fail("SizeOf of %+v with out= is %d, %v, not %d", v, n, err, len(want))
		}
		var u T
		u.L = 99
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil {
			r.fail("Unpack of %x with in=: %v", want, err)
			continue
		}
		w.C, w.F, w.G, w.H, w.J = v.C*3, v.F+v.F, v.A, "xy", v.A&15
		if v.A <= 9 {
			w.L = 99
		}
		if !reflect.DeepEqual(u, w) {
			r.fail("Unpack of %x with in= yields %+v, not %+v", want, u, w)
		}
	}
}

// bitsof checks bits= with expressions, literal and computed.
func bitsof(r *runner) {
	type T struct {
		N uint8
		A uint16     `struct:"bits=N"`
		B uint32     `struct:"bits=N + 1"`
		C uint8      `struct:"bits=3"`
		D uint8      `struct-bits:"5"`
		E complex64  `struct:"bits=N"`
		F complex128 `struct:"bits=N + 40"`
		G float32    `struct:"bits=N"`
	}
	const pi = 3.14159265358979
	low32 := func(x float32, n int) float32 { return math.Float32frombits(math.Float32bits(x) & (1<<uint(n) - 1)) }
	low64 := func(x float64, n int) float64 { return math.Float64frombits(math.Float64bits(x) & (1<<uint(n) - 1)) }
	for n := 1; n <= 15 && r.more(); n++ {
		for _, o := range orders {
			r.cases++
			v := T{uint8(n), 0xABCD, 0x12345678, 5, 19, complex(pi, -pi/2), complex(pi, -pi/2), pi}
			ref := &bitBuf{}
			little := o == binary.LittleEndian
			ref.put(little, 8, uint64(n))
			ref.put(little, n, 0xABCD)
			ref.put(little, n+1, 0x12345678)
			ref.put(little, 3, 5)
			ref.put(little, 5, 19)
			ref.put(little, n, uint64(math.Float32bits(pi)))
			ref.put(little, n, uint64(math.Float32bits(-pi/2)))
			ref.put(little, n+40, math.Float64bits(float64(real(v.F))))
			ref.put(little, n+40, math.Float64bits(float64(imag(v.F))))
			ref.put(little, n, uint64(math.Float32bits(pi)))
			want := ref.bytes()
			got, err := restruct.Pack(o, &v)
			if err != nil || string(got) != string(want) {
				r.fail("Pack(%v) of %+v with bits= yields %x, %v, not %x", o, v, got, err, want)
				continue
			}
			if s, err := restruct.BitSize(&v); err != nil || s != len(ref.bits) {
				r.fail("BitSize of %+v with bits= is %d, %v, not %d", v, s, err, len(ref.bits))
			}
			var u T
			x := T{uint8(n), 0xABCD & (1<<uint(n) - 1), 0x12345678 & (1<<uint(n+1) - 1), 5, 19,
				complex(low32(pi, n), low32(-pi/2, n)), complex(low64(pi, n+40), low64(-pi/2, n+40)), low32(pi, n)}
			if err := restruct.Unpack(want, o, &u); err != nil || u != x {
				r.fail("Unpack(%v) of %x with bits= yields %+v, %v, not %+v", o, want, u, err, x)
			}
		}
	}
}

// whiles checks sequences that end with a condition.
func whiles(r *runner) {
	type E struct {
		A uint8
		B uint8 `struct:"if=A > 1"`
	}
	type T struct {
		N uint16
		S []E `struct:"while=!_eof"`
	}
	type U struct {
		N uint8
		S []uint16 `struct:"while=N > 0 && !_eof"`
	}
	rnd := rand.New(rand.NewSource(seed() + 12))
	for k := 0; k < 300 && r.more(); k++ {
		r.cases++
		v := T{N: uint16(rnd.Intn(65536))}
		want := []byte{byte(v.N >> 8), byte(v.N)}
		for i := rnd.Intn(5); i > 0; i-- {
			e := E{A: uint8(rnd.Intn(4))}
			want = append(want, e.A)
			if e.A > 1 {
				e.B = uint8(rnd.Intn(256))
				want = append(want, e.B)
			}
			v.S = append(v.S, e)
		}
		got, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of %+v yields %x, %v, not %x", v, got, err, want)
			continue
		}
		var u T
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil || u.N != v.N || len(u.S) != len(v.S) || len(u.S) > 0 && !reflect.DeepEqual(u, v) {
			r.fail("Unpack of %x yields %+v, %v, not %+v", want, u, err, v)
		}
		var x U
		d := []byte{byte(rnd.Intn(2)), 1, 2, 3, 4, 5, 6, 7}[:1+2*rnd.Intn(4)]
		if err := restruct.Unpack(d, binary.BigEndian, &x); err != nil || len(x.S) != int(d[0])*(len(d)-1)/2 {
			r.fail("Unpack of %x with a condition yields %+v, %v", d, x, err)
		}
	}
}

// counts checks counts that the data cannot hold, or that no length can have.
func counts(r *runner) {
	data := []byte{'a', 'b', 'c', 'd'}
	try := func(what string, v interface{}, o binary.ByteOrder, count []byte, n int) {
		r.cases++
		var err error
		d := append(append([]byte{}, count...), data...)
		if p := safe(func() { err = restruct.Unpack(d, o, v) }); p != nil {
			r.fail("Unpack of %x to %s panics: %v", d, what, p)
			return
		}
		if (err == nil) != (n >= 0) {
			r.fail("Unpack of %x to %s: error %v, and %+v", d, what, err, v)
			return
		}
		if n >= 0 {
			if l := reflect.ValueOf(v).Elem().Field(1).Len(); l != n {
				r.fail("Unpack of %x to %s yields %d elements, not %d", d, what, l, n)
			}
		}
	}
	enc := func(o binary.ByteOrder, w int, x uint64) []byte {
		b := &bitBuf{}
		b.put(o == binary.LittleEndian, w, x)
		return b.bytes()
	}
	for _, o := range orders {
		for _, k := range []uint{8, 16, 31, 32, 33, 47, 63} {
			for c := uint64(0); c < 5; c++ {
				for _, x := range []uint64{c, c | 1<<k, c | 1<<k | 1<<63, -c} {
					n := func(w int, signed bool) int {
						y := x
						if w < 64 {
							y &= 1<<uint(w) - 1
						}
						if y > 4 {
							return -1
						}
						return int(y)
					}
					try("uint64 and string", &struct {
						N uint64 `struct:"sizeof=S"`
						S string
					}{}, o, enc(o, 64, x), n(64, false))
					try("int64 and string", &struct {
						N int64
						S string `struct:"sizefrom=N"`
					}{}, o, enc(o, 64, x), n(64, true))
					try("uint32 and string", &struct {
						N uint32 `struct:"sizeof=S"`
						S string
					}{}, o, enc(o, 32, x), n(32, false))
					try("int32 and string", &struct {
						N int32 `struct:"sizeof=S"`
						S string
					}{}, o, enc(o, 32, x), n(32, true))
					try("uint16 and slice", &struct {
						N uint16
						S []uint8 `struct:"sizefrom=N"`
					}{}, o, enc(o, 16, x), n(16, false))
					try("int16 and slice", &struct {
						N int16 `struct:"sizeof=S"`
						S []int8
					}{}, o, enc(o, 16, x), n(16, true))
					try("uint64 size= and string", &struct {
						N uint64
						S string `struct:"size=N"`
					}{}, o, enc(o, 64, x), n(64, false))
					try("int8 and slice", &struct {
						N int8 `struct:"sizeof=S"`
						S []bool
					}{}, o, enc(o, 8, x), n(8, true))
				}
			}
		}
	}
	// lengths beyond the range of the counting field are cut to its width
	for _, l := range []int{0, 1, 127, 128, 255, 256, 257, 300} {
		r.cases++
		v := struct {
			N uint8 `struct:"sizeof=S"`
			S string
			M int16 `struct:"little,sizeof=T"`
			T []uint8
		}{S: string(make([]byte, l)), T: make([]byte, l)}
		d, err := restruct.Pack(binary.BigEndian, &v)
		if l > 255 {
			if err == nil && len(d) != 2*l+3 {
				r.fail("Pack of %d elements yields %d bytes", l, len(d))
			}
			continue
		}
		if err != nil || len(d) != 2*l+3 || d[0] != byte(l) || d[1+l] != byte(l) || d[2+l] != byte(l>>8) || int(v.N) != l || int(v.M) != l {
			r.fail("Pack of %d elements yields %x, %v, counts %d and %d", l, d, err, v.N, v.M)
		}
	}
}

// nothing is a codec without bytes, that still has to be called.
type nothing struct {
	Calls []string
	Order string
	Own   [3]uint16
}

func (n *nothing) SizeOf() int { return 0 }

func (n *nothing) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	n.Calls = append(n.Calls, fmt.Sprint("pack ", len(buf)))
	n.Order = fmt.Sprint(order)
	return buf, nil
}

func (n *nothing) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	n.Calls = append(n.Calls, fmt.Sprint("unpack ", len(buf)))
	n.Order = fmt.Sprint(order)
	return buf, nil
}

// plain is no codec itself; its address is none either.
type sized struct{ A, B uint16 }

func (s sized) SizeOf() int { return 4 }

// num is a codec of a basic kind, with a value receiver for packing.
type num uint32

func (n num) SizeOf() int { return 2 }

func (n num) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	order.PutUint16(buf, uint16(n)+1)
	return buf[2:], nil
}

func (n *num) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, errShort
	}
	*n = num(order.Uint16(buf) - 1)
	return buf[2:], nil
}

func nothings(r *runner) {
	type T struct {
		A nothing
		N uint8 `struct:"sizeof=S"`
		S []nothing
		B nothing `struct:"little,if=N > 0"`
		W sized
		Q num    `struct:"little"`
		R []num  `struct:"size=N"`
		Z uint16 `struct:"big"`
	}
	for _, o := range orders {
		for n := 0; n < 4; n++ {
			r.cases++
			v := T{N: uint8(n), S: make([]nothing, n), Z: 0x0102, W: sized{0x0304, 0x0506}, Q: 0x0707, R: make([]num, n)}
			want := []byte{byte(n), 3, 4, 5, 6, 8, 7}
			if o == binary.LittleEndian {
				want = []byte{byte(n), 4, 3, 6, 5, 8, 7}
			}
			for i := range v.R {
				v.R[i] = num(0x1110 + i)
				if o == binary.LittleEndian {
					want = append(want, byte(0x11+i), 0x11)
				} else {
					want = append(want, 0x11, byte(0x11+i))
				}
			}
			want = append(want, 1, 2)
			check := func(what string, v *T) {
				l := fmt.Sprint(what, " ", len(want)-1)
				if fmt.Sprint(v.A.Calls) != fmt.Sprintf("[%s %d]", what, len(want)) || v.A.Order != fmt.Sprint(o) {
					r.fail("%s with %d elements called an empty codec as %v", what, n, v.A)
				}
				for i := range v.S {
					if fmt.Sprint(v.S[i].Calls) != fmt.Sprintf("[%s]", l) || v.S[i].Order != fmt.Sprint(o) {
						r.fail("%s with %d elements called an empty codec in a slice as %v", what, n, v.S[i])
					}
				}
				if n > 0 && (fmt.Sprint(v.B.Calls) != fmt.Sprintf("[%s]", l) || v.B.Order != "LittleEndian") || n == 0 && v.B.Calls != nil {
					r.fail("%s with %d elements called an empty codec as %v", what, n, v.B)
				}
			}
			if s, err := restruct.SizeOf(&v); err != nil || s != len(want) {
				r.fail("SizeOf of %+v is %d, %v, not %d", v, s, err, len(want))
			}
			got, err := restruct.Pack(o, &v)
			if err != nil || string(got) != string(want) {
				r.fail("Pack(%v) of %+v yields %x, %v, not %x", o, v, got, err, want)
				continue
			}
			check("pack", &v)
			u := T{}
			if err := restruct.Unpack(want, o, &u); err != nil || u.W != v.W || u.Q != v.Q || u.Z != v.Z || fmt.Sprint(u.R) != fmt.Sprint(v.R) || len(u.S) != n {
				r.fail("Unpack(%v) of %x yields %+v, %v, not %+v", o, want, u, err, v)
				continue
			}
			check("unpack", &u)
		}
	}
}

// casts checks sequences whose elements have another binary type, and nil
// elements.
func casts(r *runner) {
	type T struct {
		A []byte   `struct:"[]uint16,size=2"`
		B []uint32 `struct:"[]byte,size=3"`
		C []int64  `struct:"[2]int8"`
		D []byte   `struct:"[3]uint32"`
		E []int8   `struct:"[2]int16"`
		N uint8    `struct:"sizeof=P"`
		P []*uint16
		Q []*uint8 `struct:"size=2"`
		Z uint8
	}
	rnd := rand.New(rand.NewSource(seed() + 13))
	for k := 0; k < 200 && r.more(); k++ {
		r.cases++
		b := func() byte { return byte(rnd.Intn(256)) }
		v := T{A: []byte{b(), b()}, B: []uint32{uint32(b()), uint32(b()), uint32(b())}, C: []int64{int64(int8(b())), int64(int8(b()))}, D: []byte{b(), b(), b()},
			E: []int8{int8(b()), int8(b())}, Z: b()}
		want := []byte{0, v.A[0], 0, v.A[1], byte(v.B[0]), byte(v.B[1]), byte(v.B[2]), byte(v.C[0]), byte(v.C[1]), 0, 0, 0, v.D[0], 0, 0, 0, v.D[1], 0, 0, 0, v.D[2],
			byte(v.E[0] >> 7), byte(v.E[0]), byte(v.E[1] >> 7), byte(v.E[1])}
		n := rnd.Intn(4)
		v.N = byte(n)
		want = append(want, v.N)
		for i := 0; i < n; i++ {
			x := uint16(b())<<8 | uint16(b())
			v.P = append(v.P, &x)
			want = append(want, byte(x>>8), byte(x))
		}
		for i := 0; i < 2; i++ {
			x := b()
			v.Q = append(v.Q, &x)
			want = append(want, x)
		}
		want = append(want, v.Z)
		if s, err := restruct.SizeOf(&v); err != nil || s != len(want) {
			r.fail("SizeOf of %+v is %d, %v, not %d", v, s, err, len(want))
		}
		got, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of %+v yields %x, %v, not %x", v, got, err, want)
			continue
		}
		u := T{A: []byte{9}, P: []*uint16{nil}, C: make([]int64, 7)}
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil || !(n == 0 && len(u.P) == 0 || reflect.DeepEqual(u.P, v.P)) {
			r.fail("Unpack of %x yields %+v, %v, not %+v", want, u, err, v)
			continue
		}
		u.P, v.P = nil, nil
		if !reflect.DeepEqual(u, v) {
			r.fail("Unpack of %x yields %+v, not %+v", want, u, v)
		}
		// pointers that are there already may be the same
		type S struct {
			A, B *uint16
			C    [2]*uint8
		}
		x, y := uint16(7), uint8(7)
		sh := S{&x, &x, [2]*uint8{&y, &y}}
		d := []byte{b(), b(), b(), b(), b(), b()}
		if err := restruct.Unpack(d, binary.BigEndian, &sh); err != nil || *sh.A != uint16(d[0])<<8|uint16(d[1]) || *sh.B != uint16(d[2])<<8|uint16(d[3]) || *sh.C[0] != d[4] || *sh.C[1] != d[5] {
			r.fail("Unpack of %x into equal pointers yields %v, %v, %v", d, *sh.A, *sh.B, err)
		}
		// nil elements take no space
		var p []*uint16
		size := 0
		for i := rnd.Intn(4); i >= 0; i-- {
			p = append(p, nil)
			if rnd.Intn(2) == 0 {
				p[len(p)-1] = new(uint16)
				size += 2
			}
		}
		type N struct {
			A []*uint16
			B [1]*uint16
			Z uint8
		}
		w := N{A: p, B: [1]*uint16{p[0]}}
		if p[0] != nil {
			size += 2
		}
		if s, err := restruct.SizeOf(&w); err != nil || s != size+1 {
			r.fail("SizeOf of pointers %v is %d, %v, not %d", p, s, err, size+1)
		}
		if got, err := restruct.Pack(binary.BigEndian, &w); err != nil || len(got) != size+1 {
			r.fail("Pack of pointers %v yields %x, %v", p, got, err)
		}
	}
}
