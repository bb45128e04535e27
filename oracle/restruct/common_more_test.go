package restruct_test

// More handwritten cases.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/go-restruct/restruct"
)

// lasts checks numbers at the very end of the data, whole and truncated.
func lasts(r *runner) {
	rnd := rand.New(rand.NewSource(seed() + 21))
	for _, k := range []reflect.Kind{reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Int16, reflect.Int32, reflect.Int64} {
		w := kindWidth(k)
		num := "uint"
		if k <= reflect.Int64 {
			num = "int"
		}
		for bits := 0; bits < w; bits++ {
			for _, off := range []int{0, 3, 8} {
				if !r.more() {
					return
				}
				a := &node{k: kNum, num: num, bin: k, native: kindTypes[k], bits: bits}
				if bits != 0 {
					a.tag = fmt.Sprintf("%s:%d", kindTypes[k], bits)
				}
				n := &node{k: kStruct}
				if off > 0 {
					p := &node{k: kNum, num: "uint", bin: reflect.Uint16, native: kindTypes[reflect.Uint16], bits: off, tag: fmt.Sprintf("uint16:%d", off)}
					n.fields = append(n.fields, newFld(p, 0))
				}
				n.fields = append(n.fields, newFld(a, len(n.fields)))
				n.finish()
				for _, o := range orders {
					v := reflect.New(n.native).Elem()
					(&gen{r: rnd}).value(n, v, nil, 0)
					ref := &bitBuf{}
					n.pack(ref, v, ctx{order: o}, nil)
					d := ref.bytes()
					for cut := 0; cut <= len(d); cut++ {
						r.cases++
						r.unpack(n, append([]byte(nil), d[:cut]...), o)
					}
				}
			}
		}
	}
}

// wides checks signed numbers whose width is an expression.
func wides(r *runner) {
	type T struct {
		N uint8
		A int16 `struct:"bits=N < 17 ? N : 16"`
		B int32 `struct:"bits=N < 33 ? N : 32"`
		C int64 `struct:"bits=N"`
		D int   `struct:"int64,bits=N"`
	}
	rnd := rand.New(rand.NewSource(seed() + 22))
	for n := 2; n <= 64 && r.more(); n++ {
		for k := 0; k < 8; k++ {
			for _, o := range orders {
				r.cases++
				cut := func(x uint64, w int) int64 {
					if w > n {
						w = n
					}
					return int64(x<<uint(64-w)) >> uint(64-w)
				}
				v := T{uint8(n), int16(cut(rnd.Uint64(), 16)), int32(cut(rnd.Uint64(), 32)), cut(rnd.Uint64(), 64), int(cut(rnd.Uint64(), 64))}
				d, err := restruct.Pack(o, &v)
				var u T
				if err == nil {
					err = restruct.Unpack(d, o, &u)
				}
				if err != nil || u != v {
					r.fail("Pack(%v) of %+v and Unpack yield %+v, %v", o, v, u, err)
					break
				}
			}
		}
	}
}

type sub struct {
	N uint8
	S []uint8 `struct:"size=N"`
}

// oddities checks packing and sizes of unusual values.
func oddities(r *runner) {
	want := func(what string, v interface{}, hex string) {
		r.cases++
		d, err := restruct.Pack(binary.BigEndian, v)
		if err != nil || fmt.Sprintf("%x", d) != hex {
			r.fail("Pack of %s yields %x, %v, not %s", what, d, err, hex)
		}
		if n, err := restruct.SizeOf(v); err != nil || n != len(hex)/2 {
			r.fail("SizeOf of %s is %d, %v, not %d", what, n, err, len(hex)/2)
		}
	}
	type cases struct {
		A uint8  `struct:"case=0"`
		B uint16 `struct:"default,little"`
	}
	type excl struct {
		K uint8
		S cases  `struct:"if=K > 3,skip=3,switch=K"`
		P *sub   `struct:"skip=2,if=K > 4"`
		V []sub  `struct:"skip=1,if=K > 5"`
		Q *uint8 `struct:"skip=1"`
		Z uint8
	}
	want("excluded fields with skips", &excl{K: 0, Z: 9}, "000009")
	want("a switch with a skip", &excl{K: 4, S: cases{B: 0x0102}, Z: 9}, "0400000002010009")
	want("a nil pointer with a skip", &excl{K: 5, S: cases{B: 0x0102}, Z: 9}, "0500000002010000"+"0009")
	want("an empty slice with a skip", &excl{K: 6, S: cases{B: 0x0102}, P: &sub{1, []uint8{7}}, Z: 9}, "06000000020100000107000009")
	want("a short slice of slices", &struct {
		A [][]uint8 `struct:"[3][]uint8"`
		B [][]uint8 `struct:"[2][]uint8"`
		Z uint8
	}{A: [][]uint8{{1, 2}}, Z: 9}, "010209")
	want("a nil slice for an array", &struct {
		A []uint8  `struct:"[2]uint8"`
		B []uint32 `struct:"[2]uint16"`
		Z uint8
	}{Z: 9}, "00000000000009")
	want("an empty slice for an array", &struct {
		A []uint8 `struct:"[2]uint8"`
		S string  `struct:"[3]uint8"`
		Z uint8
	}{A: []uint8{}, Z: 9}, "000000000009")
	nan := math.Float32frombits(0x7fc00123)
	nz := math.Copysign(0, -1)
	want("floats", &struct {
		A float32
		B float64
		C complex64
		D complex128
		E float64 `struct:"float32"`
	}{nan, math.Float64frombits(0x7ff8000000000123), complex(float32(nz), float32(nz)), complex(nz, nz), float64(nan)},
		"7fc001237ff80000000001238000000080000000800000000000000080000000000000007fc00123")
	want("nested pointers with skips", &struct {
		A **uint8 `struct:"skip=2"`
		Z uint8
	}{func() **uint8 { x := uint8(3); y := &x; return &y }(), 9}, "00000309")
	r.cases++
	w := struct {
		A string `struct:"[4]int8"`
	}{"ab"}
	if _, err := restruct.Pack(binary.BigEndian, &w); err == nil {
		r.fail("Pack accepts a string of int8")
	}
	if err := restruct.Unpack([]byte{1, 2, 3, 4}, binary.BigEndian, &w); err == nil {
		r.fail("Unpack accepts a string of int8: %q", w.A)
	}
}

// fresh checks that values which are there already are not written to by way
// of slices and pointers.
func fresh(r *runner) {
	type T struct {
		A *sub
		B *uint16
		C []uint16 `struct:"size=2"`
		D []uint32 `struct:"[2]uint16"`
		E []sub    `struct:"size=1"`
		F []uint8  `struct:"size=2"`
	}
	a, b, c, d, e, f := &sub{5, []uint8{6}}, new(uint16), make([]uint16, 2, 5), make([]uint32, 2), make([]sub, 1), make([]uint8, 2)
	v := T{a, b, c, d, e, f}
	r.cases++
	if err := restruct.Unpack([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 1, 13, 14, 15}, binary.BigEndian, &v); err != nil {
		r.fail("Unpack: %v", err)
		return
	}
	w := T{&sub{1, []uint8{2}}, func() *uint16 { x := uint16(0x0304); return &x }(), []uint16{0x0506, 0x0708}, []uint32{0x090a, 0x0b0c}, []sub{{1, []uint8{13}}}, []uint8{14, 15}}
	if !reflect.DeepEqual(v, w) {
		r.fail("Unpack yields %s, not %s", show(v), show(w))
	}
	if a.N != 5 || a.S[0] != 6 || *b != 0 || c[0] != 0 || d[0] != 0 || e[0].N != 0 || f[0] != 0 {
		r.fail("Unpack writes to the values that were there: %+v %v %v %v %v %v", a, *b, c, d, e, f)
	}
	// in= can replace anything
	type P struct{ A, B uint8 }
	x := struct {
		P P
		Q P        `struct:"in=P"`
		R [2]uint8 `struct:"in=R"`
		S []uint8  `struct:"size=1,in=S"`
		U *uint8   `struct:"in=U"`
		V []P      `struct:"size=1"`
		W []P      `struct:"size=1,in=V"`
	}{}
	r.cases++
	if err := restruct.Unpack([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, binary.BigEndian, &x); err != nil || x.Q != (P{1, 2}) || x.R != [2]uint8{5, 6} || x.S[0] != 7 || *x.U != 8 || x.V[0] != (P{9, 10}) || x.W[0] != (P{9, 10}) {
		r.fail("Unpack with in= yields %s, %v", show(x), err)
	}
}

// pairs checks the counts that belong to a sequence.
func pairs(r *runner) {
	type T struct {
		a  uint8
		N  uint8 `struct:"sizeof=S"`
		_  uint8
		I  uint8 `struct:"-"`
		M  int16 `struct:"sizeof=U,little"`
		b  uint8
		S  []uint8
		O  uint8
		U  string
		V  []uint16 `struct:"sizefrom=O"`
		W  []uint8  `struct:"size=2,sizefrom=N"`
		zz uint8
	}
	for k := 0; k < 4; k++ {
		r.cases++
		v := T{S: make([]uint8, k), U: "abcdefg"[:3-k], V: make([]uint16, 2*k), W: []uint8{1, 2}}
		// the later of two counts of the same sequence
		want := []byte{2, 0, byte(3 - k), 0}
		want = append(want, v.S...)
		want = append(want, byte(2*k))
		want = append(want, v.U...)
		want = append(want, make([]byte, 4*k)...)
		want = append(want, 1, 2)
		d, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(d) != string(want) {
			r.fail("Pack of %+v yields %x, %v, not %x", v, d, err, want)
		}
		want[0] = byte(k)
		var u T
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil || len(u.S) != k || u.U != v.U || len(u.V) != 2*k || len(u.W) != 2 {
			r.fail("Unpack of %x yields %+v, %v", want, u, err)
		}
	}
}

// chosen checks unusual values of cases.
func chosen(r *runner) {
	type cases struct {
		A uint8  `struct:"case=-1"`
		B uint16 `struct:"case=1,little"`
		C uint32 `struct:"case=4294967298"`
		E int16  `struct:"case=9-2"`
		F int32  `struct:"case=18446744073709551612"`
		D uint64 `struct:"default,little"`
	}
	for _, o := range orders {
		for _, k := range []uint64{0, 1, 2, math.MaxUint64, math.MaxUint32, 1<<32 + 1, 1<<32 + 2, 1<<63 + 1, 1 << 63, 7, 1<<32 + 7, 1<<63 + 7, math.MaxUint64 - 3} {
			for _, signed := range []bool{false, true} {
				r.cases++
				var key [8]byte
				o.PutUint64(key[:], k)
				var want cases
				data := []byte{1, 2, 3, 4, 5, 6, 7, 8}
				n := 8
				switch {
				case signed && k == math.MaxUint64:
					want.A, n = 1, 1
				case k == 1:
					want.B, n = 0x0201, 2
				case k == 1<<32+2:
					want.C, n = o.Uint32(data), 4
				case k == 7:
					want.E, n = int16(o.Uint16(data)), 2
				case !signed && k == math.MaxUint64-3:
					want.F, n = int32(o.Uint32(data)), 4
				default:
					want.D = binary.LittleEndian.Uint64(data)
				}
				var got cases
				var size int
				var err, perr, serr error
				var pack []byte
				d := append(key[:], data[:n]...)
				if signed {
					var v struct {
						K int64
						S cases `struct:"switch=K"`
					}
					v.S = cases{9, 9, 9, 9, 9, 9}
					err = restruct.Unpack(d, o, &v)
					got = v.S
					pack, perr = restruct.Pack(o, &v)
					size, serr = restruct.SizeOf(&v)
				} else {
					var v struct {
						K uint64
						S cases `struct:"switch=K"`
					}
					v.S = cases{9, 9, 9, 9, 9, 9}
					err = restruct.Unpack(d, o, &v)
					got = v.S
					pack, perr = restruct.Pack(o, &v)
					size, serr = restruct.SizeOf(&v)
				}
				if err != nil || perr != nil || serr != nil || got != want || string(pack) != string(d) || size != len(d) {
					r.fail("a switch on %#x (signed: %v) unpacks %x to %+v, packs to %x, size %d, errors %v %v %v", k, signed, d, got, pack, size, err, perr, serr)
				}
			}
		}
	}
	// the first of several cases that match, even if there is nothing in it
	type none struct {
		A struct{} `struct:"case=1"`
		B *uint8   `struct:"case=2"`
		C uint16   `struct:"case=1"`
		D uint32   `struct:"case=2"`
		E uint64   `struct:"default"`
	}
	for k, n := range []int{9, 1, 1} {
		r.cases++
		v := struct {
			K uint8
			S none `struct:"switch=K"`
		}{K: uint8(k)}
		d, err := restruct.Pack(binary.BigEndian, &v)
		s, serr := restruct.SizeOf(&v)
		if err != nil || serr != nil || len(d) != n || s != n {
			r.fail("a switch on %d with an empty case packs to %x, size %d, errors %v %v", k, d, s, err, serr)
		}
	}
}
