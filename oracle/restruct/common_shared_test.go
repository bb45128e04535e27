package restruct_test

// Handwritten cases of what calls share: buffers, data, elements and stale
// values.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"reflect"

	"github.com/go-restruct/restruct"
)

// large checks large values, one after another and apart from each other.
func large(r *runner) {
	type E struct {
		A uint8  `struct:"uint8:3"`
		B uint16 `struct:"uint16:10"`
		C uint8  `struct:"uint8:3"`
		D uint32 `struct:"uint32:24,little"`
	}
	rnd := rand.New(rand.NewSource(seed() + 21))
	type L struct {
		N uint32 `struct:"sizeof=S"`
		S []E
	}
	var was, keep []byte
	for _, n := range []int{2000, 1500, 13200, 900, 1400, 0, 15000, 13000} {
		if !r.more() {
			return
		}
		r.cases++
		var v L
		b := &bitBuf{}
		b.put(false, 32, uint64(n))
		for i := 0; i < n; i++ {
			e := E{uint8(rnd.Intn(8)), uint16(rnd.Intn(1024)), uint8(rnd.Intn(8)), uint32(rnd.Intn(1 << 24))}
			v.S = append(v.S, e)
			b.put(false, 3, uint64(e.A))
			b.put(false, 10, uint64(e.B))
			b.put(false, 3, uint64(e.C))
			b.put(true, 24, uint64(e.D))
		}
		want := b.bytes()
		got, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of %d elements yields %d bytes, %v, that are not the %d of its fields", n, len(got), err, len(want))
		}
		if string(was) != string(keep) {
			r.fail("Pack of %d elements changes what an earlier call returned", n)
		}
		was, keep = got, append([]byte{}, got...)
		var u L
		in := append([]byte{}, want...)
		if err := restruct.Unpack(in, binary.BigEndian, &u); err != nil || len(u.S) != n {
			r.fail("Unpack of %d elements yields %d, %v", n, len(u.S), err)
			continue
		}
		for i := range u.S {
			if u.S[i] != v.S[i] {
				r.fail("Unpack of %d elements yields %+v at %d, not %+v", n, u.S[i], i, v.S[i])
				break
			}
		}
		if string(in) != string(want) {
			r.fail("Unpack of %d elements changes the data", n)
		}
	}
}

// constant checks that reading leaves the data as they are.
func constant(r *runner) {
	type T struct {
		A uint8  `struct:"uint8:3"`
		S string `struct:"[3]byte"`
		B uint8  `struct:"uint8:5"`
		N string `struct:"[2]uint16,big"`
		M string `struct:"[2]uint32,little"`
		O string `struct:"[4]byte,little"`
		U []byte `struct:"size=2"`
		W [3]byte
		X uint16
	}
	rnd := rand.New(rand.NewSource(seed() + 22))
	for k := 0; k < 200 && r.more(); k++ {
		for _, o := range orders {
			r.cases++
			b := &bitBuf{}
			little := o == binary.LittleEndian
			v := T{A: uint8(rnd.Intn(8)), B: uint8(rnd.Intn(32)), U: make([]byte, 2), X: uint16(rnd.Intn(65536))}
			str := func(n int) string {
				s := make([]byte, n)
				rnd.Read(s)
				for i := range s {
					s[i] |= 1
				}
				return string(s)
			}
			v.S, v.N, v.M, v.O = str(3), str(2), str(2), str(4)
			rnd.Read(v.U)
			rnd.Read(v.W[:])
			b.put(little, 3, uint64(v.A))
			for i := 0; i < 3; i++ {
				b.put(little, 8, uint64(v.S[i]))
			}
			b.put(little, 5, uint64(v.B))
			for i := 0; i < 2; i++ {
				b.put(false, 16, uint64(v.N[i]))
			}
			for i := 0; i < 2; i++ {
				b.put(true, 32, uint64(v.M[i]))
			}
			for _, s := range []string{v.O, string(v.U), string(v.W[:])} {
				for _, x := range []byte(s) {
					b.put(false, 8, uint64(x))
				}
			}
			b.put(little, 16, uint64(v.X))
			want := b.bytes()
			got, err := restruct.Pack(o, &v)
			if err != nil || string(got) != string(want) {
				r.fail("Pack(%v) of %+v yields %x, %v, not %x", o, v, got, err, want)
				continue
			}
			in := append([]byte{}, want...)
			var u T
			err = restruct.Unpack(in, o, &u)
			if string(in) != string(want) {
				r.fail("Unpack(%v) of %x changes the data to %x", o, want, in)
				continue
			}
			if err != nil || fmt.Sprint(u) != fmt.Sprint(v) {
				r.fail("Unpack(%v) of %x yields %+v, %v, not %+v", o, want, u, err, v)
				continue
			}
		}
	}
}

// pointed checks byte orders of pointers, of sequences of pointers and of
// what they point to.
func pointed(r *runner) {
	type S struct {
		X uint16
		Y *uint16
		Z *uint16 `struct:"little"`
	}
	type T struct {
		A *uint16    `struct:"big"`
		B *uint32    `struct:"little"`
		C [2]*uint16 `struct:"big"`
		D []*uint32  `struct:"little,size=2"`
		E **uint16   `struct:"big"`
		F *S         `struct:"big"`
		G []*S       `struct:"little,size=1"`
		H *[2]uint16 `struct:"little"`
		I [1][]*uint16
		J uint16
	}
	rnd := rand.New(rand.NewSource(seed() + 23))
	for k := 0; k < 100 && r.more(); k++ {
		for _, o := range orders {
			r.cases++
			b := &bitBuf{}
			dflt := o == binary.LittleEndian
			n16 := func(little bool) *uint16 {
				x := uint16(rnd.Intn(65536))
				b.put(little, 16, uint64(x))
				return &x
			}
			n32 := func(little bool) *uint32 {
				x := rnd.Uint32()
				b.put(little, 32, uint64(x))
				return &x
			}
			var v T
			v.A, v.B = n16(false), n32(true)
			v.C = [2]*uint16{n16(false), n16(false)}
			v.D = []*uint32{n32(true), n32(true)}
			e := n16(false)
			v.E = &e
			v.F = &S{*n16(false), n16(false), n16(true)}
			v.G = []*S{{*n16(true), n16(true), n16(true)}}
			v.H = &[2]uint16{*n16(true), *n16(true)}
			v.I = [1][]*uint16{{}}
			v.J = *n16(dflt)
			want := b.bytes()
			if n, err := restruct.SizeOf(&v); err != nil || n != len(want) {
				r.fail("SizeOf of pointers with byte orders is %d, %v, not %d", n, err, len(want))
			}
			got, err := restruct.Pack(o, &v)
			if err != nil || string(got) != string(want) {
				r.fail("Pack(%v) of pointers with byte orders yields %x, %v, not %x", o, got, err, want)
				continue
			}
			var u T
			if err := restruct.Unpack(want, o, &u); err != nil {
				r.fail("Unpack(%v) of %x to pointers with byte orders: %v", o, want, err)
				continue
			}
			if got, err := restruct.Pack(o, &u); err != nil || string(got) != string(want) || *u.A != *v.A || *u.B != *v.B || *u.C[1] != *v.C[1] || *u.D[1] != *v.D[1] || **u.E != **v.E || *u.F.Y != *v.F.Y || *u.F.Z != *v.F.Z || *u.G[0].Y != *v.G[0].Y || *u.H != *v.H || u.J != v.J {
				r.fail("Unpack(%v) of %x to pointers with byte orders yields other numbers", o, want)
			}
		}
	}
}

// both checks a case that is the default as well.
func both(r *runner) {
	type cases struct {
		A uint16 `struct:"default,case=1"`
		B uint8  `struct:"case=1"`
		C uint8  `struct:"case=2"`
	}
	for k := uint8(0); k < 4; k++ {
		r.cases++
		v := struct {
			K uint8
			S cases `struct:"switch=K"`
		}{K: k}
		want := []byte{k, 7, 7}
		if k == 1 || k == 2 {
			want = want[:2]
		}
		err := restruct.Unpack(append([]byte{}, want...), binary.BigEndian, &v)
		x := v.S
		got, perr := restruct.Pack(binary.BigEndian, &v)
		n, serr := restruct.SizeOf(&v)
		y := map[uint8]cases{0: {A: 0x707}, 1: {B: 7}, 2: {C: 7}, 3: {A: 0x707}}[k]
		if err != nil || perr != nil || serr != nil || x != y || string(got) != string(want) || n != len(want) {
			r.fail("a switch on %d unpacks %x to %+v, packs to %x, size %d, errors %v %v %v", k, want, x, got, n, err, perr, serr)
		}
	}
}

type nameOf string

type flagOf bool

type realOf float64

// named checks cases of types that only differ in their names or sizes.
func named(r *runner) {
	type cases struct {
		A uint8    `struct:"case=\"a\""`
		B uint16   `struct:"case=true"`
		C uint32   `struct:"case=1.25"`
		D uint64   `struct:"case=0.1"`
		E [3]uint8 `struct:"default"`
	}
	for _, k := range []struct {
		k interface{}
		n int
	}{{"a", 1}, {"b", 3}, {"", 3}, {"aa", 3}, {"A", 3}, {"a\x00", 3}, {true, 2}, {false, 3}, {1.25, 4}, {0.1, 8}, {-1.25, 3}, {math.NaN(), 3}, {1.0, 3}} {
		size := func(what string, v interface{}) {
			r.cases++
			n, err := restruct.SizeOf(v)
			d, perr := restruct.Pack(binary.BigEndian, v)
			if err != nil || perr != nil || n != k.n || len(d) != n {
				r.fail("a switch on the %s %v has size %d, %v, and packs to %x, %v, not to %d bytes", what, k.k, n, err, d, perr, k.n)
			}
			err = restruct.Unpack(make([]byte, k.n), binary.BigEndian, v)
			if err != nil {
				r.fail("a switch on the %s %v does not unpack %d bytes: %v", what, k.k, k.n, err)
			}
			if err = restruct.Unpack(make([]byte, k.n-1), binary.BigEndian, v); err == nil {
				r.fail("a switch on the %s %v unpacks %d bytes", what, k.k, k.n-1)
			}
		}
		switch x := k.k.(type) {
		case string:
			size("string", &struct {
				K string `struct:"-"`
				S cases  `struct:"switch=K"`
			}{K: x})
			size("named string", &struct {
				K nameOf `struct:"-"`
				S cases  `struct:"switch=K"`
			}{K: nameOf(x)})
		case bool:
			size("bool", &struct {
				K bool  `struct:"-"`
				S cases `struct:"switch=K"`
			}{K: x})
			size("named bool", &struct {
				K flagOf `struct:"-"`
				S cases  `struct:"switch=K"`
			}{K: flagOf(x)})
		case float64:
			size("float", &struct {
				K float64 `struct:"-"`
				S cases   `struct:"switch=K"`
			}{K: x})
			size("named float", &struct {
				K realOf `struct:"-"`
				S cases  `struct:"switch=K"`
			}{K: realOf(x)})
			size("float of single precision", &struct {
				K float32 `struct:"-"`
				S cases   `struct:"switch=K"`
			}{K: float32(x)})
		}
	}
}

// Kin is a struct of structs of its own type.
type kin struct {
	N    uint8       `struct:"sizeof=Kids"`
	Up   *kin        `struct:"parent"`
	Top  *kin        `struct:"root"`
	Any  interface{} `struct:"parent"`
	Own  kinLeaf
	Kids []kin
	W    uint16
}

type kinLeaf struct {
	X  uint8
	Up *kin     `struct:"parent"`
	P  *kinLeaf `struct:"parent"`
}

// checkKin checks the links below a struct of structs of its own type.
func checkKin(k, up, top *kin) error {
	if k.Top != top || k.Up != up {
		return fmt.Errorf("links of a struct in its own type: %p and %p, not %p and %p", k.Up, k.Top, up, top)
	}
	if up == nil && k.Any != nil || up != nil && k.Any != interface{}(up) {
		return fmt.Errorf("untyped link of a struct in its own type")
	}
	if k.Own.Up != k || k.Own.P != nil {
		return fmt.Errorf("links of a leaf")
	}
	for i := range k.Kids {
		if err := checkKin(&k.Kids[i], k, top); err != nil {
			return err
		}
	}
	return nil
}

// kins checks links of structs in structs of their own type, and links that
// were set before.
func kins(r *runner) {
	rnd := rand.New(rand.NewSource(seed() + 24))
	for i := 0; i < 300 && r.more(); i++ {
		r.cases++
		stale := rnd.Intn(2) == 0
		other := &kin{W: 1}
		var want []byte
		var mk func(depth int) kin
		mk = func(depth int) kin {
			k := kin{W: uint16(rnd.Intn(65536)), Own: kinLeaf{X: uint8(rnd.Intn(256))}}
			n := 0
			if depth > 0 {
				n = rnd.Intn(4)
			}
			k.N = uint8(n)
			want = append(want, k.N, k.Own.X)
			for ; n > 0; n-- {
				k.Kids = append(k.Kids, mk(depth-1))
			}
			want = append(want, byte(k.W>>8), byte(k.W))
			return k
		}
		v := mk(3)
		var dirty func(k *kin, top bool)
		dirty = func(k *kin, top bool) {
			if !top {
				k.Up, k.Any = other, other
			}
			k.Top, k.Own.Up = other, other
			for i := range k.Kids {
				dirty(&k.Kids[i], false)
			}
		}
		if stale {
			dirty(&v, true)
		}
		if n, err := restruct.SizeOf(&v); err != nil || n != len(want) {
			r.fail("SizeOf of structs in their own type: %d, %v, not %d", n, err, len(want))
			continue
		}
		if err := checkKin(&v, nil, &v); err != nil {
			r.fail("after SizeOf, of %x: %v", want, err)
		}
		if stale {
			dirty(&v, true)
		}
		got, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of structs in their own type yields %x, %v, not %x", got, err, want)
			continue
		}
		if err := checkKin(&v, nil, &v); err != nil {
			r.fail("after Pack, of %x: %v", want, err)
		}
		var u kin
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil {
			r.fail("Unpack of %x to structs in their own type: %v", want, err)
			continue
		}
		if err := checkKin(&u, nil, &u); err != nil {
			r.fail("after Unpack of %x: %v", want, err)
		}
	}
}

// above is what some structs are.
type above interface{ Tell() string }

type tower struct {
	A   uint8
	Mid towerMid
	Z   uint8
}

func (t *tower) Tell() string { return fmt.Sprint("tower ", t.A) }

type towerMid struct {
	B    uint8
	Leaf towerLeaf
	Sl   []towerLeaf `struct:"size=2"`
}

type towerLeaf struct {
	Up   above        `struct:"parent"`
	Top  above        `struct:"root"`
	Any  interface{}  `struct:"parent"`
	Str  fmt.Stringer `struct:"parent"`
	C    uint8
	Last struct {
		Up  above     `struct:"parent"`
		Mid *towerMid `struct:"parent"`
	}
}

// towers checks links whose types are interfaces.
func towers(r *runner) {
	check := func(what string, t *tower) {
		r.cases++
		for i, l := range []*towerLeaf{&t.Mid.Leaf, &t.Mid.Sl[0], &t.Mid.Sl[1]} {
			if l.Up != above(t) || l.Top != above(t) || l.Any != interface{}(&t.Mid) || l.Str != nil || l.Last.Up != above(t) || l.Last.Mid != &t.Mid {
				r.fail("after %s, the links of leaf %d are %v %v %v %v %v", what, i, l.Up, l.Top, l.Any == interface{}(&t.Mid), l.Str, l.Last.Up)
			}
		}
	}
	mk := func() *tower { return &tower{A: 1, Mid: towerMid{Sl: make([]towerLeaf, 2)}} }
	v := mk()
	if n, err := restruct.SizeOf(v); err != nil || n != 6 {
		r.fail("SizeOf of structs with links to interfaces is %d, %v", n, err)
	}
	check("SizeOf", v)
	v = mk()
	if d, err := restruct.Pack(binary.BigEndian, v); err != nil || string(d) != "\x01\x00\x00\x00\x00\x00" {
		r.fail("Pack of structs with links to interfaces yields %x, %v", d, err)
	}
	check("Pack", v)
	v = mk()
	if err := restruct.Unpack([]byte{1, 2, 3, 4, 5, 6}, binary.BigEndian, v); err != nil || v.A != 1 || v.Mid.B != 2 || v.Mid.Sl[1].C != 5 || v.Z != 6 {
		r.fail("Unpack to structs with links to interfaces: %v", err)
		return
	}
	check("Unpack", v)
}

// wider checks arrays that have more elements in binary.
func wider(r *runner) {
	for k := 0; k < 8; k++ {
		r.cases++
		v := struct {
			A [2]uint8   `struct:"[4]uint16"`
			B [2][]uint8 `struct:"[3][]uint8"`
			C []string   `struct:"[2]string"`
			D [1]*uint8  `struct:"[2]*uint8"`
			Z uint8
		}{A: [2]uint8{1, uint8(k)}, B: [2][]uint8{make([]uint8, k), {1}}, C: []string{"abcdefgh"[:k]}, Z: 9}
		want := []byte{0, 1, 0, byte(k), 0, 0, 0, 0}
		want = append(want, make([]byte, k)...)
		want = append(want, 1)
		want = append(want, "abcdefgh"[:k]...)
		if k%2 == 0 {
			v.D[0] = new(uint8)
			want = append(want, 0)
		}
		want = append(want, 9)
		n, err := restruct.SizeOf(&v)
		d, perr := restruct.Pack(binary.BigEndian, &v)
		if err != nil || perr != nil || n != len(want) || string(d) != string(want) {
			r.fail("%+v has size %d, %v, and packs to %x, %v, not %x", v, n, err, d, perr, want)
		}
	}
}

// rest is a codec that is a slice, table one that is a map; neither is packed
// element by element.
type rest []uint16

func (v rest) SizeOf() int { return 1 + len(v) }

func (v rest) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0] = byte(len(v))
	for i, x := range v {
		buf[1+i] = byte(x) ^ 0x55
	}
	return buf[1+len(v):], nil
}

func (v *rest) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	n := int(buf[0])
	*v = nil
	for _, x := range buf[1 : 1+n] {
		*v = append(*v, uint16(x^0x55))
	}
	return buf[1+n:], nil
}

type table map[uint8]uint8

func (v table) SizeOf() int { return 2 }

func (v table) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0], buf[1] = byte(len(v)), v[7]
	return buf[2:], nil
}

func (v *table) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	*v = table{7: buf[1]}
	return buf[2:], nil
}

type four [4]uint8

func (v *four) SizeOf() int { return 2 }

func (v *four) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0], buf[1] = v[0]|v[1]<<4, v[2]|v[3]<<4
	return buf[2:], nil
}

func (v *four) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	*v = four{buf[0] & 15, buf[0] >> 4, buf[1] & 15, buf[1] >> 4}
	return buf[2:], nil
}

// kinds checks codecs that are slices, maps and arrays.
func kinds(r *runner) {
	type T struct {
		A rest
		B table
		C four
		D *rest
		E **four
		N uint8 `struct:"sizeof=S"`
		S []rest
		M []four `struct:"size=1"`
		Z uint8
	}
	rnd := rand.New(rand.NewSource(seed() + 25))
	for i := 0; i < 200 && r.more(); i++ {
		r.cases++
		mk := func() rest {
			var x rest
			for n := rnd.Intn(4); n > 0; n-- {
				x = append(x, uint16(rnd.Intn(256)))
			}
			return x
		}
		d, e := mk(), four{1, uint8(i & 15), 3, 4}
		pe := &e
		v := T{A: mk(), B: table{7: uint8(i)}, C: four{5, 6, 7, uint8(i & 15)}, D: &d, E: &pe, M: []four{{1, 2, 3, 4}}, Z: 9}
		for n := rnd.Intn(3); n > 0; n-- {
			v.S = append(v.S, mk())
		}
		v.N = uint8(len(v.S))
		var want []byte
		put := func(x rest) {
			want = append(want, byte(len(x)))
			for _, y := range x {
				want = append(want, byte(y)^0x55)
			}
		}
		put4 := func(v four) { want = append(want, v[0]|v[1]<<4, v[2]|v[3]<<4) }
		put(v.A)
		want = append(want, 1, uint8(i))
		put4(v.C)
		put(d)
		put4(e)
		want = append(want, v.N)
		for _, x := range v.S {
			put(x)
		}
		put4(v.M[0])
		want = append(want, 9)
		n, err := restruct.SizeOf(&v)
		got, perr := restruct.Pack(binary.BigEndian, &v)
		if err != nil || perr != nil || n != len(want) || string(got) != string(want) {
			r.fail("codecs of several kinds %+v have size %d, %v, and pack to %x, %v, not %x", v, n, err, got, perr, want)
			continue
		}
		// the codecs are called on what pointers point to
		d2, e2 := rest{1}, four{}
		pe2 := &e2
		u := T{D: &d2, E: &pe2}
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil || fmt.Sprint(u.A, u.B, u.C, *u.D, **u.E, u.N, u.S, u.M, u.Z) != fmt.Sprint(v.A, v.B, v.C, *v.D, **v.E, v.N, v.S, v.M, v.Z) {
			r.fail("Unpack of %x to codecs of several kinds yields %+v, %v, not %+v", want, u, err, v)
		}
	}
}

type deepRoot struct {
	A uint16
	C chainA
	Z uint16
}

type chainA struct {
	N    uint8
	X    uint16
	B    *chainB   `struct:"little,if=N > 0"`
	Far  *deepRoot `struct:"parent"`
	Top  *deepRoot `struct:"root"`
	Y    uint16
	None *kin `struct:"parent"`
}

type chainB struct {
	X   uint16
	A   chainA2   `struct:"big"`
	Far *deepRoot `struct:"parent"`
	Up  *chainA   `struct:"parent"`
	Y   uint16
}

type chainA2 struct {
	A []chainA `struct:"size=1"`
	Y uint16
}

// depths checks byte orders and links far below.
func depths(r *runner) {
	for depth := 0; depth < 20; depth++ {
		for _, o := range orders {
			r.cases++
			b := &bitBuf{}
			next := uint64(0x0102)
			num := func(little bool) uint16 {
				next = next*31 + 7
				b.put(little, 16, next&0xffff)
				return uint16(next)
			}
			var mk func(n int, little bool) chainA
			mk = func(n int, little bool) chainA {
				c := chainA{N: uint8(n)}
				b.put(false, 8, uint64(n))
				c.X = num(little)
				if n > 0 {
					c.B = &chainB{X: num(true)}
					c.B.A.A = []chainA{mk(n-1, false)}
					c.B.A.Y = num(false)
					c.B.Y = num(true)
				}
				c.Y = num(little)
				return c
			}
			v := &deepRoot{}
			little := o == binary.LittleEndian
			v.A = num(little)
			v.C = mk(depth, little)
			v.Z = num(little)
			want := b.bytes()
			var check func(c *chainA, t *deepRoot, up bool) bool
			check = func(c *chainA, t *deepRoot, up bool) bool {
				if c.Top != t || c.Far != t || c.None != nil {
					return false
				}
				return c.N == 0 || c.B.Far == t && c.B.Up == c && check(&c.B.A.A[0], t, true)
			}
			if n, err := restruct.SizeOf(v); err != nil || n != len(want) || !check(&v.C, v, false) {
				r.fail("SizeOf of %d nested structs is %d, %v, not %d; links as they should be: %v", depth, n, err, len(want), check(&v.C, v, false))
				return
			}
			got, err := restruct.Pack(o, v)
			if err != nil || string(got) != string(want) || !check(&v.C, v, false) {
				r.fail("Pack(%v) of %d nested structs yields %x, %v, not %x", o, depth, got, err, want)
				return
			}
			u := &deepRoot{}
			if err := restruct.Unpack(want, o, u); err != nil {
				r.fail("Unpack(%v) of %d nested structs from %x: %v", o, depth, want, err)
				return
			}
			if !check(&u.C, u, false) {
				r.fail("Unpack(%v) of %d nested structs from %x leaves wrong links", o, depth, want)
			}
			if got, err := restruct.Pack(o, u); err != nil || string(got) != string(want) {
				r.fail("Unpack(%v) of %d nested structs from %x yields what packs to %x, %v", o, depth, want, got, err)
			}
		}
	}
}

// manyFields checks structs of many fields.
func manyFields(r *runner) {
	for _, n := range []int{1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300} {
		r.cases++
		fs := []reflect.StructField{}
		for i := 0; i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(uint16(0))}
			if i%3 == 1 {
				f.Tag = `struct:"little"`
			} else if i%3 == 2 {
				f.Tag = `struct:"uint16:12,big"`
			}
			fs = append(fs, f)
		}
		v := reflect.New(reflect.StructOf(fs))
		b := &bitBuf{}
		for i := 0; i < n; i++ {
			x := uint64(i*2654435761+7) & 0xfff
			v.Elem().Field(i).SetUint(x)
			w := 16
			if i%3 == 2 {
				w = 12
			}
			b.put(i%3 == 1, w, x)
		}
		want := b.bytes()
		s, err := restruct.BitSize(v.Interface())
		got, perr := restruct.Pack(binary.BigEndian, v.Interface())
		if err != nil || perr != nil || s != len(b.bits) || string(got) != string(want) {
			r.fail("a struct of %d fields has %d bits, %v, and packs to %x, %v, not %x", n, s, err, got, perr, want)
			continue
		}
		u := reflect.New(v.Type().Elem())
		if err := restruct.Unpack(want, binary.BigEndian, u.Interface()); err != nil || !reflect.DeepEqual(u.Interface(), v.Interface()) {
			r.fail("Unpack of %x to a struct of %d fields yields %+v, %v", want, n, u.Elem(), err)
		}
	}
}
