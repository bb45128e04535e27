package restruct_test

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"github.com/go-restruct/restruct"
)

// ---- C12

type ifc interface{ M() }

type failing struct {
	Mode uint8
}

var errOwn = errors.New("own failure")

func (f *failing) SizeOf() int {
	if f.Mode == 3 {
		panic("sizing fails")
	}
	return 1
}

func (f *failing) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	switch f.Mode {
	case 1:
		return nil, errOwn
	case 2:
		panic(errOwn)
	case 4:
		panic("odd failure: 5% of %d")
	case 5:
		panic(5)
	}
	buf[0] = f.Mode
	return buf[1:], nil
}

func (f *failing) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	f.Mode = buf[0]
	switch f.Mode {
	case 1:
		return nil, errOwn
	case 2:
		panic(errOwn)
	case 4:
		panic("odd failure: 5% of %d")
	case 5:
		panic(5)
	}
	return buf[1:], nil
}

type badTypes struct {
	name string
	v    interface{}
}

func TestVerifC12(t *testing.T) {
	r := newRunner(t, "unusable values, tags and expressions, failing codecs, generated types with truncated and random data")
	defer r.done()
	knownAlloc()
	knownEndless()
	try := func(what string, v interface{}, data []byte, bad bool) {
		r.cases++
		var d []byte
		var err error
		if p := safe(func() { d, err = restruct.Pack(binary.BigEndian, v) }); p != nil {
			r.fail("Pack of %s panics: %v", what, p)
		}
		if err != nil && d != nil {
			r.fail("Pack of %s returns %x with error %v", what, d, err)
		}
		if bad && err == nil {
			r.fail("Pack of %s succeeds", what)
		}
		if p := safe(func() { _, err = restruct.SizeOf(v) }); p != nil {
			r.fail("SizeOf of %s panics: %v", what, p)
		}
		if p := safe(func() { _, err = restruct.BitSize(v) }); p != nil {
			r.fail("BitSize of %s panics: %v", what, p)
		}
		if p := safe(func() { err = restruct.Unpack(data, binary.BigEndian, v) }); p != nil {
			r.fail("Unpack of %x into %s panics: %v", data, what, p)
		}
		if bad && err == nil {
			r.fail("Unpack into %s succeeds", what)
		}
	}
	// what cannot be set is refused, also if there is nothing to set
	for _, v := range []interface{}{struct{ A uint8 }{}, struct{}{}, uint8(1), [2]uint8{}, [0]uint8{}, "", false, struct{ A []uint8 }{}} {
		for _, d := range [][]byte{nil, {}, {1, 2, 3, 4}} {
			r.cases++
			var err error
			if p := safe(func() { err = restruct.Unpack(d, binary.BigEndian, v) }); p != nil || err == nil {
				r.fail("Unpack of %x into %#v that is not addressable: error %v, panic %v", d, v, err, p)
			}
		}
	}
	long := make([]byte, 64)
	var nilp *struct{ A int8 }
	var nili interface{}
	for _, b := range []struct {
		what string
		v    interface{}
		bad  bool
	}{
		{"nil", nil, true}, {"nil pointer", nilp, true}, {"pointer to nil interface", &nili, false},
		{"sizeof of a missing field", &struct {
			A uint8 `struct:"sizeof=B"`
		}{}, true},
		{"sizefrom a missing field", &struct {
			A []uint8 `struct:"sizefrom=B"`
		}{}, true},
		{"sizefrom on a number", &struct {
			B uint8
			A uint8 `struct:"sizefrom=B"`
		}{}, true},
		{"sizeof of a number", &struct {
			B uint8 `struct:"sizeof=A"`
			A uint8
		}{}, true},
		{"size on a number", &struct {
			A uint8 `struct:"size=1"`
		}{}, true},
		{"bits on a string", &struct {
			A string `struct:"bits=1"`
		}{}, true},
		{"float count", &struct {
			B float32 `struct:"sizeof=A"`
			A []uint8
		}{A: []uint8{1}}, true},
		{"bad tag", &struct {
			A uint8 `struct:"nonsense"`
		}{}, true},
		{"bad type", &struct {
			A uint8 `struct:"[x]uint8"`
		}{}, true},
		{"bad bits", &struct {
			A uint8 `struct:"uint8:9"`
		}{}, true},
		{"bad expression", &struct {
			A uint8 `struct:"if=1 +"`
		}{}, true},
		{"if not bool", &struct {
			A uint8 `struct:"if=1"`
		}{}, true},
		{"unknown name", &struct {
			A uint8 `struct:"if=Nothing > 1"`
		}{}, true},
		{"negative bits", &struct {
			A uint8 `struct:"bits=0 - 3"`
		}{}, true},
		{"type mismatch", &struct {
			A string `struct:"int32"`
		}{}, true},
		{"type mismatch", &struct {
			A int32 `struct:"uint32"`
		}{}, true},
		{"struct as number", &struct {
			A struct{ X int8 } `struct:"uint32"`
		}{}, true},
		{"while of a number", &struct {
			A []uint8 `struct:"while=1"`
		}{}, false},
		{"channel", &struct{ A chan int }{}, false},
		{"function", &struct{ A func() }{}, false},
		{"map", &struct{ A map[string]int }{}, false},
		{"interface", &struct{ A ifc }{}, false},
		{"division", &struct {
			A uint8
			B uint8 `struct:"if=1/A == 1"`
		}{}, true},
		{"shadow", &struct {
			A uint8
			B []byte `struct:"size=A - 1"`
		}{}, true},
	} {
		try(b.what, b.v, long, b.bad)
		try(b.what+" and no data", b.v, nil, false)
	}
	// by value
	for _, v := range []interface{}{struct{ A int8 }{1}, 5, "x", []int{1}, map[int]int{}, [2]int16{}} {
		try(fmt.Sprintf("%T by value", v), v, long, false)
		if err := safeErr(func() error { return restruct.Unpack(long, binary.BigEndian, v) }); err == nil {
			r.fail("Unpack into a %T by value succeeds", v)
		}
	}
	// codecs that fail
	type wrap struct {
		H uint8
		F failing
		T uint16
	}
	for m := uint8(0); m < 6; m++ {
		r.cases++
		text := map[uint8]string{1: "own failure", 2: "own failure", 3: "sizing fails", 4: "odd failure: 5% of %d", 5: "5"}[m]
		v := &wrap{F: failing{m}}
		d, err := restruct.Pack(binary.BigEndian, v)
		if (text == "") != (err == nil) || err != nil && (d != nil || !strings.Contains(err.Error(), text)) {
			r.fail("Pack with a codec failing with %q returns %x, %v", text, d, err)
		}
		if m == 3 {
			for _, f := range []func(interface{}) (int, error){restruct.SizeOf, restruct.BitSize} {
				if _, err := f(v); err == nil || !strings.Contains(err.Error(), text) {
					r.fail("SizeOf with a codec failing with %q: %v", text, err)
				}
			}
			text = ""
		}
		err = restruct.Unpack([]byte{1, m, 0, 0}, binary.BigEndian, v)
		if (text == "") != (err == nil) || err != nil && !strings.Contains(err.Error(), text) {
			r.fail("Unpack with a codec failing with %q: %v", text, err)
		}
	}
	r.random(all, "purt", 3)
}

func safeErr(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

// ---- C16

type logCodec struct {
	Len   uint8
	Order string
	Rest  int
	Data  []byte
}

func (l *logCodec) SizeOf() int { return 1 + len(l.Data) }

func (l *logCodec) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	l.Order, l.Rest = fmt.Sprint(order), len(buf)
	buf[0] = byte(len(l.Data))
	copy(buf[1:], l.Data)
	return buf[1+len(l.Data):], nil
}

func (l *logCodec) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	l.Order, l.Rest = fmt.Sprint(order), len(buf)
	if len(buf) < 1 || len(buf) < 1+int(buf[0]) {
		return nil, errOwn
	}
	l.Len = buf[0]
	l.Data = append([]byte{}, buf[1:1+int(buf[0])]...)
	return buf[1+int(buf[0]):], nil
}

type bitter struct{ A, B uint8 }

func (b bitter) BitSize() int { return 16 }
func (b bitter) SizeOf() int  { return 9 } // BitSize goes first

func (b bitter) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0], buf[1] = b.B, b.A
	return buf[2:], nil
}

func (b *bitter) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	b.B, b.A = buf[0], buf[1]
	return buf[2:], nil
}

func TestVerifC16(t *testing.T) {
	r := newRunner(t, "codecs by value and by pointer, in fields, slices, arrays, pointers, switches and excluded fields, at random sizes")
	defer r.done()
	kinds(r)
	nothings(r)
	refusals(r)
	kept(r)
	rnd := rand.New(rand.NewSource(seed()))
	blob := func() []byte {
		b := make([]byte, rnd.Intn(5))
		rnd.Read(b)
		return b
	}
	type T struct {
		N  uint8      `struct:"sizeof=S"`
		A  logCodec   `struct:"little"`
		B  uint16     `struct:"big"`
		S  []logCodec `struct:"big"`
		P  *logCodec
		V  *bitter
		W  [2]bitter
		_  bitter
		X  logCodec `struct:"if=N > 1"`
		In struct {
			Y logCodec `struct:"skip=2"`
		} `struct:"little"`
		Z logCodec
		E uint32 `struct:"big"`
	}
	for k := 0; k < 20000 && r.more(); k++ {
		r.cases++
		order := orders[rnd.Intn(2)]
		v := T{A: logCodec{Data: blob()}, B: uint16(rnd.Intn(65536)), P: &logCodec{Data: blob()}, V: &bitter{1, byte(rnd.Intn(256))},
			W: [2]bitter{{3, 4}, {5, 6}}, X: logCodec{Data: blob()}, Z: logCodec{Data: blob()}, E: rnd.Uint32()}
		v.In.Y.Data = blob()
		n := rnd.Intn(4)
		for i := 0; i < n; i++ {
			v.S = append(v.S, logCodec{Data: blob()})
		}
		v.N = uint8(n)
		var want []byte
		var rests []int
		var lens []*logCodec
		put := func(l *logCodec) {
			lens = append(lens, l)
			rests = append(rests, len(want))
			want = append(append(want, byte(len(l.Data))), l.Data...)
		}
		want = append(want, byte(n))
		put(&v.A)
		want = append(want, byte(v.B>>8), byte(v.B))
		for i := range v.S {
			put(&v.S[i])
		}
		put(v.P)
		want = append(want, v.V.B, v.V.A, 4, 3, 6, 5, 0, 0)
		if n > 1 {
			put(&v.X)
		}
		want = append(want, 0, 0)
		put(&v.In.Y)
		put(&v.Z)
		want = append(want, byte(v.E>>24), byte(v.E>>16), byte(v.E>>8), byte(v.E))
		orderOf := func(l *logCodec) string {
			switch {
			case l == &v.A || l == &v.In.Y:
				return "LittleEndian"
			case l != v.P && l != &v.X && l != &v.Z:
				return "BigEndian"
			}
			return fmt.Sprint(order)
		}
		size, err := restruct.SizeOf(&v)
		if err != nil || size != len(want) {
			r.fail("SizeOf of %+v: %d, %v, not %d", v, size, err, len(want))
			continue
		}
		got, err := restruct.Pack(order, &v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack of %+v: %x, %v, not %x", v, got, err, want)
			continue
		}
		for i, l := range lens {
			if l.Rest != len(want)-rests[i] || l.Order != orderOf(l) {
				r.fail("codec %d of %+v was given %d bytes and %s when packing, not %d and %s", i, v, l.Rest, l.Order, len(want)-rests[i], orderOf(l))
			}
		}
		var u T
		extra := blob()
		if err := restruct.Unpack(append(append([]byte{}, want...), extra...), order, &u); err != nil {
			r.fail("Unpack of %x: %v", want, err)
			continue
		}
		us := []*logCodec{&u.A}
		for i := range u.S {
			us = append(us, &u.S[i])
		}
		us = append(us, u.P)
		if n > 1 {
			us = append(us, &u.X)
		}
		us = append(us, &u.In.Y, &u.Z)
		if len(us) != len(lens) || u.E != v.E || u.B != v.B || u.W != v.W || *u.V != *v.V {
			r.fail("Unpack of %x yields %+v", want, u)
			continue
		}
		for i, l := range us {
			if string(l.Data) != string(lens[i].Data) || l.Rest != len(want)+len(extra)-rests[i] || l.Order != lens[i].Order {
				r.fail("codec %d of %x was given %d bytes and %s when unpacking, and holds %x, not %d and %s", i, want, l.Rest, l.Order, l.Data, len(want)+len(extra)-rests[i], lens[i].Order)
			}
		}
		cut := rnd.Intn(len(want))
		if err := restruct.Unpack(want[:cut], order, &u); err == nil {
			r.fail("Unpack of %x, cut short, succeeds", want[:cut])
		}
	}
	r.random(profile{codecs: 8, structs: 2, seqs: 3, ptrs: 2, orders: 3, ifs: 2, counts: 2, switches: 1, skips: 1, blanks: 1, maxFields: 4, aligned: true}, "sput", 3)
}

// refusing is a codec that fails and returns a rest all the same.
type refusing struct{ Fail, Left uint8 }

func (f refusing) SizeOf() int { return 3 }

func (f refusing) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if f.Fail != 0 {
		return buf[:int(f.Left)%(len(buf)+1)], errOwn
	}
	return buf[3:], nil
}

func (f *refusing) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	f.Left = buf[1]
	if f.Fail = buf[0]; f.Fail != 0 {
		return buf[len(buf)-int(buf[1])%(len(buf)+1):], errOwn
	}
	return buf[3:], nil
}

// padding says it is larger than it is; as a blank field it is padding.
type padding struct{ A, B uint8 }

func (p padding) SizeOf() int { panic("blank fields are no codecs") }

// keeper keeps what it read before.
type keeper struct {
	Old []byte
	Own int
}

func (k *keeper) SizeOf() int { return 1 }

func (k *keeper) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0] = byte(len(k.Old))
	return buf[1:], nil
}

func (k *keeper) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	k.Old = append(k.Old, buf[0])
	return buf[1:], nil
}

// kept checks that codecs are called on the values that are there.
func kept(r *runner) {
	type P struct {
		A *num
		B []*num `struct:"size=1"`
		C [1]*num
		D **num
	}
	for i := 0; i < 8; i++ {
		r.cases++
		a, c, d := num(1), num(2), num(3)
		pd := &d
		v := P{A: &a, C: [1]*num{&c}, D: &pd}
		if err := restruct.Unpack([]byte{1, byte(i), 2, 0, 3, 0, 4, 0}, binary.BigEndian, &v); err != nil || v.A != &a || v.C[0] != &c || a != num(255+i) || *v.B[0] != 511 || c != 767 || **v.D != 1023 {
			r.fail("Unpack of codecs of a basic kind behind pointers: %v, %v, %v", err, a, c)
		}
	}
	type T struct {
		P *keeper
		A keeper
		Q [2]*keeper
		N *keeper
	}
	for i := 0; i < 4; i++ {
		r.cases++
		p := [3]*keeper{{Own: 1}, {Own: 2}, {Own: 3}}
		v := T{P: p[0], Q: [2]*keeper{p[1], p[2]}, A: keeper{Own: 4}}
		for k := 0; k <= i; k++ {
			b := byte(k * 16)
			if err := restruct.Unpack([]byte{b, b + 1, b + 2, b + 3, b + 4}, binary.LittleEndian, &v); err != nil {
				r.fail("Unpack of codecs behind pointers: %v", err)
				return
			}
			if v.P != p[0] || v.Q[0] != p[1] || v.Q[1] != p[2] || v.N == nil || v.A.Own != 4 || p[0].Own != 1 || p[1].Own != 2 || p[2].Own != 3 {
				r.fail("Unpack replaces the codecs behind pointers: %+v", v)
				return
			}
			for j, c := range []*keeper{p[0], &v.A, p[1], p[2], v.N} {
				if len(c.Old) != k+1 || c.Old[k] != b+byte(j) {
					r.fail("codec %d holds %x after reading %d times", j, c.Old, k+1)
				}
			}
		}
	}
}

// refusals checks codecs that fail.
func refusals(r *runner) {
	type T struct {
		A uint16
		C refusing
		_ padding
		B [2]refusing
		Z uint8
	}
	for i := 0; i < 3*2*6; i++ {
		r.cases++
		bad, left := i%3, uint8(i/6)
		var v T
		d := make([]byte, 14)
		c := []*refusing{&v.C, &v.B[0], &v.B[1]}
		if i%6 >= 3 {
			c[bad].Fail, c[bad].Left = 1, left
			at := []int{2, 7, 10}[bad]
			d[at], d[at+1] = 1, left
		}
		n, err := restruct.SizeOf(&v)
		if n != 14 || err != nil {
			r.fail("SizeOf of %+v is %d, %v, not 14", v, n, err)
			continue
		}
		got, err := restruct.Pack(binary.BigEndian, &v)
		if (err != nil) != (i%6 >= 3) || err == nil && len(got) != 14 || err != nil && (got != nil || !strings.Contains(err.Error(), errOwn.Error())) {
			r.fail("Pack of %+v yields %x, %v", v, got, err)
		}
		var u T
		err = restruct.Unpack(d, binary.BigEndian, &u)
		if (err != nil) != (i%6 >= 3) || err != nil && !strings.Contains(err.Error(), errOwn.Error()) {
			r.fail("Unpack of %x: %v", d, err)
		}
	}
}

// ---- C25

type lroot struct {
	A   uint8
	Mid lmid
	Arr [2]lmid
	Ptr *lmid
	N   uint8 `struct:"sizeof=Sl"`
	Sl  []lmid
	Z   uint16
}

type lmid struct {
	Root *lroot      `struct:"root"`
	Any  interface{} `struct:"parent"`
	Up   *lroot      `struct:"parent"`
	B    uint8
	Zero lzero
	Leaf lleaf
	C    uint8
}

// lzero takes no bytes.
type lzero struct {
	Up   *lmid  `struct:"parent"`
	Root *lroot `struct:"root"`
}

// ltwin is another type with the structure of lleaf.
type ltwin lleaf

type lleaf struct {
	X     uint8
	R     interface{} `struct:"root"`
	Root  *lroot      `struct:"root"`
	Up    *lmid       `struct:"parent"`
	UpTop *lroot      `struct:"parent"`
	Not   *badTypes   `struct:"parent"`
	Y     uint8
	In    struct {
		Up    *lleaf      `struct:"parent"`
		UpMid *lmid       `struct:"parent"`
		Any   interface{} `struct:"parent"`
		Root  *lroot      `struct:"root"`
		Twin  *ltwin      `struct:"parent"`
		W     uint8
	}
}

func checkLinks(top *lroot) error {
	mids := []*lmid{&top.Mid, &top.Arr[0], &top.Arr[1]}
	if top.Ptr != nil {
		mids = append(mids, top.Ptr)
	}
	for i := range top.Sl {
		mids = append(mids, &top.Sl[i])
	}
	for i, m := range mids {
		l := &m.Leaf
		switch {
		case m.Root != top:
			return fmt.Errorf("root of struct %d", i)
		case m.Any != interface{}(top):
			return fmt.Errorf("untyped parent of struct %d", i)
		case m.Up != top:
			return fmt.Errorf("parent of struct %d", i)
		case l.R != interface{}(top) || l.Root != top:
			return fmt.Errorf("root of the inner struct of %d", i)
		case l.Up != m:
			return fmt.Errorf("parent of the inner struct of %d", i)
		case l.UpTop != top:
			return fmt.Errorf("grandparent of the inner struct of %d", i)
		case l.Not != nil:
			return fmt.Errorf("link without a fitting struct in %d", i)
		case m.Zero.Up != m || m.Zero.Root != top:
			return fmt.Errorf("links of the empty struct of %d", i)
		case l.In.Root != top || l.In.Twin != nil:
			return fmt.Errorf("root or twin of the innermost struct of %d", i)
		case l.In.Up != l || l.In.UpMid != m || l.In.Any != interface{}(l):
			return fmt.Errorf("links of the innermost struct of %d", i)
		}
	}
	return nil
}

func TestVerifC25(t *testing.T) {
	r := newRunner(t, "a tree of structs with links at three levels, random shape and data")
	defer r.done()
	knownWhile()
	kins(r)
	towers(r)
	depths(r)
	rnd := rand.New(rand.NewSource(seed()))
	mk := func() lmid {
		m := lmid{B: uint8(rnd.Intn(256)), C: uint8(rnd.Intn(256))}
		m.Leaf.X, m.Leaf.Y, m.Leaf.In.W = uint8(rnd.Intn(256)), uint8(rnd.Intn(256)), uint8(rnd.Intn(256))
		return m
	}
	for k := 0; k < 20000 && r.more(); k++ {
		r.cases++
		mkRoot := func() *lroot {
			v := &lroot{A: uint8(k), Mid: mk(), Arr: [2]lmid{mk(), mk()}, Z: uint16(rnd.Intn(65536))}
			m := mk()
			v.Ptr = &m
			for i := rnd.Intn(4); i > 0; i-- {
				v.Sl = append(v.Sl, mk())
			}
			v.N = uint8(len(v.Sl))
			return v
		}
		v := mkRoot()
		var want []byte
		want = append(want, v.A)
		putm := func(m *lmid) {
			want = append(want, m.B, m.Leaf.X, m.Leaf.Y, m.Leaf.In.W, m.C)
		}
		putm(&v.Mid)
		putm(&v.Arr[0])
		putm(&v.Arr[1])
		putm(v.Ptr)
		want = append(want, v.N)
		for i := range v.Sl {
			putm(&v.Sl[i])
		}
		want = append(want, byte(v.Z>>8), byte(v.Z))
		size, err := restruct.SizeOf(v)
		if err != nil || size != len(want) {
			r.fail("SizeOf: %d, %v, not %d, for %+v", size, err, len(want), v)
			continue
		}
		if err := checkLinks(v); err != nil {
			r.fail("after SizeOf: %v, with %d elements", err, len(v.Sl))
			continue
		}
		w := mkRoot()
		if _, err := restruct.Pack(binary.BigEndian, w); err != nil {
			r.fail("Pack: %v", err)
		} else if err := checkLinks(w); err != nil {
			r.fail("after Pack: %v, with %d elements", err, len(w.Sl))
		}
		got, err := restruct.Pack(binary.BigEndian, v)
		if err != nil || string(got) != string(want) {
			r.fail("Pack: %x, %v, not %x", got, err, want)
			continue
		}
		var u lroot
		if err := restruct.Unpack(want, binary.BigEndian, &u); err != nil {
			r.fail("Unpack of %x: %v", want, err)
			continue
		}
		if err := checkLinks(&u); err != nil {
			r.fail("after Unpack of %x: %v", want, err)
		}
		if u.Z != v.Z || len(u.Sl) != len(v.Sl) || u.A != v.A || u.Ptr.C != v.Ptr.C || u.Arr[1].Leaf.In.W != v.Arr[1].Leaf.In.W {
			r.fail("Unpack of %x yields %+v", want, u)
		}
	}
	// names after a struct refer to the outer one again
	type inner struct {
		K uint8
		L uint8 `struct:"if=K == 1"`
	}
	type outer struct {
		K uint8
		I [3]inner
		M uint8 `struct:"if=K == 1"`
	}
	for _, k := range []uint8{0, 1} {
		for _, j := range []uint8{0, 1} {
			r.cases++
			v := outer{K: k, I: [3]inner{{j, 7 * j}, {j, 7 * j}, {1 - j, 7 * (1 - j)}}, M: 9 * k}
			d, err := restruct.Pack(binary.BigEndian, &v)
			var u outer
			if err == nil {
				err = restruct.Unpack(d, binary.BigEndian, &u)
			}
			if err != nil || !reflect.DeepEqual(u, v) || len(d) != int(1+3+j*2+(1-j)+k) {
				r.fail("names of nested structs: %+v becomes %x and %+v, %v", v, d, u, err)
			}
		}
	}
}
