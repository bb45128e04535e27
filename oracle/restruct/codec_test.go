package restruct_test

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"github.com/go-restruct/restruct"
)

// numbers enumerates a number of every width at every offset.
func numbers(r *runner, what string, signed, unsigned bool) {
	rnd := rand.New(rand.NewSource(seed() + 5))
	for r.more() {
		for _, k := range []reflect.Kind{reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64} {
			isInt := k <= reflect.Int64
			if isInt && !signed || !isInt && !unsigned {
				continue
			}
			w := kindWidth(k)
			for bits := 0; bits < w; bits++ {
				if isInt && w == 8 && bits != 0 {
					continue // known finding extend8
				}
				for off := 0; off < 8; off++ {
					if !r.more() {
						return
					}
					num := "uint"
					if isInt {
						num = "int"
					}
					a := &node{k: kNum, num: num, bin: k, native: kindTypes[k], bits: bits}
					if bits != 0 {
						a.tag = fmt.Sprintf("%s:%d", kindTypes[k], bits)
					}
					n := &node{k: kStruct}
					if off > 0 {
						p := &node{k: kNum, num: "uint", bin: reflect.Uint8, native: kindTypes[reflect.Uint8], bits: off, tag: fmt.Sprintf("uint8:%d", off)}
						n.fields = append(n.fields, newFld(p, 0))
					}
					n.fields = append(n.fields, newFld(a, len(n.fields)))
					n.fields = append(n.fields, newFld(&node{k: kNum, num: "uint", bin: reflect.Uint16, native: kindTypes[reflect.Uint16], bits: 11, tag: "uint16:11"}, len(n.fields)))
					n.finish()
					for _, o := range orders {
						v := reflect.New(n.native).Elem()
						(&gen{r: rnd}).value(n, v, nil, 0)
						r.trial(n, v, o, what, []byte{byte(rnd.Intn(256))})
					}
				}
			}
		}
	}
}

const genRule = "types and values generated from VERIF_SEED; a case is one value of one generated struct type compared with the reference; "

func TestVerifC01(t *testing.T) {
	r := newRunner(t, "every width of every integer type at every bit offset in both orders, random values")
	defer r.done()
	large(r)
	numbers(r, "p", true, true)
}

func TestVerifC02(t *testing.T) {
	r := newRunner(t, "every width of every integer type at every bit offset in both orders, random data, whole and truncated")
	defer r.done()
	lasts(r)
	constant(r)
	numbers(r, "urt", false, true)
}

func TestVerifC03(t *testing.T) {
	r := newRunner(t, "every width of every integer type at every bit offset in both orders, packed and unpacked")
	defer r.done()
	// the known finding, as the tests of the repository expect it
	var k struct {
		A int8 `struct:"int8:2"`
		B int8 `struct:"int8:2"`
		C int8 `struct:"int8:4"`
	}
	if err := restruct.Unpack([]byte{0x90}, binary.BigEndian, &k); err == nil && (k.A != -2 || k.B != 1) {
		fmt.Println("VERIF-KNOWN: extend8")
	}
	wides(r)
	numbers(r, "pu", true, true)
}

func TestVerifC04(t *testing.T) {
	r := newRunner(t, genRule+"fields with skips and blank fields at any bit offset")
	defer r.done()
	r.random(profile{bits: 8, skips: 6, blanks: 6, structs: 2, seqs: 1, maxFields: 5}, "pu", 2)
}

func TestVerifC05(t *testing.T) {
	r := newRunner(t, genRule+"sizes of all kinds of fields")
	defer r.done()
	outs(r)
	casts(r)
	oddities(r)
	wider(r)
	manyFields(r)
	bitsof(r)
	p := all
	r.random(p, "sp", 3)
}

func TestVerifC06(t *testing.T) {
	r := newRunner(t, genRule+"packing of all kinds of fields")
	defer r.done()
	outs(r)
	casts(r)
	oddities(r)
	wider(r)
	manyFields(r)
	bitsof(r)
	whiles(r)
	large(r)
	r.random(all, "p", 3)
}

func TestVerifC07(t *testing.T) {
	r := newRunner(t, genRule+"unpacking of all kinds of fields, from good, altered and truncated data")
	defer r.done()
	outs(r)
	casts(r)
	oddities(r)
	fresh(r)
	constant(r)
	large(r)
	bitsof(r)
	whiles(r)
	r.random(all, "urt", 3)
}

func TestVerifC08(t *testing.T) {
	r := newRunner(t, genRule+"byte orders at every level, with failing, empty and excluded fields")
	defer r.done()
	pointed(r)
	depths(r)
	r.random(profile{bits: 1, structs: 5, seqs: 3, ptrs: 2, ifs: 3, orders: 7, switches: 2, codecs: 2, counts: 2, maxFields: 4, aligned: true}, "put", 3)
}

func TestVerifC09(t *testing.T) {
	r := newRunner(t, genRule+"booleans in every binary type")
	defer r.done()
	r.random(profile{bools: 14, bits: 6, orders: 2, maxFields: 4}, "pur", 1)
}

func TestVerifC10(t *testing.T) {
	r := newRunner(t, genRule+"counted strings and slices")
	defer r.done()
	counts(r)
	pairs(r)
	// a length that disagrees with its expression
	for k := 0; k < 5; k++ {
		for l := 0; l < 5; l++ {
			r.cases++
			v := struct {
				N uint8
				S []uint16 `struct:"size=N"`
				T string   `struct:"size=N + 1"`
			}{uint8(k), make([]uint16, l), "abcdefg"[:k+1]}
			_, err := restruct.Pack(binary.BigEndian, &v)
			if (err == nil) != (k == l) {
				r.fail("Pack of %+v: error %v", v, err)
			}
			w := struct {
				N int16
				T string `struct:"size=N"`
			}{int16(k), "abcdefg"[:l]}
			_, err = restruct.Pack(binary.BigEndian, &w)
			if (err == nil) != (k == l) {
				r.fail("Pack of %+v: error %v", w, err)
			}
		}
	}
	r.random(profile{counts: 8, bits: 2, seqs: 1, structs: 2, skips: 1, orders: 1, maxFields: 3, aligned: true}, "pur", 2)
}

func TestVerifC11(t *testing.T) {
	r := newRunner(t, genRule+"switches, and switches that are not allowed")
	defer r.done()
	chosen(r)
	named(r)
	both(r)
	r.random(profile{switches: 10, structs: 1, bits: 1, orders: 1, skips: 1, maxFields: 3, aligned: true}, "spur", 2)
	if r.fails > 0 {
		return
	}
	type two struct {
		A uint8 `struct:"default"`
		B uint8 `struct:"case=1"`
		C uint8 `struct:"default"`
	}
	type plain struct {
		A uint8 `struct:"case=1"`
		B uint8
	}
	for _, k := range []uint8{0, 1, 2} {
		bad := []interface{}{
			&struct {
				K uint8
				S two `struct:"switch=K"`
			}{K: k},
			&struct {
				K uint8
				S uint8 `struct:"switch=K"`
			}{K: k},
		}
		if k != 1 {
			bad = append(bad, &struct {
				K uint8
				S plain `struct:"switch=K"`
			}{K: k})
		} else {
			bad = bad[1:]
		}
		for _, b := range bad {
			r.cases++
			if _, err := restruct.Pack(binary.BigEndian, b); err == nil {
				r.fail("Pack accepts %T %+v", b, b)
			}
			if _, err := restruct.SizeOf(b); err == nil {
				r.fail("SizeOf accepts %T %+v", b, b)
			}
			if err := restruct.Unpack([]byte{k, 0, 0, 0, 0}, binary.BigEndian, b); err == nil {
				r.fail("Unpack accepts %T %+v", b, b)
			}
		}
	}
	// the first of several equal cases; what is there is reset
	type sw struct {
		A *uint8 `struct:"case=1"`
		B uint8  `struct:"case=2"`
		C uint16 `struct:"case=2"`
		D uint32 `struct:"default"`
	}
	var x struct {
		K uint8
		S sw `struct:"switch=K"`
	}
	y := uint8(7)
	x.S = sw{&y, 1, 2, 3}
	if err := restruct.Unpack([]byte{2, 9, 9, 9, 9}, binary.BigEndian, &x); err != nil || x.S != (sw{B: 9}) {
		r.fail("Unpack of a switch: %v %+v", err, x.S)
	}
	x.S = sw{&y, 1, 2, 3}
	if err := restruct.Unpack([]byte{9, 9, 9, 9, 9}, binary.BigEndian, &x); err != nil || x.S != (sw{D: 0x09090909}) {
		r.fail("Unpack of a switch: %v %+v", err, x.S)
	}
}
