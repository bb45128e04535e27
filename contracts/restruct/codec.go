//go:build verif

package restruct

import (
	"errors"
	"math"
	"reflect"
	"strings"
)

// ---- custom codecs

func gvMethods(v reflect.Value, pick func(x interface{}) bool) bool {
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return false
	}
	return pick(v.Interface()) || v.CanAddr() && pick(v.Addr().Interface())
}

//gover:spec (*encoder).packer
//gover:props C16
//gover:opaque
//gover:reads v rh
func specPacker(e *encoder, v reflect.Value) (Packer, bool) {
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return nil, false
	}
	if p, ok := v.Interface().(Packer); ok {
		return p, true
	}
	if v.CanAddr() {
		p, ok := v.Addr().Interface().(Packer)
		return p, ok
	}
	return nil, false
}

//gover:spec (*decoder).unpacker
//gover:props C16
//gover:opaque
//gover:reads v rh
func specUnpacker(d *decoder, v reflect.Value) (Unpacker, bool) {
	if v.Kind() == reflect.Ptr && v.IsNil() {
		return nil, false
	}
	if p, ok := v.Interface().(Unpacker); ok {
		return p, true
	}
	if v.CanAddr() {
		p, ok := v.Addr().Interface().(Unpacker)
		return p, ok
	}
	return nil, false
}

// ---- booleans and numbers (C09)

// A bool is packed as 1 or 0, as all ones with variantbool, and with the roles
// exchanged with invertedbool; anything else as itself.
//
//gover:spec (*encoder).intFromField
//gover:props C09
//gover:notes C06
//gover:opaque
//gover:reads f.Flags v rh
func specIntFromField(e *encoder, f field, v reflect.Value) int64 {
	if v.Kind() != reflect.Bool {
		gvNote("C06")
		return v.Int()
	}
	on, off := int64(1), int64(0)
	if f.Flags&VariantBoolFlag != 0 {
		on = -1
	}
	if f.Flags&InvertedBoolFlag != 0 {
		if v.Bool() {
			return off
		}
		return on
	}
	if v.Bool() {
		return on
	}
	return off
}

//gover:spec (*encoder).uintFromField
//gover:props C09
//gover:notes C06
//gover:opaque
//gover:reads f.Flags v rh
func specUintFromField(e *encoder, f field, v reflect.Value) uint64 {
	if v.Kind() != reflect.Bool {
		gvNote("C06")
		return v.Uint()
	}
	on, off := uint64(1), uint64(0)
	if f.Flags&VariantBoolFlag != 0 {
		on = math.MaxUint64
	}
	if f.Flags&InvertedBoolFlag != 0 {
		if v.Bool() {
			return off
		}
		return on
	}
	if v.Bool() {
		return on
	}
	return off
}

//gover:spec (*decoder).setUint
//gover:props C09
//gover:notes C07
//gover:opaque
//gover:reads f.Flags v x rh
//gover:modifies rh
func specSetUint(d *decoder, f field, v reflect.Value, x uint64) {
	if v.Kind() != reflect.Bool {
		gvNote("C07")
		v.SetUint(x)
	} else if f.Flags&InvertedBoolFlag != 0 {
		v.SetBool(x == 0)
	} else {
		v.SetBool(x != 0)
	}
}

//gover:spec (*decoder).setInt
//gover:props C09
//gover:notes C07
//gover:opaque
//gover:reads f.Flags v x rh
//gover:modifies rh
func specSetInt(d *decoder, f field, v reflect.Value, x int64) {
	if v.Kind() != reflect.Bool {
		gvNote("C07")
		v.SetInt(x)
	} else if f.Flags&InvertedBoolFlag != 0 {
		v.SetBool(x == 0)
	} else {
		v.SetBool(x != 0)
	}
}

// A packed bool is unpacked as that bool: in every integer type, whose low n
// bits survive, and with either option.
//
//gover:lemma
//gover:props C09
//gover:pre gvPreBool
func lemmaBool(e *encoder, d *decoder, f field, b bool, n int) {
	v := reflect.ValueOf(b)
	u := specUintFromField(e, f, v)
	i := specIntFromField(e, f, v)
	un := u << uint(64-n) >> uint(64-n)
	in := i << uint(64-n) >> uint(64-n)
	// what setUint and setInt are given decides as it did before packing
	gvAssert(u == uint64(i))
	gvAssert((un != 0) == (u != 0))
	gvAssert((in != 0) == (i != 0))
	inv := f.Flags&InvertedBoolFlag != 0
	gvAssert((un != 0) != inv == b)
	gvAssert((in != 0) != inv == b)
}

func gvPreBool(e *encoder, d *decoder, f field, b bool, n int) { gvSplit(n, 1, 64) }

// ---- packing (C06 and its parts)

func gvWritableV(e *encoder, f field, v reflect.Value) bool {
	return e.bitCounter >= 0 && e.bitCounter <= 7
}

func gvReadableV(d *decoder, f field, v reflect.Value) bool { return d.bitCounter <= 7 }

//gover:spec (*encoder).skip
//gover:props C04
//gover:requires gvWritableV
func specSkipField(e *encoder, f field, v reflect.Value) { e.skipBits(e.fieldbits(f, v)) }

//gover:spec (*decoder).skip
//gover:props C04
//gover:requires gvReadableV
func specSkipFieldD(d *decoder, f field, v reflect.Value) { d.skipBits(d.fieldbits(f, v)) }

// One field is packed: links not at all, blank fields as padding, excluded
// fields not at all; otherwise in its byte order, which ends with the field,
// after its skip.
//
//gover:spec (*encoder).write
//gover:props C06
//gover:notes C04 C08 C10 C11 C16 C25
//gover:opaque
//gover:requires gvWritableV
//gover:ensures gvWritableV
//gover:reads e.buf e.stack e.allowexpr e.bitCounter e.order f v rh
//gover:modifies e.buf e.bitCounter e.bitSize rh
//gover:scratch e.bitSize e.sfields
func specWrite(e *encoder, f field, v reflect.Value) {
	if gvLink(&e.structstack, f, v) {
		return
	}
	if f.Name == "_" {
		gvNote("C04")
		e.skipBits(e.fieldbits(f, v))
		return
	}
	if !e.evalIf(f) {
		return
	}
	outer := e.order
	if f.Order != nil {
		gvNote("C08")
		e.order = f.Order
	}
	if f.Skip != 0 {
		gvNote("C04")
		e.skipBits(8 * f.Skip)
	}
	gvWriteValue(e, f, v)
	e.order = outer
}

// gvWriteValue packs the value of a field.
func gvWriteValue(e *encoder, f field, v reflect.Value) {
	if f.SwitchExpr != nil {
		gvNote("C11")
		e.switc(f, v, e.evalExpr(f.SwitchExpr))
		return
	}
	if p, ok := e.packer(v); ok {
		gvNote("C16")
		rest, err := p.Pack(e.buf, e.order)
		if err != nil {
			panic(err)
		}
		e.buf = rest
		return
	}
	e.bitSize = e.evalBits(f)
	k := f.BinaryType.Kind()
	if f.TIndex != -1 {
		// the count of another field
		gvNote("C10")
		counted := e.ancestor(0).Field(f.TIndex)
		switch k {
		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(int64(counted.Len()))
		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(uint64(counted.Len()))
		default:
			panic(errors.New("no count"))
		}
	}
	if f.OutExpr != nil {
		v0 := v
		v = addressable(reflect.ValueOf(e.evalExpr(f.OutExpr)))
		if k == reflect.Ptr {
			v = v0
		}
	}
	switch k {
	case reflect.Ptr:
		if !v.IsNil() {
			e.write(f.Elem(), v.Elem())
		}
	case reflect.Struct:
		gvNote("C25")
		e.push(v)
		fs := cachedFieldsFromStruct(f.BinaryType)
		for i := range fs {
			fv := v.Field(fs[i].Index)
			if fv.CanSet() {
				e.write(fs[i], fv)
			} else {
				gvNote("C04")
				e.skipBits(e.fieldbits(fs[i], fv))
			}
		}
		e.pop(v)
	case reflect.Array, reflect.Slice, reflect.String:
		nk := f.NativeType.Kind()
		if nk != reflect.Array && nk != reflect.Slice && nk != reflect.String {
			panic(errors.New("not a sequence"))
		}
		if f.SizeExpr != nil && nk != reflect.Array {
			gvNote("C10")
			if e.evalSize(f) != v.Len() {
				panic(errors.New("wrong length"))
			}
		}
		ef := f.Elem()
		n := v.Len()
		m := n
		if k == reflect.Array {
			m = f.BinaryType.Len()
		}
		for i := 0; i < n; i++ {
			e.write(ef, v.Index(i))
		}
		for i := n; i < m; i++ {
			e.write(ef, reflect.New(f.BinaryType.Elem()).Elem())
		}
	case reflect.Int8:
		gvNote("C09")
		e.write8(f, uint8(e.intFromField(f, v)))
	case reflect.Int16:
		gvNote("C09")
		e.write16(f, uint16(e.intFromField(f, v)))
	case reflect.Int, reflect.Int32:
		gvNote("C09")
		e.write32(f, uint32(e.intFromField(f, v)))
	case reflect.Int64:
		gvNote("C09")
		e.write64(f, uint64(e.intFromField(f, v)))
	case reflect.Bool, reflect.Uint8:
		gvNote("C09")
		e.write8(f, uint8(e.uintFromField(f, v)))
	case reflect.Uint16:
		gvNote("C09")
		e.write16(f, uint16(e.uintFromField(f, v)))
	case reflect.Uint, reflect.Uint32:
		gvNote("C09")
		e.write32(f, uint32(e.uintFromField(f, v)))
	case reflect.Uint64:
		gvNote("C09")
		e.write64(f, e.uintFromField(f, v))
	case reflect.Float32:
		e.write32(f, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		e.write64(f, math.Float64bits(v.Float()))
	case reflect.Complex64:
		c := v.Complex()
		e.write32(f, math.Float32bits(float32(real(c))))
		e.write32(f, math.Float32bits(float32(imag(c))))
	case reflect.Complex128:
		c := v.Complex()
		e.write64(f, math.Float64bits(real(c)))
		e.write64(f, math.Float64bits(imag(c)))
	}
}

func gvWritableOn(e *encoder, f field, v reflect.Value, on interface{}) bool {
	return gvWritableV(e, f, v)
}

//gover:spec (*encoder).switc
//gover:props C11
//gover:notes C06
//gover:opaque
//gover:requires gvWritableOn
//gover:ensures gvWritableOn
//gover:reads e.buf e.stack e.allowexpr e.bitCounter e.order f v on rh
//gover:modifies e.buf e.bitCounter e.bitSize rh
//gover:scratch e.bitSize e.sfields
func specSwitcE(e *encoder, f field, v reflect.Value, on interface{}) {
	gvNote("C06")
	if v.Kind() != reflect.Struct {
		panic(errors.New("no struct"))
	}
	fs := cachedFieldsFromStruct(f.BinaryType)
	var def *switchcase
	for i := 0; i < len(fs); i++ {
		c, cv := fs[i], v.Field(fs[i].Index)
		if c.Flags&DefaultFlag != 0 {
			if def != nil {
				panic(errors.New("two defaults"))
			}
			def = &switchcase{c, cv}
		} else if c.CaseExpr == nil {
			panic(errors.New("no case"))
		} else if caseEqual(e.evalExpr(c.CaseExpr), on) {
			e.write(c, cv)
			return
		}
	}
	if def != nil {
		e.write(def.f, def.v)
	}
}

// A value that can be set, equal to the given one.
//
//gover:spec addressable
//gover:props C06
//gover:opaque
//gover:reads val rh
//gover:modifies rh
func specAddressable(val reflect.Value) reflect.Value {
	if val.CanSet() {
		return val
	}
	n := reflect.New(val.Type()).Elem()
	n.Set(val)
	return n
}

// ---- unpacking (C07 and its parts)

func gvPreBytes(d *decoder, count int) { gvSplit(int(d.bitCounter), 0, 7) }

func gvReadableN(d *decoder, count int) bool { return d.bitCounter <= 7 }

func gvReadBytesN(d *decoder, count int, b []byte) bool { return d.bitCounter <= 7 }

// A number of bytes from the position on.
//
//gover:spec (*decoder).readBytes
//gover:props C02
//gover:notes C07
//gover:opaque
//gover:pre gvPreBytes
//gover:requires gvReadableN
//gover:ensures gvReadBytesN
//gover:reads d.buf d.bitCounter count
//gover:modifies d.buf d.bitCounter
func specReadBytes(d *decoder, count int) []byte {
	gvNote("C07")
	p := uint(d.bitCounter)
	x := d.buf[:count]
	if p == 0 {
		d.buf = d.buf[count:]
		return x
	}
	out := []byte{}
	for len(out) < count {
		out = append(out, d.buf[0]<<p|d.buf[1]>>(8-p))
		d.buf = d.buf[1:]
	}
	return out
}

func gvReadableFN(d *decoder, f field, count int) bool { return d.bitCounter <= 7 }

func gvReadStringN(d *decoder, f field, count int, s string) bool { return d.bitCounter <= 7 }

//gover:spec (*decoder).readString
//gover:props C07
//gover:opaque
//gover:requires gvReadableFN
//gover:ensures gvReadStringN
//gover:reads d.buf d.stack d.allowexpr d.bitCounter d.order d.sfields f count rh
//gover:modifies d.buf d.bitCounter d.bitSize rh
//gover:scratch d.bitSize
func specReadString(d *decoder, f field, count int) string {
	ef := f.Elem()
	if ef.BinaryType.Kind() == reflect.Uint8 {
		return string(d.readBytes(count))
	}
	v := reflect.ValueOf(make([]byte, count))
	for i := 0; i < count; i++ {
		d.read(ef, v.Index(i))
	}
	return string(v.Bytes())
}

// One field is unpacked: links not at all, blank fields as padding, excluded
// fields not at all; otherwise in its byte order, which ends with the field,
// after its skip.
//
//gover:spec (*decoder).read
//gover:props C07
//gover:notes C04 C08 C10 C11 C16 C25
//gover:opaque
//gover:requires gvReadableV
//gover:ensures gvReadableV
//gover:reads d.buf d.stack d.allowexpr d.bitCounter d.order d.sfields f v rh
//gover:modifies d.buf d.bitCounter d.bitSize rh
//gover:scratch d.bitSize
func specRead(d *decoder, f field, v reflect.Value) {
	if gvLink(&d.structstack, f, v) {
		return
	}
	if f.Name == "_" {
		gvNote("C04")
		d.skipBits(d.fieldbits(f, v))
		return
	}
	if !d.evalIf(f) {
		return
	}
	outer := d.order
	if f.Order != nil {
		gvNote("C08")
		d.order = f.Order
	}
	if f.Skip != 0 {
		gvNote("C04")
		d.skipBits(8 * f.Skip)
	}
	gvReadValue(d, f, v)
	d.order = outer
}

// gvReadValue unpacks the value of a field.
func gvReadValue(d *decoder, f field, v reflect.Value) {
	if f.SwitchExpr != nil {
		gvNote("C11")
		d.switc(f, v, d.evalExpr(f.SwitchExpr))
		return
	}
	if p, ok := d.unpacker(v); ok {
		gvNote("C16")
		rest, err := p.Unpack(d.buf, d.order)
		if err != nil {
			panic(err)
		}
		d.buf = rest
		return
	}
	d.bitSize = d.evalBits(f)
	n := d.evalSize(f)
	if n == 0 && f.SIndex != -1 {
		gvNote("C10")
		n = gvCount(d, f)
	}
	gvReadKind(d, f, v, n)
	if f.InExpr != nil {
		v.Set(reflect.ValueOf(d.evalExpr(f.InExpr)))
	}
}

// gvCount is the value of the field that counts the elements of a field.
func gvCount(d *decoder, f field) int {
	c := d.ancestor(0).Field(f.SIndex)
	for i := 0; i < len(d.sfields); i++ {
		if d.sfields[i].Index == f.SIndex {
			switch d.sfields[i].BinaryType.Kind() {
			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				return int(c.Int())
			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
				return int(c.Uint())
			}
			panic(errors.New("no count"))
		}
	}
	return 0
}

// gvReadElems unpacks the first n elements of a sequence.
func gvReadElems(d *decoder, ef field, v reflect.Value, n int) {
	for i := 0; i < n; i++ {
		d.read(ef, v.Index(i))
	}
}

func gvReadKind(d *decoder, f field, v reflect.Value, n int) {
	k, nk := f.BinaryType.Kind(), f.NativeType.Kind()
	switch k {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		d.read(f.Elem(), v.Elem())
	case reflect.Struct:
		gvNote("C25")
		outer := d.sfields
		d.push(v)
		fs := cachedFieldsFromStruct(f.BinaryType)
		d.sfields = fs
		for i := range fs {
			fv := v.Field(fs[i].Index)
			if fv.CanSet() {
				d.read(fs[i], fv)
			} else {
				gvNote("C04")
				d.skipBits(d.fieldbits(fs[i], fv))
			}
		}
		d.sfields = outer
		d.pop(v)
	case reflect.Array:
		n = f.BinaryType.Len()
		if nk == reflect.Slice {
			v.Set(reflect.MakeSlice(reflect.SliceOf(f.NativeType.Elem()), n, n))
		}
		switch nk {
		case reflect.String:
			s := d.readString(f, n)
			if z := strings.IndexByte(s, 0); z >= 0 {
				s = s[:z]
			}
			v.SetString(s)
		case reflect.Slice, reflect.Array:
			gvReadElems(d, f.Elem(), v, n)
		default:
			panic(errors.New("not a sequence"))
		}
	case reflect.Slice, reflect.String:
		gvNote("C10")
		if nk == reflect.String {
			v.SetString(d.readString(f, n))
			return
		}
		if nk != reflect.Array && nk != reflect.Slice {
			panic(errors.New("not a sequence"))
		}
		if f.WhileExpr != nil {
			ef := f.Elem()
			for i := 0; d.evalWhile(f); i++ {
				if nk == reflect.Array {
					d.read(ef, v.Index(i))
				} else {
					x := reflect.New(ef.NativeType).Elem()
					d.read(ef, x)
					v.Set(reflect.Append(v, x))
				}
			}
			return
		}
		if nk == reflect.Array {
			n = v.Len()
		} else {
			v.Set(reflect.MakeSlice(f.NativeType, n, n))
		}
		ef := f.Elem()
		if v.Kind() == reflect.Slice && ef.NativeType == reflect.TypeOf(byte(0)) && ef.BinaryType == ef.NativeType {
			v.SetBytes(d.readBytes(n))
		} else {
			gvReadElems(d, ef, v, n)
		}
	case reflect.Int8:
		gvNote("C09")
		d.setInt(f, v, int64(int8(d.read8(f, true))))
	case reflect.Int16:
		gvNote("C09")
		d.setInt(f, v, int64(int16(d.read16(f, true))))
	case reflect.Int, reflect.Int32:
		gvNote("C09")
		d.setInt(f, v, int64(int32(d.read32(f, true))))
	case reflect.Int64:
		gvNote("C09")
		d.setInt(f, v, int64(d.read64(f, true)))
	case reflect.Bool, reflect.Uint8:
		gvNote("C09")
		d.setUint(f, v, uint64(d.read8(f, false)))
	case reflect.Uint16:
		gvNote("C09")
		d.setUint(f, v, uint64(d.read16(f, false)))
	case reflect.Uint, reflect.Uint32:
		gvNote("C09")
		d.setUint(f, v, uint64(d.read32(f, false)))
	case reflect.Uint64:
		gvNote("C09")
		d.setUint(f, v, d.read64(f, false))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(d.read32(f, false))))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(d.read64(f, false)))
	case reflect.Complex64:
		re := float64(math.Float32frombits(d.read32(f, false)))
		im := float64(math.Float32frombits(d.read32(f, false)))
		v.SetComplex(complex(re, im))
	case reflect.Complex128:
		re := math.Float64frombits(d.read64(f, false))
		im := math.Float64frombits(d.read64(f, false))
		v.SetComplex(complex(re, im))
	}
}

func gvReadableOn(d *decoder, f field, v reflect.Value, on interface{}) bool {
	return d.bitCounter <= 7
}

// All cases are reset, then one is unpacked.
//
//gover:spec (*decoder).switc
//gover:props C11
//gover:notes C07
//gover:opaque
//gover:requires gvReadableOn
//gover:ensures gvReadableOn
//gover:reads d.buf d.stack d.allowexpr d.bitCounter d.order d.sfields f v on rh
//gover:modifies d.buf d.bitCounter d.bitSize rh
//gover:scratch d.bitSize
func specSwitcD(d *decoder, f field, v reflect.Value, on interface{}) {
	gvNote("C07")
	if v.Kind() != reflect.Struct {
		panic(errors.New("no struct"))
	}
	fs := cachedFieldsFromStruct(f.BinaryType)
	for i := 0; i < len(fs); i++ {
		cv := v.Field(fs[i].Index)
		if cv.CanSet() {
			cv.Set(reflect.Zero(cv.Type()))
		}
	}
	var def *switchcase
	for i := 0; i < len(fs); i++ {
		c, cv := fs[i], v.Field(fs[i].Index)
		if c.Flags&DefaultFlag != 0 {
			if def != nil {
				panic(errors.New("two defaults"))
			}
			def = &switchcase{c, cv}
		} else if c.CaseExpr == nil {
			panic(errors.New("no case"))
		} else if caseEqual(d.evalExpr(c.CaseExpr), on) {
			d.read(c, cv)
			return
		}
	}
	if def != nil {
		d.read(def.f, def.v)
	}
}
