package restruct_test

// Bounded stand-in: an independent, executable reading of the properties of
// packing, unpacking and sizing, run against the real code on generated types
// and values. It only uses the exported interface.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/go-restruct/restruct"
)

// ---- bits

type bitBuf struct {
	bits []byte
	pos  int
}

func imageBit(little bool, n, i int) uint {
	if !little {
		return uint(n - 1 - i)
	}
	base := i / 8 * 8
	w := n - base
	if w > 8 {
		w = 8
	}
	return uint(base + w - 1 - (i - base))
}

func (b *bitBuf) put(little bool, n int, x uint64) {
	for i := 0; i < n; i++ {
		b.bits = append(b.bits, byte(x>>imageBit(little, n, i)&1))
	}
}

func (b *bitBuf) skip(n int) { b.bits = append(b.bits, make([]byte, n)...) }

func (b *bitBuf) bytes() []byte {
	out := make([]byte, (len(b.bits)+7)/8)
	for i, v := range b.bits {
		out[i/8] |= v << uint(7-i%8)
	}
	return out
}

func bitsOf(data []byte) *bitBuf {
	b := &bitBuf{}
	for _, d := range data {
		for i := 7; i >= 0; i-- {
			b.bits = append(b.bits, d>>uint(i)&1)
		}
	}
	return b
}

var errShort = errors.New("short")

func (b *bitBuf) get(little bool, n int) uint64 {
	if b.pos+n > len(b.bits) {
		panic(errShort)
	}
	x := uint64(0)
	for i := 0; i < n; i++ {
		x |= uint64(b.bits[b.pos+i]) << imageBit(little, n, i)
	}
	b.pos += n
	return x
}

// ---- types

type nkind int

const (
	kNum nkind = iota
	kArr       // native array, binary array
	kSlice
	kFArr // native slice, binary array
	kCStr // native string, binary array of bytes
	kStr  // native string, counted
	kStruct
	kPtr
	kCodec
	kSwitch
	kIface // parent and root links
)

type node struct {
	k      nkind
	native reflect.Type
	tag    string // type expression of the tag
	num    string // int uint float complex bool
	bin    reflect.Kind
	bits   int
	elem   *node
	n      int
	fields []*fld
}

type fld struct {
	name   string
	n      *node
	order  int // 1 big 2 little
	skip   int
	ifs    int // index of the field that decides, -1 none
	ifval  int
	vb, ib bool
	blank  bool
	count  int // index of the field that counts this one, -1 none
	target int // index of the field this one counts, -1 none
	sizeof bool
	expr   string // size expression
	sw     int    // switch: index of the selecting field
	cas    int    // case value, -1 none
	def    bool
	parent bool
	counts bool // counts another field
	root   bool
	ident  string
}

func (f *fld) tagText(fs []*fld) string {
	var o []string
	t := f.n.tag
	if t != "" {
		o = append(o, t)
	}
	switch f.order {
	case 1:
		o = append(o, []string{"big", "msb", "network"}[len(f.name)%3])
	case 2:
		o = append(o, []string{"little", "lsb"}[len(f.name)%2])
	}
	if f.skip > 0 {
		o = append(o, fmt.Sprintf("skip=%d", f.skip))
	}
	if f.ifs >= 0 {
		if f.n.k != kSwitch && f.ifval%2 == 0 {
			o = append(o, fmt.Sprintf("if=%s > %d", fs[f.ifs].name, f.ifval))
		} else {
			o = append(o, fmt.Sprintf("if=%s > %d && true", fs[f.ifs].name, f.ifval))
		}
	}
	if f.vb {
		o = append(o, "variantbool")
	}
	if f.ib {
		o = append(o, "invertedbool")
	}
	if f.target >= 0 && f.sizeof {
		o = append(o, "sizeof="+fs[f.target].name)
	}
	if f.count >= 0 && f.expr == "" && !fs[f.count].sizeof {
		o = append(o, "sizefrom="+fs[f.count].name)
	}
	if f.expr != "" {
		o = append(o, "size="+f.expr)
	}
	if f.n.k == kSwitch {
		o = append(o, "switch="+fs[f.sw].name)
	}
	if f.cas >= 0 {
		o = append(o, fmt.Sprintf("case=%d", f.cas))
	}
	if f.def {
		o = append(o, "default")
	}
	if f.parent {
		o = append(o, "parent")
	}
	if f.root {
		o = append(o, "root")
	}
	return strings.Join(o, ",")
}

func (n *node) finish() {
	if n.k != kStruct && n.k != kSwitch {
		return
	}
	var sf []reflect.StructField
	for _, f := range n.fields {
		s := reflect.StructField{Name: f.name, Type: f.n.native}
		if t := f.tagText(n.fields); t != "" {
			s.Tag = reflect.StructTag("struct:" + strconv.Quote(t))
		}
		if f.blank {
			s.PkgPath = "x"
		}
		sf = append(sf, s)
	}
	n.native = reflect.StructOf(sf)
}

var kindTypes = map[reflect.Kind]reflect.Type{
	reflect.Bool: reflect.TypeOf(false), reflect.Int: reflect.TypeOf(int(0)), reflect.Int8: reflect.TypeOf(int8(0)), reflect.Int16: reflect.TypeOf(int16(0)),
	reflect.Int32: reflect.TypeOf(int32(0)), reflect.Int64: reflect.TypeOf(int64(0)), reflect.Uint: reflect.TypeOf(uint(0)), reflect.Uint8: reflect.TypeOf(uint8(0)),
	reflect.Uint16: reflect.TypeOf(uint16(0)), reflect.Uint32: reflect.TypeOf(uint32(0)), reflect.Uint64: reflect.TypeOf(uint64(0)), reflect.Float32: reflect.TypeOf(float32(0)),
	reflect.Float64: reflect.TypeOf(float64(0)), reflect.Complex64: reflect.TypeOf(complex64(0)), reflect.Complex128: reflect.TypeOf(complex128(0)),
}

func kindWidth(k reflect.Kind) int {
	switch k {
	case reflect.Bool, reflect.Int8, reflect.Uint8:
		return 8
	case reflect.Int16, reflect.Uint16:
		return 16
	case reflect.Int, reflect.Int32, reflect.Uint, reflect.Uint32, reflect.Float32:
		return 32
	case reflect.Int64, reflect.Uint64, reflect.Float64, reflect.Complex64:
		return 64
	case reflect.Complex128:
		return 128
	}
	return 0
}

// ---- reference: size, pack, unpack

type ctx struct {
	order binary.ByteOrder
	fs    []*fld
	v     reflect.Value // enclosing struct
	stack []reflect.Value
}

func (c ctx) little() bool { return c.order == binary.LittleEndian }

func (f *fld) present(c ctx) bool {
	if f.ifs < 0 {
		return true
	}
	x := c.v.Field(f.ifs)
	return intOf(x) > int64(f.ifval) || x.Kind() >= reflect.Uint && x.Kind() <= reflect.Uint64 && intOf(x) < 0
}

func intOf(v reflect.Value) int64 {
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			return 1
		}
		return 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	}
	return v.Int()
}

func (f *fld) pick(c ctx) *fld {
	x := intOf(c.v.Field(f.sw))
	for _, s := range f.n.fields {
		if s.cas >= 0 && int64(s.cas) == x {
			return s
		}
	}
	for _, s := range f.n.fields {
		if s.def {
			return s
		}
	}
	return nil
}

func fieldOf(n *node, v reflect.Value, f *fld) reflect.Value {
	for i, g := range n.fields {
		if g == f {
			return v.Field(i)
		}
	}
	panic("no field")
}

func (f *fld) size(v reflect.Value, c ctx) int {
	if f.parent || f.root {
		return 0
	}
	if !f.present(c) {
		return 0
	}
	s := f.skip * 8
	if f.n.k == kSwitch {
		if p := f.pick(c); p != nil {
			s += p.size(fieldOf(f.n, v, p), c)
		}
		return s
	}
	return s + f.n.size(v, c)
}

func (n *node) size(v reflect.Value, c ctx) int {
	switch n.k {
	case kNum:
		if n.bits != 0 {
			return n.total()
		}
		return kindWidth(n.bin)
	case kArr, kFArr:
		s := 0
		for i := 0; i < n.n; i++ {
			e := reflect.Zero(n.elem.native)
			if i < v.Len() {
				e = v.Index(i)
			}
			s += n.elem.size(e, c)
		}
		return s
	case kCStr:
		return 8 * n.n
	case kStr:
		return 8 * v.Len()
	case kSlice:
		s := 0
		for i := 0; i < v.Len(); i++ {
			s += n.elem.size(v.Index(i), c)
		}
		return s
	case kPtr:
		if v.IsNil() {
			return 0
		}
		return n.elem.size(v.Elem(), c)
	case kStruct:
		s := 0
		for i, f := range n.fields {
			s += f.size(v.Field(i), ctx{c.order, n.fields, v, nil})
		}
		return s
	case kCodec:
		return 24
	}
	panic("size")
}

func (f *fld) pack(w *bitBuf, v reflect.Value, c ctx) {
	if f.parent || f.root {
		return
	}
	if f.blank {
		w.skip(f.skip * 8)
		w.skip(f.n.size(v, c))
		return
	}
	if !f.present(c) {
		return
	}
	c.order = pickOrder(c.order, f.order)
	w.skip(f.skip * 8)
	if f.n.k == kSwitch {
		if p := f.pick(c); p != nil {
			p.pack(w, fieldOf(f.n, v, p), c)
		}
		return
	}
	if f.target >= 0 {
		n := c.v.Field(f.target).Len()
		nv := reflect.New(v.Type()).Elem()
		if nv.Kind() >= reflect.Uint && nv.Kind() <= reflect.Uint64 {
			nv.SetUint(uint64(n))
		} else {
			nv.SetInt(int64(n))
		}
		v = nv
	}
	f.n.pack(w, v, c, f)
}

func pickOrder(o binary.ByteOrder, f int) binary.ByteOrder {
	switch f {
	case 1:
		return binary.BigEndian
	case 2:
		return binary.LittleEndian
	}
	return o
}

// total gives the number of bits of both parts of a complex bit field.
func (n *node) total() int {
	if n.num == "complex" {
		return 2 * n.bits
	}
	return n.bits
}

func (n *node) width() int {
	w := kindWidth(n.bin)
	if n.num == "complex" {
		w /= 2
	}
	if n.bits != 0 {
		w = n.bits
	}
	return w
}

func (n *node) pack(w *bitBuf, v reflect.Value, c ctx, f *fld) {
	switch n.k {
	case kNum:
		switch n.num {
		case "bool":
			b := v.Bool()
			if f != nil && f.ib {
				b = !b
			}
			x := uint64(0)
			if b {
				x = 1
				if f != nil && f.vb {
					x = ^uint64(0)
				}
			}
			w.put(c.little(), n.width(), x)
		case "int":
			w.put(c.little(), n.width(), uint64(v.Int()))
		case "uint":
			w.put(c.little(), n.width(), v.Uint())
		case "float":
			w.put(c.little(), n.width(), floatBits(n.bin, v.Float()))
		case "complex":
			k := reflect.Float32
			if n.bin == reflect.Complex128 {
				k = reflect.Float64
			}
			w.put(c.little(), n.width(), floatBits(k, real(v.Complex())))
			w.put(c.little(), n.width(), floatBits(k, imag(v.Complex())))
		}
	case kArr, kFArr:
		for i := 0; i < n.n; i++ {
			e := reflect.New(n.elem.native).Elem()
			if i < v.Len() {
				e = v.Index(i)
			}
			n.elem.pack(w, e, c, nil)
		}
	case kCStr:
		s := v.String()
		for i := 0; i < n.n; i++ {
			x := byte(0)
			if i < len(s) {
				x = s[i]
			}
			w.put(false, 8, uint64(x))
		}
	case kStr:
		for _, x := range []byte(v.String()) {
			w.put(false, 8, uint64(x))
		}
	case kSlice:
		for i := 0; i < v.Len(); i++ {
			n.elem.pack(w, v.Index(i), c, nil)
		}
	case kPtr:
		if !v.IsNil() {
			n.elem.pack(w, v.Elem(), c, nil)
		}
	case kStruct:
		for i, sf := range n.fields {
			sf.pack(w, v.Field(i), ctx{c.order, n.fields, v, nil})
		}
	case kCodec:
		w.put(false, 8, marker(c.order))
		w.put(false, 16, v.Field(0).Uint())
	}
}

func marker(o binary.ByteOrder) uint64 {
	if o == binary.LittleEndian {
		return 'l'
	}
	return 'b'
}

func floatBits(k reflect.Kind, x float64) uint64 {
	if k == reflect.Float32 {
		return uint64(math.Float32bits(float32(x)))
	}
	return math.Float64bits(x)
}

func (f *fld) unpack(r *bitBuf, v reflect.Value, c ctx) {
	if f.parent || f.root {
		return
	}
	if f.blank {
		r.pos += f.skip * 8
		r.pos += f.n.size(v, c)
		return
	}
	if !f.present(c) {
		return
	}
	c.order = pickOrder(c.order, f.order)
	r.pos += f.skip * 8
	if f.n.k == kSwitch {
		v.Set(reflect.Zero(v.Type()))
		if p := f.pick(c); p != nil {
			p.unpack(r, fieldOf(f.n, v, p), c)
		}
		return
	}
	f.n.unpack(r, v, c, f)
}

const maxCount = 200

func (n *node) unpack(r *bitBuf, v reflect.Value, c ctx, f *fld) {
	switch n.k {
	case kNum:
		switch n.num {
		case "bool":
			b := r.get(c.little(), n.width()) != 0
			if f != nil && f.ib {
				b = !b
			}
			v.SetBool(b)
		case "int":
			w := n.width()
			x := int64(r.get(c.little(), w)<<uint(64-w)) >> uint(64-w)
			v.SetInt(x)
		case "uint":
			v.SetUint(r.get(c.little(), n.width()))
		case "float":
			v.SetFloat(bitsFloat(n.bin, r.get(c.little(), n.width())))
		case "complex":
			k := reflect.Float32
			if n.bin == reflect.Complex128 {
				k = reflect.Float64
			}
			re := bitsFloat(k, r.get(c.little(), n.width()))
			im := bitsFloat(k, r.get(c.little(), n.width()))
			v.SetComplex(complex(re, im))
		}
	case kArr:
		for i := 0; i < n.n; i++ {
			n.elem.unpack(r, v.Index(i), c, nil)
		}
	case kFArr:
		v.Set(reflect.MakeSlice(v.Type(), n.n, n.n))
		for i := 0; i < n.n; i++ {
			n.elem.unpack(r, v.Index(i), c, nil)
		}
	case kCStr:
		var b []byte
		for i := 0; i < n.n; i++ {
			b = append(b, byte(r.get(false, 8)))
		}
		if i := strings.IndexByte(string(b), 0); i >= 0 {
			b = b[:i]
		}
		v.SetString(string(b))
	case kStr, kSlice:
		cnt := 0
		if f != nil && f.count >= 0 {
			cnt = int(intOf(c.v.Field(f.count)))
			if f.expr != "" {
				cnt += len(f.expr) - len(strings.TrimSuffix(f.expr, " + 1")) - 3
				if !strings.HasSuffix(f.expr, " + 1") {
					cnt += 3
				}
			}
		}
		if cnt < 0 || cnt > maxCount {
			panic(errHuge)
		}
		if n.k == kStr {
			var b []byte
			for i := 0; i < cnt; i++ {
				b = append(b, byte(r.get(false, 8)))
			}
			v.SetString(string(b))
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), cnt, cnt))
		for i := 0; i < cnt; i++ {
			n.elem.unpack(r, v.Index(i), c, nil)
		}
	case kPtr:
		v.Set(reflect.New(n.elem.native))
		n.elem.unpack(r, v.Elem(), c, nil)
	case kStruct:
		for i, sf := range n.fields {
			sf.unpack(r, v.Field(i), ctx{c.order, n.fields, v, nil})
		}
	case kCodec:
		m := r.get(false, 8)
		if m != marker(c.order) {
			panic(errCodec)
		}
		v.Field(0).SetUint(r.get(false, 16))
	}
}

var errHuge = errors.New("huge")
var errCodec = errors.New("codec: wrong order")

func bitsFloat(k reflect.Kind, x uint64) float64 {
	if k == reflect.Float32 {
		return float64(math.Float32frombits(uint32(x)))
	}
	return math.Float64frombits(x)
}

// ---- custom codec

type codec struct{ V uint16 }

func (c *codec) SizeOf() int { return 3 }

func (c *codec) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0] = byte(marker(order))
	buf[1], buf[2] = byte(c.V>>8), byte(c.V)
	return buf[3:], nil
}

func (c *codec) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if len(buf) < 3 {
		return nil, errShort
	}
	if buf[0] != byte(marker(order)) {
		return nil, errCodec
	}
	c.V = uint16(buf[1])<<8 | uint16(buf[2])
	return buf[3:], nil
}

// the same by value
type vcodec struct{ V uint16 }

func (c vcodec) SizeOf() int { return 3 }

func (c vcodec) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	return (&codec{c.V}).Pack(buf, order)
}

func (c *vcodec) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	return (*codec)(c).Unpack(buf, order)
}

// ---- generation

type profile struct {
	bits, floats, bools, seqs, strs, structs, ptrs, codecs, switches, ifs, orders, skips, blanks, counts int // chances in 16
	maxFields                                                                                            int
	aligned                                                                                              bool
}

type gen struct {
	r   *rand.Rand
	p   profile
	seq int
}

func (g *gen) is(n int) bool { return g.r.Intn(16) < n }

func (g *gen) num(inField bool) (*node, bool, bool) {
	n := &node{k: kNum}
	ints := []reflect.Kind{reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int}
	uints := []reflect.Kind{reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint}
	switch {
	case g.is(g.p.bools):
		n.num = "bool"
		n.native = kindTypes[reflect.Bool]
		n.bin = reflect.Bool
		if inField && g.r.Intn(3) > 0 {
			n.bin = append(ints, uints...)[g.r.Intn(10)]
		}
	case g.is(g.p.floats):
		n.num = "float"
		n.bin = []reflect.Kind{reflect.Float32, reflect.Float64}[g.r.Intn(2)]
		n.native = kindTypes[n.bin]
		if g.r.Intn(3) == 0 {
			n.num = "complex"
			n.bin = []reflect.Kind{reflect.Complex64, reflect.Complex128}[g.r.Intn(2)]
			n.native = kindTypes[n.bin]
		}
	case g.r.Intn(2) == 0:
		n.num = "int"
		n.bin = ints[g.r.Intn(5)]
		n.native = kindTypes[n.bin]
		if inField && g.r.Intn(3) == 0 {
			n.native = kindTypes[ints[g.r.Intn(5)]]
		}
	default:
		n.num = "uint"
		n.bin = uints[g.r.Intn(5)]
		n.native = kindTypes[n.bin]
		if inField && g.r.Intn(3) == 0 {
			n.native = kindTypes[uints[g.r.Intn(5)]]
		}
	}
	if inField && n.native.Kind() != n.bin {
		n.tag = kindTypes[n.bin].String()
	}
	if inField && g.is(g.p.bits) && n.bin != reflect.Float64 && n.bin != reflect.Bool {
		w := kindWidth(n.bin)
		if n.num == "complex" {
			// Each part has the given number of bits.
			w /= 2
		}
		lim := w - 1
		// int:n and uint:n are checked against 64 bits
		n.bits = 1 + g.r.Intn(lim)
		if w == 8 && (n.num == "int" || n.num == "bool") && n.bin == reflect.Int8 {
			n.bits = 0 // known finding extend8
		}
		if n.bits != 0 {
			n.tag = fmt.Sprintf("%s:%d", kindTypes[n.bin], n.bits)
		}
	}
	return n, g.r.Intn(3) == 0 && n.num == "bool", g.r.Intn(3) == 0 && n.num == "bool"
}

func (g *gen) elem(depth int) *node {
	for {
		n := g.node(depth, false)
		if n.k != kStr && n.k != kSlice && n.k != kFArr && n.k != kCStr && n.k != kSwitch {
			return n
		}
	}
}

func (g *gen) node(depth int, inField bool) *node {
	if depth > 0 {
		switch {
		case g.is(g.p.structs):
			return g.strct(depth-1, kStruct)
		case g.is(g.p.seqs):
			e := g.elem(depth - 1)
			k := g.r.Intn(4)
			n := &node{k: kArr, elem: e, n: k, native: reflect.ArrayOf(k, e.native)}
			if inField && g.r.Intn(3) == 0 && e.k == kNum && e.native.Kind() == e.bin {
				n.k = kFArr
				n.native = reflect.SliceOf(e.native)
				n.tag = fmt.Sprintf("[%d]%s", k, e.native)
			}
			return n
		case g.is(g.p.ptrs):
			e := g.elem(depth - 1)
			return &node{k: kPtr, elem: e, native: reflect.PtrTo(e.native)}
		}
	}
	if inField && g.is(g.p.strs) {
		k := g.r.Intn(5)
		return &node{k: kCStr, n: k, native: reflect.TypeOf(""), tag: fmt.Sprintf("[%d]%s", k, []string{"byte", "uint8"}[g.r.Intn(2)])}
	}
	if g.is(g.p.codecs) && g.p.aligned {
		if g.r.Intn(2) == 0 {
			return &node{k: kCodec, native: reflect.TypeOf(codec{})}
		}
		return &node{k: kCodec, native: reflect.TypeOf(vcodec{})}
	}
	n, _, _ := g.num(inField)
	return n
}

func newFld(n *node, i int) *fld {
	return &fld{name: fmt.Sprintf("F%d", i), n: n, ifs: -1, count: -1, target: -1, cas: -1}
}

func (g *gen) decorate(f *fld, i int, fs []*fld) {
	if g.is(g.p.orders) {
		f.order = 1 + g.r.Intn(2)
	}
	if g.is(g.p.skips) {
		f.skip = 1 + g.r.Intn(3)
	}
	if i > 0 && g.is(g.p.ifs) {
		j := g.r.Intn(i)
		if fs[j].n.k == kNum && (fs[j].n.num == "int" || fs[j].n.num == "uint") && !fs[j].blank && !fs[j].counts && fs[j].name != "_" {
			f.ifs, f.ifval = j, g.r.Intn(3)
		}
	}
	if f.n.k == kNum && f.n.num == "bool" {
		f.vb, f.ib = g.r.Intn(3) == 0, g.r.Intn(3) == 0
	}
}

func (g *gen) strct(depth int, k nkind) *node {
	n := &node{k: k}
	m := 1 + g.r.Intn(g.p.maxFields)
	pend := 0
	for i := 0; i < m; i++ {
		switch {
		case g.is(g.p.counts):
			// counting field, maybe something in between, and the sequence
			cn, _, _ := g.num(true)
			for cn.num != "int" && cn.num != "uint" || cn.bin == reflect.Int || cn.bin == reflect.Uint || cn.bits != 0 && cn.bits < 5 || cn.native.Kind() != cn.bin {
				cn, _, _ = g.num(true)
			}
			cf := newFld(cn, len(n.fields))
			g.decorate(cf, len(n.fields), n.fields)
			cf.ifs, cf.counts = -1, true
			ci := len(n.fields)
			n.fields = append(n.fields, cf)
			if g.p.aligned && cn.bits%8 != 0 {
				g.align(n, cn.bits)
			}
			if g.r.Intn(2) == 0 {
				f := newFld(g.node(depth, true), len(n.fields))
				g.decorate(f, len(n.fields), n.fields)
				n.fields = append(n.fields, f)
				if g.p.aligned && f.n.total()%8 != 0 {
					f.ifs = -1
					g.align(n, f.n.total())
				}
			}
			var sn *node
			if g.is(6) {
				sn = &node{k: kStr, native: reflect.TypeOf("")}
			} else {
				e := g.elem(depth)
				sn = &node{k: kSlice, elem: e, native: reflect.SliceOf(e.native)}
			}
			sf := newFld(sn, len(n.fields))
			g.decorate(sf, len(n.fields), n.fields)
			sf.count = ci
			switch g.r.Intn(3) {
			case 0:
				cf.target, cf.sizeof = len(n.fields), true
			case 1:
				cf.target = len(n.fields)
			default:
				sf.expr = cf.name
				if g.r.Intn(2) == 0 {
					sf.expr += " + 1"
				}
			}
			n.fields = append(n.fields, sf)
		case g.is(g.p.switches) && depth > 0 && k == kStruct:
			sel, _, _ := g.num(true)
			for sel.num != "int" && sel.num != "uint" {
				sel, _, _ = g.num(true)
			}
			sf := newFld(sel, len(n.fields))
			si := len(n.fields)
			n.fields = append(n.fields, sf)
			if g.p.aligned && sel.bits%8 != 0 {
				g.align(n, sel.bits)
			}
			sw := &node{k: kSwitch}
			for j := 0; j < 1+g.r.Intn(3); j++ {
				cf := newFld(g.node(depth-1, true), j)
				if cf.n.total()%8 != 0 {
					cf.n.bits = 0
					cf.n.tag = kindTypes[cf.n.bin].String()
				}
				if g.is(g.p.orders) {
					cf.order = 1 + g.r.Intn(2)
				}
				cf.cas = g.r.Intn(3)
				sw.fields = append(sw.fields, cf)
			}
			if g.r.Intn(2) == 0 {
				df := newFld(g.node(depth-1, true), len(sw.fields))
				if df.n.total()%8 != 0 {
					df.n.bits = 0
					df.n.tag = kindTypes[df.n.bin].String()
				}
				df.def = true
				at := g.r.Intn(len(sw.fields) + 1)
				sw.fields = append(sw.fields[:at], append([]*fld{df}, sw.fields[at:]...)...)
			}
			sw.finish()
			f := newFld(sw, len(n.fields))
			f.sw = si
			if g.is(g.p.skips) {
				f.skip = 1
			}
			if g.is(g.p.orders) {
				f.order = 1 + g.r.Intn(2)
			}
			n.fields = append(n.fields, f)
		case g.is(g.p.blanks):
			bn, _, _ := g.num(true)
			f := newFld(bn, len(n.fields))
			f.name, f.blank = "_", true
			if g.r.Intn(4) == 0 {
				f.n = &node{k: kArr, n: 3, elem: &node{k: kNum, num: "uint", bin: reflect.Uint8, native: kindTypes[reflect.Uint8]}, native: reflect.TypeOf([3]byte{})}
			}
			if g.is(g.p.skips) {
				f.skip = 1
			}
			n.fields = append(n.fields, f)
			if g.p.aligned && f.n.total()%8 != 0 {
				g.align(n, f.n.total())
			}
		default:
			f := newFld(g.node(depth, true), len(n.fields))
			g.decorate(f, len(n.fields), n.fields)
			n.fields = append(n.fields, f)
			if g.p.aligned && f.n.total()%8 != 0 {
				f.ifs = -1
				g.align(n, f.n.total())
			}
		}
	}
	_ = pend
	n.finish()
	return n
}

// align fills the byte up.
func (g *gen) align(n *node, bits int) {
	left := (8 - bits%8) % 8
	if left == 0 {
		return
	}
	a := &node{k: kNum, num: "uint", bin: reflect.Uint8, native: kindTypes[reflect.Uint8], bits: left, tag: fmt.Sprintf("uint8:%d", left)}
	f := newFld(a, len(n.fields))
	n.fields = append(n.fields, f)
}

func (g *gen) value(n *node, v reflect.Value, fs []*fld, self int) {
	switch n.k {
	case kNum:
		switch n.num {
		case "bool":
			v.SetBool(g.r.Intn(2) == 0)
		case "int":
			if g.r.Intn(2) == 0 {
				v.SetInt(int64(g.r.Intn(5)) - 1)
			} else {
				v.SetInt(int64(g.r.Uint64()))
			}
		case "uint":
			if g.r.Intn(2) == 0 {
				v.SetUint(uint64(g.r.Intn(4)))
			} else {
				v.SetUint(g.r.Uint64())
			}
		case "float":
			v.SetFloat(float64(float32(g.r.NormFloat64())))
		case "complex":
			v.SetComplex(complex(float64(float32(g.r.NormFloat64())), float64(float32(g.r.NormFloat64()))))
		}
	case kArr:
		for i := 0; i < n.n; i++ {
			g.value(n.elem, v.Index(i), nil, 0)
		}
	case kFArr, kSlice:
		k := g.r.Intn(4)
		if n.k == kFArr {
			k = g.r.Intn(n.n + 1)
		}
		v.Set(reflect.MakeSlice(v.Type(), k, k))
		for i := 0; i < k; i++ {
			g.value(n.elem, v.Index(i), nil, 0)
		}
	case kCStr, kStr:
		k := g.r.Intn(4)
		if n.k == kCStr {
			k = g.r.Intn(n.n + 1)
		}
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(1 + g.r.Intn(255))
			if n.k == kStr && g.r.Intn(5) == 0 {
				b[i] = 0
			}
		}
		v.SetString(string(b))
	case kPtr:
		if g.r.Intn(4) > 0 {
			v.Set(reflect.New(n.elem.native))
			g.value(n.elem, v.Elem(), nil, 0)
		}
	case kStruct, kSwitch:
		for i, f := range n.fields {
			if !f.blank && !f.parent && !f.root {
				g.value(f.n, v.Field(i), n.fields, i)
			}
		}
		// a size expression has to agree
		for i, f := range n.fields {
			if f.count >= 0 && f.expr != "" {
				k := v.Field(i).Len()
				if strings.HasSuffix(f.expr, " + 1") {
					k--
				}
				if k < 0 {
					// one element at least
					s := v.Field(i)
					if s.Kind() == reflect.String {
						s.SetString("x")
					} else {
						s.Set(reflect.MakeSlice(s.Type(), 1, 1))
						g.value(f.n.elem, s.Index(0), nil, 0)
					}
					k = 0
				}
				cv := v.Field(f.count)
				if cv.Kind() >= reflect.Uint && cv.Kind() <= reflect.Uint64 {
					cv.SetUint(uint64(k))
				} else {
					cv.SetInt(int64(k))
				}
			}
		}
	case kCodec:
		v.Field(0).SetUint(uint64(g.r.Intn(65536)))
	}
}

// ---- running

type runner struct {
	t     *testing.T
	cases int
	fails int
	start time.Time
	limit time.Duration
}

func newRunner(t *testing.T, rule string) *runner {
	restruct.EnableExprBeta()
	r := &runner{t: t, start: time.Now(), limit: 12 * time.Second}
	if os.Getenv("VERIF_TIER") == "thorough" {
		r.limit = 240 * time.Second
	}
	fmt.Println("VERIF-RULE: " + rule)
	return r
}

func seed() int64 {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return s
}

func (r *runner) more() bool { return r.fails < 3 && time.Since(r.start) < r.limit }

func (r *runner) fail(format string, a ...interface{}) {
	r.fails++
	if r.fails <= 3 {
		fmt.Println("VERIF-FAIL: " + strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " "))
	}
	r.t.Fail()
}

func (r *runner) done() { fmt.Printf("VERIF-CASES: %d\n", r.cases) }

func show(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 700 {
		s = s[:700] + "..."
	}
	return s
}

func safe(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// equal compares decoded values; nil and empty sequences are the same.
func equal(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return equal(reflect.ValueOf(real(x)), reflect.ValueOf(real(y))) && equal(reflect.ValueOf(imag(x)), reflect.ValueOf(imag(y)))
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Slice:
		if !v.IsNil() {
			n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
			for i := 0; i < v.Len(); i++ {
				n.Index(i).Set(clone(v.Index(i)))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i)))
		}
	case reflect.Ptr:
		if !v.IsNil() {
			n.Set(reflect.New(v.Type().Elem()))
			n.Elem().Set(clone(v.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(clone(v.Field(i)))
			}
		}
	}
	return n
}

// counted fills in the counting fields, as packing does.
func counted(n *node, v reflect.Value) {
	switch n.k {
	case kStruct:
		c := ctx{nil, n.fields, v, nil}
		for i, f := range n.fields {
			if f.blank || f.parent || f.root || !f.present(c) {
				continue
			}
			if f.target >= 0 {
				k := v.Field(f.target).Len()
				if x := v.Field(i); x.Kind() >= reflect.Uint && x.Kind() <= reflect.Uint64 {
					x.SetUint(uint64(k))
				} else {
					x.SetInt(int64(k))
				}
			}
			if f.n.k == kSwitch {
				if p := f.pick(c); p != nil {
					counted(p.n, fieldOf(f.n, v.Field(i), p))
				}
				continue
			}
			counted(f.n, v.Field(i))
		}
	case kArr, kSlice, kFArr:
		for i := 0; i < v.Len(); i++ {
			counted(n.elem, v.Index(i))
		}
	case kPtr:
		if !v.IsNil() {
			counted(n.elem, v.Elem())
		}
	}
}

// trial packs, sizes and unpacks one value and compares with the reference.
func (r *runner) trial(n *node, v reflect.Value, order binary.ByteOrder, what string, extra []byte) {
	r.cases++
	ref := &bitBuf{}
	c := ctx{order: order}
	n.pack(ref, v, c, nil)
	want := ref.bytes()
	typ := n.native.String()
	src := clone(v)
	if strings.Contains(what, "s") {
		var got, gotb int
		var err, errb error
		if p := safe(func() {
			got, err = restruct.SizeOf(v.Addr().Interface())
			gotb, errb = restruct.BitSize(v.Addr().Interface())
		}); p != nil || err != nil || errb != nil {
			r.fail("SizeOf of %s in %s: panic %v, errors %v %v", show(v.Interface()), typ, p, err, errb)
			return
		}
		if wb := n.size(v, c); got != (wb+7)/8 || gotb != wb {
			r.fail("SizeOf %d and BitSize %d of %s in %s, not %d and %d", got, gotb, show(v.Interface()), typ, (wb+7)/8, wb)
			return
		}
	}
	if strings.Contains(what, "p") {
		var got []byte
		var err error
		if p := safe(func() { got, err = restruct.Pack(order, v.Addr().Interface()) }); p != nil || err != nil {
			r.fail("Pack(%v) of %s in %s: panic %v, error %v", order, show(src.Interface()), typ, p, err)
			return
		}
		if string(got) != string(want) {
			r.fail("Pack(%v) of %s in %s yields %x, not %x", order, show(src.Interface()), typ, got, want)
			return
		}
		counted(n, src)
		if !equal(src, v) {
			r.fail("Pack(%v) changed %s to %s in %s", order, show(src.Interface()), show(v.Interface()), typ)
			return
		}
	}
	if strings.Contains(what, "u") {
		data := append(append([]byte(nil), want...), extra...)
		if strings.Contains(what, "r") {
			// anything
			for i := range data {
				if len(extra) > 0 && extra[0]%2 == 0 {
					data[i] ^= extra[i%len(extra)]
				}
			}
		}
		r.unpack(n, data, order)
		if len(want) > 0 && strings.Contains(what, "t") {
			cut := int(uint(len(extra)*7+r.cases) % uint(len(want)))
			r.unpack(n, append([]byte(nil), want[:cut]...), order)
		}
	}
}

func (r *runner) unpack(n *node, data []byte, order binary.ByteOrder) {
	typ := n.native.String()
	wv := reflect.New(n.native).Elem()
	rb := bitsOf(data)
	rp := safe(func() { n.unpack(rb, wv, ctx{order: order}, nil) })
	if rp == errHuge {
		return
	}
	if rp != nil && rp != errShort && rp != errCodec {
		panic(rp)
	}
	gv := reflect.New(n.native)
	in := append([]byte(nil), data...)
	var err error
	if p := safe(func() { err = restruct.Unpack(in, order, gv.Interface()) }); p != nil {
		r.fail("Unpack(%x, %v) to %s panics: %v", data, order, typ, p)
		return
	}
	if string(in) != string(data) {
		r.fail("Unpack(%x, %v) to %s changes the data to %x", data, order, typ, in)
		return
	}
	if (rp != nil) != (err != nil) {
		if rp == nil && rb.pos > len(rb.bits) {
			return // padding that is not there
		}
		r.fail("Unpack(%x, %v) to %s: error %v, but the data are %v", data, order, typ, err, map[bool]string{true: "bad", false: "good"}[rp != nil])
		return
	}
	if rp == nil && !equal(wv, gv.Elem()) {
		r.fail("Unpack(%x, %v) to %s yields %s, not %s", data, order, typ, show(gv.Elem().Interface()), show(wv.Interface()))
	}
}

var orders = []binary.ByteOrder{binary.BigEndian, binary.LittleEndian}

// random runs trials of generated types.
func (r *runner) random(p profile, what string, depth int) {
	rnd := rand.New(rand.NewSource(seed()*1000003 + 17))
	for r.more() {
		g := &gen{r: rnd, p: p}
		if g.p.aligned && rnd.Intn(4) == 0 {
			g.p.aligned, g.p.codecs, g.p.strs = false, 0, g.p.strs
		}
		var n *node
		if pn := safe(func() { n = g.strct(depth, kStruct) }); pn != nil {
			panic(pn)
		}
		for k := 0; k < 4 && r.more(); k++ {
			v := reflect.New(n.native).Elem()
			g.value(n, v, nil, 0)
			extra := make([]byte, rnd.Intn(4))
			rnd.Read(extra)
			order := binary.ByteOrder(binary.BigEndian)
			if rnd.Intn(2) == 0 {
				order = binary.LittleEndian
			}
			if os.Getenv("VERIF_AT") != "" {
				fmt.Println("VERIF-AT:", n.native)
			}
			r.trial(n, v, order, what, extra)
		}
	}
}

var all = profile{bits: 4, floats: 2, bools: 2, seqs: 2, strs: 1, structs: 2, ptrs: 1, codecs: 1, switches: 1, ifs: 2, orders: 2, skips: 1, blanks: 1, counts: 2, maxFields: 5, aligned: true}
