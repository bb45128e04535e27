//go:build verif

package restruct

import "encoding/binary"

// ---- packing and unpacking of numbers (C01, C02, C03)

// gvFieldBits is the width of a number in the output.
func gvFieldBits(bitSize, width int) int {
	if bitSize == 0 {
		return width
	}
	return bitSize
}

// gvImageBit says which bit of an n-bit number is output bit i. Big endian:
// the most significant bit first. Little endian: the least significant byte
// first, each byte - and the partial one at the end - most significant bit
// first.
func gvImageBit(little bool, n, i int) uint {
	if !little {
		return uint(n - 1 - i)
	}
	base := i / 8 * 8
	w := n - base
	if w > 8 {
		w = 8
	}
	return uint(base + w - 1 - (i - base))
}

func gvSetBit(b byte, bit int, value uint64) byte {
	s := uint(7 - bit)
	return b&^(1<<s) | byte(value&1)<<s
}

func gvGetBit(b byte, bit int) uint64 {
	return uint64(b>>uint(7-bit)) & 1
}

// gvPut is the contract of packing an n-bit number: exactly the bits from the
// write position on are set to its image, and the position moves by n bits. A
// number that does not fit is never packed.
func gvPut(e *encoder, width int, x uint64) {
	n := gvFieldBits(e.bitSize, width)
	little := e.order == binary.LittleEndian
	p := e.bitCounter
	if n > width || (p+n+7)/8 > len(e.buf) {
		panic("does not fit")
	}
	for i := 0; i < n; i++ {
		k := (p + i) / 8
		e.buf[k] = gvSetBit(e.buf[k], (p+i)%8, x>>gvImageBit(little, n, i))
	}
	e.buf = e.buf[(p+n)/8:]
	e.bitCounter = (p + n) % 8
}

// gvGet is the contract of unpacking an n-bit number.
func gvGet(d *decoder, width int) uint64 {
	n := gvFieldBits(d.bitSize, width)
	little := d.order == binary.LittleEndian
	p := int(d.bitCounter)
	if n > width || (p+n+7)/8 > len(d.buf) {
		panic("does not fit")
	}
	x := uint64(0)
	for i := 0; i < n; i++ {
		x |= gvGetBit(d.buf[(p+i)/8], (p+i)%8) << gvImageBit(little, n, i)
	}
	d.buf = d.buf[(p+n)/8:]
	d.bitCounter = uint8((p + n) % 8)
	return x
}

// The pre-state of packing: the position is within a byte, the bits from the
// position on are zero, and the order is one of the two orders. A width beyond
// that of the type is refused.
func gvPutPre(e *encoder, width int, little bool) {
	if e.bitSize <= width {
		gvSplit(e.bitSize, 0, width)
	}
	gvSplit(e.bitCounter, 0, 7)
	if little {
		e.order = binary.LittleEndian
	} else {
		e.order = binary.BigEndian
	}
	gvZeroBuf(e.buf)
	if len(e.buf) > 0 {
		e.buf[0] = gvAnyByte("pending") &^ (0xff >> uint(e.bitCounter))
	}
}

func gvGetPre(d *decoder, width int, little bool) {
	if d.bitSize <= width {
		gvSplit(d.bitSize, 0, width)
	}
	gvSplit(int(d.bitCounter), 0, 7)
	if little {
		d.order = binary.LittleEndian
	} else {
		d.order = binary.BigEndian
	}
}

func gvPre8(e *encoder, f field, x uint8)   { gvPutPre(e, 8, gvAnyByte("order") == 0) }
func gvPre16(e *encoder, f field, x uint16) { gvPutPre(e, 16, gvAnyByte("order") == 0) }
func gvPre32(e *encoder, f field, x uint32) { gvPutPre(e, 32, gvAnyByte("order") == 0) }
func gvPre64(e *encoder, f field, x uint64) { gvPutPre(e, 64, gvAnyByte("order") == 0) }

// The position is within a byte; it stays there.
func gvWritableE(e *encoder) bool {
	return e.bitCounter >= 0 && e.bitCounter <= 7 && e.bitSize >= 0
}
func gvReadableD(d *decoder) bool { return d.bitCounter <= 7 && d.bitSize >= 0 }

func gvWritableS8(e *encoder, f field, x int8) bool            { return gvWritableE(e) }
func gvWritable8(e *encoder, f field, x uint8) bool            { return gvWritableE(e) }
func gvWasRead8(d *decoder, f field, ext bool, x uint8) bool   { return gvReadableD(d) }
func gvWidth8(d *decoder, x uint8, signed bool) bool           { return gvMasked(d.bitSize, 8, uint64(x)) }
func gvWritableS16(e *encoder, f field, x int16) bool          { return gvWritableE(e) }
func gvWritable16(e *encoder, f field, x uint16) bool          { return gvWritableE(e) }
func gvWasRead16(d *decoder, f field, ext bool, x uint16) bool { return gvReadableD(d) }
func gvWidth16(d *decoder, x uint16, signed bool) bool         { return gvMasked(d.bitSize, 16, uint64(x)) }
func gvWritableS32(e *encoder, f field, x int32) bool          { return gvWritableE(e) }
func gvWritable32(e *encoder, f field, x uint32) bool          { return gvWritableE(e) }
func gvWasRead32(d *decoder, f field, ext bool, x uint32) bool { return gvReadableD(d) }
func gvWidth32(d *decoder, x uint32, signed bool) bool         { return gvMasked(d.bitSize, 32, uint64(x)) }
func gvWritableS64(e *encoder, f field, x int64) bool          { return gvWritableE(e) }
func gvWritable64(e *encoder, f field, x uint64) bool          { return gvWritableE(e) }
func gvWasRead64(d *decoder, f field, ext bool, x uint64) bool { return gvReadableD(d) }
func gvWidth64(d *decoder, x uint64, signed bool) bool         { return gvMasked(d.bitSize, 64, uint64(x)) }
func gvReadableF(d *decoder, f field) bool                     { return gvReadableD(d) }
func gvReadable8(d *decoder, f field, ext bool) bool           { return gvReadableD(d) }

//gover:spec (*encoder).write8
//gover:props C01
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPre8
//gover:requires gvWritable8
//gover:ensures gvWritable8
//gover:reads e.buf e.bitCounter e.bitSize e.order x
//gover:modifies e.buf e.bitCounter
func specWrite8(e *encoder, f field, x uint8) { gvPut(e, 8, uint64(x)) }

//gover:spec (*encoder).write16
//gover:props C01
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPre16
//gover:requires gvWritable16
//gover:ensures gvWritable16
//gover:reads e.buf e.bitCounter e.bitSize e.order x
//gover:modifies e.buf e.bitCounter
func specWrite16(e *encoder, f field, x uint16) { gvPut(e, 16, uint64(x)) }

//gover:spec (*encoder).write32
//gover:props C01
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPre32
//gover:requires gvWritable32
//gover:ensures gvWritable32
//gover:reads e.buf e.bitCounter e.bitSize e.order x
//gover:modifies e.buf e.bitCounter
func specWrite32(e *encoder, f field, x uint32) { gvPut(e, 32, uint64(x)) }

//gover:spec (*encoder).write64
//gover:props C01
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPre64
//gover:requires gvWritable64
//gover:ensures gvWritable64
//gover:reads e.buf e.bitCounter e.bitSize e.order x
//gover:modifies e.buf e.bitCounter
func specWrite64(e *encoder, f field, x uint64) { gvPut(e, 64, x) }

// gvMasked says x is a number of the width at hand: nothing is set above it.
func gvMasked(bitSize, width int, x uint64) bool {
	return bitSize >= 0 && bitSize <= width && (bitSize == 0 || x>>uint(bitSize) == 0)
}

// gvExtend is the value of the low bits of x: as they are, or by two's
// complement.
func gvExtend(bitSize int, x uint64, signed bool) uint64 {
	if signed && bitSize != 0 && x>>uint(bitSize-1)&1 != 0 {
		return x | ^uint64(0)<<uint(bitSize)
	}
	return x
}

func gvPreR8(d *decoder, f field, ext bool)  { gvGetPre(d, 8, gvAnyByte("order") == 0) }
func gvPreR16(d *decoder, f field, ext bool) { gvGetPre(d, 16, gvAnyByte("order") == 0) }
func gvPreR32(d *decoder, f field, ext bool) { gvGetPre(d, 32, gvAnyByte("order") == 0) }
func gvPreR64(d *decoder, f field, ext bool) { gvGetPre(d, 64, gvAnyByte("order") == 0) }

//gover:spec (*decoder).read8
//gover:props C02
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPreR8
//gover:requires gvReadable8
//gover:ensures gvWasRead8
//gover:reads d.buf d.bitCounter d.bitSize d.order extend
//gover:modifies d.buf d.bitCounter
func specRead8(d *decoder, f field, extend bool) uint8 {
	return d.extend8(uint8(gvGet(d, 8)), extend)
}

//gover:spec (*decoder).read16
//gover:props C02
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPreR16
//gover:requires gvReadable8
//gover:ensures gvWasRead16
//gover:reads d.buf d.bitCounter d.bitSize d.order extend
//gover:modifies d.buf d.bitCounter
func specRead16(d *decoder, f field, extend bool) uint16 {
	return d.extend16(uint16(gvGet(d, 16)), extend)
}

//gover:spec (*decoder).read32
//gover:props C02
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPreR32
//gover:requires gvReadable8
//gover:ensures gvWasRead32
//gover:reads d.buf d.bitCounter d.bitSize d.order extend
//gover:modifies d.buf d.bitCounter
func specRead32(d *decoder, f field, extend bool) uint32 {
	return d.extend32(uint32(gvGet(d, 32)), extend)
}

//gover:spec (*decoder).read64
//gover:props C02
//gover:opaque
//gover:split
//gover:merge
//gover:pre gvPreR64
//gover:requires gvReadable8
//gover:ensures gvWasRead64
//gover:reads d.buf d.bitCounter d.bitSize d.order extend
//gover:modifies d.buf d.bitCounter
func specRead64(d *decoder, f field, extend bool) uint64 {
	return d.extend64(gvGet(d, 64), extend)
}

func gvPreX8(d *decoder, x uint8, signed bool)   { gvSplit(d.bitSize, 0, 8) }
func gvPreX16(d *decoder, x uint16, signed bool) { gvSplit(d.bitSize, 0, 16) }
func gvPreX32(d *decoder, x uint32, signed bool) { gvSplit(d.bitSize, 0, 32) }
func gvPreX64(d *decoder, x uint64, signed bool) { gvSplit(d.bitSize, 0, 64) }

//gover:spec (*decoder).extend8
//gover:props C03
//gover:opaque
//gover:nopanic
//gover:pre gvPreX8
//gover:requires gvWidth8
//gover:reads d.bitSize val signed
//gover:finding extend8
func specExtend8(d *decoder, val uint8, signed bool) uint8 {
	if gvFinding("extend8") {
		if signed && d.bitSize != 0 && val&1 != 0 {
			return val | byte(0xff)<<uint(d.bitSize)
		}
		return val
	}
	return uint8(gvExtend(d.bitSize, uint64(val), signed))
}

//gover:spec (*decoder).extend16
//gover:props C03
//gover:opaque
//gover:nopanic
//gover:pre gvPreX16
//gover:requires gvWidth16
//gover:reads d.bitSize val signed
func specExtend16(d *decoder, val uint16, signed bool) uint16 {
	return uint16(gvExtend(d.bitSize, uint64(val), signed))
}

//gover:spec (*decoder).extend32
//gover:props C03
//gover:opaque
//gover:nopanic
//gover:pre gvPreX32
//gover:requires gvWidth32
//gover:reads d.bitSize val signed
func specExtend32(d *decoder, val uint32, signed bool) uint32 {
	return uint32(gvExtend(d.bitSize, uint64(val), signed))
}

//gover:spec (*decoder).extend64
//gover:props C03
//gover:opaque
//gover:nopanic
//gover:pre gvPreX64
//gover:requires gvWidth64
//gover:reads d.bitSize val signed
func specExtend64(d *decoder, val uint64, signed bool) uint64 {
	return gvExtend(d.bitSize, val, signed)
}

// ---- the rest of readS8 and so on: conversions only

//gover:spec (*decoder).readU8
//gover:props C03
//gover:requires gvReadableF
func specReadU8(d *decoder, f field) uint8 { return d.read8(f, false) }

//gover:spec (*decoder).readU16
//gover:props C03
//gover:requires gvReadableF
func specReadU16(d *decoder, f field) uint16 { return d.read16(f, false) }

//gover:spec (*decoder).readU32
//gover:props C03
//gover:requires gvReadableF
func specReadU32(d *decoder, f field) uint32 { return d.read32(f, false) }

//gover:spec (*decoder).readU64
//gover:props C03
//gover:requires gvReadableF
func specReadU64(d *decoder, f field) uint64 { return d.read64(f, false) }

//gover:spec (*decoder).readS8
//gover:props C03
//gover:requires gvReadableF
func specReadS8(d *decoder, f field) int8 { return int8(d.read8(f, true)) }

//gover:spec (*decoder).readS16
//gover:props C03
//gover:requires gvReadableF
func specReadS16(d *decoder, f field) int16 { return int16(d.read16(f, true)) }

//gover:spec (*decoder).readS32
//gover:props C03
//gover:requires gvReadableF
func specReadS32(d *decoder, f field) int32 { return int32(d.read32(f, true)) }

//gover:spec (*decoder).readS64
//gover:props C03
//gover:requires gvReadableF
func specReadS64(d *decoder, f field) int64 { return int64(d.read64(f, true)) }

//gover:spec (*encoder).writeS8
//gover:props C03
//gover:requires gvWritableS8
func specWriteS8(e *encoder, f field, x int8) { e.write8(f, uint8(x)) }

//gover:spec (*encoder).writeS16
//gover:props C03
//gover:requires gvWritableS16
func specWriteS16(e *encoder, f field, x int16) { e.write16(f, uint16(x)) }

//gover:spec (*encoder).writeS32
//gover:props C03
//gover:requires gvWritableS32
func specWriteS32(e *encoder, f field, x int32) { e.write32(f, uint32(x)) }

//gover:spec (*encoder).writeS64
//gover:props C03
//gover:requires gvWritableS64
func specWriteS64(e *encoder, f field, x int64) { e.write64(f, uint64(x)) }

// ---- skips (C04)

// gvMaxSkip bounds skips, in bits: beyond it the sum of position and skip is
// no int.
const gvMaxSkip = 1 << 50

func gvPreSkipE(e *encoder, count int) {
	gvSplit(e.bitCounter, 0, 7)
	gvRequires(count >= 0 && count <= gvMaxSkip)
}

func gvPreSkipD(d *decoder, count int) {
	gvSplit(int(d.bitCounter), 0, 7)
	gvRequires(count >= 0 && count <= gvMaxSkip)
}

func gvSkipPosE(e *encoder, count int) bool { return e.bitCounter >= 0 && e.bitCounter <= 7 }
func gvSkipPosD(d *decoder, count int) bool { return d.bitCounter <= 7 }

//gover:spec (*encoder).skipBits
//gover:props C04
//gover:opaque
//gover:pre gvPreSkipE
//gover:requires gvSkipPosE
//gover:ensures gvSkipPosE
//gover:reads e.buf e.bitCounter count
//gover:modifies e.buf e.bitCounter
func specSkipE(e *encoder, count int) {
	p := e.bitCounter + count
	e.buf = e.buf[p/8:]
	e.bitCounter = p % 8
}

//gover:spec (*decoder).skipBits
//gover:props C04
//gover:opaque
//gover:pre gvPreSkipD
//gover:requires gvSkipPosD
//gover:ensures gvSkipPosD
//gover:reads d.buf d.bitCounter count
//gover:modifies d.buf d.bitCounter
func specSkipD(d *decoder, count int) {
	p := int(d.bitCounter) + count
	d.buf = d.buf[p/8:]
	d.bitCounter = uint8(p % 8)
}

// ---- consequences of the contracts

func gvPreRound(e *encoder, d *decoder, x uint64) {
	gvSplit(e.bitSize, 1, 64)
	gvSplit(e.bitCounter, 0, 7)
	gvRequires(len(e.buf) >= 9)
	if gvAnyByte("order") == 0 {
		e.order = binary.LittleEndian
	} else {
		e.order = binary.BigEndian
	}
	gvZeroBuf(e.buf)
	e.buf[0] = gvAnyByte("pending") &^ (0xff >> uint(e.bitCounter))
}

// What was packed is what unpacking yields: zero-extended, or, read as a
// signed number, sign-extended; a value that fits comes back as it was.
//
//gover:lemma
//gover:props C03
//gover:split
//gover:merge
//gover:pre gvPreRound
func lemmaRoundTrip(e *encoder, d *decoder, x uint64) {
	n := e.bitSize
	d.buf = e.buf
	d.bitCounter = uint8(e.bitCounter)
	d.bitSize = n
	d.order = e.order
	gvPut(e, 64, x)
	y := gvGet(d, 64)
	gvAssert(y == x<<uint(64-n)>>uint(64-n))
	gvAssert(gvExtend(n, y, true) == uint64(int64(x)<<uint(64-n)>>uint(64-n)))
	gvAssert(len(e.buf) == len(d.buf) && e.bitCounter == int(d.bitCounter))
}

func gvPreSkips(e *encoder, d *decoder, count int) {
	gvPreSkipE(e, count)
	d.bitCounter = uint8(e.bitCounter)
	d.buf = e.buf
	gvRequires(len(e.buf) > gvMaxSkip/8+1)
}

// Both directions skip alike.
//
//gover:lemma
//gover:props C04
//gover:pre gvPreSkips
func lemmaSkips(e *encoder, d *decoder, count int) {
	n := len(e.buf)
	p := e.bitCounter
	specSkipE(e, count)
	specSkipD(d, count)
	gvAssert(len(e.buf) == len(d.buf) && e.bitCounter == int(d.bitCounter))
	gvAssert((n-len(e.buf))*8+e.bitCounter == p+count)
}
