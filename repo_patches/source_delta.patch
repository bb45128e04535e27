From bf50ea2c36fb79e41b828e3e70acd3f751fcbe90 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 01/42] fix: carry a skip that ends exactly on a byte boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From a24ff1920d1fa845fb6ef787f7b7b5bceb125da3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 02/42] fix: report non-error panics as errors from the entry
 points

---
 packing.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..42cbae2 100644
--- a/packing.go
+++ b/packing.go
@@ -22,6 +22,7 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
@@ -34,6 +35,14 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// panicError returns the error for a recovered panic value.
+func panicError(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -87,10 +96,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = panicError(r)
 		}
 	}()
 
@@ -108,7 +114,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = panicError(r)
 		}
 	}()
 
@@ -123,7 +129,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = panicError(r)
 		}
 	}()
 
@@ -145,7 +151,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = panicError(r)
 		}
 	}()
 
-- 
2.43.0


From 29cf2022405c23315c1b478180761f827b32a264 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 03/42] fix: pack structs passed by value and reject unpacking
 into them

---
 encoder.go |  2 +-
 packing.go | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/encoder.go b/encoder.go
index c47e4aa..23f19b3 100644
--- a/encoder.go
+++ b/encoder.go
@@ -283,7 +283,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	ov := v
 	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
+		ov = addressable(reflect.ValueOf(e.evalExpr(f.OutExpr)))
 	}
 
 	switch f.BinaryType.Kind() {
diff --git a/packing.go b/packing.go
index 42cbae2..5885cae 100644
--- a/packing.go
+++ b/packing.go
@@ -43,6 +43,16 @@ func panicError(r interface{}) error {
 	return fmt.Errorf("%v", r)
 }
 
+// addressable returns val itself if it can be set, or a settable copy of it.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanSet() {
+		return val
+	}
+	nval := reflect.New(val.Type()).Elem()
+	nval.Set(val)
+	return nval
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -101,6 +111,10 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	}()
 
 	f, val := fieldFromIntf(v)
+	if _, ok := val.Interface().(Unpacker); !ok && !val.CanSet() {
+		return fmt.Errorf("cannot unpack into unaddressable value of type %s", val.Type())
+	}
+
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
 	d.read(f, val)
@@ -120,7 +134,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -135,7 +149,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -158,6 +172,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 1d337f17e4c9c9188dba3935746445d2636ea667 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 04/42] fix: keep all bits of little-endian bit fields wider
 than one byte

---
 decoder.go | 10 ++++++++++
 encoder.go | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/decoder.go b/decoder.go
index 18720de..c464899 100644
--- a/decoder.go
+++ b/decoder.go
@@ -70,6 +70,16 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if d.order == binary.LittleEndian {
+			// The low-order bytes come first, so that only the last byte can
+			// be partial.
+			for ; decodedBits > 8; decodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					putBit(outBuf[:1], 8, i, d.readBit())
+				}
+				outBuf = outBuf[1:]
+			}
+		}
 		for i := 0; i < decodedBits; i++ {
 			putBit(outBuf, decodedBits, i, d.readBit())
 		}
diff --git a/encoder.go b/encoder.go
index 23f19b3..a412a3a 100644
--- a/encoder.go
+++ b/encoder.go
@@ -71,6 +71,16 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if e.order == binary.LittleEndian {
+			// The low-order bytes come first, so that only the last byte can
+			// be partial.
+			for ; encodedBits > 8; encodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					e.writeBit(getBit(inBuf[:1], 8, i))
+				}
+				inBuf = inBuf[1:]
+			}
+		}
 		for i := 0; i < encodedBits; i++ {
 			e.writeBit(getBit(inBuf, encodedBits, i))
 		}
-- 
2.43.0


From bd21aa64fc56f9ebcf1252ad277ab7ad4a26655a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 05/42] fix: sign-extend 16 and 32-bit containers from the sign
 bit

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index c464899..4f1b888 100644
--- a/decoder.go
+++ b/decoder.go
@@ -94,14 +94,14 @@ func (d *decoder) extend8(val uint8, signed bool) uint8 {
 }
 
 func (d *decoder) extend16(val uint16, signed bool) uint16 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
 }
 
 func (d *decoder) extend32(val uint32, signed bool) uint32 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
-- 
2.43.0


From 466b7ba1db0b0d97e795ed270e9abaed7e09bfdd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 06/42] fix: link sizeof and sizefrom fields by struct index

---
 field.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/field.go b/field.go
index ad64761..11e9fe0 100644
--- a/field.go
+++ b/field.go
@@ -218,7 +218,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 				panic(ErrInvalidSizeOf)
 			}
 			sindex = j
-			result[sindex].TIndex = i
+			for k := range result {
+				if result[k].Index == sindex {
+					result[k].TIndex = i
+				}
+			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = i
@@ -229,11 +233,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 476789f5c868ddaa7e8e1aef26a79d38e418026a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 07/42] fix: reset every case of a switch before unpacking it

---
 decoder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 4f1b888..a6ac32a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -227,8 +227,10 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
-		v.Set(reflect.Zero(v.Type()))
+		v := v.Field(sfields[i].Index)
+		if v.CanSet() {
+			v.Set(reflect.Zero(v.Type()))
+		}
 	}
 
 	for i := 0; i < l; i++ {
-- 
2.43.0


From 4f3d3c677e881a88bd872a76ca23a3fe46eec20a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 08/42] fix: apply if=, skip= and byte order to switches and
 custom codecs

---
 decoder.go     | 34 +++++++++++++++++-----------------
 encoder.go     | 34 +++++++++++++++++-----------------
 structstack.go | 20 +++++++++++---------
 3 files changed, 45 insertions(+), 43 deletions(-)

diff --git a/decoder.go b/decoder.go
index a6ac32a..45ca4eb 100644
--- a/decoder.go
+++ b/decoder.go
@@ -275,23 +275,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := d.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -312,6 +296,22 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
+	struc := d.ancestor(0)
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index a412a3a..3cde989 100644
--- a/encoder.go
+++ b/encoder.go
@@ -238,23 +238,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	struc := e.ancestor(0)
-
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -275,6 +259,22 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
+	struc := e.ancestor(0)
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index 6e056a5..fe58b4e 100644
--- a/structstack.go
+++ b/structstack.go
@@ -127,15 +127,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
-	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
-	}
-
-	if f.Name != "_" {
-		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
-		}
-	} else {
+	if f.Name == "_" {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
@@ -148,6 +140,16 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if f.SwitchExpr != nil {
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+	}
+
+	if f.Name != "_" {
+		if s, ok := f.bitSizeUsingInterface(val); ok {
+			return skipBits + s
+		}
+	}
+
 	if b := s.evalBits(f); b != 0 {
 		return b
 	}
-- 
2.43.0


From 278b543a8f39cb82c4fe7bab39d7995045328c98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 09/42] fix: count skips and conditions of bit fields in the
 reported size

---
 structstack.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/structstack.go b/structstack.go
index fe58b4e..a8f81bf 100644
--- a/structstack.go
+++ b/structstack.go
@@ -151,7 +151,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		switch f.BinaryType.Kind() {
+		case reflect.Complex64, reflect.Complex128:
+			// Applies to the real and the imaginary part.
+			b *= 2
+		}
+		return b + skipBits
 	}
 
 	alen := 1
@@ -210,11 +215,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From 0ac40026fecf4f0edd993bc40dce195f8e1684f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 10/42] fix: size nil pointers and skips before pointers as
 they are encoded

---
 structstack.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/structstack.go b/structstack.go
index a8f81bf..182b33d 100644
--- a/structstack.go
+++ b/structstack.go
@@ -179,10 +179,10 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		case reflect.Slice, reflect.String, reflect.Array, reflect.Ptr:
 			alen = val.Len()
 		default:
-			return 0
+			return skipBits
 		}
 		fallthrough
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		size += skipBits
 
 		// If array type, get length from type.
@@ -196,8 +196,6 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		}
 
 		switch f.NativeType.Kind() {
-		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
@@ -211,6 +209,12 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 			}
 		}
 		return size
+	case reflect.Ptr:
+		// Nil pointers are not encoded.
+		if val.IsNil() {
+			return skipBits
+		}
+		return skipBits + s.fieldbits(f.Elem(), val.Elem())
 	case reflect.Struct:
 		size += skipBits
 		s.push(val)
@@ -220,7 +224,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		s.pop(val)
 		return size
 	default:
-		return 0
+		return skipBits
 	}
 }
 
-- 
2.43.0


From a8109cf0890e46ccbd0f073fb38824282d637b0b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 11/42] fix: size blank fields of struct type

---
 structstack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/structstack.go b/structstack.go
index 182b33d..4b5e37b 100644
--- a/structstack.go
+++ b/structstack.go
@@ -134,6 +134,8 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) {
 			return skipBits
 		}
+		// Only the type matters, and values of unnamed fields are read-only.
+		val = reflect.New(val.Type()).Elem()
 	}
 
 	if !s.evalIf(f) {
-- 
2.43.0


From c19c0431b17a331521b86bf8b5cb21f03b454127 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 12/42] fix: size array elements individually when they can
 differ

---
 field.go       | 15 +++++++++++++++
 structstack.go | 15 ++++++++++-----
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/field.go b/field.go
index 11e9fe0..8bedca0 100644
--- a/field.go
+++ b/field.go
@@ -59,6 +59,11 @@ type BitSizer interface {
 	BitSize() int
 }
 
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
 // field represents a structure field, similar to reflect.StructField.
 type field struct {
 	Name       string
@@ -357,6 +362,16 @@ func isTypeTrivial(typ reflect.Type) bool {
 	}
 }
 
+// constantSize determines if all values of the field have the same size.
+func (f *field) constantSize() bool {
+	switch f.BinaryType.Kind() {
+	case reflect.Array, reflect.Ptr, reflect.Struct:
+		return false
+	}
+	ptr := reflect.PtrTo(f.NativeType)
+	return f.Trivial && !ptr.Implements(sizerType) && !ptr.Implements(bitSizerType)
+}
+
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
diff --git a/structstack.go b/structstack.go
index 4b5e37b..8fd23c1 100644
--- a/structstack.go
+++ b/structstack.go
@@ -199,14 +199,19 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Slice, reflect.String, reflect.Array:
-			// Optimization: if the element type is trivial, we can derive the
-			// length from a single element.
+			// Optimization: if the elements all have the same size, we can
+			// derive the length from a single element.
 			elem := f.Elem()
-			if elem.Trivial {
-				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen
+			if elem.constantSize() {
+				size += s.fieldbits(elem, reflect.Zero(elem.NativeType)) * alen
 			} else {
 				for i := 0; i < alen; i++ {
-					size += s.fieldbits(elem, val.Index(i))
+					if i < val.Len() {
+						size += s.fieldbits(elem, val.Index(i))
+					} else {
+						// Missing elements are encoded as zero values.
+						size += s.fieldbits(elem, reflect.New(elem.BinaryType).Elem())
+					}
 				}
 			}
 		}
-- 
2.43.0


From 07813cec7871098126563b395572ed493ed14d39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 13/42] fix: handle nil pointers to custom codecs like other
 nil pointers

---
 decoder.go | 4 ++++
 encoder.go | 4 ++++
 field.go   | 8 ++++++++
 3 files changed, 16 insertions(+)

diff --git a/decoder.go b/decoder.go
index 45ca4eb..6df186c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -174,6 +174,10 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
diff --git a/encoder.go b/encoder.go
index 3cde989..7b32d82 100644
--- a/encoder.go
+++ b/encoder.go
@@ -133,6 +133,10 @@ func (e *encoder) skip(f field, v reflect.Value) {
 }
 
 func (e *encoder) packer(v reflect.Value) (Packer, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Packer); ok {
 		return s, true
 	}
diff --git a/field.go b/field.go
index 8bedca0..da8aa59 100644
--- a/field.go
+++ b/field.go
@@ -373,6 +373,10 @@ func (f *field) constantSize() bool {
 }
 
 func (f *field) sizer(v reflect.Value) (Sizer, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(Sizer); ok {
 		return s, true
 	}
@@ -389,6 +393,10 @@ func (f *field) sizer(v reflect.Value) (Sizer, bool) {
 }
 
 func (f *field) bitSizer(v reflect.Value) (BitSizer, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return nil, false
+	}
+
 	if s, ok := v.Interface().(BitSizer); ok {
 		return s, true
 	}
-- 
2.43.0


From 3c61bfad62906b9f4e33ec7a7a8252d68ade07aa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 14/42] fix: encode int and uint in the 32 bits they are sized
 as

---
 decoder.go | 4 ++--
 encoder.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 6df186c..1a5e3f3 100644
--- a/decoder.go
+++ b/decoder.go
@@ -436,7 +436,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -445,7 +445,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index 7b32d82..34072dd 100644
--- a/encoder.go
+++ b/encoder.go
@@ -355,7 +355,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -364,7 +364,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
-- 
2.43.0


From 98d7970ff61a536c1baf7e8bd682c892a2fdd663 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 15/42] fix: read strings and byte slices at any bit offset and
 without counting skips

---
 decoder.go | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1a5e3f3..640ae47 100644
--- a/decoder.go
+++ b/decoder.go
@@ -156,10 +156,33 @@ func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
 	x := d.buf[0:count]
-	d.buf = d.buf[count:]
+	if d.bitCounter == 0 {
+		d.buf = d.buf[count:]
+		return x
+	}
+	x = append([]byte{}, x...)
+	for i := range x {
+		x[i] = 0
+		for j := 0; j < 8; j++ {
+			putBit(x[i:i+1], 8, j, d.readBit())
+		}
+	}
 	return x
 }
 
+// readString reads the elements of a field of string type.
+func (d *decoder) readString(f field, count int) string {
+	ef := f.Elem()
+	if ef.BinaryType.Kind() == reflect.Uint8 {
+		return string(d.readBytes(count))
+	}
+	v := reflect.ValueOf(make([]byte, count))
+	for i := 0; i < count; i++ {
+		d.read(ef, v.Index(i))
+	}
+	return string(v.Bytes())
+}
+
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
 	if d.bitCounter >= 8 {
@@ -352,7 +375,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := d.readString(f, l)
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -389,11 +412,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
+			ef := f.Elem()
+			switch {
+			case v.Kind() == reflect.Slice && ef.NativeType == reflect.TypeOf(byte(0)) && ef.BinaryType == ef.NativeType:
+				v.SetBytes(d.readBytes(alen))
 			default:
-				ef := f.Elem()
 				for i := 0; i < alen; i++ {
 					d.read(ef, v.Index(i))
 				}
@@ -401,7 +424,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
-			v.SetString(string(d.readBytes(alen)))
+			v.SetString(d.readString(f, alen))
 		case reflect.Array:
 			if f.WhileExpr != nil {
 				i := 0
@@ -411,6 +434,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 					i++
 				}
 			} else {
+				alen = v.Len()
 				fixed()
 			}
 		case reflect.Slice:
-- 
2.43.0


From 439fce8de9368478a35d8419d38f2cfdb02abe28 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 16/42] fix: reject negative bit sizes

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index 8fd23c1..a02dd02 100644
--- a/structstack.go
+++ b/structstack.go
@@ -42,6 +42,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		if bits < 0 {
+			panic(fmt.Errorf("%s: negative bit size %d", f.Name, bits))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From 91dd074dd5153bd5ea9486a02f3f8f7c046ff136 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 17/42] fix: match integer cases with switches of any integer
 type

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 27 ++++++++++++++++++++++++++-
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 640ae47..25e0da7 100644
--- a/decoder.go
+++ b/decoder.go
@@ -276,7 +276,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if caseEqual(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 34072dd..823825d 100644
--- a/encoder.go
+++ b/encoder.go
@@ -216,7 +216,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if caseEqual(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index a02dd02..e692d79 100644
--- a/structstack.go
+++ b/structstack.go
@@ -12,6 +12,31 @@ type switchcase struct {
 	v reflect.Value
 }
 
+func isIntKind(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Int64
+}
+
+func isUintKind(k reflect.Kind) bool {
+	return k >= reflect.Uint && k <= reflect.Uintptr
+}
+
+// caseEqual compares the value of a case with the value of its switch. The
+// types of integers do not matter, since literals do not have a type.
+func caseEqual(a, b interface{}) bool {
+	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
+	switch {
+	case isIntKind(av.Kind()) && isIntKind(bv.Kind()):
+		return av.Int() == bv.Int()
+	case isUintKind(av.Kind()) && isUintKind(bv.Kind()):
+		return av.Uint() == bv.Uint()
+	case isIntKind(av.Kind()) && isUintKind(bv.Kind()):
+		return av.Int() >= 0 && uint64(av.Int()) == bv.Uint()
+	case isUintKind(av.Kind()) && isIntKind(bv.Kind()):
+		return bv.Int() >= 0 && av.Uint() == uint64(bv.Int())
+	}
+	return a == b
+}
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
@@ -100,7 +125,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if caseEqual(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From db9a77e8ecad662c7ef6873a804663e30f084399 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:26 +0000
Subject: [PATCH 18/42] fix: convert untyped float literals

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..370a134 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(from.Value().Float()), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From 1397367b1352b6ed317b7db0faf6e693a364323a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:27 +0000
Subject: [PATCH 19/42] fix: stop scanning an unterminated string at the end of
 input

---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..5afd17e 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -377,6 +377,8 @@ func (s *scanner) scanstring(quote byte) token {
 			return token{kind: strtoken, sval: string(str)}
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
+		case s.accept(eof):
+			return s.errsymf("unterminated string")
 		default:
 			str = append(str, runebytes(s.readrune())...)
 		}
-- 
2.43.0


From fd7152f4852529e0058ae563f4f9d3b577ff05f2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 20/42] fix: scan a minus sign after an operand as an operator

---
 expr/lex.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expr/lex.go b/expr/lex.go
index 5afd17e..bcfe77f 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -154,6 +154,10 @@ type scanner struct {
 	r   io.RuneScanner
 	p   int
 	eof bool
+
+	// operand is set after a token that can end an operand. A minus sign that
+	// follows one is an operator even if a digit comes next.
+	operand bool
 }
 
 func newscanner(r io.RuneScanner) *scanner {
@@ -413,6 +417,13 @@ func (s *scanner) scan() (t token) {
 
 	defer func() {
 		t.pos = p
+		switch t.kind {
+		case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken,
+			nilkeyword, rightparentoken, rightbrackettoken:
+			s.operand = true
+		default:
+			s.operand = false
+		}
 	}()
 
 	switch {
@@ -436,7 +447,7 @@ func (s *scanner) scan() (t token) {
 		switch {
 		default:
 			return s.tokensym(subtoken, "-")
-		case s.peekmatch(isdigit):
+		case !s.operand && s.peekmatch(isdigit):
 			return s.scannumber(token{sval: "-"})
 		}
 	case s.accept('*'):
-- 
2.43.0


From b067165e51f582326d4f8c2bb92d40fedda3f745 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:43 +0000
Subject: [PATCH 21/42] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From b2cf2cb1caeb331fee5282c5d235ed8c6e969db5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 22/42] fix: require matching closing parentheses and brackets

---
 expr/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..495e233 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -102,6 +102,7 @@ func (p *parser) parseexpr(depth int) node {
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
 		n = p.parseexpr(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -115,10 +116,12 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if n != nil && p.accept(leftparentoken) {
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -241,7 +244,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
-- 
2.43.0


From 222f89f1401a43d0feee5015e874df64b558cedd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 23/42] fix: group nested conditionals to the right

---
 expr/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index 495e233..d3e5a8a 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -234,7 +234,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if p.accept(ternarytoken) {
-			ternary(3)
+			ternary(2)
 			continue
 		}
 		if depth >= 2 {
-- 
2.43.0


From ef5f6834ffca08968dc14dd763482b9f477c63d1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 24/42] fix: reject expressions with missing operands

---
 expr/parse.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index d3e5a8a..38b721a 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -71,12 +71,15 @@ func (p *parser) parseexpr(depth int) node {
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
-			panic("unexpected binary op")
+			panic(fmt.Errorf("unexpected %s token", p.t.kind))
 		}
 		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic(fmt.Errorf("unexpected %s token", p.t.kind))
+		}
 		t := ternaryexpr{}
 		t.a = n
 		t.b = p.parseexpr(depth)
@@ -250,6 +253,9 @@ func (p *parser) parseexpr(depth int) node {
 		p.expect(eoftoken)
 		break
 	}
+	if n == nil {
+		panic(fmt.Errorf("unexpected %s token", p.readtoken().kind))
+	}
 	return n
 }
 
-- 
2.43.0


From 634099909ced8cc15db4538185afb05fb147896e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 25/42] fix: allow calls without arguments

---
 expr/ast.go   | 5 ++++-
 expr/eval.go  | 3 +++
 expr/parse.go | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..c2eed89 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,7 +185,10 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
-	a, b := n.a.source(), n.b.source()
+	a, b := n.a.source(), ""
+	if n.b != nil {
+		b = n.b.source()
+	}
 	switch n.op {
 	case binarylogicalor:
 		return a + " || " + b
diff --git a/expr/eval.go b/expr/eval.go
index 182f164..a00fc5d 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -80,6 +80,9 @@ func evalunary(resolver Resolver, node unaryexpr) Value {
 }
 
 func flattengroup(n node) []node {
+	if n == nil {
+		return nil
+	}
 	if n, ok := n.(binaryexpr); ok {
 		if n.op == binarygroup {
 			return append(flattengroup(n.a), flattengroup(n.b)...)
diff --git a/expr/parse.go b/expr/parse.go
index 38b721a..ac22f00 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -118,6 +118,10 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
+			if p.accept(rightparentoken) {
+				n = binaryexpr{op: binarycall, a: n}
+				continue
+			}
 			binary(binarycall, 1)
 			p.expect(rightparentoken)
 			continue
-- 
2.43.0


From c21e71bffb1e88fcc05e6dc26d0404f13782407d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 26/42] fix: return all evaluation and syntax failures as
 errors

---
 expr/eval.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index a00fc5d..753886f 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -4,15 +4,19 @@ import (
 	"fmt"
 )
 
+// panicError returns the error for a recovered panic value.
+func panicError(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", r)
+}
+
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
+			err = panicError(r)
 		}
 	}()
 
@@ -21,7 +25,13 @@ func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error)
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = panicError(r)
+		}
+	}()
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
-- 
2.43.0


From 8e50392b176498064e39c09c5180342de842d884 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 27/42] fix: apply operators to values of named primitive types

---
 expr/eval.go  |  2 +-
 expr/value.go | 42 ++++++++++++++++++++++++++----------------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 753886f..12b20d6 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -167,7 +167,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := base(evalnode(resolver, node.a)).RawValue()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index 370a134..9005cb3 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -147,6 +147,16 @@ func promote(from Value, to Type) Value {
 	}
 }
 
+// base converts a value of a named primitive type to the primitive type.
+func base(v Value) Value {
+	if t, ok := v.Type().(*PrimitiveType); ok {
+		if rt := primRType[t.Kind()]; v.Value().Type() != rt {
+			return val{v.Value().Convert(rt), t}
+		}
+	}
+	return v
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -156,16 +166,16 @@ func coerce1(v Value) Value {
 			return val{reflect.ValueOf(int(n)), NewPrimitiveType(Int)}
 		}
 	}
-	return v
+	return base(v)
 }
 
 func coerce(lhs Value, rhs Value) (Value, Value) {
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-		return promote(lhs, rhs.Type()), rhs
+		return promote(lhs, rhs.Type()), base(rhs)
 	} else if assignable(rhs.Type(), lhs.Type()) {
-		return lhs, promote(rhs, lhs.Type())
+		return base(lhs), promote(rhs, lhs.Type())
 	}
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
@@ -183,7 +193,7 @@ func (v val) RawValue() interface{} {
 }
 
 func (v val) Negate() Value {
-	switch n := v.RawValue().(type) {
+	switch n := base(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -216,7 +226,7 @@ func (v val) Negate() Value {
 }
 
 func (v val) Not() Value {
-	switch n := v.RawValue().(type) {
+	switch n := base(v).RawValue().(type) {
 	case bool:
 		return val{reflect.ValueOf(!n), v.t}
 	default:
@@ -225,7 +235,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := v.RawValue().(type) {
+	switch n := base(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
@@ -285,12 +295,12 @@ func (v val) Dot(ident string) Value {
 }
 
 func (v val) LogicalOr(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := base(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := base(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: rhs})
 	}
@@ -299,12 +309,12 @@ func (v val) LogicalOr(rhs Value) Value {
 }
 
 func (v val) LogicalAnd(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := base(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := base(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: rhs})
 	}
@@ -690,7 +700,7 @@ func (v val) Lsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := base(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -739,7 +749,7 @@ func (v val) Rsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := base(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -846,14 +856,14 @@ func (v val) AndNot(rhs Value) Value {
 
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
-		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
+		index := base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int)
+		return val{reflect.ValueOf(base(v).RawValue().(string)[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int)), t.Elem()}
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int)), t.Elem()}
 	case *MapType:
 		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
 	default:
-- 
2.43.0


From dc81b465abef6a37eec33f8fc3c155a960e835b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:57 +0000
Subject: [PATCH 28/42] fix: make map types usable for indexing and conversion

---
 expr/type.go  | 2 +-
 expr/value.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..65f2b1c 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
diff --git a/expr/value.go b/expr/value.go
index 9005cb3..6d2e76e 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -865,7 +865,11 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		key := promote(rhs, t.Key()).Value().Convert(v.v.Type().Key())
+		if mv := v.v.MapIndex(key); mv.IsValid() {
+			return val{mv, t.Value()}
+		}
+		return val{reflect.Zero(v.v.Type().Elem()), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From 0f0b4996d4d1692867028b80d0dddce581cbbd03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 29/42] fix: give nil the runtime type of the other operand

---
 expr/value.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 6d2e76e..f57bc09 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -169,6 +169,20 @@ func coerce1(v Value) Value {
 	return base(v)
 }
 
+// equal compares two values for equality.
+func equal(lhs Value, rhs Value) bool {
+	// Nil adopts the type of the other operand.
+	if assignable(lhs.Type(), rhs.Type()) && lhs.Type().Kind() == UntypedNil {
+		return rhs.Value().IsNil()
+	}
+	if assignable(rhs.Type(), lhs.Type()) && rhs.Type().Kind() == UntypedNil {
+		return lhs.Value().IsNil()
+	}
+
+	l, r := coerce(lhs, rhs)
+	return l.RawValue() == r.RawValue()
+}
+
 func coerce(lhs Value, rhs Value) (Value, Value) {
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
@@ -323,13 +337,11 @@ func (v val) LogicalAnd(rhs Value) Value {
 }
 
 func (v val) Equal(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(!equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) Lesser(rhs Value) Value {
@@ -885,7 +897,11 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		if n.Type().Kind() == UntypedNil && assignable(n.Type(), ft.In(i)) {
+			inconv = append(inconv, reflect.Zero(v.v.Type().In(i)))
+			continue
+		}
+		inconv = append(inconv, promote(n, ft.In(i)).Value().Convert(v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From f35365d33f78d8e54ffabd25c15ba5f7c12a2880 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 30/42] fix: do not evaluate the right operand of && and ||
 needlessly

---
 expr/eval.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index 12b20d6..58311e7 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -117,6 +117,15 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return a.Call(in)
 	case binarygroup:
 		return evalnode(resolver, node.b)
+	case binarylogicalor:
+		// The right operand is not evaluated if the left one decides.
+		if l, ok := base(a).RawValue().(bool); ok && l {
+			return a.LogicalOr(a)
+		}
+	case binarylogicaland:
+		if l, ok := base(a).RawValue().(bool); ok && !l {
+			return a.LogicalAnd(a)
+		}
 	}
 
 	b := evalnode(resolver, node.b)
-- 
2.43.0


From 3d4b8f26c44d38044a6825e57ae943dd66542934 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 31/42] fix: keep the sign of negated integer literals

---
 expr/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index f57bc09..686a5c1 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -227,6 +227,9 @@ func (v val) Negate() Value {
 	case uint32:
 		return val{reflect.ValueOf(-n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return val{reflect.ValueOf(-int64(n)), v.t}
+		}
 		return val{reflect.ValueOf(-n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(-n), v.t}
@@ -269,6 +272,9 @@ func (v val) BitNot() Value {
 	case uint32:
 		return val{reflect.ValueOf(^n), v.t}
 	case uint64:
+		if v.t.Kind() == UntypedInt {
+			return val{reflect.ValueOf(^int64(n)), v.t}
+		}
 		return val{reflect.ValueOf(^n), v.t}
 	case uintptr:
 		return val{reflect.ValueOf(^n), v.t}
-- 
2.43.0


From f107bb409733963cc9f1f120e5ac55de38fa37b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:55 +0000
Subject: [PATCH 32/42] fix: only publish finished types in the type cache

---
 expr/type.go | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 65f2b1c..350ecb2 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,12 +478,13 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
+func savetypes(types map[reflect.Type]Type) {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	typemap[reflect] = expr
-	return expr
+	for rt, et := range types {
+		typemap[rt] = et
+	}
 }
 
 func loadtype(reflect reflect.Type) (Type, bool) {
@@ -498,6 +499,18 @@ func loadtype(reflect reflect.Type) (Type, bool) {
 
 // fromreflecttype converts a runtime type into an expr type.
 func fromreflecttype(t reflect.Type) Type {
+	// Types can be recursive. Types that are still being converted are kept
+	// here, so that the shared cache only ever holds finished ones.
+	types := map[reflect.Type]Type{}
+	et := convertreflecttype(t, types)
+	savetypes(types)
+	return et
+}
+
+func convertreflecttype(t reflect.Type, types map[reflect.Type]Type) Type {
+	if et, ok := types[t]; ok {
+		return et
+	}
 	if et, ok := loadtype(t); ok {
 		return et
 	}
@@ -509,30 +522,30 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), convertreflecttype(t.Elem(), types))
 	case reflect.Func:
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, convertreflecttype(t.In(i), types))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, convertreflecttype(t.Out(i), types))
 		}
 		return NewFuncType(in, out, t.IsVariadic())
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		return NewMapType(convertreflecttype(t.Key(), types), convertreflecttype(t.Elem(), types))
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewPtrType(convertreflecttype(t.Elem(), types))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		types[t] = et
+		*et = *NewSliceType(convertreflecttype(t.Elem(), types))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +553,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: convertreflecttype(field.Type, types),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From 1ed68d9073da19d80f16831df00006a57f72f3b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 33/42] fix: convert recursive map and function types

---
 expr/type.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 350ecb2..ac73d60 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -524,6 +524,8 @@ func convertreflecttype(t reflect.Type, types map[reflect.Type]Type) Type {
 	case reflect.Array:
 		return NewArrayType(t.Len(), convertreflecttype(t.Elem(), types))
 	case reflect.Func:
+		et := &FuncType{}
+		types[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
@@ -534,9 +536,14 @@ func convertreflecttype(t reflect.Type, types map[reflect.Type]Type) Type {
 		for i := 0; i < nout; i++ {
 			out = append(out, convertreflecttype(t.Out(i), types))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(convertreflecttype(t.Key(), types), convertreflecttype(t.Elem(), types))
+		et := &MapType{}
+		types[t] = et
+		et.key = convertreflecttype(t.Key(), types)
+		et.val = convertreflecttype(t.Elem(), types)
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
 		types[t] = et
-- 
2.43.0


From 7f392d34e668a598b53d1f5a8ffb71f8038488c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 34/42] fix: do not treat pointers as constant-size, types can
 be recursive

---
 field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/field.go b/field.go
index da8aa59..4fae792 100644
--- a/field.go
+++ b/field.go
@@ -348,7 +348,7 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-- 
2.43.0


From 3089327500c4ef3c6511cd060d4c9ee96ee0f86f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:15 +0000
Subject: [PATCH 35/42] fix: reject nil where it cannot adopt the type

---
 expr/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 686a5c1..6f39c15 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -141,6 +141,9 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedNil:
+		if !assignable(ftype, to) {
+			panic(ConversionError{From: ftype, To: to})
+		}
 		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
-- 
2.43.0


From b626362966d9002fc2769726cc9b6bcb2613a954 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 36/42] fix: keep the runtime type of operands that are
 combined with nil

---
 expr/value.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 6f39c15..8bc3b32 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -187,6 +187,14 @@ func equal(lhs Value, rhs Value) bool {
 }
 
 func coerce(lhs Value, rhs Value) (Value, Value) {
+	// Types can be recursive, so use the runtime type of the other operand.
+	switch lnil, rnil := lhs.Type().Kind() == UntypedNil, rhs.Type().Kind() == UntypedNil; {
+	case lnil && !rnil && assignable(lhs.Type(), rhs.Type()):
+		return val{reflect.Zero(rhs.Value().Type()), rhs.Type()}, rhs
+	case rnil && !lnil && assignable(rhs.Type(), lhs.Type()):
+		return lhs, val{reflect.Zero(lhs.Value().Type()), lhs.Type()}
+	}
+
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-- 
2.43.0


From ef3c2bad2ee0d12cd068aed9ffa6edee20d69d85 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:55 +0000
Subject: [PATCH 37/42] fix: read array lengths of types in tags as Go does

A length such as [010] was read as decimal and gave an array of another
length than the Go type it spells.
---
 typestr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typestr.go b/typestr.go
index 4dcc3a1..0a4ceb3 100644
--- a/typestr.go
+++ b/typestr.go
@@ -63,7 +63,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if lexpr.Kind != token.INT {
 				return nil, fmt.Errorf("invalid array size type")
 			}
-			len, err := strconv.Atoi(lexpr.Value)
+			len, err := strconv.ParseInt(lexpr.Value, 0, 0)
 			if err != nil {
 				return nil, err
 			}
@@ -73,7 +73,7 @@ func typeOfExpr(expr ast.Expr) (reflect.Type, error) {
 			if err != nil {
 				return nil, err
 			}
-			return reflect.ArrayOf(len, sub), nil
+			return reflect.ArrayOf(int(len), sub), nil
 		}
 	case *ast.Ident:
 		// Primitive types
-- 
2.43.0


From 232afbcb78262623bb855cc515a71e8836c5a35a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 38/42] fix: reject struct tags with a NUL character

What followed the character was ignored without an error.
---
 tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..2338126 100644
--- a/tag.go
+++ b/tag.go
@@ -71,6 +71,9 @@ func (opts *tagOptions) parse(tag string) error {
 	} else if tag == "-" {
 		opts.Ignore = true
 		return nil
+	} else if strings.IndexByte(tag, 0) >= 0 {
+		// NUL marks the end below.
+		return errors.New("tag: unexpected NUL character")
 	}
 
 	tag += "\x00"
-- 
2.43.0


From e6520ffa8bb5c9021a56f80c3345835c35675b32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:26 +0000
Subject: [PATCH 39/42] fix: give rune literals with byte escapes the value of
 the byte

---
 expr/lex.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index bcfe77f..6eaa4f9 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -393,8 +393,13 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
-		return token{kind: runetoken, ival: int64(r[0])}
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			// A byte escape is the value of the rune, not its encoding.
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r, _ := utf8.DecodeRune(b)
+		return token{kind: runetoken, ival: int64(r)}
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From deaf0b1d96b9386e0552bfbf0821c432d9f857b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:33 +0000
Subject: [PATCH 40/42] fix: Look up nil in maps with pointer keys by the type
 of the key

---
 expr/value.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index 8bc3b32..5936efc 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -894,7 +894,14 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(base(promote(rhs, NewPrimitiveType(Int))).RawValue().(int)), t.Elem()}
 	case *MapType:
-		key := promote(rhs, t.Key()).Value().Convert(v.v.Type().Key())
+		kt := v.v.Type().Key()
+		var key reflect.Value
+		if rhs.Type().Kind() == UntypedNil && assignable(rhs.Type(), t.Key()) {
+			// Types can be recursive, so use the runtime type of the key.
+			key = reflect.Zero(kt)
+		} else {
+			key = promote(rhs, t.Key()).Value().Convert(kt)
+		}
 		if mv := v.v.MapIndex(key); mv.IsValid() {
 			return val{mv, t.Value()}
 		}
-- 
2.43.0


From cc67ffd3e6b9cba37183ce1ce0eecf3b732d648b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:38 +0000
Subject: [PATCH 41/42] fix: Describe recursive types without recursing forever

---
 expr/type.go | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index ac73d60..0f0acdb 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -109,6 +109,33 @@ type Type interface {
 	String() string
 }
 
+// typestring describes a type. Types can be recursive: within outer, the types
+// being described, a type is left out.
+func typestring(t Type, outer []Type) string {
+	switch t.(type) {
+	case *ArrayType, *SliceType, *MapType, *PtrType:
+		for _, o := range outer {
+			if o == t {
+				return "..."
+			}
+		}
+		outer = append(outer[:len(outer):len(outer)], t)
+	}
+
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, outer))
+	case *SliceType:
+		return "[]" + typestring(t.elem, outer)
+	case *MapType:
+		return "map[" + typestring(t.key, outer) + "]" + typestring(t.val, outer)
+	case *PtrType:
+		return "*" + typestring(t.elem, outer)
+	default:
+		return t.String()
+	}
+}
+
 // PrimitiveType is the type of primitives.
 type PrimitiveType struct {
 	kind Kind
@@ -237,7 +264,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -267,7 +294,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -292,7 +319,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
@@ -369,7 +396,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return typestring(&t, nil)
 }
 
 // Kind implements Type.
-- 
2.43.0


From 89743db6f906db433be323e4d8bfa3ed963b24c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:26 +0000
Subject: [PATCH 42/42] fix: match string, bool and float cases with switches
 of named types

A switch on a named string, a named bool or a float32 never matched a
literal case, although == in an expression says they are equal.
---
 structstack.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/structstack.go b/structstack.go
index e692d79..b9f934c 100644
--- a/structstack.go
+++ b/structstack.go
@@ -20,8 +20,12 @@ func isUintKind(k reflect.Kind) bool {
 	return k >= reflect.Uint && k <= reflect.Uintptr
 }
 
-// caseEqual compares the value of a case with the value of its switch. The
-// types of integers do not matter, since literals do not have a type.
+func isFloatKind(k reflect.Kind) bool {
+	return k == reflect.Float32 || k == reflect.Float64
+}
+
+// caseEqual compares the value of a case with the value of its switch. Types
+// do not matter where the kinds agree, since literals do not have a type.
 func caseEqual(a, b interface{}) bool {
 	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
 	switch {
@@ -33,6 +37,15 @@ func caseEqual(a, b interface{}) bool {
 		return av.Int() >= 0 && uint64(av.Int()) == bv.Uint()
 	case isUintKind(av.Kind()) && isIntKind(bv.Kind()):
 		return bv.Int() >= 0 && av.Uint() == uint64(bv.Int())
+	case av.Kind() == reflect.String && bv.Kind() == reflect.String:
+		return av.String() == bv.String()
+	case av.Kind() == reflect.Bool && bv.Kind() == reflect.Bool:
+		return av.Bool() == bv.Bool()
+	case isFloatKind(av.Kind()) && isFloatKind(bv.Kind()):
+		if av.Kind() == reflect.Float32 || bv.Kind() == reflect.Float32 {
+			return float32(av.Float()) == float32(bv.Float())
+		}
+		return av.Float() == bv.Float()
 	}
 	return a == b
 }
-- 
2.43.0

