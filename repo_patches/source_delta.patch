From dce8434a3d04f9ddf2cafcdbe9042212d5a5dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 01/49] fix: check declared lengths against the remaining input
 when decoding

A character string of length 0, or a time shorter than four octets, panicked;
a length of up to 4 GB was allocated without looking at the datagram; dates,
times and skipped values accepted short reads and cleared an earlier error.
---
 encoding/date.go            | 19 +++++++++++++------
 encoding/decoder.go         | 28 +++++++++++++++++++++++++---
 encoding/readmultipleack.go |  6 ++----
 encoding/string.go          |  6 ++----
 4 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 9b9bd3c..ae69c26 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -1,6 +1,9 @@
 package encoding
 
-import "github.com/NubeDev/bacnet/btypes"
+import (
+	"fmt"
+	"github.com/NubeDev/bacnet/btypes"
+)
 
 // epochYear is an increment to all non-stored values. This year is chosen in
 // the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
@@ -46,12 +49,12 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 	if length <= 0 {
 		return
 	}
-	data := make([]byte, length)
-	_, d.err = d.Read(data)
+	data := d.take(length)
 	if d.err != nil {
 		return
 	}
-	if len(data) < 4 {
+	if len(data) < int(dateLen) {
+		d.err = fmt.Errorf("date needs %d octets, not %d", dateLen, length)
 		return
 	}
 
@@ -78,8 +81,12 @@ func (d *Decoder) time(t *btypes.Time, length int) {
 	if length <= 0 {
 		return
 	}
-	data := make([]byte, length)
-	if _, d.err = d.Read(data); d.err != nil {
+	data := d.take(length)
+	if d.err != nil {
+		return
+	}
+	if len(data) < int(timeLen) {
+		d.err = fmt.Errorf("time needs %d octets, not %d", timeLen, length)
 		return
 	}
 
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 66c8438..6e805d6 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"github.com/NubeDev/bacnet/btypes"
+	"io"
 )
 
 // Decoder used
@@ -39,10 +40,29 @@ func (d *Decoder) Read(data []byte) (int, error) {
 }
 
 func (d *Decoder) Skip(n uint32) error {
-	_, d.err = d.buff.Read(make([]byte, n))
+	if d.err == nil && uint64(n) > uint64(d.len()) {
+		d.err = io.ErrUnexpectedEOF
+	}
+	if d.err == nil {
+		d.buff.Next(int(n))
+	}
 	return d.err
 }
 
+// take returns the next n bytes. If the input does not hold that many bytes the
+// error is set and nil is returned.
+func (d *Decoder) take(n int) []byte {
+	if d.err == nil && (n < 0 || n > d.len()) {
+		d.err = io.ErrUnexpectedEOF
+	}
+	if d.err != nil {
+		return nil
+	}
+	data := make([]byte, n)
+	d.decode(data)
+	return data
+}
+
 func (d *Decoder) UnreadByte() error {
 	return d.buff.UnreadByte()
 }
@@ -186,8 +206,10 @@ func (d *Decoder) bitString(length int) *btypes.BitString {
 	if length <= 0 {
 		return nil
 	}
-	data := make([]uint8, length)
-	d.decode(data)
+	data := d.take(length)
+	if d.err != nil {
+		return nil
+	}
 	//refer to  https://github.com/bacnet-stack/bacnet-stack/blob/bacnet-stack-0.9.1/src/bacdcode.c#L672
 	bs := btypes.NewBitString(length - 1)
 	/* the lower 3 bits of the first byte contains the unused bits in the remain bytes and the remain bytes contain the bit masks*/
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 07966eb..e5daef9 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -184,10 +184,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
 								//skip unknown type
-								if lenValue > 0 {
-									if _, err := d.Read(make([]byte, lenValue)); err != nil {
-										return err
-									}
+								if err := d.Skip(lenValue); err != nil {
+									return err
 								}
 							} else {
 								data, err := d.AppDataOfTag(tag, int(lenValue))
diff --git a/encoding/string.go b/encoding/string.go
index e5548d0..c4b793d 100644
--- a/encoding/string.go
+++ b/encoding/string.go
@@ -38,8 +38,7 @@ func (d *Decoder) string(s *string, len int) error {
 	default:
 		return fmt.Errorf("unsupported string format %d", t)
 	}
-	b := make([]byte, len)
-	d.decode(b)
+	b := d.take(len)
 
 	if t == characterUCS2 {
 		out, err := decodeUCS2(string(b))
@@ -58,6 +57,5 @@ func (e *Encoder) octetstring(b []byte) {
 	e.write([]byte(b))
 }
 func (d *Decoder) octetstring(b *[]byte, len int) {
-	*b = make([]byte, len)
-	d.decode(b)
+	*b = d.take(len)
 }
-- 
2.43.0


From 0d11a37bbc35e747db1b9f8754b7782cb31db66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:05 +0000
Subject: [PATCH 02/49] fix: stop decoding a ReadPropertyMultiple ack at the
 end of the input

A truncated value list, an unterminated date-time or a nested closing tag made
the decoder loop for ever (appending to the result), and every context tagged
value appended the object to the result once more.
---
 encoding/readmultipleack.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index e5daef9..a04fcd9 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -154,14 +154,14 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 				if d.err != nil {
 					return d.err
 				}
-				for {
+				for !(meta.isClosing() && tag == 4) {
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
-							_ = d.UnreadByte()
+							// end of a nested constructed value
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
-								for {
+								for d.err == nil {
 									tag, meta, length = d.tagNumberAndValue()
 									if meta.isClosing() && tag == btypes.TimeStampDatetime {
 										break
@@ -177,9 +177,6 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							}
 						} else {
 							// TODO how to parse it in Context???
-							*objects = append(*objects, obj)
-							//return nil
-
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
 							if tag == maxTag {
@@ -203,12 +200,9 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 						array = append(array, data)
 					}
 					tag, meta = d.tagNumber()
-					if meta.isClosing() && tag == 4 { //tag 4
-						//
-						break
-					} /*else {
-						_ = d.UnreadByte()
-					}*/
+					if d.err != nil {
+						return d.err
+					}
 				}
 				if len(array) == 1 {
 					prop.Data = array[0]
-- 
2.43.0


From b4afbadb9c350ec32dcc09b05e2df576269563a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 03/49] fix: report a ReadPropertyMultiple ack that ends inside
 an object

A reply cut off after a property tag, or with anything but the closing tag of
the property list, was returned as a complete object without an error.
---
 encoding/readmultipleack.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index a04fcd9..ec86c33 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -123,7 +123,7 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			return &ErrorIncorrectTag{Expected: 2, Given: tag}
 		}
 
-		for d.len() > 0 && tag == 2 && !meta.isClosing() {
+		for d.err == nil && tag == 2 && !meta.isClosing() {
 			if !meta.isContextSpecific() {
 				return &ErrorWrongTagType{ContextTag}
 			}
@@ -229,6 +229,14 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 			}
 		}
 
+		// Tag 1 - Closing Tag
+		if d.err != nil {
+			return d.err
+		} else if tag != 1 {
+			return &ErrorIncorrectTag{Expected: 1, Given: tag}
+		} else if !meta.isClosing() {
+			return &ErrorWrongTagType{ClosingTag}
+		}
 		*objects = append(*objects, obj)
 	}
 	return d.Error()
-- 
2.43.0


From 88258eae8b418fd80bf9854f5f18cb1d2a81b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:34 +0000
Subject: [PATCH 04/49] fix: decode the class and code of an Error PDU

The tag octets were taken for the values (the code was always 0x91), and a
truncated Error PDU was returned without an error.
---
 encoding/apdu.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/encoding/apdu.go b/encoding/apdu.go
index 3ffc544..a0ecb41 100644
--- a/encoding/apdu.go
+++ b/encoding/apdu.go
@@ -123,18 +123,12 @@ func (d *Decoder) apduError(a *btypes.APDU) error {
 			return &ErrorWrongTagType{ClosingTag}
 		}
 	} else {
-		_, m, _ := d.tagNumberAndValue()
-		a.Error.Class = bacerr.ErrorClass(m)
-		_, m, _ = d.tagNumberAndValue()
-		a.Error.Code = bacerr.ErrorCode(m)
-		//TODO was like this but didnt work need to test more (changed to but as above)
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Class = d.unsigned(int(value))
-		//t, m, value := d.tagNumberAndValue()
-		//a.Error.Code = d.unsigned(int(value))
-
+		// the tag of the class has been read above
+		a.Error.Class = bacerr.ErrorClass(d.unsigned(int(d.value(meta))))
+		_, _, value := d.tagNumberAndValue()
+		a.Error.Code = bacerr.ErrorCode(d.unsigned(int(value)))
 	}
-	return nil
+	return d.Error()
 }
 
 func (d *Decoder) apduComplexAck(a *btypes.APDU) error {
-- 
2.43.0


From 7d173e1d00e14b4e98e51b23868a07e8bd2a8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:55 +0000
Subject: [PATCH 05/49] fix: sign extend 24 bit integers

-1 sent in three octets was decoded as 16777215.
---
 encoding/decoder.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/encoding/decoder.go b/encoding/decoder.go
index 6e805d6..58fddc7 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -169,16 +169,8 @@ func (d *Decoder) unsigned(length int) uint32 {
 }
 
 func (d *Decoder) signed24() int32 {
-	var a, b, c int8
-	d.decode(&a)
-	d.decode(&b)
-	d.decode(&c)
-
-	var x int32
-	x = int32((int32(a) << 16) & 0x00ff0000)
-	x |= int32((int32(b) << 8) & 0x0000ff00)
-	x |= int32(int32(c) & 0x000000ff)
-	return x
+	// shift the sign bit into place and back to extend it
+	return int32(d.unsigned24()<<8) >> 8
 }
 
 func (d *Decoder) signed(length int) int32 {
-- 
2.43.0


From 1b010a62dd1c9aed6808b4d2ae971307230637e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:57 +0000
Subject: [PATCH 06/49] fix: reject values whose declared length is not the
 length decoded

Integers of any other length than 1 to 4 octets were returned as 0, and reals,
doubles and object ids of the wrong length were decoded with the default length,
so that everything after them was misread. Doubles were encoded with the length
of a real.
---
 encoding/appdata.go | 13 +++++++++++--
 encoding/decoder.go | 10 ++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index bc43fbc..c1b8087 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -93,7 +93,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagReal, Context: appLayerContext, Value: realLen})
 		e.real(val)
 	case float64:
-		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: realLen})
+		e.tag(tagInfo{ID: tagDouble, Context: appLayerContext, Value: doubleLen})
 		e.double(val)
 	case bool:
 		e.boolean(val)
@@ -133,7 +133,7 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	switch tag {
 	case tagNull:
-		return null.Null{}, nil
+		return null.Null{}, d.Error()
 	case tagBool:
 		// Originally this was in C so non 0 values are considered
 		// true
@@ -143,10 +143,16 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 	case tagInt:
 		return d.signed(len), d.Error()
 	case tagReal:
+		if len != int(realLen) {
+			d.invalidLength(len)
+		}
 		var x float32
 		d.real(&x)
 		return x, d.Error()
 	case tagDouble:
+		if len != int(doubleLen) {
+			d.invalidLength(len)
+		}
 		var x float64
 		d.double(&x)
 		return x, d.Error()
@@ -173,6 +179,9 @@ func (d *Decoder) AppDataOfTag(tag uint8, len int) (interface{}, error) {
 		d.time(&t, len)
 		return t, d.Error()
 	case tagObjectID:
+		if len != int(objectIDLen) {
+			d.invalidLength(len)
+		}
 		objType, objInstance := d.objectId()
 		return btypes.ObjectID{
 			Type:     btypes.ObjectType(objType),
diff --git a/encoding/decoder.go b/encoding/decoder.go
index 58fddc7..e9e82c8 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -3,6 +3,7 @@ package encoding
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 	"io"
 )
@@ -147,6 +148,13 @@ func (d *Decoder) unsigned24() uint32 {
 	return x
 }
 
+// invalidLength sets the error for a value that can not have the length given
+func (d *Decoder) invalidLength(length int) {
+	if d.err == nil {
+		d.err = fmt.Errorf("unsupported length %d", length)
+	}
+}
+
 func (d *Decoder) unsigned(length int) uint32 {
 	switch length {
 	case size8: //1
@@ -164,6 +172,7 @@ func (d *Decoder) unsigned(length int) uint32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength(length)
 		return 0
 	}
 }
@@ -190,6 +199,7 @@ func (d *Decoder) signed(length int) int32 {
 		d.decode(&val)
 		return val
 	default:
+		d.invalidLength(length)
 		return 0
 	}
 }
-- 
2.43.0


From d8e8b8a511fa6653f766abc1bc32f7fb2ff5e79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:20 +0000
Subject: [PATCH 07/49] fix: report a wrong value type for a binary point
 instead of panicking

The unchecked type assertion came before the checked one.
---
 encoding/appdata.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index c1b8087..7ee8343 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -74,7 +74,6 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 	}
 	//if point type is a BO or BV then set the type to type enum (data type 9)
 	if typeBVBO {
-		v := i.(uint32)
 		v, ok := i.(uint32)
 		if ok {
 			length := valueLength(v)
-- 
2.43.0


From 90ecadaea1131637338dec7ebe56fc8ebe46c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:22 +0000
Subject: [PATCH 08/49] fix: encode signed integers in two's complement of the
 right length

The length of the unsigned value was used, so that 128 was sent as the single
octet 0x80, which is -128.
---
 encoding/appdata.go |  5 ++---
 encoding/encoder.go |  7 +++++++
 encoding/general.go | 12 ++++++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/encoding/appdata.go b/encoding/appdata.go
index 7ee8343..9872b5e 100644
--- a/encoding/appdata.go
+++ b/encoding/appdata.go
@@ -105,10 +105,9 @@ func (e *Encoder) AppData(i interface{}, typeBVBO bool) error {
 		e.tag(tagInfo{ID: tagUint, Context: appLayerContext, Value: uint32(length)})
 		e.unsigned(val)
 	case int32:
-		v := uint32(val)
-		length := valueLength(v)
+		length := signedLength(val)
 		e.tag(tagInfo{ID: tagInt, Context: appLayerContext, Value: uint32(length)})
-		e.unsigned(v)
+		e.signed(val, length)
 	// Enumerated is pretty much a wrapper for a uint32 with an enumerated associated with it.
 	case btypes.Enumerated:
 		v := uint32(val)
diff --git a/encoding/encoder.go b/encoding/encoder.go
index 90b0a56..6bf6e73 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -156,6 +156,13 @@ func (e *Encoder) unsigned(value uint32) {
 	}
 }
 
+// signed writes the lower length octets of the two's complement value
+func (e *Encoder) signed(value int32, length int) {
+	for i := length - 1; i >= 0; i-- {
+		e.write(uint8(value >> (8 * uint(i))))
+	}
+}
+
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
diff --git a/encoding/general.go b/encoding/general.go
index a0b34c3..82f4beb 100644
--- a/encoding/general.go
+++ b/encoding/general.go
@@ -14,6 +14,18 @@ func valueLength(value uint32) int {
 	return size32
 }
 
+// signedLength calculates how many octets the two's complement value needs
+func signedLength(value int32) int {
+	if value >= -0x80 && value < 0x80 {
+		return size8
+	} else if value >= -0x8000 && value < 0x8000 {
+		return size16
+	} else if value >= -0x800000 && value < 0x800000 {
+		return size24
+	}
+	return size32
+}
+
 /* from clause 20.2.1.3.2 Constructed Data */
 /* true if the tag is an opening tag */
 func isOpeningTag(x uint8) bool {
-- 
2.43.0


From d16f55f209827ef72628f8f9d6adc8c8dc415d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 09/49] fix: decode an unspecified year as unspecified

The year of the output was looked at before it was decoded, so that 0xFF became
2245. A date or time without octets is reported as well now.
---
 encoding/date.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index ae69c26..14d12c4 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -46,9 +46,6 @@ func (e *Encoder) date(dt btypes.Date) {
 }
 
 func (d *Decoder) date(dt *btypes.Date, length int) {
-	if length <= 0 {
-		return
-	}
 	data := d.take(length)
 	if d.err != nil {
 		return
@@ -58,10 +55,9 @@ func (d *Decoder) date(dt *btypes.Date, length int) {
 		return
 	}
 
+	dt.Year = int(data[0])
 	if dt.Year != btypes.UnspecifiedTime {
-		dt.Year = int(data[0]) + epochYear
-	} else {
-		dt.Year = int(data[0])
+		dt.Year += epochYear
 	}
 
 	dt.Month = int(data[1])
@@ -78,9 +74,6 @@ func (e *Encoder) time(t btypes.Time) {
 	e.write(uint8(t.Millisecond / 10))
 }
 func (d *Decoder) time(t *btypes.Time, length int) {
-	if length <= 0 {
-		return
-	}
 	data := d.take(length)
 	if d.err != nil {
 		return
-- 
2.43.0


From afc8cc6359b3fe9e6d29f6902e000b9136babaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:48 +0000
Subject: [PATCH 10/49] fix: send the priority of a WritePropertyMultiple with
 context tag 3

Tag 2 is the value, so devices rejected every write with a priority.
---
 encoding/encoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 6bf6e73..85244db 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -199,7 +199,9 @@ func (e *Encoder) properties(properties []btypes.Property, write bool) error {
 			e.AppData(prop.Data, false)
 			// Tag 2 - Closing Tag
 			e.closingTag(tag)
+			// Tag 3 (OPTIONAL) - Priority
 			if prop.Priority != btypes.Normal {
+				tag = 3
 				e.contextUnsigned(tag, uint32(prop.Priority))
 			}
 		}
-- 
2.43.0


From 71aeb1f3003f95eb22f12fdfaced1d421c7e8e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 11/49] fix: close the tags of the read acks and encode their
 data with a tag

ReadPropertyAck closed tag 4 after opening tag 3, and ReadMultiplePropertyAck
wrote the bare value twice.
---
 encoding/readmultipleack.go | 4 +---
 encoding/readprop.go        | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index ec86c33..53d28fe 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -54,10 +54,8 @@ func (e *Encoder) propertiesWithData(properties []btypes.Property) error {
 		tag++
 		openedTag := tag
 		e.openingTag(openedTag)
-		e.write(prop.Data)
+		e.AppData(prop.Data, false)
 		e.closingTag(openedTag)
-
-		e.write(prop.Data)
 	}
 	return e.Error()
 }
diff --git a/encoding/readprop.go b/encoding/readprop.go
index a2f17a4..c7297f0 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -69,7 +69,6 @@ func (e *Encoder) ReadPropertyAck(invokeID uint8, data btypes.PropertyData) erro
 	}
 
 	e.openingTag(tagID)
-	tagID++
 	prop := data.Object.Properties[0]
 	e.AppData(prop.Data, false)
 	e.closingTag(tagID)
-- 
2.43.0


From 3ef3072b5e1bb832fa56714824bc143fef684cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 12/49] fix: do not send requests whose encoding failed

A request without a property panicked. The error for an object type or property
out of range was dropped and the truncated request sent; an instance out of range
(and, for the multiple services, an object type) was cut to its lower bits, which
addresses another object.
---
 encoding/encoder.go         | 3 +++
 encoding/readmultipleack.go | 3 +++
 encoding/readprop.go        | 9 +++++++--
 encoding/validate.go        | 7 +++++++
 writemulti.go               | 6 +++---
 writeprop.go                | 6 +++---
 6 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/encoding/encoder.go b/encoding/encoder.go
index 85244db..b578b22 100644
--- a/encoding/encoder.go
+++ b/encoding/encoder.go
@@ -166,6 +166,9 @@ func (e *Encoder) signed(value int32, length int) {
 func (e *Encoder) objects(objects []btypes.Object, write bool) error {
 	var tag uint8
 	for _, obj := range objects {
+		if err := isValidObjectID(obj.ID); err != nil {
+			return err
+		}
 		tag = 0
 		e.contextObjectID(tag, obj.ID.Type, obj.ID.Instance)
 		// Tag 1 - Opening Tag
diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 53d28fe..0c93ed3 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -23,6 +23,9 @@ func (e *Encoder) ReadMultiplePropertyAck(invokeID uint8, data btypes.MultiplePr
 func (e *Encoder) objectsWithData(objects []btypes.Object) error {
 	var tag uint8
 	for _, obj := range objects {
+		if err := isValidObjectID(obj.ID); err != nil {
+			return err
+		}
 		tag = 0
 		e.contextObjectID(tag, obj.ID.Type, obj.ID.Instance)
 		// Tag 1 - Opening Tag
diff --git a/encoding/readprop.go b/encoding/readprop.go
index c7297f0..81fd556 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -8,9 +8,12 @@ import (
 
 func (e *Encoder) readPropertyHeader(tagPos uint8, data *btypes.PropertyData) (uint8, error) {
 	// Validate data first
-	if err := isValidObjectType(data.Object.ID.Type); err != nil {
+	if err := isValidObjectID(data.Object.ID); err != nil {
 		return 0, err
 	}
+	if len(data.Object.Properties) == 0 {
+		return 0, fmt.Errorf("no property given")
+	}
 	if err := isValidPropertyType(uint32(data.Object.Properties[0].Type)); err != nil {
 		return 0, err
 	}
@@ -44,7 +47,9 @@ func (e *Encoder) ReadProperty(invokeID uint8, data btypes.PropertyData) error {
 		SegmentedMessage: false,
 	}
 	e.APDU(a)
-	e.readPropertyHeader(initialTagPos, &data)
+	if _, err := e.readPropertyHeader(initialTagPos, &data); err != nil {
+		return err
+	}
 	return e.Error()
 }
 
diff --git a/encoding/validate.go b/encoding/validate.go
index dad8923..0e2c11a 100644
--- a/encoding/validate.go
+++ b/encoding/validate.go
@@ -13,6 +13,13 @@ func isValidObjectType(idType btypes.ObjectType) error {
 	return nil
 }
 
+func isValidObjectID(id btypes.ObjectID) error {
+	if id.Instance > MaxInstance {
+		return fmt.Errorf("Object instance is %d which must not be more then %d", id.Instance, MaxInstance)
+	}
+	return isValidObjectType(id.Type)
+}
+
 func isValidPropertyType(propType uint32) error {
 	if propType > MaxPropertyID {
 		return fmt.Errorf("Object btypes is %d which must be less then %d", propType, MaxPropertyID)
diff --git a/writemulti.go b/writemulti.go
index e65a189..4a1b95f 100644
--- a/writemulti.go
+++ b/writemulti.go
@@ -30,9 +30,9 @@ func (c *client) WriteMultiProperty(dev btypes.Device, wp btypes.MultiplePropert
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
 
-	enc.WriteMultiProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteMultiProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 
 	pack := enc.Bytes()
diff --git a/writeprop.go b/writeprop.go
index ed6c39a..e262b0a 100644
--- a/writeprop.go
+++ b/writeprop.go
@@ -28,9 +28,9 @@ func (c *client) WriteProperty(device btypes.Device, wp btypes.PropertyData) err
 	}
 	enc := encoding.NewEncoder()
 	enc.NPDU(npdu)
-	enc.WriteProperty(uint8(id), wp)
-	if enc.Error() != nil {
-		return enc.Error()
+	err = enc.WriteProperty(uint8(id), wp)
+	if err != nil {
+		return err
 	}
 	// the value filled doesn't matter. it just needs to be non nil
 	err = fmt.Errorf("go")
-- 
2.43.0


From b62c4249d0a2a1c718b1b74ec8ecdeb9a29e2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 13/49] fix: decode every network of an I-Am-Router-To-Network

Exactly two networks were decoded: a list of one was an error and dropped, of a
longer list the rest was lost. The vendor id was not decoded for message type
0x80, for which it is encoded, and a priority above 3 changed other control bits.
---
 encoding/npdu.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/encoding/npdu.go b/encoding/npdu.go
index b2bdf4c..8a2fd19 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -104,7 +104,7 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 
 	if meta.IsNetworkLayerMessage() {
 		d.decode(&n.NetworkLayerMessageType)
-		if n.NetworkLayerMessageType > 0x80 {
+		if n.NetworkLayerMessageType >= 0x80 {
 			d.decode(&n.VendorId)
 		}
 		if n.NetworkLayerMessageType == ndpu.NetworkIs { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
@@ -113,19 +113,21 @@ func (d *Decoder) NPDU(n *btypes.NPDU) (addr []btypes.Address, err error) {
 		}
 		if n.NetworkLayerMessageType == ndpu.IamRouterToNetwork { //used for decoding a bacnet network number on a What-Is-Network-Number 0x12
 			n.Source = &btypes.Address{}
-			var nets []btypes.Address
 			d.decode(&n.Source.Net) //decode the first network
-			nets = append(nets, *n.Source)
-			size := d.len()
-			for i := d.len(); i <= size; i++ {
-				d.decode(&n.Source.Net)
-				for _, adr := range nets {
-					if adr.Net != n.Source.Net { //make sure that a network is only added once
-						nets = append(nets, *n.Source)
+			addr = append(addr, *n.Source)
+			for d.err == nil && d.len() > 0 {
+				var next btypes.Address
+				d.decode(&next.Net)
+				found := false
+				for _, adr := range addr {
+					if adr.Net == next.Net { //make sure that a network is only added once
+						found = true
 					}
 				}
+				if !found {
+					addr = append(addr, next)
+				}
 			}
-			addr = nets
 		}
 	}
 	return addr, d.Error()
@@ -167,9 +169,8 @@ func (n *NPDUMetadata) Priority() btypes.NPDUPriority {
 
 // SetPriority for NPDU
 func (n *NPDUMetadata) SetPriority(p btypes.NPDUPriority) {
-	// Clear the first two bits
-	//*n &= (0xF - 3)
-	*n |= NPDUMetadata(p)
+	// Only the first two bits
+	*n = *n&^3 | NPDUMetadata(p)&3
 }
 
 func (n *NPDUMetadata) HasDestination() bool {
-- 
2.43.0


From ae05eef1039309bfc62e2bc48ac1ea15b7a9baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:31 +0000
Subject: [PATCH 14/49] fix: send the length the hardware address has

The length was 0 for addresses that did not go through SetLength (as in
WriteMultiProperty and IAm), and 1 for longer addresses, so that the octets of
the address were read as what follows it.
---
 btypes/address.go | 4 ++--
 encoding/npdu.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/btypes/address.go b/btypes/address.go
index 2f754e3..a2a086b 100644
--- a/btypes/address.go
+++ b/btypes/address.go
@@ -24,10 +24,10 @@ func (a *Address) IsBroadcast() bool {
 	return false
 }
 
-//SetLength if device is of type ms-tp then set address len to 1
+//SetLength if device is on another network then set the len of its hardware address
 func (a *Address) SetLength() {
 	if len(a.Adr) > 0 {
-		a.Len = 1
+		a.Len = uint8(len(a.Adr))
 	}
 	return
 }
diff --git a/encoding/npdu.go b/encoding/npdu.go
index 8a2fd19..4dd0e18 100644
--- a/encoding/npdu.go
+++ b/encoding/npdu.go
@@ -35,7 +35,7 @@ func (e *Encoder) NPDU(n *btypes.NPDU) {
 		e.write(n.Destination.Net)
 
 		// Address
-		e.write(n.Destination.Len)
+		e.write(uint8(len(n.Destination.Adr)))
 		e.write(n.Destination.Adr)
 	}
 
@@ -43,7 +43,7 @@ func (e *Encoder) NPDU(n *btypes.NPDU) {
 		e.write(n.Source.Net)
 
 		// Address
-		e.write(n.Source.Len)
+		e.write(uint8(len(n.Source.Adr)))
 		e.write(n.Source.Adr)
 	}
 
-- 
2.43.0


From 6dad44128ac0751f2cf69708a91b3275d126df7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:33 +0000
Subject: [PATCH 15/49] fix: reject an I-Am whose fields have the wrong type

The fields kept their zero values without an error, so that a malformed I-Am was
published as device 0.
---
 encoding/iam.go | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/encoding/iam.go b/encoding/iam.go
index dba2a6e..dc9d9d8 100644
--- a/encoding/iam.go
+++ b/encoding/iam.go
@@ -1,6 +1,7 @@
 package encoding
 
 import (
+	"fmt"
 	"github.com/NubeDev/bacnet/btypes"
 )
 
@@ -24,20 +25,32 @@ func (d *Decoder) IAm(id *btypes.IAm) error {
 	if err != nil {
 		return err
 	}
-	if i, ok := objID.(btypes.ObjectID); ok {
-		id.ID = i
-	}
-	maxapdu, _ := d.AppData()
-	if m, ok := maxapdu.(uint32); ok {
-		id.MaxApdu = m
+	maxapdu, err := d.AppData()
+	if err != nil {
+		return err
 	}
-	segmentation, _ := d.AppData()
-	if m, ok := segmentation.(uint32); ok {
-		id.Segmentation = btypes.Enumerated(m)
+	segmentation, err := d.AppData()
+	if err != nil {
+		return err
 	}
 	vendor, err := d.AppData()
-	if v, ok := vendor.(uint32); ok {
-		id.Vendor = v
+	if err != nil {
+		return err
+	}
+	var ok bool
+	if id.ID, ok = objID.(btypes.ObjectID); !ok {
+		return fmt.Errorf("I-Am object id has type %T", objID)
+	}
+	if id.MaxApdu, ok = maxapdu.(uint32); !ok {
+		return fmt.Errorf("I-Am max APDU has type %T", maxapdu)
+	}
+	m, ok := segmentation.(uint32)
+	if !ok {
+		return fmt.Errorf("I-Am segmentation has type %T", segmentation)
+	}
+	id.Segmentation = btypes.Enumerated(m)
+	if id.Vendor, ok = vendor.(uint32); !ok {
+		return fmt.Errorf("I-Am vendor has type %T", vendor)
 	}
 	return d.Error()
 }
-- 
2.43.0


From 65361b917abb647eaa01917daefa903b90049f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 16/49] fix: keep bit strings within their octets

Bits and octets were checked against the largest bit string and not against this
one, so that reading a short bit string from a device could panic; more unused
bits than bits wrapped around; an empty bit string was decoded to a nil pointer
and one of more than 15 octets to zeros.
---
 btypes/bitstring.go | 14 ++++++++++----
 encoding/decoder.go |  3 ++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/btypes/bitstring.go b/btypes/bitstring.go
index 3ae01a0..ad694f0 100644
--- a/btypes/bitstring.go
+++ b/btypes/bitstring.go
@@ -13,6 +13,9 @@ func NewBitString(bufferSize int) *BitString {
 	if bufferSize > MaxBitStringBytes {
 		bufferSize = MaxBitStringBytes
 	}
+	if bufferSize < 0 {
+		bufferSize = 0
+	}
 	return &BitString{
 		BitUsed: 0,
 		Value:   make([]byte, bufferSize),
@@ -39,7 +42,7 @@ func (bs *BitString) String() string {
 func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 	byteNumber := bitNumber / 8
 	var bitMask uint8 = 1
-	if byteNumber < MaxBitStringBytes {
+	if int(byteNumber) < len(bs.Value) {
 		/* set max bits used */
 		if bs.BitUsed < (bitNumber + 1) {
 			bs.BitUsed = bitNumber + 1
@@ -56,7 +59,7 @@ func (bs *BitString) SetBit(bitNumber uint8, value bool) {
 func (bs *BitString) Bit(bitNumber uint8) bool {
 	byteNumber := bitNumber / 8
 	bitMask := uint8(1)
-	if bitNumber < (MaxBitStringBytes * 8) {
+	if int(byteNumber) < len(bs.Value) {
 		bitMask = bitMask << (bitNumber - (byteNumber * 8))
 		return (bs.Value[byteNumber] & bitMask) != 0
 	}
@@ -75,14 +78,14 @@ func (bs *BitString) BytesUsed() uint8 {
 }
 
 func (bs *BitString) Byte(index uint8) byte {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		return bs.Value[index]
 	}
 	return 0
 }
 
 func (bs *BitString) SetByte(index uint8, value byte) bool {
-	if bs != nil && index < MaxBitStringBytes {
+	if bs != nil && int(index) < len(bs.Value) {
 		bs.Value[index] = value
 		return true
 	}
@@ -91,6 +94,9 @@ func (bs *BitString) SetByte(index uint8, value byte) bool {
 
 func (bs *BitString) SetBitsUsed(byteUsed uint8, bitsUnused uint8) bool {
 	if bs != nil {
+		if int(byteUsed) > len(bs.Value) || int(bitsUnused) > int(byteUsed)*8 {
+			return false
+		}
 		bs.BitUsed = byteUsed*8 - bitsUnused
 		return true
 	}
diff --git a/encoding/decoder.go b/encoding/decoder.go
index e9e82c8..e6f57a4 100644
--- a/encoding/decoder.go
+++ b/encoding/decoder.go
@@ -205,7 +205,8 @@ func (d *Decoder) signed(length int) int32 {
 }
 
 func (d *Decoder) bitString(length int) *btypes.BitString {
-	if length <= 0 {
+	if length <= 0 || length-1 > btypes.MaxBitStringBytes {
+		d.invalidLength(length)
 		return nil
 	}
 	data := d.take(length)
-- 
2.43.0


From d2f14e11d1d4c969e347d432ac651c95cca2e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:18 +0000
Subject: [PATCH 17/49] fix: skip the origin address of a forwarded NPDU

The six octets of the address were decoded as the start of the NPDU, and a
forwarded message of less than 14 octets panicked in the receiving goroutine.
---
 device.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/device.go b/device.go
index 9413d79..f0bb748 100644
--- a/device.go
+++ b/device.go
@@ -141,7 +141,19 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 
 	if header.Function == btypes.BacFuncBroadcast || header.Function == btypes.BacFuncUnicast || header.Function == btypes.BacFuncForwardedNPDU {
 		// Remove the header information
-		b = b[mtuHeaderLength:]
+		if header.Function == btypes.BacFuncForwardedNPDU {
+			// The address of the device that sent the message precedes the NPDU
+			if len(b) < forwardHeaderLength {
+				c.log.Error("forwarded NPDU is too short")
+				return
+			}
+			mac := append([]byte{}, b[mtuHeaderLength:forwardHeaderLength]...)
+			src = &btypes.Address{Mac: mac, MacLen: uint8(len(mac))}
+			b = b[forwardHeaderLength:]
+			dec = encoding.NewDecoder(b)
+		} else {
+			b = b[mtuHeaderLength:]
+		}
 		networkList, err := dec.NPDU(&npdu)
 		if err != nil {
 			return
@@ -230,14 +242,6 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			log.WithFields(log.Fields{"raw": b}).Debug("An ignored packet went through")
 		}
 	}
-
-	if header.Function == btypes.BacFuncForwardedNPDU {
-		// Right now we are ignoring the NPDU data that is stored in the packet. Eventually
-		// we will need to check it for any additional information we can gleam.
-		// NDPU has source
-		b = b[forwardHeaderLength:]
-		c.log.Debug("Ignored NDPU Forwarded")
-	}
 }
 
 type SetBroadcastType struct { //used to override the header.Function
-- 
2.43.0


From bb620a565151c3644314dd84528a3fde3d54a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:20 +0000
Subject: [PATCH 18/49] fix: deliver only acks and errors to the transactions

A confirmed request sent by another device was handed to our transaction with the
same invoke id as its reply (WriteProperty reported success), and what follows a
network layer message was decoded as an APDU.
---
 device.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/device.go b/device.go
index f0bb748..5527a5b 100644
--- a/device.go
+++ b/device.go
@@ -163,13 +163,12 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 			c.log.Debug("Ignored Network Layer Message")
 			if npdu.NetworkLayerMessageType == ndpu.NetworkIs {
 				c.utsm.Publish(int(npdu.Source.Net), npdu)
-				//return
 			}
 			if npdu.NetworkLayerMessageType == ndpu.IamRouterToNetwork {
 				c.utsm.Publish(int(npdu.Source.Net), networkList)
-				//return
 			}
-
+			// there is no APDU in a network layer message
+			return
 		}
 
 		// We want to keep the APDU intact, so we will get a snapshot before decoding
@@ -226,11 +225,8 @@ func (c *client) handleMsg(src *btypes.Address, b []byte) {
 				return
 			}
 		case btypes.ConfirmedServiceRequest:
-			c.log.Debug("Received  Confirmed Service Request")
-			err := c.tsm.Send(int(apdu.InvokeId), send)
-			if err != nil {
-				return
-			}
+			// A request of another device, whose invoke id has nothing to do with ours
+			c.log.Debug("Ignored Confirmed Service Request")
 		case btypes.Error:
 			err := fmt.Errorf("error class %s code %s", apdu.Error.Class.String(), apdu.Error.Code.String())
 			err = c.tsm.Send(int(apdu.InvokeId), err)
-- 
2.43.0


From 0b1109d25a32b68f205369b09ed7408421fde8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:55 +0000
Subject: [PATCH 19/49] fix: do not block or panic on a reply nobody waits for

A second or late reply blocked the handler in Send until Put closed the channel,
which made the send panic.
---
 tsm/transactions.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tsm/transactions.go b/tsm/transactions.go
index e892593..e2a782f 100644
--- a/tsm/transactions.go
+++ b/tsm/transactions.go
@@ -63,17 +63,23 @@ func New(size int) *TSM {
 	return t
 }
 
-// Send data to invoked id
+// Send data to invoked id. It does not wait for the receiver: the data is kept
+// until it is received or the id is put back.
 func (t *TSM) Send(id int, b interface{}) error {
+	// Hold the lock so that the channel is not closed while we are sending
 	t.mutex.Lock()
-	s, ok := t.states[id]
-	t.mutex.Unlock()
+	defer t.mutex.Unlock()
 
+	s, ok := t.states[id]
 	if !ok {
 		return fmt.Errorf("id %d is not receiving", id)
 	}
-	s.data <- b
-	return nil
+	select {
+	case s.data <- b:
+		return nil
+	default:
+		return fmt.Errorf("id %d has not received the last data yet", id)
+	}
 }
 
 // Receive attempts to receive a byte array from the invoked id. If a time out
@@ -120,7 +126,7 @@ func (t *TSM) ID(ctx context.Context) (int, error) {
 	s := t.pool.Get().(*state)
 	s.state = idle
 	s.requestTimer = 0 // TODO: apdu_timeout
-	s.data = make(chan interface{})
+	s.data = make(chan interface{}, 1)
 
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
-- 
2.43.0


From d57deb3a0225922b6cf5553ba95f01c86e98897b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:01 +0000
Subject: [PATCH 20/49] fix: do not hold the locks while waiting for a
 subscriber

Publish kept both mutexes while it waited for space in the channel of a
subscriber, which locks one of them before it reads the channel again and the
other when it leaves: a burst of I-Am replies made WhoIs hang for ever.
---
 utsm/subscriber.go |  5 ++++-
 utsm/utsm.go       | 13 ++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index f77099e..66eefb9 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -14,7 +14,9 @@ type subscriber struct {
 	lastReceivedTimeout time.Duration
 	lastReceived        time.Time
 	// Data channel is used for data transfer between subscriber and publisher
-	data  chan interface{}
+	data chan interface{}
+	// Done is closed when the subscriber does not read the data channel any more
+	done  chan struct{}
 	mutex *sync.Mutex
 }
 
@@ -54,6 +56,7 @@ func (m *Manager) Subscribe(start int, end int, options ...SubscriberOption) ([]
 	var store []interface{}
 	s := m.newSubscriber(start, end, options)
 	defer m.removeSubscriber(s)
+	defer close(s.done)
 
 	ctx, cancel := context.WithTimeout(context.Background(), s.timeout)
 	defer cancel()
diff --git a/utsm/utsm.go b/utsm/utsm.go
index 3d34da3..f450793 100644
--- a/utsm/utsm.go
+++ b/utsm/utsm.go
@@ -59,15 +59,21 @@ func DefaultSubscriberLastReceivedTimeout(timeout time.Duration) ManagerOption {
 }
 
 func (m *Manager) Publish(id int, data interface{}) {
+	// Waiting for a subscriber must not keep others from using the manager
 	m.mutex.Lock()
-	defer m.mutex.Unlock()
+	subs := append([]*subscriber{}, m.subs...)
+	m.mutex.Unlock()
 
-	for _, s := range m.subs {
+	for _, s := range subs {
 		if id >= s.start && id <= s.end {
 			s.mutex.Lock()
 			s.lastReceived = time.Now()
-			s.data <- data
 			s.mutex.Unlock()
+
+			select {
+			case s.data <- data:
+			case <-s.done:
+			}
 		}
 	}
 }
@@ -78,6 +84,7 @@ func (m *Manager) newSubscriber(start int, end int, options []SubscriberOption)
 		end:          end,
 		lastReceived: time.Now(),
 		data:         make(chan interface{}, 1),
+		done:         make(chan struct{}),
 		mutex:        &sync.Mutex{},
 	}
 	m.mutex.Lock()
-- 
2.43.0


From 155288c70c1d2344cf7f1d492a6a18dfd600fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:20 +0000
Subject: [PATCH 21/49] fix: subscribe before sending Who-Is and the network
 queries

An answer that arrived before the subscription was lost, and the error variable
was written by the sending goroutine and the caller at the same time.
---
 utsm/subscriber.go |  8 ++++++++
 whatnetwork.go     | 16 +++++++++-------
 whois.go           | 15 +++++++++------
 whoisrouter.go     | 16 +++++++++-------
 4 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/utsm/subscriber.go b/utsm/subscriber.go
index 66eefb9..56d4603 100644
--- a/utsm/subscriber.go
+++ b/utsm/subscriber.go
@@ -42,6 +42,14 @@ func (s *subscriber) LastReceivedTimeout(d time.Duration) SubscriberOption {
 	}
 }
 
+// OnSubscribed calls f when the subscriber is ready to receive, so that nothing
+// is missed of the answers to what f sends.
+func OnSubscribed(f func()) SubscriberOption {
+	return func(s *subscriber) {
+		f()
+	}
+}
+
 // getTimeout returns the expiration time based on when we last received a message
 func (s *subscriber) getTimeout() time.Duration {
 	s.mutex.Lock()
diff --git a/whatnetwork.go b/whatnetwork.go
index 28b5f5c..a377ad6 100644
--- a/whatnetwork.go
+++ b/whatnetwork.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -17,7 +18,6 @@ in bacnet.handleMsg() the npdu.IsNetworkLayerMessage is always rejected so this
 */
 
 func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -33,13 +33,15 @@ func (c *client) WhatIsNetworkNumber() (resp []*btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := utsm.OnSubscribed(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(1, 65534, send) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
diff --git a/whois.go b/whois.go
index 95888b1..4c78b2a 100644
--- a/whois.go
+++ b/whois.go
@@ -4,6 +4,7 @@ import "C"
 import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 type WhoIsOpts struct {
@@ -58,12 +59,14 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 		end = high
 	}
 	// Run in parallel
-	errChan := make(chan error)
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), nil)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(start, end)
+	errChan := make(chan error, 1)
+	send := utsm.OnSubscribed(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(start, end, send)
 	if err != nil {
 		return nil, err
 	}
diff --git a/whoisrouter.go b/whoisrouter.go
index 3f225c2..bdff779 100644
--- a/whoisrouter.go
+++ b/whoisrouter.go
@@ -5,6 +5,7 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/btypes/ndpu"
 	"github.com/NubeDev/bacnet/encoding"
+	"github.com/NubeDev/bacnet/utsm"
 )
 
 /*
@@ -12,7 +13,6 @@ Is in beta
 */
 
 func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
-	var err error
 	dest := *c.dataLink.GetBroadcastAddress()
 	enc := encoding.NewEncoder()
 	npdu := &btypes.NPDU{
@@ -28,13 +28,15 @@ func (c *client) WhoIsRouterToNetwork() (resp *[]btypes.Address) {
 	}
 	enc.NPDU(npdu)
 	// Run in parallel
-	errChan := make(chan error)
+	errChan := make(chan error, 1)
 	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
-	go func() {
-		_, err = c.Send(dest, npdu, enc.Bytes(), broadcast)
-		errChan <- err
-	}()
-	values, err := c.utsm.Subscribe(1, 65534) //65534 is the max number a network can be
+	send := utsm.OnSubscribed(func() {
+		go func() {
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
+			errChan <- err
+		}()
+	})
+	values, err := c.utsm.Subscribe(1, 65534, send) //65534 is the max number a network can be
 	if err != nil {
 		fmt.Println(`err`, err)
 	}
-- 
2.43.0


From 6e101d0751b976183ddf99f32e6bdc133024d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:44 +0000
Subject: [PATCH 22/49] fix: pass subnet and port to the data link in the right
 order

A client built from an ip tried to use the port as the prefix length of the
subnet and the prefix length as its port.
---
 device.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 5527a5b..a601b1d 100644
--- a/device.go
+++ b/device.go
@@ -89,7 +89,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		if !ok {
 
 		}
-		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, port, sub)
+		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
 			//log.Fatal(err)
 		}
-- 
2.43.0


From 7a22cd4132d9b1c3c6f6ebbea4ec44162cb0c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:06 +0000
Subject: [PATCH 23/49] fix: refuse a data link that can not be opened as
 configured

An IPv6 address panicked, an invalid port was replaced by a random one, and the
socket accepted IPv6 datagrams, whose source address panicked on receipt.
NewClient returned a client without a data link along with the error.
---
 datalink/udp.go | 14 ++++++++++++--
 device.go       |  6 +++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/datalink/udp.go b/datalink/udp.go
index c4f0a72..b25c587 100644
--- a/datalink/udp.go
+++ b/datalink/udp.go
@@ -67,13 +67,23 @@ func dataLink(ipAddr string, port int) (DataLink, error) {
 		return nil, err
 	}
 
+	if ip.To4() == nil {
+		return nil, fmt.Errorf("%s is not an IPv4 address", ipAddr)
+	}
+	if port < 0 || port > 0xFFFF {
+		return nil, fmt.Errorf("invalid port %d", port)
+	}
+
 	broadcast := net.IP(make([]byte, 4))
 	for i := range broadcast {
 		broadcast[i] = ipNet.IP[i] | ^ipNet.Mask[i]
 	}
 
-	udp, _ := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
-	conn, err := net.ListenUDP("udp", udp)
+	udp, err := net.ResolveUDPAddr("udp4", fmt.Sprintf(":%d", port))
+	if err != nil {
+		return nil, err
+	}
+	conn, err := net.ListenUDP("udp4", udp)
 	if err != nil {
 		return nil, err
 	}
diff --git a/device.go b/device.go
index a601b1d..045d651 100644
--- a/device.go
+++ b/device.go
@@ -80,7 +80,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 	if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
-			//log.Fatal(err)
+			return nil, err
 		}
 	} else {
 		//check subnet
@@ -91,7 +91,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		}
 		dataLink, err = datalink.NewUDPDataLinkFromIP(ip, sub, port)
 		if err != nil {
-			//log.Fatal(err)
+			return nil, err
 		}
 	}
 
@@ -111,7 +111,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		}},
 		log: l,
 	}
-	return cli, err
+	return cli, nil
 }
 
 func (c *client) ClientRun() {
-- 
2.43.0


From 4f8d372da688fc595e2c1badaa9df3620cfd4dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 24/49] fix: receive datagrams with the largest APDU whole

The buffer had room for the APDU but not for the headers before it.
---
 device.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 045d651..6cb2ef0 100644
--- a/device.go
+++ b/device.go
@@ -19,6 +19,10 @@ const mtuHeaderLength = 4
 const defaultStateSize = 20
 const forwardHeaderLength = 10
 
+// maxHeaderLength is the most that can precede the APDU: the header of a
+// forwarded message and a NPDU with two addresses of up to 255 octets
+const maxHeaderLength = forwardHeaderLength + 2 + 2*(2+1+255) + 1
+
 type Client interface {
 	io.Closer
 	ClientClose(closeLogs bool) error
@@ -107,7 +111,7 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 			utsm.DefaultSubscriberLastReceivedTimeout(time.Second*time.Duration(2)),
 		),
 		readBufferPool: sync.Pool{New: func() interface{} {
-			return make([]byte, maxPDU)
+			return make([]byte, int(maxPDU)+maxHeaderLength)
 		}},
 		log: l,
 	}
-- 
2.43.0


From d7fefcf19706661bdaccdcfa237469ab0aff8cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 25/49] fix: build the priority array of an analog point

Every value was asserted to be an uint32, so that the first real panicked, as did
a reply without properties.
---
 btypes/priority/priority.go | 17 +++++------------
 helpers/data/data.go        |  8 ++++++++
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/btypes/priority/priority.go b/btypes/priority/priority.go
index 20ba769..57231f4 100644
--- a/btypes/priority/priority.go
+++ b/btypes/priority/priority.go
@@ -4,7 +4,6 @@ import (
 	"github.com/NubeDev/bacnet/btypes"
 	"github.com/NubeDev/bacnet/helpers/data"
 	"github.com/NubeDev/bacnet/helpers/nils"
-	"reflect"
 )
 
 func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float32) {
@@ -12,17 +11,11 @@ func BuildFloat32(in btypes.PropertyData, objType btypes.ObjectType) (pri *Float
 	_, arr := data.ToArr(in)
 	for i, value := range arr {
 		var returnValue *float32
-		typeOf := reflect.TypeOf(value)
-		if typeOf.Name() != "Null" {
-			if objType == btypes.BinaryOutput || objType == btypes.BinaryValue { //convert from uint32
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			} else {
-				f := value.(uint32)
-				flt := float32(f)
-				returnValue = nils.NewFloat32(flt)
-			}
+		switch f := value.(type) {
+		case float32:
+			returnValue = nils.NewFloat32(f)
+		case uint32: //binary and multi state points
+			returnValue = nils.NewFloat32(float32(f))
 		}
 		switch i {
 		case 0:
diff --git a/helpers/data/data.go b/helpers/data/data.go
index a8d859c..ac8ea27 100644
--- a/helpers/data/data.go
+++ b/helpers/data/data.go
@@ -6,6 +6,10 @@ import (
 )
 
 func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.(*btypes.BitString)
 
 	if !ok {
@@ -16,6 +20,10 @@ func ToBitString(d btypes.PropertyData) (ok bool, out *btypes.BitString) {
 }
 
 func ToArr(d btypes.PropertyData) (ok bool, out []interface{}) {
+	if len(d.Object.Properties) == 0 {
+		fmt.Println("No value returned")
+		return ok, out
+	}
 	out, ok = d.Object.Properties[0].Data.([]interface{})
 	if !ok {
 		fmt.Println("unable to get object list")
-- 
2.43.0


From 041c471e2bded722bbcb4cac3e0fae91c20d7e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 26/49] fix: check the reply to the object information request

A device that returned more objects, or fewer properties, than asked for caused a
panic, as did a maximum APDU size below 20; objects in another order got each
other's name.
---
 objectlist.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/objectlist.go b/objectlist.go
index 6f8c8c6..ae25d42 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -91,7 +91,7 @@ func (c *client) objectList(dev *btypes.Device) error {
 	}
 
 	// Scan size is broken
-	scanSize := int(dev.MaxApdu) / readPropRequestSize
+	scanSize := max(int(dev.MaxApdu)/readPropRequestSize, 1)
 	i := 0
 	for i = 0; i < l/scanSize; i++ {
 		start := i*scanSize + 1
@@ -153,6 +153,12 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
+		if i >= counter || r.ID != keys[i] {
+			return fmt.Errorf("unexpected %v in the reply", r.ID)
+		}
+		if len(r.Properties) != 2 {
+			return fmt.Errorf("expecting 2 properties got %d", len(r.Properties))
+		}
 		name, ok = r.Properties[0].Data.(string)
 		if !ok {
 			return fmt.Errorf("expecting string got %T", r.Properties[0].Data)
-- 
2.43.0


From a51164f17c89fcabb6d30b5e26bc4a87377fd7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 27/49] fix: create networks and devices without a store

New and NewDevice panicked without a store, as in the README and the commands,
and left the socket of the client open if they could not store it. NewDevice
returned neither a device nor an error without a network, and the store panicked
when asked for a network by the id of a device.
---
 network/base.go   | 12 +++++++-----
 network/device.go | 10 ++++------
 network/store.go  | 24 ++++++++++++++----------
 3 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/network/base.go b/network/base.go
index ffd4269..f0514b2 100644
--- a/network/base.go
+++ b/network/base.go
@@ -18,6 +18,12 @@ type Network struct {
 
 // New returns a new instance of bacnet network
 func New(net *Network) (*Network, error) {
+	if net.Store == nil {
+		net.Store = NewStore()
+	}
+	if net.Store.BacStore == nil {
+		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  net.Interface,
 		Ip:         net.Ip,
@@ -29,11 +35,7 @@ func New(net *Network) (*Network, error) {
 		return nil, err
 	}
 	net.bacnet = bc
-	if net.Store.BacStore != nil {
-		net.Store.BacStore.Set(net.StoreID, net, -1)
-	} else {
-		return nil, errors.New("failed to set bacnet store, bacnet store is empty")
-	}
+	net.Store.BacStore.Set(net.StoreID, net, -1)
 	return net, nil
 }
 
diff --git a/network/device.go b/network/device.go
index 1dcc22f..a3c821f 100644
--- a/network/device.go
+++ b/network/device.go
@@ -1,7 +1,7 @@
 package network
 
 import (
-	"fmt"
+	"errors"
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
 )
@@ -25,8 +25,7 @@ type Device struct {
 func NewDevice(net *Network, device *Device) (*Device, error) {
 	var err error
 	if net == nil {
-		fmt.Println("network can not be nil")
-		return nil, err
+		return nil, errors.New("network can not be nil")
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
@@ -41,12 +40,11 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 		return nil, err
 	}
 	if dev == nil {
-		fmt.Println("dev is nil")
-		return nil, err
+		return nil, errors.New("dev is nil")
 	}
 	device.network = net.bacnet
 	device.dev = *dev
-	if net.Store.BacStore != nil {
+	if net.Store != nil && net.Store.BacStore != nil {
 		net.Store.BacStore.Set(device.StoreID, device, -1)
 	}
 	return device, nil
diff --git a/network/store.go b/network/store.go
index 426ff77..df7137d 100644
--- a/network/store.go
+++ b/network/store.go
@@ -23,6 +23,9 @@ func NewStore() *Store {
 
 //NewNetwork updated a cached
 func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) error {
+	if store.BacStore == nil {
+		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
+	}
 	cb := &bacnet.ClientBuilder{
 		Interface:  iface,
 		Ip:         ip,
@@ -38,12 +41,8 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		Port:      port,
 		bacnet:    bc,
 	}
-	if store.BacStore != nil {
-		store.BacStore.Set(storeID, bacnetNet, -1)
-		return nil
-	} else {
-		return errors.New("new network, failed to set bacnet store, bacnet store is empty")
-	}
+	store.BacStore.Set(storeID, bacnetNet, -1)
+	return nil
 }
 
 func (store *Store) GetNetwork(uuid string) (*Network, error) {
@@ -51,7 +50,10 @@ func (store *Store) GetNetwork(uuid string) (*Network, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no network found with uuid:%s", uuid))
 	}
-	parse := cli.(*Network)
+	parse, ok := cli.(*Network)
+	if !ok {
+		return nil, fmt.Errorf("bacnet: uuid:%s is not a network but a %T", uuid, cli)
+	}
 	return parse, nil
 }
 
@@ -71,8 +73,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 		return err
 	}
 	if dev == nil {
-		fmt.Println("dev is nil")
-		return err
+		return errors.New("dev is nil")
 	}
 	device.network = net.bacnet
 	device.dev = *dev
@@ -87,6 +88,9 @@ func (store *Store) GetDevice(uuid string) (*Device, error) {
 	if !ok {
 		return nil, errors.New(fmt.Sprintf("bacnet: no device found with uuid:%s", uuid))
 	}
-	parse := cli.(*Device)
+	parse, ok := cli.(*Device)
+	if !ok {
+		return nil, fmt.Errorf("bacnet: uuid:%s is not a device but a %T", uuid, cli)
+	}
 	return parse, nil
 }
-- 
2.43.0


From a02d204564717a3d06789644803a53b09a5f7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 28/49] fix: return each discovered device

DeviceDiscover overwrote the device it was called on and returned it once for
every answer, after reading all names from that one device. NetworkDiscover used
the device without looking at the errors.
---
 network/discover.go | 29 ++++++++++++++++++-----------
 network/whois.go    |  6 ++++++
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/network/discover.go b/network/discover.go
index f469b5d..5132f6a 100644
--- a/network/discover.go
+++ b/network/discover.go
@@ -92,22 +92,29 @@ func (device *Device) DeviceDiscover(options *bacnet.WhoIsOpts) ([]*Device, erro
 		return devices, err
 	}
 	for _, dev := range whois {
+		found := &Device{
+			DeviceID:      int(dev.ID.Instance),
+			NetworkNumber: int(dev.Addr.Net),
+			MaxApdu:       dev.MaxApdu,
+			Segmentation:  uint32(dev.Segmentation),
+			dev:           dev,
+			network:       device.network,
+		}
 		if len(dev.Addr.Adr) > 0 {
-			device.MacMSTP = int(dev.Addr.Adr[0])
+			found.MacMSTP = int(dev.Addr.Adr[0])
+		}
+		if host, err := dev.Addr.UDPAddr(); err == nil {
+			found.Ip = host.IP.String()
+			found.Port = host.Port
 		}
-		host, _ := dev.Addr.UDPAddr()
-		device.DeviceID = int(dev.ID.Instance)
-		device.Ip = host.IP.String()
-		device.NetworkNumber = int(dev.Addr.Net)
-		device.MaxApdu = dev.MaxApdu
-		device.Segmentation = uint32(dev.Segmentation)
-		details, err := device.GetDeviceDetails(dev.ID.Instance)
+		details, err := found.GetDeviceDetails(dev.ID.Instance)
 		if err != nil {
 			fmt.Println("discover err", err)
+		} else {
+			found.DeviceName = details.Name
+			found.VendorName = details.VendorName
 		}
-		device.DeviceName = details.Name
-		device.VendorName = details.VendorName
-		devices = append(devices, device)
+		devices = append(devices, found)
 
 	}
 	count := 1
diff --git a/network/whois.go b/network/whois.go
index 74cb953..5882cc9 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -22,6 +22,9 @@ func (net *Network) Whois(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
 func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device, error) {
 	go net.NetworkRun()
 	resp, err := net.bacnet.WhoIs(options)
+	if err != nil {
+		return nil, err
+	}
 	var devices []btypes.Device
 	for _, device := range resp {
 		buildDevice := &btypes.Device{
@@ -34,6 +37,9 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 			Segmentation:  device.Segmentation,
 		}
 		dev, err := btypes.NewDevice(buildDevice)
+		if err != nil {
+			return nil, err
+		}
 		details, err := net.GetDeviceDetails(*dev)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 068f0ca41b66eef614e3a03bf774cca7c883e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:24 +0000
Subject: [PATCH 29/49] fix: report an object list that can not be read

A failed read of an entry, or an entry that is no object id, panicked, and a list
of one object was returned empty.
---
 network/objects.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/network/objects.go b/network/objects.go
index f7367d4..13a0452 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -46,9 +46,15 @@ func (device *Device) DeviceObjects(deviceID btypes.ObjectInstance, checkAPDU bo
 		fmt.Println("No value returned")
 		return nil, nil
 	}
-	_, ids := data.ToArr(out)
+	ok, ids := data.ToArr(out)
+	if !ok { // a list of one object
+		ids = []interface{}{out.Object.Properties[0].Data}
+	}
 	for _, id := range ids {
-		objectID := id.(btypes.ObjectID)
+		objectID, ok := id.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id in the object list, got %T", id)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, nil
@@ -74,8 +80,17 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
 		obj.ArrayIndex = uint32(i)
-		out, _ := device.Read(obj)
-		objectID := out.Object.Properties[0].Data.(btypes.ObjectID)
+		out, err := device.Read(obj)
+		if err != nil {
+			return nil, err
+		}
+		if len(out.Object.Properties) == 0 {
+			return nil, fmt.Errorf("no value returned for object %d of the object list", i)
+		}
+		objectID, ok := out.Object.Properties[0].Data.(btypes.ObjectID)
+		if !ok {
+			return nil, fmt.Errorf("expected an object id in the object list, got %T", out.Object.Properties[0].Data)
+		}
 		objectList = append(objectList, objectID)
 	}
 	return objectList, err
-- 
2.43.0


From 45abae4af2c4d6ddd41c975408cbf774e180c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 30/49] fix: use the port of the device

A device on another port than the default was addressed on the default port.
---
 network/device.go | 1 +
 network/store.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/network/device.go b/network/device.go
index a3c821f..82c98d5 100644
--- a/network/device.go
+++ b/network/device.go
@@ -29,6 +29,7 @@ func NewDevice(net *Network, device *Device) (*Device, error) {
 	}
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
diff --git a/network/store.go b/network/store.go
index df7137d..6b66795 100644
--- a/network/store.go
+++ b/network/store.go
@@ -62,6 +62,7 @@ func (store *Store) UpdateDevice(storeID string, net *Network, device *Device) e
 	var err error
 	dev := &btypes.Device{
 		Ip:            device.Ip,
+		Port:          device.Port,
 		DeviceID:      device.DeviceID,
 		NetworkNumber: device.NetworkNumber,
 		MacMSTP:       device.MacMSTP,
-- 
2.43.0


From 5c2a28f44cd7ea19023a2abc3c4f1c9e991a7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 31/49] fix: restore the objects of types without a name from
 JSON

They became analog inputs, replacing the real ones, and decoding into a nil map
panicked.
---
 btypes/object.go     | 17 ++++++++++++++++-
 btypes/object_map.go | 16 +++++++++++-----
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/btypes/object.go b/btypes/object.go
index 8a02bbd..5c7fb64 100644
--- a/btypes/object.go
+++ b/btypes/object.go
@@ -89,6 +89,9 @@ var objStrTypeMap = map[string]ObjectType{
 	CharacterStringStr:   CharacterString,
 }
 
+// unknownTypeFormat is how a type without a name is printed
+const unknownTypeFormat = "Unknown (%d)"
+
 func GetType(s string) ObjectType {
 	t, ok := objStrTypeMap[s]
 	if !ok {
@@ -97,10 +100,22 @@ func GetType(s string) ObjectType {
 	return t
 }
 
+// parseType is the inverse of ObjectType.String
+func parseType(s string) (ObjectType, error) {
+	if t, ok := objStrTypeMap[s]; ok {
+		return t, nil
+	}
+	var t ObjectType
+	if _, err := fmt.Sscanf(s, unknownTypeFormat, &t); err != nil {
+		return 0, fmt.Errorf("unknown object type %q", s)
+	}
+	return t, nil
+}
+
 func (t ObjectType) String() string {
 	s, ok := objTypeMap[t]
 	if !ok {
-		return fmt.Sprintf("Unknown (%d)", t)
+		return fmt.Sprintf(unknownTypeFormat, uint16(t))
 	}
 	return fmt.Sprintf("%s", s)
 }
diff --git a/btypes/object_map.go b/btypes/object_map.go
index f87c5b0..440461d 100644
--- a/btypes/object_map.go
+++ b/btypes/object_map.go
@@ -30,20 +30,26 @@ func (om ObjectMap) MarshalJSON() ([]byte, error) {
 	return json.Marshal(m)
 }
 
-func (om ObjectMap) UnmarshalJSON(data []byte) error {
+func (om *ObjectMap) UnmarshalJSON(data []byte) error {
 	m := make(map[string]map[ObjectInstance]Object, 0)
 	err := json.Unmarshal(data, &m)
 	if err != nil {
 		return err
 	}
 
+	if *om == nil {
+		*om = make(ObjectMap)
+	}
 	for t, sub := range m {
-		key := GetType(t)
-		if om[key] == nil {
-			om[key] = make(map[ObjectInstance]Object)
+		key, err := parseType(t)
+		if err != nil {
+			return err
+		}
+		if (*om)[key] == nil {
+			(*om)[key] = make(map[ObjectInstance]Object)
 		}
 		for inst, obj := range sub {
-			om[key][inst] = obj
+			(*om)[key][inst] = obj
 		}
 	}
 	return nil
-- 
2.43.0


From 7d602e5e229c3355e2e01b6167df02358f1563f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 32/49] fix: the year of a date counts from 1900

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 14d12c4..5f23047 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -6,9 +6,9 @@ import (
 )
 
 // epochYear is an increment to all non-stored values. This year is chosen in
-// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1990
+// the standard. Why? No idea. God help us all if bacnet hits the 255 + 1900
 // limit
-const epochYear = 1990
+const epochYear = 1900
 
 // If the values == 0XFF, that means it is not specified. We will take that to
 const notDefined = 0xff
-- 
2.43.0


From 5c3905511b5353bdfeedf53c483ea302c4f048c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:59 +0000
Subject: [PATCH 33/49] fix: odd days are 33 and even days 34

---
 encoding/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/date.go b/encoding/date.go
index 5f23047..de91e43 100644
--- a/encoding/date.go
+++ b/encoding/date.go
@@ -26,11 +26,11 @@ func IsLastDayOfMonth(day int) bool {
 }
 
 func IsEvenDayOfMonth(day int) bool {
-	return day == 33
+	return day == 34
 }
 
 func IsOddDayOfMonth(day int) bool {
-	return day == 32
+	return day == 33
 }
 
 func (e *Encoder) date(dt btypes.Date) {
-- 
2.43.0


From 82c031ae522b07e80c2f3a9058c9ce7378702d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:59 +0000
Subject: [PATCH 34/49] fix: NewClient uses the data link it is given

---
 device.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/device.go b/device.go
index 6cb2ef0..271aba6 100644
--- a/device.go
+++ b/device.go
@@ -81,7 +81,9 @@ func NewClient(cb *ClientBuilder) (Client, error) {
 		maxPDU = btypes.MaxAPDU
 	}
 	//build datalink
-	if iface != "" {
+	if cb.DataLink != nil {
+		dataLink = cb.DataLink
+	} else if iface != "" {
 		dataLink, err = datalink.NewUDPDataLink(iface, port)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From eaa60bd886214c123675f1d37e9c0d41ff0ba0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:27 +0000
Subject: [PATCH 35/49] fix: an answer to ReadProperty without its closing tag
 is not complete

---
 encoding/readprop.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/readprop.go b/encoding/readprop.go
index 81fd556..b0c59e8 100644
--- a/encoding/readprop.go
+++ b/encoding/readprop.go
@@ -159,6 +159,12 @@ func (d *Decoder) ReadProperty(data *btypes.PropertyData) error {
 			}
 			prop.Data = datalist
 
+			// Without the closing tag the list of values is not complete
+			tag, meta = d.tagNumber()
+			if d.err == nil && (tag != openTag || !meta.isClosing()) {
+				d.err = &ErrorIncorrectTag{openTag, tag}
+			}
+
 			// If we only have one value in the list, lets just return that value
 			if len(datalist) == 1 {
 				prop.Data = datalist[0]
-- 
2.43.0


From 3db42f922d2d96e5333023838acd96ec92a56b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:00 +0000
Subject: [PATCH 36/49] fix: Who-Is is sent as a broadcast message

---
 whois.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/whois.go b/whois.go
index 4c78b2a..c4e52ec 100644
--- a/whois.go
+++ b/whois.go
@@ -60,9 +60,10 @@ func (c *client) WhoIs(wh *WhoIsOpts) ([]btypes.Device, error) {
 	}
 	// Run in parallel
 	errChan := make(chan error, 1)
+	broadcast := &SetBroadcastType{Set: true, BacFunc: btypes.BacFuncBroadcast}
 	send := utsm.OnSubscribed(func() {
 		go func() {
-			_, err := c.Send(dest, npdu, enc.Bytes(), nil)
+			_, err := c.Send(dest, npdu, enc.Bytes(), broadcast)
 			errChan <- err
 		}()
 	})
-- 
2.43.0


From 12f7cc6e88bc4cae8e9f7e79f17becf8a1084bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:51 +0000
Subject: [PATCH 37/49] fix: a value of an unexpected type is not read as zero

---
 network/err.go     | 15 ++++++++++++++-
 network/points.go  | 21 ++++++++++++++++++---
 network/strings.go | 15 ++++++++++++---
 3 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/network/err.go b/network/err.go
index e59b78c..19c531a 100644
--- a/network/err.go
+++ b/network/err.go
@@ -1,7 +1,20 @@
 package network
 
-import "errors"
+import (
+	"errors"
+	"fmt"
+
+	"github.com/NubeDev/bacnet/btypes"
+)
 
 var (
 	ObjectNil = errors.New("object list can not be empty")
 )
+
+// unexpectedType is the error of a value that was read but is not of the type asked for
+func unexpectedType(read btypes.PropertyData) error {
+	if len(read.Object.Properties) == 0 {
+		return errors.New("no value returned")
+	}
+	return fmt.Errorf("unexpected type %T of the value returned", read.Object.Properties[0].Data)
+}
diff --git a/network/points.go b/network/points.go
index 120aab7..149d67f 100644
--- a/network/points.go
+++ b/network/points.go
@@ -81,7 +81,11 @@ func (device *Device) PointReadFloat32(pnt *Point) (float32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toFloat(read), nil
+	ok, out := data.ToFloat32(read)
+	if !ok {
+		return 0, unexpectedType(read)
+	}
+	return out, nil
 }
 
 //PointReadPriority use this when wanting to read point values for an AI, AV, AO
@@ -101,6 +105,9 @@ func (device *Device) PointReadPriority(pnt *Point) (pri *priority.Float32, err
 	if err != nil {
 		return pri, err
 	}
+	if ok, _ := data.ToArr(read); !ok {
+		return pri, unexpectedType(read)
+	}
 	return priority.BuildFloat32(read, pnt.ObjectType), nil
 }
 
@@ -120,7 +127,11 @@ func (device *Device) PointReadBool(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, out := data.ToUint32(read)
+	if !ok {
+		return 0, unexpectedType(read)
+	}
+	return out, nil
 }
 
 //PointReadMultiState use this when wanting to read point values for an MI, MV, MO
@@ -139,7 +150,11 @@ func (device *Device) PointReadMultiState(pnt *Point) (uint32, error) {
 	if err != nil {
 		return 0, err
 	}
-	return device.toUint32(read), nil
+	ok, out := data.ToUint32(read)
+	if !ok {
+		return 0, unexpectedType(read)
+	}
+	return out, nil
 }
 
 //PointReleasePriority use this when releasing a priority
diff --git a/network/strings.go b/network/strings.go
index 9f5f26d..9695e90 100644
--- a/network/strings.go
+++ b/network/strings.go
@@ -3,15 +3,24 @@ package network
 import (
 	"github.com/NubeDev/bacnet"
 	"github.com/NubeDev/bacnet/btypes"
+	"github.com/NubeDev/bacnet/helpers/data"
 )
 
+func readString(read btypes.PropertyData) (string, error) {
+	ok, out := data.ToStr(read)
+	if !ok {
+		return "", unexpectedType(read)
+	}
+	return out, nil
+}
+
 //ReadString to read a string like objectName
 func (device *Device) ReadString(obj *Object) (string, error) {
 	read, err := device.Read(obj)
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readString(read)
 }
 
 func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, error) {
@@ -25,7 +34,7 @@ func (device *Device) ReadDeviceName(ObjectID btypes.ObjectInstance) (string, er
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readString(read)
 }
 
 func (device *Device) WriteDeviceName(ObjectID btypes.ObjectInstance, value string) error {
@@ -53,7 +62,7 @@ func (device *Device) ReadPointName(pnt *Point) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	return device.toStr(read), nil
+	return readString(read)
 }
 
 func (device *Device) WritePointName(pnt *Point, value string) error {
-- 
2.43.0


From 090ad932f8fcfd8e34d0d56d16159404fff3cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:18 +0000
Subject: [PATCH 38/49] fix: an object list whose length is not a number is not
 empty

---
 network/objects.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/objects.go b/network/objects.go
index 13a0452..669bcb9 100644
--- a/network/objects.go
+++ b/network/objects.go
@@ -75,7 +75,10 @@ func (device *Device) deviceObjectsBuilder(deviceID btypes.ObjectInstance) (obje
 		log.Errorln("failed to read object list in deviceObjectsBuilder() err:", err)
 		return nil, err
 	}
-	_, o := data.ToUint32(out)
+	ok, o := data.ToUint32(out)
+	if !ok {
+		return nil, unexpectedType(out)
+	}
 	log.Println("size of object-list", o)
 	var listLen = int(o)
 	for i := 1; i <= listLen; i++ {
-- 
2.43.0


From 6eb61d383b269be4400e21b9220d7adfb584822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 39/49] fix: an incomplete object list is reported, vendors'
 objects are not asked about

---
 objectlist.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/objectlist.go b/objectlist.go
index ae25d42..4030ea0 100644
--- a/objectlist.go
+++ b/objectlist.go
@@ -56,6 +56,9 @@ func (c *client) objectsRange(dev btypes.Device, start, end int) ([]btypes.Objec
 	if len(resp.Objects) == 0 {
 		return nil, fmt.Errorf("no data was returned")
 	}
+	if n := len(resp.Objects[0].Properties); n != end-start+1 {
+		return nil, fmt.Errorf("expecting %d objects got %d", end-start+1, n)
+	}
 
 	objs := make([]btypes.Object, len(resp.Objects[0].Properties))
 
@@ -146,10 +149,16 @@ func (c *client) objectInformation(dev *btypes.Device, objs []btypes.Object) err
 		})
 
 	}
+	if counter == 0 {
+		return nil
+	}
 	resp, err := c.ReadMultiProperty(*dev, rpm)
 	if err != nil {
 		return fmt.Errorf("unable to read multiple property :%v", err)
 	}
+	if len(resp.Objects) != counter {
+		return fmt.Errorf("expecting %d objects got %d", counter, len(resp.Objects))
+	}
 	var name, description string
 	var ok bool
 	for i, r := range resp.Objects {
-- 
2.43.0


From 3fbcc70fb624b1d2435eabe7a2fb401bd598f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 40/49] fix: actual and requested shed levels were decoded with
 the number of their tag as their type

---
 encoding/context_tag.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index aa67f37..b3db756 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -7,9 +7,9 @@ import "github.com/NubeDev/bacnet/btypes"
 func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
 	tag := tagNumber
 	switch property {
-	case btypes.PROP_ACTUAL_SHED_LEVEL:
-	case btypes.PROP_REQUESTED_SHED_LEVEL:
-	case btypes.PROP_EXPECTED_SHED_LEVEL:
+	case btypes.PROP_ACTUAL_SHED_LEVEL,
+		btypes.PROP_REQUESTED_SHED_LEVEL,
+		btypes.PROP_EXPECTED_SHED_LEVEL:
 		switch tagNumber {
 		case 0, 1:
 			tag = tagUint
-- 
2.43.0


From e13995750cf7246fa137f6d4c8316c5bcd820ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:21 +0000
Subject: [PATCH 41/49] fix: the octet of a context tagged boolean was left in
 the input

---
 encoding/readmultipleack.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 0c93ed3..cd26463 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -180,7 +180,10 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 							// TODO how to parse it in Context???
 							lenValue := d.value(meta)
 							tag = tagTypeInContext(prop.Type, tag)
-							if tag == maxTag {
+							if tag == tagBool {
+								// with a context tag the value is in an octet of its own
+								array = append(array, d.unsigned(int(lenValue)) != 0)
+							} else if tag == maxTag {
 								//skip unknown type
 								if err := d.Skip(lenValue); err != nil {
 									return err
-- 
2.43.0


From 9541bba049fcdc9b368e93d33a745caaffcb1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:53 +0000
Subject: [PATCH 42/49] fix: the end of a nested member with tag 4 was taken
 for the end of the value

---
 encoding/readmultipleack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index cd26463..759c2d2 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -155,10 +155,12 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 				if d.err != nil {
 					return d.err
 				}
-				for !(meta.isClosing() && tag == 4) {
+				nested := 0
+				for !(meta.isClosing() && tag == 4 && nested == 0) {
 					if meta.isContextSpecific() {
 						if meta.isClosing() {
 							// end of a nested constructed value
+							nested--
 						} else if meta.isOpening() {
 							if /*prop.Type == btypes.PROP_EVENT_TIME_STAMPS &&*/ tag == btypes.TimeStampDatetime {
 								dt := &btypes.DataTime{}
@@ -175,6 +177,8 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 									}
 								}
 								array = append(array, dt)
+							} else {
+								nested++
 							}
 						} else {
 							// TODO how to parse it in Context???
-- 
2.43.0


From 9c5cc84bfa9ddefbef8b55a03271efbe19f8aaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:18 +0000
Subject: [PATCH 43/49] fix: a point whose unit is not told was reported to be
 in square metres

---
 network/points.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/network/points.go b/network/points.go
index 149d67f..4afa5e3 100644
--- a/network/points.go
+++ b/network/points.go
@@ -54,8 +54,10 @@ func (device *Device) PointDetails(pnt *Point) (resp *PointDetails, err error) {
 		case btypes.PropObjectName:
 			resp.Name = device.toStr(read)
 		case btypes.PropUnits:
-			resp.Unit = device.toUint32(read)
-			resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
+			if ok, unit := data.ToUint32(read); ok {
+				resp.Unit = unit
+				resp.UnitString = units.Unit.String(units.Unit(resp.Unit))
+			}
 		}
 	}
 	return resp, nil
-- 
2.43.0


From 63f466369cc675d2d31c14f975fb62717d70f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:18 +0000
Subject: [PATCH 44/49] fix: the octets of a member of unknown type with tag 0
 were read as the tags that follow

---
 encoding/readmultipleack.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/readmultipleack.go b/encoding/readmultipleack.go
index 759c2d2..aa9039b 100644
--- a/encoding/readmultipleack.go
+++ b/encoding/readmultipleack.go
@@ -197,6 +197,12 @@ func (d *Decoder) objectsWithData(objects *[]btypes.Object) error {
 								if err != nil {
 									return err
 								}
+								if tag == tagNull {
+									// of an unknown type, its octets are still there
+									if err := d.Skip(lenValue); err != nil {
+										return err
+									}
+								}
 								array = append(array, data)
 							}
 						}
-- 
2.43.0


From 04013909ab022d83694e3e390a20c6f3533dd9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:18 +0000
Subject: [PATCH 45/49] fix: time stamps were decoded with the number of their
 tag as their type

---
 encoding/context_tag.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/encoding/context_tag.go b/encoding/context_tag.go
index b3db756..58d9e68 100644
--- a/encoding/context_tag.go
+++ b/encoding/context_tag.go
@@ -91,6 +91,19 @@ func tagTypeInContext(property btypes.PropertyType, tagNumber uint8) uint8 {
 		case 4: /* covIncrement */
 			tag = tagReal
 		}
+	case btypes.PROP_EVENT_TIME_STAMPS,
+		btypes.PROP_COMMAND_TIME_ARRAY,
+		btypes.PROP_LAST_COMMAND_TIME,
+		btypes.PROP_LAST_RESTORE_TIME,
+		btypes.PROP_UPDATE_TIME,
+		btypes.PROP_TIME_OF_DEVICE_RESTART:
+		/* BACnetTimeStamp */
+		switch tagNumber {
+		case 0: /* time */
+			tag = tagTime
+		case 1: /* sequenceNumber */
+			tag = tagUint
+		}
 	}
 
 	return tag
-- 
2.43.0


From d02c63e1d6df13d28eebdcfa1514bacdcd60758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 46/49] fix: closing a client together with its log left its
 data link open

---
 device.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/device.go b/device.go
index 271aba6..bf76fcd 100644
--- a/device.go
+++ b/device.go
@@ -289,12 +289,15 @@ func (c *client) Send(dest btypes.Address, npdu *btypes.NPDU, data []byte, broad
 }
 
 func (c *client) ClientClose(closeLogs bool) error {
+	err := c.Close()
 	if closeLogs {
 		if f, ok := c.log.Out.(io.Closer); ok {
-			return f.Close()
+			if e := f.Close(); e != nil {
+				err = e
+			}
 		}
 	}
-	return c.Close()
+	return err
 }
 
 // Close free resources for the client. Always call this function when using NewClient
-- 
2.43.0


From 98746d6c736d0b5fab39d2e9a6e80baba9f0d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:17 +0000
Subject: [PATCH 47/49] fix: a network made by a store was kept without its
 address and without its store

---
 network/store.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/network/store.go b/network/store.go
index 6b66795..086f0db 100644
--- a/network/store.go
+++ b/network/store.go
@@ -37,9 +37,13 @@ func (store *Store) NewNetwork(storeID, iface, ip string, port, subnet int) erro
 		return err
 	}
 	bacnetNet := &Network{
-		Interface: iface,
-		Port:      port,
-		bacnet:    bc,
+		Interface:  iface,
+		Ip:         ip,
+		Port:       port,
+		SubnetCIDR: subnet,
+		StoreID:    storeID,
+		Store:      store,
+		bacnet:     bc,
 	}
 	store.BacStore.Set(storeID, bacnetNet, -1)
 	return nil
-- 
2.43.0


From 64869815ed9d823393e9879fc6c726e20639e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:18 +0000
Subject: [PATCH 48/49] fix: a device described by its device id was asked as
 device 0

---
 btypes/device.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btypes/device.go b/btypes/device.go
index 0357c32..054ab7c 100644
--- a/btypes/device.go
+++ b/btypes/device.go
@@ -91,6 +91,9 @@ func NewDevice(device *Device) (*Device, error) {
 		Type:     DeviceType,
 		Instance: device.ID.Instance,
 	}
+	if object.Instance == 0 {
+		object.Instance = ObjectInstance(device.DeviceID)
+	}
 	device.ID = object
 	device.Addr = addr
 	return device, nil
-- 
2.43.0


From 7d87e57cb1059d66ac8d84b88feea179924fb99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:47 +0000
Subject: [PATCH 49/49] fix: discovered devices keep the limits they announced
 when these can not be read

---
 network/whois.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/network/whois.go b/network/whois.go
index 5882cc9..da72517 100644
--- a/network/whois.go
+++ b/network/whois.go
@@ -54,7 +54,8 @@ func (net *Network) NetworkDiscover(options *bacnet.WhoIsOpts) ([]btypes.Device,
 }
 
 func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails, err error) {
-	resp = &DeviceDetails{}
+	//the limits it announced are kept if they can not be read
+	resp = &DeviceDetails{MaxApdu: device.MaxApdu, Segmentation: uint32(device.Segmentation)}
 	props := []btypes.PropertyType{btypes.PropObjectName, btypes.PropMaxAPDU, btypes.PropVendorName, btypes.PropSegmentationSupported}
 	for _, prop := range props {
 		property, err := net.bacnet.ReadProperty(device, buildObj(device.DeviceID, prop))
@@ -66,14 +67,16 @@ func (net *Network) GetDeviceDetails(device btypes.Device) (resp *DeviceDetails,
 			_, read := data.ToStr(property)
 			resp.Name = read
 		case btypes.PropMaxAPDU:
-			_, read := data.ToUint32(property)
-			resp.MaxApdu = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.MaxApdu = read
+			}
 		case btypes.PropVendorName:
 			_, read := data.ToStr(property)
 			resp.VendorName = read
 		case btypes.PropSegmentationSupported:
-			_, read := data.ToUint32(property)
-			resp.Segmentation = read
+			if ok, read := data.ToUint32(property); ok {
+				resp.Segmentation = read
+			}
 		case btypes.ProtocolServicesSupported:
 			_, read := data.ToBitString(property)
 			resp.ProtocolServicesSupported = read
-- 
2.43.0

