From 944222ad107b518b4bc3ecbf8b834141f9f367de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:54 +0000
Subject: [PATCH 01/13] fix: size map values with the value codec when encoding
 map entries

---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 312580a840e95b299825490649a1f1ca9ff5f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 02/13] fix: do not encode an empty map as an entry with a zero
 key and value

---
 proto/map.go | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..10ebb43 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -85,10 +77,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = keyCodec.encode(b, key, f.keyField)
 			b = valCodec.encode(b, val, f.valField)
 		}
-
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From a868d81f41752feea1b47c8e0569e6f2e1b32e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 03/13] fix: decode bool fields as varints, which may span
 several bytes

---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 94a12f46e5a8da07b7c51eb2b313fec8dceea7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:58 +0000
Subject: [PATCH 04/13] fix: accept the req label that protoc-gen-golite emits
 for proto2 required fields

---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..959a0d9 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -192,7 +192,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From e19a6ab285cdb95f4fe1e3d2453ddb563a209506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 05/13] fix: return an error instead of panicking when Marshal
 or Unmarshal is given nil

---
 proto/proto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..9103c8d 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,7 +24,7 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
 	t = t.Elem()
@@ -41,7 +41,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From af385e3be065daaa6c83bccad0395c554cc84947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 06/13] fix: truncate zigzag32 varints to 32 bits before
 decoding them

---
 proto/normal_codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 5033c68..ed0d536 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -347,7 +347,7 @@ func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
 
 func decodeZigzag32(b []byte, p unsafe.Pointer) (int, error) {
 	u, n, err := decodeVarint(b)
-	*(*int32)(p) = int32(decodeZigZag64(u))
+	*(*int32)(p) = int32(decodeZigZag64(uint64(uint32(u))))
 	return n, err
 }
 
-- 
2.43.0


From e6986d98e220f95d967c27440222711586ce74ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 07/13] fix: clear stale elements between len and cap before
 decoding into a slice

---
 proto/slice.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..78108a3 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -58,6 +58,8 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	etype := pointer(elemType)
+	zero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -66,7 +68,9 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		elem := s.Index(i, elemSize)
+		Assign(etype, elem, zero) // the slot may hold a stale element
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From 84121f346a95b1f0981f54ca7b854fa12d0667b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 08/13] fix: do not share slice, pointer and map codecs between
 fields of one Go type but different encodings

---
 proto/map.go    | 2 --
 proto/slice.go  | 7 +------
 proto/walker.go | 3 +--
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 10ebb43..6f8bcb0 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -17,8 +17,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
diff --git a/proto/slice.go b/proto/slice.go
index 78108a3..36d42a3 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,16 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..23b5604 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -229,7 +229,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
@@ -288,7 +288,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From 5e984bf6f1650d2a64bcbe305dd0b2b70cb6a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 09/13] fix: encode a non-nil pointer to a zero value so that
 its presence survives

---
 proto/walker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/walker.go b/proto/walker.go
index 23b5604..f578845 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -288,7 +288,7 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	c := w.required(t.Elem(), conf) // a non-nil pointer is always encoded
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 678f1553494f2115ccb8b0096d51564bee58b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:36 +0000
Subject: [PATCH 10/13] fix: use the fixed-width codec for every fixed32 and
 fixed64 field: repeated, map, pointer and signed

---
 proto/walker.go | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index f578845..17d094d 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -24,6 +24,7 @@ type walker struct {
 type walkerConfig struct {
 	zigzag   bool
 	required bool
+	wire     wireType
 }
 
 func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
@@ -40,15 +41,27 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.wire == fixed32 {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.wire == fixed64 {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.wire == fixed32 {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.wire == fixed64 {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -168,28 +181,16 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionInt32Type, optionUInt32Type: // same layout
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint32:
-				field.codec = &fixed32Codec
-			case reflect.Float32:
-				field.codec = &float32Codec
-			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionInt64Type, optionUInt64Type: // same layout
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
-			case reflect.Uint64:
-				field.codec = &fixed64Codec
-			case reflect.Float64:
-				field.codec = &float64Codec
-			}
 		}
 		if field.codec == nil {
 			switch f.Type {
@@ -217,6 +218,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
 				// required: t.required,
+				wire: t.wireType,
 			}
 			switch baseKindOf(f.Type) {
 			case reflect.Struct:
@@ -240,13 +242,13 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				t, _ := parseStructTag(f.Tag.Get("protobuf_key"))
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.wire = t.zigzag, t.wireType
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
-				conf.zigzag = t.zigzag
+				conf.zigzag, conf.wire = t.zigzag, t.wireType
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
@@ -307,15 +309,27 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.wire == fixed32 {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.wire == fixed64 {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.wire == fixed32 {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.wire == fixed64 {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 411be78cde3f7e5b78761c9b893ae79b0cd084a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 11/13] fix: decode zigzag map keys and values as zigzag

---
 proto/map.go    | 12 +++++++++---
 proto/walker.go |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6f8bcb0..b6c5eb4 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -13,6 +13,9 @@ type mapField struct {
 	wiretag  uint64
 	keyField *structField
 	valField *structField
+
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -79,14 +82,17 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
+func formatWireTag(wire uint64, zigzag bool) reflect.StructTag {
+	if zigzag {
+		return reflect.StructTag(fmt.Sprintf(`protobuf:"zigzag64,%d,opt"`, wire>>3))
+	}
 	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 17d094d..8d9212a 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -243,6 +243,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag, conf.wire = t.zigzag, t.wireType
+				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
@@ -251,6 +252,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				conf.zigzag, conf.wire = t.zigzag, t.wireType
 				valFiled.codec = w.codec(val, conf)
 
+				m.valZigzag = t.zigzag
 				m.keyField = keyField
 				m.valField = valFiled
 				field.codec = w.mapCodec(f.Type, m)
-- 
2.43.0


From d2dada6e65a0bed7d6c20347f6a09eff9e2c36a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 12/13] fix: publish struct infos and codecs only after the
 whole type walk is complete

---
 proto/proto.go  | 11 +++++++++--
 proto/walker.go |  6 ++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 9103c8d..217d0c1 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -120,6 +120,13 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
-	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
-	return actual
+	// Publish only now: a recursive type is referred to by its fields' types
+	// before it is complete.
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
+	for t, i := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), i)
+	}
+	return info
 }
diff --git a/proto/walker.go b/proto/walker.go
index 8d9212a..c375114 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -94,7 +94,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 	if c, ok := w.codecs[t]; ok {
 		return c
 	}
-	c := new(codec)
+	c := new(codec) // shared through codecCache once the whole walk is done
 	w.codecs[t] = c
 	elem := t.Elem()
 	info := w.structInfo(elem)
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func baseKindOf(t reflect.Type) reflect.Kind {
@@ -275,7 +274,6 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
-- 
2.43.0


From ccabf2c920b19d943fa52cee3140b76546414a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 13/13] fix: encode a nil element of a repeated bytes field
 instead of dropping it

---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..7905488 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -23,7 +23,7 @@ var needTransform = setOf(
 	"bool", "string",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
-	"fixed32", "fixed64", "zigzag32", "zigzag64",
+	"fixed32", "fixed64", "zigzag32", "zigzag64", "bytes",
 )
 
 func main() {
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index c375114..f43ba8e 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -341,7 +341,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0

