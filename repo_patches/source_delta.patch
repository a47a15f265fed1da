From 47c21cbaac644150e9370d48d2626a938f7c1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 01/14] fix: Decode rejects malformed input instead of
 panicking or looping

Overflowing varints, lengths beyond the input, illegal field numbers and
unsupported wire types made Decode panic, loop forever or succeed.
---
 zeropb.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index ee03185..6bded6f 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -13,6 +13,9 @@ import (
 	"github.com/pkg/errors"
 )
 
+// maxFieldID is the largest field id allowed by the protobuf spec.
+const maxFieldID = 1<<29 - 1
+
 // GetBool gets an encoded bool field with the given field id.
 func GetBool(buf []byte, offsets Offsets, fieldID int) bool {
 	offset, ok := offsets.Get(fieldID)
@@ -430,6 +433,9 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		if size == 0 {
 			return io.ErrUnexpectedEOF
 		}
+		if size < 0 || tag>>3 == 0 || tag>>3 > maxFieldID {
+			return errors.Errorf(`invalid tag at byte %d`, idx)
+		}
 		idx += size
 		if idx >= len(buf) {
 			return io.ErrUnexpectedEOF
@@ -462,6 +468,12 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		if s == 0 {
 			return io.ErrUnexpectedEOF
 		}
+		if s < 0 {
+			return errors.Errorf(`invalid data for field %d of type %d`, fieldID, typ)
+		}
+		if s > len(buf)-idx {
+			return io.ErrUnexpectedEOF
+		}
 		idx += s
 	}
 }
@@ -490,6 +502,10 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	return nil, msg
 }
 
+// fieldDataSize returns the encoded size of the data (everything but the tag)
+// of a field that starts at the beginning of buf. It is 0 if the data is
+// truncated and negative if it is invalid. A positive size may be larger than
+// buf.
 func fieldDataSize(typ uint64, buf []byte) int {
 	switch typ {
 	case proto.WireVarint:
@@ -500,13 +516,20 @@ func fieldDataSize(typ uint64, buf []byte) int {
 	case proto.WireFixed64:
 		return 8
 	case proto.WireBytes:
+		bufLen := len(buf)
 		len, lenSize := binary.Uvarint(buf)
 		if lenSize == 0 {
 			return 0
 		}
+		if lenSize < 0 {
+			return -1
+		}
+		if len > uint64(bufLen) {
+			return 0
+		}
 		return lenSize + int(len)
 	default:
-		panic(errors.Errorf(`unsupported type: %d`, typ))
+		return -1
 	}
 }
 
-- 
2.43.0


From e60de518024387c83e001cb3a8b13b4e391d3dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 02/14] fix: Decode skips fields that are not in the schema

A field number larger than the largest one in the schema panicked.
---
 zeropb.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 6bded6f..7aca7d4 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -445,6 +445,20 @@ func Decode(buf []byte, offsets Offsets, repeatedFields RepeatedFields) error {
 		typ := tag & 0x7
 		// fmt.Printf("tag=%x field=%d typ=%d idx=%d\n", tag, fieldID, typ, idx)
 
+		// Fields that are not in the schema are skipped. (The ids that are smaller
+		// than the largest one in the schema can be treated as if they were.)
+		if fieldID >= len(offsets.a) {
+			s := fieldDataSize(typ, buf[idx:])
+			if s < 0 {
+				return errors.Errorf(`invalid data for field %d of type %d`, fieldID, typ)
+			}
+			if s == 0 || s > len(buf)-idx {
+				return io.ErrUnexpectedEOF
+			}
+			idx += s
+			continue
+		}
+
 		// TODO(dan): It's odd that we're passing in only the repeatedness of the
 		// field. Maybe pass in some sort of field descriptor instead?
 		if _, ok := repeatedFields[fieldID]; ok {
-- 
2.43.0


From 8598e043a2c2a4c670ab7b53ad1d8002b1e70877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:01 +0000
Subject: [PATCH 03/14] fix: accessors don't panic or over-read when the wire
 type differs from the schema

---
 zeropb.go | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 7aca7d4..99e9e9e 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -93,6 +93,9 @@ func GetFixedUint32(buf []byte, offsets Offsets, fieldID int) uint32 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 4 {
+		return 0
+	}
 	return binary.LittleEndian.Uint32(buf[offset : offset+4])
 }
 
@@ -103,6 +106,9 @@ func GetFixedUint64(buf []byte, offsets Offsets, fieldID int) uint64 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 8 {
+		return 0
+	}
 	return binary.LittleEndian.Uint64(buf[offset : offset+8])
 }
 
@@ -113,6 +119,9 @@ func GetFixedInt32(buf []byte, offsets Offsets, fieldID int) int32 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 4 {
+		return 0
+	}
 	return int32(binary.LittleEndian.Uint32(buf[offset : offset+4]))
 }
 
@@ -123,6 +132,9 @@ func GetFixedInt64(buf []byte, offsets Offsets, fieldID int) int64 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 8 {
+		return 0
+	}
 	return int64(binary.LittleEndian.Uint64(buf[offset : offset+8]))
 }
 
@@ -133,6 +145,9 @@ func GetFloat32(buf []byte, offsets Offsets, fieldID int) float32 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 4 {
+		return 0
+	}
 	bits := binary.LittleEndian.Uint32(buf[offset : offset+4])
 	return math.Float32frombits(bits)
 }
@@ -144,6 +159,9 @@ func GetFloat64(buf []byte, offsets Offsets, fieldID int) float64 {
 	if !ok {
 		return 0
 	}
+	if uint64(len(buf))-offset < 8 {
+		return 0
+	}
 	bits := binary.LittleEndian.Uint64(buf[offset : offset+8])
 	return math.Float64frombits(bits)
 }
@@ -154,7 +172,11 @@ func GetString(buf []byte, offsets Offsets, fieldID int) string {
 	if !ok {
 		return ``
 	}
+	end := uint64(len(buf))
 	len, lenSize := binary.Uvarint(buf[offset:])
+	if lenSize <= 0 || len > end-offset-uint64(lenSize) {
+		return ``
+	}
 	offset += uint64(lenSize)
 	data := buf[offset : offset+len]
 	return *(*string)(unsafe.Pointer(&data))
@@ -166,7 +188,11 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 	if !ok {
 		return nil
 	}
+	end := uint64(len(buf))
 	len, lenSize := binary.Uvarint(buf[offset:])
+	if lenSize <= 0 || len > end-offset-uint64(lenSize) {
+		return nil
+	}
 	offset += uint64(lenSize)
 	return buf[offset : offset+len]
 }
@@ -499,19 +525,30 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 	if buf == nil {
 		return nil, nil
 	}
-	// NB: FindNextField doesn't do the same bounds checking that Decode does
-	// because Decode has already validated the input.
+	// NB: Decode has already validated the input, but not that the field was
+	// encoded with the type that we expect. If it wasn't, what we parse here can
+	// be anything.
 	msgLen, lenSize := binary.Uvarint(buf)
+	if lenSize <= 0 || msgLen > uint64(len(buf)-lenSize) {
+		return nil, nil
+	}
 	msg := buf[lenSize : lenSize+int(msgLen)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
+		if size <= 0 {
+			return nil, msg
+		}
 		idx += size
 		f := int(tag >> 3)
 		typ := tag & 0x7
 		if f == field {
 			return buf[idx:], msg
 		}
-		idx += fieldDataSize(typ, buf[idx:])
+		s := fieldDataSize(typ, buf[idx:])
+		if s <= 0 || s > len(buf)-idx {
+			return nil, msg
+		}
+		idx += s
 	}
 	return nil, msg
 }
-- 
2.43.0


From cf813de510cf28a1fbcae630544fd6c7c92929a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 04/14] fix: setting a decoded field with a padded tag or
 another wire type

The old value was assumed to have the tag bytes and type that the setter
would have written, so other fields were overwritten or removed.
---
 zeropb.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/zeropb.go b/zeropb.go
index 99e9e9e..34e25f9 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -3,6 +3,7 @@
 package zeropb
 
 import (
+	"bytes"
 	"encoding/binary"
 	"io"
 	"math"
@@ -376,6 +377,15 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			panic(typ)
 		}
 
+		// A decoded message may have been encoded with a padded tag or, by another
+		// version of the schema, with another type. In both cases oldLen doesn't
+		// mean anything and the old value can't be overwritten.
+		sameTag := offset >= uint64(tagLen) &&
+			bytes.Equal((*buf)[offset-uint64(tagLen):offset], scratch[:tagLen])
+		if !sameTag {
+			oldLen = -1
+		}
+
 		// Performance optimization: if the new value is exactly the same length as
 		// the old one, simply overwrite it.
 		if int(oldLen) == len(valLen)+len(val) {
@@ -385,7 +395,9 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 		}
 
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
-		// TODO(dan): sanity check that we got the same tag bytes here?
+		if !sameTag {
+			fieldBegin, fieldEnd = fieldExtent(*buf, offset)
+		}
 		copy((*buf)[fieldBegin:], (*buf)[fieldEnd:])
 		removedBytes := fieldEnd - fieldBegin
 		(*buf) = (*buf)[:uint64(len(*buf))-removedBytes]
@@ -417,6 +429,28 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// fieldExtent returns where the field whose data starts at the given offset
+// begins (including its tag) and ends.
+func fieldExtent(buf []byte, offset uint64) (uint64, uint64) {
+	for idx := 0; idx < len(buf); {
+		begin := idx
+		tag, size := binary.Uvarint(buf[idx:])
+		if size <= 0 {
+			break
+		}
+		idx += size
+		s := fieldDataSize(tag&0x7, buf[idx:])
+		if s <= 0 || s > len(buf)-idx {
+			break
+		}
+		if uint64(idx) == offset {
+			return uint64(begin), uint64(idx + s)
+		}
+		idx += s
+	}
+	return offset, offset
+}
+
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-- 
2.43.0


From b4dce244e805ce92662a3ce319da1e1721b3b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 05/14] fix: setting a field to a value read from the same
 message

Removing the old value moved the bytes of the new one before they were
copied.
---
 zeropb.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index 34e25f9..c126849 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -394,6 +394,11 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 			return
 		}
 
+		// If the new value was read from this message, it's about to be moved.
+		if overlaps(*buf, val) {
+			val = append([]byte(nil), val...)
+		}
+
 		fieldBegin, fieldEnd := offset-uint64(tagLen), offset+uint64(oldLen)
 		if !sameTag {
 			fieldBegin, fieldEnd = fieldExtent(*buf, offset)
@@ -429,6 +434,17 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	*buf = append(*buf, val...)
 }
 
+// overlaps returns whether the two slices (including, for buf, the unused
+// capacity) share memory.
+func overlaps(buf, val []byte) bool {
+	if len(val) == 0 || cap(buf) == 0 {
+		return false
+	}
+	bufBegin := uintptr(unsafe.Pointer(&buf[:1][0]))
+	valBegin := uintptr(unsafe.Pointer(&val[0]))
+	return valBegin < bufBegin+uintptr(cap(buf)) && bufBegin < valBegin+uintptr(len(val))
+}
+
 // fieldExtent returns where the field whose data starts at the given offset
 // begins (including its tag) and ends.
 func fieldExtent(buf []byte, offset uint64) (uint64, uint64) {
-- 
2.43.0


From 80e9b2180ec66af9a314a57e505ba7c78a8dd120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 06/14] fix: growing a nested message doesn't overwrite its
 parent

GetBytes and FindNextField returned slices with the rest of the message as
capacity, so appending to them (or setting a field of a message decoded from
them) wrote over the fields that follow.
---
 zeropb.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zeropb.go b/zeropb.go
index c126849..364ca5b 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -195,6 +195,8 @@ func GetBytes(buf []byte, offsets Offsets, fieldID int) []byte {
 		return nil
 	}
 	offset += uint64(lenSize)
+	// Don't let an append to the returned slice clobber the rest of the message.
+	buf = buf[: offset+len : offset+len]
 	return buf[offset : offset+len]
 }
 
@@ -583,6 +585,8 @@ func FindNextField(buf []byte, field int) ([]byte, []byte) {
 		return nil, nil
 	}
 	msg := buf[lenSize : lenSize+int(msgLen)]
+	// Don't let an append to the returned slice clobber the rest of the message.
+	msg = msg[:len(msg):len(msg)]
 	for idx := lenSize + int(msgLen); idx < len(buf); {
 		tag, size := binary.Uvarint(buf[idx:])
 		if size <= 0 {
-- 
2.43.0


From 5e37941352463c7902aaea9b89652c3505090fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:36 +0000
Subject: [PATCH 07/14] fix: generate a distinct iterator type for every
 repeated field

Two repeated fields of the same message type, or message names that
concatenate to the same thing, declared the same iterator type twice.
---
 generate/generate.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 865c09f..816b60a 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -42,11 +42,16 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
 	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 
+	// Iterator types share the package's namespace with the message types.
+	typeNames := goNames{}
+	for _, m := range req.MessageType {
+		typeNames[m.GetName()] = struct{}{}
+	}
 	for _, m := range req.MessageType {
 		if m == nil {
 			continue
 		}
-		generateMessage(st, indent, *m)
+		generateMessage(st, indent, *m, typeNames)
 	}
 
 	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
@@ -55,7 +60,9 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	return res, nil
 }
 
-func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto) {
+func generateMessage(
+	st *StringTree, indent StringTreeIndent, m DescriptorProto, typeNames goNames,
+) {
 	messageGoType := m.GetName()
 
 	var largestFieldID int32
@@ -113,7 +120,7 @@ func generateMessage(st *StringTree, indent StringTreeIndent, m DescriptorProto)
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f)
+				generateRepeatedMessageField(st, indent, messageGoType, *f, typeNames)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -158,11 +165,16 @@ func generateMessageField(
 }
 
 func generateRepeatedMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree,
+	indent StringTreeIndent,
+	messageGoType string,
+	f FieldDescriptorProto,
+	typeNames goNames,
 ) {
 	fieldGoName := toGoCase(f.GetName())
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
-	itGoType := messageGoType + fieldGoType + "Iterator"
+	itGoType := typeNames.unique(
+		messageGoType+fieldGoType+"Iterator", messageGoType+fieldGoName+"Iterator")
 
 	st.Write(indent, "type ", itGoType, " []byte\n\n")
 
@@ -185,6 +197,22 @@ func generateRepeatedMessageField(
 	st.Write(indent, "}\n\n")
 }
 
+// goNames is a set of go identifiers that are in use.
+type goNames map[string]struct{}
+
+// unique returns, and marks as used, the first of the candidates that's unused,
+// falling back to the last one followed by underscores.
+func (n goNames) unique(candidates ...string) string {
+	var name string
+	for _, name = range candidates {
+		if _, ok := n[name]; !ok {
+			n[name] = struct{}{}
+			return name
+		}
+	}
+	return n.unique(name + "_")
+}
+
 func toGoCase(s string) string {
 	titleNext := true
 	mapFn := func(r rune) rune {
-- 
2.43.0


From 8dcfcdbb771e2197df5f9242b40a333119ff5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:37 +0000
Subject: [PATCH 08/14] fix: don't import zeropb in files that have no messages

---
 generate/generate.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 816b60a..0089996 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -40,7 +40,9 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
 	st.Write(indent, "package ", req.GetPackage(), "\n\n")
-	st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	if len(req.MessageType) > 0 {
+		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
+	}
 
 	// Iterator types share the package's namespace with the message types.
 	typeNames := goNames{}
-- 
2.43.0


From b30f8e7eca99a042bf72c5b31227fb9395e34206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:38 +0000
Subject: [PATCH 09/14] fix: generate distinct, valid accessor names

Fields whose accessors would collide with Encode, Decode, Reset or another
field's accessors get underscores appended. Fields whose names don't contain
a leading letter (_, _1) get an X.
---
 generate/generate.go | 45 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/generate/generate.go b/generate/generate.go
index 0089996..383db6a 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -107,6 +107,7 @@ func generateMessage(
 	st.Write(indent.Next(), offsets, ".Clear()\n")
 	st.Write(indent, "}\n\n")
 
+	methodNames := goNames{"Encode": struct{}{}, "Decode": struct{}{}, "Reset": struct{}{}}
 	for _, f := range m.Field {
 		if f == nil {
 			continue
@@ -115,14 +116,14 @@ func generateMessage(
 		case FieldDescriptorProto_LABEL_OPTIONAL, FieldDescriptorProto_LABEL_REQUIRED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateMessageField(st, indent, messageGoType, *f)
+				generateMessageField(st, indent, messageGoType, *f, methodNames)
 			default:
-				generateSimpleField(st, indent, messageGoType, *f)
+				generateSimpleField(st, indent, messageGoType, *f, methodNames)
 			}
 		case FieldDescriptorProto_LABEL_REPEATED:
 			switch f.GetType() {
 			case FieldDescriptorProto_TYPE_MESSAGE:
-				generateRepeatedMessageField(st, indent, messageGoType, *f, typeNames)
+				generateRepeatedMessageField(st, indent, messageGoType, *f, methodNames, typeNames)
 			default:
 				// WIP implement repeated simple fields
 				continue
@@ -132,9 +133,13 @@ func generateMessage(
 }
 
 func generateSimpleField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree,
+	indent StringTreeIndent,
+	messageGoType string,
+	f FieldDescriptorProto,
+	methodNames goNames,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.accessor(toGoCase(f.GetName()), "Set")
 	fieldGoType, fieldFnName := fieldToGoTypeSimple(f.GetType())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "() ", fieldGoType, " {\n")
@@ -147,9 +152,13 @@ func generateSimpleField(
 }
 
 func generateMessageField(
-	st *StringTree, indent StringTreeIndent, messageGoType string, f FieldDescriptorProto,
+	st *StringTree,
+	indent StringTreeIndent,
+	messageGoType string,
+	f FieldDescriptorProto,
+	methodNames goNames,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.accessor(toGoCase(f.GetName()), "Set")
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 
 	st.Write(indent, "func (m *", messageGoType, ") ", fieldGoName, "(x *", fieldGoType, ") (bool, error) {\n")
@@ -171,9 +180,9 @@ func generateRepeatedMessageField(
 	indent StringTreeIndent,
 	messageGoType string,
 	f FieldDescriptorProto,
-	typeNames goNames,
+	methodNames, typeNames goNames,
 ) {
-	fieldGoName := toGoCase(f.GetName())
+	fieldGoName := methodNames.accessor(toGoCase(f.GetName()), "AppendTo")
 	fieldGoType := fieldToGoTypeMessage(f.GetTypeName())
 	itGoType := typeNames.unique(
 		messageGoType+fieldGoType+"Iterator", messageGoType+fieldGoName+"Iterator")
@@ -215,6 +224,18 @@ func (n goNames) unique(candidates ...string) string {
 	return n.unique(name + "_")
 }
 
+// accessor returns, and marks as used, a name for a getter such that it and the
+// mutator named by adding the given prefix are both unused.
+func (n goNames) accessor(name, mutatorPrefix string) string {
+	_, getterUsed := n[name]
+	_, mutatorUsed := n[mutatorPrefix+name]
+	if getterUsed || mutatorUsed {
+		return n.accessor(name+"_", mutatorPrefix)
+	}
+	n[name], n[mutatorPrefix+name] = struct{}{}, struct{}{}
+	return name
+}
+
 func toGoCase(s string) string {
 	titleNext := true
 	mapFn := func(r rune) rune {
@@ -228,7 +249,11 @@ func toGoCase(s string) string {
 		}
 		return r
 	}
-	return strings.Map(mapFn, s)
+	s = strings.Map(mapFn, s)
+	if len(s) == 0 || unicode.IsDigit(rune(s[0])) {
+		s = "X" + s
+	}
+	return s
 }
 
 func fieldToGoTypeSimple(typ FieldDescriptorProto_Type) (fieldGoType, fieldFnName string) {
-- 
2.43.0


From 31379085cf877a9fa204f390d84bf90a044d9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 10/14] fix: generate a valid package clause for dotted,
 missing or keyword packages

---
 generate/generate.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 383db6a..5353d05 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -3,6 +3,8 @@
 package generate
 
 import (
+	"go/token"
+	"path"
 	"strings"
 	"unicode"
 )
@@ -39,7 +41,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	var indent StringTreeIndent
 	st.Write(indent, "// Code generated by protoc-gen-zeropb. DO NOT EDIT.\n\n")
 	// TODO(dan): Use the go package if it's set.
-	st.Write(indent, "package ", req.GetPackage(), "\n\n")
+	st.Write(indent, "package ", goPackage(req), "\n\n")
 	if len(req.MessageType) > 0 {
 		st.Write(indent, `import "github.com/danhhz/zeropb"`, "\n\n")
 	}
@@ -62,6 +64,28 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 	return res, nil
 }
 
+// goPackage returns a valid go package name for the file: its proto package or,
+// if it doesn't have one, the base of its name.
+func goPackage(req *FileDescriptorProto) string {
+	name := req.GetPackage()
+	if name == "" {
+		name = strings.TrimSuffix(path.Base(req.GetName()), `.proto`)
+	}
+	name = strings.Map(func(r rune) rune {
+		if !unicode.IsLetter(r) && !unicode.IsDigit(r) {
+			return '_'
+		}
+		return r
+	}, name)
+	if strings.Trim(name, `_`) == "" || unicode.IsDigit(rune(name[0])) {
+		name = "X" + name
+	}
+	if token.Lookup(name).IsKeyword() {
+		name += "_"
+	}
+	return name
+}
+
 func generateMessage(
 	st *StringTree, indent StringTreeIndent, m DescriptorProto, typeNames goNames,
 ) {
-- 
2.43.0


From aa8f1671c7d5a908467a0d34e0c773ab3e0c302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:50 +0000
Subject: [PATCH 11/14] fix: only replace the .proto suffix of output file
 names

---
 generate/generate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 5353d05..48b409b 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -58,7 +58,7 @@ func generateFile(req *FileDescriptorProto) (*CodeGeneratorResponse_File, error)
 		generateMessage(st, indent, *m, typeNames)
 	}
 
-	name := strings.ReplaceAll(req.GetName(), `.proto`, `.zeropb.go`)
+	name := strings.TrimSuffix(req.GetName(), `.proto`) + `.zeropb.go`
 	content := buf.String()
 	res := &CodeGeneratorResponse_File{Name: &name, Content: &content}
 	return res, nil
-- 
2.43.0


From b41efb9c556d512e2b5aa2322838f23f7201bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:41 +0000
Subject: [PATCH 12/14] fix: plugins exit non-zero when they fail

protoc otherwise takes the (empty) output for a successful response.
---
 cmd/protoc-gen-text/main.go   | 1 +
 cmd/protoc-gen-zeropb/main.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/cmd/protoc-gen-text/main.go b/cmd/protoc-gen-text/main.go
index 815ad11..369de75 100644
--- a/cmd/protoc-gen-text/main.go
+++ b/cmd/protoc-gen-text/main.go
@@ -29,5 +29,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
diff --git a/cmd/protoc-gen-zeropb/main.go b/cmd/protoc-gen-zeropb/main.go
index 2915585..97a5529 100644
--- a/cmd/protoc-gen-zeropb/main.go
+++ b/cmd/protoc-gen-zeropb/main.go
@@ -37,5 +37,6 @@ func run() error {
 func main() {
 	if err := run(); err != nil {
 		fmt.Fprintf(os.Stderr, "%+v\n", err)
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 1dc463a4554fce8eb9649deef2ffe96accb22b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:28 +0000
Subject: [PATCH 13/14] fix: tags of field numbers from 2^28 on 32-bit
 platforms

---
 zeropb.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zeropb.go b/zeropb.go
index 364ca5b..8ac5cc0 100644
--- a/zeropb.go
+++ b/zeropb.go
@@ -360,7 +360,7 @@ func setSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byt
 	// default value.
 
 	var scratch [binary.MaxVarintLen64]byte
-	tag := uint64(fieldID<<3 | typ)
+	tag := uint64(fieldID)<<3 | uint64(typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 
 	if offset, ok := offsets.Get(fieldID); ok {
@@ -472,7 +472,7 @@ func fieldExtent(buf []byte, offset uint64) (uint64, uint64) {
 func appendSingle(buf *[]byte, offsets Offsets, fieldID, typ int, valLen, val []byte) {
 	var scratch [binary.MaxVarintLen64]byte
 
-	tag := uint64(fieldID<<3 | typ)
+	tag := uint64(fieldID)<<3 | uint64(typ)
 	tagLen := binary.PutUvarint(scratch[:], tag)
 	*buf = append(*buf, scratch[:tagLen]...)
 
-- 
2.43.0


From 9f5deaa97d6e5ce417e6984d26d768aaa40a16c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:51 +0000
Subject: [PATCH 14/14] fix: package clause of files named with a leading
 non-ASCII digit

---
 generate/generate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate/generate.go b/generate/generate.go
index 48b409b..e8bc13c 100644
--- a/generate/generate.go
+++ b/generate/generate.go
@@ -7,6 +7,7 @@ import (
 	"path"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 // Generate returns the codegen part of the requested zeropb messages.
@@ -77,7 +78,7 @@ func goPackage(req *FileDescriptorProto) string {
 		}
 		return r
 	}, name)
-	if strings.Trim(name, `_`) == "" || unicode.IsDigit(rune(name[0])) {
+	if first, _ := utf8.DecodeRuneInString(name); strings.Trim(name, `_`) == "" || unicode.IsDigit(first) {
 		name = "X" + name
 	}
 	if token.Lookup(name).IsKeyword() {
-- 
2.43.0

