From ff03e5717e44941f715c5cfeb4bc505373087a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 01/31] fix: report truncated multi-byte integers instead of
 panicking (Go v1)

---
 decode.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/decode.go b/decode.go
index b9d58cf..3d5f69b 100644
--- a/decode.go
+++ b/decode.go
@@ -172,7 +172,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 	if len(b) > 1 && b[0] == Uint16Kind[0] {
 		var x uint16
 		var s uint
-		for i := 1; i < VarIntLen16+1; i++ {
+		for i := 1; i < VarIntLen16+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 	if len(b) > 1 && b[0] == Uint32Kind[0] {
 		var x uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -215,7 +215,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 	if len(b) > 1 && b[0] == Uint64Kind[0] {
 		var x uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 	if len(b) > 1 && b[0] == Int32Kind[0] {
 		var ux uint32
 		var s uint
-		for i := 1; i < VarIntLen32+1; i++ {
+		for i := 1; i < VarIntLen32+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 	if len(b) > 1 && b[0] == Int64Kind[0] {
 		var ux uint64
 		var s uint
-		for i := 1; i < VarIntLen64+1; i++ {
+		for i := 1; i < VarIntLen64+1 && i < len(b); i++ {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-- 
2.43.0


From 49e8500fd078b6e82950ab9d2dc34935ecf1cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 02/31] fix: do not return stale trailing bytes when decoding
 into a longer slice (Go v1)

---
 decode.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/decode.go b/decode.go
index 3d5f69b..936186d 100644
--- a/decode.go
+++ b/decode.go
@@ -95,15 +95,11 @@ func decodeBytes(b, ret []byte) ([]byte, []byte, error) {
 				return b, nil, InvalidBytes
 			}
 			if len(b) > int(size)-1 {
-				if len(ret) < int(size) {
-					if ret == nil {
-						ret = make([]byte, size)
-						copy(ret, b[:size])
-					} else {
-						ret = append(ret[:0], b[:size]...)
-					}
+				if ret == nil {
+					ret = make([]byte, size)
+					copy(ret, b[:size])
 				} else {
-					copy(ret[0:], b[:size])
+					ret = append(ret[:0], b[:size]...)
 				}
 				return b[size:], ret, nil
 			}
-- 
2.43.0


From 65e5f7f31b41f0cff6d0fb75a20526d395d10771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 03/31] fix: report truncated multi-byte integers instead of
 panicking (Go v2)

---
 v2/decode.go | 124 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 37 deletions(-)

diff --git a/v2/decode.go b/v2/decode.go
index 5548906..bd22641 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -81,43 +81,9 @@ func decodeSlice(b []byte, kind Kind) ([]byte, uint32, error) {
 
 func decodeBytes(b []byte, ret []byte) ([]byte, []byte, error) {
 	if len(b) > 2 && b[0] == BytesRawKind && b[1] == Uint32RawKind {
-		var size int
-		var offset int
-		cb := uint32(b[2])
-		if cb < continuation {
-			size = int(cb)
-			offset = 3
-		} else {
-			x := cb & (continuation - 1)
-			cb = uint32(b[3])
-			if cb < continuation {
-				size = int(x | (cb << 7))
-				offset = 4
-			} else {
-				x |= (cb & (continuation - 1)) << 7
-				cb = uint32(b[4])
-				if cb < continuation {
-					size = int(x | (cb << 14))
-					offset = 5
-				} else {
-					x |= (cb & (continuation - 1)) << 14
-					cb = uint32(b[5])
-					if cb < continuation {
-						size = int(x | (cb << 21))
-						offset = 6
-					} else {
-						x |= (cb & (continuation - 1)) << 21
-						cb = uint32(b[6])
-						if cb < continuation {
-							size = int(x | (cb << 28))
-							offset = 7
-						}
-					}
-				}
-			}
-		}
-		if len(b)-offset > size-1 {
-			return b[size+offset:], append(ret[:0], b[offset:size+offset]...), nil
+		rest, size, err := decodeUint32(b[1:])
+		if err == nil && uint64(len(rest)) >= uint64(size) {
+			return rest[size:], append(ret[:0], rest[:size]...), nil
 		}
 	}
 	return b, nil, ErrInvalidBytes
@@ -178,12 +144,18 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint16
+		}
 		cb = uint16(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
@@ -200,24 +172,36 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
@@ -234,54 +218,81 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			return b[3:], x | (cb << 7), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			return b[4:], x | (cb << 14), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			return b[5:], x | (cb << 21), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			return b[6:], x | (cb << 28), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			return b[7:], x | (cb << 35), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			return b[8:], x | (cb << 42), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			return b[9:], x | (cb << 49), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			return b[10:], x | (cb << 56), nil
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidUint64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			return b[11:], x | (cb << 63), nil
@@ -302,6 +313,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -312,6 +326,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -322,6 +339,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -332,6 +352,9 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt32
+		}
 		cb = uint32(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -356,6 +379,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x := cb & (continuation - 1)
+		if len(b) < 3 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[2])
 		if cb < continuation {
 			x |= cb << 7
@@ -366,6 +392,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 7
+		if len(b) < 4 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[3])
 		if cb < continuation {
 			x |= cb << 14
@@ -376,6 +405,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 14
+		if len(b) < 5 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[4])
 		if cb < continuation {
 			x |= cb << 21
@@ -386,6 +418,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 21
+		if len(b) < 6 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[5])
 		if cb < continuation {
 			x |= cb << 28
@@ -396,6 +431,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 28
+		if len(b) < 7 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[6])
 		if cb < continuation {
 			x |= cb << 35
@@ -406,6 +444,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 35
+		if len(b) < 8 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[7])
 		if cb < continuation {
 			x |= cb << 42
@@ -416,6 +457,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 42
+		if len(b) < 9 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[8])
 		if cb < continuation {
 			x |= cb << 49
@@ -426,6 +470,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 49
+		if len(b) < 10 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[9])
 		if cb < continuation {
 			x |= cb << 56
@@ -436,6 +483,9 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 		}
 
 		x |= (cb & (continuation - 1)) << 56
+		if len(b) < 11 {
+			return b, 0, ErrInvalidInt64
+		}
 		cb = uint64(b[10])
 		if cb < continuation {
 			x |= cb << 63
-- 
2.43.0


From 1e49c02e77e0ecd2e555962163b6efa25de80f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 04/31] fix: encode into caller-supplied buffers with spare
 capacity without panicking (Go v2)

---
 v2/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v2/buffer.go b/v2/buffer.go
index 1c85560..2d8a3eb 100644
--- a/v2/buffer.go
+++ b/v2/buffer.go
@@ -41,7 +41,8 @@ func NewBufferSize(size int) *Buffer {
 
 func NewBufferFromBytes(b []byte) *Buffer {
 	return &Buffer{
-		b:      b,
+		// Encoders index up to the capacity.
+		b:      b[:cap(b)],
 		offset: 0,
 	}
 }
-- 
2.43.0


From 2a30d6e1f127b268e84e65d4d68a5cb534649e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 05/31] fix: keep the last length byte of byte slices of 256
 MiB and more (Go v2)

---
 v2/encode.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v2/encode.go b/v2/encode.go
index 8422540..0a7b355 100644
--- a/v2/encode.go
+++ b/v2/encode.go
@@ -232,6 +232,7 @@ func encodeBytes(b *Buffer, value []byte) {
 					castValue >>= 7
 					if castValue < continuation {
 						b.b[offset] = byte(castValue)
+						offset++
 					} else {
 						b.b[offset] = byte(castValue&(continuation-1)) | continuation
 						offset++
-- 
2.43.0


From ec07c748333f0f2571cb1ad410ed4b529d1ec7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 06/31] fix: consume nothing when an array, map or error is not
 what comes next (Rust)

---
 decoder.rs | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index 43624e9..a8312ee 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -88,32 +88,30 @@ where
     }
 
     fn decode_array(&mut self, val_kind: Kind) -> Result<usize, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidArray)?;
-        if kind == Kind::Array as u8 && val_kind as u8 == defined_val_kind {
+        let start = self.position();
+        let mut header = [0u8; 2];
+        let complete = self.read_exact(&mut header).is_ok();
+        if complete && header == [Kind::Array as u8, val_kind as u8] {
             return match self.decode_u32() {
                 Err(err) => Err(err),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
-        Err(DecodingError::InvalidU32)
+        self.set_position(start);
+        Err(DecodingError::InvalidArray)
     }
 
     fn decode_map(&mut self, key_kind: Kind, val_kind: Kind) -> Result<usize, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_key_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        let defined_val_kind = self.read_u8().ok().ok_or(DecodingError::InvalidMap)?;
-        if kind == Kind::Map as u8
-            && key_kind as u8 == defined_key_kind
-            && val_kind as u8 == defined_val_kind
-        {
+        let start = self.position();
+        let mut header = [0u8; 3];
+        let complete = self.read_exact(&mut header).is_ok();
+        if complete && header == [Kind::Map as u8, key_kind as u8, val_kind as u8] {
             return match self.decode_u32() {
                 Err(err) => Err(err),
                 Ok(val) => Ok(val as usize),
             };
         }
-        self.set_position(self.position() - 1);
+        self.set_position(start);
         Err(DecodingError::InvalidMap)
     }
 
@@ -151,9 +149,10 @@ where
     }
 
     fn decode_error(&mut self) -> Result<Box<dyn Error>, DecodingError> {
-        let kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        let nested_kind = self.read_u8().ok().ok_or(DecodingError::InvalidError)?;
-        if kind == Kind::Error as u8 && nested_kind == Kind::String as u8 {
+        let start = self.position();
+        let mut header = [0u8; 2];
+        let complete = self.read_exact(&mut header).is_ok();
+        if complete && header == [Kind::Error as u8, Kind::String as u8] {
             let size = self.decode_u32()? as usize;
             let mut str_buf = vec![0u8; size];
             self.read_exact(&mut str_buf)
@@ -165,7 +164,7 @@ where
                 .ok_or(DecodingError::InvalidError)?;
             return Ok(Box::<dyn Error>::from(result.to_owned()));
         }
-        self.set_position(self.position() - 2);
+        self.set_position(start);
         Err(DecodingError::InvalidError)
     }
 
-- 
2.43.0


From 190286ae4be1c5bd429ee0e952d6ba7b5f8c19e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 07/31] fix: do not allocate a claimed length that the input
 cannot hold (Rust)

---
 decoder.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/decoder.rs b/decoder.rs
index a8312ee..fd5b278 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -73,6 +73,20 @@ pub trait Decoder {
     fn decode_f64(&mut self) -> Result<f64, DecodingError>;
 }
 
+/// Reads `size` bytes, allocating only if that many are left.
+fn read_sized<T>(cursor: &mut Cursor<T>, size: usize) -> Option<Vec<u8>>
+where
+    T: AsRef<[u8]>,
+{
+    let len = cursor.get_ref().as_ref().len() as u64;
+    if len.saturating_sub(cursor.position()) < size as u64 {
+        return None;
+    }
+    let mut buf = vec![0u8; size];
+    cursor.read_exact(&mut buf).ok()?;
+    Some(buf)
+}
+
 impl<T> Decoder for Cursor<T>
 where
     T: AsRef<[u8]>,
@@ -119,10 +133,7 @@ where
         let kind = self.read_u8().ok().ok_or(DecodingError::InvalidBytes)?;
         if kind == Kind::Bytes as u8 {
             let size = self.decode_u32()? as usize;
-            let mut buf = vec![0u8; size];
-            self.read_exact(&mut buf)
-                .ok()
-                .ok_or(DecodingError::InvalidBytes)?;
+            let buf = read_sized(self, size).ok_or(DecodingError::InvalidBytes)?;
             return Ok(buf);
         }
         self.set_position(self.position() - 1);
@@ -134,10 +145,7 @@ where
 
         if kind == Kind::String as u8 {
             let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidString)?;
+            let str_buf = read_sized(self, size).ok_or(DecodingError::InvalidString)?;
 
             let result = str::from_utf8(&str_buf)
                 .ok()
@@ -154,10 +162,7 @@ where
         let complete = self.read_exact(&mut header).is_ok();
         if complete && header == [Kind::Error as u8, Kind::String as u8] {
             let size = self.decode_u32()? as usize;
-            let mut str_buf = vec![0u8; size];
-            self.read_exact(&mut str_buf)
-                .ok()
-                .ok_or(DecodingError::InvalidError)?;
+            let str_buf = read_sized(self, size).ok_or(DecodingError::InvalidError)?;
 
             let result = str::from_utf8(&str_buf)
                 .ok()
-- 
2.43.0


From 035fb29a2e74b34dd870097cef917e36662c86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 08/31] fix: release decoded bytes with the layout they were
 allocated with (C)

---
 c_bindings/decoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index d518ba4..56e1c20 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -169,10 +169,10 @@ pub extern "C" fn polyglot_decode_bytes(status: *mut Status, decoder: *mut Decod
 pub extern "C" fn polyglot_free_decode_bytes(buffer: *mut Buffer) {
     if !buffer.is_null() {
         unsafe {
-            let boxed_value =
-                std::slice::from_raw_parts_mut((*buffer).data, (*buffer).length as usize);
-            let value = boxed_value.as_mut_ptr();
-            drop(Box::from_raw(value));
+            drop(Box::from_raw(std::ptr::slice_from_raw_parts_mut(
+                (*buffer).data,
+                (*buffer).length as usize,
+            )));
             drop(Box::from_raw(buffer));
         }
     }
-- 
2.43.0


From f38658282bdce9c0a94913594af7010c0bf3a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 09/31] fix: always set the status and refuse null handles and
 strings (C)

---
 c_bindings/decoder.rs | 6 +++++-
 c_bindings/encoder.rs | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/c_bindings/decoder.rs b/c_bindings/decoder.rs
index 56e1c20..8d61377 100644
--- a/c_bindings/decoder.rs
+++ b/c_bindings/decoder.rs
@@ -70,9 +70,13 @@ pub extern "C" fn polyglot_decode_none(status: *mut Status, decoder: *mut Decode
         unsafe {
             *status = Status::NullPointer;
         }
+        return false;
     }
 
-    unsafe { (*decoder).cursor.decode_none() }
+    unsafe {
+        *status = Status::Pass;
+        (*decoder).cursor.decode_none()
+    }
 }
 
 #[no_mangle]
diff --git a/c_bindings/encoder.rs b/c_bindings/encoder.rs
index 556da37..ae88b38 100644
--- a/c_bindings/encoder.rs
+++ b/c_bindings/encoder.rs
@@ -54,6 +54,7 @@ pub extern "C" fn polyglot_encoder_size(status: *mut Status, encoder: *mut Encod
     }
 
     unsafe {
+        *status = Status::Pass;
         (*encoder).cursor.get_ref().len() as u32
     }
 }
@@ -193,7 +194,7 @@ pub extern "C" fn polyglot_encode_bytes(status: *mut Status, encoder: *mut Encod
 pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Encoder, string_pointer: *const c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
@@ -223,7 +224,7 @@ pub extern "C" fn polyglot_encode_string(status: *mut Status, encoder: *mut Enco
 pub extern "C" fn polyglot_encode_error(status: *mut Status, encoder: *mut Encoder, string_pointer: *mut c_char) {
     Status::check_not_null(status);
 
-    if encoder.is_null() {
+    if encoder.is_null() || string_pointer.is_null() {
         unsafe {
             *status = Status::NullPointer;
         }
-- 
2.43.0


From 79c8d7bb23bdccb95614f5953046f7e624ac6d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 10/31] fix: decode uint16 values of three bytes (TypeScript)

---
 decoder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index ccc108d..f62a36f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -225,7 +225,7 @@ export class Decoder {
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
-      num |= b & ((CONTINUATION - 1) << shift);
+      num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
     return num;
-- 
2.43.0


From 2ad956f719d90e6b756a2f3c0c725ebce555ba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 11/31] fix: report truncated values instead of inventing them
 (TypeScript)

---
 decoder.ts | 56 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index f62a36f..611891f 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -147,12 +147,24 @@ export class Decoder {
     return this.buf[this.#pos];
   }
 
-  private pop(): number {
+  private pop(Err: new () => Error): number {
+    if (this.length < 1) {
+      throw new Err();
+    }
     const val = this.buf[this.#pos];
     this.#pos += 1;
     return val;
   }
 
+  private take(size: number, Err: new () => Error): Uint8Array {
+    if (this.length < size) {
+      throw new Err();
+    }
+    const val = this.buf.slice(this.#pos, this.#pos + size);
+    this.#pos += size;
+    return val;
+  }
+
   private validateKind(expected: Kind, Err: new () => Error) {
     if ((this.peek() as Kind) !== expected) {
       throw new Err();
@@ -164,11 +176,15 @@ export class Decoder {
     return this.buf.length - this.#pos;
   }
 
-  private varint(maxLen: number, signed = false): bigint {
+  private varint(
+    maxLen: number,
+    Err: new () => Error,
+    signed = false,
+  ): bigint {
     let num = 0n;
     let shift = 0n;
     for (let i = 1; i < maxLen + 1; i += 1) {
-      const b = this.pop();
+      const b = this.pop(Err);
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
         if (signed) {
@@ -180,7 +196,7 @@ export class Decoder {
       num += BigInt(b & (CONTINUATION - 1)) << shift;
       shift += 7n;
     }
-    return num;
+    throw new Err();
   }
 
   null(): boolean {
@@ -201,7 +217,7 @@ export class Decoder {
 
   boolean(): boolean {
     this.validateKind(Kind.Boolean, InvalidBooleanError);
-    return this.pop() === BOOLEAN_TRUE;
+    return this.pop(InvalidBooleanError) === BOOLEAN_TRUE;
   }
 
   uint8(): number {
@@ -221,34 +237,34 @@ export class Decoder {
     let num = 0;
     let shift = 0;
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
-      const b = this.pop();
+      const b = this.pop(InvalidUint16Error);
       if (b < CONTINUATION) {
         return (num | (b << shift)) >>> 0;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
     }
-    return num;
+    throw new InvalidUint16Error();
   }
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32));
+    return Number(this.varint(MAXLEN32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64);
+    return this.varint(MAXLEN64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, true));
+    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, true);
+    return this.varint(MAXLEN64, InvalidInt64Error, true);
   }
 
   float32(): number {
@@ -291,33 +307,25 @@ export class Decoder {
   uint8Array(): Uint8Array {
     this.validateKind(Kind.Uint8Array, InvalidUint8ArrayError);
     const size = this.uint32();
-    const value = this.buf.slice(this.#pos, this.#pos + size);
-    this.#pos += size;
-    return value;
+    return this.take(size, InvalidUint8ArrayError);
   }
 
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
-    const value = new TextDecoder().decode(
-      this.buf.slice(this.#pos, this.#pos + size),
-    );
-    this.#pos += size;
-    return value;
+    return new TextDecoder().decode(this.take(size, InvalidStringError));
   }
 
   error(): Error {
     this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop() as Kind;
+    const nestedType = this.pop(InvalidErrorError) as Kind;
     if (nestedType !== Kind.String) {
       throw new InvalidErrorError();
     }
 
     const size = this.uint32();
-    const value = new Error(
-      new TextDecoder().decode(this.buf.slice(this.#pos, this.#pos + size)),
+    return new Error(
+      new TextDecoder().decode(this.take(size, InvalidErrorError)),
     );
-    this.#pos += size;
-    return value;
   }
 }
-- 
2.43.0


From 9229670ca502e0a61df92507af5803fbc25efc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 12/31] fix: consume nothing when an array, map or error is not
 what comes next (TypeScript)

---
 decoder.ts | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 611891f..0432a80 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -166,10 +166,17 @@ export class Decoder {
   }
 
   private validateKind(expected: Kind, Err: new () => Error) {
-    if ((this.peek() as Kind) !== expected) {
-      throw new Err();
-    }
-    this.#pos += 1;
+    this.validateKinds([expected], Err);
+  }
+
+  // Nothing is consumed unless all the kinds are the expected ones
+  private validateKinds(expected: Kind[], Err: new () => Error) {
+    expected.forEach((kind, i) => {
+      if ((this.buf[this.#pos + i] as Kind) !== kind) {
+        throw new Err();
+      }
+    });
+    this.#pos += expected.length;
   }
 
   get length(): number {
@@ -292,15 +299,12 @@ export class Decoder {
   }
 
   array(valueKind: Kind): number {
-    this.validateKind(Kind.Array, InvalidArrayError);
-    this.validateKind(valueKind, InvalidArrayError);
+    this.validateKinds([Kind.Array, valueKind], InvalidArrayError);
     return this.uint32();
   }
 
   map(keyKind: Kind, valueKind: Kind): number {
-    this.validateKind(Kind.Map, InvalidMapError);
-    this.validateKind(keyKind, InvalidMapError);
-    this.validateKind(valueKind, InvalidMapError);
+    this.validateKinds([Kind.Map, keyKind, valueKind], InvalidMapError);
     return this.uint32();
   }
 
@@ -317,12 +321,7 @@ export class Decoder {
   }
 
   error(): Error {
-    this.validateKind(Kind.Error, InvalidErrorError);
-    const nestedType = this.pop(InvalidErrorError) as Kind;
-    if (nestedType !== Kind.String) {
-      throw new InvalidErrorError();
-    }
-
+    this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
     return new Error(
       new TextDecoder().decode(this.take(size, InvalidErrorError)),
-- 
2.43.0


From 6e311c5745d078c7f78ee1e5c231e2533195c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 13/31] fix: keep a leading byte order mark of decoded text
 (TypeScript)

---
 decoder.ts | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/decoder.ts b/decoder.ts
index 0432a80..ea292bb 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -317,14 +317,18 @@ export class Decoder {
   string(): string {
     this.validateKind(Kind.String, InvalidStringError);
     const size = this.uint32();
-    return new TextDecoder().decode(this.take(size, InvalidStringError));
+    return new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+      this.take(size, InvalidStringError),
+    );
   }
 
   error(): Error {
     this.validateKinds([Kind.Error, Kind.String], InvalidErrorError);
     const size = this.uint32();
     return new Error(
-      new TextDecoder().decode(this.take(size, InvalidErrorError)),
+      new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+        this.take(size, InvalidErrorError),
+      ),
     );
   }
 }
-- 
2.43.0


From 138bbc59f18992c9cdd505f6aa58f025d030d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 14/31] fix: grow the encoder's buffer far enough and honour
 its offset (TypeScript)

---
 encoder.ts | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/encoder.ts b/encoder.ts
index fca1760..8c8f633 100644
--- a/encoder.ts
+++ b/encoder.ts
@@ -41,18 +41,20 @@ export class Encoder {
     if (this.#buf.length - this.#pos < minLen) {
       const oldBuf = this.#buf;
 
-      this.#buf = new Uint8Array(this.#buf.buffer.byteLength * 2);
+      this.#buf = new Uint8Array(
+        Math.max(oldBuf.length * 2, this.#pos + minLen),
+      );
       this.#buf.set(oldBuf);
     }
   }
 
   get bytes() {
-    return new Uint8Array(this.#buf.buffer, 0, this.#pos);
+    return new Uint8Array(this.#buf.buffer, this.#buf.byteOffset, this.#pos);
   }
 
   private varint(value: number, kind: Kind, maxBytes: number, signed = false) {
     let val = value;
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -75,7 +77,7 @@ export class Encoder {
     signed = false,
   ) {
     let val = BigInt(value);
-    this.resize(maxBytes);
+    this.resize(1 + maxBytes);
     this.#buf[this.#pos] = kind;
     this.#pos += 1;
 
@@ -136,7 +138,7 @@ export class Encoder {
   }
 
   uint64(value: bigint) {
-    return this.varintBig(value, Kind.Uint64, 9);
+    return this.varintBig(value, Kind.Uint64, 10);
   }
 
   int32(value: number) {
@@ -144,7 +146,7 @@ export class Encoder {
   }
 
   int64(value: bigint) {
-    return this.varintBig(value, Kind.Int64, 9, true);
+    return this.varintBig(value, Kind.Int64, 10, true);
   }
 
   float32(value: number) {
@@ -193,7 +195,7 @@ export class Encoder {
   }
 
   uint8Array(value: Uint8Array) {
-    this.resize(5 + value.length);
+    this.resize(7 + value.length);
     this.#buf[this.#pos] = Kind.Uint8Array;
     this.#pos += 1;
     this.uint32(value.length);
@@ -205,7 +207,7 @@ export class Encoder {
   string(value: string) {
     const v = new TextEncoder().encode(value);
 
-    this.resize(5 + v.length);
+    this.resize(7 + v.length);
     this.#buf[this.#pos] = Kind.String;
     this.#pos += 1;
     this.uint32(v.length);
@@ -217,7 +219,7 @@ export class Encoder {
   error(value: Error) {
     const v = new TextEncoder().encode(value.message);
 
-    this.resize(6 + v.length);
+    this.resize(8 + v.length);
     this.#buf[this.#pos] = Kind.Error;
     this.#buf[this.#pos + 1] = Kind.String;
     this.#pos += 2;
-- 
2.43.0


From ae65d177366221ab6d49dc1ed17c449ed7c55df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:34 +0000
Subject: [PATCH 15/31] fix: do not read fixed-size values beyond the end of
 the input (TypeScript)

---
 decoder.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder.ts b/decoder.ts
index ea292bb..b1cece7 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -229,6 +229,9 @@ export class Decoder {
 
   uint8(): number {
     this.validateKind(Kind.Uint8, InvalidUint8Error);
+    if (this.length < 1) {
+      throw new InvalidUint8Error();
+    }
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -276,6 +279,9 @@ export class Decoder {
 
   float32(): number {
     this.validateKind(Kind.Float32, InvalidFloat32Error);
+    if (this.length < 4) {
+      throw new InvalidFloat32Error();
+    }
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
@@ -288,6 +294,9 @@ export class Decoder {
 
   float64(): number {
     this.validateKind(Kind.Float64, InvalidFloat64Error);
+    if (this.length < 8) {
+      throw new InvalidFloat64Error();
+    }
     const dataView = new DataView(
       this.buf.buffer,
       this.buf.byteOffset + this.#pos,
-- 
2.43.0


From 112a32f09e1a9fab739f6f690bce470bcee42d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 16/31] fix: return decoded bytes that do not share the input's
 memory (TypeScript)

---
 decoder.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/decoder.ts b/decoder.ts
index b1cece7..8294b24 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -160,7 +160,9 @@ export class Decoder {
     if (this.length < size) {
       throw new Err();
     }
-    const val = this.buf.slice(this.#pos, this.#pos + size);
+    const val = new Uint8Array(
+      this.buf.subarray(this.#pos, this.#pos + size),
+    );
     this.#pos += size;
     return val;
   }
-- 
2.43.0


From ea0e08104b4a29c3e12b912eb10fe82fef6ac798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 17/31] fix: strip the trailing newline of the embedded
 version, which broke every generated file header

---
 v2/version/version.go | 3 ++-
 version/version.go    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v2/version/version.go b/v2/version/version.go
index f725f09..d67d143 100644
--- a/v2/version/version.go
+++ b/v2/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
diff --git a/version/version.go b/version/version.go
index f725f09..d67d143 100644
--- a/version/version.go
+++ b/version/version.go
@@ -18,11 +18,12 @@ package version
 
 import (
 	_ "embed"
+	"strings"
 )
 
 //go:embed current_version
 var currentVersion string
 
 func Version() string {
-	return currentVersion
+	return strings.TrimSpace(currentVersion)
 }
-- 
2.43.0


From 48117d38c6aeb9b0a82e1194162452587c5b1b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:59 +0000
Subject: [PATCH 18/31] fix: let the Rust generator analyse message types that
 refer to themselves

---
 generator/rust/imports.go    | 12 +++++++++---
 v2/generator/rust/imports.go | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index c8e7e00..9803512 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -35,6 +35,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	if len(file.Enums) > 0 {
 		dependencies.Enums = true
 	}
+	visited := make(map[protoreflect.FullName]struct{})
 	for _, message := range file.Messages {
 		for _, field := range message.Fields {
 			if field.Desc.Kind() == protoreflect.MessageKind {
@@ -42,7 +43,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 					dependencies.Maps = true
 				}
 				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
+					dependencies = traverseFields(field.Message, dependencies, visited)
 				}
 			}
 		}
@@ -50,14 +51,19 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseFields(message *protogen.Message, dependencies *Dependencies, visited map[protoreflect.FullName]struct{}) *Dependencies {
+	// message types may refer to themselves and to each other
+	if _, ok := visited[message.Desc.FullName()]; ok {
+		return dependencies
+	}
+	visited[message.Desc.FullName()] = struct{}{}
 	for _, field := range message.Fields {
 		if field.Desc.Kind() == protoreflect.MessageKind {
 			if field.Desc.Message().IsMapEntry() {
 				dependencies.Maps = true
 			}
 			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
+				dependencies = traverseFields(field.Message, dependencies, visited)
 			}
 		}
 	}
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index c8e7e00..9803512 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -35,6 +35,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	if len(file.Enums) > 0 {
 		dependencies.Enums = true
 	}
+	visited := make(map[protoreflect.FullName]struct{})
 	for _, message := range file.Messages {
 		for _, field := range message.Fields {
 			if field.Desc.Kind() == protoreflect.MessageKind {
@@ -42,7 +43,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 					dependencies.Maps = true
 				}
 				if field.Desc.Message().Fields().Len() > 0 {
-					dependencies = traverseFields(field.Message, dependencies)
+					dependencies = traverseFields(field.Message, dependencies, visited)
 				}
 			}
 		}
@@ -50,14 +51,19 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	return dependencies
 }
 
-func traverseFields(message *protogen.Message, dependencies *Dependencies) *Dependencies {
+func traverseFields(message *protogen.Message, dependencies *Dependencies, visited map[protoreflect.FullName]struct{}) *Dependencies {
+	// message types may refer to themselves and to each other
+	if _, ok := visited[message.Desc.FullName()]; ok {
+		return dependencies
+	}
+	visited[message.Desc.FullName()] = struct{}{}
 	for _, field := range message.Fields {
 		if field.Desc.Kind() == protoreflect.MessageKind {
 			if field.Desc.Message().IsMapEntry() {
 				dependencies.Maps = true
 			}
 			if field.Desc.Message().Fields().Len() > 0 {
-				dependencies = traverseFields(field.Message, dependencies)
+				dependencies = traverseFields(field.Message, dependencies, visited)
 			}
 		}
 	}
-- 
2.43.0


From 5e0401e00211748d30918a500b30402856691311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:25 +0000
Subject: [PATCH 19/31] fix: generate Go code that compiles for messages that
 hold only maps

---
 generator/golang/templates/decode.templ    | 3 ++-
 v2/generator/golang/templates/decode.templ | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index e701386..a3e4929 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -70,7 +70,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index d953142..dde02e6 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -68,7 +68,8 @@ var err error
         {{ $keyKind := GetKind $field.MapKey.Kind -}}
         {{ $valKind := GetKind $field.MapValue.Kind -}}
 
-        {{ CamelCaseName $field.Name }}Size, err := d.Map({{ $keyKind }}, {{ $valKind }})
+        var {{ CamelCaseName $field.Name }}Size uint32
+        {{ CamelCaseName $field.Name }}Size, err = d.Map({{ $keyKind }}, {{ $valKind }})
         if err != nil {
         return err
         }
-- 
2.43.0


From a7ff174ea42fa7e481037fb2a73be60956c1e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 20/31] fix: leave nothing of an earlier message in a reused
 object (generated Go code)

---
 generator/golang/templates/decode.templ    | 4 ++++
 v2/generator/golang/templates/decode.templ | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index a3e4929..c096994 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -12,6 +12,8 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.Decoder) error {
     if d.Nil() {
+        // nothing of an earlier message may remain
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -80,6 +82,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if x.{{ CamelCaseName $field.Name }} == nil {
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index dde02e6..0d79c8f 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -10,6 +10,8 @@ func (x *{{ CamelCase .FullName }}) Decode (b []byte) error {
 {{define "internalDecode"}}
 func (x *{{CamelCase .FullName}}) decode(d *polyglot.BufferDecoder) error {
     if d.Nil() {
+        // nothing of an earlier message may remain
+        *x = *New{{ CamelCase .FullName }}()
         return nil
     }
 
@@ -78,6 +80,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{ else -}}
         if !d.Nil() {
@@ -86,6 +90,8 @@ var err error
         if err != nil {
         return err
         }
+        } else {
+        x.{{ CamelCaseName $field.Name }} = nil
         }
     {{end -}}
 {{end -}}
-- 
2.43.0


From 123433d4dcaaad0ce0d6cb97cc481232d2455c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:04 +0000
Subject: [PATCH 21/31] fix: let messages that contain their own type be
 created (generated Go code, v1)

---
 generator/golang/generator.go            |  1 +
 generator/golang/structs.go              | 25 ++++++++++++++++++++++++
 generator/golang/templates/structs.templ |  2 +-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/generator/golang/generator.go b/generator/golang/generator.go
index 075cf3f..a23e1f5 100644
--- a/generator/golang/generator.go
+++ b/generator/golang/generator.go
@@ -46,6 +46,7 @@ func New() *Generator {
 		"FirstLowerCase":     utils.FirstLowerCase,
 		"FirstLowerCaseName": utils.FirstLowerCaseName,
 		"FindValue":          FindValue,
+		"IsRecursive":        IsRecursive,
 		"GetKind":            GetKind,
 		"GetLUTEncoder":      GetLUTEncoder,
 		"GetLUTDecoder":      GetLUTDecoder,
diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index b5bf4e0..8fcede3 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -217,6 +217,31 @@ func GetDecodingFields(fields protoreflect.FieldDescriptors) DecodingFields {
 	}
 }
 
+// IsRecursive returns whether the message type of a singular field contains
+// the field's own message type again, which makes it impossible to create the
+// one together with the other.
+func IsRecursive(field protoreflect.FieldDescriptor) bool {
+	return contains(field.Message(), field.ContainingMessage().FullName(), make(map[protoreflect.FullName]struct{}))
+}
+
+func contains(message protoreflect.MessageDescriptor, name protoreflect.FullName, visited map[protoreflect.FullName]struct{}) bool {
+	if message.FullName() == name {
+		return true
+	}
+	if _, ok := visited[message.FullName()]; ok {
+		return false
+	}
+	visited[message.FullName()] = struct{}{}
+	fields := message.Fields()
+	for i := 0; i < fields.Len(); i++ {
+		field := fields.Get(i)
+		if field.Kind() == protoreflect.MessageKind && field.Cardinality() != protoreflect.Repeated && contains(field.Message(), name, visited) {
+			return true
+		}
+	}
+	return false
+}
+
 func GetKind(kind protoreflect.Kind) string {
 	var outKind string
 	var ok bool
diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 6fc09e7..028163b 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -41,7 +41,7 @@ func New{{ CamelCase .FullName }}() *{{ CamelCase .FullName }} {
     return &{{ CamelCase .FullName }}{
         {{ range $i, $v := (MakeIterable .Fields.Len) -}}
             {{ $field := $.Fields.Get $i -}}
-            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
+            {{ if and (eq $field.Kind 11) (ne $field.Cardinality 3) (not (IsRecursive $field)) -}} {{/* protoreflect.MessageKind protoreflect.Repeated */ -}}
                 {{ CamelCaseName $field.Name }}: New{{ CamelCase $field.Message.FullName }}(),
             {{end -}}
         {{end -}}
-- 
2.43.0


From d9d034fb2da7c5f13d887982722e774467761e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:00 +0000
Subject: [PATCH 22/31] fix: do not reserve memory for more elements than a
 message holds (generated code)

---
 generator/golang/templates/decode.templ    | 8 ++++++--
 generator/rust/templates/decode.templ      | 2 +-
 v2/generator/golang/templates/decode.templ | 8 ++++++--
 v2/generator/rust/templates/decode.templ   | 2 +-
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index c096994..ac17a48 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -49,9 +49,13 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}{}
     }
     for i := uint32(0); i < sliceSize; i++ {
+    // sliceSize comes from the message: memory is only taken for elements that are there
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -77,7 +81,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 4232690..9a3b18b 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index 0d79c8f..b8bab6a 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -47,9 +47,13 @@ var err error
     return err
     }
     if uint32(len(x.{{ CamelCaseName $field.Name }})) != sliceSize {
-    x.{{ CamelCaseName $field.Name }} = make({{ FindValue $field }}, sliceSize)
+    x.{{ CamelCaseName $field.Name }} = {{ FindValue $field }}{}
     }
     for i := uint32(0); i < sliceSize; i++ {
+    // sliceSize comes from the message: memory is only taken for elements that are there
+    if i == uint32(len(x.{{ CamelCaseName $field.Name }})) {
+    x.{{ CamelCaseName $field.Name }} = append(x.{{ CamelCaseName $field.Name }}, make({{ FindValue $field }}, 1)...)
+    }
     {{ $decoder := GetLUTDecoder $field.Kind -}}
     {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
     if x.{{ CamelCaseName $field.Name }}[i] == nil {
@@ -75,7 +79,7 @@ var err error
         if err != nil {
         return err
         }
-        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map({{ CamelCaseName $field.Name }}Size)
+        x.{{ CamelCaseName $field.Name }} = New{{ CamelCase $field.FullName }}Map(0)
         err = x.{{ CamelCaseName $field.Name }}.decode(d, {{ CamelCaseName $field.Name }}Size)
         if err != nil {
         return err
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 4232690..9a3b18b 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -19,7 +19,7 @@ impl Decode for {{ CamelCase .FullName }} {
             {{ $decoder := GetLUTDecoder $field.Kind -}}
 
             let {{ SnakeCaseName $field.Name }}_size = b.decode_array({{ $kind }})?;
-            let mut temp = Vec::with_capacity({{ SnakeCaseName $field.Name }}_size);
+            let mut temp = Vec::new();
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
-- 
2.43.0


From 7547f1d4cdac9ca28ccd814e6e35ba76e9b937b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 23/31] fix: do not carry the privacy option over to the next
 request (Rust generator)

---
 generator/rust/generator.go    | 5 +++++
 v2/generator/rust/generator.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 7ebb320..1c7dbb1 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -89,6 +90,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -106,6 +108,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// the options of a request must not carry over to the next one
+	defer func() { *g.privacy = GeneratedFieldPrivacyPrivate }()
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 75c60ca..09a6392 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -42,6 +42,7 @@ const (
 type Generator struct {
 	options      *protogen.Options
 	templ        *template.Template
+	privacy      *string
 	CustomFields func() string
 	CustomEncode func() string
 	CustomDecode func() string
@@ -89,6 +90,7 @@ func New() *Generator {
 			ImportRewriteFunc: func(path protogen.GoImportPath) protogen.GoImportPath { return path },
 		},
 		templ:        templ,
+		privacy:      privacy,
 		CustomEncode: func() string { return "" },
 		CustomDecode: func() string { return "" },
 		CustomFields: func() string { return "" },
@@ -106,6 +108,9 @@ func (*Generator) MarshalResponse(res *pluginpb.CodeGeneratorResponse) ([]byte,
 }
 
 func (g *Generator) Generate(req *pluginpb.CodeGeneratorRequest) (res *pluginpb.CodeGeneratorResponse, err error) {
+	// the options of a request must not carry over to the next one
+	defer func() { *g.privacy = GeneratedFieldPrivacyPrivate }()
+
 	plugin, err := g.options.New(req)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From e086eec78ba5270b6949695ff5a6c14604e386d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:40 +0000
Subject: [PATCH 24/31] fix: do not carry imports over to the next file and
 request (TypeScript generator)

---
 generator/typescript/generator.go    | 3 +++
 v2/generator/typescript/generator.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/generator/typescript/generator.go b/generator/typescript/generator.go
index 8b467f9..4d16c88 100644
--- a/generator/typescript/generator.go
+++ b/generator/typescript/generator.go
@@ -142,6 +142,9 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	// the imports of a file are its own, not those of earlier ones
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
diff --git a/v2/generator/typescript/generator.go b/v2/generator/typescript/generator.go
index 29f538a..b96f0a7 100644
--- a/v2/generator/typescript/generator.go
+++ b/v2/generator/typescript/generator.go
@@ -142,6 +142,9 @@ func (g *Generator) ExecuteTemplate(
 	packageName string,
 	header bool,
 ) error {
+	// the imports of a file are its own, not those of earlier ones
+	g.dependencies = map[string]struct{}{}
+
 	var bodyBuf bytes.Buffer
 	if err := g.templ.ExecuteTemplate(&bodyBuf, "body.templ", map[string]interface{}{
 		"enums":    protoFile.Desc.Enums(),
-- 
2.43.0


From e2771cedf0512e3bf6bc053c10d7ea7b8469dd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 25/31] fix: keep what rustfmt reports out of the generated
 code (Rust generator)

---
 generator/rust/generator.go    | 5 +++--
 v2/generator/rust/generator.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/generator/rust/generator.go b/generator/rust/generator.go
index 1c7dbb1..6c3678a 100644
--- a/generator/rust/generator.go
+++ b/generator/rust/generator.go
@@ -27,6 +27,7 @@ import (
 
 	"bytes"
 	"flag"
+	"os"
 	"os/exec"
 	"text/template"
 )
@@ -160,9 +161,9 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(buf.Bytes())
-	output, err := cmd.CombinedOutput()
+	cmd.Stderr = os.Stderr
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
 		return err
 	}
 	_, err = genFile.Write(output)
diff --git a/v2/generator/rust/generator.go b/v2/generator/rust/generator.go
index 09a6392..ed8d909 100644
--- a/v2/generator/rust/generator.go
+++ b/v2/generator/rust/generator.go
@@ -27,6 +27,7 @@ import (
 
 	"bytes"
 	"flag"
+	"os"
 	"os/exec"
 	"text/template"
 )
@@ -160,9 +161,9 @@ func (g *Generator) ExecuteTemplate(
 
 	cmd := exec.Command("rustfmt")
 	cmd.Stdin = bytes.NewReader(buf.Bytes())
-	output, err := cmd.CombinedOutput()
+	cmd.Stderr = os.Stderr
+	output, err := cmd.Output()
 	if err != nil {
-		println(string(output))
 		return err
 	}
 	_, err = genFile.Write(output)
-- 
2.43.0


From 5c605c8b17d59f847d7b9602fde8bbf78bb6e004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:22 +0000
Subject: [PATCH 26/31] fix: refuse integers that do not fit their type

The check for too many bits in the last byte never applied (Go v1) or did not
exist (Go v2, Rust, TypeScript), so such integers were silently reduced, or
returned although out of range (TypeScript).
---
 decode.go    | 12 ++++++------
 decoder.rs   | 15 +++++++++++++++
 decoder.ts   | 18 +++++++++++++-----
 v2/decode.go | 10 +++++-----
 4 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/decode.go b/decode.go
index 936186d..847382e 100644
--- a/decode.go
+++ b/decode.go
@@ -172,8 +172,8 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen16 && cb > 1 {
-					return b, 0, InvalidUint32
+				if i == VarIntLen16 && cb > 3 {
+					return b, 0, InvalidUint16
 				}
 				// End of varint, add the last bits and advance the buffer
 				return b[i+1:], x | uint16(cb)<<s, nil
@@ -193,7 +193,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidUint32
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -216,7 +216,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
 				// Check for overflow
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidUint64
 				}
 				// End of varint, add the last bits and advance the buffer
@@ -238,7 +238,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen32 && cb > 1 {
+				if i == VarIntLen32 && cb > 15 {
 					return b, 0, InvalidInt32
 				}
 				// End of varint, add the last bits
@@ -266,7 +266,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			cb := b[i]
 			// Check if msb is set signifying a continuation byte
 			if cb < continuation {
-				if i > VarIntLen64 && cb > 1 {
+				if i == VarIntLen64 && cb > 1 {
 					return b, 0, InvalidInt64
 				}
 				// End of varint, add the last bits
diff --git a/decoder.rs b/decoder.rs
index fd5b278..1653625 100644
--- a/decoder.rs
+++ b/decoder.rs
@@ -201,6 +201,9 @@ where
             for _ in 0..VARINT_LEN16 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU16)?;
                 if byte < CONTINUATION {
+                    if s + 8 - byte.leading_zeros() > u16::BITS {
+                        break;
+                    }
                     return Ok(x | ((byte as u16) << s));
                 }
                 x |= (byte as u16 & ((CONTINUATION as u16) - 1)) << s;
@@ -220,6 +223,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU32)?;
                 if byte < CONTINUATION {
+                    if s + 8 - byte.leading_zeros() > u32::BITS {
+                        break;
+                    }
                     return Ok(x | ((byte as u32) << s));
                 }
                 x |= (byte as u32 & ((CONTINUATION as u32) - 1)) << s;
@@ -239,6 +245,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidU64)?;
                 if byte < CONTINUATION {
+                    if s + 8 - byte.leading_zeros() > u64::BITS {
+                        break;
+                    }
                     return Ok(x | ((byte as u64) << s));
                 }
                 x |= (byte as u64 & ((CONTINUATION as u64) - 1)) << s;
@@ -258,6 +267,9 @@ where
             for _ in 0..VARINT_LEN32 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI32)?;
                 if byte < CONTINUATION {
+                    if s + 8 - byte.leading_zeros() > u32::BITS {
+                        break;
+                    }
                     ux |= (byte as u32) << s;
                     let mut x = (ux >> 1) as i32;
                     if ux & 1 != 0 {
@@ -282,6 +294,9 @@ where
             for _ in 0..VARINT_LEN64 {
                 let byte = self.read_u8().ok().ok_or(DecodingError::InvalidI64)?;
                 if byte < CONTINUATION {
+                    if s + 8 - byte.leading_zeros() > u64::BITS {
+                        break;
+                    }
                     ux |= (byte as u64) << s;
                     let mut x = (ux >> 1) as i64;
                     if ux & 1 != 0 {
diff --git a/decoder.ts b/decoder.ts
index 8294b24..cccba97 100644
--- a/decoder.ts
+++ b/decoder.ts
@@ -187,6 +187,7 @@ export class Decoder {
 
   private varint(
     maxLen: number,
+    bits: number,
     Err: new () => Error,
     signed = false,
   ): bigint {
@@ -196,6 +197,9 @@ export class Decoder {
       const b = this.pop(Err);
       if (b < BigInt(CONTINUATION)) {
         num += BigInt(b) << shift;
+        if (num >= 1n << BigInt(bits)) {
+          break;
+        }
         if (signed) {
           // two's complement
           num = num % 2n === 0n ? num / 2n : -(num + 1n) / 2n;
@@ -251,7 +255,11 @@ export class Decoder {
     for (let i = 1; i < MAXLEN16 + 1; i += 1) {
       const b = this.pop(InvalidUint16Error);
       if (b < CONTINUATION) {
-        return (num | (b << shift)) >>> 0;
+        num |= b << shift;
+        if (num > 0xffff) {
+          break;
+        }
+        return num;
       }
       num |= (b & (CONTINUATION - 1)) << shift;
       shift += 7;
@@ -261,22 +269,22 @@ export class Decoder {
 
   uint32(): number {
     this.validateKind(Kind.Uint32, InvalidUint32Error);
-    return Number(this.varint(MAXLEN32, InvalidUint32Error));
+    return Number(this.varint(MAXLEN32, 32, InvalidUint32Error));
   }
 
   uint64(): bigint {
     this.validateKind(Kind.Uint64, InvalidUint64Error);
-    return this.varint(MAXLEN64, InvalidUint64Error);
+    return this.varint(MAXLEN64, 64, InvalidUint64Error);
   }
 
   int32(): number {
     this.validateKind(Kind.Int32, InvalidInt32Error);
-    return Number(this.varint(MAXLEN32, InvalidInt32Error, true));
+    return Number(this.varint(MAXLEN32, 32, InvalidInt32Error, true));
   }
 
   int64(): bigint {
     this.validateKind(Kind.Int64, InvalidInt64Error);
-    return this.varint(MAXLEN64, InvalidInt64Error, true);
+    return this.varint(MAXLEN64, 64, InvalidInt64Error, true);
   }
 
   float32(): number {
diff --git a/v2/decode.go b/v2/decode.go
index bd22641..aa3214a 100644
--- a/v2/decode.go
+++ b/v2/decode.go
@@ -157,7 +157,7 @@ func decodeUint16(b []byte) ([]byte, uint16, error) {
 			return b, 0, ErrInvalidUint16
 		}
 		cb = uint16(b[3])
-		if cb < continuation {
+		if cb < 1<<2 { // no more bits than the type has
 			return b[4:], x | (cb << 14), nil
 		}
 	}
@@ -203,7 +203,7 @@ func decodeUint32(b []byte) ([]byte, uint32, error) {
 			return b, 0, ErrInvalidUint32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb < 1<<4 { // no more bits than the type has
 			return b[6:], x | (cb << 28), nil
 		}
 	}
@@ -294,7 +294,7 @@ func decodeUint64(b []byte) ([]byte, uint64, error) {
 			return b, 0, ErrInvalidUint64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb < 1<<1 { // no more bits than the type has
 			return b[11:], x | (cb << 63), nil
 		}
 	}
@@ -356,7 +356,7 @@ func decodeInt32(b []byte) ([]byte, int32, error) {
 			return b, 0, ErrInvalidInt32
 		}
 		cb = uint32(b[5])
-		if cb < continuation {
+		if cb < 1<<4 { // no more bits than the type has
 			x |= cb << 28
 			if x&1 != 0 {
 				return b[6:], -(int32(x>>1) + 1), nil
@@ -487,7 +487,7 @@ func decodeInt64(b []byte) ([]byte, int64, error) {
 			return b, 0, ErrInvalidInt64
 		}
 		cb = uint64(b[10])
-		if cb < continuation {
+		if cb < 1<<1 { // no more bits than the type has
 			x |= cb << 63
 			if x&1 != 0 {
 				return b[11:], -(int64(x>>1) + 1), nil
-- 
2.43.0


From 8ec0b7dc03f7303147fc4ac14ada2a310df07316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:21 +0000
Subject: [PATCH 27/31] fix: enums declared in nested messages were left out of
 the generated code

---
 generator/golang/templates/structs.templ        | 4 ++++
 generator/rust/templates/structs.templ          | 4 ++++
 generator/typescript/templates/structs.templ    | 4 ++++
 v2/generator/golang/templates/structs.templ     | 4 ++++
 v2/generator/rust/templates/structs.templ       | 4 ++++
 v2/generator/typescript/templates/structs.templ | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/generator/golang/templates/structs.templ b/generator/golang/templates/structs.templ
index 028163b..3ece812 100644
--- a/generator/golang/templates/structs.templ
+++ b/generator/golang/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/generator/rust/templates/structs.templ b/generator/rust/templates/structs.templ
index 8890eca..20a8db6 100644
--- a/generator/rust/templates/structs.templ
+++ b/generator/rust/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/generator/typescript/templates/structs.templ b/generator/typescript/templates/structs.templ
index f954fda..e1c9cd8 100644
--- a/generator/typescript/templates/structs.templ
+++ b/generator/typescript/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/v2/generator/golang/templates/structs.templ b/v2/generator/golang/templates/structs.templ
index 0f3c571..072b00d 100644
--- a/v2/generator/golang/templates/structs.templ
+++ b/v2/generator/golang/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/v2/generator/rust/templates/structs.templ b/v2/generator/rust/templates/structs.templ
index 8890eca..20a8db6 100644
--- a/v2/generator/rust/templates/structs.templ
+++ b/v2/generator/rust/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
diff --git a/v2/generator/typescript/templates/structs.templ b/v2/generator/typescript/templates/structs.templ
index f954fda..e1c9cd8 100644
--- a/v2/generator/typescript/templates/structs.templ
+++ b/v2/generator/typescript/templates/structs.templ
@@ -2,6 +2,10 @@
     {{ range $i, $v := (MakeIterable $.Messages.Len) }}
         {{ $message := $.Messages.Get $i }}
         {{ if not $message.IsMapEntry }}
+            {{- range $i, $e := (MakeIterable $message.Enums.Len) }}
+                {{ $enum := ($message.Enums.Get $i) }}
+                {{template "enum" $enum}}
+            {{- end }}
             {{template "structs" $message}}
         {{end}}
     {{end}}
-- 
2.43.0


From 32c7c8b935b229eacc320b17953793473d848373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:52 +0000
Subject: [PATCH 28/31] fix: Go code generated for lists and maps of bytes did
 not compile

---
 generator/golang/templates/decode.templ       | 2 ++
 generator/golang/templates/decodeMap.templ    | 2 ++
 v2/generator/golang/templates/decode.templ    | 2 ++
 v2/generator/golang/templates/decodeMap.templ | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index ac17a48..1f630d1 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -62,6 +62,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/decodeMap.templ b/generator/golang/templates/decodeMap.templ
index 93bff31..db58116 100644
--- a/generator/golang/templates/decodeMap.templ
+++ b/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.Decoder, size uint32) err
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index b8bab6a..be706b3 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -60,6 +60,8 @@ var err error
     x.{{ CamelCaseName $field.Name }}[i] = New{{ CamelCase $field.Message.FullName }}()
     }
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
+    {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+        x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/decodeMap.templ b/v2/generator/golang/templates/decodeMap.templ
index 9092a07..485e6b9 100644
--- a/v2/generator/golang/templates/decodeMap.templ
+++ b/v2/generator/golang/templates/decodeMap.templ
@@ -36,6 +36,8 @@ func (x {{CamelCase .FullName}}Map) decode(d *polyglot.BufferDecoder, size uint3
             {{ if eq .MapValue.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
                 {{CamelCaseName .MapValue.Name}}Temp, err = d{{$valDecoder}}()
                 v = {{ FindValue .MapValue }}({{ CamelCaseName .MapValue.Name }}Temp)
+            {{else if eq .MapValue.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
+                v, err = d{{$valDecoder}}(nil)
             {{else -}}
                 v, err = d{{$valDecoder}}()
             {{end -}}
-- 
2.43.0


From c214ceadf81eeb21a9002ea2d97e8020df271df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:08 +0000
Subject: [PATCH 29/31] fix: Go code generated for lists of enums did not
 compile

---
 generator/golang/structs.go                | 2 +-
 generator/golang/templates/decode.templ    | 4 ++++
 generator/golang/templates/encode.templ    | 4 ++++
 v2/generator/golang/structs.go             | 2 +-
 v2/generator/golang/templates/decode.templ | 4 ++++
 v2/generator/golang/templates/encode.templ | 4 ++++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/golang/structs.go b/generator/golang/structs.go
index 8fcede3..6e48ad7 100644
--- a/generator/golang/structs.go
+++ b/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/generator/golang/templates/decode.templ b/generator/golang/templates/decode.templ
index 1f630d1..75a0031 100644
--- a/generator/golang/templates/decode.templ
+++ b/generator/golang/templates/decode.templ
@@ -64,6 +64,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+        var {{ CamelCaseName $field.Name }}Temp uint32
+        {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+        x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/generator/golang/templates/encode.templ b/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/generator/golang/templates/encode.templ
+++ b/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
diff --git a/v2/generator/golang/structs.go b/v2/generator/golang/structs.go
index e4473c2..29f998d 100644
--- a/v2/generator/golang/structs.go
+++ b/v2/generator/golang/structs.go
@@ -114,7 +114,7 @@ func FindValue(field protoreflect.FieldDescriptor) string {
 			case protoreflect.Optional, protoreflect.Required:
 				return utils.CamelCase(string(field.Enum().FullName()))
 			case protoreflect.Repeated:
-				return utils.CamelCase(utils.AppendString(Slice, string(field.Enum().FullName())))
+				return utils.AppendString(Slice, utils.CamelCase(string(field.Enum().FullName())))
 			default:
 				panic(errUnknownCardinality)
 			}
diff --git a/v2/generator/golang/templates/decode.templ b/v2/generator/golang/templates/decode.templ
index be706b3..07663b2 100644
--- a/v2/generator/golang/templates/decode.templ
+++ b/v2/generator/golang/templates/decode.templ
@@ -62,6 +62,10 @@ var err error
     err = x.{{ CamelCaseName $field.Name }}[i].decode(d)
     {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}(nil)
+    {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+        var {{ CamelCaseName $field.Name }}Temp uint32
+        {{ CamelCaseName $field.Name }}Temp, err = d{{ $decoder }}()
+        x.{{ CamelCaseName $field.Name }}[i] = {{ CamelCase $field.Enum.FullName }}({{ CamelCaseName $field.Name }}Temp)
     {{ else -}}
         x.{{ CamelCaseName $field.Name }}[i], err = d{{ $decoder }}()
     {{end -}}
diff --git a/v2/generator/golang/templates/encode.templ b/v2/generator/golang/templates/encode.templ
index eb7a696..1a24608 100644
--- a/v2/generator/golang/templates/encode.templ
+++ b/v2/generator/golang/templates/encode.templ
@@ -29,7 +29,11 @@ func (x *{{ CamelCase .FullName }}) Encode (b *polyglot.Buffer) {
         {{else -}}
         polyglot.Encoder(b).Slice(uint32(len(x.{{ CamelCaseName $field.Name }})), {{ GetKindLUT $field.Kind }})
         for _, v := range x.{{ CamelCaseName $field.Name }} {
+            {{ if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            polyglot.Encoder(b){{$encoder}}(uint32(v))
+            {{else -}}
             polyglot.Encoder(b){{$encoder}}(v)
+            {{end -}}
         }
         {{end -}}
     {{end -}}
-- 
2.43.0


From 27b6408aa6c7e223bbbf75ce098b7b43f5061a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:26 +0000
Subject: [PATCH 30/31] fix: Rust code generated for lists of numbers, bytes
 and enums and for most maps did not compile

---
 generator/rust/templates/decode.templ    |  2 ++
 generator/rust/templates/encode.templ    | 10 ++++++++--
 v2/generator/rust/templates/decode.templ |  2 ++
 v2/generator/rust/templates/encode.templ | 10 ++++++++--
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/generator/rust/templates/decode.templ b/generator/rust/templates/decode.templ
index 9a3b18b..2682542 100644
--- a/generator/rust/templates/decode.templ
+++ b/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/generator/rust/templates/encode.templ b/generator/rust/templates/encode.templ
index 8a92671..8b3e9ce 100644
--- a/generator/rust/templates/encode.templ
+++ b/generator/rust/templates/encode.templ
@@ -30,8 +30,12 @@ impl Encode for {{ CamelCase .FullName }} {
         for item in &self.{{ SnakeCaseName $field.Name}} {
             {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
             b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -55,7 +59,7 @@ impl Encode for {{ CamelCase .FullName }} {
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +68,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
diff --git a/v2/generator/rust/templates/decode.templ b/v2/generator/rust/templates/decode.templ
index 9a3b18b..2682542 100644
--- a/v2/generator/rust/templates/decode.templ
+++ b/v2/generator/rust/templates/decode.templ
@@ -23,6 +23,8 @@ impl Decode for {{ CamelCase .FullName }} {
             for _ in 0..{{ SnakeCaseName $field.Name }}_size {
                 {{ if eq $field.Kind 11 -}} {{/* protoreflect.MessageKind */ -}}
                 temp.push({{ CamelCase $field.Message.FullName }}::decode(b)?.ok_or(DecodingError::InvalidArray)?);
+                {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+                temp.push({{ CamelCase $field.Enum.FullName }}::try_from(b{{ $decoder }}()?).ok().ok_or(DecodingError::InvalidEnum)?);
                 {{ else -}}
                 temp.push(b{{ $decoder }}()?);
                 {{ end -}}
diff --git a/v2/generator/rust/templates/encode.templ b/v2/generator/rust/templates/encode.templ
index 8a92671..8b3e9ce 100644
--- a/v2/generator/rust/templates/encode.templ
+++ b/v2/generator/rust/templates/encode.templ
@@ -30,8 +30,12 @@ impl Encode for {{ CamelCase .FullName }} {
         for item in &self.{{ SnakeCaseName $field.Name}} {
             {{ if eq $field.Kind 9 -}} {{/* protoreflect.StringKind */ -}}
             b{{$encoder}}(&item)?;
-            {{ else -}}
+            {{ else if eq $field.Kind 12 -}} {{/* protoreflect.BytesKind */ -}}
             b{{$encoder}}(item)?;
+            {{ else if eq $field.Kind 14 -}} {{/* protoreflect.EnumKind */ -}}
+            b{{$encoder}}(*item as u32)?;
+            {{ else -}}
+            b{{$encoder}}(*item)?;
             {{ end -}}
         }
         {{end -}}
@@ -55,7 +59,7 @@ impl Encode for {{ CamelCase .FullName }} {
                 {{ else if eq $field.MapKey.Kind 9 -}}  {{/* protoreflect.StringsKind */ -}}
                 b{{$keyEncoder}}(&k)?;
                 {{else -}}
-                    b{{$keyEncoder}}(k)?;
+                    b{{$keyEncoder}}(*k)?;
                 {{end -}}
             {{end -}}
             {{ $valEncoder := GetLUTEncoder $field.MapValue.Kind -}}
@@ -64,6 +68,8 @@ impl Encode for {{ CamelCase .FullName }} {
             {{else -}}
                 {{ if eq $field.MapValue.Kind 14 -}}  {{/* protoreflect.EnumKind */ -}}
                 b.encode_u32(*v as u32)?;
+                {{ else if or (eq $field.MapValue.Kind 9) (eq $field.MapValue.Kind 12) -}}  {{/* protoreflect.StringKind, protoreflect.BytesKind */ -}}
+                b{{$valEncoder}}(v)?;
                 {{else -}}
                     b{{$valEncoder}}(*v)?;
                 {{end -}}
-- 
2.43.0


From a2f6886556a8f1ff5bed84dad8eb3a5103c3dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:03 +0000
Subject: [PATCH 31/31] fix: Rust code generated for enums and maps of nested
 messages lacked its imports

---
 generator/rust/imports.go    | 14 ++++++++++++++
 v2/generator/rust/imports.go | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/generator/rust/imports.go b/generator/rust/imports.go
index 9803512..99d25ee 100644
--- a/generator/rust/imports.go
+++ b/generator/rust/imports.go
@@ -35,6 +35,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	if len(file.Enums) > 0 {
 		dependencies.Enums = true
 	}
+	inspectMessages(file.Messages, dependencies)
 	visited := make(map[protoreflect.FullName]struct{})
 	for _, message := range file.Messages {
 		for _, field := range message.Fields {
@@ -51,6 +52,19 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	return dependencies
 }
 
+// inspectMessages looks for the enums and maps that messages declare, however deeply nested.
+func inspectMessages(messages []*protogen.Message, dependencies *Dependencies) {
+	for _, message := range messages {
+		if len(message.Enums) > 0 {
+			dependencies.Enums = true
+		}
+		if message.Desc.IsMapEntry() {
+			dependencies.Maps = true
+		}
+		inspectMessages(message.Messages, dependencies)
+	}
+}
+
 func traverseFields(message *protogen.Message, dependencies *Dependencies, visited map[protoreflect.FullName]struct{}) *Dependencies {
 	// message types may refer to themselves and to each other
 	if _, ok := visited[message.Desc.FullName()]; ok {
diff --git a/v2/generator/rust/imports.go b/v2/generator/rust/imports.go
index 9803512..99d25ee 100644
--- a/v2/generator/rust/imports.go
+++ b/v2/generator/rust/imports.go
@@ -35,6 +35,7 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	if len(file.Enums) > 0 {
 		dependencies.Enums = true
 	}
+	inspectMessages(file.Messages, dependencies)
 	visited := make(map[protoreflect.FullName]struct{})
 	for _, message := range file.Messages {
 		for _, field := range message.Fields {
@@ -51,6 +52,19 @@ func DependencyAnalysis(file *protogen.File) *Dependencies {
 	return dependencies
 }
 
+// inspectMessages looks for the enums and maps that messages declare, however deeply nested.
+func inspectMessages(messages []*protogen.Message, dependencies *Dependencies) {
+	for _, message := range messages {
+		if len(message.Enums) > 0 {
+			dependencies.Enums = true
+		}
+		if message.Desc.IsMapEntry() {
+			dependencies.Maps = true
+		}
+		inspectMessages(message.Messages, dependencies)
+	}
+}
+
 func traverseFields(message *protogen.Message, dependencies *Dependencies, visited map[protoreflect.FullName]struct{}) *Dependencies {
 	// message types may refer to themselves and to each other
 	if _, ok := visited[message.Desc.FullName()]; ok {
-- 
2.43.0

