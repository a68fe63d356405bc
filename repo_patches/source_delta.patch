From 39d392fc08248be7357ab54c506b218705e6ba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:46 +0000
Subject: [PATCH 01/28] fix: shift the second half of an unaligned field by its
 own offset

The last, partial chunk of a field that starts inside a byte was shifted as if
it ended where a full byte would, so its top bits were lost or misplaced.
---
 generator/target/c/c.go               |  9 ++++-----
 generator/target/commonjs/commonjs.go | 12 +++++-------
 generator/target/cpp/cpp.go           |  9 ++++-----
 generator/target/csharp/csharp.go     |  9 ++++-----
 generator/target/esm/esm.go           |  6 ++----
 generator/target/esm/esm_encode.go    |  2 +-
 generator/target/java/java.go         |  9 ++++-----
 7 files changed, 24 insertions(+), 32 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 9607dab..1ca0bdc 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -239,8 +239,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2204,12 +2203,12 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		}
 		// second half (if exists)
 		// e.g. j = 8, end = 11
-		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5
+		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5 (j - begin)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d129125..30e2733 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -543,8 +543,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -900,8 +899,7 @@ var fileTemplate = `
                 var nextJ2 = (j + 8) & ~7;
                 if (nextJ2 > end) nextJ2 = end;
                 var fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-                var shiftLeft2 = 8 - (nextJ2 & 7);
-                if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+                var shiftLeft2 = j - begin;
                 var srcByteIndex2 = (j / 8) | 0;
                 var srcShift2;
                 if (bigEndian) {
@@ -2525,12 +2523,12 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		}
 		// second half (if exists)
 		// e.g. j = 8, end = 11
-		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5
+		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5 (j - begin)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 15e7b44..6db123d 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -240,8 +240,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
             int64_t next_j = (j + 8) & ~(int64_t)7;
             if (next_j > end) next_j = end;
             uint64_t field_mask = ((((uint64_t)1) << (((next_j - 1) & 7) + 1)) - 1) & ~(((uint64_t)1 << (j & 7)) - 1);
-            int shift_left = (int)(8 - (next_j & 7));
-            if ((next_j & 7) == 0) shift_left = 8;
+            int shift_left = (int)(j - begin);
             int64_t src_byte_index = j / 8;
             int64_t src_shift;
             if (big_endian) {
@@ -2349,12 +2348,12 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		}
 		// second half (if exists)
 		// e.g. j = 8, end = 11
-		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5
+		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5 (j - begin)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index fbe7c4d..70bf7d3 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -522,8 +522,7 @@ var structTemplate = `
                     long nextJ = (j + 8) & ~(long)7;
                     if (nextJ > end) nextJ = end;
                     ulong fieldMask = ((1UL << (int)(((nextJ - 1) & 7) + 1)) - 1UL) & ~(((ulong)1 << (int)(j & 7)) - 1UL);
-                    int shiftLeft = (int)(8 - (nextJ & 7));
-                    if ((nextJ & 7) == 0) shiftLeft = 8;
+                    int shiftLeft = (int)(j - begin);
                     long srcByteIndex = j / 8;
                     long srcShift;
                     if (bigEndian) {
@@ -2042,12 +2041,12 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		}
 		// second half (if exists)
 		// e.g. j = 8, end = 11
-		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5
+		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5 (j - begin)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 7a4635a..07ece11 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -502,8 +502,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
@@ -825,8 +824,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
             let nextJ2 = (j + 8) & ~7;
             if (nextJ2 > end) nextJ2 = end;
             const fieldMask2 = ((1 << (((nextJ2 - 1) & 7) + 1)) - 1) & ~((1 << (j & 7)) - 1);
-            let shiftLeft2 = 8 - (nextJ2 & 7);
-            if ((nextJ2 & 7) === 0) shiftLeft2 = 8;
+            const shiftLeft2 = j - begin;
             const srcByteIndex2 = (j / 8) | 0;
             let srcShift2;
             if (bigEndian) {
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index 98ebb74..dd1aec9 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -667,7 +667,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
+			shiftLeft := j - begin
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 6c4e7fb..f06f709 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -460,8 +460,7 @@ var structTemplate = `
                 long nextJ = (j + 8) & ~7L;
                 if (nextJ > end) nextJ = end;
                 long fieldMask = ((1L << (((nextJ - 1) & 7) + 1)) - 1L) & ~((1L << (j & 7)) - 1L);
-                int shiftLeft = (int)(8 - (nextJ & 7));
-                if ((nextJ & 7) == 0) shiftLeft = 8;
+                int shiftLeft = (int)(j - begin);
                 long srcByteIndex = j / 8;
                 long srcShift;
                 if (bigEndian) {
@@ -2009,12 +2008,12 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		}
 		// second half (if exists)
 		// e.g. j = 8, end = 11
-		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5
+		//      j = 8, nextJ = 11, fieldMask = 0b00000111, shiftLeft = 5 (j - begin)
 		if j < end {
 			nextJ := min(end, (j+8)&(^7))
 			fieldMask := ((1 << (((nextJ - 1) & 7) + 1)) - 1) & (^((1 << (j & 7)) - 1))
-			shiftLeft := 8 - nextJ%8
-			// expr = expr | (fieldData(j/8) & fieldMask) << (8 - nextJ%8)
+			shiftLeft := j - begin
+			// expr = expr | (fieldData(j/8) & fieldMask) << (j - begin)
 			expr = &definition.BinopExpr{
 				Op:    definition.ExprOp_BOR,
 				Expr1: expr,
-- 
2.43.0


From 6ea25ef00c4302383be9d417ebd24cea2f396185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:32 +0000
Subject: [PATCH 02/28] fix: overwrite only a field's own bits when it starts
 inside a byte

A field following leading void padding, and every element of a looped array,
was OR-ed into whatever the output buffer held before.
---
 generator/target/c/c.go               | 20 +++++++-------------
 generator/target/commonjs/commonjs.go | 26 ++++++++------------------
 generator/target/cpp/cpp.go           | 20 +++++++-------------
 generator/target/csharp/csharp.go     | 20 +++++++-------------
 generator/target/esm/esm.go           | 12 ++----------
 generator/target/esm/esm_encode.go    | 13 ++++++-------
 generator/target/java/java.go         | 20 +++++++-------------
 7 files changed, 44 insertions(+), 87 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 1ca0bdc..993c475 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -253,11 +253,7 @@ static void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
-            data[i / 8] = (uint8_t)part;
-        } else {
-            data[i / 8] |= (uint8_t)part;
-        }
+        data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
         i = (i + 8) & ~(int64_t)7;
     }
 }
@@ -1691,7 +1687,7 @@ var fieldEncoderTemplate = `
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-    (({{ .TyUint8 }}*)data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] {{ .Operator }} {{ .FieldData }};
+    (({{ .TyUint8 }}*)data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] = {{ if .KeepMask }}((({{ .TyUint8 }}*)data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] & {{ .KeepMask }}) | ({{ .FieldData }}){{ else }}{{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- /* Encoder array bit-loops, one per element-type variant. Each is a complete
@@ -2155,12 +2151,10 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
 
-		// operator is '=' if is filling the whole byte, otherwise is '|='
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN] // "="
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN] // "|="
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 
 		// we use 'from' and 'to' to denote the bit position in encoded data
@@ -2259,7 +2253,7 @@ func (g CGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) str
 		encodeImplData := map[string]any{
 			"TyUint8":   typeMap[definition.TypeID_Uint8],
 			"BytePos":   i / 8,
-			"Operator":  operator,
+			"KeepMask":  keepMask,
 			"FieldData": exprStr,
 			"Dynamic":   structDynamic,
 		}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 30e2733..95b6fe9 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -557,11 +557,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
-                data[(i / 8) | 0] = part;
-            } else {
-                data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
-            }
+            data[(i / 8) | 0] = (data[(i / 8) | 0] & ~dataMask & 0xFF) | part;
             i = (i + 8) & ~7;
         }
     }
@@ -913,11 +909,7 @@ var fileTemplate = `
             }
             var shiftLeftOuter = i & 7;
             part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-            if (dataMask === 0xFF) {
-                data[(i / 8) | 0] = part;
-            } else {
-                data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
-            }
+            data[(i / 8) | 0] = (data[(i / 8) | 0] & ~dataMask & 0xFF) | part;
             i = (i + 8) & ~7;
         }
     }
@@ -1981,7 +1973,7 @@ var fieldEncoderTemplate = `
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] {{ .Operator }} {{ .FieldData }};
+    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] = {{ if .KeepMask }}(data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] & {{ .KeepMask }}) | ({{ .FieldData }}){{ else }}{{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- /* Encoder array bit-loops, one per element-type variant. */ -}}
@@ -2475,12 +2467,10 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
 
-		// operator is '=' if is filling the whole byte, otherwise is '|='
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN] // "="
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN] // "|="
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 
 		// we use 'from' and 'to' to denote the bit position in encoded data
@@ -2588,7 +2578,7 @@ func (g CommonJSGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 		encodeImplData := map[string]any{
 			"TyUint8":   typeMap[definition.TypeID_Uint8],
 			"BytePos":   i / 8,
-			"Operator":  operator,
+			"KeepMask":  keepMask,
 			"FieldData": exprStr,
 			"Dynamic":   structDynamic,
 		}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 6db123d..a5ef46c 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -254,11 +254,7 @@ inline void bb_write_field_bits(uint8_t* data, int64_t bit_from, int64_t bit_siz
         }
         int shift_left_outer = (int)(i & 7);
         part = (part << shift_left_outer) & data_mask;
-        if (data_mask == 0xFF) {
-            data[i / 8] = (uint8_t)part;
-        } else {
-            data[i / 8] |= (uint8_t)part;
-        }
+        data[i / 8] = (uint8_t)((data[i / 8] & ~data_mask) | part);
         i = (i + 8) & ~(int64_t)7;
     }
 }
@@ -1833,7 +1829,7 @@ for (int64_t _i = 0; _i < {{ .Length }}; _i++) {
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-    static_cast<{{ .TyUint8 }}*>(data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] {{ .Operator }} {{ .FieldData }};
+    static_cast<{{ .TyUint8 }}*>(data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] = {{ if .KeepMask }}(static_cast<{{ .TyUint8 }}*>(data)[{{ if .Dynamic }}offset + {{ end }}{{ .BytePos }}] & {{ .KeepMask }}) | ({{ .FieldData }}){{ else }}{{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- define "arrayBitLoopStruct" -}}
@@ -2300,12 +2296,10 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
 
-		// operator is '=' if is filling the whole byte, otherwise is '|='
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN] // "="
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN] // "|="
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 
 		// we use 'from' and 'to' to denote the bit position in encoded data
@@ -2404,7 +2398,7 @@ func (g CppGenerator) generateEncodeImpl(from, to int64, fieldData func(int64) s
 		encodeImplData := map[string]any{
 			"TyUint8":   typeMap[definition.TypeID_Uint8],
 			"BytePos":   i / 8,
-			"Operator":  operator,
+			"KeepMask":  keepMask,
 			"FieldData": exprStr,
 			"Dynamic":   structDynamic,
 		}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 70bf7d3..b256700 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -536,11 +536,7 @@ var structTemplate = `
                 }
                 int shiftLeftOuter = (int)(i & 7);
                 part = (part << shiftLeftOuter) & dataMask;
-                if (dataMask == 0xFF) {
-                    data[(int)(i / 8)] = (byte)part;
-                } else {
-                    data[(int)(i / 8)] |= (byte)part;
-                }
+                data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
                 i = (i + 8) & ~(long)7;
             }
         }
@@ -1467,7 +1463,7 @@ var fieldEncoderTemplate = `
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-        data[{{ if .Dynamic }}offset + {{ end }}{{ if .GenOptions.MemoryCopy }}start + {{ end }}{{ .BytePos }}] {{ .Operator }} (byte){{ .FieldData }};
+        data[{{ if .Dynamic }}offset + {{ end }}{{ if .GenOptions.MemoryCopy }}start + {{ end }}{{ .BytePos }}] = {{ if .KeepMask }}(byte)((data[{{ if .Dynamic }}offset + {{ end }}{{ if .GenOptions.MemoryCopy }}start + {{ end }}{{ .BytePos }}] & {{ .KeepMask }}) | (byte){{ .FieldData }}){{ else }}(byte){{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- /* Encoder array bit-loops, one per element-type variant. C# value
@@ -1993,12 +1989,10 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
 
-		// operator is '=' if is filling the whole byte, otherwise is '|='
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN] // "="
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN] // "|="
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 
 		// we use 'from' and 'to' to denote the bit position in encoded data
@@ -2097,7 +2091,7 @@ func (g CSharpGenerator) generateEncodeImpl(from, to int64, fieldData func(int64
 		encodeImplData := map[string]any{
 			"TyUint8":    typeMap[definition.TypeID_Uint8],
 			"BytePos":    i / 8,
-			"Operator":   operator,
+			"KeepMask":   keepMask,
 			"FieldData":  exprStr,
 			"Dynamic":    structDynamic,
 			"GenOptions": g.GenCtx.GenOptions,
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 07ece11..160dca6 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -516,11 +516,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
-            data[(i / 8) | 0] = part;
-        } else {
-            data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
-        }
+        data[(i / 8) | 0] = (data[(i / 8) | 0] & ~dataMask & 0xFF) | part;
         i = (i + 8) & ~7;
     }
 }
@@ -838,11 +834,7 @@ function bbWriteFieldBits(data, bitFrom, bitSize, value, bigEndian) {
         }
         const shiftLeftOuter = i & 7;
         part = ((part << shiftLeftOuter) & dataMask) & 0xFF;
-        if (dataMask === 0xFF) {
-            data[(i / 8) | 0] = part;
-        } else {
-            data[(i / 8) | 0] = (data[(i / 8) | 0] | part) & 0xFF;
-        }
+        data[(i / 8) | 0] = (data[(i / 8) | 0] & ~dataMask & 0xFF) | part;
         i = (i + 8) & ~7;
     }
 }
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index dd1aec9..a55ea4d 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -292,7 +292,7 @@ var fieldEncoderTemplate = `
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] {{ .Operator }} {{ .FieldData }};
+    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] = {{ if .KeepMask }}(data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] & {{ .KeepMask }}) | ({{ .FieldData }}){{ else }}{{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- /* Encoder array bit-loops, one per element-type variant. */ -}}
@@ -643,11 +643,10 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 	for i := from; i < to; i = (i + 8) & (^7) {
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN]
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN]
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 		begin := i - from
 		end := nextI - from
@@ -693,7 +692,7 @@ func (g ESModuleGenerator) generateEncodeImpl(from, to int64, fieldData func(int
 			panic(fmt.Errorf("internal error: %s", err))
 		}
 		encodeStmt := util.ExecuteTemplate(fieldEncoderTemplate, "encodeImpl", nil, map[string]any{
-			"BytePos": i / 8, "Operator": operator, "FieldData": exprStr, "Dynamic": structDynamic,
+			"BytePos": i / 8, "KeepMask": keepMask, "FieldData": exprStr, "Dynamic": structDynamic,
 		})
 		encodeStmts = append(encodeStmts, encodeStmt)
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index f06f709..1d45988 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -474,11 +474,7 @@ var structTemplate = `
             }
             int shiftLeftOuter = (int)(i & 7);
             part = (part << shiftLeftOuter) & dataMask;
-            if (dataMask == 0xFF) {
-                data[(int)(i / 8)] = (byte)part;
-            } else {
-                data[(int)(i / 8)] |= (byte)part;
-            }
+            data[(int)(i / 8)] = (byte)((data[(int)(i / 8)] & ~dataMask) | part);
             i = (i + 8) & ~7L;
         }
     }
@@ -1450,7 +1446,7 @@ var fieldEncoderTemplate = `
 {{- end -}}
 
 {{- define "encodeImpl" -}}
-    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] {{ .Operator }} (byte){{ .FieldData }};
+    data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] = {{ if .KeepMask }}(byte)((data[{{ if .Dynamic }}offset + {{ end }}start + {{ .BytePos }}] & {{ .KeepMask }}) | (byte){{ .FieldData }}){{ else }}(byte){{ .FieldData }}{{ end }};
 {{- end -}}
 
 {{- /* Encoder array bit-loops, one per element-type variant. Java's value
@@ -1960,12 +1956,10 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		nextI := min(to, (i+8)&(^7))
 		dataMask := ((1 << (((nextI - 1) & 7) + 1)) - 1) & (^((1 << (i & 7)) - 1))
 
-		// operator is '=' if is filling the whole byte, otherwise is '|='
-		operator := ""
-		if i%8 == 0 {
-			operator = exprOpToString[definition.ExprOp_ASSIGN] // "="
-		} else {
-			operator = exprOpToString[definition.ExprOp_BOR] + exprOpToString[definition.ExprOp_ASSIGN] // "|="
+		// bits below 'i' belong to earlier fields and are kept, the rest is overwritten
+		keepMask := ""
+		if i%8 != 0 {
+			keepMask = g.generateBin((1 << (i & 7)) - 1)
 		}
 
 		// we use 'from' and 'to' to denote the bit position in encoded data
@@ -2064,7 +2058,7 @@ func (g JavaGenerator) generateEncodeImpl(from, to int64, fieldData func(int64)
 		encodeImplData := map[string]any{
 			"TyUint8":   typeMap[definition.TypeID_Uint8],
 			"BytePos":   i / 8,
-			"Operator":  operator,
+			"KeepMask":  keepMask,
 			"FieldData": exprStr,
 			"Dynamic":   structDynamic,
 		}
-- 
2.43.0


From 9015a4653a8e1162deac73a6fbc496e2132e316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 03/28] fix: decode a bool field to 0 or 1 in C and C++

The raw bits were stored over the bool, an invalid bool value for any other
nonzero bit pattern.
---
 generator/target/c/c.go     | 7 +++++++
 generator/target/cpp/cpp.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 993c475..3b3111c 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2549,6 +2549,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    {{ .FieldName }} = ({{ .Expr }}) != 0;
+{{- end -}}
+
 {{- define "decodeNormalFieldCast" -}}
     (*({{ .TyUint }}*)(&({{ .FieldName }}))) {{ .Operator }} {{ .Expr }};
 {{- end -}}
@@ -3029,6 +3033,9 @@ func (g CGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldType
 		if tyUintID == ty.GetTypeID() {
 			templateName = "decodeNormalFieldNoCast"
 		}
+		if ty.GetTypeID() == definition.TypeID_Bool {
+			templateName = "decodeNormalFieldBool"
+		}
 
 		// little endian as default
 		shiftCalc := func(i int64) string {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index a5ef46c..4159e52 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2764,6 +2764,10 @@ var fieldDecoderTemplate = `
     {{ .FieldName }} {{ .Operator }} {{ .Expr }};
 {{- end -}}
 
+{{- define "decodeNormalFieldBool" -}}
+    {{ .FieldName }} = ({{ .Expr }}) != 0;
+{{- end -}}
+
 {{- define "decodeNormalFieldCast" -}}
     *reinterpret_cast<{{ .TyUint }}*>(&({{ .FieldName }})) {{ .Operator }} {{ .Expr }};
 {{- end -}}
@@ -3297,6 +3301,9 @@ func (g CppGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fieldTy
 		if tyUintID == ty.GetTypeID() {
 			templateName = "decodeNormalFieldNoCast"
 		}
+		if ty.GetTypeID() == definition.TypeID_Bool {
+			templateName = "decodeNormalFieldBool"
+		}
 
 		// little endian as default
 		shiftCalc := func(i int64) string {
-- 
2.43.0


From 4e1d9a6140c323adc7a2c451aba858c46148cd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 04/28] fix: render float literals with their exact value

---
 generator/gen/gen_dispatcher.go       | 12 ++++++++++++
 generator/target/c/c.go               |  2 +-
 generator/target/commonjs/commonjs.go |  2 +-
 generator/target/cpp/cpp.go           |  2 +-
 generator/target/csharp/csharp.go     |  2 +-
 generator/target/golang/golang.go     |  2 +-
 generator/target/java/java.go         |  2 +-
 generator/target/python/python.go     |  2 +-
 8 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/generator/gen/gen_dispatcher.go b/generator/gen/gen_dispatcher.go
index 84875de..a906a94 100644
--- a/generator/gen/gen_dispatcher.go
+++ b/generator/gen/gen_dispatcher.go
@@ -2,6 +2,8 @@ package gen
 
 import (
 	"fmt"
+	"strconv"
+	"strings"
 
 	"github.com/xaxys/bubbler/definition"
 )
@@ -79,6 +81,16 @@ func FormatIntLiteral(literal *definition.IntLiteral, opts *GenOptions) string {
 	}
 }
 
+// FormatFloatLiteral renders a float literal with the shortest text that reads
+// back as exactly the same float64, always recognizable as a float.
+func FormatFloatLiteral(literal *definition.FloatLiteral) string {
+	s := strconv.FormatFloat(literal.FloatValue, 'g', -1, 64)
+	if !strings.ContainsAny(s, ".eE") {
+		s += ".0"
+	}
+	return s
+}
+
 type GenLiteralDispatcher struct {
 	LiteralGeneratorImpl
 }
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 3b3111c..8c51408 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3407,7 +3407,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 95b6fe9..9701394 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3821,7 +3821,7 @@ func (g CommonJSLiteralGenerator) GenerateIntLiteral(literal *definition.IntLite
 }
 
 func (g CommonJSLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CommonJSLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 4159e52..8446a1a 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3672,7 +3672,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index b256700..0c733f8 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3574,7 +3574,7 @@ func (g CSharpLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g CSharpLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CSharpLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 0f19679..dde8716 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -3029,7 +3029,7 @@ func (g CLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral) (s
 }
 
 func (g CLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g CLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 1d45988..b7663fc 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3324,7 +3324,7 @@ func (g JavaLiteralGenerator) GenerateIntLiteral(literal *definition.IntLiteral)
 }
 
 func (g JavaLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g JavaLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a8715ff..3210ae1 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2574,7 +2574,7 @@ func (g PythonLiteralGenerator) GenerateIntLiteral(literal *definition.IntLitera
 }
 
 func (g PythonLiteralGenerator) GenerateFloatLiteral(literal *definition.FloatLiteral) (string, error) {
-	return fmt.Sprintf("%f", literal.FloatValue), nil
+	return gen.FormatFloatLiteral(literal), nil
 }
 
 func (g PythonLiteralGenerator) GenerateStringLiteral(literal *definition.StringLiteral) (string, error) {
-- 
2.43.0


From 078c806ba82c022ef97a01ab41e26d7e35886134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:30 +0000
Subject: [PATCH 05/28] fix: compare decoded constants as the field's own type
 in C, C++ and Go

---
 generator/target/c/c.go           | 15 +++++++++++----
 generator/target/cpp/cpp.go       | 15 +++++++++++----
 generator/target/golang/golang.go | 12 ++++++++----
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8c51408..8abce28 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2671,13 +2671,17 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	decodeStmts := []string{}
 
 	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
 	tempName := g.generateDecodeTempVarName(startBits)
 
+	// the value is compared as the field's own type: sign and floating-point
+	// representation matter
+	tyStr, err := g.GenerateType(field.FieldType)
+	if err != nil {
+		return nil, err
+	}
+
 	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
+		"TyUint":   tyStr,
 		"TempName": tempName,
 	}
 	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
@@ -2697,6 +2701,9 @@ func (g CGenerator) generateDecodeConstantField(field *definition.ConstantField,
 	if err != nil {
 		return nil, err
 	}
+	if field.FieldType.GetTypeID() == definition.TypeID_Float32 {
+		literalValue += "f"
+	}
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 8446a1a..fd39c77 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2922,13 +2922,17 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	decodeStmts := []string{}
 
 	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
 	tempName := g.generateDecodeTempVarName(startBits)
 
+	// the value is compared as the field's own type: sign and floating-point
+	// representation matter
+	tyStr, err := g.GenerateType(field.FieldType)
+	if err != nil {
+		return nil, err
+	}
+
 	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
+		"TyUint":   tyStr,
 		"TempName": tempName,
 	}
 	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
@@ -2948,6 +2952,9 @@ func (g CppGenerator) generateDecodeConstantField(field *definition.ConstantFiel
 	if err != nil {
 		return nil, err
 	}
+	if field.FieldType.GetTypeID() == definition.TypeID_Float32 {
+		literalValue += "f"
+	}
 
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index dde8716..dea2cc7 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2342,13 +2342,17 @@ func (g GoGenerator) generateDecodeConstantField(field *definition.ConstantField
 	decodeStmts := []string{}
 
 	fieldBitSize := field.GetFieldBitSize()
-	fieldSize := (fieldBitSize + 7) / 8
-	tySize := util.HighBit(fieldSize)
-	tyUint := typeSizeToUintStr(tySize * 8)
 	tempName := g.generateDecodeTempVarName(startBits)
 
+	// the value is compared as the field's own type: sign and floating-point
+	// representation matter
+	tyStr, err := g.GenerateType(field.FieldType)
+	if err != nil {
+		return nil, err
+	}
+
 	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TyUint":   tyUint,
+		"TyUint":   tyStr,
 		"TempName": tempName,
 	}
 	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-- 
2.43.0


From 4a3c0532cbabe27b899d46abbf5d774eb8846389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 06/28] fix: encode narrow big-endian constants in the bit
 order decode expects

---
 generator/gen/gen_util.go             | 24 ++++++++++++++++++++++++
 generator/target/c/c.go               | 13 +------------
 generator/target/commonjs/commonjs.go | 13 +------------
 generator/target/cpp/cpp.go           | 13 +------------
 generator/target/csharp/csharp.go     | 13 +------------
 generator/target/esm/esm_encode.go    | 12 ++----------
 generator/target/golang/golang.go     | 13 +------------
 generator/target/java/java.go         | 13 +------------
 generator/target/python/python.go     | 13 +------------
 9 files changed, 33 insertions(+), 94 deletions(-)

diff --git a/generator/gen/gen_util.go b/generator/gen/gen_util.go
index 1c5274e..4122cd8 100644
--- a/generator/gen/gen_util.go
+++ b/generator/gen/gen_util.go
@@ -1,6 +1,9 @@
 package gen
 
 import (
+	"bytes"
+	"encoding/binary"
+
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/util"
 )
@@ -15,3 +18,24 @@ func MatchOption(options *util.OrderedMap[string, *definition.Option], name stri
 	}
 	return option.OptionValue.GetLiteralValue() == value
 }
+
+// ConstantFieldBytes returns the wire image of a constant field: byte i holds
+// the field bits [8*i, 8*i+8), in the byte order the field asks for.
+func ConstantFieldBytes(field *definition.ConstantField) ([]byte, error) {
+	buffer := &bytes.Buffer{}
+	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
+	if err := binary.Write(buffer, binary.LittleEndian, value); err != nil {
+		return nil, err
+	}
+	data := buffer.Bytes()
+	if MatchOption(field.FieldOptions, "order", "big") {
+		raw := make([]byte, 8)
+		copy(raw, data)
+		bits := binary.LittleEndian.Uint64(raw)
+		for i := range data {
+			shift := max(field.GetFieldBitSize()-8*int64(i+1), 0)
+			data[i] = byte(bits >> uint64(shift))
+		}
+	}
+	return data, nil
+}
diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 8abce28..a083b15 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -1,8 +1,6 @@
 package c
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1741,19 +1739,10 @@ func (g CGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 9701394..d9f0f80 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1,8 +1,6 @@
 package commonjs
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -2009,19 +2007,10 @@ func (g CommonJSGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CommonJSGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index fd39c77..4a46152 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -1,8 +1,6 @@
 package cpp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1881,19 +1879,10 @@ func (g CppGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CppGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index 0c733f8..ed536cb 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -1,8 +1,6 @@
 package csharp
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1501,19 +1499,10 @@ func (g CSharpGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g CSharpGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index a55ea4d..e9eec05 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -1,8 +1,6 @@
 package esm
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 
@@ -320,16 +318,10 @@ func (g ESModuleGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g ESModuleGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	if err := binary.Write(buffer, byteOrder, value); err != nil {
+	data, err := gen.ConstantFieldBytes(field)
+	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-	data := buffer.Bytes()
 	fieldData := func(i int64) string { return g.generateHex(data[i]) }
 	return g.generateEncodeImpl(startBits, startBits+field.GetFieldBitSize(), fieldData, g.generateBin, g.generateDec, false, structDynamic), nil
 }
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index dea2cc7..244464c 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1,8 +1,6 @@
 package golang
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1467,19 +1465,10 @@ func (g GoGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g GoGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index b7663fc..36b0938 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -1,8 +1,6 @@
 package java
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"math"
 	"strings"
@@ -1484,19 +1482,10 @@ func (g JavaGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g JavaGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 3210ae1..e6c78fc 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1,8 +1,6 @@
 package python
 
 import (
-	"bytes"
-	"encoding/binary"
 	"fmt"
 	"strings"
 	"text/template"
@@ -1157,19 +1155,10 @@ func (g PythonGenerator) generateEncodeStructFieldName(name string) string {
 
 func (g PythonGenerator) generateEncodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
-	var byteOrder binary.ByteOrder = binary.LittleEndian
-	if gen.MatchOption(field.FieldOptions, "order", "big") {
-		byteOrder = binary.BigEndian
-	}
-
-	buffer := &bytes.Buffer{}
-	value := field.FieldConstant.GetLiteralValueIn(field.FieldType.TypeTypeID)
-	err := binary.Write(buffer, byteOrder, value)
+	data, err := gen.ConstantFieldBytes(field)
 	if err != nil {
 		return nil, fmt.Errorf("internal error: %s", err)
 	}
-
-	data := buffer.Bytes()
 	fieldData := func(i int64) string {
 		return g.generateHex(data[i])
 	}
-- 
2.43.0


From bb62a12ee520f07d38ec24d26e7feeddbd127442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 07/28] fix: index struct arrays in a Go loop behind a runtime
 offset

The offset of the enclosing struct is an int while the loop index is an
int64, so the generated expression did not compile.
---
 generator/target/golang/golang.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 244464c..2ad901f 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -1636,7 +1636,7 @@ func (g GoGenerator) generateEncodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				_ = elemTyT
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
@@ -2528,7 +2528,7 @@ func (g GoGenerator) generateDecodeNormalField(field *definition.NormalField, st
 				byteBase := from / 8
 				offsetExpr := fmt.Sprintf("%d+_i*%d", byteBase, elemBitSize/8)
 				if structDynamic {
-					offsetExpr = "offset+" + offsetExpr
+					offsetExpr = g.generateCastExpr(&definition.Int64, "offset") + "+" + offsetExpr
 				}
 				common["DataExpr"] = fmt.Sprintf("data[%s:]", offsetExpr)
 				stmt = util.ExecuteTemplate(fieldDecoderTemplate, "decodeArrayLoopStruct", nil, common)
-- 
2.43.0


From 42303fa10bf2ecd7ae69da269b7f026d00ebfa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:53 +0000
Subject: [PATCH 08/28] fix: count a nested dynamic struct's size once

A dynamic struct used as a single field contributed its fixed part to the
layout of the enclosing struct and again to the running offset, and its
variable part was missing from the decode size. Report it as variable-size,
as arrays of dynamic structs already are.
---
 definition/struct.go        | 3 +++
 generator/target/cpp/cpp.go | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/definition/struct.go b/definition/struct.go
index 1684b7c..d297678 100644
--- a/definition/struct.go
+++ b/definition/struct.go
@@ -43,6 +43,9 @@ func (s Struct) GetTypeName() string {
 }
 
 func (s Struct) GetTypeBitSize() int64 {
+	if s.StructDynamic {
+		return -1
+	}
 	return s.StructBitSize
 }
 
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 4a46152..25735cc 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2566,7 +2566,7 @@ var decoderTemplate = `
             offset += len;
         }
 {{- else if $f.FieldType.GetTypeID.IsStruct -}}
-    {{- $structType := $f.FieldType.ElementType -}}
+    {{- $structType := $f.FieldType -}}
     {{- if $structType.GetTypeDynamic }}
         {   // {{ $f }}
             uint64_t sub_offset = offset + {{ $fromByte }};
-- 
2.43.0


From 1f004a5a183b2a66d355e9423f1b0a2a462c5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 09/28] fix: bound the length prefix of a bytes field in C and
 C++

decode shifted the prefix bytes as int, so a prefix of five or more bytes
overflowed; decode_size shifted past 63 bits and let offset + length wrap.
Reject what cannot be represented, as the Go target does.
---
 generator/target/c/c.go     | 13 +++++++++++--
 generator/target/cpp/cpp.go | 17 +++++++++++++----
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index a083b15..097c587 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -2318,13 +2318,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2335,13 +2338,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2384,13 +2390,16 @@ int64_t {{ $structName }}_decode(const void* data, struct {{ $structName }}* ptr
         uint64_t len = 0;
         uint8_t shift = 0;
         while (((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x80) {
+            if (shift >= 63) return -1;
             len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             shift += 7;
             offset++;
             if (size <= offset + {{ $fromByte }}) return -(int64_t)(offset + {{ $fromByte }} + 1);
         }
+        if (shift >= 63) return -1;
         len |= (uint64_t)(((const uint8_t*)data)[offset + {{ $fromByte }}] & 0x7F) << shift;
         offset++;
+        if (len > (uint64_t)INT64_MAX - (offset + {{ $fromByte }})) return -1;
         if (size < offset + {{ $fromByte }} + len) return -(int64_t)(offset + {{ $fromByte }} + len);
         offset += len;
     }
@@ -2566,8 +2575,8 @@ var fieldDecoderTemplate = `
     {
         uint64_t {{ .TempName }} = 0;
         {{ .TyUint8 }} shift = 0;
-        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-        {{ .TempName }} |= (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+        while (((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+        {{ .TempName }} |= (uint64_t)(((const {{ .TyUint8 }}*)data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{ .FieldName }}.length = {{ .TempName }};
         {{ if .MemoryCopy -}}
         {{ .FieldName }}.data = ({{ .TyUint8 }}*)malloc({{ .TempName }});
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 25735cc..8cf27dc 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -2480,13 +2480,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2497,13 +2500,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2555,13 +2561,16 @@ var decoderTemplate = `
             uint64_t len = 0;
             uint8_t shift = 0;
             while (static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x80) {
+                if (shift >= 63) return -1;
                 len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
                 shift += 7;
                 offset++;
                 if (size <= offset + {{ $fromByte }}) return -static_cast<int64_t>(offset + {{ $fromByte }} + 1);
             }
+            if (shift >= 63) return -1;
             len |= static_cast<uint64_t>(static_cast<const uint8_t*>(data)[offset + {{ $fromByte }}] & 0x7F) << shift;
             offset++;
+            if (len > static_cast<uint64_t>(INT64_MAX) - (offset + {{ $fromByte }})) return -1;
             if (size < offset + {{ $fromByte }} + len) return -static_cast<int64_t>(offset + {{ $fromByte }} + len);
             offset += len;
         }
@@ -2781,11 +2790,11 @@ var fieldDecoderTemplate = `
             uint64_t {{ .TempName }} = 0;
             {{ .TyUint8 }} shift = 0;
         {{- if .CompatibleMode }}
-            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(static_cast<const {{ .TyUint8 }}*>(data)[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- else }}
-            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
-            {{ .TempName }} |= (data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
+            while (data[offset + {{ .FromByte }}] & {{ .SetMask }}) {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, shift += {{ .Shift }}, offset++;
+            {{ .TempName }} |= static_cast<uint64_t>(data[offset + {{ .FromByte }}] & {{ .GetMask }}) << shift, offset++;
         {{- end }}
             {{ .FieldName }}.length = {{ .TempName }};
     {{- if .MemoryCopy }}
-- 
2.43.0


From 88d93a5595cb8c5947752419ba22ea690f884094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 10/28] fix: shift the whole byte of an unaligned field in
 Python decode

---
 generator/target/python/python.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index e6c78fc..973f125 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2398,6 +2398,10 @@ func (g PythonGenerator) generateDecodeImpl(from, to int64, fieldProcessor func(
 			consumed += partSize
 		}
 		exprStr := strings.Join(parts, " | ")
+		if len(parts) > 1 {
+			// the caller shifts the whole byte, not only its last part
+			exprStr = "(" + exprStr + ")"
+		}
 		decodeStmt := fieldProcessor(exprStr, fieldFrom/8)
 		decodeStmts = append(decodeStmts, decodeStmt)
 	}
-- 
2.43.0


From 88a223739a2d72053dfa1e7f30f10bbea874acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 11/28] fix: Python decode returns (False, -1) on a wrong
 constant or a failed nested struct

---
 generator/target/python/python.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 973f125..52c3c87 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1845,19 +1845,19 @@ var fieldDecoderTemplate = `
 
 {{- define "decodeConstantField" -}}
     if {{ .TempName }} != {{ .ConstantValue }}:
-            return False, 0
+            return False, -1
 {{- end -}}
 
 {{- define "decodeNormalFieldStruct" -}}
 {{- if .FieldStruct.GetTypeDynamic -}}
         success, {{ .TempName }} = {{ .FieldName }}.decode(data[offset+{{ .FromByte }}:])
         if not success:
-            return False, 0
+            return False, -1
         offset += {{ .TempName }}
 {{- else -}}
         success, _ = {{ .FieldName }}.decode(data[{{ if .Dynamic }}offset+{{ end }}{{ .FromByte }}:])
         if not success:
-            return False, 0
+            return False, -1
 {{- end -}}
 {{- end -}}
 
-- 
2.43.0


From 3a67a584dd942950dad6ee649c3ffeeeea477960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 12/28] fix: compare a decoded float32 constant as float32 in
 Python

---
 generator/target/python/python.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 52c3c87..a524332 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -1964,6 +1964,11 @@ func (g PythonGenerator) generateDecodeConstantField(field *definition.ConstantF
 		return nil, err
 	}
 
+	// a float32 constant is compared as the float32 it is encoded as
+	if field.FieldType.GetTypeID() == definition.TypeID_Float32 {
+		literalValue = fmt.Sprintf("struct.unpack('<f', struct.pack('<f', %s))[0]", literalValue)
+	}
+
 	decodeConstantFieldData := map[string]any{
 		"TempName":      tempName,
 		"ConstantValue": literalValue,
-- 
2.43.0


From 182ac47d7a64cdb28fb06742902febcc0f9792ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 13/28] fix: decode a bool field to a bool in Python

---
 generator/target/python/python.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index a524332..0ccb671 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2147,6 +2147,10 @@ func (g PythonGenerator) generateDecodeNormalField(field *definition.NormalField
 					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = ((%s) ^ %s) - %s", tempName, tempName, g.generateHex(signMask), g.generateHex(signMask)))
 				}
 
+				if elemTyType.GetTypeID() == definition.TypeID_Bool {
+					bodyStmts = append(bodyStmts, fmt.Sprintf("    %s = bool(%s)", tempName, tempName))
+				}
+
 				if elemTyType.GetTypeID().IsFloat() {
 					tyID := typeMapStructPackID[elemTyType.GetTypeID()]
 					tyUintID := typeMapStructPackID[typeSizeMapUint[elemTyType.GetTypeBitSize()]]
@@ -2341,6 +2345,11 @@ func (g PythonGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fiel
 			}
 		}
 
+		// cast to bool
+		if ty.GetTypeID() == definition.TypeID_Bool {
+			decodeStmts = append(decodeStmts, fmt.Sprintf("%s = bool(%s)", fieldNameStr, fieldNameStr))
+		}
+
 		// cast to float
 		if ty.GetTypeID().IsFloat() {
 			tyUintID := typeSizeMapUint[ty.TypeBitSize]
-- 
2.43.0


From d18d333623fd9054936a8d381b82e08bc9ad44e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 14/28] fix: unnamed constants in generated JavaScript

---
 generator/target/commonjs/commonjs.go | 4 ++++
 generator/target/esm/esm.go           | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index d9f0f80..27ab591 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1463,6 +1463,10 @@ var constantFieldTemplate = `
 `
 
 func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		// an unnamed constant lives on the wire only
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 
 	funcMap := template.FuncMap{
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 160dca6..9bffce2 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1302,6 +1302,10 @@ var constantFieldTemplate = `
 `
 
 func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField) (string, error) {
+	if field.FieldName == "" {
+		// an unnamed constant lives on the wire only
+		return "", nil
+	}
 	literalGentor := g.literalGen()
 	funcMap := template.FuncMap{
 		"GenerateType":    g.GenerateType,
-- 
2.43.0


From 3747f8f515f4733aa41da054baf2d17940185d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:06 +0000
Subject: [PATCH 15/28] fix: decode 32-bit unsigned fields to non-negative
 numbers in JavaScript

---
 generator/target/commonjs/commonjs.go | 9 +++++++++
 generator/target/esm/esm_decode.go    | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 27ab591..bdea613 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3502,6 +3502,15 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// `<<` and `|` yield a signed 32-bit number, make it unsigned again
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() <= 32 && fieldBitSize == 32 {
+			decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fmt.Sprintf("%s >>> %s", fieldNameStr, generateDec(0)),
+			}))
+		}
+
 		// set sign bit
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 9797a9f..1e92b04 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -769,6 +769,15 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			decodeStmts = append(decodeStmts, stmt)
 		}
 
+		// `<<` and `|` yield a signed 32-bit number, make it unsigned again
+		if ty.GetTypeID().IsUint() && ty.GetTypeBitSize() <= 32 && fieldBitSize == 32 {
+			decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeImpl", nil, map[string]any{
+				"FieldName": fieldNameStr,
+				"Operator":  exprOpToString[definition.ExprOp_ASSIGN],
+				"Expr":      fmt.Sprintf("%s >>> %s", fieldNameStr, generateDec(0)),
+			}))
+		}
+
 		if ty.GetTypeID().IsInt() {
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
-- 
2.43.0


From ee062f84caa455bdf9eb08b47ff1a8251ced4395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 16/28] fix: sign-extend 32-bit-wide int64 fields in JavaScript

---
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/esm/esm_decode.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index bdea613..8a1c83e 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3518,7 +3518,7 @@ func (g CommonJSGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
 				// special case: sign extension for 32-bit integer
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					signShift := originFromBitSize - 1
 					signShiftStr := generateDec(signShift)
 					signExtendData := map[string]any{
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 1e92b04..2cf6703 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -782,7 +782,7 @@ func (g ESModuleGenerator) generateDecodeNormalFieldImpl(fieldNameStr string, fi
 			originFromBitSize := fieldBitSize
 			switch g.GenCtx.GenOptions.SignExtMethod {
 			case gen.SignExtMethodDefault, gen.SignExtMethodShift, gen.SignExtMethodArith:
-				if originFromBitSize == 32 {
+				if originFromBitSize == 32 && ty.GetTypeBitSize() <= 32 {
 					stmt := util.ExecuteTemplate(fieldDecoderTemplate, "signExtendLogic", nil, map[string]any{
 						"FieldName": fieldNameStr, "SignShift": generateDec(originFromBitSize - 1),
 					})
-- 
2.43.0


From 4432c2e75968eaa367ba110fb813c731b9208508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:34 +0000
Subject: [PATCH 17/28] fix: emit the float helpers for float arrays in ES
 modules

---
 generator/target/esm/esm_encode.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/generator/target/esm/esm_encode.go b/generator/target/esm/esm_encode.go
index e9eec05..1c9a199 100644
--- a/generator/target/esm/esm_encode.go
+++ b/generator/target/esm/esm_encode.go
@@ -508,8 +508,10 @@ func (g ESModuleGenerator) generateEncodeNormalField(field *definition.NormalFie
 					nameIndex = func(_ int64) string { return tempName }
 					switch ty.ElementType.GetTypeID() {
 					case definition.TypeID_Float32:
+						g.GenState.UseFloat32 = true
 						elemTy = &definition.Uint32
 					case definition.TypeID_Float64:
+						g.GenState.UseFloat64 = true
 						elemTy = &definition.Uint64
 					}
 				}
-- 
2.43.0


From 3ae4432efe40dcc353a6a66a84c7f59cdf7a57f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:50 +0000
Subject: [PATCH 18/28] fix: check a decoded constant against a value of its
 own type in JavaScript

---
 generator/target/commonjs/commonjs.go | 66 +++++++++++++++++++--------
 generator/target/esm/esm.go           |  7 ++-
 generator/target/esm/esm_decode.go    | 56 +++++++++++++++++++++--
 3 files changed, 102 insertions(+), 27 deletions(-)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 8a1c83e..82cf7f0 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -1457,7 +1457,7 @@ var constantFieldTemplate = `
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
     {{- $tyStr := GenerateType $field.FieldType -}}
-    {{- $constValue := GenerateLiteral $field.FieldConstant -}}
+    {{- $constValue := GenerateConstantValue $field -}}
     this.{{ $fieldName }} = {{ $constValue }};
 {{- end -}}
 `
@@ -1467,11 +1467,9 @@ func (g CommonJSGenerator) GenerateConstantField(field *definition.ConstantField
 		// an unnamed constant lives on the wire only
 		return "", nil
 	}
-	literalGentor := g.literalGen()
-
 	funcMap := template.FuncMap{
-		"GenerateType":    g.GenerateType,
-		"GenerateLiteral": literalGentor.GenerateLiteral,
+		"GenerateType":          g.GenerateType,
+		"GenerateConstantValue": g.generateConstantValue,
 	}
 
 	fieldData := map[string]any{
@@ -3027,38 +3025,68 @@ func (g CommonJSGenerator) generateDecodeConstantField(field *definition.Constan
 	decodeStmts := []string{}
 
 	tempName := g.generateDecodeTempVarName(startBits)
-	decodeNormalFieldTempVarDeclData := map[string]any{
-		"TempName": tempName,
-	}
-	declStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, decodeNormalFieldTempVarDeclData)
-	decodeStmts = append(decodeStmts, declStr)
+	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
 
 	from := startBits
 	to := startBits + field.GetFieldBitSize()
 
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, from, to)
+	tempTy := field.FieldType
+	switch field.FieldType.GetTypeID() {
+	case definition.TypeID_Float32:
+		g.GenState.UseFloat32 = true
+		tempTy = &definition.Uint32
+	case definition.TypeID_Float64:
+		g.GenState.UseFloat64 = true
+		tempTy = &definition.Uint64
+	}
+
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
-
 	decodeStmts = append(decodeStmts, stmts...)
 
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	if field.FieldType.GetTypeID().IsFloat() {
+		decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
+			"FieldName": tempName,
+			"TempName":  tempName,
+			"IsFloat32": field.FieldType.GetTypeID() == definition.TypeID_Float32,
+		}))
+	}
+
+	constValue, err := g.generateConstantValue(field)
 	if err != nil {
 		return nil, err
 	}
 
-	decodeConstantFieldData := map[string]any{
+	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{
 		"TempName":      tempName,
-		"ConstantValue": literalValue,
-	}
-
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, decodeConstantFieldData)
-	decodeStmts = append(decodeStmts, checkStr)
+		"ConstantValue": constValue,
+	}))
 
 	return decodeStmts, nil
 }
 
+// generateConstantValue renders the constant as a value of its field's type:
+// a BigInt for 64-bit integers, a Number for the narrower ones and for floats
+// (rounded to single precision for float32).
+func (g CommonJSGenerator) generateConstantValue(field *definition.ConstantField) (string, error) {
+	constValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	if err != nil {
+		return "", err
+	}
+	switch ty := field.FieldType.GetTypeID(); {
+	case ty == definition.TypeID_Float32:
+		return "Math.fround(" + constValue + ")", nil
+	case ty.IsIntOrUint():
+		constValue = strings.TrimSuffix(constValue, "n")
+		if field.FieldType.GetTypeBitSize() > 32 {
+			constValue += "n"
+		}
+	}
+	return constValue, nil
+}
+
 func (g CommonJSGenerator) generateDecodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
 	return []string{""}, nil
 }
diff --git a/generator/target/esm/esm.go b/generator/target/esm/esm.go
index 9bffce2..2f7eb32 100644
--- a/generator/target/esm/esm.go
+++ b/generator/target/esm/esm.go
@@ -1296,7 +1296,7 @@ var constantFieldTemplate = `
 {{- define "constantField" -}}
     {{- $field := .Field -}}
     {{- $fieldName := TocamelCase .Field.FieldName -}}
-    {{- $constValue := GenerateLiteral $field.FieldConstant -}}
+    {{- $constValue := GenerateConstantValue $field -}}
     this.{{ $fieldName }} = {{ $constValue }};
 {{- end -}}
 `
@@ -1306,10 +1306,9 @@ func (g ESModuleGenerator) GenerateConstantField(field *definition.ConstantField
 		// an unnamed constant lives on the wire only
 		return "", nil
 	}
-	literalGentor := g.literalGen()
 	funcMap := template.FuncMap{
-		"GenerateType":    g.GenerateType,
-		"GenerateLiteral": literalGentor.GenerateLiteral,
+		"GenerateType":          g.GenerateType,
+		"GenerateConstantValue": g.generateConstantValue,
 	}
 	fieldData := map[string]any{"Field": field}
 	return util.ExecuteTemplate(constantFieldTemplate, "constantField", funcMap, fieldData), nil
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 2cf6703..45367ff 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -438,22 +438,70 @@ func (g ESModuleGenerator) generateDecodeStructFieldName(name string) string {
 func (g ESModuleGenerator) generateDecodeConstantField(field *definition.ConstantField, startBits int64) ([]string, error) {
 	structDynamic := field.FieldBelongs.GetTypeDynamic()
 	decodeStmts := []string{}
+
 	tempName := g.generateDecodeTempVarName(startBits)
 	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarDecl", nil, map[string]any{"TempName": tempName}))
-	stmts, err := g.generateDecodeNormalFieldImpl(tempName, field.FieldType, field.FieldOptions, structDynamic, startBits, startBits+field.GetFieldBitSize())
+
+	from := startBits
+	to := startBits + field.GetFieldBitSize()
+
+	tempTy := field.FieldType
+	switch field.FieldType.GetTypeID() {
+	case definition.TypeID_Float32:
+		g.GenState.UseFloat32 = true
+		tempTy = &definition.Uint32
+	case definition.TypeID_Float64:
+		g.GenState.UseFloat64 = true
+		tempTy = &definition.Uint64
+	}
+
+	stmts, err := g.generateDecodeNormalFieldImpl(tempName, tempTy, field.FieldOptions, structDynamic, from, to)
 	if err != nil {
 		return nil, err
 	}
 	decodeStmts = append(decodeStmts, stmts...)
-	literalValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+
+	if field.FieldType.GetTypeID().IsFloat() {
+		decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeNormalFieldTempVarAssignFloatCast", nil, map[string]any{
+			"FieldName": tempName,
+			"TempName":  tempName,
+			"IsFloat32": field.FieldType.GetTypeID() == definition.TypeID_Float32,
+		}))
+	}
+
+	constValue, err := g.generateConstantValue(field)
 	if err != nil {
 		return nil, err
 	}
-	checkStr := util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{"TempName": tempName, "ConstantValue": literalValue})
-	decodeStmts = append(decodeStmts, checkStr)
+
+	decodeStmts = append(decodeStmts, util.ExecuteTemplate(fieldDecoderTemplate, "decodeConstantField", nil, map[string]any{
+		"TempName":      tempName,
+		"ConstantValue": constValue,
+	}))
+
 	return decodeStmts, nil
 }
 
+// generateConstantValue renders the constant as a value of its field's type:
+// a BigInt for 64-bit integers, a Number for the narrower ones and for floats
+// (rounded to single precision for float32).
+func (g ESModuleGenerator) generateConstantValue(field *definition.ConstantField) (string, error) {
+	constValue, err := g.literalGen().GenerateLiteral(field.FieldConstant)
+	if err != nil {
+		return "", err
+	}
+	switch ty := field.FieldType.GetTypeID(); {
+	case ty == definition.TypeID_Float32:
+		return "Math.fround(" + constValue + ")", nil
+	case ty.IsIntOrUint():
+		constValue = strings.TrimSuffix(constValue, "n")
+		if field.FieldType.GetTypeBitSize() > 32 {
+			constValue += "n"
+		}
+	}
+	return constValue, nil
+}
+
 func (g ESModuleGenerator) generateDecodeVoidField(field *definition.VoidField, startBits int64) ([]string, error) {
 	return []string{""}, nil
 }
-- 
2.43.0


From dbbbdee6734eeb99a9ded609d91c7a1d25c187ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:12 +0000
Subject: [PATCH 19/28] fix: -rmpath removes whole directories only

---
 generator/gen/gen_ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/gen/gen_ctx.go b/generator/gen/gen_ctx.go
index e703aae..4a80591 100644
--- a/generator/gen/gen_ctx.go
+++ b/generator/gen/gen_ctx.go
@@ -54,7 +54,7 @@ func (ctx *GenCtx) WritePackage(pkg *definition.Package, ext string, text string
 func (ctx *GenCtx) WriteFile(file string, text string) error {
 	text = normalizeGeneratedIndent(text)
 	for _, rmpath := range ctx.GenOptions.RemovePath {
-		if strings.HasPrefix(file, rmpath) {
+		if rmpath != "" && strings.HasPrefix(file, rmpath+"/") {
 			file = file[len(rmpath):]
 			for strings.HasPrefix(file, "/") {
 				file = file[1:]
-- 
2.43.0


From 75404ecf701243e05b1742f37424828e1ae41466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:26 +0000
Subject: [PATCH 20/28] fix: reject sizes that overflow a 64-bit bit count

---
 compiler/proto_visitor.go | 47 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index fe000a6..ebb43bd 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2,6 +2,7 @@ package compiler
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/xaxys/bubbler/definition"
 	"github.com/xaxys/bubbler/parser"
@@ -152,6 +153,25 @@ func (v *ProtoVisitor) VisitStructDef(ctx *parser.StructDefContext) any {
 		field.SetFieldBelongs(structDef)
 	}
 
+	// check that the size can be represented
+	sum := int64(0)
+	for _, field := range fields.Values() {
+		fieldSize := field.GetFieldBitSize()
+		if fieldSize <= 0 {
+			continue
+		}
+		if sum > math.MaxInt64-fieldSize {
+			return &definition.CompileError{
+				Position: namePos,
+				Err: &definition.InvalidSizeError{
+					Size: math.MaxInt64,
+					Msg:  "struct size is too large",
+				},
+			}
+		}
+		sum += fieldSize
+	}
+
 	// check field alignment
 	err := structDef.ForEachField(func(field definition.Field, index int, fixedStart int64, isDynamicStart bool) error {
 
@@ -889,6 +909,19 @@ func (v *ProtoVisitor) VisitSize_(ctx *parser.Size_Context) any {
 			panic("unreachable")
 		}
 	}
+	if bytes > math.MaxInt64/8 || bits > math.MaxInt64-bytes*8 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.GetStart().GetLine(),
+				Column: ctx.GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  "size is too large",
+			},
+		}
+	}
 	total := bytes*8 + bits
 	if total == 0 {
 		return &definition.CompileError{
@@ -2059,6 +2092,20 @@ func (v *ProtoVisitor) VisitArrayType(ctx *parser.ArrayTypeContext) any {
 		}
 	}
 
+	if elemSize := base.GetTypeBitSize(); elemSize > 0 && length > math.MaxInt64/elemSize {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.IntLit().GetStart().GetLine(),
+				Column: ctx.IntLit().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: math.MaxInt64,
+				Msg:  fmt.Sprintf("array is too large (%d elements of %d bits)", length, elemSize),
+			},
+		}
+	}
+
 	arrayDef := &definition.Array{
 		ElementType: base,
 		Length:      length,
-- 
2.43.0


From 4b4669b18e070ef5aaecafb4d06087bea8086050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 21/28] fix: reject a declared size that shrinks the structs of
 an array

---
 compiler/proto_visitor.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index ebb43bd..ea6822d 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -550,7 +550,11 @@ func (v *ProtoVisitor) VisitFieldNormal(ctx *parser.FieldNormalContext) any {
 				}
 			}
 		}
-		if _, ok := type_.(*definition.Struct); ok && size != type_Size {
+		elemType := type_
+		if arrTy, ok := type_.(*definition.Array); ok {
+			elemType = arrTy.ElementType
+		}
+		if _, ok := elemType.(*definition.Struct); ok && size != type_Size {
 			return &definition.CompileError{
 				Position: pos,
 				Err: &definition.InvalidSizeError{
-- 
2.43.0


From 813e6798b1862c906cbe7b0fc7698efbe08df252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:41 +0000
Subject: [PATCH 22/28] fix: reject enums wider than the widest integer

---
 compiler/proto_visitor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index ea6822d..132f926 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2273,6 +2273,20 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 		panic("unreachable")
 	}
 
+	if size > 64 {
+		return &definition.CompileError{
+			Position: definition.BasePosition{
+				File:   v.Unit.UnitName.Path,
+				Line:   ctx.Size_().GetStart().GetLine(),
+				Column: ctx.Size_().GetStart().GetColumn(),
+			},
+			Err: &definition.InvalidSizeError{
+				Size: size,
+				Msg:  "enum size cannot be greater than 64 bits",
+			},
+		}
+	}
+
 	body := ctx.EnumBody().Accept(v)
 	var values *util.OrderedMap[string, *definition.EnumValue]
 	switch val := body.(type) {
-- 
2.43.0


From 18bf1d9f0f257279f29e94090f0d238a276a8e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:39 +0000
Subject: [PATCH 23/28] fix: reject enum values that are negative or wider than
 the enum

---
 compiler/proto_visitor.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 132f926..2c8d456 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -2313,6 +2313,16 @@ func (v *ProtoVisitor) VisitEnumDef(ctx *parser.EnumDefContext) any {
 
 	var errs definition.TopLevelError
 	for _, val := range values.Values() {
+		if val.EnumValue < 0 || size < 63 && val.EnumValue>>size != 0 {
+			ex := &definition.CompileError{
+				Position: val,
+				Err: &definition.InvalidEnumDefError{
+					DefName: name,
+					Err:     fmt.Errorf("value of %s does not fit in %d bits", val.EnumValueName, size),
+				},
+			}
+			errs = definition.TopLevelErrorsJoin(errs, ex)
+		}
 		dupErr := v.Unit.AddLocalName(val.EnumValueName, val)
 		if dupErr != nil {
 			ex := &definition.CompileError{
@@ -2436,6 +2446,15 @@ func (v *ProtoVisitor) VisitEnumValue(ctx *parser.EnumValueContext) any {
 		case definition.Literal:
 			switch val := val.(type) {
 			case *definition.IntLiteral:
+				if val.IntValue < 0 {
+					return &definition.CompileError{
+						Position: val,
+						Err: &definition.InvalidEnumDefError{
+							DefName: name,
+							Err:     fmt.Errorf("enum value cannot be negative"),
+						},
+					}
+				}
 				value = val.IntValue
 			default:
 				return &definition.CompileError{
-- 
2.43.0


From dfada459558a9efb7d3b63084acfbf5651f4460b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 24/28] fix: reject integer constants that do not fit their
 field

---
 compiler/proto_visitor.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/compiler/proto_visitor.go b/compiler/proto_visitor.go
index 2c8d456..49949c3 100644
--- a/compiler/proto_visitor.go
+++ b/compiler/proto_visitor.go
@@ -858,6 +858,27 @@ func (v *ProtoVisitor) VisitFieldConstant(ctx *parser.FieldConstantContext) any
 		}
 	}
 
+	if lit, ok := constant.(*definition.IntLiteral); ok {
+		// the bits left for the magnitude
+		width := size
+		if type_.TypeTypeID.IsInt() {
+			width--
+		}
+		value := lit.IntValue
+		if value < 0 {
+			value = ^value
+		}
+		if width < 63 && value>>width != 0 {
+			return &definition.CompileError{
+				Position: pos,
+				Err: &definition.InvalidFieldError{
+					FieldName: name,
+					Msg:       fmt.Sprintf("constant %d does not fit in %d bits of %s", lit.IntValue, size, type_.String()),
+				},
+			}
+		}
+	}
+
 	options := util.NewOrderedMap[string, *definition.Option]()
 	if ctx.FieldOptions() != nil {
 		ret := ctx.FieldOptions().Accept(v)
-- 
2.43.0


From 7a58925cc8cce6c21fbdf7bf3293ff19b93dfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:45 +0000
Subject: [PATCH 25/28] fix: a file whose imports failed is no longer taken for
 one being parsed

A second import of such a file was reported as an import cycle, or as a
self-import, that does not exist.
---
 compiler/compilation_runtime.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compiler/compilation_runtime.go b/compiler/compilation_runtime.go
index fa07d64..942e207 100644
--- a/compiler/compilation_runtime.go
+++ b/compiler/compilation_runtime.go
@@ -171,11 +171,13 @@ func (r *CompilationRuntime) compile(ident *definition.FileIdentifer, content st
 		}
 	}
 
+	r.ParseStack.Remove(ident.Path)
 	if errs != nil {
+		// not compiled: another import of this file reports the same errors
+		r.Packages.Remove(unit.Package.String())
 		return nil, errs, warnings
 	}
 
-	r.ParseStack.Remove(ident.Path)
 	r.Units.Put(ident.Path, unit)
 
 	protoVisitor := NewParseVisitor(unit)
-- 
2.43.0


From b6b81a27ddd557653f36c66242e552f32d0da6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:04 +0000
Subject: [PATCH 26/28] fix: Python decode always copies bytes fields, as
 -memcpy is documented to be forced

---
 generator/target/python/python.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index 0ccb671..c87ff5d 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -90,6 +90,16 @@ func (g *PythonGenerator) Generate(ctx *gen.GenCtx) (retErr error, retWarnings e
 		}
 		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
 	}
+	if !ctx.GenOptions.MemoryCopy {
+		warn := &definition.GenerateWarning{
+			Warning: &definition.OptionNotSetWarning{
+				OptionName: "memcpy",
+				Reason:     "Python target does not support zero-copy, this option will be forced to be enabled",
+			},
+		}
+		g.Warning = definition.TopLevelWarningsJoin(g.Warning, warn)
+		ctx.GenOptions.MemoryCopy = true
+	}
 	var topErr definition.TopLevelError
 	genErr := g.AcceptGenCtx(ctx)
 	if genErr != nil {
-- 
2.43.0


From 63224002d50b18670d5784c254ec4cd9f587bc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:56 +0000
Subject: [PATCH 27/28] fix: separate unary operators from their operand in
 generated getters and setters

---
 generator/target/c/c.go               | 2 +-
 generator/target/commonjs/commonjs.go | 2 +-
 generator/target/cpp/cpp.go           | 2 +-
 generator/target/csharp/csharp.go     | 2 +-
 generator/target/esm/esm_decode.go    | 2 +-
 generator/target/golang/golang.go     | 2 +-
 generator/target/java/java.go         | 2 +-
 generator/target/python/python.go     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/generator/target/c/c.go b/generator/target/c/c.go
index 097c587..ed0cd84 100644
--- a/generator/target/c/c.go
+++ b/generator/target/c/c.go
@@ -3301,7 +3301,7 @@ func (g CExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, err
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index 82cf7f0..e69263e 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3744,7 +3744,7 @@ func (g CommonJSExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (stri
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CommonJSExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/cpp/cpp.go b/generator/target/cpp/cpp.go
index 8cf27dc..0ac691f 100644
--- a/generator/target/cpp/cpp.go
+++ b/generator/target/cpp/cpp.go
@@ -3569,7 +3569,7 @@ func (g CppExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, e
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CppExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/csharp/csharp.go b/generator/target/csharp/csharp.go
index ed536cb..cedfea6 100644
--- a/generator/target/csharp/csharp.go
+++ b/generator/target/csharp/csharp.go
@@ -3458,7 +3458,7 @@ func (g CSharpExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g CSharpExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 45367ff..0be4174 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -956,7 +956,7 @@ func (g ESModuleExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (stri
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g ESModuleExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/golang/golang.go b/generator/target/golang/golang.go
index 2ad901f..074fa77 100644
--- a/generator/target/golang/golang.go
+++ b/generator/target/golang/golang.go
@@ -2889,7 +2889,7 @@ func (g GoExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string, er
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g GoExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/java/java.go b/generator/target/java/java.go
index 36b0938..9aaddf8 100644
--- a/generator/target/java/java.go
+++ b/generator/target/java/java.go
@@ -3173,7 +3173,7 @@ func (g JavaExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string,
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g JavaExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
diff --git a/generator/target/python/python.go b/generator/target/python/python.go
index c87ff5d..bb165eb 100644
--- a/generator/target/python/python.go
+++ b/generator/target/python/python.go
@@ -2496,7 +2496,7 @@ func (g PythonExprGenerator) GenerateUnopExpr(expr *definition.UnopExpr) (string
 	if err != nil {
 		return "", err
 	}
-	return fmt.Sprintf("(%s%s)", opStr, expr1), nil
+	return fmt.Sprintf("(%s %s)", opStr, expr1), nil
 }
 
 func (g PythonExprGenerator) GenerateBinopExpr(expr *definition.BinopExpr) (string, error) {
-- 
2.43.0


From bbda8676d25488016fbcf774a21b4dd9ebb61a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:07 +0000
Subject: [PATCH 28/28] fix: casts to integer types in JavaScript getters and
 setters drop the fraction

---
 generator/target/commonjs/commonjs.go | 4 ++++
 generator/target/esm/esm_decode.go    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/generator/target/commonjs/commonjs.go b/generator/target/commonjs/commonjs.go
index e69263e..44421bd 100644
--- a/generator/target/commonjs/commonjs.go
+++ b/generator/target/commonjs/commonjs.go
@@ -3772,6 +3772,10 @@ func (g CommonJSExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if g.ValueStr != "" && ty == "Number" && !expr.ToType.GetTypeID().IsFloat() {
+		// getter and setter expressions: a cast to an integer drops the fraction
+		return fmt.Sprintf("Math.trunc(%s(%s))", ty, expr1), nil
+	}
 	return fmt.Sprintf("%s(%s)", ty, expr1), nil
 }
 
diff --git a/generator/target/esm/esm_decode.go b/generator/target/esm/esm_decode.go
index 0be4174..3936e56 100644
--- a/generator/target/esm/esm_decode.go
+++ b/generator/target/esm/esm_decode.go
@@ -984,6 +984,10 @@ func (g ESModuleExprGenerator) GenerateCastExpr(expr *definition.CastExpr) (stri
 	if err != nil {
 		return "", err
 	}
+	if g.ValueStr != "" && ty == "Number" && !expr.ToType.GetTypeID().IsFloat() {
+		// getter and setter expressions: a cast to an integer drops the fraction
+		return fmt.Sprintf("Math.trunc(%s(%s))", ty, expr1), nil
+	}
 	return fmt.Sprintf("%s(%s)", ty, expr1), nil
 }
 
-- 
2.43.0

