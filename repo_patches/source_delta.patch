From 9aeffe1928983cc11a9d709ec3f72bc2b6d79e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 01/71] fix: Writer.Float64sl places each element at its own 8
 bytes

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 570ecb4e8b9126b632e5fbc2afcf564b6e31709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:37 +0000
Subject: [PATCH 02/71] fix: Writer.IntUint64 writes 8 bytes, as
 Reader.IntUint64 reads

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..4d6c993 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From eab34231ae930053b1eed8634c51e229116abe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 03/71] fix: varint size at the 7-bit boundaries (128 takes two
 bytes)

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 4d6c993..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From 0c7bbd873bdbeb5c3d0745b7e0508cd5b00f5dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 04/71] fix: cnt(i8) prefix takes one byte in the size of a
 struct

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..0fa6bcb 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..1cb6aeb 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From 2e7de7d74abc7d172e40ee5b6de74bb9c1f6d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 05/71] fix: a struct with a variable-size field has no fixed
 size

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0fa6bcb..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 1cb6aeb..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From 73f46b611b3718a339fa2d675b59c8c4c8809cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:02 +0000
Subject: [PATCH 06/71] fix: a ber array is written without a count, as it is
 read

---
 marshal/writer_reflect.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 4f02024..a164750 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -824,6 +824,7 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					fw.TWriter.WriteAuto = fw.TWriter.Write
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From e3614714bb78f9db6f73dde574bb8e032973c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:04 +0000
Subject: [PATCH 07/71] fix: reading a ber pointer field does not panic

---
 marshal/reader_reflect.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..55b3bc5 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1159,10 +1159,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
-- 
2.43.0


From 85c763b3d5b8953c21eb52c5f1b7e04afbb7a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 08/71] fix: reading the tail of a pointer works unless there
 was an error

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 55b3bc5..caa7181 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -776,7 +776,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From 146e2b9a01331e77b436e694f3ef34558bf7c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 09/71] fix: tail readers of scalar slices make slices of the
 right type

---
 marshal/reader.go | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..b976cb6 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -241,8 +241,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 	if v.CanAddr() {
 		//l := len(r.Body)
 		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +253,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +264,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +275,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +286,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +297,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +308,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +319,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +330,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +341,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From dc26692675994e1e530f73f58d481c77a21f192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 10/71] fix: ISetCounter with a pointer receiver is honoured

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index caa7181..3f18ad6 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -602,7 +602,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From 29a8099a9cc9ab0f00475f6cdf729e0bc7ff56f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 11/71] fix: a *string field with cnt() can be read

---
 marshal/reader_reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 3f18ad6..1623bbc 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -531,6 +531,13 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if el := t.Elem; el != nil && t.Type.Kind() == reflect.Ptr && el.AutoCount != nil && cnt != 0 {
+		if v.IsNil() {
+			v.Set(reflect.New(el.Type))
+		}
+		el.AutoCount(r, v.Elem(), cnt)
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
-- 
2.43.0


From 9f012ddcf8d70383c7727b927cb98b4b65bcb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 12/71] fix: ReadWithSize reports a size mismatch and reads the
 size of any type

---
 marshal/reader_reflect.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 1623bbc..231ee20 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -195,53 +195,60 @@ func (r *Reader) ReadValueFixed(val reflect.Value) error {
 	return r.Err
 }
 
+func (r *Reader) checkSize(sz, want int) bool {
+	if r.Err == nil && sz != want {
+		r.Err = fmt.Errorf("Size doesn't match %d %d", sz, want)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.checkSize(rs(r), 1) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.checkSize(rs(r), 1) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.checkSize(rs(r), 2) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.checkSize(rs(r), 2) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.checkSize(rs(r), 4) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.checkSize(rs(r), 4) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.checkSize(rs(r), 8) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.checkSize(rs(r), 8) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.checkSize(rs(r), 4) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.checkSize(rs(r), 8) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.checkSize(rs(r), len(o)) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -257,11 +264,11 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
-- 
2.43.0


From 3663386d33bcf2327b59d597215ed7ea0558f610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:34 +0000
Subject: [PATCH 13/71] fix: a pointer to a type with its own codec can have a
 size or count

---
 marshal/reader_reflect.go | 20 ++++++++++++++------
 marshal/writer_reflect.go | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 231ee20..4b1af31 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -416,9 +416,11 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 			return true, nil
 		} else {
 			if v.IsNil() {
-				v.Set(reflect.New(t.Elem.Type))
+				v.Set(reflect.New(t.Type.Elem()))
+			}
+			if t.Elem != nil {
+				return t.Elem.SetSize(v.Elem(), sz)
 			}
-			return t.Elem.SetSize(v.Elem(), sz)
 		}
 	case reflect.Interface:
 		if sz == 0 {
@@ -462,7 +464,9 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		return
 	}
 	if ok, err := t.SetSize(v, sz); ok {
-		t.Fixed(r, v)
+		if v.Kind() != reflect.Ptr || !v.IsNil() {
+			t.Fixed(r, v)
+		}
 		return
 	} else if err != nil {
 		r.Err = err
@@ -493,9 +497,11 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		} else {
 			if v.IsNil() {
 				/* TODO: give a more meaningful panic message than builtin */
-				v.Set(reflect.New(t.Elem.Type))
+				v.Set(reflect.New(t.Type.Elem()))
+			}
+			if t.Elem != nil {
+				return t.Elem.SetCount(v.Elem(), cnt)
 			}
-			return t.Elem.SetCount(v.Elem(), cnt)
 		}
 	case reflect.Interface:
 		if cnt == 0 {
@@ -549,7 +555,9 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		r.Err = err
 		return
 	}
-	t.Fixed(r, v)
+	if v.Kind() != reflect.Ptr || !v.IsNil() {
+		t.Fixed(r, v)
+	}
 }
 
 func (t *TReader) fillautotail() {
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index a164750..8b60617 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -281,8 +281,10 @@ func (t *TWriter) Size(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -307,6 +309,9 @@ func (t *TWriter) WithSize(w *Writer, v reflect.Value, szwr func(*Writer, int))
 	}
 	if sz >= 0 {
 		szwr(w, sz)
+		if v.Kind() == reflect.Ptr && v.IsNil() {
+			return
+		}
 		t.Write(w, v)
 	} else {
 		var tw *Writer
@@ -329,8 +334,10 @@ func (t *TWriter) Count(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if t.Elem != nil {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -356,6 +363,9 @@ func (t *TWriter) WithCount(w *Writer, v reflect.Value, cntwr func(*Writer, int)
 		cntwr = (*Writer).IntUint32
 	}
 	cntwr(w, cnt)
+	if v.Kind() == reflect.Ptr && v.IsNil() {
+		return
+	}
 	t.Write(w, v)
 }
 
-- 
2.43.0


From 7a649c5e32eda73f0d4bfe0c97f0c03ce2854ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:14 +0000
Subject: [PATCH 14/71] fix: a negative size is an error for Reader.Slice and
 Reader.String, not a panic

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b976cb6..11da75f 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-- 
2.43.0


From 60b7d0bde3b7061594219d2ad08ee6c88a4a49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 15/71] fix: sizes and counts beyond the data are errors before
 anything is allocated

---
 marshal/reader_reflect.go | 46 +++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 4b1af31..1e30466 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 1) {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 2) {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 2) {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 4) {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 4) {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 8) {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 8) {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 4) {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.Uint32(); r.checkCount(int(count), 8) {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -175,6 +175,14 @@ func (r *Reader) Read(i interface{}) error {
 	return r.Err
 }
 
+// checkCount ensures there is enough data for cnt elements of at least sz bytes each.
+func (r *Reader) checkCount(cnt, sz int) bool {
+	if r.Err == nil && (cnt < 0 || cnt > len(r.Body)/sz) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for %d elements of size %d", cnt, sz)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadValueAuto(val reflect.Value) error {
 	if r.Err != nil {
 		return r.Err
@@ -459,6 +467,9 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		szrd = (*Reader).IntUint32
 	}
 	sz := szrd(r)
+	if !r.checkCount(sz, 1) {
+		return
+	}
 	if t.AutoSize != nil {
 		t.AutoSize(r, v, sz)
 		return
@@ -532,6 +543,20 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 	return nil
 }
 
+// fits ensures there is enough data for cnt elements if they are to be allocated.
+func (t *TReader) fits(r *Reader, cnt int) bool {
+	if !t.Implements && t.Type.Kind() == reflect.Ptr {
+		t = t.Elem
+	}
+	if t.Implements || t.Type.Kind() != reflect.Slice || t.Elem.Sz == 0 {
+		return r.Err == nil
+	}
+	if t.Elem.Sz < 0 {
+		return r.checkCount(cnt, 1)
+	}
+	return r.checkCount(cnt, t.Elem.Sz)
+}
+
 func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int) {
 	if r.Err != nil {
 		return
@@ -540,6 +565,9 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		cntrd = (*Reader).IntUint32
 	}
 	cnt := cntrd(r)
+	if !t.fits(r, cnt) {
+		return
+	}
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
-- 
2.43.0


From 153748f50b9b54ad7598e3b1fcb9fcb1b3db9887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:39 +0000
Subject: [PATCH 16/71] fix: a slice size that is not a multiple of the element
 size is an error

---
 marshal/reader_reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 1e30466..e09e61b 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -905,6 +905,9 @@ func (t *TReader) FillSlice() {
 	}
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
+			if sz%t.Elem.Sz != 0 {
+				return false, fmt.Errorf("Size %d is not a multiple of %d %+v", sz, t.Elem.Sz, t)
+			}
 			cnt := sz / t.Elem.Sz
 			if v.Len() != cnt {
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
-- 
2.43.0


From 1e4d45f0b83fffe5d6894314ae06fea320bd964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:21 +0000
Subject: [PATCH 17/71] fix: reading another number of elements into a fixed
 slice is an error, not a panic

---
 marshal/reader_reflect.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index e09e61b..b3d6159 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -899,6 +899,9 @@ func (t *TReader) FillArray() {
 func (t *TReader) FillSlice() {
 	t.CntSet = func(v reflect.Value, cnt int) error {
 		if v.Len() != cnt {
+			if !v.CanSet() {
+				return fmt.Errorf("Count mismatch: read %d and should %d", cnt, v.Len())
+			}
 			v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 		}
 		return nil
@@ -910,6 +913,9 @@ func (t *TReader) FillSlice() {
 			}
 			cnt := sz / t.Elem.Sz
 			if v.Len() != cnt {
+				if !v.CanSet() {
+					return false, fmt.Errorf("Size mismatch: read %d elements and should %d", cnt, v.Len())
+				}
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
 			return true, nil
-- 
2.43.0


From 933784f1e1f37816a0bb9a3a98a9f76d7c8040c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:30 +0000
Subject: [PATCH 18/71] fix: Uint64var returns nothing besides the error

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 11da75f..0952c8e 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -56,11 +56,11 @@ func (r *Reader) Uint64var() (res uint64) {
 			return
 		} else if res > (maxUint64 >> 7) {
 			r.Err = fmt.Errorf("iproto.Reader: varint is too big %x", r)
-			return
+			return 0
 		}
 	}
 	r.Err = fmt.Errorf("iproto.Reader: not enough data for uint64var %x", r)
-	return
+	return 0
 }
 
 func (r *Reader) Intvar() (res int) {
-- 
2.43.0


From 576b28c1b15a2fadc62c3c6a1981496de3d5333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 19/71] fix: tail and tailsplit fields are written and read
 element by element

---
 sbox/reader.go | 12 ++++++------
 sbox/writer.go | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..90cb41b 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -240,7 +240,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -265,22 +265,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..f2d645c 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -175,7 +175,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.Elem.Flds)
 	}
 	return 0
 }
@@ -195,22 +195,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From ef20afb9a3fceced571a835d8278bd9b7044f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 20/71] fix: struct readers know the tags of their fields, so
 that sbox tails can be read

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b3d6159..d535a3f 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1065,7 +1065,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
-- 
2.43.0


From cb2aac3cdcde7b955651a4ed33e2217d85fa841d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 21/71] fix: an empty field can be read into a list of pointers

---
 marshal/reader_reflect.go | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index d535a3f..435389f 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -431,17 +431,7 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 			}
 		}
 	case reflect.Interface:
-		if sz == 0 {
-			if !v.IsNil() {
-				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
-				} else {
-					el := v.Elem()
-					rd := ReaderFor(el.Type())
-					return rd.SetSize(el, sz)
-				}
-			}
-		} else {
+		if !v.IsNil() {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
 			return rd.SetSize(el, sz)
@@ -515,17 +505,7 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 			}
 		}
 	case reflect.Interface:
-		if cnt == 0 {
-			if !v.IsNil() {
-				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
-				} else {
-					el := v.Elem()
-					rd := ReaderFor(el.Type())
-					return rd.SetCount(el, cnt)
-				}
-			}
-		} else {
+		if !v.IsNil() {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
 			return rd.SetCount(el, cnt)
-- 
2.43.0


From 2c78eaf92222616c229eb00e7aeefd75d0c3f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 22/71] fix: tuples with more fields than a list has room for,
 or a wrong field count, do not panic

---
 sbox/reader.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 90cb41b..053d708 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -84,9 +84,18 @@ type TReader struct {
 	Tail   TailType
 }
 
+// enoughData checks that there could be as many fields, each of which takes at least one byte.
+func enoughData(r *marshal.Reader, fields int) bool {
+	if r.Err == nil && fields > len(r.Body) {
+		r.Err = fmt.Errorf("Wrong field count: %d fields could not be in %d bytes", fields, len(r.Body))
+	}
+	return r.Err == nil
+}
+
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
-	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+	n := v.Len()
+	if l := r.IntUint32(); l >= n {
+		for i := 0; i < n; i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
@@ -96,10 +105,15 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 	l := r.IntUint32()
-	if v.CanSet() {
+	if !v.CanSet() {
+		if l < v.Len() {
+			r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
+			return
+		}
+		l = v.Len()
+	} else if enoughData(r, l) {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
-	} else if l < v.Len() {
-		r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
+	} else {
 		return
 	}
 	for i := 0; i < l; i++ {
@@ -243,6 +257,9 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
+		if !enoughData(r, tail) {
+			return
+		}
 		last.TReader.SetCount(v.Field(last.I), tail)
 	}
 	sw.structRead(r, l, v)
-- 
2.43.0


From 4beb25613c1315409baf48b79ca183df3bbb5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 23/71] fix: sbox tails of ber-encoded slices

---
 sbox/reader.go | 7 ++++---
 sbox/writer.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 053d708..168cb1b 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -308,6 +308,7 @@ func (t *TReader) FillStruct() {
 	t.Auto = t.structAuto
 	for i := range t.Reader.Flds {
 		fld := &t.Reader.Flds[i]
+		rt := t.Reader.Type.Field(fld.I).Type
 		ipro := fld.Tag.Get("sbox")
 
 		for _, m := range strings.Split(ipro, ",") {
@@ -315,15 +316,15 @@ func (t *TReader) FillStruct() {
 				log.Panicf("Sbox Tail could be only last field in a struct %+v", t.Reader.Type)
 			}
 			if m == "tail" {
-				if fld.Type.Kind() != reflect.Slice {
+				if rt.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tail only for slices")
 				}
 				t.Tail = Tail
 			} else if m == "tailsplit" {
-				if fld.Type.Kind() != reflect.Slice {
+				if rt.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tailsplit only for slices")
 				}
-				if fld.Type.Elem().Kind() != reflect.Struct {
+				if rt.Elem().Kind() != reflect.Struct {
 					log.Panicf("Could apply sbox:tailsplit only for slices of struct")
 				}
 				t.Tail = TailSplit
diff --git a/sbox/writer.go b/sbox/writer.go
index f2d645c..8d359d3 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -220,6 +220,7 @@ func (t *TWriter) FillStruct() {
 	t.Write = t.structWriter
 	for i := range t.Writer.Flds {
 		fld := &t.Writer.Flds[i]
+		rt := t.Writer.Type.Field(fld.I).Type
 		ipro := fld.Tag.Get("sbox")
 
 		for _, m := range strings.Split(ipro, ",") {
@@ -227,15 +228,15 @@ func (t *TWriter) FillStruct() {
 				log.Panicf("Sbox Tail could be only last field in a struct %+v", t.Writer.Type)
 			}
 			if m == "tail" {
-				if fld.Type.Kind() != reflect.Slice {
+				if rt.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tail only for slices")
 				}
 				t.Tail = Tail
 			} else if m == "tailsplit" {
-				if fld.Type.Kind() != reflect.Slice {
+				if rt.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tailsplit only for slices")
 				}
-				if fld.Type.Elem().Kind() != reflect.Struct {
+				if rt.Elem().Kind() != reflect.Struct {
 					log.Panicf("Could apply sbox:tailsplit only for slices of struct")
 				}
 				t.Tail = TailSplit
-- 
2.43.0


From 79e1002bcfe24506a5a58e403fbb448352f7cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 24/71] fix: the key count of a select is the number of key
 tuples written; byte arrays are one key

---
 sbox/select.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..cd5c055 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -66,11 +66,7 @@ func CountKeys(keys interface{}) int {
 	case [][][]byte:
 		return len(k)
 	case []interface{}:
-		sum := 0
-		for _, v := range k {
-			sum += CountKeys(v)
-		}
-		return sum
+		return len(k)
 	default:
 		v := reflect.ValueOf(k)
 		if v.Kind() == reflect.Ptr {
@@ -88,7 +84,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -160,25 +156,15 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr := writer(v.Type())
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
-		l := v.Len()
-		switch v.Kind() {
-		case reflect.Uint8:
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			wr := writer(v.Type())
 			wr.Write(w, v)
-		case reflect.Struct, reflect.Array, reflect.Slice,
-			reflect.Uint16, reflect.Uint32, reflect.Uint64,
-			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-			reflect.Float32, reflect.Float64, reflect.Ptr:
-			wr := writer(v.Type().Elem())
-			for i := 0; i < l; i++ {
-				wr.Write(w, v.Index(i))
-			}
-		case reflect.Interface:
-			for i := 0; i < l; i++ {
-				val := v.Index(i)
-				wr := writer(val.Type())
-				wr.Write(w, val)
-			}
+			return
+		}
+		l := v.Len()
+		wr := writer(v.Type().Elem())
+		for i := 0; i < l; i++ {
+			wr.Write(w, v.Index(i))
 		}
 	}
 }
-- 
2.43.0


From 9dd0c7a83b40297c7bdd8f0c0363b79ed7bafb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 25/71] fix: an operation without operand (delete) can be
 written

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..fc28dda 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -120,6 +120,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 		w.Write(opmap[o.Op])
 	}
 	switch v := o.Val.(type) {
+	case nil:
+		w.Intvar(0)
 	case uint32:
 		w.Int8(4)
 		w.Uint32(v)
-- 
2.43.0


From e837aec6bc78edb71f22e529c8601085b5aab0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:04 +0000
Subject: [PATCH 26/71] fix: ReadFirst reports a truncated result set

---
 sbox/result.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..8bef1cd 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -27,14 +27,15 @@ Got:
 	total = r[0].IntUint32()
 	if total > 0 {
 		sz := r[0].IntUint32()
-		if r[0].Err == nil {
-			r[1].Body = r[0].Slice(sz + 4)
+		if body := r[0].Slice(sz + 4); r[0].Err == nil {
+			r[1].Body = body
 			err = ReadRawTuple(&r[1], v)
-			read = true
-		} else {
-			err = r[0].Err
+			read = err == nil
 		}
 	}
+	if err == nil {
+		err = r[0].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
-- 
2.43.0


From ee8e12e0e442b273c4e438c64cf33be24b17b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:05 +0000
Subject: [PATCH 27/71] fix: tuples can be read into a list of pointers or
 slices

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 8bef1cd..f8851f8 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -87,7 +87,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
-- 
2.43.0


From 1ecea64b21586662b21eade6d7a0e00188d6b53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 28/71] fix: a malformed tuple is an error of ReadMany and does
 not spoil the tuples after it

---
 sbox/result.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index f8851f8..e7de560 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -73,8 +73,10 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
-			return 1
+			if l > 0 && oneTuple(r, el, nil) == nil {
+				return 1
+			}
+			return 0
 		}
 	case reflect.Array, reflect.Slice:
 		return readFixedArray(r, v, l)
@@ -185,7 +187,7 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 		return r[0].Err
 	}
 	sz := r[0].IntUint32()
-	r[1].Body = r[0].Slice(sz + 4)
+	r[1] = marshal.Reader{Body: r[0].Slice(sz + 4)}
 	if r[0].Err != nil {
 		log.Printf("oneTuple header read error: %s", r[0].Err)
 		return r[0].Err
@@ -198,7 +200,6 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 	if r[1].Err != nil {
 		log.Printf("oneTuple read error: %s %+v [% x]", r[1].Err, v.Interface(), body)
 	}
-	//r[0].Err = r[1].Err
-	//return r[0].Err
-	return nil
+	r[0].Err = r[1].Err
+	return r[0].Err
 }
-- 
2.43.0


From 9f021465df72c6dbdfda4ef5dfe6659ea6e2b650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 29/71] fix: ReadMany into a list of destinations works and
 returns the number of tuples

---
 sbox/result.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index e7de560..a940b0e 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -80,6 +80,8 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		}
 	case reflect.Array, reflect.Slice:
 		return readFixedArray(r, v, l)
+	case reflect.Interface:
+		return readInterface(r, v.Elem(), l)
 	}
 	log.Panicf("Don't know how to read tuple into %v", v.Type())
 	return 0
@@ -171,15 +173,15 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 }
 
 func readInterfaceArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
-	var i int
+	read := 0
 	ln := v.Len()
-	for i = 0; i < ln && l > 0; i++ {
-		l -= readInterface(r, v.Index(i), l)
+	for i := 0; i < ln && read < l; i++ {
+		read += readInterface(r, v.Index(i), l-read)
 		if r[0].Err != nil {
 			break
 		}
 	}
-	return i
+	return read
 }
 
 func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
-- 
2.43.0


From 08bc4ebc6f42a6b0dbbaf3b3084837348f2b3cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:09 +0000
Subject: [PATCH 30/71] fix: the result slice is not larger than the tuples in
 the body

---
 sbox/result.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index a940b0e..cbf36a1 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"errors"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -156,13 +157,22 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
-		v.Set(reflect.MakeSlice(v.Type(), l, l))
+		ln := l
+		if max := len(r[0].Body) / 8; ln > max {
+			// a tuple takes at least 8 bytes
+			ln = max
+		}
+		v.Set(reflect.MakeSlice(v.Type(), ln, ln))
 		var i int
-		for ; i < l; i++ {
+		for ; i < ln; i++ {
 			if oneTuple(r, v.Index(i), rd) != nil {
 				break
 			}
 		}
+		if ln < l && r[0].Err == nil {
+			r[0].Err = errors.New("iproto.sbox: result has less tuples than declared")
+		}
+		v.Set(v.Slice(0, i))
 		return i
 	case reflect.Interface:
 		return readInterfaceArray(r, v, l)
-- 
2.43.0


From 0d58228d9f8944b9cf724a5eb67a1b731a365421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 31/71] fix: a stream that ends inside a frame is an error, not
 a panic

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..5078483 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = nil
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 41f5f99c90750472fe75f323433b933c5425c986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:48 +0000
Subject: [PATCH 32/71] fix: BufWriter.WriteByte writes one byte

---
 net/buf_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..f0fe3e4 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -65,7 +65,7 @@ func (w *BufWriter) WriteByte(i byte) (err error) {
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr++
 	return
 }
 
-- 
2.43.0


From 56df3fcc014419f8fef3672e491970be7dde1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 33/71] fix: ping responses carry no return code

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..d581cf6 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch retCodeLen {
+	case 0:
+	case 1:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case 4:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From 27d88614ab3739a8493b6990e38633f2c131c08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 34/71] fix: SliceReader.ReadByte reads a byte when nothing is
 buffered

---
 net/slice_reader.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 5078483..0cd4f52 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -56,15 +56,8 @@ func (sl *SliceReader) ReadByte() (res byte, err error) {
 		return
 	}
 	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
+	if buf, err = sl.Read(1); err == nil {
 		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
 	}
 	return
 }
-- 
2.43.0


From a47fb01d37d7db1d224a338fede41ddee2975582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:50 +0000
Subject: [PATCH 35/71] fix: appending to a delivered body does not overwrite
 the frames after it

---
 net/slice_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 0cd4f52..c1f7b9a 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,7 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +38,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From 1e68128d6d8b56ec3a1bdece32808e8f89e637ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 36/71] fix: after a failure inside a frame the rest of it is
 not taken for a frame

---
 net/slice_reader.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c1f7b9a..53a42f5 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -41,10 +41,12 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
-	} else if l > 0 && err == io.EOF {
-		res = buf[:l]
+	} else {
 		sl.buf = nil
-		err = io.ErrUnexpectedEOF
+		if l > 0 && err == io.EOF {
+			res = buf[:l]
+			err = io.ErrUnexpectedEOF
+		}
 	}
 	return
 }
-- 
2.43.0


From cfa947b52dd5ed4e69c4d39fcbbc1b1c3296aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:26 +0000
Subject: [PATCH 37/71] fix: memory for a body grows with what has arrived, not
 with the declared length

---
 net/slice_reader.go | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 53a42f5..32324de 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -5,6 +5,9 @@ import (
 	"time"
 )
 
+// maxAhead limits how much memory is taken for data that has not arrived yet
+const maxAhead = 1 << 20
+
 type SliceReader struct {
 	r        io.Reader
 	size     int
@@ -20,31 +23,35 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		sl.buf = sl.buf[n:]
 		return
 	}
-	var buf []byte
-	if cap(sl.buf) < n {
-		if n > sl.size {
-			buf = make([]byte, len(sl.buf), n)
-		} else {
-			buf = make([]byte, len(sl.buf), sl.size)
-		}
-		copy(buf, sl.buf)
-	} else {
-		buf = sl.buf
-	}
+	buf := sl.buf
 	l := len(buf)
 	for l < n && err == nil {
+		if l == cap(buf) || cap(buf) < n && cap(buf) < sl.size {
+			// the length comes from the peer: let the buffer grow with what has arrived
+			c := n
+			if c < sl.size {
+				c = sl.size
+			}
+			if max := 2*l + maxAhead; c > max {
+				c = max
+			}
+			tmp := make([]byte, l, c)
+			copy(tmp, buf)
+			buf = tmp
+		}
 		var nn int
 		nn, err = sl.read(buf[l:cap(buf)])
 		l += nn
+		buf = buf[:l]
 	}
 	if l >= n {
 		res = buf[:n:n]
-		sl.buf = buf[n:l]
+		sl.buf = buf[n:]
 		err = nil
 	} else {
 		sl.buf = nil
 		if l > 0 && err == io.EOF {
-			res = buf[:l]
+			res = buf
 			err = io.ErrUnexpectedEOF
 		}
 	}
-- 
2.43.0


From b5252eadf8f012f80a78fb0a4bffc502997c4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:45 +0000
Subject: [PATCH 38/71] fix: a request is taken for work once, with or without
 a bookmark

---
 request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request.go b/request.go
index c4da8a6..9b26867 100644
--- a/request.go
+++ b/request.go
@@ -87,8 +87,7 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		if r.cas(RsPending, RsInFly) {
 			mid.setReq(r, mid)
 			set = true
 		}
-- 
2.43.0


From f6c31177768d6824b43763f4b262007d99e31e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:38 +0000
Subject: [PATCH 39/71] fix: a timer with a huge duration does not expire at
 once

---
 custom_timer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..f828388 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -2,6 +2,7 @@ package iproto
 
 import (
 	"log"
+	"math"
 	"runtime"
 	"sync"
 	"sync/atomic"
@@ -28,8 +29,12 @@ func (t *Timer) After(d time.Duration, e Expirator) {
 	} else {
 		h = getHeap(t.h)
 	}
+	at := NowEpoch().Add(d)
+	if d > 0 && at < 0 {
+		at = math.MaxInt64
+	}
 	h.m.Lock()
-	top := h.push(e, NowEpoch().Add(d))
+	top := h.push(e, at)
 	if top {
 		h.c.Signal()
 	}
-- 
2.43.0


From 41316e3c9b2980ff5b1897873586515fc4b64a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:28 +0000
Subject: [PATCH 40/71] fix: the wake-up of a timer heap is not lost

---
 custom_timer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index f828388..b75f324 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -109,7 +109,12 @@ func newHeap(i uint32) *tHeap {
 }
 
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	// under the lock, or the signal is lost if it comes before Wait
+	t := time.AfterFunc(time.Hour, func() {
+		h.m.Lock()
+		h.c.Signal()
+		h.m.Unlock()
+	})
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From a687a650cda128097bebec5c2809b35879ffd305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 41/71] fix: the list of timer heaps can grow while it is used

---
 custom_timer.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/custom_timer.go b/custom_timer.go
index b75f324..a8daed1 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -52,10 +52,14 @@ func (t *Timer) Stop() {
 	}
 }
 
-var heaps = []*tHeap{newHeap(1), newHeap(2)}
+// heaps holds a []*tHeap, which is replaced and never changed
+var heaps atomic.Value
 var heapM sync.Mutex
 var heapI uint32
-var heapN uint32 = 2
+
+func init() {
+	heaps.Store([]*tHeap{newHeap(1), newHeap(2)})
+}
 
 func nextHeap() *tHeap {
 	i := atomic.AddUint32(&heapI, 1)
@@ -67,17 +71,19 @@ func nextHeap() *tHeap {
 		} else {
 			n *= 8
 		}
-		for len(heaps) < n {
-			heaps = append(heaps, newHeap(uint32(len(heaps)+1)))
+		hs := append([]*tHeap(nil), heaps.Load().([]*tHeap)...)
+		for len(hs) < n {
+			hs = append(hs, newHeap(uint32(len(hs)+1)))
 		}
-		heapN = uint32(n)
+		heaps.Store(hs)
 		heapM.Unlock()
 	}
-	return heaps[i%heapN]
+	hs := heaps.Load().([]*tHeap)
+	return hs[i%uint32(len(hs))]
 }
 
 func getHeap(h uint32) *tHeap {
-	return heaps[h-1]
+	return heaps.Load().([]*tHeap)[h-1]
 }
 
 type htindex uint32
-- 
2.43.0


From dd73c055ee816da1d2f9583428a67db550da2841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:06 +0000
Subject: [PATCH 42/71] fix: failing a group does not panic when requests
 complete meanwhile

---
 wait_group.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..3754666 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -211,12 +211,12 @@ func (w *MultiRequest) Expire() {
 func (w *MultiRequest) performFailAll() {
 	w.m.Lock()
 	r := int(atomic.LoadUint32(&w.r))
-	allReqs := w.requests
+	allReqs := append([]*Request(nil), w.requests[:r]...)
 	w.m.Unlock()
 
-	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+	for _, req := range allReqs {
+		if req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From e59e321c26c7bc151bc1d4dd193d22de6c8bf981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:34 +0000
Subject: [PATCH 43/71] fix: the start of Each does not race with completions,
 and a complete group leaves its context

A response stored while Each began was sent to a nil channel, lost or
closed the channel twice; a group which was complete before Each was never
removed from its context.
---
 wait_group.go | 49 ++++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 3754666..0605ba9 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -126,18 +126,19 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, w.r)
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
+	w.ch = ch
 	if w.c == w.r {
-		close(w.ch)
+		w.allResponded()
 	}
 	w.m.Unlock()
-	return w.ch
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
@@ -168,27 +169,29 @@ func (w *MultiRequest) Results() MultiResponse {
 }
 
 func (w *MultiRequest) Respond(r *Response) {
+	w.m.Lock()
+	w.requests[r.Id] = nil
 	if w.ch == nil {
-		w.m.Lock()
-		if w.ch == nil {
-			w.responses = append(w.responses, r)
-			w.requests[r.Id] = nil
-			if w.c++; w.c == w.r && w.kind&mrWait != 0 {
-				w.timer.Stop()
-				w.w.Signal()
-			}
-			w.m.Unlock()
-			return
-		}
-		w.m.Unlock()
+		w.responses = append(w.responses, r)
+	} else {
+		w.ch <- r // there is room for every response
 	}
-	w.ch <- r
-	if v := atomic.AddUint32(&w.c, 1); v == w.r {
-		w.timer.Stop()
-		close(w.ch)
-		if w.cx != nil {
-			w.cx.RemoveCanceler(w)
-		}
+	if v := atomic.AddUint32(&w.c, 1); v == w.r && w.kind&(mrChan|mrWait) != 0 {
+		w.allResponded()
+	}
+	w.m.Unlock()
+}
+
+// allResponded is called under w.m when the last response is collected.
+func (w *MultiRequest) allResponded() {
+	w.timer.Stop()
+	if w.ch == nil {
+		w.w.Signal()
+		return
+	}
+	close(w.ch)
+	if w.cx != nil {
+		w.cx.RemoveCanceler(w)
 	}
 }
 
-- 
2.43.0


From 57062f32e61ac54b6d81e226f8ee05d98f8927e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:28 +0000
Subject: [PATCH 44/71] fix: failing a context cancels what is under it once
 and does not spin

Cancel and Expire span until everything under the context had gone, so they
never returned to the goroutine that had to finish it, and could miss what
was added meanwhile.
---
 context.go | 50 +++++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/context.go b/context.go
index 80a085e..fa2a5c4 100644
--- a/context.go
+++ b/context.go
@@ -2,7 +2,6 @@ package iproto
 
 import (
 	"log"
-	"runtime"
 	"sync"
 	"sync/atomic"
 )
@@ -78,7 +77,11 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 }
 
 func (c *Context) AddCanceler(cn Canceler) {
-	var ok bool
+	c.addCanceler(cn)
+}
+
+// addCanceler cancels cn if context already failed, and returns false then
+func (c *Context) addCanceler(cn Canceler) (ok bool) {
 	c.m.Lock()
 	c.childCond.L = &c.m
 	ok = c.State == 0
@@ -102,38 +105,39 @@ func (c *Context) AddCanceler(cn Canceler) {
 	if !ok {
 		cn.Cancel()
 	}
+	return
 }
 
-func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
-		c.m.Lock()
-		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
-		for i := 0; i < len(c.cancels); i++ {
-			if c.cancels[i] != nil {
-				cancels = append(cancels, c.cancels[i])
-			}
-		}
-		for cancel := range c.cancelsm {
-			cancels = append(cancels, cancel)
-		}
+// fail sets state and cancels everything which were added before.
+// Everything added after is canceled by addCanceler.
+func (c *Context) fail(state CxState) {
+	c.m.Lock()
+	if c.State != 0 {
 		c.m.Unlock()
-		for _, cancel := range cancels {
-			cancel.Cancel()
+		return
+	}
+	atomic.StoreUint32((*uint32)(&c.State), uint32(state))
+	cancels := make([]Canceler, 0, c.cancelsn+len(c.cancelsm))
+	for i := 0; i < len(c.cancels); i++ {
+		if c.cancels[i] != nil {
+			cancels = append(cancels, c.cancels[i])
 		}
-		runtime.Gosched()
+	}
+	for cancel := range c.cancelsm {
+		cancels = append(cancels, cancel)
+	}
+	c.m.Unlock()
+	for _, cancel := range cancels {
+		cancel.Cancel()
 	}
 }
 
 func (c *Context) Cancel() {
-	if atomic.CompareAndSwapUint32((*uint32)(&c.State), 0, uint32(CxCanceled)) {
-		c.cancelAll()
-	}
+	c.fail(CxCanceled)
 }
 
 func (c *Context) Expire() {
-	if atomic.CompareAndSwapUint32((*uint32)(&c.State), 0, uint32(CxTimeout)) {
-		c.cancelAll()
-	}
+	c.fail(CxTimeout)
 }
 
 func (c *Context) NewRequest(msg RequestType, body interface{}) (r *Request, res <-chan *Response) {
-- 
2.43.0


From 9282bed4671d5cc7397a28367c7c78e7c918f86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:41 +0000
Subject: [PATCH 45/71] fix: Go and its relatives run the function

Child never said that the context is alive.
---
 context.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/context.go b/context.go
index fa2a5c4..ff502a4 100644
--- a/context.go
+++ b/context.go
@@ -216,12 +216,7 @@ func (c *Context) Timeout() bool {
 
 func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
-	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
-	if rc == 0 {
-		c.AddCanceler(child)
-	} else {
-		child.Cancel()
-	}
+	ok = c.addCanceler(child)
 	return
 }
 
-- 
2.43.0


From 12d27f4c208f8955787eafcc2a1a32a6865777ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 46/71] fix: everyone who waits for a context is woken

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index ff502a4..866ac0b 100644
--- a/context.go
+++ b/context.go
@@ -71,7 +71,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From 897c3180d641a6f506b9561051ee9b916fd9a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:56 +0000
Subject: [PATCH 47/71] fix: requests queued at the stop of a parallel service
 are answered

Respond does nothing to a request which were not taken for work.
---
 parallel_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..fa8768d 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -97,7 +97,7 @@ Loop:
 		if req, ok = <-serv.ReceiveChan(); !ok {
 			break
 		}
-		req.Respond(RcShutdown, nil)
+		req.ShutDown()
 	}
 }
 
-- 
2.43.0


From adb4e002fde5b661633509221cacc8cec29ae5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:17 +0000
Subject: [PATCH 48/71] fix: a handler can return RcTimeout

An answer with this code was taken for the expiration of the request and
replaced by an internal error.
---
 request.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/request.go b/request.go
index 9b26867..23feaf8 100644
--- a/request.go
+++ b/request.go
@@ -35,6 +35,7 @@ type Request struct {
 	sync.Mutex
 	timer    Timer
 	timerSet bool
+	answered bool // response is an answer to the work, not a failure
 }
 
 func (r *Request) SetTimeout(timeout time.Duration) {
@@ -164,6 +165,7 @@ func (r *Request) Respond(code RetCode, val interface{}) {
 func (r *Request) RespondBytes(code RetCode, body []byte) {
 	r.Lock()
 	if r.state == RsInFly {
+		r.answered = true
 		r.chainResponse(code, body)
 	}
 	r.Unlock()
@@ -172,6 +174,7 @@ func (r *Request) RespondBytes(code RetCode, body []byte) {
 func (r *Request) RespondFail(code RetCode) {
 	r.Lock()
 	if r.state&RsPerforming == 0 {
+		r.answered = false
 		r.chainResponse(code, nil)
 	}
 	r.Unlock()
@@ -195,7 +198,7 @@ type ReqContext struct {
 func (cm *ReqContext) Respond(res *Response) {
 	if res.Code == RcCanceled {
 		cm.Cancel()
-	} else if res.Code == RcTimeout {
+	} else if res.Code == RcTimeout && !cm.Request.answered {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-- 
2.43.0


From 336fa42e98959ef80263b1504589840f3b20cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:05 +0000
Subject: [PATCH 49/71] fix: sending to an end point while it stops does not
 panic or lose the request

The overflow buffer was woken through a channel which Stop closed, and its
loop left requests which were being pushed at this moment.
---
 buffer.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..2ed0f0d 100644
--- a/buffer.go
+++ b/buffer.go
@@ -37,6 +37,7 @@ type Buffer struct {
 	onExit     func()
 	set        chan bool
 	m          sync.Mutex
+	closed     bool
 	rows       map[uint64]*bufferRow
 	head, tail uint64
 	hRow, tRow *bufferRow
@@ -58,19 +59,24 @@ func (b *Buffer) push(r *Request) {
 		}
 	}
 
+	b.m.Lock()
+	if b.closed {
+		b.m.Unlock()
+		r.ShutDown()
+		return
+	}
 	tail := atomic.AddUint64(&b.tail, 1) - 1
 	big := tail / bufRow
 	row := b.tRow
 	if row.id != big {
 		var ok bool
-		b.m.Lock()
 		if row, ok = b.rows[big]; !ok {
 			row = &bufferRow{id: big}
 			b.rows[big] = row
 			b.tRow = row
 		}
-		b.m.Unlock()
 	}
+	b.m.Unlock()
 
 	middle := &row.row[tail%bufRow]
 	if r.ChainBookmark(middle) {
@@ -78,6 +84,10 @@ func (b *Buffer) push(r *Request) {
 	} else {
 		middle.state = bsFree
 	}
+	b.wake()
+}
+
+func (b *Buffer) wake() {
 	select {
 	case b.set <- true:
 	default:
@@ -85,15 +95,19 @@ func (b *Buffer) push(r *Request) {
 }
 
 func (b *Buffer) close() {
-	select {
-	case b.set <- true:
-	default:
-	}
-	close(b.set)
+	b.m.Lock()
+	b.closed = true
+	b.m.Unlock()
+	b.wake()
 }
 
 func (b *Buffer) loop() {
-	for <-b.set {
+	// all that is pushed before close is passed, even if it is still being pushed
+	for closed := false; !closed || b.head < atomic.LoadUint64(&b.tail); {
+		<-b.set
+		b.m.Lock()
+		closed = b.closed
+		b.m.Unlock()
 	Tiny:
 		for ; b.head < atomic.LoadUint64(&b.tail); b.head++ {
 			var ok bool
-- 
2.43.0


From eea4fb692d4852c010106171f64b20fbdc3da69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:17 +0000
Subject: [PATCH 50/71] fix: children can be added to a balancer while it
 starts

AddChild ran the child a second time or missed it if Loop had not got to it.
---
 balancer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..0665d8b 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,13 @@
 package iproto
 
+import (
+	"sync"
+)
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
+	started  bool
 	children []EndPoint
 }
 
@@ -10,18 +16,26 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
 	b.children = append(b.children, ch)
-	if b.Runned() {
+	if b.started {
 		ch.Run(b.b.ch)
 	}
+	b.m.Unlock()
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
+	b.started = true
 	for _, ch := range b.children {
 		b.RunChild(ch)
 	}
+	b.m.Unlock()
 	<-b.ExitChan()
-	for _, ch := range b.children {
+	b.m.Lock()
+	children := append([]EndPoint(nil), b.children...)
+	b.m.Unlock()
+	for _, ch := range children {
 		ch.Stop()
 	}
 }
-- 
2.43.0


From 118b9f75feb19ad152e471c8713429202ac07ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 51/71] fix: answering does not block while the writer of a
 connection waits for its lock

---
 net/server/connection.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..e8d4958 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -92,6 +92,7 @@ CodeEnd:
 			case conn.out <- nt.Response(*r):
 				conn.Unlock()
 				return
+			default:
 			}
 		}
 		conn.buf = append(conn.buf, nt.Response(*r))
-- 
2.43.0


From bd55542c174e34b4db5595771462e83f2e70ffaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:03 +0000
Subject: [PATCH 52/71] fix: the output of a server connection is closed once

Both the end of reading and the writer which saw the last answer led to the
close, and the second one panicked.
---
 net/server/connection.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e8d4958..15ff31a 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -15,7 +15,6 @@ type notifyAction uint32
 const (
 	writeClosed = notifyAction(iota + 1)
 	readClosed
-	inFlyEmpty
 )
 
 type ConnState uint32
@@ -143,8 +142,6 @@ func (conn *Connection) controlLoop() {
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
 			}
-		case inFlyEmpty:
-			close(conn.out)
 		}
 
 		if conn.state&CsClosed == CsClosed {
@@ -272,7 +269,6 @@ Loop:
 				}
 			} else if conn.state&CsReadClosed != 0 && len(conn.inFly) == 0 && len(conn.out) == 0 {
 				conn.Unlock()
-				conn.notifyLoop(inFlyEmpty)
 				break Loop
 			}
 			conn.Unlock()
-- 
2.43.0


From c498e556ca43dda5a8f647424069c8557ede700e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:05 +0000
Subject: [PATCH 53/71] fix: the end of a server connection is reported once

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 15ff31a..2e32f71 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -113,7 +113,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From 8f62fb0f4a24efe2fda4d3aef49effb11ea1eceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 54/71] fix: requests read after the write side of a connection
 has failed are cancelled

---
 net/server/connection.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 2e32f71..e7fce37 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -116,8 +116,8 @@ func (conn *Connection) cancelInFly() {
 }
 
 func (conn *Connection) closed() {
-	conn.buf = nil
-	conn.inFly = nil
+	// requests could be read after the write side has failed
+	conn.cancelInFly()
 	conn.Server.connClosed <- conn.Id
 }
 
-- 
2.43.0


From 37d4a0e0fc393db19bfdc69dcc4ebe5fd527a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:34 +0000
Subject: [PATCH 55/71] fix: answering a ping does not block for ever after the
 write side of a connection has failed

---
 net/server/connection.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index e7fce37..a6da628 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -33,6 +33,7 @@ type Connection struct {
 
 	buf        []nt.Response
 	out        chan nt.Response
+	writeEnd   chan bool
 	bufRealCap int
 
 	state ConnState
@@ -49,7 +50,8 @@ func NewConnection(serv *Server, connection nt.NetConn, id uint64) (conn *Connec
 		Id:     id,
 		conn:   connection,
 
-		out: make(chan nt.Response, 128),
+		out:      make(chan nt.Response, 128),
+		writeEnd: make(chan bool),
 
 		inFly: make(map[uint32]*iproto.Request),
 
@@ -174,8 +176,12 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
-			continue
+			select {
+			case conn.out <- res:
+				continue
+			case <-conn.writeEnd:
+				return
+			}
 		}
 
 		if buf == nil {
@@ -245,6 +251,7 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		close(conn.writeEnd)
 		conn.notifyLoop(writeClosed)
 	}()
 
-- 
2.43.0


From df5fc99c81bf299cfadd0eb909855f03462ced0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:35 +0000
Subject: [PATCH 56/71] fix: a connection that cannot be written to is closed

---
 net/server/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index a6da628..20865cc 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -251,6 +251,9 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			conn.conn.Close()
+		}
 		close(conn.writeEnd)
 		conn.notifyLoop(writeClosed)
 	}()
-- 
2.43.0


From fd831804fb42b84b40bbfbfbcb8abc2edd26b791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:55 +0000
Subject: [PATCH 57/71] fix: answers with unknown or repeated ids are ignored
 by the client

---
 net/client/connection/connection.go     |  3 ++-
 net/client/connection/request_holder.go | 35 +++++++++++++++----------
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..7bef270 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -219,7 +219,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.put >= conn.inFly.got {
+		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
@@ -289,6 +289,7 @@ Loop:
 			if !request.SetInFly(req) {
 				continue
 			}
+			conn.inFly.sent(req)
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
 				Id:   req.fakeId,
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..f8f17d1 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -11,6 +10,7 @@ import (
 type Request struct {
 	iproto.Bookmark
 	fakeId uint32
+	sent   uint32
 }
 
 const (
@@ -45,7 +45,6 @@ func (h *RequestHolder) init() {
 }
 
 func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
 	for {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
@@ -68,20 +67,33 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 	}
 }
 
+// sent tells that an answer to req could be expected
+func (h *RequestHolder) sent(req *Request) {
+	atomic.AddUint64(&h.got, 1)
+	atomic.StoreUint32(&req.sent, 1)
+}
+
+// remove returns nil if the request does not wait for an answer anymore, or if
+// it never did: it is up to the peer which ids it sends.
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
+		row, ok := h.reqs[big]
+		h.Unlock()
+		if !ok {
+			return
 		}
+		h.last = row
 		h.lastBig = big
-		h.Unlock()
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if !atomic.CompareAndSwapUint32(&req.sent, 1, 0) {
+		return
+	}
+
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,28 +102,23 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
 	ireq = req.Request
-	h.put++
+	atomic.AddUint64(&h.put, 1)
 	return
 }
 
 func (h *RequestHolder) getAll() (reqs []*Request) {
 	h.Lock()
 	defer h.Unlock()
-	reqs = make([]*Request, h.got-h.put)
-	i := 0
 	for _, row := range h.reqs {
 		for j := range row.reqs {
 			req := &row.reqs[j]
 			if req.fakeId != 0 && req.Request != nil {
-				reqs[i] = req
-				i++
+				reqs = append(reqs, req)
 			}
 		}
 	}
-	reqs = reqs[:i]
 	return
 }
 
-- 
2.43.0


From e7200c9a9d2725c4276c09809bb2776e16b750f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:56 +0000
Subject: [PATCH 58/71] fix: DialTimeout is respected, by the first ping too

---
 net/client/connection/connection.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 7bef270..17c9954 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"log"
 	"net"
+	"os"
 	"sync"
 	"time"
 
@@ -101,7 +102,11 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	timeout := conn.DialTimeout
+	if timeout <= 0 {
+		timeout = DialTimeout
+	}
+	dialer := net.Dialer{Timeout: timeout}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
@@ -110,11 +115,16 @@ func (conn *Connection) Loop() {
 		conn.conn = netconn.(nt.NetConn)
 		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
 		conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
+		// a peer that does not answer is not a connection
+		tooLong := time.AfterFunc(timeout, func() { netconn.Close() })
 		if err = conn.writer.Ping(); err == nil {
 			if err = conn.writer.Flush(); err == nil {
 				err = conn.reader.ReadPing()
 			}
 		}
+		if !tooLong.Stop() && err == nil {
+			err = os.ErrDeadlineExceeded
+		}
 		if err != nil {
 			conn.conn.Close()
 			conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From a4304e88124394438639e17b64a46e4684a85547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:57 +0000
Subject: [PATCH 59/71] fix: requests in flight are answered before the end of
 a connection is reported, its descriptor is closed

---
 net/client/connection/connection.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 17c9954..52a8ddb 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -157,8 +157,9 @@ func (conn *Connection) controlLoopExit() {
 	if conn.State&CsWriteClosed == 0 {
 		conn.conn.CloseWrite()
 	}
-	conn.ConnErr <- Error{conn, Read, conn.readErr}
 	conn.flushInFly()
+	conn.conn.Close()
+	conn.ConnErr <- Error{conn, Read, conn.readErr}
 }
 
 func (conn *Connection) controlLoop() {
@@ -194,7 +195,6 @@ func (conn *Connection) controlLoop() {
 
 func (conn *Connection) flushInFly() {
 	reqs := conn.inFly.getAll()
-	conn.inFly = RequestHolder{}
 
 	code := iproto.RcIOError
 	if conn.shutdown {
@@ -257,8 +257,8 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
-		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
+		conn.notifyLoop(writeClosed)
 	}()
 
 	var req *Request
-- 
2.43.0


From 6588d9d5ab505be57b708ef26a68dd2d71b1d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 60/71] fix: requests in flight are answered as soon as the
 peer closes the connection

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 52a8ddb..bb09c2b 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -90,6 +90,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -177,6 +178,7 @@ func (conn *Connection) controlLoop() {
 			conn.State |= CsReadClosed
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
+				close(conn.closeWrite)
 			}
 		case readEmpty:
 		}
@@ -287,6 +289,8 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				break Loop
 			}
 		}
 
-- 
2.43.0


From f5034325b5ab2a48dd3e8e5f4cdef8891aee8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:28 +0000
Subject: [PATCH 61/71] fix: a connection that times out at writing is closed
 with its requests in flight

---
 net/client/connection/connection.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index bb09c2b..847464b 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -259,6 +259,10 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err, ok := err.(net.Error); ok && err.Timeout() {
+			// a frame was cut, and the peer does not even read
+			conn.conn.Close()
+		}
 		conn.ConnErr <- Error{conn, Write, err}
 		conn.notifyLoop(writeClosed)
 	}()
-- 
2.43.0


From 8b79440a387ee8edcc49c993130bfd6701415115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:29 +0000
Subject: [PATCH 62/71] fix: the last answer before the end of a client
 connection is noticed by its control loop

---
 net/client/connection/connection.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 847464b..a4a5df6 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -132,8 +132,8 @@ func (conn *Connection) Loop() {
 			conn.State = CsClosed
 			return
 		}
-		conn.ConnErr <- Error{conn, Dial, nil}
 		conn.State = CsConnected
+		conn.ConnErr <- Error{conn, Dial, nil}
 		go conn.readLoop()
 		go conn.writeLoop()
 		go conn.controlLoop()
@@ -171,11 +171,9 @@ func (conn *Connection) controlLoop() {
 
 		switch action {
 		case writeClosed:
-			conn.State &= CsClosed
-			conn.State |= CsWriteClosed
+			conn.setClosed(CsWriteClosed)
 		case readClosed:
-			conn.State &= CsClosed
-			conn.State |= CsReadClosed
+			conn.setClosed(CsReadClosed)
 			if conn.State&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 				close(conn.closeWrite)
@@ -209,6 +207,18 @@ func (conn *Connection) flushInFly() {
 	}
 }
 
+func (conn *Connection) setClosed(flag ConnState) {
+	conn.Lock()
+	conn.State = conn.State&CsClosed | flag
+	conn.Unlock()
+}
+
+func (conn *Connection) writeClosed() bool {
+	conn.Lock()
+	defer conn.Unlock()
+	return conn.State&CsWriteClosed != 0
+}
+
 func (conn *Connection) notifyLoop(action notifyAction) {
 	conn.loopNotify <- action
 }
@@ -231,7 +241,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
+		if conn.writeClosed() && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
@@ -324,6 +334,8 @@ Loop:
 }
 
 func (conn *Connection) Closed() bool {
+	conn.Lock()
+	defer conn.Unlock()
 	return conn.State&CsClosed != 0
 }
 
-- 
2.43.0


From 423487a9922d141c5e7e4279eb9cec57f6ec7278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:31 +0000
Subject: [PATCH 63/71] fix: stopping an end point does not wait for its loop

---
 service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/service.go b/service.go
index 5fa1b3d..275bf27 100644
--- a/service.go
+++ b/service.go
@@ -113,7 +113,8 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	// Stop should not wait for a loop that has ended or is busy
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
-- 
2.43.0


From 846a670652ea5cdc913728735337a876390dc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:32 +0000
Subject: [PATCH 64/71] fix: a client counts a connection once when it is
 stopped and waits for its end

---
 net/client/server.go | 85 ++++++++++++++++++++++++++++----------------
 1 file changed, 55 insertions(+), 30 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..9bf406f 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -30,12 +30,25 @@ type action struct {
 	timeout time.Duration
 }
 
+type phase int
+
+const (
+	dialing = phase(iota)
+	established
+	dying
+)
+
+type child struct {
+	*connection.Connection
+	phase phase
+}
+
 type Server struct {
 	conf
 
 	iproto.SimplePoint
 
-	connections map[uint64]*connection.Connection
+	connections map[uint64]*child
 	curId       uint64
 	needConns   int
 	dialing     int
@@ -76,7 +89,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		},
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
-		connections: make(map[uint64]*connection.Connection),
+		connections: make(map[uint64]*child),
 	}
 
 	serv.SimplePoint.Init(serv)
@@ -90,29 +103,43 @@ func (serv *Server) fixConnections() {
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
-		serv.connections[serv.curId] = conn
+		serv.connections[serv.curId] = &child{Connection: conn, phase: dialing}
 		serv.RunChild(conn)
 		serv.dialing++
 	}
-	if needConn < 0 {
+	// those which are not connected yet go first
+	for _, phase := range []phase{dialing, established} {
 		for _, conn := range serv.connections {
-			switch conn.State {
-			case connection.CsDialing:
+			if needConn < 0 && conn.phase == phase {
 				conn.Stop()
-				serv.dialing--
+				serv.setPhase(conn, dying)
 				needConn++
-			case connection.CsConnected:
-				conn.Stop()
-				serv.established--
-				needConn++
-			}
-			if needConn == 0 {
-				break
 			}
 		}
 	}
 }
 
+func (serv *Server) count(p phase) *int {
+	switch p {
+	case dialing:
+		return &serv.dialing
+	case established:
+		return &serv.established
+	}
+	return &serv.dying
+}
+
+func (serv *Server) setPhase(conn *child, p phase) {
+	*serv.count(conn.phase)--
+	conn.phase = p
+	*serv.count(conn.phase)++
+}
+
+func (serv *Server) remove(conn *child) {
+	*serv.count(conn.phase)--
+	delete(serv.connections, conn.Id)
+}
+
 func (serv *Server) Name() string {
 	return serv.conf.Name
 }
@@ -134,7 +161,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && len(serv.connections) == 0 {
 			serv.reconnecter.Stop()
 			break
 		}
@@ -145,46 +172,44 @@ func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
 		serv.Connections = action.servs
-		serv.needConns = action.servs
+		if !serv.exiting {
+			serv.needConns = action.servs
+		}
 	}
 }
 
 func (serv *Server) onConnError(connErr connection.Error) {
-	conn := connErr.Conn
+	conn, ok := serv.connections[connErr.Conn.Id]
+	if !ok {
+		log.Panicf("Unknown connection failed %+v", connErr.Conn)
+	}
 	switch connErr.When {
 	case connection.Dial:
-		serv.dialing--
 		if connErr.Error == nil {
 			log.Printf("%s: established connection %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-			serv.established++
+			if conn.phase == dialing {
+				serv.setPhase(conn, established)
+			}
 		} else {
 			now := time.Now()
 			if now.Sub(serv.lastErrTime) > 2*time.Second {
 				serv.lastErrTime = now
 				log.Printf("%s: could not connect to %s", serv.conf.Name, serv.conf.Address)
 			}
-			if _, ok := serv.connections[conn.Id]; !ok {
-				log.Panicf("Unknown connection failed %+v", conn)
-			}
-			delete(serv.connections, conn.Id)
+			serv.remove(conn)
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
 		}
 	case connection.Write:
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-		serv.established--
-		serv.dying++
+		serv.setPhase(conn, dying)
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
 	case connection.Read:
 		log.Printf("%s: read side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-		serv.dying--
-		if _, ok := serv.connections[conn.Id]; !ok {
-			log.Panicf("Unknown connection failed %+v", conn)
-		}
-		delete(serv.connections, conn.Id)
+		serv.remove(conn)
 	}
 }
 
-- 
2.43.0


From cf77b296fa77b74ddfca222eec55aca99ab61735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:45 +0000
Subject: [PATCH 65/71] fix: requests queued at the stop of a client are
 answered

---
 net/client/server.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/net/client/server.go b/net/client/server.go
index 9bf406f..64d4b46 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -153,6 +153,10 @@ func (serv *Server) Loop() {
 		case <-serv.ExitChan():
 			serv.needConns = 0
 			serv.exiting = true
+			serv.fixConnections()
+			if serv.Standalone() {
+				go serv.shutDown()
+			}
 		case connErr := <-serv.connErr:
 			serv.onConnError(connErr)
 		case action := <-serv.actions:
@@ -233,6 +237,13 @@ Loop:
 	}
 }
 
+// shutDown answers what is still queued at the stop, or comes later
+func (serv *Server) shutDown() {
+	for req := range serv.ReceiveChan() {
+		req.ShutDown()
+	}
+}
+
 func (serv *Server) AnyConnected() bool {
 	return serv.established > 0
 }
-- 
2.43.0


From 49d09ef57d39c59012901896abc28bbd753b8a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 66/71] fix: requests queued at the stop of a balancer are
 answered

---
 balancer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/balancer.go b/balancer.go
index 0665d8b..5072147 100644
--- a/balancer.go
+++ b/balancer.go
@@ -38,4 +38,10 @@ func (b *BalancerPoint) Loop() {
 	for _, ch := range children {
 		ch.Stop()
 	}
+	if b.Standalone() {
+		// children which answer what is queued at the stop are welcome to help
+		for req := range b.ReceiveChan() {
+			req.ShutDown()
+		}
+	}
 }
-- 
2.43.0


From f83db83e202a6e4cfa7367d58f0ae1dad41649ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:59 +0000
Subject: [PATCH 67/71] fix: a request that expires while it is being sent is
 not sent without its body

---
 net/client/connection/connection.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index a4a5df6..4057c5f 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -314,15 +314,16 @@ Loop:
 			if req == nil {
 				req = conn.inFly.getNext(conn)
 			}
-			if !request.SetInFly(req) {
-				continue
-			}
-			conn.inFly.sent(req)
+			// Body is dropped as soon as the request in flight expires
 			requestHeader = nt.Request{
 				Msg:  request.Msg,
 				Id:   req.fakeId,
 				Body: request.Body,
 			}
+			if !request.SetInFly(req) {
+				continue
+			}
+			conn.inFly.sent(req)
 			req = nil
 
 			err = w.WriteRequest(requestHeader)
-- 
2.43.0


From 5cb9855dccf37de51fc9fa3d686e2dc68d9c4b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:47 +0000
Subject: [PATCH 68/71] fix: requests get the shutdown code after the stop of a
 client

---
 net/client/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/client/server.go b/net/client/server.go
index 64d4b46..f6fc185 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -230,7 +230,11 @@ Loop:
 			if !ok {
 				break Loop
 			}
-			req.IOError()
+			if serv.exiting {
+				req.ShutDown()
+			} else {
+				req.IOError()
+			}
 		default:
 			break Loop
 		}
-- 
2.43.0


From 07cac5244d91d5cd472108d6d1dffc9179ee0a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:35 +0000
Subject: [PATCH 69/71] fix: a code mapped to RcOK in the server's RCMap was
 replaced by the fatal code

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 20865cc..b11b486 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -75,7 +75,7 @@ func (conn *Connection) Stop() {
 func (conn *Connection) Respond(r *iproto.Response) {
 	if r.Code&iproto.RcKindMask == iproto.RcInternal {
 		if conn.RCMap != nil {
-			if repl := conn.RCMap[r.Code]; repl != 0 {
+			if repl, ok := conn.RCMap[r.Code]; ok {
 				r.Code = repl
 				goto CodeEnd
 			}
-- 
2.43.0


From 5c94408bc56acb7be951a14ac72a198eb1a8af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:19 +0000
Subject: [PATCH 70/71] fix: the timer of a group stayed armed when all
 responses came before Results

---
 wait_group.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wait_group.go b/wait_group.go
index 0605ba9..9b0d695 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -159,6 +159,7 @@ func (w *MultiRequest) Results() MultiResponse {
 	if atomic.LoadUint32(&w.c) < w.r {
 		w.w.Wait()
 	}
+	w.timer.Stop()
 	res := w.responses
 	w.responses = nil
 	if w.cx != nil {
-- 
2.43.0


From e48be46c89f1e83864695a2004e309ea9742b4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:47 +0000
Subject: [PATCH 71/71] fix: sockets of ended connections were left open by the
 server till a garbage collection

---
 net/server/connection.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index b11b486..d23d42b 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"log"
+	"net"
 	"sync"
 
 	"github.com/funny-falcon/go-iproto"
@@ -36,7 +37,8 @@ type Connection struct {
 	writeEnd   chan bool
 	bufRealCap int
 
-	state ConnState
+	state   ConnState
+	readErr error
 
 	inFly map[uint32]*iproto.Request
 	sync.Mutex
@@ -120,6 +122,17 @@ func (conn *Connection) cancelInFly() {
 func (conn *Connection) closed() {
 	// requests could be read after the write side has failed
 	conn.cancelInFly()
+	// a stopped server and a read timeout leave unread data of the client,
+	// Close then could reset the connection before it gets its answers
+	conn.Server.Lock()
+	unread := conn.closing
+	conn.Server.Unlock()
+	if err, ok := conn.readErr.(net.Error); ok && err.Timeout() {
+		unread = true
+	}
+	if !unread {
+		conn.conn.Close()
+	}
 	conn.Server.connClosed <- conn.Id
 }
 
@@ -161,7 +174,10 @@ func (conn *Connection) readLoop() {
 	var r nt.HeaderReader
 	r.Init(conn.conn, conn.ReadTimeout, conn.RCType)
 
-	defer conn.notifyLoop(readClosed)
+	defer func() {
+		conn.readErr = err
+		conn.notifyLoop(readClosed)
+	}()
 
 	var buf *[16]iproto.Request
 	var bufn int
-- 
2.43.0

