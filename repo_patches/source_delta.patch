From f6993a6c74dcaa516740cb5c000dde78dc276550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 001/118] fix: keep the Error status when skipping in an
 unreadable mapped file

---
 lib/mmapfileinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..c3c137b 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -82,6 +82,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 78b934e601e5022578813e7f2fda3f9a68c48fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 002/118] fix: StringStream::read imposes no limit when max is
 smaller than min

---
 include/strigi/stringstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..dd7c596 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -111,7 +111,7 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         return -1;
     }
     if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    int32_t nread = (max > left || max < 1 || max < min) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
-- 
2.43.0


From 3c0501c6de8a2d5d2636e6b9276371a31ab342e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 003/118] fix: StringStream::skip does not truncate the number
 of items to 32 bits

---
 include/strigi/stringstream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index dd7c596..5ef4b62 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -123,6 +123,9 @@ template <class T>
 int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    // the size fits in 32 bits, but the requested number of items might not
+    if (ntoskip > left) ntoskip = left;
     const T* start;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
-- 
2.43.0


From 3cd519bdc5054cdb63a7cc4c46dfdb66e9c4d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 004/118] fix: report a read failure of an unbuffered file as
 an error

---
 lib/skippingfileinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..5fd81ac 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -110,6 +110,8 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (nr != n) {
         if (ferror(file)) {
             m_status = Error;
+            m_error = "Could not read from file '" + filepath + "'.";
+            return -2;
         } else {
             m_status = Eof;
             if (m_size == -1) {
-- 
2.43.0


From 8242e50a3987e5dd03735bc35dc9e447df91ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 005/118] fix: 64-bit integer readers for unsigned char read
 all 8 bytes

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From ea37bd52a8c007d9ba464719178ee6026c823984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 006/118] fix: keep all five bits of the hour of a DOS time

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From 7bb01a0b1662fc43dc6c0feeceee3d13611b0faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 007/118] fix: checkUtf8 rejects overlong sequences and values
 above U+10FFFF

---
 lib/textutils.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..198abcb 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,12 +34,16 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    // range of the next continuation byte
+    unsigned char lo = 0x80, hi = 0xBF;
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
-            if ((0xC0 & c) != 0x80) {
+            if (c < lo || c > hi) {
                 return false;
             }
+            lo = 0x80;
+            hi = 0xBF;
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
@@ -55,9 +59,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
             val = c & 0x0F;
+            // no overlong sequences and no surrogates
+            if (c == 0xE0) lo = 0xA0;
+            if (c == 0xED) hi = 0x9F;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
             val = c & 0x07;
+            // no overlong sequences and nothing beyond U+10FFFF
+            if (c == 0xF0) lo = 0x90;
+            if (c == 0xF4) hi = 0x8F;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return false;
@@ -86,16 +96,20 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    // range of the next continuation byte
+    unsigned char lo = 0x80, hi = 0xBF;
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
         unsigned char c = *p;
         //unsigned char d = c & 0xFE;
         if (nb) {
-            if ((0xC0 & c) != 0x80) {
+            if (c < lo || c > hi) {
                 nb = 0;
                 return p;
             }
+            lo = 0x80;
+            hi = 0xBF;
             val = (val << 6) + (c & 0x3F);
             if (--nb == 0) {
                 // check the range of the utf 8 value
@@ -114,10 +128,16 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             cs = p;
             val = c & 0x0F;
             nb = 2;
+            // no overlong sequences and no surrogates
+            if (c == 0xE0) lo = 0xA0;
+            if (c == 0xED) hi = 0x9F;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
             nb = 3;
+            // no overlong sequences and nothing beyond U+10FFFF
+            if (c == 0xF0) lo = 0x90;
+            if (c == 0xF4) hi = 0x8F;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return p;
-- 
2.43.0


From f17048cf6b428241beca7eea7fb48291efaa530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 008/118] fix: an empty query does not write in front of the
 search tables

---
 include/strigi/kmpsearcher.h | 2 +-
 lib/kmpsearcher.cpp          | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strigi/kmpsearcher.h b/include/strigi/kmpsearcher.h
index 28d049b..36386dd 100644
--- a/include/strigi/kmpsearcher.h
+++ b/include/strigi/kmpsearcher.h
@@ -38,7 +38,7 @@ private:
     int32_t len;
     int32_t maxlen;
 public:
-    KmpSearcher() :table(0) { }
+    KmpSearcher() :table(0), len(0), maxlen(0) { }
     explicit KmpSearcher(const std::string& query);
     ~KmpSearcher() {
         if (table) {
diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..09fb57b 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -109,7 +109,9 @@ KmpSearcher::setQuery(const string& query) {
         maxlen = len;
     }
 
-    preBmGs(p, len, table+256);
+    if (len > 0) {
+        preBmGs(p, len, table+256);
+    }
     preBmBc(p, len, table);
 }
 const char*
-- 
2.43.0


From 795c218cf280f3d46960405fd207fda8daebfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 009/118] fix: a sub-stream of unknown length knows its size at
 its end

---
 lib/subinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..ed5a943 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -56,8 +56,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
-- 
2.43.0


From 2eaeaf2073d568df85a36e63990de3c902b346dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 010/118] fix: skipping to the end of a sub-stream of unknown
 length is no error

---
 lib/subinputstream.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ed5a943..2023259 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -112,13 +112,21 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) {
+            m_position += skipped;
+        }
         if (m_position == m_size) {
             m_status = Eof;
-        } else if (skipped <= 0) {
-            m_status = Error;
-            m_error = "Premature end of stream\n";
-            skipped = -2;
+        } else if (skipped < ntoskip) {
+            // the input ended
+            if (m_size == -1) {
+                m_status = Eof;
+                m_size = m_position;
+            } else {
+                m_status = Error;
+                m_error = "Premature end of stream\n";
+                skipped = -2;
+            }
         }
     }
     return skipped;
-- 
2.43.0


From 93c975302b2ada2a61d191fe8947d040b56e3bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:23 +0000
Subject: [PATCH 011/118] fix: resetting a sub-stream does not leave its window

---
 lib/subinputstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index 2023259..059f1c6 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -80,6 +80,10 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
+    if (m_size != -1 && newpos > m_size) {
+        // do not leave the window
+        newpos = m_size;
+    }
     m_position = m_input->reset(newpos + m_offset);
     if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
@@ -89,6 +93,9 @@ SubInputStream::reset(int64_t newpos) {
     } else {
         m_position -= m_offset;
         m_status = m_input->status();
+        if (m_status == Eof && m_size == -1) {
+            m_size = m_position;
+        }
     }
     return m_position;
 }
-- 
2.43.0


From 15836fde8a63797dff22f570d02e5465699fe288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 012/118] fix: request sizes and end of a terminated sub-stream

A maximum below the minimum means no limit, the size is known at the end
also if nothing follows what was read before, and a failing input is an
error instead of an assertion failure.
---
 lib/stringterminatedsubstream.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..dd6e2ca 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -61,13 +61,15 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     // check if we already read enough
     const int64_t pos = p->m_input->position();
     nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max <= 0 || max > nread) {
+    if (nread > 0 && min <= nread) {
+        if (max <= 0 || max < min || max > nread) {
             max = nread;
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
-        if (nread > 0) {
+        if (nread < -1) {
+            m_status = Error;
+            m_error = p->m_input->error();
+        } else if (nread > 0) {
             m_position += nread;
             if (m_position == m_size) {
                 m_status = Eof;
@@ -87,11 +89,17 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     } else {
         tlmin += tl;
     }
-    if (tlmax > 0 && tlmax < tlmin) tlmax = tlmin;
+    if (max < min) max = 0; // no limit
+    if (max <= 0) {
+        tlmax = 0;
+    } else if (tlmax < tlmin) {
+        tlmax = tlmin;
+    }
 
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
-- 
2.43.0


From 0d216f9a00fc69d184b70cbf4df57cc89964e62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 013/118] fix: resetting a terminated sub-stream does not leave
 it

---
 lib/stringterminatedsubstream.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index dd6e2ca..b68eda0 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -143,13 +143,24 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
-    } else {
+    // do not go beyond the end or beyond what is known to lie before it
+    int64_t end = m_size;
+    if (end == -1) {
+        end = p->furthest - p->m_offset;
+        if (end < m_position) end = m_position;
+    }
+    if (newpos > end) newpos = end;
+    if (newpos == m_position) return m_position;
+
+    const int64_t pos = p->m_input->position();
+    const int64_t newinputpos = p->m_input->reset(newpos + p->m_offset);
+    if (newinputpos == newpos + p->m_offset) {
+        m_position = newpos;
+        m_status = Ok;
+    } else if (newinputpos != pos) {
         // the stream is not positioned at a valid m_position
         m_status = Error;
+        m_error = p->m_input->error();
         m_position = -1;
     }
     return m_position;
-- 
2.43.0


From 0e8e1c0c7504bde9821d02e2b739184ced6a5ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:57 +0000
Subject: [PATCH 014/118] fix: the end of an event stream is reported before it
 is in the end state

---
 lib/dataeventinputstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..ce27e3d 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -91,6 +91,12 @@ DataEventInputStream::skip(int64_t ntoskip) {
         m_status = input->status();
         m_position = input->position();
         m_size = input->size();
+        if (m_status == Error) {
+            m_error = input->error();
+        } else if (m_status == Eof && !finished) {
+            finish();
+            finished = true;
+        }
     } else {
         // we call the default implementation because it calls
         // read() which is required for sending the signals
@@ -113,7 +119,8 @@ DataEventInputStream::reset(int64_t np) {
         m_status = Error;
         m_error = input->error();
     } else {
-        m_status = (newpos == m_size) ?Eof :Ok;
+        // the end is only reached when it has been reported
+        m_status = (finished && newpos == m_size) ?Eof :Ok;
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
-- 
2.43.0


From 988944ca627ee6d0470acfe76c4edfabe59a579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 015/118] fix: the substring searcher does not skip occurrences

Enlarging a bad-character shift to u + 1 is not justified: searching
babbbazbbbzzbbab in cabbbazbbbzzbbab followed by itself found nothing.
---
 lib/kmpsearcher.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index 09fb57b..a18c0fb 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -148,9 +148,6 @@ KmpSearcher::search(const char* haystack, int32_t haylen) const {
             if (shift == bmGs[i]) {
                 u = min(len - shift, v);
             } else {
-                if (turboShift < bcShift) {
-                    shift = max(shift, u + 1);
-                }
                 u = 0;
             }
         }
-- 
2.43.0


From 235459be59a3c2e426a01b9ff4f02e3a36c0c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 016/118] fix: rewinding an event stream forward within the
 last read keeps its data

---
 lib/dataeventinputstream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index ce27e3d..c9227be 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -107,7 +107,7 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
@@ -124,7 +124,11 @@ DataEventInputStream::reset(int64_t np) {
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
-    return newpos;
+    if (newpos >= 0 && newpos < np) {
+        // the input cannot go back that far: advance
+        skip(np - newpos);
+    }
+    return m_position;
 }
 void
 DataEventInputStream::finish() {
-- 
2.43.0


From 54bf7662fa5d03778bbb4ee404cae2087916ef0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 017/118] fix: searching an empty haystack at a null pointer
 does not read it

---
 lib/kmpsearcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index a18c0fb..203b8f1 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -116,7 +116,7 @@ KmpSearcher::setQuery(const string& query) {
 }
 const char*
 KmpSearcher::search(const char* haystack, int32_t haylen) const {
-    if (table == 0) return 0;
+    if (table == 0 || haylen < len) return 0;
     const char* needle = m_query.c_str();
 
     int32_t i = 0;
-- 
2.43.0


From a19078ce583dc2c61a774f154e332b88ed27aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 018/118] fix: no input encoding is an error, not a crash

---
 lib/encodinginputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..df0d2a0 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -47,7 +47,9 @@ public:
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc != 0) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
-- 
2.43.0


From 6bae72dbd9fe1872a86778567a8840786d2be05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 019/118] fix: characters that do not fit the space left are
 converted correctly

---
 lib/encodinginputstream.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index df0d2a0..d6a367e 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,10 +40,15 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // output for which there was no room: a character may need several bytes
+    char pending[64];
+    int32_t pendingPos;
+    int32_t pendingEnd;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            pendingPos(0), pendingEnd(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
@@ -111,7 +116,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -134,6 +139,14 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    // hand over what is left from the last call
+    if (p->pendingPos < p->pendingEnd) {
+        int32_t n = p->pendingEnd - p->pendingPos;
+        if (n > space) n = space;
+        std::memcpy(start, p->pending + p->pendingPos, n);
+        p->pendingPos += n;
+        return n;
+    }
     // fill up charbuf
     if (p->input && p->charbuf.readPos == p->charbuf.start) {
         const char *begin;
@@ -160,6 +173,13 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         p->charbuf.avail = numRead + p->charbuf.avail;
     }
     // decode
+    if (space < (int32_t)sizeof(p->pending)) {
+        // the space might be too small for a single character
+        int32_t n = p->decode(p->pending, sizeof(p->pending));
+        p->pendingPos = 0;
+        p->pendingEnd = (n > 0) ?n :0;
+        return (n > 0) ?fillBuffer(start, space) :n;
+    }
     int32_t n = p->decode(start, space);
     //printf("decoded %i\n", n);
     return n;
-- 
2.43.0


From 96f4b103a0589e15d991bbbab73cfec7ce98481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 020/118] fix: deliver the last character a stateful converter
 holds back

---
 lib/encodinginputstream.cpp | 22 +++++++++++++++-------
 lib/inputstreamreader.cpp   | 23 +++++++++++++++--------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index d6a367e..a85d70a 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -131,9 +131,6 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(outbuf - start);
-        if (input == 0) {
-            finishedEncoding = true;
-        }
     }
     return nwritten;
 }
@@ -165,12 +162,23 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
             if (p->charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            p->finishedEncoding = true;
+        } else {
+            // copy data into other buffer
+            std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
+            p->charbuf.avail = numRead + p->charbuf.avail;
         }
-        // copy data into other buffer
-        std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
-        p->charbuf.avail = numRead + p->charbuf.avail;
+    }
+    if (p->finishedEncoding) {
+        // get what the converter was still holding back
+        char* out = p->pending;
+        size_t left = sizeof(p->pending);
+        iconv(p->converter, 0, 0, &out, &left);
+        p->pendingPos = 0;
+        p->pendingEnd = (int32_t)(out - p->pending);
+        return (p->pendingEnd > 0) ?fillBuffer(start, space) :-1;
     }
     // decode
     if (space < (int32_t)sizeof(p->pending)) {
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..ca89e1b 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -96,7 +96,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         default:
             char tmp[10];
@@ -111,9 +111,6 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(((wchar_t*)outbuf) - start);
-        if (input == 0) {
-            finishedDecoding = true;
-        }
     }
     return nwritten;
 }
@@ -137,12 +134,22 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            finishedDecoding = true;
+        } else {
+            // copy data into other buffer
+            std::memmove(charbuf.start + charbuf.avail, begin, numRead);
+            charbuf.avail = numRead + charbuf.avail;
         }
-        // copy data into other buffer
-        std::memmove(charbuf.start + charbuf.avail, begin, numRead);
-        charbuf.avail = numRead + charbuf.avail;
+    }
+    if (finishedDecoding) {
+        // get what the converter was still holding back
+        char* out = (char*)start;
+        size_t left = sizeof(wchar_t)*space;
+        iconv(converter, 0, 0, &out, &left);
+        int32_t n = (int32_t)(((wchar_t*)out) - start);
+        return (n > 0) ?n :-1;
     }
     // decode
     int32_t n = decode(start, space);
-- 
2.43.0


From d3428f947b6066f9c97dfa9e1d7da9f159bbdd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 021/118] fix: a bzip2 stream without the signature is released
 safely

---
 lib/bz2inputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..9020993 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -50,13 +50,13 @@ BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
-    this->input = input;
+    std::memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
         p->m_error = "Magic bytes for bz2 are wrong.";
         p->m_status = Error;
-        input = NULL;
+        this->input = NULL;
         return;
     }
 
-- 
2.43.0


From e77f8a5f0926b08e1e53024cfe715f7adaebb4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 022/118] fix: bzip2 streams of no data are accepted

---
 lib/bz2inputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index 9020993..8d23e06 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -40,10 +40,13 @@ bool
 BZ2InputStream::checkHeader(const char* data, int32_t datasize) {
     static const char magic[] = {0x42, 0x5a};
     static const char compressed_magic[] = {0x31, 0x41, 0x59, 0x26, 0x53, 0x59};
+    // a stream of no data has no block, only the end of the stream
+    static const char end_magic[] = {0x17, 0x72, 0x45, 0x38, 0x50, (char)0x90};
     if (datasize < 10) return false;
     return (std::memcmp(data, magic, 2) == 0
             && (data[2] == 0x68 || data[2] == 0x30)
-            && std::memcmp(data + 4, compressed_magic, 6) == 0);
+            && (std::memcmp(data + 4, compressed_magic, 6) == 0
+                || std::memcmp(data + 4, end_magic, 6) == 0));
 }
 BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 }
-- 
2.43.0


From b0068de9b01dacd877cffee8fe3073b7fc7a9677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 023/118] fix: decoding an empty base64 text does not read in
 front of it

---
 lib/base64inputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..526b11a 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,7 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
+    if (length == 0 || length%4) return d;
     initialize();
     string::size_type words = length/4;
     d.reserve(words*3);
-- 
2.43.0


From 97e06b0e76ffef9415c3fbfbd9a2b36dca919c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 024/118] fix: LZMA output still to come when the input is used
 up is delivered

---
 lib/lzmainputstream.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..57004b9 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -37,6 +37,8 @@ public:
     const char* next_in;
     int32_t avail_in;
     int64_t bytesDecompressed;
+    // the decompressor filled all space, it may go on without more input
+    bool outputPending;
 
     Private(LZMAInputStream* p, InputStream* i);
     ~Private();
@@ -93,6 +95,7 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
 
     // signal that we need to read into the buffer
     avail_in = 0;
+    outputPending = false;
 
     // set the minimum size for the output buffer
     p->setMinBufSize(262144);
@@ -126,7 +129,7 @@ LZMAInputStream::fillBuffer(char* start, int32_t space) {
 int32_t
 LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     // make sure there is data to decompress
-    if (avail_in == 0) {
+    if (avail_in == 0 && !outputPending) {
         readFromStream();
         if (p->m_status != Ok) {
             // no data was read
@@ -142,6 +145,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         outProcessed = (SizeT)bytesTodo;
         finishMode = LZMA_FINISH_END;
     }
+    const SizeT outSpace = outProcessed;
     ELzmaStatus status;
     SRes res = LzmaDec_DecodeToBuf(&state, (Byte*)start, &outProcessed,
         (const Byte*)next_in, &inProcessed, finishMode, &status);
@@ -157,6 +161,13 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         p->m_status = Error;
         return -1;
     }
+    if (inProcessed == 0 && outProcessed == 0 && outputPending
+            && status == LZMA_STATUS_NEEDS_MORE_INPUT) {
+        // there was no more output without more input
+        outputPending = false;
+        return 0;
+    }
+    outputPending = outProcessed == outSpace;
     if (inProcessed == 0 && outProcessed == 0) {
         if (p->m_size != -1 || status != LZMA_STATUS_FINISHED_WITH_MARK) {
             p->m_error = "unexpected end";
-- 
2.43.0


From 51c47a76ef6838e11ac6e0981023b8b7dcb953e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 025/118] fix: characters still to convert are not mistaken for
 an incomplete one

---
 lib/encodinginputstream.cpp | 7 +++++--
 lib/inputstreamreader.cpp   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index a85d70a..454a971 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -99,6 +99,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     char *outbuf = start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -114,8 +115,10 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
             nwritten = (int32_t)(outbuf - start);
             break;
         case E2BIG: // output buffer is full
-            charbuf.readPos += charbuf.avail - inbytesleft;
+            charbuf.readPos = (inbytesleft == 0) ?charbuf.start
+                :charbuf.readPos + (charbuf.avail - inbytesleft);
             charbuf.avail = (int32_t)inbytesleft;
+            charsLeft = charbuf.avail;
             nwritten = (int32_t)(outbuf - start);
             break;
         default:
@@ -145,7 +148,7 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         return n;
     }
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index ca89e1b..444687b 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -79,6 +79,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
     char *outbuf = (char*)start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -94,8 +95,10 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
             nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         case E2BIG: // output buffer is full
-            charbuf.readPos += charbuf.avail - inbytesleft;
+            charbuf.readPos = (inbytesleft == 0) ?charbuf.start
+                :charbuf.readPos + (charbuf.avail - inbytesleft);
             charbuf.avail = (int32_t)inbytesleft;
+            charsLeft = charbuf.avail;
             nwritten = (int32_t)(((wchar_t*)outbuf) - start);
             break;
         default:
@@ -117,7 +120,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
-- 
2.43.0


From 8f8ed8c94e5195fb597fce908a71ec4b931fcb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 026/118] fix: a tar block is complete even if the input ends
 with it

---
 lib/tarinputstream.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..f51fdca 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -51,12 +51,11 @@ TarInputStream::nextEntry() {
 const char*
 TarInputStream::readHeader() {
     // read the first 512 characters
-    const char *begin;
+    const char *begin = 0;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
-        m_status = Error;
+    // the input may be at its end after delivering the last block
+    if (nread != 512) {
+        m_status = (m_input->status() == Eof) ?Eof :Error;
     }
     return begin;
 }
-- 
2.43.0


From 7b9d3636aaf053470027beb9f2711daba1eb4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 027/118] fix: the terminator of a long name in a tar file is
 no part of the name

---
 lib/tarinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index f51fdca..f459076 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -210,7 +210,8 @@ TarInputStream::readLongLink(const char *b) {
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    // the name is terminated by '\0'
+    m_entryinfo.filename.append(begin, strnlen(begin, nread));
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 1f2220cdf9177bada76d3d382a8e6483cecfe534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 028/118] fix: sizes and times in tar headers are neither
 negative nor cut to 32 bits

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index f459076..78959f1 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -179,26 +179,38 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // numeric fields have at most 12 characters
+    int64_t val = 0;
+    int i = offset;
+    const int end = offset + 12;
+    while (i < end && b[i] == ' ') ++i;
+    if (i == end || b[i] < '0' || b[i] > '7') {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
     }
+    for (; i < end && b[i] >= '0' && b[i] <= '7'; ++i) {
+        val = 8*val + (b[i] - '0');
+    }
     return val;
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    const int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size < 1 || size > 1048576) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid length.";
+        return;
+    }
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
-- 
2.43.0


From 7323fe3f48a38e70ce21882e7677ae1c08197f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 029/118] fix: long link targets in tar files are not taken for
 names, headers after long names are checked

---
 lib/tarinputstream.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 78959f1..bfa5179 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -139,11 +139,34 @@ TarInputStream::parseHeader() {
     }
     if (len > 100) len = 100;
     m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+    bool longName = false;
+    while (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+        // type 'L' is a long name, type 'K' is the long target of a link
+        const bool isName = hb[156] != 'K';
+        const string name(m_entryinfo.filename);
+        m_entryinfo.filename.resize(0);
         readLongLink(hb);
         if (m_status) return;
+        if (isName) {
+            longName = true;
+        } else {
+            m_entryinfo.filename = name;
+        }
         hb = readHeader();
-        if (m_status) return;
+        if (m_status) {
+            m_status = Error;
+            m_error = "Premature end of file.";
+            return;
+        }
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
+        len = strnlen(hb, 100);
+    }
+    if (longName) {
+        // the name in this header is only the start of the long name
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
-- 
2.43.0


From b9e556224f7e0472a783f512cdbe455226c877b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 030/118] fix: old-style directories in tar files are
 directories, empty names are not indexed

---
 lib/tarinputstream.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index bfa5179..c275ab1 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -189,12 +189,15 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    bool trailingSlash = false;
+    if (len > 0 && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
+        trailingSlash = true;
     }
     // read file type
     if (hb[156] == 0 || hb[156] == '0') {
-        m_entryinfo.type = EntryInfo::File;
+        // old archives mark directories only by their name
+        m_entryinfo.type = trailingSlash ?EntryInfo::Dir :EntryInfo::File;
     } else if (hb[156] == '5') {
         m_entryinfo.type = EntryInfo::Dir;
     } else {
-- 
2.43.0


From ca6f4103ccce86c8cae690fbf1f666f865791836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 031/118] fix: many './' entries in a tar file do not exhaust
 the stack

---
 include/strigi/tarinputstream.h |  1 +
 lib/tarinputstream.cpp          | 30 ++++++++++++++++++------------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 2cef99d..5de479a 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,6 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
+    bool parseEntryHeader();
     int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index c275ab1..ed54af6 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -90,13 +90,18 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
 }
 void
 TarInputStream::parseHeader() {
+    while (!parseEntryHeader()) {}
+}
+/* returns false if the header is to be skipped */
+bool
+TarInputStream::parseEntryHeader() {
     const char *hb;
 
     hb = readHeader();
     if (m_status) {
         m_status = Error;
         m_error = "Premature end of file.";
-        return;
+        return true;
     }
     // a tar file should end with at least 2 blocks of '\0' bytes
     bool justZeroes = true;
@@ -110,9 +115,9 @@ TarInputStream::parseHeader() {
         if (numZeroBlocks == 1 && m_status == Eof) {
             m_status = Error;
             m_error = "Premature end of file.";
-            return;
+            return true;
         } else if (m_status == Error || m_status == Eof) {
-            return;
+            return true;
         }
         for (i = 0; i < 512 && justZeroes; ++i) {
             justZeroes = hb[i] == 0;
@@ -120,7 +125,7 @@ TarInputStream::parseHeader() {
         if (!justZeroes) {
            m_status = Error;
            m_error = "Invalid tar file.";
-           return;
+           return true;
         }
     }
 
@@ -128,14 +133,14 @@ TarInputStream::parseHeader() {
     if (!checkHeader(hb, 257)) {
         m_error = "Invalid tar header.\n";
         m_status = Error;
-        return;
+        return true;
     }
 
     size_t len = std::strlen(hb);
     if (len == 0) {
         // ready
         m_status = Eof;
-        return;
+        return true;
     }
     if (len > 100) len = 100;
     m_entryinfo.filename.resize(0);
@@ -146,7 +151,7 @@ TarInputStream::parseHeader() {
         const string name(m_entryinfo.filename);
         m_entryinfo.filename.resize(0);
         readLongLink(hb);
-        if (m_status) return;
+        if (m_status) return true;
         if (isName) {
             longName = true;
         } else {
@@ -156,12 +161,12 @@ TarInputStream::parseHeader() {
         if (m_status) {
             m_status = Error;
             m_error = "Premature end of file.";
-            return;
+            return true;
         }
         if (!checkHeader(hb, 257)) {
             m_error = "Invalid tar header.\n";
             m_status = Error;
-            return;
+            return true;
         }
         len = strnlen(hb, 100);
     }
@@ -170,7 +175,7 @@ TarInputStream::parseHeader() {
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
-            return parseHeader();
+            return false;
         }
         m_entryinfo.filename.append(hb, 2, len-2);
     } else {
@@ -179,9 +184,9 @@ TarInputStream::parseHeader() {
 
     // read the file size which is in octal format
     m_entryinfo.size = readOctalField(hb, 124);
-    if (m_status) return;
+    if (m_status) return true;
     m_entryinfo.mtime = readOctalField(hb, 136);
-    if (m_status) return;
+    if (m_status) return true;
 
     numPaddingBytes = (int32_t)(512 - m_entryinfo.size%512);
     if (numPaddingBytes == 512) {
@@ -204,6 +209,7 @@ TarInputStream::parseHeader() {
         m_entryinfo.type = EntryInfo::Unknown;
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
+    return true;
 }
 int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-- 
2.43.0


From d8bf859f7edf6a07c61d44d96f47400269bd98a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 032/118] fix: tar entries with a name prefix have their full
 name

---
 lib/tarinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ed54af6..32b0ee5 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -172,6 +172,11 @@ TarInputStream::parseEntryHeader() {
     }
     if (longName) {
         // the name in this header is only the start of the long name
+    } else if (memcmp(hb + 257, "ustar", 6) == 0 && hb[345] != '\0') {
+        // the directory part of the name is in the prefix field
+        m_entryinfo.filename.append(hb + 345, strnlen(hb + 345, 155));
+        m_entryinfo.filename.append(1, '/');
+        m_entryinfo.filename.append(hb, len);
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
-- 
2.43.0


From 82502e62d44094f271d18003679410c04fe4c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 033/118] fix: a cut entry makes the iteration of a zip file
 fail

---
 lib/zipinputstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..4547a81 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -59,6 +59,11 @@ ZipInputStream::nextEntry() {
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
             compressedEntryStream->skip(compressedEntryStream->size());
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = compressedEntryStream->error();
+                return NULL;
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
@@ -82,6 +87,11 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = m_entrystream->error();
+                return NULL;
+            }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
-- 
2.43.0


From 1c0553fddb45998e06a590de19aa798ade0871ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 034/118] fix: looking for a zip data descriptor near the end
 of the input consumes nothing

---
 lib/zipinputstream.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 4547a81..3152e0a 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -73,11 +73,9 @@ ZipInputStream::nextEntry() {
             const char* c;
             int64_t p = m_input->position();
             int32_t n = m_input->read(c, 16, 16);
-            if (n == 16) {
-                n = readLittleEndianUInt32((const unsigned char*)c);
-                if (n != 0x08074b50) {
-                    m_input->reset(p);
-                }
+            if (n < 16
+                || readLittleEndianUInt32((const unsigned char*)c) != 0x08074b50) {
+                m_input->reset(p);
             }
         } else {
             int64_t size = m_entrystream->size();
-- 
2.43.0


From 3a9d0866a0f9d365dadf4ee6963760ee9c3225e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 035/118] fix: the end of a zip file does not depend on when
 the input reports its end

---
 lib/zipinputstream.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 3152e0a..f93e783 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -114,11 +114,6 @@ ZipInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    // are we at the end of the zip file?
-    if (m_input->status() == Eof) {
-        m_status = Eof;
-        return NULL;
-    }
     readHeader();
     if (m_status != Ok) return NULL;
     if (m_entryinfo.filename.length()<=0) {
@@ -156,6 +151,16 @@ ZipInputStream::readHeader() {
     // read the first 30 characters
     toread = 30;
     nread = m_input->read(b, toread, toread);
+    if (nread < 1 && m_input->status() == Eof) {
+        // we are at the end of the zip file
+        m_status = Eof;
+        return;
+    }
+    if (nread >= 22 && nread < toread && memcmp(b, "PK\005\006", 4) == 0) {
+        // only the end of the central directory is shorter than a header
+        m_status = Eof;
+        return;
+    }
     if (nread != toread) {
         m_error = "Error reading zip header: ";
         if (nread == -1) {
-- 
2.43.0


From 09fdc665b58be2a575f7613d874764ef7407fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 036/118] fix: zip headers without a name or with a cut name
 are errors

---
 lib/zipinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index f93e783..2f9eac2 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -230,7 +230,7 @@ ZipInputStream::readHeader() {
         return;
     }
     // read 2 bytes into the length of the extra field
-    int64_t skipped = m_input->skip(extralen);
+    int64_t skipped = (extralen > 0) ?m_input->skip(extralen) :0;
     if (skipped != extralen) {
         m_status = Error;
 //	printf("skipped %li extralen %li position: %li size: %li\n", skipped, extralen, m_input->position(), m_input->size());
@@ -242,6 +242,7 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len == 0) return;
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
@@ -251,6 +252,7 @@ ZipInputStream::readFileName(int32_t len) {
         } else {
             m_error += " premature end of file.";
         }
+        m_status = Error;
         return;
     }
     m_entryinfo.filename.assign(begin, nread);
-- 
2.43.0


From 65822072ddced2a1535a17af0a7ccf311c8c0b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 037/118] fix: zip entries may be larger than 2 GiB

---
 include/strigi/zipinputstream.h | 2 +-
 lib/zipinputstream.cpp          | 5 -----
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..e4fddb1 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    int64_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 2f9eac2..d594b10 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -198,11 +198,6 @@ ZipInputStream::readHeader() {
     m_entryinfo.size = readLittleEndianUInt32(hb + 22);
     // read 4 bytes into the length of the compressed size
     entryCompressedSize = readLittleEndianUInt32(hb + 18);
-    if (entryCompressedSize < 0) {
-        m_status = Error;
-        m_error = "Corrupt zip file with negative compressed size.";
-        return;
-    }
     compressionMethod = readLittleEndianUInt16(hb + 8);
     int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
     if (generalBitFlags & 8) { // is bit 3 set?
-- 
2.43.0


From 6d78bafeb20c8b09a3495f2e96d0629a3cbd3000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 038/118] fix: a cut entry makes the iteration of an ar archive
 fail

---
 lib/arinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..7b9bb75 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -47,6 +47,11 @@ ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
         m_entrystream->skip(m_entrystream->size());
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+            return 0;
+        }
         delete m_entrystream;
         m_entrystream = 0;
     }
-- 
2.43.0


From e9de4fa4499fd9d0c0a2bd5fb9c56208859c5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 039/118] fix: many tables in an ar archive do not exhaust the
 stack

---
 include/strigi/arinputstream.h |  2 +-
 lib/arinputstream.cpp          | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 6a110fa..3834cbe 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -29,7 +29,7 @@ private:
     // information relating to the current entry
     std::string gnufilenames;
 
-    void readHeader();
+    bool readHeader();
 public:
     explicit ArInputStream(InputStream* input);
     ~ArInputStream();
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 7b9bb75..b2a6940 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -55,12 +55,13 @@ ArInputStream::nextEntry() {
         delete m_entrystream;
         m_entrystream = 0;
     }
-    readHeader();
+    while (!readHeader()) {}
     if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
-void
+/* returns false if the header belongs to a table and not to an entry */
+bool
 ArInputStream::readHeader() {
     const char *b;
     int32_t toread;
@@ -78,16 +79,16 @@ ArInputStream::readHeader() {
         m_error = "Error reading ar header: ";
         m_error += m_input->error();
         m_status = Error;
-        return;
+        return true;
     }
     if (nread <= 1) { // allow for a closing byte
         m_status = Eof;
-        return;
+        return true;
     }
     if (nread != toread) {
         m_error = "Error reading ar header: premature end of file.";
         m_status = Error;
-        return;
+        return true;
     }
     int len;
     for (len=0; len<16; len++) {
@@ -105,7 +106,7 @@ ArInputStream::readHeader() {
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
-        return;
+        return true;
     }
     m_entryinfo.mtime = atoi(bc+16);
     if (len == 0) {
@@ -115,19 +116,19 @@ ArInputStream::readHeader() {
             if (nread != m_entryinfo.size) {
                 m_error = "premature end of stream";
                 m_status = Error;
-                return;
+                return true;
             }
             gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            return false;
         } else if (b[1] == ' ') {
             m_input->skip(m_entryinfo.size);
-            readHeader();
+            return false;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
                 m_error = "Invalid name field.";
                 m_status = Error;
-                return;
+                return true;
             }
             const char* c = gnufilenames.c_str() + p;
             const char* e = std::strchr(c, '/');
@@ -141,4 +142,5 @@ ArInputStream::readHeader() {
         m_entryinfo.filename = std::string(b, len);
     }
     m_entryinfo.type = Strigi::EntryInfo::File;
+    return true;
 }
-- 
2.43.0


From 6158ad468766300e2bcc84dac06d835139c263fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 040/118] fix: sizes, times and name tables of ar archives are
 not cut to 32 bits or read before they are there

---
 lib/arinputstream.cpp | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index b2a6940..171b765 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -60,6 +60,11 @@ ArInputStream::nextEntry() {
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
+static int64_t
+readDecimalField(const char* field, int32_t len) {
+    const std::string s(field, len);
+    return strtoll(s.c_str(), 0, 10);
+}
 /* returns false if the header belongs to a table and not to an entry */
 bool
 ArInputStream::readHeader() {
@@ -98,34 +103,41 @@ ArInputStream::readHeader() {
         }
     }
 
-    // we must copy this string to safely call atoi
-    char bc[61];
-    std::memcpy(bc, b, 60);
-    bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    // we must copy the fields to safely convert them
+    m_entryinfo.size = readDecimalField(b+48, 10);
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
         return true;
     }
-    m_entryinfo.mtime = atoi(bc+16);
+    m_entryinfo.mtime = (time_t)readDecimalField(b+16, 12);
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
-            if (nread != m_entryinfo.size) {
+            gnufilenames.resize(0);
+            int64_t left = m_entryinfo.size;
+            while (left > 0) {
+                nread = m_input->read(b, 1, (left > 65536) ?65536 :(int32_t)left);
+                if (nread < 1) {
+                    m_error = "premature end of stream";
+                    m_status = Error;
+                    return true;
+                }
+                gnufilenames.append(b, nread);
+                left -= nread;
+            }
+            return false;
+        } else if (b[1] == ' ') {
+            if (m_entryinfo.size > 0
+                    && m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
                 m_error = "premature end of stream";
                 m_status = Error;
                 return true;
             }
-            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            return false;
-        } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
             return false;
         } else {
-            uint p = atoi(bc+1);
-            if (gnufilenames.length() <= p) {
+            int64_t p = readDecimalField(b+1, 15);
+            if (p < 0 || (int64_t)gnufilenames.length() <= p) {
                 m_error = "Invalid name field.";
                 m_status = Error;
                 return true;
-- 
2.43.0


From f3d51850ce0249f986b9b0bf406a1c3d5b7d86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 041/118] fix: ar names may contain spaces, 64-bit symbol
 tables are no members

---
 lib/arinputstream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 171b765..496b423 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -95,11 +95,15 @@ ArInputStream::readHeader() {
         m_status = Error;
         return true;
     }
+    // a name ends at a slash, which allows spaces in it, or at a space
     int len;
-    for (len=0; len<16; len++) {
-        char c = b[len];
-        if (c == ' ' || c == '/' || c == '\0') {
-            break;
+    for (len=0; len<16 && b[len] != '/' && b[len] != '\0'; len++) {}
+    if (len == 16 || b[len] != '/') {
+        for (len=0; len<16; len++) {
+            char c = b[len];
+            if (c == ' ' || c == '\0') {
+                break;
+            }
         }
     }
 
@@ -127,7 +131,7 @@ ArInputStream::readHeader() {
                 left -= nread;
             }
             return false;
-        } else if (b[1] == ' ') {
+        } else if (b[1] == ' ' || std::memcmp(b, "/SYM64/", 7) == 0) {
             if (m_entryinfo.size > 0
                     && m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
                 m_error = "premature end of stream";
-- 
2.43.0


From 4132bd1521302f9b02fb26bb23e0dcbaf765094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 042/118] fix: a cut entry makes the iteration of a cpio
 archive fail

---
 lib/cpioinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..31a93b2 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -53,6 +53,11 @@ CpioInputStream::nextEntry() {
         while (m_entrystream->status() == Ok) {
             m_entrystream->skip(m_entrystream->size());
         }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+            return 0;
+        }
         delete m_entrystream;
         m_entrystream = 0;
         if (padding) {
-- 
2.43.0


From ffeef07e6d2241aeb259debe1aa6b60b19dc149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 043/118] fix: a cut cpio header is an error

---
 lib/cpioinputstream.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 31a93b2..84f04c2 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -65,11 +65,8 @@ CpioInputStream::nextEntry() {
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -83,10 +80,11 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
+        if (nread < 1 && m_input->status() == Eof) {
+            m_status = Eof;
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
         if (nread == -1) {
             m_error += m_input->error();
-- 
2.43.0


From e4e27c4de6063c81131e620400aff05d14a1f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 044/118] fix: sizes in cpio headers are neither negative nor
 garbage

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 23 +++++++++++++++--------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..1ea003d 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    int64_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 84f04c2..7204cfe 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -102,11 +102,15 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
+    const int64_t namesize = readHexField(b+94);
+    if (namesize < 1 || namesize > 1048576) {
+        m_status = Error;
+    }
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
     }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -134,19 +138,22 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+int64_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    int64_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
-        if (c > 'F') {
-            val += c - 87;
-        } else if (c > '9') {
-            val += c - 55;
+        if (c >= 'a' && c <= 'f') {
+            val += c - 'a' + 10;
+        } else if (c >= 'A' && c <= 'F') {
+            val += c - 'A' + 10;
+        } else if (c >= '0' && c <= '9') {
+            val += c - '0';
         } else {
-            val += c - 48;
+            m_status = Error;
+            return 0;
         }
     }
     return val;
-- 
2.43.0


From b899128bfdf65ec20b4c5b58f1166197e0e5ecac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 045/118] fix: the name of a cpio entry is not read beyond its
 end

---
 lib/cpioinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 7204cfe..7bb5309 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -127,6 +127,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
-- 
2.43.0


From 6664c73906e4c679be0d57affe2f9c1f16bef7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:02 +0000
Subject: [PATCH 046/118] fix: sizes in rpm headers are checked before they are
 used

---
 lib/rpminputstream.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..243df60 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -46,6 +46,11 @@ RpmInputStream::checkHeader(const char* data, int32_t datasize) {
     bool ok = memcmp(data, magic, 6) == 0;
     return ok;
 }
+static bool
+validHeaderSizes(int32_t nindex, int32_t hsize) {
+    // limits that rpm itself has too
+    return nindex >= 0 && nindex <= 0xffff && hsize >= 0 && hsize <= 0x10000000;
+}
 RpmInputStream::RpmInputStream(InputStream* input)
         : SubStreamProvider(input), headerinfo(0) {
     uncompressionStream = NULL;
@@ -68,11 +73,15 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (!validHeaderSizes(nindex, hsize)) {
+        m_error = "invalid sizes in signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->skip(sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +93,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
-    int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (!validHeaderSizes(nindex, hsize)) {
+        m_error = "invalid sizes in header\n";
+        return;
+    }
+    int32_t size = nindex*16;
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
@@ -116,6 +129,11 @@ RpmInputStream::RpmInputStream(InputStream* input)
         printf("%i\t%i\t%i\t%i\n", tag, type, offset, count);*/
     }
 
+    if (hsize > 0 && m_input->skip(hsize) != hsize) {
+        m_error = "could not read header\n";
+        return;
+    }
+
     int64_t pos = m_input->position();
     if (m_input->read(b, 16, 16) != 16) {
         m_error =  "could not read payload\n";
-- 
2.43.0


From 4f3de88f23feb029deac7ba333271dce9a67e520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 047/118] fix: the entry stream of an OLE document is deleted
 once

---
 lib/oleinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..d2953ae 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -266,6 +266,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     currentTableIndex = 0;
 }
 OleInputStream::~OleInputStream() {
+    // the entry stream belongs to p
+    m_entrystream = 0;
     delete p;
 }
 OleInputStream::Private::~Private() {
-- 
2.43.0


From 998442677acfe8705138d145b28409ff070a8329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 048/118] fix: an error in an OLE document does not turn into a
 clean end

---
 lib/oleinputstream.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index d2953ae..dd05438 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -380,8 +380,14 @@ OleInputStream::Private::readEntryInfo() {
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status != Ok) return 0;
+    if (m_entrystream && m_entrystream->status() == Error) {
+        m_status = Error;
+        m_error = m_entrystream->error();
+        return 0;
+    }
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -391,6 +397,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid OLE directory.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From c778fc65e06fea0fd4816c76978a8070e5b64f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 049/118] fix: the last number of an OLE document can be read

---
 lib/oleinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index dd05438..3f872a1 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -155,7 +155,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
-- 
2.43.0


From 87be43e543c4c7c03d49b398a0eb581eff258718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 050/118] fix: OLE streams are not silently left out because of
 the number of their first block

---
 lib/oleinputstream.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 3f872a1..6bc06d1 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -374,7 +374,15 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    if (currentStreamSize <= 0) {
+        currentDataBlock = -1;
+        return;
+    }
+    // short streams are stored in small blocks
+    const int32_t maxblock = (currentStreamSize < 4096) ?maxsindex-1 :maxindex;
+    if (currentDataBlock < 0 || currentDataBlock > maxblock) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid start of an OLE stream.";
         currentDataBlock = -1;
     }
 }
@@ -406,6 +414,9 @@ OleInputStream::Private::nextEntry() {
             currentTableIndex = 0;
         }
         readEntryInfo();
+        if (stream->m_status != Ok) {
+            return 0;
+        }
     } while (currentDataBlock < 0);
     //printEntry(data+(currentTableBlock+1)*512+128*currentTableIndex);
 
-- 
2.43.0


From 16e9ba0c8236853455ceebf733a94f57d342dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 051/118] fix: numbers in OLE headers cannot overflow, allocate
 or loop without limit

---
 lib/oleinputstream.cpp | 50 ++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 6bc06d1..6a0f8eb 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -180,14 +180,13 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    if (!checkHeader(data, size) || nBat < 0 || nXBat < 0
+            || nBat > 128*(int64_t)nXBat+109) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
-    int32_t max = 0;
-    batIndex.reserve(nBat);
+    int64_t max = 0;
     data += 76;
     for (int i = 0; i < ::min(109, nBat); ++i) {
         int32_t p;
@@ -196,15 +195,23 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
-    if (128*(nBat-1) > max) max = 128*(nBat-1);
+    if (128*((int64_t)nBat-1) > max) max = 128*((int64_t)nBat-1);
 
-    int32_t toread = (max+2)*512;
-    if (input->size() >= 0 && input->size() < toread) {
+    const int64_t needed = (max+2)*512;
+    int32_t toread = 10000000;
+    if (input->size() >= 0) {
+        if (input->size() > INT32MAX) {
+            stream->m_status = Error;
+            stream->m_error = "File is too large.";
+            return;
+        }
+        toread = (int32_t)input->size();
+    }
+    if (toread < needed) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
     size = input->read(data, toread, toread);
     input->reset(0);
     if (size != input->size()) {
@@ -213,18 +220,27 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
             = string("File cannot be read completely: ")+input->error();
         return;
     }
+    if (size < needed) {
+        stream->m_status = Error;
+        stream->m_error = "File is incomplete.";
+        return;
+    }
     maxindex = size/512-2;
 
     // read any remaining BAT entries from XBAT blocks
-    xBatOffset = 512 + 512 * xBatOffset;
-    for (int j = 0; j < nXBat; ++j) {
+    for (int j = 0; j < nXBat && (int)batIndex.size() < nBat; ++j) {
+        if (xBatOffset < 0 || xBatOffset > maxindex) {
+            stream->m_status = Error;
+            stream->m_error = "Invalid OLE file.";
+            return;
+        }
+        xBatOffset = 512 + 512 * xBatOffset;
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
             if (!readInt32(4*i + xBatOffset, p)) { return; }
             batIndex.push_back(p);
         }
         if (!readInt32(508 + xBatOffset, xBatOffset)) { return; }
-        xBatOffset = 512 + 512 * xBatOffset;
     }
 
     // print all bat blocks
@@ -240,7 +256,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0 && sBatOffset <= maxindex
+            && sbatIndex.size() < 1000) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -256,7 +273,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     // read the info for the root entry
     currentDataBlock = (1+ptOffset)*512 + 0x74;
     if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    while (currentDataBlock >= 0 && currentDataBlock <= maxindex
+            && sbatbIndex.size() < 16000) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
@@ -281,7 +299,11 @@ OleInputStream::Private::nextBlock(int32_t in) {
         fprintf(stderr, "error 5: input block out of range %i\n", in);
         return -4;
     }
-    bid = batIndex[bid]+1;
+    bid = batIndex[bid];
+    if (bid < 0 || bid > maxindex) {
+        return -4;
+    }
+    bid++;
     int32_t next = in%128*4;
     next += 512*bid;
     if (next < 0 || size - 4 < next) {
-- 
2.43.0


From bee17135037005cd90b390772c87c5e581fd175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 052/118] fix: destroying a process stream ends its process and
 signals no other

---
 lib/processinputstream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..95e292a 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -63,9 +63,17 @@ ProcessInputStream::~ProcessInputStream() {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        // give the process a second before it is forced to end
+        for (int i = 0; i < 1000 && waitpid(pid, &status, WNOHANG) == 0; ++i) {
+            if (i == 999) {
+                kill(pid, SIGKILL);
+                waitpid(pid, &status, 0);
+            } else {
+                usleep(1000);
+            }
+        }
     }
     const char* const* p = args;
     while (*p) {
-- 
2.43.0


From 2de33b7d4d01f0f624167d83fdced2166555fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 053/118] fix: a process that cannot be started does not output
 the parent's buffers

---
 lib/processinputstream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 95e292a..17cca31 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -152,8 +152,8 @@ ProcessInputStream::runCmd() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the output buffers inherited from the parent
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
     fdout = p[0];
@@ -187,8 +187,8 @@ ProcessInputStream::runCmdWithInput() {
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the output buffers inherited from the parent
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
-- 
2.43.0


From cda478a7f3bc84670b8dfafe5576de26f088dc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 054/118] fix: pipes of a process stream are not inherited by
 other processes

---
 lib/processinputstream.cpp | 41 ++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 17cca31..0dcc3d5 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,6 +20,7 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -35,6 +36,25 @@ using namespace Strigi;
 extern char **environ;
 #endif
 
+// create a pipe that is not inherited by processes that are started later:
+// with the writing end open in there, the end of the data would not be seen
+static int
+createPipe(int p[2]) {
+    if (pipe(p) == -1) return -1;
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+    return 0;
+}
+// let the process that is being started use fd as its descriptor target
+static void
+inherit(int fd, int target) {
+    if (fd == target) {
+        fcntl(fd, F_SETFD, 0);
+    } else {
+        dup2(fd, target);
+    }
+}
+
 ProcessInputStream::ProcessInputStream(const vector<string>& a,
         InputStream* input) {
     this->input = input;
@@ -130,7 +150,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
 void
 ProcessInputStream::runCmd() {
     int p[2];
-    if (pipe(p) == -1) {
+    if (createPipe(p) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
         return;
     }
@@ -145,10 +165,8 @@ ProcessInputStream::runCmd() {
     
     if (pid == 0) {
         // define the output to be written into p[1]
-        dup2(p[1], 1);
-        // close p[0], because this process will not read from it
+        inherit(p[1], 1);
         close(0);
-        close(p[0]);
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
@@ -162,10 +180,16 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
+    if (createPipe(pin) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
         return;
     }
+    if (createPipe(pout) == -1) {
+        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        close (pin[0]);
+        close (pin[1]);
+        return;
+    }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
@@ -179,11 +203,8 @@ ProcessInputStream::runCmdWithInput() {
  
     if (pid == 0) {
         // define the output to be written into p[1]
-        dup2(pin[0], 0);
-        dup2(pout[1], 1);
-        // close p[0], because this process will not read from it
-        close(pin[1]);
-        close(pout[0]);
+        inherit(pin[0], 0);
+        inherit(pout[1], 1);
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-- 
2.43.0


From 6f8317b456e58f58b6a2e657d4a523d7c023b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 055/118] fix: a process stream without a process is in the
 error state

---
 lib/processinputstream.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 0dcc3d5..28bca4c 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -76,10 +76,10 @@ ProcessInputStream::ProcessInputStream(const vector<string>& a,
     }
 }
 ProcessInputStream::~ProcessInputStream() {
-    if (fdin > 0) {
+    if (fdin >= 0) {
         close(fdin);
     }
-    if (fdout > 0) {
+    if (fdout >= 0) {
         close(fdout);
     }
     if (pid != -1) {
@@ -131,7 +131,7 @@ ProcessInputStream::writeToPipe() {
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
-    if (fdout <= 0) return -1;
+    if (fdout < 0) return -1;
     if (input && input->status() == Ok) {
         writeToPipe();
     }
@@ -143,7 +143,7 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     if (n <= 0) {
         close(fdout);
-        fdout = 0;
+        fdout = -1;
     }
     return (int32_t)n;
 }
@@ -152,12 +152,16 @@ ProcessInputStream::runCmd() {
     int p[2];
     if (createPipe(p) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -182,10 +186,14 @@ ProcessInputStream::runCmdWithInput() {
     int pout[2];
     if (createPipe(pin) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     if (createPipe(pout) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         return;
@@ -194,6 +202,8 @@ ProcessInputStream::runCmdWithInput() {
     if( (pid=fork()) == -1) {
         /* something went wrong */
         fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
-- 
2.43.0


From 990cfb8f305a6d73015dc0ee32503e5f412391c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:04 +0000
Subject: [PATCH 056/118] fix: a process gets its complete input while its
 output is read

---
 lib/processinputstream.cpp | 86 +++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 19 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 28bca4c..e27c3a5 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -21,6 +21,7 @@
 #include <strigi/strigiconfig.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -101,49 +102,95 @@ ProcessInputStream::~ProcessInputStream() {
     }
     delete [] args;
 }
+// write without being killed by SIGPIPE if the process does not read anymore
+static ssize_t
+writeNoSignal(int fd, const char* b, size_t n) {
+    sigset_t pipeset, oldset, pending;
+    sigemptyset(&pipeset);
+    sigaddset(&pipeset, SIGPIPE);
+    sigpending(&pending);
+    const bool wasPending = sigismember(&pending, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &pipeset, &oldset);
+    ssize_t m;
+    do {
+        m = write(fd, b, n);
+    } while (m < 0 && errno == EINTR);
+    const int e = errno;
+    if (m < 0 && e == EPIPE && !wasPending) {
+        // remove the signal caused by this write
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE)) {
+            int sig;
+            sigwait(&pipeset, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &oldset, 0);
+    errno = e;
+    return m;
+}
 void
 ProcessInputStream::writeToPipe() {
     // read from the inputstream
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
-        if (input->status() == Error) {
-            m_status = Error;
-            m_error = input->error();
-            n = 0;
+    if (n > 0) {
+        // write into the pipe as much as it can take now
+        ssize_t m = writeNoSignal(fdin, b, n);
+        if (m == n) return;
+        if (m < 0 && errno == EAGAIN) {
+            m = 0;
         }
-        // close the pipe if no more output is available
-        input = 0;
-        close(fdin);
-        fdin = -1;
-    } else {
-        // write into the pipe
-        ssize_t m = write(fdin, b, n);
-        if (m < 0) {
+        if (m >= 0) {
+            // the rest is written later
+            input->reset(pos + m);
+            return;
+        }
+        if (errno != EPIPE) {
             m_error = strerror(errno);
             m_status = Error;
-            input = 0;
-        } else if (m != n) {
-            input->reset(pos+n);
         }
+        // with EPIPE the process does not want more input
+    } else if (input->status() == Error) {
+        m_status = Error;
+        m_error = input->error();
     }
+    // close the pipe since there is no more input
+    input = 0;
+    close(fdin);
+    fdin = -1;
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout < 0) return -1;
-    if (input && input->status() == Ok) {
+    // write the input until there is output
+    while (input) {
+        struct pollfd fds[2];
+        fds[0].fd = fdout;
+        fds[0].events = POLLIN;
+        fds[1].fd = fdin;
+        fds[1].events = POLLOUT;
+        fds[0].revents = fds[1].revents = 0;
+        if (poll(fds, 2, -1) < 0) {
+            if (errno == EINTR) continue;
+            break;
+        }
+        if (fds[0].revents) break;
         writeToPipe();
+        if (m_status == Error) return -1;
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
-        n = -2;
     }
     if (n <= 0) {
         close(fdout);
         fdout = -1;
+        return -1;
     }
     return (int32_t)n;
 }
@@ -225,4 +272,5 @@ ProcessInputStream::runCmdWithInput() {
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
+    fcntl(fdin, F_SETFL, fcntl(fdin, F_GETFL) | O_NONBLOCK);
 }
-- 
2.43.0


From d53a93c8fe883b3a00f1c209f0fcd25d2bfa7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 057/118] fix: molecules are complete and found regardless of
 size and position

---
 include/strigi/sdfinputstream.h |  1 -
 lib/sdfinputstream.cpp          | 72 ++++++++++++++++++---------------
 2 files changed, 40 insertions(+), 33 deletions(-)

diff --git a/include/strigi/sdfinputstream.h b/include/strigi/sdfinputstream.h
index e4af8d6..fd086de 100644
--- a/include/strigi/sdfinputstream.h
+++ b/include/strigi/sdfinputstream.h
@@ -33,7 +33,6 @@ class STREAMS_EXPORT SdfInputStream : public SubStreamProvider {
 private:
     SubInputStream* substream;
     int32_t entrynumber;
-    int64_t previousStartOfDelimiter;
     KmpSearcher m_searcher;
     static const std::string delimiter;
     static const std::string label;
diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..16d1eb0 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -31,8 +31,7 @@ const string SdfInputStream::delimiter("$$$$");
 const string SdfInputStream::label("V2000");
 
 SdfInputStream::SdfInputStream(InputStream* input)
-        : SubStreamProvider(input), substream(0), entrynumber(0),
-        previousStartOfDelimiter(0) {
+        : SubStreamProvider(input), substream(0), entrynumber(0) {
     m_searcher.setQuery(delimiter);
 }
 SdfInputStream::~SdfInputStream() {
@@ -82,38 +81,37 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
     int32_t nread = 0;
 
     // read anything that's left over in the previous substream
     if (substream) {
-        substream->reset(0);
         const char* dummy;
         while (substream->status() == Ok) {
             substream->read(dummy, 1, 0);
         }
         if (substream->status() == Error) {
             m_status = Error;
+            m_error = substream->error();
         }
-        if (substream && substream != m_entrystream) {
+        if (substream != m_entrystream) {
             delete substream;
         }
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
-    
+        if (m_status == Error) return 0;
+
         // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
-                }
+        nread = m_input->read(dummy, 4, 4);
+        if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
+            int64_t next;
+            do {
+                next = m_input->position();
+                nread = m_input->read(dummy, 1, 1);
+            } while (nread == 1 && (*dummy == '\n' || *dummy == '\r'));
+            if (nread == 1) {
+                // this character belongs to the next molecule
+                m_input->reset(next);
             }
         }
     }
@@ -123,23 +121,34 @@ SdfInputStream::nextEntry() {
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
     const char* start;
     const char* end;
-    int32_t total = 0;
     const int64_t pos = m_input->position();
-    int64_t len=0;
-    
-    while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
-        if (nread > 0) {
-            end = m_searcher.search(start, nread);
-            if (end) {
-                len = end - start + total;
-                break;
-            }
-            total += nread;
-        }    
-    }    
+    int32_t len = 0;
+    // the molecule is read at once, because only the last read can be undone
+    int32_t toread = 1024;
+    int32_t searched = 0;
+
+    while (true) {
+        nread = m_input->read(start, toread, 0);
+        if (nread < 1) break;
+        end = m_searcher.search(start + searched, nread - searched);
+        if (end) {
+            len = (int32_t)(end - start);
+            break;
+        }
+        if (nread < toread) break;
+        if (nread > 0x3fffffff) {
+            m_status = Error;
+            m_error = "Molecule is too large.";
+            return 0;
+        }
+        // the delimiter may start in the last bytes
+        searched = nread - (int32_t)delimiter.length() + 1;
+        toread = 2 * nread;
+        m_input->reset(pos);
+    }
     if (m_input->status() == Error) {
         m_status = Error;
+        m_error = m_input->error();
         m_entrystream = 0;
         return 0;
     }
@@ -149,7 +158,6 @@ SdfInputStream::nextEntry() {
     if (len > 0) {
         // this stream is an SD
         substream = new SubInputStream(m_input, len);
-        previousStartOfDelimiter = m_input->position() + len;
         m_entryinfo.type = EntryInfo::File;
         m_entryinfo.size = len;
 
-- 
2.43.0


From 3ed69235d12b9c3ef8883e1ba6b7384626f3ede0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 058/118] fix: unfolding mail headers only removes the line
 ends

---
 lib/mailinputstream.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..f0b19f0 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -187,11 +187,16 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
 
             // continue after the quoted data
             s = p = end + 2;
-        } else if (e-s > 3 && s[0] == 13 && s[1] == 10
+        } else if (e-s > 2 && s[0] == 13 && s[1] == 10
                 && (s[2] == 9 || s[2] == 32)) {
-            // skip the CRLF WSP used for folding the header lines
+            // skip the CRLF used for folding the header lines
             decoded.append(p, s-p);
-            s = p = s + 4;
+            s = p = s + 2;
+        } else if (e-s > 1 && (s[0] == 10 || s[0] == 13)
+                && (s[1] == 9 || s[1] == 32)) {
+            // skip the single character used as line end
+            decoded.append(p, s-p);
+            s = p = s + 1;
         } else {
             s++;
         }
-- 
2.43.0


From 749a278b859257a69f8a402e518318f16d3021de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 059/118] fix: short mail headers are not ignored

---
 lib/mailinputstream.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index f0b19f0..c199230 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -526,9 +526,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
     if (len < 2) return;
-    if (len < 8) {
-        return;
-    } else if (strncasecmp(linestart, subject, 8) == 0) {
+    if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
         while (offset < len && isspace(linestart[offset])) offset++;
         m->m_subject = decoder.decodedHeaderValue(linestart+offset, len-offset);
-- 
2.43.0


From 7f03646ebb13dca879190307a6c7384da5f39264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 060/118] fix: an empty line ends the mail header even if a
 space follows

---
 lib/mailinputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index c199230..893042e 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -418,7 +418,7 @@ MailInputStream::Private::readHeaderLine() {
                 } else if (state == 1) { // '\r'
                     if (c == '\n') {
                         state = 3;
-                    } else if (c == '\r' || !isspace(c)) { // end
+                    } else if (c == '\r' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -426,7 +426,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
-- 
2.43.0


From 18b09753bfef84068a4ea4fe6ef5f7e7353684ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 061/118] fix: encoded words in mail headers do not influence
 each other

---
 lib/mailinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 893042e..46cb472 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -87,6 +87,8 @@ Decoder::decode(const string& enc, string& data) {
     if (olen > 0) {
         char* out = buffer;
         char* mem = out;
+        // forget the state a previous, incomplete text may have left
+        iconv(conv, 0, 0, 0, 0);
         size_t r = iconv(conv, &in, &ilen, &out, &olen);
         if (r != (size_t)-1) {
             data.assign(mem, out-mem);
-- 
2.43.0


From 8813a50c4a6b7b0b6e406323d80c102d98a14e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 062/118] fix: no data is no mail header

---
 lib/mailinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 46cb472..67c69ee 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -216,6 +216,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
  **/
 bool
 MailInputStream::checkHeader(const char* data, int32_t datasize) {
+    if (datasize <= 0) return false;
 
     /**
      * Describes the possible states the parser can be in.
-- 
2.43.0


From 33752eb6afad1a27a4fa06b1d827f3c60a732c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 063/118] fix: the content of mail parts starts right after the
 header

---
 lib/mailinputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 67c69ee..210336d 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -609,10 +609,11 @@ MailInputStream::Private::handleBodyLine() {
     if (boundary.size() > n) {
         return false;
     }
-    readHeaderLine();
     if (m->m_status != Ok) {
         return false;
     }
+    // the content starts after the header
+    m->m_input->reset(nextLineStartPosition);
 
     // get the filename
     m->m_entryinfo.filename = value("filename", m_contentdisposition);
@@ -653,6 +654,8 @@ MailInputStream::nextEntry() {
     if (p->boundary.size() == 0) {
         // signal eof because we only return eof once
         m_status = Eof;
+        // the body starts after the empty line
+        m_input->reset(p->nextLineStartPosition);
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
-- 
2.43.0


From 9b516c39ad81744162a83db8d553696103f60cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 064/118] fix: a mail may start anywhere in the input

---
 lib/mailinputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 210336d..e27efc8 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -351,7 +351,7 @@ public:
 MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     substream = 0;
     entrynumber = 0;
-    nextLineStartPosition = 0;
+    nextLineStartPosition = m->m_input->position();
 }
 MailInputStream::Private::~Private() {
     if (substream && substream != m->m_entrystream) {
-- 
2.43.0


From 30850218873be1423b464dae2e9b1b0cadce7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 065/118] fix: an error while reading a mail is not its end

---
 lib/mailinputstream.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index e27efc8..bcbddef 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -390,6 +390,11 @@ MailInputStream::Private::readHeaderLine() {
     m->m_input->reset(nextLineStartPosition);
     do {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
+        if (m->m_input->status() == Error) {
+            m->m_status = Error;
+            m->m_error = m->m_input->error();
+            return;
+        }
         if (nread < linepos+1) {
             completeLine = true;
             lineend = linestart + nread;
@@ -397,11 +402,7 @@ MailInputStream::Private::readHeaderLine() {
             return;
         }
         m->m_input->reset(nextLineStartPosition);
-        if (m->m_input->status() == Error) {
-            m->m_status = Error;
-            m->m_error = m->m_input->error();
-            return;
-        } else if (linepos >= maxlinesize) {
+        if (linepos >= maxlinesize) {
             // error line is too long
             m->m_status = Error;
             ostringstream out;
@@ -493,6 +494,7 @@ void
 MailInputStream::Private::scanBody() {
     while (m->m_status == Ok) {
         readHeaderLine();
+        if (m->m_status != Ok) break;
         int32_t len = (int32_t)(lineend - linestart);
         if (len > 2 && strncmp("--", linestart, 2) == 0) {
             int32_t blen = (int32_t)boundary.top().length();
@@ -668,6 +670,7 @@ MailInputStream::nextEntry() {
         }
         if (p->substream->status() == Error) {
             m_status = Error;
+            m_error = p->substream->error();
         } else {
             p->nextLineStartPosition = p->substream->offset()
                 + p->substream->size();
@@ -685,7 +688,7 @@ MailInputStream::nextEntry() {
     }
     p->scanBody();
 
-    if (m_entrystream == 0) {
+    if (m_entrystream == 0 && m_status == Ok) {
         m_status = Eof;
     }
     p->ensureFileName();
-- 
2.43.0


From c929d6b931e8458c37348e602a51313c147fc422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 066/118] fix: an archive member is not opened by a name that
 only starts with its name

---
 lib/archivereader.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..0da870b 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -252,17 +252,16 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
         }
         // let sn point to the trailing part of the url
         const char* sn = url.c_str() + *i;
-        size_t len = url.length();
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
         substream = provider->currentEntry();
         do {
             const EntryInfo& e = provider->entryInfo();
-            // check that the filename matches at least one entry
-            if (e.type == EntryInfo::File
-                    && e.filename.length() < len
-                    && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
+            // check that the filename matches at least one complete part
+            const size_t nlen = e.filename.length();
+            if (e.type == EntryInfo::File && nlen > 0
+                    && strncmp(e.filename.c_str(), sn, nlen) == 0
+                    && (sn[nlen] == '\0' || sn[nlen] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + e.filename.length();
-- 
2.43.0


From 5c8f0136ab67a9ac3cc3c6ab3f6487cb94445e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 067/118] fix: copies and assignments of DirListers count their
 references

---
 lib/archivereader.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 0da870b..35d49a2 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -40,7 +40,7 @@ private:
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
 public:
-    const std::string url;
+    std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -51,14 +51,22 @@ public:
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
+    Private(const Private& a)
+            :pos(a.pos), entries(a.entries), listing(a.listing),
+            entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     void operator=(const Private& a) {
+        if (this == &a) return;
         pos = a.pos;
         entries = a.entries;
+        // a may hold the last reference that keeps its listing alive
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
@@ -130,7 +138,7 @@ ArchiveReader::DirLister::nextEntry(EntryInfo& e) {
 const ArchiveReader::DirLister&
 ArchiveReader::DirLister::operator=(const DirLister& a) {
     *p = *a.p;
-    return a;
+    return *this;
 }
 
 /** Private data members and functions for ArchiveReader */
-- 
2.43.0


From 65fff816266da71abc70b7bc00b0727a8aff07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 068/118] fix: entries of an archive stay valid while a
 DirLister uses them

---
 lib/archiveentrycache.h   |  9 +++++++--
 lib/archivereader.cpp     | 12 ++++++++----
 lib/listinginprogress.cpp |  2 +-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/archiveentrycache.h b/lib/archiveentrycache.h
index 5c61f83..73fa5a0 100644
--- a/lib/archiveentrycache.h
+++ b/lib/archiveentrycache.h
@@ -54,16 +54,21 @@ public:
     class RootSubEntry : public SubEntry {
     public:
         /** Constructor */
-        RootSubEntry() :SubEntry() {}
+        RootSubEntry() :SubEntry(), indexed(false), refcount(1) {}
+        /** The cache and listings in progress can share this entry. */
+        void ref() { refcount++; }
+        void unref() { if (--refcount == 0) delete this; }
         /** Whether this entry and its subentries have been indexed yet */
         bool indexed;
         const SubEntry* findEntry(const std::string& rootpath,
             const std::string& url) const;
+    private:
+        int refcount;
     };
     ~ArchiveEntryCache() {
        std::map<std::string, RootSubEntry*>::const_iterator i;
        for (i = cache.begin(); i != cache.end(); ++i) {
-           delete i->second;
+           i->second->unref();
        }
     }
     /**
diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 35d49a2..2078778 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -337,8 +337,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
                 }
                 // the file has changed: it is removed from the cache
                 ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
-                delete rse;
+                cache.cache.erase(url);
+                rse->unref();
             }
 
             // The file exists, but is it an archive?
@@ -473,8 +473,12 @@ ArchiveReader::dirEntries(const std::string& url) {
 
     if (lip) {
         if (lip->isDone()) {
-            p->cache.cache[lip->url] = lip->root;
-            lip->root = 0;
+            // DirListers may still use the listing and its entries
+            lip->root->ref();
+            ArchiveEntryCache::RootSubEntry*& root
+                = p->cache.cache[lip->url];
+            if (root) root->unref();
+            root = lip->root;
             p->listingsInProgress.erase(lip->url);
             if (lip->unref()) delete lip;
         } else {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..44252bc 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -179,7 +179,7 @@ ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
     }
-    delete root;
+    root->unref();
     delete stream;
 }
 void
-- 
2.43.0


From a18bc234f7aa6b46908e58ed2cebfad9b1051ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 069/118] fix: the children of a directory are kept when its
 own entry comes later

---
 lib/listinginprogress.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 44252bc..79f8c9a 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -64,7 +64,23 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    ArchiveEntryCache::SubEntry*& known = parent->entries[name];
+    if (known == NULL) {
+        known = se;
+        return;
+    }
+    // the entry is already known, it may have been created as a directory:
+    // keep its children and take over the information
+    known->entry = se->entry;
+    ArchiveEntryCache::SubEntryMap::iterator j;
+    for (j = se->entries.begin(); j != se->entries.end(); ++j) {
+        ArchiveEntryCache::SubEntry*& c = known->entries[j->first];
+        if (c == NULL) {
+            c = j->second;
+            j->second = NULL;
+        }
+    }
+    delete se;
 }
 }
 
-- 
2.43.0


From e95579cb50186adbbaa994a4ba2a3bb0ec36b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 070/118] fix: deeply nested archives are listed within the
 bounds of the stack

---
 lib/listinginprogress.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 79f8c9a..17bbbbe 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -28,6 +28,8 @@ using namespace Strigi;
 using namespace std;
 
 namespace {
+/** Maximal depth of archives in archives that is listed. **/
+const int maxdepth = 32;
 /**
  * Add the entry @p se to the cache.
  * The filename of @p se contains the complete path.
@@ -215,8 +217,8 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
@@ -224,7 +226,9 @@ ListingInProgress::nextEntry(int depth) {
         // create a child entry
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
-        ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
+        // archives can contain themselves, so there must be a limit
+        ce->p = (depth < maxdepth)
+            ?subStreamProvider(subs, e->p->currentEntry(), ce->streams) :0;
         if (ce->p) {
             // the child has substreams too
             ce->entry->entry.type
-- 
2.43.0


From 00aff6c5d59b5ae48c46947588cc9cad3d32f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 071/118] fix: a plain file is not an archive

---
 lib/archivereader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 2078778..b50035f 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -426,7 +426,8 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    // an archive is a file that is also a directory
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
-- 
2.43.0


From 372788f6156b0b234eefe69a93a7c0f66bdd6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 072/118] fix: listings that are not finished are released,
 those of plain files are finished

---
 lib/listinginprogress.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 17bbbbe..7acf57c 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -197,6 +197,10 @@ ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
     }
+    // the entries of unfinished archives do not belong to the root yet
+    for (int i=1; i<=currentdepth; ++i) {
+        delete stack[i].entry;
+    }
     root->unref();
     delete stream;
 }
@@ -291,5 +295,5 @@ ListingInProgress::nextEntry(const ArchiveEntryCache::SubEntry* entry) {
 }
 bool
 ListingInProgress::isDone() const {
-    return stream == NULL;
+    return currentdepth < 0;
 }
-- 
2.43.0


From d1cc0e24597167ff813453cacf587a5f2675f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 073/118] fix: recognition of archives in archives does not
 depend on how they are delivered

---
 lib/listinginprogress.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 7acf57c..c933c23 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -133,7 +133,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 16, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
@@ -166,8 +166,8 @@ subStreamProvider(const Subs& subs, InputStream* input,
             }
             // even though the header was good, this stream has no substream
             delete ss;
-            s->reset(0);
-            n = s->read(c, 1, 0);
+            if (s->reset(0) != 0) break;
+            n = s->read(c, 1024, 0);
             s->reset(0);
         }
     }
-- 
2.43.0


From a95ba2b57337ad69879c509631d0999d83bd9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 074/118] fix: the body of a mail is a file

---
 lib/mailinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index bcbddef..c8cb4b2 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -660,6 +660,7 @@ MailInputStream::nextEntry() {
         m_input->reset(p->nextLineStartPosition);
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
+        m_entryinfo.type = EntryInfo::File;
         return m_entrystream;
     }
     // read anything that's left over in the previous stream
-- 
2.43.0


From 8b68ddf08237d147bbe50c5b60d4a4f7b1d2c7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:30 +0000
Subject: [PATCH 075/118] fix: choosing a provider does not print bytes behind
 the header

---
 lib/substreamproviderprovider.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..c8d0b34 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,18 +38,14 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From 4c2308a2c05582420d132549cb333cb62d21515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 076/118] fix: a directory is not opened as a file

---
 lib/filestreamopener.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/filestreamopener.cpp b/lib/filestreamopener.cpp
index a4a07ff..befe2ff 100644
--- a/lib/filestreamopener.cpp
+++ b/lib/filestreamopener.cpp
@@ -36,6 +36,11 @@ using namespace Strigi;
 
 InputStream*
 FileStreamOpener::openStream(const string& url) {
+    // directories can be opened, but they are no files
+    struct stat s;
+    if (::stat(url.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) {
+        return 0;
+    }
     InputStream* stream = new FileInputStream(url.c_str());
     if (stream->status() != Ok) {
         delete stream;
-- 
2.43.0


From 9fdf61e64becb7721371974035b15eeb3974de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 077/118] fix: an ar archive may start at any position of its
 stream

---
 include/strigi/arinputstream.h | 2 ++
 lib/arinputstream.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 3834cbe..e075dcd 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -28,6 +28,8 @@ class STREAMS_EXPORT ArInputStream : public SubStreamProvider {
 private:
     // information relating to the current entry
     std::string gnufilenames;
+    // entries are aligned relative to the start of the archive
+    int64_t startposition;
 
     bool readHeader();
 public:
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 496b423..c8d905e 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -33,7 +33,7 @@ ArInputStream::checkHeader(const char* data, int32_t datasize) {
     return ok;
 }
 ArInputStream::ArInputStream(InputStream* input)
-        : SubStreamProvider(input) {
+        : SubStreamProvider(input), startposition(input->position()) {
     // check header
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
@@ -72,7 +72,7 @@ ArInputStream::readHeader() {
     int32_t toread;
     int32_t nread;
 
-    int64_t pos = m_input->position();
+    int64_t pos = m_input->position() - startposition;
     if (pos%2) {
         m_input->skip(1);
     }
-- 
2.43.0


From fba58f1b38e17d33b129dc186c29ff28492c74c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 078/118] fix: the format chosen for a stream does not depend
 on how much a read returns

---
 lib/substreamproviderprovider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index c8d0b34..78cadac 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -33,7 +33,7 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     // read the header
     const char* header;
     int64_t pos = input->position();
-    int32_t headersize = input->read(header, 1024, 0);
+    int32_t headersize = input->read(header, 1024, 1024);
     input->reset(pos);
     if (headersize <= 0) {
         return 0;
-- 
2.43.0


From 8156b155319f5a832ce462b0c3fe6b7507a6bf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:12 +0000
Subject: [PATCH 079/118] fix: LZMA data of known size ends where its code
 ends, however it arrives

---
 lib/lzmainputstream.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 57004b9..eb702ba 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -141,7 +141,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     SizeT inProcessed = avail_in;
     ELzmaFinishMode finishMode = LZMA_FINISH_ANY;
     int64_t bytesTodo = p->m_size - bytesDecompressed;
-    if (p->m_size != -1 && outProcessed > (SizeT)bytesTodo) {
+    if (p->m_size != -1 && outProcessed >= (SizeT)bytesTodo) {
         outProcessed = (SizeT)bytesTodo;
         finishMode = LZMA_FINISH_END;
     }
@@ -152,6 +152,21 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     avail_in -= (int32_t)inProcessed;
     next_in += (int32_t)inProcessed;
     bytesDecompressed += outProcessed;
+    while (res == SZ_OK && finishMode == LZMA_FINISH_END
+            && outProcessed == outSpace
+            && status == LZMA_STATUS_NEEDS_MORE_INPUT) {
+        // all data is there, but not yet the end of the compressed data
+        readFromStream();
+        if (p->m_status != Ok) {
+            return -1;
+        }
+        SizeT none = 0;
+        inProcessed = avail_in;
+        res = LzmaDec_DecodeToBuf(&state, (Byte*)start, &none,
+            (const Byte*)next_in, &inProcessed, finishMode, &status);
+        avail_in -= (int32_t)inProcessed;
+        next_in += (int32_t)inProcessed;
+    }
     if (res != SZ_OK) {
         ostringstream str;
         str << "error decompressing dicsize: " << props.dicSize
-- 
2.43.0


From b85dae05de73057ffb2815272aeead9dd28fabbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 080/118] fix: an archive that stores an SD file is not taken
 for one

---
 lib/sdfinputstream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16d1eb0..750043f 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -42,8 +42,8 @@ SdfInputStream::~SdfInputStream() {
 /**
  * Return a pointer that points past the current line. The line can end on
  * either \r, \n, or \r\n.
- * If the pointer would point past then end of the buffer or the line is longer
- * than 80 bytes, NULL is returned.
+ * If the pointer would point past then end of the buffer, the line is longer
+ * than 80 bytes or it is no text, NULL is returned.
  **/
 const char*
 skip80Line(const char* data, int32_t size) {
@@ -52,6 +52,7 @@ skip80Line(const char* data, int32_t size) {
     int max = min(size, 81);
     int i;
     for (i=0; i<max && data[i] != '\n' && data[i] != '\r'; ++i) {
+        if (data[i] == '\0') return 0;
     }
     if (i == max) return 0;
     if (data[i] == '\n') return (i+1 < size) ?data+i+1 :0;
-- 
2.43.0


From 207e1b44b9e00fe8c0a7f5339681c6d1be72b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:49 +0000
Subject: [PATCH 081/118] fix: read an OLE document from where its stream
 stands

---
 lib/oleinputstream.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 6a0f8eb..f0acc16 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -167,13 +167,14 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         :entrystream(new OleEntryStream(this)), stream(s) {
     currentTableBlock = -1;
     // read start
+    const int64_t offset = input->position();
     size = input->read(data, 512, 512);
     if (size != 512) {
         stream->m_status = Error;
         stream->m_error = "File is too small.";
         return;
     }
-    input->reset(0);
+    input->reset(offset);
 
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
@@ -200,12 +201,12 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     const int64_t needed = (max+2)*512;
     int32_t toread = 10000000;
     if (input->size() >= 0) {
-        if (input->size() > INT32MAX) {
+        if (input->size() - offset > INT32MAX) {
             stream->m_status = Error;
             stream->m_error = "File is too large.";
             return;
         }
-        toread = (int32_t)input->size();
+        toread = (int32_t)(input->size() - offset);
     }
     if (toread < needed) {
         stream->m_status = Error;
@@ -213,8 +214,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     size = input->read(data, toread, toread);
-    input->reset(0);
-    if (size != input->size()) {
+    input->reset(offset);
+    if (size < 0 || offset + size != input->size()) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
-- 
2.43.0


From fc34384a16402e291afe64a027d79158c18071c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 082/118] fix: a name with a NUL in an archive does not make
 the lookup read past the url

---
 lib/archivereader.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index b50035f..cca42a8 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -258,8 +258,6 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             free(streams);
             return 0;
         }
-        // let sn point to the trailing part of the url
-        const char* sn = url.c_str() + *i;
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
         substream = provider->currentEntry();
@@ -268,8 +266,9 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             // check that the filename matches at least one complete part
             const size_t nlen = e.filename.length();
             if (e.type == EntryInfo::File && nlen > 0
-                    && strncmp(e.filename.c_str(), sn, nlen) == 0
-                    && (sn[nlen] == '\0' || sn[nlen] == '/')) {
+                    && url.compare(*i, nlen, e.filename) == 0
+                    && (*i + nlen == url.length()
+                        || url[*i + nlen] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + e.filename.length();
-- 
2.43.0


From 0d0beb133094c8caac2c9777e16480440b164bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:01 +0000
Subject: [PATCH 083/118] fix: an unbuffered file does not take memory for a
 limit far behind its end

---
 lib/skippingfileinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 5fd81ac..bd5ee40 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -94,6 +94,10 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     int32_t n = max(_min, _max);
     if (_max <= 0) {
         n = max(1024, max(buffersize, _min));
+    } else if (_max > _min) {
+        // the limit may lie far behind the end: do not take memory for that
+        const int64_t left = (m_size == -1) ?1048576 :m_size - m_position + 1;
+        if (n > left) n = (int32_t)max((int64_t)_min, left);
     }
     if (n > buffersize) {
         if (_max <= 0) {
-- 
2.43.0


From 3a5169e764d22a3b13c67151b15a4f912e72acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:20 +0000
Subject: [PATCH 084/118] fix: an ar archive is not taken for a tar file

---
 lib/tarinputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 32b0ee5..ae918f0 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -65,6 +65,10 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
         // header is too small to check
         return false;
     }
+    // this is how an ar archive starts, whatever comes after it
+    if (strncmp(h, "!<arch>\n", 8) == 0) {
+        return false;
+    }
     // the file starts with a filename of at most 100 characters. The filename
     // is ended by a \0, after this \0 only \0 is allowed
     int p = 0;
-- 
2.43.0


From 1942435f4f8d50460cec76bf71a37abf9529dd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:20 +0000
Subject: [PATCH 085/118] fix: a cpio archive starts with a whole header, not
 only with its magic number

---
 lib/cpioinputstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 7bb5309..8f45e9f 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -22,6 +22,7 @@
 #include <strigi/subinputstream.h>
 
 #include <list>
+#include <cctype>
 #include <cstring>
 
 using namespace std;
@@ -32,8 +33,13 @@ const char unsigned* CpioInputStream::magic = (const char unsigned *)"070701";
 bool
 CpioInputStream::checkHeader(const char* data, int32_t datasize) {
     if (datasize < 6) return false;
-    // this check could be more strict
     bool ok = memcmp(data, magic, 6) == 0;
+    // time, size and length of the name are hexadecimal numbers
+    for (int32_t i = 46; ok && i < 102 && i < datasize; ++i) {
+        if (i < 62 || i >= 94) {
+            ok = isxdigit((unsigned char)data[i]) != 0;
+        }
+    }
     return ok;
 }
 CpioInputStream::CpioInputStream(InputStream* input)
-- 
2.43.0


From edc041a04c8b0e6a64b4ce780cdc62879b7aafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:06 +0000
Subject: [PATCH 086/118] fix: data with NUL in its first line is not taken for
 a mail

---
 lib/mailinputstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index c8cb4b2..cd54bb9 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -248,6 +248,7 @@ MailInputStream::checkHeader(const char* data, int32_t datasize) {
      */
 
     MessageParserState currentState = InHeaderNameField;
+    bool firstLine = true;
 
     int pos = 0;
     while (pos < datasize) {
@@ -275,6 +276,12 @@ MailInputStream::checkHeader(const char* data, int32_t datasize) {
                 // is not CHAR
                 return false;
             }
+            if (currentChar == '\r' || currentChar == '\n') {
+                firstLine = false;
+            } else if (firstLine && currentChar == '\0') {
+                // a line of a mail header has no NUL
+                return false;
+            }
             break;
         case MaybeOnNewLine:
             if (currentChar == '\n') {
-- 
2.43.0


From 9333f55f09477606b73a2a7bcfa329fe6bcb0386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 087/118] fix: quoted values in mail headers may contain
 semicolons

The value ended at the first ';' even inside the quotes, and white space
between the closing quote and the ';' was taken as part of the value.
---
 lib/mailinputstream.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index cd54bb9..161d59c 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -472,7 +472,19 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     }
     v += nl;
     v += strspn(v, "= \n\r");
-    const char* vend = strchr(v, ';');
+    const char* vend = 0;
+    if (*v == '"') {
+        // a quoted value ends after its closing quote and may contain ';'
+        vend = v + 1;
+        while (*vend && *vend != '"') {
+            if (*vend == '\\' && vend[1]) vend++;
+            vend++;
+        }
+        vend = *vend ? vend + 1 : 0;
+    }
+    if (vend == 0) {
+        vend = strchr(v, ';');
+    }
     if (vend == 0) {
         vend = hl + headerline.length();
     }
-- 
2.43.0


From 8439c848a27ae4de861fb4ca8a6b9044d138784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:59 +0000
Subject: [PATCH 088/118] fix: an unbuffered file of unknown size is not
 skipped beyond its end

Files that say to be empty (as in /proc) have no known size. Seeking behind
their end succeeded or was an error; now the end is found by reading.
---
 lib/skippingfileinputstream.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index bd5ee40..70ffdeb 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -138,6 +138,21 @@ SkippingFileInputStream::reset(int64_t pos) {
          m_status = Error;
          return -2; // error
     }
+    if (m_size == -1 && pos > m_position) {
+        // the end is not known: it is only found by reading up to it
+        char dummy[1024];
+        while (m_position < pos && m_size == -1) {
+            const size_t n = (size_t)min(pos - m_position, (int64_t)sizeof(dummy));
+            const size_t nr = fread(dummy, 1, n, file);
+            if (ferror(file)) {
+                m_status = Error;
+                m_error = "Could not read from file '" + filepath + "'.";
+                return -2;
+            }
+            m_position += nr;
+            if (nr != n) m_size = m_position;
+        }
+    }
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
         m_status = Error;
-- 
2.43.0


From b9b83b84bde20afeef98a50b94cdedeafdcc59f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:51 +0000
Subject: [PATCH 089/118] fix: invalid ar headers are errors

The end of the header was not looked at, and a size that is no number was
taken as 0, so that damaged headers were listed as members.
---
 lib/arinputstream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index c8d905e..b0e8f17 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -95,6 +95,14 @@ ArInputStream::readHeader() {
         m_status = Error;
         return true;
     }
+    // a header ends with "`\n" and its size is a number
+    const size_t digit = std::string(b+48, 10).find_first_not_of(' ');
+    if (std::memcmp(b+58, "`\n", 2) != 0 || digit == std::string::npos
+            || b[48+digit] < '0' || b[48+digit] > '9') {
+        m_error = "Invalid ar header.";
+        m_status = Error;
+        return true;
+    }
     // a name ends at a slash, which allows spaces in it, or at a space
     int len;
     for (len=0; len<16 && b[len] != '/' && b[len] != '\0'; len++) {}
-- 
2.43.0


From 8f3f5b9d93be49021bc40744791be8ced43796b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 090/118] fix: the base64 tables are filled once, also with
 several threads

---
 lib/base64inputstream.cpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 526b11a..d123c9c 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -48,24 +48,27 @@ const unsigned char alphabet[]
     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 bool inalphabet[256];
 unsigned char decoder[133];
-bool initializedAlphabet = false;
 void initialize();
 string decode(const char* in, string::size_type length);
 
 
+static bool
+fillArrays() {
+    // initialize the translation arrays
+    for (int i=64; i<256; ++i) {
+        inalphabet[i] = 0;
+    }
+    for (unsigned char i=0; i<64; ++i) {
+        inalphabet[alphabet[i]] = true;
+        decoder[alphabet[i]] = i;
+    }
+    return true;
+}
 void
 initialize() {
-    if (!initializedAlphabet) {
-        initializedAlphabet = true;
-        // initialize the translation arrays
-        for (int i=64; i<256; ++i) {
-            inalphabet[i] = 0;
-        }
-        for (unsigned char i=0; i<64; ++i) {
-            inalphabet[alphabet[i]] = true;
-            decoder[alphabet[i]] = i;
-        }
-    }
+    // the arrays are filled once, also when several threads come here first
+    static const bool initialized = fillArrays();
+    (void)initialized;
 }
 
 Base64InputStream::Base64InputStream(InputStream* i) 
-- 
2.43.0


From e0c8c13a87090c89fc058aeb875a5154a73174d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:07 +0000
Subject: [PATCH 091/118] fix: dos times are converted without the shared
 result of localtime()

---
 lib/dostime.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 373e294..a1f2046 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -34,18 +34,16 @@
  * min<<5       (min is tm_min, 0-59)
  * sec>>1       (sec is tm_sec, 0-59, that's right, we throw away the LSB)
  *
- * DOS uses local time, so the localtime() call is used to turn the time_t
- * into a struct tm.
+ * DOS uses local time, so mktime() is used to turn the struct tm into a
+ * time_t.
  */
 
 time_t
 dos2unixtime (unsigned long dostime)
 {
-  struct tm ltime;
-  time_t now = time (NULL);
-
-  /* Call localtime to initialize timezone in TIME.  */
-  ltime = *localtime (&now);
+  /* The result of localtime() is shared by all threads, so it is not used
+     here.  mktime() initializes the timezone by itself.  */
+  struct tm ltime = tm ();
 
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
-- 
2.43.0


From 8f70d20bf77edd258254a95a6728aeb6bf973426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 092/118] fix: the lzma error names the dictionary size that
 was read

---
 lib/lzmainputstream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index eb702ba..d46a348 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -31,7 +31,6 @@ using namespace std;
 class LZMAInputStream::Private {
 public:
     LZMAInputStream* const p;
-    CLzmaProps props;
     CLzmaDec state;
     InputStream *input;
     const char* next_in;
@@ -169,7 +168,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     }
     if (res != SZ_OK) {
         ostringstream str;
-        str << "error decompressing dicsize: " << props.dicSize
+        str << "error decompressing dicsize: " << state.prop.dicSize
             << " size: " << p->m_size
             << " decompressed: " << bytesDecompressed;
         p->m_error = str.str();
-- 
2.43.0


From 471e5a472cf8c71719048114e7eeacd5728c6db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:39 +0000
Subject: [PATCH 093/118] fix: the pipes of a process are not inherited by one
 that another thread starts

---
 lib/processinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index e27c3a5..7177b64 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -41,10 +41,15 @@ extern char **environ;
 // with the writing end open in there, the end of the data would not be seen
 static int
 createPipe(int p[2]) {
+#ifdef __linux__
+    // also not by a process that another thread starts at this moment
+    return pipe2(p, O_CLOEXEC);
+#else
     if (pipe(p) == -1) return -1;
     fcntl(p[0], F_SETFD, FD_CLOEXEC);
     fcntl(p[1], F_SETFD, FD_CLOEXEC);
     return 0;
+#endif
 }
 // let the process that is being started use fd as its descriptor target
 static void
-- 
2.43.0


From 8f4f01aa771d2162a23bfe4d7d7d920e0e09e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:49 +0000
Subject: [PATCH 094/118] fix: a zip archive ends only at its central
 directory, not at any other signature

---
 lib/zipinputstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index d594b10..b4c253a 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -183,10 +183,15 @@ ZipInputStream::readHeader() {
     }
     // check the second half of the signature
     if (hb[2] != 0x03 || hb[3] != 0x04) {
-        // this may be the start of the central file header
-        if (hb[2] != 0x01 || hb[3] != 0x02) {
+        // this may be the start of the central file header, or of what comes
+        // before it or, if there are no files, instead of it
+        if ((hb[2] != 0x01 || hb[3] != 0x02) && (hb[2] != 0x05 || hb[3] != 0x06)
+                && (hb[2] != 0x06 || (hb[3] != 0x06 && hb[3] != 0x08))) {
             fprintf(stderr, "This code in a zip file is strange: %x %x %x %x\n",
                 hb[0], hb[1], hb[2], hb[3]);
+            m_status = Error;
+            m_error = "Error: wrong zip signature.";
+            return;
         }
         m_status = Eof;
         return;
-- 
2.43.0


From 97b3f005c46a638a77304f0035487f2005165c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 095/118] fix: a tar header without a name is an error, not the
 end

---
 lib/tarinputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ae918f0..224fcb4 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -142,8 +142,8 @@ TarInputStream::parseEntryHeader() {
 
     size_t len = std::strlen(hb);
     if (len == 0) {
-        // ready
-        m_status = Eof;
+        m_status = Error;
+        m_error = "Invalid tar header: the name is empty.\n";
         return true;
     }
     if (len > 100) len = 100;
-- 
2.43.0


From cb48c91eb279bafeea93bde7f936b8b9ca494ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:39 +0000
Subject: [PATCH 096/118] fix: attributes of mail headers are found by their
 whole name, outside of quotes

---
 lib/mailinputstream.cpp | 48 ++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 161d59c..7aec689 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -459,28 +459,56 @@ MailInputStream::Private::readHeaderLine() {
     } while (!completeLine);
     nextLineStartPosition += linepos;
 }
+// returns the position behind the quoted string that starts at v, 0 if it does
+// not end
+static const char*
+endOfQuotedString(const char* v) {
+    ++v;
+    while (*v && *v != '"') {
+        if (*v == '\\' && v[1]) v++;
+        v++;
+    }
+    return *v ? v + 1 : 0;
+}
+// returns the position of the '=' of the attribute with this name, 0 if there
+// is none
+static const char*
+findAttribute(const char* header, const char* name) {
+    const size_t nl = strlen(name);
+    bool start = true;
+    bool quotes = true;
+    for (const char* v = header; *v; ++v) {
+        if (*v == '"' && quotes) {
+            // a quoted value may contain anything
+            const char* end = endOfQuotedString(v);
+            if (end) {
+                v = end - 1;
+            } else {
+                quotes = false;
+            }
+        } else if (start && strncasecmp(v, name, nl) == 0) {
+            const char* eq = v + nl;
+            eq += strspn(eq, " \t\n\r");
+            if (*eq == '=') return eq;
+        }
+        start = *v == ';' || isspace((unsigned char)*v);
+    }
+    return 0;
+}
 string
 MailInputStream::Private::value(const char* n, const string& headerline) const {
-    size_t nl = strlen(n);
     string value;
     // get the value
     const char* hl = headerline.c_str();
-    const char* v = strcasestr(hl, n);
+    const char* v = findAttribute(hl, n);
     if (v == 0) {
-        // so far we just scan for a value attribute
         return value;
     }
-    v += nl;
     v += strspn(v, "= \n\r");
     const char* vend = 0;
     if (*v == '"') {
         // a quoted value ends after its closing quote and may contain ';'
-        vend = v + 1;
-        while (*vend && *vend != '"') {
-            if (*vend == '\\' && vend[1]) vend++;
-            vend++;
-        }
-        vend = *vend ? vend + 1 : 0;
+        vend = endOfQuotedString(v);
     }
     if (vend == 0) {
         vend = strchr(v, ';');
-- 
2.43.0


From 729a81bc2bf497e68e3dc3b538b9cdc4d67976f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:52 +0000
Subject: [PATCH 097/118] fix: ArchiveReader forgets the listing of a file that
 changed or was removed

---
 lib/archivereader.cpp | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index cca42a8..4e86bee 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -175,6 +175,12 @@ public:
      * @return 0 on success, -1 if the url was not found
      */
     int localStat(const std::string& url, EntryInfo& e);
+    /**
+     * @brief Forget what is known about the physical file that contains @p url
+     * if that file has changed or was removed.
+     */
+    void dropChanged(const std::string& url);
+    bool isChanged(const std::string& url, const EntryInfo& known) const;
     ArchiveReaderPrivate();
     ~ArchiveReaderPrivate();
     ListingInProgress* findListingInProgress(const string& url) const;
@@ -306,9 +312,37 @@ ArchiveReader::ArchiveReaderPrivate::open(const string& url) const {
     }
     return stream;
 }
+bool
+ArchiveReader::ArchiveReaderPrivate::isChanged(const std::string& url,
+        const EntryInfo& known) const {
+    list<StreamOpener*>::const_iterator i;
+    for (i = openers.begin(); i != openers.end(); ++i) {
+        EntryInfo e;
+        if ((*i)->stat(url, e) == 0) {
+            return e.mtime != known.mtime || e.size != known.size;
+        }
+    }
+    return true;
+}
+void
+ArchiveReader::ArchiveReaderPrivate::dropChanged(const std::string& url) {
+    const ArchiveEntryCache::RootCache::const_iterator c
+        = cache.findRootEntry(url);
+    if (c != cache.cache.end() && isChanged(c->first, c->second->entry)) {
+        c->second->unref();
+        cache.cache.erase(c);
+    }
+    // DirListers that use the old listing keep it alive
+    ListingInProgress* lip = findListingInProgress(url);
+    if (lip && isChanged(lip->url, lip->root->entry)) {
+        listingsInProgress.erase(lip->url);
+        if (lip->unref()) delete lip;
+    }
+}
 int
 ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
         EntryInfo& e) {
+    dropChanged(url);
     // try with the supplied streamOpeners
     list<StreamOpener*>::const_iterator i;
     for (i = openers.begin(); i != openers.end(); ++i) {
@@ -440,6 +474,7 @@ convert(const ArchiveEntryCache::SubEntry* entry) {
 }
 ArchiveReader::DirLister
 ArchiveReader::dirEntries(const std::string& url) {
+    p->dropChanged(url);
     // find the entry in the cache
     const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
 
-- 
2.43.0


From 60fd1ecb0eb00ff1e587688c036d0165ddb3b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:53 +0000
Subject: [PATCH 098/118] fix: white space between adjacent encoded words of
 mail headers is not text

---
 lib/mailinputstream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 7aec689..c494202 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -149,6 +149,8 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
     const char* s = v;
     const char* p = v;
     const char* e = s + len;
+    // the size of the decoded text up to the end of the last encoded word
+    string::size_type wordend = string::npos;
     while (s < e) {
         if (e-s > 8 && *s == '=' && s[1] == '?') {
             // start of encoded data, find the next position of '?','?' and '?='
@@ -165,6 +167,11 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             }
             // save the stuff from before the encoding
             decoded.append(p, s-p);
+            // white space between encoded words is not part of the text
+            if (wordend != string::npos && decoded.find_first_not_of(" \t",
+                    wordend) == string::npos) {
+                decoded.resize(wordend);
+            }
             s += 2;
             q1++;
             q2++;
@@ -189,6 +196,7 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
 
             // continue after the quoted data
             s = p = end + 2;
+            wordend = decoded.size();
         } else if (e-s > 2 && s[0] == 13 && s[1] == 10
                 && (s[2] == 9 || s[2] == 32)) {
             // skip the CRLF used for folding the header lines
-- 
2.43.0


From 935c39721fb22bf55303be48ba13a649cf49da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:55 +0000
Subject: [PATCH 099/118] fix: blanks behind a mail boundary line are transport
 padding

---
 lib/mailinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index c494202..e15493b 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -552,6 +552,8 @@ MailInputStream::Private::scanBody() {
         if (m->m_status != Ok) break;
         int32_t len = (int32_t)(lineend - linestart);
         if (len > 2 && strncmp("--", linestart, 2) == 0) {
+            // blanks may have been added to the line when it was transported
+            while (isblank(linestart[len-1])) len--;
             int32_t blen = (int32_t)boundary.top().length();
             if (len == blen + 4 && strncmp(linestart + 2 + blen, "--", 2) == 0
                     && strncmp(linestart + 2, boundary.top().c_str(), blen)
-- 
2.43.0


From 57fd2540d2e5b428400e68a5cac2316f4f29f82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:56 +0000
Subject: [PATCH 100/118] fix: values of mail attributes may have blanks
 around, escapes inside or be empty

---
 lib/mailinputstream.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index e15493b..c8d4df8 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -512,7 +512,7 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     if (v == 0) {
         return value;
     }
-    v += strspn(v, "= \n\r");
+    v += strspn(v, "= \t\n\r");
     const char* vend = 0;
     if (*v == '"') {
         // a quoted value ends after its closing quote and may contain ';'
@@ -524,8 +524,16 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     if (vend == 0) {
         vend = hl + headerline.length();
     }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
+    // blanks in front of the ';' do not belong to the value
+    while (vend > v && isspace((unsigned char)vend[-1])) --vend;
+    if (*v == '"' && vend-v >= 2) {
+        for (++v; v < vend-1; ++v) {
+            // a quote or backslash in a quoted value has a backslash in front
+            if (*v == '\\' && (v[1] == '"' || v[1] == '\\') && v+1 < vend-1) {
+                ++v;
+            }
+            value.append(1, *v);
+        }
     } else {
         value.assign(v, vend-v);
     }
-- 
2.43.0


From b7e65f5a0928f1a87f5d338c410154a7fac2c701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 101/118] fix: a truncated bzip2 or LZMA stream tells what is
 wrong, decompressors tell the error of their input

---
 lib/bz2inputstream.cpp  | 9 +++++++--
 lib/gzipinputstream.cpp | 7 ++++++-
 lib/lzmainputstream.cpp | 5 +++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index 8d23e06..a78ebad 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -57,7 +57,9 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
-        p->m_error = "Magic bytes for bz2 are wrong.";
+        if (p->m_error.empty()) {
+            p->m_error = "Magic bytes for bz2 are wrong.";
+        }
         p->m_status = Error;
         this->input = NULL;
         return;
@@ -101,6 +103,9 @@ BZ2InputStream::Private::checkMagic() {
 
     int64_t pos = input->position();
     nread = input->read(begin, 10, 0);
+    if (nread < -1) {
+        p->m_error = input->error();
+    }
     input->reset(pos);
     if (nread < 10) {
         return false;
@@ -114,7 +119,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
diff --git a/lib/gzipinputstream.cpp b/lib/gzipinputstream.cpp
index e07045f..48649d0 100644
--- a/lib/gzipinputstream.cpp
+++ b/lib/gzipinputstream.cpp
@@ -53,7 +53,9 @@ GZipInputStream::Private::Private(GZipInputStream* gi,
 
     // check first bytes of stream before allocating buffer
     if (format == GZIPFORMAT && !checkMagic()) {
-        p->m_error = "Magic bytes for gz are wrong.";
+        if (p->m_error.empty()) {
+            p->m_error = "Magic bytes for gz are wrong.";
+        }
         p->m_status = Error;
         return;
     }
@@ -116,6 +118,9 @@ GZipInputStream::Private::checkMagic() {
 
     int64_t pos = input->position();
     nread = input->read(begin, 2, 2);
+    if (nread < -1) {
+        p->m_error = input->error();
+    }
     input->reset(pos);
     if (nread != 2) {
         return false;
diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index d46a348..521586d 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -85,7 +85,8 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
         p->m_size = readLittleEndianInt64(data + LZMA_PROPS_SIZE);
     }
     if (res != SZ_OK || p->m_size < -1) {
-        p->m_error = "LZMA header is not supported.";
+        p->m_error = (nread < -1) ?input->error()
+            :"LZMA header is not supported.";
         p->m_status = Error;
         return;
     }
@@ -109,7 +110,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From 701fbfcbd972c838e43f281a9e88acfaee720e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 102/118] fix: the tar stream tells the error of its input

---
 lib/tarinputstream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 224fcb4..4ecf554 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -56,6 +56,9 @@ TarInputStream::readHeader() {
     // the input may be at its end after delivering the last block
     if (nread != 512) {
         m_status = (m_input->status() == Eof) ?Eof :Error;
+        if (m_status == Error) {
+            m_error = m_input->error();
+        }
     }
     return begin;
 }
@@ -103,8 +106,10 @@ TarInputStream::parseEntryHeader() {
 
     hb = readHeader();
     if (m_status) {
+        if (m_status != Error) {
+            m_error = "Premature end of file.";
+        }
         m_status = Error;
-        m_error = "Premature end of file.";
         return true;
     }
     // a tar file should end with at least 2 blocks of '\0' bytes
@@ -163,8 +168,10 @@ TarInputStream::parseEntryHeader() {
         }
         hb = readHeader();
         if (m_status) {
+            if (m_status != Error) {
+                m_error = "Premature end of file.";
+            }
             m_status = Error;
-            m_error = "Premature end of file.";
             return true;
         }
         if (!checkHeader(hb, 257)) {
@@ -256,7 +263,7 @@ TarInputStream::readLongLink(const char *b) {
     if (nread != toread) {
             m_status = Error;
             m_error = "Error reading LongLink: ";
-            if (nread == -1) {
+            if (m_input->status() == Error) {
                 m_error += m_input->error();
             } else {
                 m_error += " premature end of file.";
-- 
2.43.0


From 9c8f35aac8709e45e95948255d2a43543ce2fe38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 103/118] fix: the zip stream tells the error of its input

---
 lib/zipinputstream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index b4c253a..c80fd28 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -106,7 +106,8 @@ ZipInputStream::nextEntry() {
                 }
                 if (n != 4) {
                     m_status = Error;
-                    m_error = "No valid data descriptor after entry data.";
+                    m_error = (m_input->status() == Error) ?m_input->error()
+                        :"No valid data descriptor after entry data.";
                     return 0;
                 }
             }
@@ -163,7 +164,7 @@ ZipInputStream::readHeader() {
     }
     if (nread != toread) {
         m_error = "Error reading zip header: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -247,7 +248,7 @@ ZipInputStream::readFileName(int32_t len) {
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
         m_error = "Error reading filename: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
-- 
2.43.0


From 9b30ddb2a0ba4eda6a94b4f5d7a5ca6f705dcebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 104/118] fix: the cpio stream tells the error of its input

---
 lib/cpioinputstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 8f45e9f..6ea9751 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -92,7 +92,7 @@ CpioInputStream::readHeader() {
         }
         m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -126,7 +126,12 @@ CpioInputStream::readHeader() {
     toread = filenamesize + namepadding;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_error = "Error reading cpio entry name.";
+        m_error = "Error reading cpio entry name: ";
+        if (m_input->status() == Error) {
+            m_error += m_input->error();
+        } else {
+            m_error += " premature end of file.";
+        }
         m_status = Error;
         return;
     }
-- 
2.43.0


From 83e537f5657d2cfe7b188a197ea58f294209819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 105/118] fix: the rpm stream tells the error of its input

---
 lib/rpminputstream.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 243df60..2c09e43 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -51,6 +51,11 @@ validHeaderSizes(int32_t nindex, int32_t hsize) {
     // limits that rpm itself has too
     return nindex >= 0 && nindex <= 0xffff && hsize >= 0 && hsize <= 0x10000000;
 }
+// what went wrong is known by the input if that is what failed
+static const char*
+errorText(InputStream* input, const char* text) {
+    return (input->status() == Error) ?input->error() :text;
+}
 RpmInputStream::RpmInputStream(InputStream* input)
         : SubStreamProvider(input), headerinfo(0) {
     uncompressionStream = NULL;
@@ -61,14 +66,14 @@ RpmInputStream::RpmInputStream(InputStream* input)
     const char* b;
     // lead:96 bytes
     if (m_input->read(b, 96, 96) != 96) {
-        m_error = "File is too small to be an RPM file.";
+        m_error = errorText(m_input, "File is too small to be an RPM file.");
         return;
     }
 
     // read signature
     const unsigned char headmagic[] = {0x8e,0xad,0xe8,0x01};
     if (m_input->read(b, 16, 16) != 16 || memcmp(b, headmagic, 4)!=0) {
-        m_error = "m_error in signature\n";
+        m_error = errorText(m_input, "m_error in signature\n");
         return;
     }
     int32_t nindex = readBigEndianInt32(b+8);
@@ -82,13 +87,13 @@ RpmInputStream::RpmInputStream(InputStream* input)
         sz+=8-sz%8;
     }
     if (sz > 0 && m_input->skip(sz) != sz) {
-        m_error = "RPM seems to be truncated or corrupted.";
+        m_error = errorText(m_input, "RPM seems to be truncated or corrupted.");
         return;
     }
 
     // read header
     if (m_input->read(b, 16, 16) != 16 || memcmp(b, headmagic, 4)!=0) {
-        m_error = "m_error in header\n";
+        m_error = errorText(m_input, "m_error in header\n");
         return;
     }
     nindex = readBigEndianInt32(b+8);
@@ -99,7 +104,7 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t size = nindex*16;
     if (size > 0 && m_input->read(b, size, size) != size) {
-        m_error = "could not read header\n";
+        m_error = errorText(m_input, "could not read header\n");
         return;
     }
     for (int32_t i=0; i<nindex; ++i) {
@@ -130,13 +135,13 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
 
     if (hsize > 0 && m_input->skip(hsize) != hsize) {
-        m_error = "could not read header\n";
+        m_error = errorText(m_input, "could not read header\n");
         return;
     }
 
     int64_t pos = m_input->position();
     if (m_input->read(b, 16, 16) != 16) {
-        m_error =  "could not read payload\n";
+        m_error = errorText(m_input, "could not read payload\n");
         return;
     }
     m_input->reset(pos);
-- 
2.43.0


From 7576790f20fb1ae17d54ea35b560c2eb6a392212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 106/118] fix: errors of ar and OLE streams have a text

---
 lib/arinputstream.cpp  | 8 ++++++--
 lib/oleinputstream.cpp | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index b0e8f17..5a17e2c 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -38,6 +38,8 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        m_error = (input->status() == Error) ?input->error()
+            :"Magic bytes for ar are wrong.";
     }
 }
 ArInputStream::~ArInputStream() {
@@ -131,7 +133,8 @@ ArInputStream::readHeader() {
             while (left > 0) {
                 nread = m_input->read(b, 1, (left > 65536) ?65536 :(int32_t)left);
                 if (nread < 1) {
-                    m_error = "premature end of stream";
+                    m_error = (m_input->status() == Error)
+                        ?m_input->error() :"premature end of stream";
                     m_status = Error;
                     return true;
                 }
@@ -142,7 +145,8 @@ ArInputStream::readHeader() {
         } else if (b[1] == ' ' || std::memcmp(b, "/SYM64/", 7) == 0) {
             if (m_entryinfo.size > 0
                     && m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
-                m_error = "premature end of stream";
+                m_error = (m_input->status() == Error)
+                    ?m_input->error() :"premature end of stream";
                 m_status = Error;
                 return true;
             }
diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index f0acc16..a44cef2 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -114,6 +114,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
+            m_error = "Invalid small block of an OLE stream.";
             fprintf(stderr, "error in small blocks\n");
 	    return -1;
         }
@@ -143,6 +144,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
             if (parent->currentDataBlock != -2 || done != m_size) {
                 fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid chain of blocks of an OLE stream.";
                 n = -1;
             }
         }
@@ -171,7 +173,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     size = input->read(data, 512, 512);
     if (size != 512) {
         stream->m_status = Error;
-        stream->m_error = "File is too small.";
+        stream->m_error = (size < -1) ?input->error() :"File is too small.";
         return;
     }
     input->reset(offset);
-- 
2.43.0


From 5ffcacd72254cb7c8bb3c28961b633ec23d17fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 107/118] fix: rewinding and ending behind a skip in a
 SkippingFileInputStream2

---
 lib/skippingbufferedstream.h     | 8 ++++++--
 lib/skippingfileinputstream2.cpp | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..62ed99e 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -169,7 +169,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (buffer.readPos >= buffer.start + d && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -181,6 +181,8 @@ template <class T>
 int64_t
 SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     assert(ntoskip >= 0);
+    if (StreamBase<T>::m_status == Error) return -2;
+    if (StreamBase<T>::m_status == Eof) return -1;
     if (ntoskip == 0) return 0;
     if (buffer.avail > ntoskip) {
         buffer.avail -= (int32_t)ntoskip;
@@ -191,6 +193,8 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     int32_t frombuffer = buffer.avail;
     StreamBase<T>::m_position += frombuffer;
     int64_t oldpos = StreamBase<T>::m_position;
+    // what is in the buffer does not lie before the new position
+    buffer.readPos = buffer.start;
     buffer.avail = 0;
     ntoskip -= frombuffer;
     int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
@@ -199,7 +203,7 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
         return -2;
     }
     StreamBase<T>::m_position = oldpos + n;
-    if (n < ntoskip) {
+    if (n < ntoskip && StreamBase<T>::m_status != Error) {
         StreamBase<T>::m_status = Eof;
         if (StreamBase<T>::m_size == -1) {
             StreamBase<T>::m_size = StreamBase<T>::m_position;
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..158eaad 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -116,6 +116,10 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    // there is nothing to seek to if the end is not known
+    if (m_size == -1) return SkippingBufferedInputStream::advanceInput(ntoskip);
+    // seeking is possible beyond the end too
+    if (ntoskip > m_size - m_position) ntoskip = m_size - m_position;
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
-- 
2.43.0


From 658724dc1857a69b40cc2290242cdb5ab47c98eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 108/118] fix: names and error texts do not depend on the C++
 locale

---
 lib/lzmainputstream.cpp | 1 +
 lib/mailinputstream.cpp | 2 ++
 lib/sdfinputstream.cpp  | 1 +
 3 files changed, 4 insertions(+)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 521586d..b5e857b 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -169,6 +169,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     }
     if (res != SZ_OK) {
         ostringstream str;
+        str.imbue(locale::classic());
         str << "error decompressing dicsize: " << state.prop.dicSize
             << " size: " << p->m_size
             << " decompressed: " << bytesDecompressed;
diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index c8d4df8..6d3ecab 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -421,6 +421,7 @@ MailInputStream::Private::readHeaderLine() {
             // error line is too long
             m->m_status = Error;
             ostringstream out;
+            out.imbue(locale::classic());
             out << "mail header line is too long: more than " << linepos
                 << " bytes.";
             m->m_error = out.str();
@@ -708,6 +709,7 @@ MailInputStream::Private::ensureFileName() {
     entrynumber++;
     if (m->m_entryinfo.filename.length() == 0) {
         ostringstream o;
+        o.imbue(locale::classic());
         o << entrynumber;
         m->m_entryinfo.filename = o.str();
     }
diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 750043f..b9fd6fb 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -165,6 +165,7 @@ SdfInputStream::nextEntry() {
         m_entryinfo.filename.assign("Molecule");
         entrynumber++;
         ostringstream o;
+        o.imbue(locale::classic());
         o << entrynumber;
         m_entryinfo.filename.append(o.str());
 
-- 
2.43.0


From 9c8f116b3b0412ce35e0872712e58ac279d1a4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:37 +0000
Subject: [PATCH 109/118] fix: mail header text that is nearly an encoded word
 is not dropped

---
 lib/mailinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 6d3ecab..4aa381c 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -165,6 +165,11 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                 s++;
                 continue;
             }
+            // what is not encoded in a known way is left as it is
+            if (q2 - q1 != 2 || strchr("bBqQ", q1[1]) == 0) {
+                s++;
+                continue;
+            }
             // save the stuff from before the encoding
             decoded.append(p, s-p);
             // white space between encoded words is not part of the text
-- 
2.43.0


From dc1c53977e509981ca55176c64ec3cc4b31f8fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 110/118] fix: zip entries that are encrypted or of an unknown
 method are refused

---
 lib/zipinputstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index c80fd28..5c3d741 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -206,6 +206,16 @@ ZipInputStream::readHeader() {
     entryCompressedSize = readLittleEndianUInt32(hb + 18);
     compressionMethod = readLittleEndianUInt16(hb + 8);
     int32_t generalBitFlags = readLittleEndianUInt16(hb+6);
+    if (generalBitFlags & 1) {
+        m_status = Error;
+        m_error = "Encrypted zip entries are not supported.";
+        return;
+    }
+    if (compressionMethod != 0 && compressionMethod != 8) {
+        m_status = Error;
+        m_error = "The compression method of this zip entry is not supported.";
+        return;
+    }
     if (generalBitFlags & 8) { // is bit 3 set?
         // ohoh, the file size and compressed file size are unknown at this
         // point
-- 
2.43.0


From 6804877a9d1537bd636de384d727959a2e15b8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 111/118] fix: OLE files with other block sizes are refused

---
 lib/oleinputstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index a44cef2..ef1ce30 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -178,6 +178,16 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     }
     input->reset(offset);
 
+    // blocks of other sizes than 512 and 64 bytes are not supported, nor are
+    // short streams that are not those of less than 4096 bytes
+    if (checkHeader(data, size) && (readLittleEndianUInt16(data+0x1e) != 9
+            || readLittleEndianUInt16(data+0x20) != 6
+            || readLittleEndianUInt32(data+0x38) != 4096)) {
+        stream->m_status = Error;
+        stream->m_error = "OLE file with an unsupported block size.";
+        return;
+    }
+
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
-- 
2.43.0


From f996697d9820dbb8336bd13bdfb59d81be8c8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:45 +0000
Subject: [PATCH 112/118] fix: ar members with BSD style names get their name

---
 lib/arinputstream.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 5a17e2c..2ba2abf 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -125,7 +125,23 @@ ArInputStream::readHeader() {
         return true;
     }
     m_entryinfo.mtime = (time_t)readDecimalField(b+16, 12);
-    if (len == 0) {
+    if (std::memcmp(b, "#1/", 3) == 0 && b[3] >= '0' && b[3] <= '9') {
+        // BSD style: the name is longer and stands in front of the data
+        int64_t n = readDecimalField(b+3, 13);
+        if (n < 1 || n > 65536 || n > m_entryinfo.size) {
+            m_error = "Invalid name field.";
+            m_status = Error;
+            return true;
+        }
+        if (m_input->read(b, (int32_t)n, (int32_t)n) != n) {
+            m_error = (m_input->status() == Error)
+                ?m_input->error() :"premature end of stream";
+            m_status = Error;
+            return true;
+        }
+        m_entryinfo.filename.assign(b, strnlen(b, (size_t)n));
+        m_entryinfo.size -= n;
+    } else if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
             gnufilenames.resize(0);
-- 
2.43.0


From 87471f9c91e728e54dd2710c07f9101a3791a89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:03 +0000
Subject: [PATCH 113/118] fix: a memory mapped file without a name is an error,
 not a crash

---
 lib/mmapfileinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index c3c137b..4c08290 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -31,6 +31,12 @@ using namespace Strigi;
 using namespace std;
 
 MMapFileInputStream::MMapFileInputStream(const char* filepath) {
+    if (filepath == 0) {
+        buffer = 0;
+        m_error = "No filename was provided.";
+        m_status = Error;
+        return;
+    }
     int fd = ::open(filepath, O_RDONLY);
     struct stat sb;
     if (fd == -1 || fstat(fd, &sb) == -1) {
-- 
2.43.0


From 06698ba59f948e963e197267a452ccc118bc9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:56 +0000
Subject: [PATCH 114/118] fix: names of ar members may contain directories

---
 lib/arinputstream.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 2ba2abf..7140bca 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -105,16 +105,19 @@ ArInputStream::readHeader() {
         m_status = Error;
         return true;
     }
-    // a name ends at a slash, which allows spaces in it, or at a space
-    int len;
-    for (len=0; len<16 && b[len] != '/' && b[len] != '\0'; len++) {}
-    if (len == 16 || b[len] != '/') {
-        for (len=0; len<16; len++) {
-            char c = b[len];
-            if (c == ' ' || c == '\0') {
-                break;
-            }
-        }
+    // a name is filled up with blanks and may have a slash at its end, which
+    // allows blanks in it; slashes before that belong to it
+    int len = (int)strnlen(b, 16);
+    while (len > 0 && b[len-1] == ' ') {
+        len--;
+    }
+    if (len > 0 && b[0] != '/' && b[len-1] == '/') {
+        len--;
+    }
+    if (len == 0) {
+        m_error = "Invalid name field.";
+        m_status = Error;
+        return true;
     }
 
     // we must copy the fields to safely convert them
@@ -141,7 +144,7 @@ ArInputStream::readHeader() {
         }
         m_entryinfo.filename.assign(b, strnlen(b, (size_t)n));
         m_entryinfo.size -= n;
-    } else if (len == 0) {
+    } else if (b[0] == '/') {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
             gnufilenames.resize(0);
@@ -175,12 +178,12 @@ ArInputStream::readHeader() {
                 return true;
             }
             const char* c = gnufilenames.c_str() + p;
-            const char* e = std::strchr(c, '/');
-            if (e) {
-                m_entryinfo.filename = std::string(c, e-c);
-            } else {
-                m_entryinfo.filename = c;
+            // the name ends with its line
+            size_t n = std::strcspn(c, "\n");
+            if (n > 0 && c[n-1] == '/') {
+                n--;
             }
+            m_entryinfo.filename.assign(c, n);
         }
     } else {
         m_entryinfo.filename = std::string(b, len);
-- 
2.43.0


From 0b694c7b5aedd97b64b876e47add46fd342c2d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:36 +0000
Subject: [PATCH 115/118] fix: the target of a tar link may fill its field

A header with a link target of 100 or more characters has no terminator
after that target, as GNU tar and others write it. Such an archive was
reported to have an invalid header.
---
 lib/tarinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 4ecf554..ed6ab21 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -93,7 +93,9 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
     // check for field values that should be '\0' for the header to be a
     // tar header. Two positions are also accepted if they are ' ' because they
     return !(h[107] || h[115] || h[123] || (h[135]&&h[135]!=' ')
-            || (h[147] && h[147] != ' ') || h[256]);
+            || (h[147] && h[147] != ' ')
+            // only the target of a link may fill its field completely
+            || (h[256] && h[156] != '1' && h[156] != '2'));
 }
 void
 TarInputStream::parseHeader() {
-- 
2.43.0


From 121ac749ff358b6557a6e0da31d5b64f60a36914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:07 +0000
Subject: [PATCH 116/118] fix: an initial './' is skipped in every name of a
 tar archive

It was kept in the names that are in an entry of their own and in those
with a directory in the prefix field, so that the members of one
directory were in two places.
---
 lib/tarinputstream.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ed6ab21..9d13ffd 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -183,21 +183,21 @@ TarInputStream::parseEntryHeader() {
         }
         len = strnlen(hb, 100);
     }
-    if (longName) {
-        // the name in this header is only the start of the long name
-    } else if (memcmp(hb + 257, "ustar", 6) == 0 && hb[345] != '\0') {
-        // the directory part of the name is in the prefix field
-        m_entryinfo.filename.append(hb + 345, strnlen(hb + 345, 155));
-        m_entryinfo.filename.append(1, '/');
+    // with a long name, the name in this header is only the start of it
+    if (!longName) {
+        if (memcmp(hb + 257, "ustar", 6) == 0 && hb[345] != '\0') {
+            // the directory part of the name is in the prefix field
+            m_entryinfo.filename.append(hb + 345, strnlen(hb + 345, 155));
+            m_entryinfo.filename.append(1, '/');
+        }
         m_entryinfo.filename.append(hb, len);
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
+    }
+    if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
         // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
+        if (m_entryinfo.filename.length() == 2) { // skip entry './'
             return false;
         }
-        m_entryinfo.filename.append(hb, 2, len-2);
-    } else {
-        m_entryinfo.filename.append(hb, 0, len);
+        m_entryinfo.filename.erase(0, 2);
     }
 
     // read the file size which is in octal format
-- 
2.43.0


From b76849a30f71c037b177855dc5b31497eb41adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:07 +0000
Subject: [PATCH 117/118] fix: tar archives that start with a label can be read

GNU tar leaves the size of the label (tar -V) empty. The complete archive
was refused because of it.
---
 lib/tarinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 9d13ffd..618ce1e 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -201,7 +201,12 @@ TarInputStream::parseEntryHeader() {
     }
 
     // read the file size which is in octal format
-    m_entryinfo.size = readOctalField(hb, 124);
+    if (hb[156] == 'V') {
+        // the label of an archive has no content and its size may be empty
+        m_entryinfo.size = 0;
+    } else {
+        m_entryinfo.size = readOctalField(hb, 124);
+    }
     if (m_status) return true;
     m_entryinfo.mtime = readOctalField(hb, 136);
     if (m_status) return true;
-- 
2.43.0


From 121a6956251075b4c14f75e1332de7116a876985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:39 +0000
Subject: [PATCH 118/118] fix: archives are recognized by the same bytes
 however they are delivered

The checks were given whatever the stream had at hand, at least 1024 bytes. A
mail with 8 bit data behind these was an archive or not, depending on the
stream. SubStreamProviderProvider has always read exactly 1024 bytes.
---
 lib/listinginprogress.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index c933c23..d584846 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -149,7 +149,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
     } while (foundCompressedStream && nestingDepth++ < 32);
  
     const char* c;
-    int32_t n = s->read(c, 1024, 0);
+    int32_t n = s->read(c, 1024, 1024);
     s->reset(0);
     SubStreamProvider* ss;
     map<bool (*)(const char*, int32_t),
@@ -167,7 +167,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
             // even though the header was good, this stream has no substream
             delete ss;
             if (s->reset(0) != 0) break;
-            n = s->read(c, 1024, 0);
+            n = s->read(c, 1024, 1024);
             s->reset(0);
         }
     }
-- 
2.43.0

