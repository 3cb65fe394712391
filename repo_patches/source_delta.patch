From 82250bc73296ae94a9a13fb132a1b8311e85fe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 001/115] fix: skip the requested amount in StringStream for
 counts that do not fit in 32 bits

---
 include/strigi/stringstream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..c7670b1 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -124,6 +124,9 @@ int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
     const T* start;
+    // the rest of the stream fits in 32 bits, ntoskip does not have to
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left) ntoskip = left;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
 template <class T>
-- 
2.43.0


From ffc9421da4ba82fb53bdbe2344d83d37640fd6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 002/115] fix: do not skip too far in a BufferedStream with an
 empty buffer

---
 include/strigi/bufferedstream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 05f5500..0201fa4 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -181,8 +181,11 @@ BufferedStream<T>::skip(int64_t ntoskip) {
     const T *begin;
     int32_t nread;
     int64_t skipped = 0;
-    while (ntoskip) {
+    while (ntoskip > 0) {
         int32_t step = (int32_t)((ntoskip > buffer.size) ?buffer.size :ntoskip);
+        // the buffer may not have been allocated yet, and a maximum of 0 would
+        // mean that there is no limit on what is read
+        if (step < 1) step = 1;
         nread = read(begin, 1, step);
         if (nread <= 0) {
             return skipped;
-- 
2.43.0


From c1d2545db91bd3e353bef2ada6a2cc69495fa35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 003/115] fix: report end and errors of unbuffered file streams
 as documented

---
 lib/skippingfileinputstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..e3284e8 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -90,6 +90,8 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Error) return -2;
+    if (m_status == Eof) return -1;
     // take a decent buffersize that can hold the request
     int32_t n = max(_min, _max);
     if (_max <= 0) {
@@ -109,12 +111,15 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     m_position = ftell(file);
     if (nr != n) {
         if (ferror(file)) {
+            m_error = "Could not read from file '" + filepath + "'.";
             m_status = Error;
+            return -2;
         } else {
             m_status = Eof;
             if (m_size == -1) {
                 m_size = m_position;
             }
+            if (nr == 0) return -1;
         }
     }
     start = buffer;
@@ -132,8 +137,10 @@ SkippingFileInputStream::reset(int64_t pos) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Error) return -2;
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
+        m_error = "Could not seek in file '" + filepath + "'.";
         m_status = Error;
         return -2;
     }
-- 
2.43.0


From 496ae5b937afb85f6780ad1c2b731cf238c07060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 004/115] fix: handle errors and empty files in memory mapped
 file streams

---
 lib/mmapfileinputstream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..2ada290 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -31,6 +31,12 @@ using namespace Strigi;
 using namespace std;
 
 MMapFileInputStream::MMapFileInputStream(const char* filepath) {
+    if (filepath == 0) {
+        buffer = 0;
+        m_error = "No filename was provided.";
+        m_status = Error;
+        return;
+    }
     int fd = ::open(filepath, O_RDONLY);
     struct stat sb;
     if (fd == -1 || fstat(fd, &sb) == -1) {
@@ -75,6 +81,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (n >= m_size - m_position) {
         m_status = Eof;
         n = (int32_t)(m_size - m_position);
+        if (n == 0) return -1;
     }
     start = buffer + m_position;
     m_position += n;
@@ -82,6 +89,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 42c8412daf3fc81c11634a903033595efeb0191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 005/115] fix: report directories of size 0 as unreadable in
 file streams

---
 lib/fileinputstream.cpp     | 4 ++++
 lib/mmapfileinputstream.cpp | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 820b831..0bf602d 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -76,6 +76,10 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
             } else {
+                if (ferror(file)) {
+                    m_error = "Could not read from file '" + filepath + "'.";
+                    m_status = Error;
+                }
                 fclose(file);
                 file = 0;
                 return;
diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 2ada290..dfb0ba2 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -39,7 +39,12 @@ MMapFileInputStream::MMapFileInputStream(const char* filepath) {
     }
     int fd = ::open(filepath, O_RDONLY);
     struct stat sb;
-    if (fd == -1 || fstat(fd, &sb) == -1) {
+    bool ok = fd != -1 && fstat(fd, &sb) != -1;
+    if (ok && S_ISDIR(sb.st_mode)) {
+        errno = EISDIR;
+        ok = false;
+    }
+    if (!ok) {
         // handle error
         buffer = 0;
         m_error = "Could not read file '";
-- 
2.43.0


From 1c2b1afbec70e2ca4aff32a15f46052e5dbdd7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 006/115] fix: do not skip beyond the end of unbuffered files
 of unknown size

---
 lib/skippingfileinputstream.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index e3284e8..d16bb35 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -127,6 +127,10 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
+    if (m_size < 0) {
+        // the end is not known, so seeking might go beyond it
+        return InputStream::skip(ntoskip);
+    }
     int64_t oldpos = m_position;
     if (reset(m_position + ntoskip) == -2) return -2;
     return m_position - oldpos;
@@ -138,6 +142,10 @@ SkippingFileInputStream::reset(int64_t pos) {
          return -2; // error
     }
     if (m_status == Error) return -2;
+    if (m_size < 0 && pos > m_position) {
+        skip(pos - m_position);
+        return (m_status == Error) ?-2 :m_position;
+    }
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
         m_error = "Could not seek in file '" + filepath + "'.";
-- 
2.43.0


From 220291c6e73a0ed35d625b0c87ce2540a0ca6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 007/115] fix: do not release an uninitialized decompressor
 when the bz2 magic is wrong

---
 lib/bz2inputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..249870b 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -51,6 +51,7 @@ BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
     this->input = input;
+    memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
-- 
2.43.0


From 90773a6579709988b002a21aa5f2f7297c402f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 008/115] fix: give an error message for truncated bz2 streams

---
 lib/bz2inputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index 249870b..0c654ca 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -112,7 +112,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
-- 
2.43.0


From 05967bc17b2c2f2628630c869fe2cdafb5387c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 009/115] fix: accept bz2 streams with empty content

---
 lib/bz2inputstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index 0c654ca..0099ec3 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -40,10 +40,13 @@ bool
 BZ2InputStream::checkHeader(const char* data, int32_t datasize) {
     static const char magic[] = {0x42, 0x5a};
     static const char compressed_magic[] = {0x31, 0x41, 0x59, 0x26, 0x53, 0x59};
+    // a stream without content has no compressed blocks
+    static const char end_magic[] = {0x17, 0x72, 0x45, 0x38, 0x50, (char)0x90};
     if (datasize < 10) return false;
     return (std::memcmp(data, magic, 2) == 0
             && (data[2] == 0x68 || data[2] == 0x30)
-            && std::memcmp(data + 4, compressed_magic, 6) == 0);
+            && (std::memcmp(data + 4, compressed_magic, 6) == 0
+                || std::memcmp(data + 4, end_magic, 6) == 0));
 }
 BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 }
-- 
2.43.0


From 1b96d498ff1dbb26a3ee7de1e15c3aa3c44fce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 010/115] fix: give an error message for truncated LZMA streams

---
 lib/lzmainputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..594f42c 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -107,7 +107,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From 6961cb75a90e338d5df51f3984d5d1f76265c911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 011/115] fix: report the actual dictionary size in LZMA error
 messages

---
 lib/lzmainputstream.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 594f42c..778a121 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -31,7 +31,6 @@ using namespace std;
 class LZMAInputStream::Private {
 public:
     LZMAInputStream* const p;
-    CLzmaProps props;
     CLzmaDec state;
     InputStream *input;
     const char* next_in;
@@ -150,7 +149,7 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     bytesDecompressed += outProcessed;
     if (res != SZ_OK) {
         ostringstream str;
-        str << "error decompressing dicsize: " << props.dicSize
+        str << "error decompressing dicsize: " << state.prop.dicSize
             << " size: " << p->m_size
             << " decompressed: " << bytesDecompressed;
         p->m_error = str.str();
-- 
2.43.0


From 21cf67bc2b2a477ca10cb2d87fe4cc031fbd49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:21 +0000
Subject: [PATCH 012/115] fix: do not require more LZMA input while decoded
 data is pending

---
 lib/lzmainputstream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 778a121..55bf4d6 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -36,6 +36,8 @@ public:
     const char* next_in;
     int32_t avail_in;
     int64_t bytesDecompressed;
+    // false if the decoder can go on without more input
+    bool needsInput;
 
     Private(LZMAInputStream* p, InputStream* i);
     ~Private();
@@ -92,6 +94,7 @@ LZMAInputStream::Private::Private(LZMAInputStream* bis, InputStream* i)
 
     // signal that we need to read into the buffer
     avail_in = 0;
+    needsInput = true;
 
     // set the minimum size for the output buffer
     p->setMinBufSize(262144);
@@ -125,7 +128,7 @@ LZMAInputStream::fillBuffer(char* start, int32_t space) {
 int32_t
 LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
     // make sure there is data to decompress
-    if (avail_in == 0) {
+    if (avail_in == 0 && needsInput) {
         readFromStream();
         if (p->m_status != Ok) {
             // no data was read
@@ -156,7 +159,11 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         p->m_status = Error;
         return -1;
     }
-    if (inProcessed == 0 && outProcessed == 0) {
+    const bool noInput = inProcessed == 0 && avail_in == 0;
+    needsInput = status == LZMA_STATUS_NEEDS_MORE_INPUT;
+    if (noInput && needsInput) {
+        // only now is it clear that more input is required
+    } else if (inProcessed == 0 && outProcessed == 0) {
         if (p->m_size != -1 || status != LZMA_STATUS_FINISHED_WITH_MARK) {
             p->m_error = "unexpected end";
             p->m_status = Error;
-- 
2.43.0


From f4c681eeedaac0d8aa5324e5adc3b751119968a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 013/115] fix: let SubInputStream without a limit know its size
 at the end

---
 lib/subinputstream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..db5181a 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -56,8 +56,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -112,9 +112,13 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) m_position += skipped;
         if (m_position == m_size) {
             m_status = Eof;
+        } else if (m_size == -1 && skipped <= 0) {
+            // without a limit this is the normal end of the stream
+            m_status = Eof;
+            m_size = m_position;
         } else if (skipped <= 0) {
             m_status = Error;
             m_error = "Premature end of stream\n";
-- 
2.43.0


From 837b6e41f7d9ee763a5496db30d0387842147c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 014/115] fix: do not let SubInputStream::reset leave the
 window or hide a short input

---
 lib/subinputstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index db5181a..6e60738 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -80,6 +80,8 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
+    // positions after the end of this stream are outside of the window
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
     m_position = m_input->reset(newpos + m_offset);
     if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
@@ -89,6 +91,14 @@ SubInputStream::reset(int64_t newpos) {
     } else {
         m_position -= m_offset;
         m_status = m_input->status();
+        if (m_status == Eof && m_position != m_size) {
+            if (m_size == -1) {
+                m_size = m_position;
+            } else {
+                // the input is too short, the next read will report that
+                m_status = Ok;
+            }
+        }
     }
     return m_position;
 }
-- 
2.43.0


From eab90fbb0a4f7f6732c9286b5b563ffdc9bbcf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 015/115] fix: keep SubInputStream in error after an error

---
 lib/subinputstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index 6e60738..7717242 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -33,6 +33,7 @@ SubInputStream::SubInputStream(InputStream *i, int64_t length)
 }
 int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         if (left == 0) {
@@ -78,6 +79,7 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
 int64_t
 SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
     // positions after the end of this stream are outside of the window
@@ -104,6 +106,7 @@ SubInputStream::reset(int64_t newpos) {
 }
 int64_t
 SubInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
     if (m_size == m_position) {
         m_status = Eof;
-- 
2.43.0


From 0e7dea091e6fb4e60a1f5a183b2f2ceb79272a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 016/115] fix: handle empty and missing queries in KmpSearcher

---
 include/strigi/kmpsearcher.h | 2 +-
 lib/kmpsearcher.cpp          | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/strigi/kmpsearcher.h b/include/strigi/kmpsearcher.h
index 28d049b..36386dd 100644
--- a/include/strigi/kmpsearcher.h
+++ b/include/strigi/kmpsearcher.h
@@ -38,7 +38,7 @@ private:
     int32_t len;
     int32_t maxlen;
 public:
-    KmpSearcher() :table(0) { }
+    KmpSearcher() :table(0), len(0), maxlen(0) { }
     explicit KmpSearcher(const std::string& query);
     ~KmpSearcher() {
         if (table) {
diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index f3e9983..1e950f3 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -109,6 +109,8 @@ KmpSearcher::setQuery(const string& query) {
         maxlen = len;
     }
 
+    // there is nothing to prepare for an empty query
+    if (len == 0) return;
     preBmGs(p, len, table+256);
     preBmBc(p, len, table);
 }
-- 
2.43.0


From 4f7fa6bd436cfdd8ef125a105bfd8e0d91b86e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 017/115] fix: honour min, max and the end in
 StringTerminatedSubStream::read

---
 lib/stringterminatedsubstream.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..8609ecb 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -37,7 +37,7 @@ public:
     InputStream* m_input;
 
     Private(InputStream* i, const std::string& terminator)
-            : m_offset(i->position()), furthest(0), m_input(i) {
+            : m_offset(i->position()), furthest(m_offset), m_input(i) {
         m_searcher.setQuery(terminator);
     }
 };
@@ -57,17 +57,21 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_status == Eof) return -1;
     if (m_status == Error) return -2;
     int32_t nread;
+    // there is no limit if max is smaller than min
+    if (max < min) max = 0;
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
     nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
+    if (nread > 0 && min <= nread) {
         if (max <= 0 || max > nread) {
             max = nread;
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
-        if (nread > 0) {
+        if (nread < -1) {
+            m_status = Error;
+            m_error = p->m_input->error();
+        } else if (nread > 0) {
             m_position += nread;
             if (m_position == m_size) {
                 m_status = Eof;
@@ -92,6 +96,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -130,6 +135,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
-- 
2.43.0


From 51554a5f2325d1698812092dd8cf40718047465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 018/115] fix: do not let StringTerminatedSubStream::reset go
 past the terminator

---
 lib/stringterminatedsubstream.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 8609ecb..9bb485a 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -141,13 +141,28 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
+    if (m_status == Error) return -2;
+    if (m_size != -1) {
+        // do not go past the terminator
+        if (newpos > m_size) newpos = m_size;
+    } else if (newpos > m_position && newpos + p->m_offset > p->furthest) {
+        // the terminator might come before newpos
+        skip(newpos - m_position);
+        return (m_status == Error) ?-2 :m_position;
+    }
     m_position = p->m_input->reset(newpos + p->m_offset);
     if (m_position >= p->m_offset) {
         m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
+        if (m_size != -1 && m_position > m_size) {
+            // the input could not be reset and is still after the terminator
+            m_position = m_size;
+        } else if (m_position == newpos || m_position != m_size) {
+            m_status = Ok;
+        }
     } else {
         // the stream is not positioned at a valid m_position
         m_status = Error;
+        m_error = p->m_input->error();
         m_position = -1;
     }
     return m_position;
-- 
2.43.0


From 5a2a0abda237d2615fd3b2e435baab12955cce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:54 +0000
Subject: [PATCH 019/115] fix: keep data valid when resetting a
 DataEventInputStream inside known data

---
 lib/dataeventinputstream.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..963a32b 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -91,6 +91,7 @@ DataEventInputStream::skip(int64_t ntoskip) {
         m_status = input->status();
         m_position = input->position();
         m_size = input->size();
+        if (m_status == Error) m_error = input->error();
     } else {
         // we call the default implementation because it calls
         // read() which is required for sending the signals
@@ -101,14 +102,11 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
-        // advance to the new position, using skip ensure we actually read
-        // the files
-        skip(np - m_position);
-        return m_position;
-    }
+    if (m_status == Error) return -2;
+    // do not jump over data that was not reported yet
+    const int64_t target = (totalread != -1 && np > totalread) ?totalread :np;
 //    fprintf(stderr, "DataEventInputStream::reset\n");
-    int64_t newpos = input->reset(np);
+    int64_t newpos = input->reset(target);
     if (newpos < 0) {
         m_status = Error;
         m_error = input->error();
@@ -117,7 +115,12 @@ DataEventInputStream::reset(int64_t np) {
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
-    return newpos;
+    if (newpos >= 0 && newpos < np) {
+        // advance to the new position, using skip ensure we actually read
+        // the files
+        skip(np - newpos);
+    }
+    return m_position;
 }
 void
 DataEventInputStream::finish() {
-- 
2.43.0


From 66c9df84328da610df7b255f0e11020e677155bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 020/115] fix: keep DataEventInputStream at its end or in error
 once there

---
 lib/dataeventinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 963a32b..2b8bb85 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -36,6 +36,8 @@ DataEventInputStream::DataEventInputStream(InputStream *i,
 int32_t
 DataEventInputStream::read(const char*& start, int32_t min, int32_t max) {
 //    fprintf(stderr, "input->position(): %lli\n", input->position());
+    if (m_status == Error) return -2;
+    if (m_status == Eof && finished) return -1;
     int32_t nread = input->read(start, min, max);
 //    fprintf(stderr, "%p pos: %lli min %i max %i nread %i\n", this, m_position, min, max, nread);
     if (nread < -1) {
-- 
2.43.0


From 39b076518d68c2ce8c57b4a7db93044f46857fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 021/115] fix: reject overlong and out of range characters in
 checkUtf8

---
 lib/textutils.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..6bd329d 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,6 +34,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    // the lowest value that needs the length of the current character
+    uint64_t least = 0;
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
@@ -44,6 +46,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             if (--nb == 0) {
                 // check the range of the utf 8 value
                 if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                        // overlong forms and values beyond Unicode
+                        || val < least || val > 0x10FFFF
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     return false;
@@ -52,12 +56,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             nb = 1;
             val = c & 0x1F;
+            least = 0x80;
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
             val = c & 0x0F;
+            least = 0x800;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
             val = c & 0x07;
+            least = 0x10000;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return false;
@@ -86,6 +93,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    // the lowest value that needs the length of the current character
+    uint64_t least = 0;
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
@@ -100,6 +109,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             if (--nb == 0) {
                 // check the range of the utf 8 value
                 if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                        // overlong forms and values beyond Unicode
+                        || val < least || val > 0x10FFFF
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     // nb is 0 to signal an error
@@ -109,14 +120,17 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             cs = p;
             val = c & 0x1F;
+            least = 0x80;
             nb = 1;
         } else if ((0xF0 & c) == 0xE0) {
             cs = p;
             val = c & 0x0F;
+            least = 0x800;
             nb = 2;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
+            least = 0x10000;
             nb = 3;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
-- 
2.43.0


From 689b07c760908f47a3d4d36991d2beaae5a5ba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 022/115] fix: read 64 bits in the 64 bit readers for unsigned
 char

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From 89129fba663edc2b5a3772b6cabad62d8d1facce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 023/115] fix: do not read before an empty base64 string

---
 lib/base64inputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..adbf9e7 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,7 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
+    if (length%4 || length == 0) return d;
     initialize();
     string::size_type words = length/4;
     d.reserve(words*3);
-- 
2.43.0


From 7c4f12aa9975bb00c2495ec7f492b06de3d47663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 024/115] fix: do not pass a missing encoding to iconv_open

---
 lib/encodinginputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..b5f6c90 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -47,7 +47,9 @@ public:
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
-- 
2.43.0


From 56917e9d23567739c376dc40b2e62f9885259fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 025/115] fix: only deliver converted bytes when the output
 space is too small

---
 lib/encodinginputstream.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index b5f6c90..3957fe3 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,10 +40,15 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // converted data that did not fit in the requested space
+    char pending[64];
+    int32_t npending;
+    int32_t pendingPos;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            npending(0), pendingPos(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
@@ -57,6 +62,7 @@ public:
         }
     }
     int32_t decode(char* start, int32_t space);
+    int32_t readPending(char* start, int32_t space);
 };
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
@@ -111,7 +117,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
             break;
         default:
             char tmp[10];
@@ -133,7 +139,18 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     return nwritten;
 }
 int32_t
+EncodingInputStream::Private::readPending(char* start, int32_t space) {
+    int32_t n = (npending > space) ?space :npending;
+    std::memcpy(start, pending + pendingPos, n);
+    pendingPos += n;
+    npending -= n;
+    return n;
+}
+int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    if (p->npending) {
+        return p->readPending(start, space);
+    }
     // fill up charbuf
     if (p->input && p->charbuf.readPos == p->charbuf.start) {
         const char *begin;
@@ -159,6 +176,16 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
         std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
         p->charbuf.avail = numRead + p->charbuf.avail;
     }
+    if (space < (int32_t)sizeof(p->pending)) {
+        // a single character might not fit in this space
+        int32_t n = p->decode(p->pending, sizeof(p->pending));
+        if (n > 0) {
+            p->npending = n;
+            p->pendingPos = 0;
+            n = p->readPending(start, space);
+        }
+        return n;
+    }
     // decode
     int32_t n = p->decode(start, space);
     //printf("decoded %i\n", n);
-- 
2.43.0


From a414fdb877fb8fd17f59b1f39cebd143ca864a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 026/115] fix: deliver the last character when converting from
 stateful encodings

---
 include/strigi/inputstreamreader.h |  1 +
 lib/encodinginputstream.cpp        | 24 +++++++++++++++++++-----
 lib/inputstreamreader.cpp          | 27 +++++++++++++++++++++------
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/include/strigi/inputstreamreader.h b/include/strigi/inputstreamreader.h
index 9ddba16..746070f 100644
--- a/include/strigi/inputstreamreader.h
+++ b/include/strigi/inputstreamreader.h
@@ -46,6 +46,7 @@ private:
     StreamBuffer<char> charbuf;
     void readFromStream();
     int32_t decode(wchar_t* start, int32_t space);
+    int32_t finish(wchar_t* start, int32_t space);
     int32_t fillBuffer(wchar_t* start, int32_t space);
 public:
     /**
diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 3957fe3..a98cd37 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -63,6 +63,7 @@ public:
     }
     int32_t decode(char* start, int32_t space);
     int32_t readPending(char* start, int32_t space);
+    int32_t finish(char* start, int32_t space);
 };
 
 EncodingInputStream::EncodingInputStream(InputStream* s, const char* inenc,
@@ -100,6 +101,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
     char *outbuf = start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -118,6 +120,8 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
             nwritten = (int32_t)(outbuf - start);
+            // convert the rest before reading more data
+            charsLeft = charbuf.avail;
             break;
         default:
             char tmp[10];
@@ -132,12 +136,20 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(outbuf - start);
-        if (input == 0) {
-            finishedEncoding = true;
-        }
     }
     return nwritten;
 }
+// write out the characters that the converter has kept back
+int32_t
+EncodingInputStream::Private::finish(char* start, int32_t space) {
+    finishedEncoding = true;
+    size_t outbytesleft = sizeof(pending);
+    char *outbuf = pending;
+    iconv(converter, 0, 0, &outbuf, &outbytesleft);
+    npending = (int32_t)(outbuf - pending);
+    pendingPos = 0;
+    return (npending == 0) ?-1 :readPending(start, space);
+}
 int32_t
 EncodingInputStream::Private::readPending(char* start, int32_t space) {
     int32_t n = (npending > space) ?space :npending;
@@ -151,8 +163,9 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
     if (p->npending) {
         return p->readPending(start, space);
     }
+    if (p->finishedEncoding) return -1;
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
@@ -169,8 +182,9 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
             if (p->charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            return p->finish(start, space);
         }
         // copy data into other buffer
         std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..9a57423 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -79,6 +79,7 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
     char *outbuf = (char*)start;
     size_t r = iconv(converter, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     int32_t nwritten;
+    charsLeft = 0;
     if (r == (size_t)-1) {
         switch (errno) {
         case EILSEQ: //invalid multibyte sequence
@@ -96,7 +97,9 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+            // convert the rest before reading more data
+            charsLeft = charbuf.avail;
             break;
         default:
             char tmp[10];
@@ -111,16 +114,27 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(((wchar_t*)outbuf) - start);
-        if (input == 0) {
-            finishedDecoding = true;
-        }
     }
     return nwritten;
 }
+// write out the characters that the converter has kept back
+int32_t
+InputStreamReader::finish(wchar_t* start, int32_t space) {
+    size_t outbytesleft = sizeof(wchar_t)*space;
+    char *outbuf = (char*)start;
+    size_t r = iconv(converter, 0, 0, &outbuf, &outbytesleft);
+    int32_t nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+    if (r != (size_t)-1 || nwritten == 0) {
+        finishedDecoding = true;
+    }
+    return (nwritten == 0) ?-1 :nwritten;
+}
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+    if (finishedDecoding) return -1;
+    if (input == 0 && charsLeft == 0) return finish(start, space);
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && charsLeft == 0) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
@@ -137,8 +151,9 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            return finish(start, space);
         }
         // copy data into other buffer
         std::memmove(charbuf.start + charbuf.avail, begin, numRead);
-- 
2.43.0


From d69b28199e578d4b427a687fb0ab0d4344459f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 027/115] fix: send SIGTERM to the child when a
 ProcessInputStream is deleted

---
 lib/processinputstream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..00c535e 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -63,9 +63,10 @@ ProcessInputStream::~ProcessInputStream() {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        while (waitpid(pid, &status , 0) == -1 && errno == EINTR) {
+        }
     }
     const char* const* p = args;
     while (*p) {
-- 
2.43.0


From 47f10ad971b33ef3938f58eea44b322be33b4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 028/115] fix: do not run exit handlers of the parent when a
 command cannot be started

---
 lib/processinputstream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 00c535e..bb6777d 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -146,7 +146,8 @@ ProcessInputStream::runCmd() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the output of the parent
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
     fdout = p[0];
@@ -181,7 +182,8 @@ ProcessInputStream::runCmdWithInput() {
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
         fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the output of the parent
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
-- 
2.43.0


From 771657ad6b8571c740fe88eb1f4b0cb0092e000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 029/115] fix: do not leak pipes into other child processes and
 report failure to start a process

---
 lib/processinputstream.cpp | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index bb6777d..331e92f 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,6 +20,7 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -120,17 +121,30 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     return (int32_t)n;
 }
+// The pipes must not be inherited by other child processes: these would keep
+// them open.
+static bool
+openPipe(int p[2]) {
+    if (pipe(p) == -1) {
+        return false;
+    }
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
+    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+    return true;
+}
 void
 ProcessInputStream::runCmd() {
     int p[2];
-    if (pipe(p) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (!openPipe(p)) {
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -156,14 +170,23 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
-        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+    if (!openPipe(pin)) {
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (!openPipe(pout)) {
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
         return;
     }
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
-        fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
-- 
2.43.0


From f73f4303a003e77630e51874349b8f5945fa5ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 030/115] fix: feed the input of a process completely and
 without blocking on it

---
 lib/processinputstream.cpp | 88 ++++++++++++++++++++++++++++++--------
 1 file changed, 70 insertions(+), 18 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 331e92f..deed14d 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -21,6 +21,8 @@
 #include <strigi/strigiconfig.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <poll.h>
+#include <pthread.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
@@ -75,41 +77,89 @@ ProcessInputStream::~ProcessInputStream() {
     }
     delete [] args;
 }
+// Write to a pipe, but do not raise SIGPIPE if nobody reads from it.
+static ssize_t
+writeWithoutSignal(int fd, const char* b, size_t n) {
+    sigset_t sigpipe, oldmask, before, after;
+    sigemptyset(&sigpipe);
+    sigaddset(&sigpipe, SIGPIPE);
+    sigemptyset(&before);
+    sigpending(&before);
+    pthread_sigmask(SIG_BLOCK, &sigpipe, &oldmask);
+    ssize_t m = write(fd, b, n);
+    int error = errno;
+    sigemptyset(&after);
+    sigpending(&after);
+    if (sigismember(&after, SIGPIPE) && !sigismember(&before, SIGPIPE)) {
+        int sig;
+        sigwait(&sigpipe, &sig);
+    }
+    pthread_sigmask(SIG_SETMASK, &oldmask, 0);
+    errno = error;
+    return m;
+}
 void
 ProcessInputStream::writeToPipe() {
     // read from the inputstream
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
-        if (input->status() == Error) {
-            m_status = Error;
-            m_error = input->error();
-            n = 0;
+    bool finished = n <= 0;
+    if (n > 0) {
+        // write into the pipe
+        ssize_t m = writeWithoutSignal(fdin, b, n);
+        if (m < 0 && (errno == EINTR || errno == EAGAIN)) {
+            m = 0;
         }
+        if (m < 0) {
+            // a child does not have to read all of its input
+            if (errno != EPIPE) {
+                m_error = strerror(errno);
+                m_status = Error;
+            }
+            finished = true;
+        } else if (m != n) {
+            input->reset(pos+m);
+        }
+    }
+    if (input->status() == Error) {
+        m_status = Error;
+        m_error = input->error();
+    }
+    if (finished || input->status() != Ok) {
         // close the pipe if no more output is available
         input = 0;
         close(fdin);
         fdin = -1;
-    } else {
-        // write into the pipe
-        ssize_t m = write(fdin, b, n);
-        if (m < 0) {
-            m_error = strerror(errno);
-            m_status = Error;
-            input = 0;
-        } else if (m != n) {
-            input->reset(pos+n);
-        }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout <= 0) return -1;
-    if (input && input->status() == Ok) {
-        writeToPipe();
+    // write as long as there is nothing to read: the child may need all of the
+    // input before it gives output
+    while (input) {
+        struct pollfd fds[2];
+        fds[0].fd = fdout;
+        fds[1].fd = fdin;
+        fds[0].events = POLLIN;
+        fds[1].events = POLLOUT;
+        fds[0].revents = fds[1].revents = 0;
+        if (poll(fds, 2, -1) == -1 && errno != EINTR) {
+            m_error = strerror(errno);
+            m_status = Error;
+            return -2;
+        }
+        if (fds[0].revents) break;
+        if (fds[1].revents) {
+            writeToPipe();
+            if (m_status == Error) return -2;
+        }
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
@@ -212,4 +262,6 @@ ProcessInputStream::runCmdWithInput() {
     close(pout[1]);
     fdout = pout[0];
     fdin = pin[1];
+    // never wait for the child to read while it waits for its output to be read
+    fcntl(fdin, F_SETFL, O_NONBLOCK);
 }
-- 
2.43.0


From b2b8c3fb97cd2747c03f149abcad99ed8792d529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 031/115] fix: judge tar header blocks by the bytes read, not
 by the status of the input

---
 lib/tarinputstream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..c92e8ac 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -51,12 +51,15 @@ TarInputStream::nextEntry() {
 const char*
 TarInputStream::readHeader() {
     // read the first 512 characters
-    const char *begin;
+    const char *begin = 0;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
+    if (m_input->status() == Error) {
         m_status = Error;
+        m_error = "Error reading tar header: ";
+        m_error += m_input->error();
+    } else if (nread != 512) {
+        // the status of the input may be Eof after reading the last block
+        m_status = Eof;
     }
     return begin;
 }
@@ -94,6 +97,7 @@ TarInputStream::parseHeader() {
     const char *hb;
 
     hb = readHeader();
+    if (m_status == Error) return;
     if (m_status) {
         m_status = Error;
         m_error = "Premature end of file.";
@@ -144,6 +148,10 @@ TarInputStream::parseHeader() {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
+        if (m_status == Eof) {
+            m_status = Error;
+            m_error = "Premature end of file.";
+        }
         if (m_status) return;
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
-- 
2.43.0


From 09fb71eb0261b5447e2cc9b85c973a001414b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 032/115] fix: report tar archives that end inside a member

---
 lib/tarinputstream.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index c92e8ac..df4cdf5 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -36,10 +36,17 @@ InputStream*
 TarInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
-        m_entrystream->skip(m_entrystream->size());
-        m_input->skip(numPaddingBytes);
+        while (m_entrystream->status() == Ok) {
+            m_entrystream->skip(m_entrystream->size());
+        }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
+        m_input->skip(numPaddingBytes);
     }
     parseHeader();
     if (m_status) return 0;
-- 
2.43.0


From 735dcf4e70b2ca7e143ec5d354adc5b58ac05ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 033/115] fix: read the full width of tar sizes and times and
 validate long name lengths

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index df4cdf5..6dbb24c 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -195,26 +195,38 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    // the fields are 12 bytes wide: at most 12 octal digits
+    const char* p = b + offset;
+    const char* end = p + 12;
+    while (p < end && *p == ' ') ++p;
+    if (p == end || *p < '0' || *p > '7') {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
     }
+    int64_t val = 0;
+    while (p < end && *p >= '0' && *p <= '7') {
+        val = val * 8 + (*p++ - '0');
+    }
     return val;
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size < 1 || size > 1048576) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid length.";
+        return;
+    }
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
-- 
2.43.0


From 198e8151894a1fb75974dd90b308d5fe9dbaed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 034/115] fix: check the tar headers after a LongLink and end
 long names at the terminator

---
 lib/tarinputstream.cpp | 45 +++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 6dbb24c..f057700 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -136,22 +136,18 @@ TarInputStream::parseHeader() {
         }
     }
 
-    // check for terminators ('\0') on the first couple of fields
-    if (!checkHeader(hb, 257)) {
-        m_error = "Invalid tar header.\n";
-        m_status = Error;
-        return;
-    }
-
-    size_t len = std::strlen(hb);
-    if (len == 0) {
-        // ready
-        m_status = Eof;
-        return;
-    }
-    if (len > 100) len = 100;
+    size_t len;
     m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+    while (true) {
+        // check for terminators ('\0') on the first couple of fields
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
+
+        len = std::strlen(hb);
+        if (len != 13 || strncmp(hb, "././@LongLink", 13) != 0) break;
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
@@ -160,6 +156,16 @@ TarInputStream::parseHeader() {
             m_error = "Premature end of file.";
         }
         if (m_status) return;
+    }
+
+    if (len == 0) {
+        // ready
+        m_status = Eof;
+        return;
+    }
+    if (len > 100) len = 100;
+    if (m_entryinfo.filename.length()) {
+        // the name came from a LongLink entry
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
         if (len == 2) { // skip entry './'
@@ -226,6 +232,8 @@ TarInputStream::readLongLink(const char *b) {
     if (left) {
         left = 512 - left;
     }
+    // long link targets are not part of the file name
+    const bool isName = b[156] != 'K';
     const char *begin;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
@@ -238,7 +246,12 @@ TarInputStream::readLongLink(const char *b) {
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    if (isName) {
+        // the name is terminated by '\0'
+        const void* end = memchr(begin, 0, nread);
+        m_entryinfo.filename.assign(begin,
+            end ? (const char*)end - begin : nread);
+    }
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 26b2ba05cd0e5283ef8ebd08779d1b4dd51e338c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 035/115] fix: do not recurse for every './' entry in a tar
 file

---
 lib/tarinputstream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index f057700..9df2625 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -49,6 +49,11 @@ TarInputStream::nextEntry() {
         m_input->skip(numPaddingBytes);
     }
     parseHeader();
+    while (m_status == Ok && m_entryinfo.filename.empty()) {
+        // skip the entry './'
+        m_input->skip(m_entryinfo.size + numPaddingBytes);
+        parseHeader();
+    }
     if (m_status) return 0;
     if (m_entryinfo.size >= 0) {
         m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
@@ -168,9 +173,6 @@ TarInputStream::parseHeader() {
         // the name came from a LongLink entry
     } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
         // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
-            return parseHeader();
-        }
         m_entryinfo.filename.append(hb, 2, len-2);
     } else {
         m_entryinfo.filename.append(hb, 0, len);
@@ -188,7 +190,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
-- 
2.43.0


From 0d1637d58efc674e3ab6bb89f7fd02c4791f510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:58 +0000
Subject: [PATCH 036/115] fix: use the prefix field of ustar headers and strip
 './' from all tar names

---
 lib/tarinputstream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 9df2625..b4f55b4 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -171,12 +171,18 @@ TarInputStream::parseHeader() {
     if (len > 100) len = 100;
     if (m_entryinfo.filename.length()) {
         // the name came from a LongLink entry
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
-        // skip initial './' part of filename
-        m_entryinfo.filename.append(hb, 2, len-2);
     } else {
+        if (memcmp(hb+257, "ustar", 6) == 0 && hb[345]) {
+            // the name is preceded by the directory in the prefix field
+            m_entryinfo.filename.append(hb+345, strnlen(hb+345, 155));
+            m_entryinfo.filename.append("/");
+        }
         m_entryinfo.filename.append(hb, 0, len);
     }
+    if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
+        // skip initial './' part of filename
+        m_entryinfo.filename.erase(0, 2);
+    }
 
     // read the file size which is in octal format
     m_entryinfo.size = readOctalField(hb, 124);
-- 
2.43.0


From eeba2abeee6477fe3d79e9c72f4440d9a3c0bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 037/115] fix: accept tar headers of links with a target of 100
 bytes

---
 lib/tarinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index b4f55b4..149603d 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -101,8 +101,10 @@ TarInputStream::checkHeader(const char* h, int32_t hsize) {
 
     // check for field values that should be '\0' for the header to be a
     // tar header. Two positions are also accepted if they are ' ' because they
+    // The target of a link may fill its field completely.
     return !(h[107] || h[115] || h[123] || (h[135]&&h[135]!=' ')
-            || (h[147] && h[147] != ' ') || h[256]);
+            || (h[147] && h[147] != ' ')
+            || (h[256] && h[156] != '1' && h[156] != '2'));
 }
 void
 TarInputStream::parseHeader() {
-- 
2.43.0


From e645656301300ee4143264515a583cdd7d38c5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 038/115] fix: report cpio archives that end inside a header or
 a member

---
 lib/cpioinputstream.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..4b55493 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -53,18 +53,20 @@ CpioInputStream::nextEntry() {
         while (m_entrystream->status() == Ok) {
             m_entrystream->skip(m_entrystream->size());
         }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
         if (padding) {
             m_input->skip(padding);
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -78,12 +80,13 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
+        if (nread <= 0 && m_input->status() == Eof) {
+            m_status = Eof;
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
-- 
2.43.0


From ad5b86fac9e8bf3af2118e0aebdfa52d93c1f17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 039/115] fix: read cpio sizes and times as unsigned numbers
 and validate the fields

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..1ea003d 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    int64_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 4b55493..868034c 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -102,11 +102,15 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
-    int32_t filenamesize = readHexField(b+94);
+    int64_t namesize = readHexField(b+94);
+    if (namesize < 1 || namesize > 1048576) {
+        m_status = Error;
+    }
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
     }
+    int32_t filenamesize = (int32_t)namesize;
     char namepadding = (char)((filenamesize+2) % 4);
     if (namepadding) namepadding = (char)(4 - namepadding);
     padding = (char)(m_entryinfo.size % 4);
@@ -134,19 +138,21 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+int64_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    int64_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
-        if (c > 'F') {
+        if (c >= 'a' && c <= 'f') {
             val += c - 87;
-        } else if (c > '9') {
+        } else if (c >= 'A' && c <= 'F') {
             val += c - 55;
-        } else {
+        } else if (c >= '0' && c <= '9') {
             val += c - 48;
+        } else {
+            m_status = Error;
         }
     }
     return val;
-- 
2.43.0


From e9f6acdf8006babaee76eefd9b343b1237008847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 040/115] fix: do not read beyond the end of cpio names that
 start with './'

---
 lib/cpioinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 868034c..354e2b7 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -127,6 +127,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
-- 
2.43.0


From 77713758ced55fd7176bd5f6802f5ee6110037e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 041/115] fix: report the type of cpio entries

---
 lib/cpioinputstream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 354e2b7..faa6050 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -102,6 +102,15 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
+    // the file type is in the mode field
+    const int64_t mode = readHexField(b+14) & 0170000;
+    if (mode == 0040000) {
+        m_entryinfo.type = EntryInfo::Dir;
+    } else if (mode == 0100000) {
+        m_entryinfo.type = EntryInfo::File;
+    } else {
+        m_entryinfo.type = EntryInfo::Unknown;
+    }
     int64_t namesize = readHexField(b+94);
     if (namesize < 1 || namesize > 1048576) {
         m_status = Error;
-- 
2.43.0


From 39dbccdc6b5e76be79281077349d9a447644eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 042/115] fix: report ar archives that are not valid or end
 inside a member

---
 lib/arinputstream.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..73b5420 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -38,6 +38,11 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        if (input->status() == Error) {
+            m_error = input->error();
+        } else {
+            m_error = "Magic bytes are wrong.";
+        }
     }
 }
 ArInputStream::~ArInputStream() {
@@ -46,9 +51,16 @@ InputStream*
 ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
-        m_entrystream->skip(m_entrystream->size());
+        while (m_entrystream->status() == Ok) {
+            m_entrystream->skip(m_entrystream->size());
+        }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
     }
     readHeader();
     if (m_status) return 0;
-- 
2.43.0


From 8387e648b64e918ac279a07c89fbf39f504b0e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 043/115] fix: read ar sizes and times that do not fit in 32
 bits

---
 lib/arinputstream.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 73b5420..2e48a48 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -104,17 +104,19 @@ ArInputStream::readHeader() {
         }
     }
 
-    // we must copy this string to safely call atoi
+    // we must copy this string to safely call strtoll
     char bc[61];
     std::memcpy(bc, b, 60);
-    bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
+    bc[58] = '\0'; // end of the size field
+    m_entryinfo.size = strtoll(bc+48, 0, 10);
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
         return;
     }
-    m_entryinfo.mtime = atoi(bc+16);
+    bc[28] = '\0'; // end of the time field
+    m_entryinfo.mtime = strtoll(bc+16, 0, 10);
+    bc[16] = '\0'; // end of the name field
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-- 
2.43.0


From 5d3265ca09d16b068bb611f5c88f57e242e9e0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:37 +0000
Subject: [PATCH 044/115] fix: do not recurse for every special entry in an ar
 file and limit the name table

---
 include/strigi/arinputstream.h |  2 +-
 lib/arinputstream.cpp          | 27 +++++++++++++++++----------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 6a110fa..3834cbe 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -29,7 +29,7 @@ private:
     // information relating to the current entry
     std::string gnufilenames;
 
-    void readHeader();
+    bool readHeader();
 public:
     explicit ArInputStream(InputStream* input);
     ~ArInputStream();
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 2e48a48..40e5b51 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -62,12 +62,13 @@ ArInputStream::nextEntry() {
         m_entrystream = 0;
         if (m_status) return 0;
     }
-    readHeader();
+    // skip over the special entries
+    while (!readHeader()) {}
     if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
     return m_entrystream;
 }
-void
+bool
 ArInputStream::readHeader() {
     const char *b;
     int32_t toread;
@@ -85,16 +86,16 @@ ArInputStream::readHeader() {
         m_error = "Error reading ar header: ";
         m_error += m_input->error();
         m_status = Error;
-        return;
+        return true;
     }
     if (nread <= 1) { // allow for a closing byte
         m_status = Eof;
-        return;
+        return true;
     }
     if (nread != toread) {
         m_error = "Error reading ar header: premature end of file.";
         m_status = Error;
-        return;
+        return true;
     }
     int len;
     for (len=0; len<16; len++) {
@@ -112,7 +113,7 @@ ArInputStream::readHeader() {
     if (m_entryinfo.size < 0) {
         m_error = "Error: negative file size.";
         m_status = Error;
-        return;
+        return true;
     }
     bc[28] = '\0'; // end of the time field
     m_entryinfo.mtime = strtoll(bc+16, 0, 10);
@@ -120,23 +121,28 @@ ArInputStream::readHeader() {
     if (len == 0) {
         if (b[1] == '/') {
             // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
+            if (m_entryinfo.size < 1 || m_entryinfo.size > 0x4000000) {
+                m_error = "Invalid size of the name table.";
+                m_status = Error;
+                return true;
+            }
             nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
             if (nread != m_entryinfo.size) {
                 m_error = "premature end of stream";
                 m_status = Error;
-                return;
+                return true;
             }
             gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
+            return false;
         } else if (b[1] == ' ') {
             m_input->skip(m_entryinfo.size);
-            readHeader();
+            return false;
         } else {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
                 m_error = "Invalid name field.";
                 m_status = Error;
-                return;
+                return true;
             }
             const char* c = gnufilenames.c_str() + p;
             const char* e = std::strchr(c, '/');
@@ -150,4 +156,5 @@ ArInputStream::readHeader() {
         m_entryinfo.filename = std::string(b, len);
     }
     m_entryinfo.type = Strigi::EntryInfo::File;
+    return true;
 }
-- 
2.43.0


From 1dd8a7e659342ed56845470c2ee00f56c05d2182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:28 +0000
Subject: [PATCH 045/115] fix: report ar archives that end inside the symbol
 table or a header

---
 lib/arinputstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 40e5b51..2d91189 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -88,7 +88,7 @@ ArInputStream::readHeader() {
         m_status = Error;
         return true;
     }
-    if (nread <= 1) { // allow for a closing byte
+    if (nread <= 0 || (nread == 1 && b[0] == '\n')) { // allow for a closing byte
         m_status = Eof;
         return true;
     }
@@ -135,7 +135,12 @@ ArInputStream::readHeader() {
             gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
             return false;
         } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
+            if (m_input->skip(m_entryinfo.size) < m_entryinfo.size
+                    && m_entryinfo.size > 0) {
+                m_error = "premature end of stream";
+                m_status = Error;
+                return true;
+            }
             return false;
         } else {
             uint p = atoi(bc+1);
-- 
2.43.0


From 2accfaeab4b82dc79cd5681ff114458efc1beb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 046/115] fix: use all five bits of the hour in DOS times

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From b686313e600fb8eef7b33b1598d99a6d29860dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 047/115] fix: do not call the thread-unsafe localtime for DOS
 times

---
 lib/dostime.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 373e294..6a1aa6c 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -41,11 +41,9 @@
 time_t
 dos2unixtime (unsigned long dostime)
 {
-  struct tm ltime;
-  time_t now = time (NULL);
-
-  /* Call localtime to initialize timezone in TIME.  */
-  ltime = *localtime (&now);
+  /* mktime initializes the timezone, localtime is not needed for that and
+     is not thread-safe.  */
+  struct tm ltime = tm ();
 
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
-- 
2.43.0


From feaaff0960d1d35516937168c4d7b5508aefdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 048/115] fix: report zip archives that end inside a member or
 a header

---
 lib/zipinputstream.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..9f14863 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -58,7 +58,14 @@ ZipInputStream::nextEntry() {
 	// if this entry is a compressed entry of know size, we can skip to
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
-            compressedEntryStream->skip(compressedEntryStream->size());
+            while (compressedEntryStream->status() == Ok) {
+                compressedEntryStream->skip(compressedEntryStream->size());
+            }
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = compressedEntryStream->error();
+                return 0;
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
@@ -68,11 +75,10 @@ ZipInputStream::nextEntry() {
             const char* c;
             int64_t p = m_input->position();
             int32_t n = m_input->read(c, 16, 16);
-            if (n == 16) {
-                n = readLittleEndianUInt32((const unsigned char*)c);
-                if (n != 0x08074b50) {
-                    m_input->reset(p);
-                }
+            if (n != 16
+                || readLittleEndianUInt32((const unsigned char*)c)
+                    != 0x08074b50) {
+                m_input->reset(p);
             }
         } else {
             int64_t size = m_entrystream->size();
@@ -82,6 +88,11 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = m_entrystream->error();
+                return 0;
+            }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
-- 
2.43.0


From 1544e0b65fd02361d7dc36974dd4779f433d4dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 049/115] fix: handle missing and cut off file names in zip
 archives

---
 lib/zipinputstream.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 9f14863..d95926a 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -221,12 +221,7 @@ ZipInputStream::readHeader() {
     m_entryinfo.mtime = dos2unixtime(dost);
 
     readFileName(filenamelen);
-    if (m_status) {
-        m_status = Error;
-        m_error = "Error reading file name: ";
-        m_error += m_input->error();
-        return;
-    }
+    if (m_status) return;
     // read 2 bytes into the length of the extra field
     int64_t skipped = m_input->skip(extralen);
     if (skipped != extralen) {
@@ -240,6 +235,7 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len == 0) return;
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
@@ -249,6 +245,7 @@ ZipInputStream::readFileName(int32_t len) {
         } else {
             m_error += " premature end of file.";
         }
+        m_status = Error;
         return;
     }
     m_entryinfo.filename.assign(begin, nread);
-- 
2.43.0


From 52cf270a6f8e6c54079d8e2ebce4416ac6832db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:07 +0000
Subject: [PATCH 050/115] fix: validate the sizes in rpm headers

---
 lib/rpminputstream.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..35d6a4a 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -32,6 +32,15 @@ using namespace Strigi;
 
 class RpmInputStream::RpmHeaderInfo {
 };
+
+// rpm does not accept headers larger than this
+static const int32_t maxHeaderSize = 32*1024*1024;
+
+static bool
+checkHeaderSize(int32_t nindex, int32_t hsize) {
+    return nindex >= 0 && nindex <= maxHeaderSize/16
+        && hsize >= 0 && hsize <= maxHeaderSize - nindex*16;
+}
 /**
  * RPM files as specified here:
  * http://www.freestandards.org/spec/refspecs/LSB_1.3.0/gLSB/gLSB/swinstall.html
@@ -68,11 +77,15 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (!checkHeaderSize(nindex, hsize)) {
+        m_error = "invalid size of signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->read(b, sz, sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +97,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (!checkHeaderSize(nindex, hsize)) {
+        m_error = "invalid size of header\n";
+        return;
+    }
     int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
-- 
2.43.0


From 3c14cd73ab7a3a724c238fe510a24845729350b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 051/115] fix: do not lose characters when unfolding mail
 headers

---
 lib/mailinputstream.cpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..68832ee 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -147,6 +147,10 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
     const char* s = v;
     const char* p = v;
     const char* e = s + len;
+    // true if only whitespace occurred since the last encoded word
+    bool afterEncodedWord = false;
+    // the part of that whitespace that came before a fold
+    string space;
     while (s < e) {
         if (e-s > 8 && *s == '=' && s[1] == '?') {
             // start of encoded data, find the next position of '?','?' and '?='
@@ -157,12 +161,20 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             while (q2 < e && *q2 != '?') q2++;
             end = q2+1;
             while (end < e && *end != '?') end++;
-            if (e - end < 1 || end[1] != '=') {
+            if (e - end < 2 || end[1] != '=') {
+                decoded.append(space);
+                space.clear();
+                afterEncodedWord = false;
                 s++;
                 continue;
             }
-            // save the stuff from before the encoding
-            decoded.append(p, s-p);
+            // save the stuff from before the encoding, whitespace between
+            // encoded words is not part of the value
+            if (!afterEncodedWord) {
+                decoded.append(p, s-p);
+            }
+            space.clear();
+            afterEncodedWord = true;
             s += 2;
             q1++;
             q2++;
@@ -187,15 +199,25 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
 
             // continue after the quoted data
             s = p = end + 2;
-        } else if (e-s > 3 && s[0] == 13 && s[1] == 10
+        } else if (e-s > 2 && s[0] == 13 && s[1] == 10
                 && (s[2] == 9 || s[2] == 32)) {
-            // skip the CRLF WSP used for folding the header lines
-            decoded.append(p, s-p);
-            s = p = s + 4;
+            // skip the CRLF used for folding the header lines
+            (afterEncodedWord ?space :decoded).append(p, s-p);
+            s = p = s + 2;
+        } else if (e-s > 1 && s[0] == 10 && (s[1] == 9 || s[1] == 32)) {
+            // skip the LF used for folding the header lines
+            (afterEncodedWord ?space :decoded).append(p, s-p);
+            s = p = s + 1;
         } else {
+            if (afterEncodedWord && *s != 9 && *s != 32) {
+                decoded.append(space);
+                space.clear();
+                afterEncodedWord = false;
+            }
             s++;
         }
     }
+    decoded.append(space);
     if (p < e) {
         decoded.append(p, e-p);
     }
-- 
2.43.0


From 473445e02bd342cb169d58a60dcbaba7aeb0b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 052/115] fix: do not ignore short mail header lines

---
 lib/mailinputstream.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 68832ee..73ac2be 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -543,9 +543,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
     if (len < 2) return;
-    if (len < 8) {
-        return;
-    } else if (strncasecmp(linestart, subject, 8) == 0) {
+    if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
         while (offset < len && isspace(linestart[offset])) offset++;
         m->m_subject = decoder.decodedHeaderValue(linestart+offset, len-offset);
-- 
2.43.0


From 665fd40eb0524079dbedf065b49fc664b8bcacda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 053/115] fix: accept semicolons and escapes in quoted mail
 parameters

---
 lib/mailinputstream.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 73ac2be..9908516 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -478,15 +478,19 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     }
     v += nl;
     v += strspn(v, "= \n\r");
+    if (*v == '"') {
+        // the value ends at the closing quote, '\' quotes one character
+        while (*++v && *v != '"') {
+            if (*v == '\\' && v[1]) ++v;
+            value.append(1, *v);
+        }
+        return value;
+    }
     const char* vend = strchr(v, ';');
     if (vend == 0) {
         vend = hl + headerline.length();
     }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
-    } else {
-        value.assign(v, vend-v);
-    }
+    value.assign(v, vend-v);
     return value;
 }
 void
-- 
2.43.0


From fc5e14b6c3f6f7152ccefbfb6de624dfa1987480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 054/115] fix: do not parse the first lines of a mail part as a
 header line

---
 lib/mailinputstream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 9908516..3d0fa42 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -443,7 +443,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -627,10 +627,11 @@ MailInputStream::Private::handleBodyLine() {
     if (boundary.size() > n) {
         return false;
     }
-    readHeaderLine();
     if (m->m_status != Ok) {
         return false;
     }
+    // go to the start of the content
+    m->m_input->reset(nextLineStartPosition);
 
     // get the filename
     m->m_entryinfo.filename = value("filename", m_contentdisposition);
-- 
2.43.0


From 91acae5c80b8f46a574b08948ec17f0f40eb8c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 055/115] fix: do not make the end of the header part of a mail
 body

---
 lib/mailinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 3d0fa42..95c2678 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -672,6 +672,8 @@ MailInputStream::nextEntry() {
     if (p->boundary.size() == 0) {
         // signal eof because we only return eof once
         m_status = Eof;
+        // the body starts after the empty line that ends the header
+        m_input->reset(p->nextLineStartPosition);
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
-- 
2.43.0


From 84022eb5b47e77b0233e583c5c895fb3eeb0f86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 056/115] fix: report errors of the input of a mail

---
 lib/mailinputstream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 95c2678..d7e50fb 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -364,6 +364,8 @@ public:
 };
 MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     substream = 0;
+    linestart = 0;
+    lineend = 0;
     entrynumber = 0;
     nextLineStartPosition = 0;
 }
@@ -407,7 +409,12 @@ MailInputStream::Private::readHeaderLine() {
         if (nread < linepos+1) {
             completeLine = true;
             lineend = linestart + nread;
-            m->m_status = Eof;
+            if (m->m_input->status() == Error) {
+                m->m_status = Error;
+                m->m_error = m->m_input->error();
+            } else {
+                m->m_status = Eof;
+            }
             return;
         }
         m->m_input->reset(nextLineStartPosition);
@@ -686,6 +693,7 @@ MailInputStream::nextEntry() {
         }
         if (p->substream->status() == Error) {
             m_status = Error;
+            m_error = p->substream->error();
         } else {
             p->nextLineStartPosition = p->substream->offset()
                 + p->substream->size();
@@ -703,7 +711,7 @@ MailInputStream::nextEntry() {
     }
     p->scanBody();
 
-    if (m_entrystream == 0) {
+    if (m_entrystream == 0 && m_status != Error) {
         m_status = Eof;
     }
     p->ensureFileName();
-- 
2.43.0


From 877a7a80a37bb960a5de3e61965f99bed9f52de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 057/115] fix: ignore whitespace after mail boundaries

---
 lib/mailinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index d7e50fb..6c5b001 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -519,6 +519,8 @@ MailInputStream::Private::scanBody() {
     while (m->m_status == Ok) {
         readHeaderLine();
         int32_t len = (int32_t)(lineend - linestart);
+        // whitespace after the boundary is padding
+        while (len > 2 && isblank(linestart[len-1])) len--;
         if (len > 2 && strncmp("--", linestart, 2) == 0) {
             int32_t blen = (int32_t)boundary.top().length();
             if (len == blen + 4 && strncmp(linestart + 2 + blen, "--", 2) == 0
-- 
2.43.0


From 80c2647a6b0f3712e4305a8fee45ae3881a08964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 058/115] fix: do not delete the entry stream of OLE files
 twice

---
 lib/oleinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..4e83c48 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -267,6 +267,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 }
 OleInputStream::~OleInputStream() {
     delete p;
+    // the entry stream was deleted with p
+    m_entrystream = 0;
 }
 OleInputStream::Private::~Private() {
     delete entrystream;
-- 
2.43.0


From 2a41531bbb565f017c919b0377378c69f73bbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 059/115] fix: report errors in OLE files with a message and do
 not turn them into a normal end

---
 lib/oleinputstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 4e83c48..adaf1be 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -114,6 +114,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
+            m_error = "Invalid OLE stream.";
             fprintf(stderr, "error in small blocks\n");
 	    return -1;
         }
@@ -143,6 +144,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
             if (parent->currentDataBlock != -2 || done != m_size) {
                 fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid OLE stream.";
                 n = -1;
             }
         }
@@ -380,8 +382,9 @@ OleInputStream::Private::readEntryInfo() {
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status != Error) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -391,6 +394,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid OLE directory.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From 71867255d47d888e8809de19b14d896b71370ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 060/115] fix: validate the block pointers of OLE files

---
 lib/oleinputstream.cpp | 51 ++++++++++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index adaf1be..6d8dfca 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -157,7 +157,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -182,14 +182,13 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t sBatOffset = readLittleEndianInt32(data+0x3c);
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
-    if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+    if (!checkHeader(data, size) || nBat < 0 || nXBat < 0
+            || nBat > 128*(int64_t)nXBat+109) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
-    int32_t max = 0;
-    batIndex.reserve(nBat);
+    int64_t max = 0;
     data += 76;
     for (int i = 0; i < ::min(109, nBat); ++i) {
         int32_t p;
@@ -198,15 +197,20 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
-    if (128*(nBat-1) > max) max = 128*(nBat-1);
+    if (128*(int64_t)(nBat-1) > max) max = 128*(int64_t)(nBat-1);
 
-    int32_t toread = (max+2)*512;
-    if (input->size() >= 0 && input->size() < toread) {
+    const int64_t needed = (max+2)*512;
+    if (input->size() >= 0 && input->size() < needed) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
+    if (input->size() > 0x7fffffff) {
+        stream->m_status = Error;
+        stream->m_error = "File is too large.";
+        return;
+    }
+    int32_t toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
     size = input->read(data, toread, toread);
     input->reset(0);
     if (size != input->size()) {
@@ -215,18 +219,27 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
             = string("File cannot be read completely: ")+input->error();
         return;
     }
+    if (size < needed) {
+        stream->m_status = Error;
+        stream->m_error = "File is incomplete.";
+        return;
+    }
     maxindex = size/512-2;
 
     // read any remaining BAT entries from XBAT blocks
-    xBatOffset = 512 + 512 * xBatOffset;
-    for (int j = 0; j < nXBat; ++j) {
+    for (int j = 0; j < nXBat && (int)batIndex.size() < nBat; ++j) {
+        if (xBatOffset < 0 || xBatOffset > maxindex) {
+            stream->m_status = Error;
+            stream->m_error = "pointer out of range.";
+            return;
+        }
+        xBatOffset = 512 + 512 * xBatOffset;
         for (int i = 0; i<127 && (int)batIndex.size() < nBat; ++i) {
             int32_t p;
             if (!readInt32(4*i + xBatOffset, p)) { return; }
             batIndex.push_back(p);
         }
         if (!readInt32(508 + xBatOffset, xBatOffset)) { return; }
-        xBatOffset = 512 + 512 * xBatOffset;
     }
 
     // print all bat blocks
@@ -242,7 +255,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0 && sBatOffset <= maxindex && sbatIndex.size() < 1000) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -256,9 +269,15 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     sbatbIndex.reserve(sbatIndex.size()*16);
     // read the info for the root entry
+    if (ptOffset < 0 || ptOffset > maxindex) {
+        stream->m_status = Error;
+        stream->m_error = "pointer out of range.";
+        return;
+    }
     currentDataBlock = (1+ptOffset)*512 + 0x74;
     if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    while (currentDataBlock >= 0 && currentDataBlock <= maxindex
+            && sbatbIndex.size() < 16000) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
@@ -283,6 +302,10 @@ OleInputStream::Private::nextBlock(int32_t in) {
         fprintf(stderr, "error 5: input block out of range %i\n", in);
         return -4;
     }
+    if (batIndex[bid] < -1 || batIndex[bid] > maxindex) {
+        fprintf(stderr, "error 7: bat block out of range %i\n", batIndex[bid]);
+        return -4;
+    }
     bid = batIndex[bid]+1;
     int32_t next = in%128*4;
     next += 512*bid;
-- 
2.43.0


From 489d3016c2498832da9ab3b554120e63b32c6cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:24 +0000
Subject: [PATCH 061/115] fix: do not drop small OLE streams with a block
 number larger than the number of big blocks

---
 lib/oleinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 6d8dfca..d3574d5 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -399,7 +399,9 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    // small streams consist of small blocks
+    if (currentDataBlock > (currentStreamSize < 4096 ?maxsindex :maxindex)
+            || currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
-- 
2.43.0


From 56b947524c04e9fd16a705dc22901a917c2cf21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:30 +0000
Subject: [PATCH 062/115] fix: find SD delimiters across chunks and keep the
 first characters of molecules

---
 lib/sdfinputstream.cpp | 78 +++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 35 deletions(-)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..50259ee 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -82,18 +82,16 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
     int32_t nread = 0;
 
-    // read anything that's left over in the previous substream
+    // skip anything that's left over in the previous substream
     if (substream) {
-        substream->reset(0);
-        const char* dummy;
         while (substream->status() == Ok) {
-            substream->read(dummy, 1, 0);
+            substream->skip(substream->size());
         }
         if (substream->status() == Error) {
             m_status = Error;
+            m_error = substream->error();
         }
         if (substream && substream != m_entrystream) {
             delete substream;
@@ -101,19 +99,20 @@ SdfInputStream::nextEntry() {
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
-        m_input->reset(previousStartOfDelimiter);
-    
-        // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
-                }
+        if (m_status != Ok) return 0;
+
+        // eat delimiter and the newline after it
+        const char* dummy;
+        nread = m_input->read(dummy, 4, 4);
+        if (nread == 4) {
+            const int64_t eol = m_input->position();
+            nread = m_input->read(dummy, 2, 2);
+            if (nread == 2 && dummy[0] == '\r' && dummy[1] == '\n') {
+                // both bytes are part of the newline
+            } else if (nread > 0 && (dummy[0] == '\r' || dummy[0] == '\n')) {
+                m_input->reset(eol + 1);
+            } else if (nread > 0) {
+                m_input->reset(eol);
             }
         }
     }
@@ -122,34 +121,43 @@ SdfInputStream::nextEntry() {
     // There is only one way to destinguish between MOL and SD:
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
     const char* start;
-    const char* end;
-    int32_t total = 0;
+    const char* end = 0;
     const int64_t pos = m_input->position();
     int64_t len=0;
-    
+    int32_t toread = 1024;
+    int32_t searched = 0;
+
+    // read from the start of the molecule until the delimiter is in the data
     while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
-        if (nread > 0) {
-            end = m_searcher.search(start, nread);
-            if (end) {
-                len = end - start + total;
-                break;
-            }
-            total += nread;
-        }    
-    }    
+        nread = m_input->read(start, toread, 0);
+        if (nread <= 0) break;
+        // the delimiter may have started in the data that was searched before
+        const int32_t from = max(0, searched - 3);
+        end = m_searcher.search(start + from, nread - from);
+        m_input->reset(pos);
+        if (end) {
+            len = end - start;
+            break;
+        }
+        if (nread < toread) break;
+        if (nread > 0x4000000) {
+            m_status = Error;
+            m_error = "Molecule is too large.";
+            return 0;
+        }
+        searched = nread;
+        toread = 2*nread;
+    }
     if (m_input->status() == Error) {
         m_status = Error;
+        m_error = m_input->error();
         m_entrystream = 0;
         return 0;
     }
-    
-    m_input->reset(pos);
-    
+
     if (len > 0) {
         // this stream is an SD
         substream = new SubInputStream(m_input, len);
-        previousStartOfDelimiter = m_input->position() + len;
         m_entryinfo.type = EntryInfo::File;
         m_entryinfo.size = len;
 
-- 
2.43.0


From f6a5b8d70572316b238b556f7848538cb4482e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 063/115] fix: ArchiveReader::isArchive was true for every file
 and directory

---
 lib/archivereader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..68f8755 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -419,7 +419,8 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    // an archive is a file that is also a directory
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
-- 
2.43.0


From d3686a0bfc89eb348bba91a631dc2f98fe889dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 064/115] fix: LZMA compressed archives were only recognized if
 the first read happened to be large enough

---
 lib/listinginprogress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..1a30415 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -115,7 +115,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 16, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
-- 
2.43.0


From 5fe4b8cb6e092129c2d8123a08ea4a9cd2b7c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 065/115] fix: paths in archives were resolved to entries whose
 name is only the start of a path component

---
 lib/archivereader.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 68f8755..1bfade4 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -252,7 +252,7 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
         }
         // let sn point to the trailing part of the url
         const char* sn = url.c_str() + *i;
-        size_t len = url.length();
+        size_t len = url.length() - *i;
         bool nextstream = false;
         // try to open the first substream of the current SubStreamProvider
         substream = provider->currentEntry();
@@ -260,9 +260,11 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
             const EntryInfo& e = provider->entryInfo();
             // check that the filename matches at least one entry
             if (e.type == EntryInfo::File
-                    && e.filename.length() < len
+                    && e.filename.length() <= len
                     && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
+                           e.filename.length()) == 0
+                    && (sn[e.filename.length()] == '\0'
+                        || sn[e.filename.length()] == '/')) {
                 nextstream = true;
                 // skip the number of entries that are matched
                 size_t end = *i + e.filename.length();
-- 
2.43.0


From b9c79fe2f318a6dfe4a436388748e47008ad3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 066/115] fix: copied and assigned DirListers released a
 listing they did not own

---
 lib/archivereader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 1bfade4..6124b59 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -40,7 +40,7 @@ private:
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
 public:
-    const std::string url;
+    std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -48,17 +48,24 @@ public:
             :pos(0), listing(l), entry(NULL), url(u) {
         listing->ref();
     }
+    Private(const Private& a)
+            :pos(a.pos), entries(a.entries), listing(a.listing),
+             entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
     void operator=(const Private& a) {
+        if (this == &a) return;
         pos = a.pos;
         entries = a.entries;
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
-- 
2.43.0


From 220116831bc9aab6f46cd3dfd1a125f274678d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 067/115] fix: listing archives that are nested more than nine
 levels deep wrote outside the stack of providers

---
 lib/listinginprogress.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 1a30415..407e35a 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -199,8 +199,9 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    // the entry for the child is needed too
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
-- 
2.43.0


From 36f0f5ccbfd53e52c0db3ca6d4a5e03bbda933b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 068/115] fix: a directory entry that comes after its members
 made the archive listing forget and leak the members

---
 lib/listinginprogress.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 407e35a..afa99c4 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -28,6 +28,24 @@ using namespace Strigi;
 using namespace std;
 
 namespace {
+/**
+ * Move the information and the entries of @p from to @p to and delete @p from.
+ **/
+void
+merge(ArchiveEntryCache::SubEntry* to, ArchiveEntryCache::SubEntry* from) {
+    to->entry = from->entry;
+    ArchiveEntryCache::SubEntryMap::const_iterator i;
+    for (i = from->entries.begin(); i != from->entries.end(); ++i) {
+        ArchiveEntryCache::SubEntry*& child = to->entries[i->first];
+        if (child) {
+            merge(child, i->second);
+        } else {
+            child = i->second;
+        }
+    }
+    from->entries.clear();
+    delete from;
+}
 /**
  * Add the entry @p se to the cache.
  * The filename of @p se contains the complete path.
@@ -64,7 +82,13 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    child = parent->entries[name];
+    if (child) {
+        // the entry is there already, e.g. as the directory of earlier entries
+        merge(child, se);
+    } else {
+        parent->entries[name] = se;
+    }
 }
 }
 
-- 
2.43.0


From 5e89e13ff5c0ec615aa5cfff26268dca81ba0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 069/115] fix: abandoned archive listings leaked the entries
 they were reading

---
 lib/listinginprogress.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index afa99c4..85d403d 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -203,6 +203,10 @@ ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
     }
+    // the entries that are being read are not yet part of the tree
+    for (int i=1; i<=currentdepth; ++i) {
+        delete stack[i].entry;
+    }
     delete root;
     delete stream;
 }
-- 
2.43.0


From 15269d64e664a8737c53b21f0acd9c98c4ca3a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 070/115] fix: ArchiveReader freed cached trees that were still
 in the cache or in use by a DirLister

---
 lib/archiveentrycache.h   | 8 ++++++--
 lib/archivereader.cpp     | 7 ++++---
 lib/listinginprogress.cpp | 3 ++-
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/archiveentrycache.h b/lib/archiveentrycache.h
index 5c61f83..a28a4cb 100644
--- a/lib/archiveentrycache.h
+++ b/lib/archiveentrycache.h
@@ -54,16 +54,20 @@ public:
     class RootSubEntry : public SubEntry {
     public:
         /** Constructor */
-        RootSubEntry() :SubEntry() {}
+        RootSubEntry() :SubEntry(), refcount(0) {}
+        void ref() { refcount++; }
+        bool unref() { return --refcount == 0; }
         /** Whether this entry and its subentries have been indexed yet */
         bool indexed;
+        /** The number of owners: the cache and listings in progress */
+        int refcount;
         const SubEntry* findEntry(const std::string& rootpath,
             const std::string& url) const;
     };
     ~ArchiveEntryCache() {
        std::map<std::string, RootSubEntry*>::const_iterator i;
        for (i = cache.begin(); i != cache.end(); ++i) {
-           delete i->second;
+           if (i->second->unref()) delete i->second;
        }
     }
     /**
diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 6124b59..7b4b02b 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -339,8 +339,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
                 }
                 // the file has changed: it is removed from the cache
                 ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
-                delete rse;
+                cache.cache.erase(url);
+                if (rse->unref()) delete rse;
             }
 
             // The file exists, but is it an archive?
@@ -476,8 +476,9 @@ ArchiveReader::dirEntries(const std::string& url) {
 
     if (lip) {
         if (lip->isDone()) {
+            // DirListers may still be using the listing and its tree
+            lip->root->ref();
             p->cache.cache[lip->url] = lip->root;
-            lip->root = 0;
             p->listingsInProgress.erase(lip->url);
             if (lip->unref()) delete lip;
         } else {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 85d403d..4edae27 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -185,6 +185,7 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
         const EntryInfo& entry, const std::string& u, InputStream* s)
         :subs(sbs), stream(s), refcount(0), url(u) {
     root = new ArchiveEntryCache::RootSubEntry();
+    root->ref();
     root->entry = entry;
     root->indexed = true;
     stack.resize(10);
@@ -207,7 +208,7 @@ ListingInProgress::~ListingInProgress() {
     for (int i=1; i<=currentdepth; ++i) {
         delete stack[i].entry;
     }
-    delete root;
+    if (root->unref()) delete root;
     delete stream;
 }
 void
-- 
2.43.0


From 650d2e7d6abe797304b86fe176c1b2ad6805f414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:53 +0000
Subject: [PATCH 071/115] fix: recognition of nested archives depended on the
 amount of data in the first read

---
 lib/listinginprogress.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 4edae27..4c5825d 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -155,7 +155,9 @@ subStreamProvider(const Subs& subs, InputStream* input,
     } while (foundCompressedStream && nestingDepth++ < 32);
  
     const char* c;
-    int32_t n = s->read(c, 1024, 0);
+    // not more than this: the answer should not depend on how much of the
+    // stream happens to be available
+    int32_t n = s->read(c, 1024, 1024);
     s->reset(0);
     SubStreamProvider* ss;
     map<bool (*)(const char*, int32_t),
@@ -172,8 +174,8 @@ subStreamProvider(const Subs& subs, InputStream* input,
             }
             // even though the header was good, this stream has no substream
             delete ss;
-            s->reset(0);
-            n = s->read(c, 1, 0);
+            if (s->reset(0) != 0) break;
+            n = s->read(c, 1024, 1024);
             s->reset(0);
         }
     }
-- 
2.43.0


From 699b5dd8906ab6951e7664c60faef9692d281468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 072/115] fix: ArchiveReader kept answering from the listing of
 a file that was changed or removed

---
 lib/archivereader.cpp | 54 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 7b4b02b..de1532a 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -174,6 +174,11 @@ public:
      * @return 0 on success, -1 if the url was not found
      */
     int localStat(const std::string& url, EntryInfo& e);
+    /**
+     * Forget what is known about the physical file to which @p url belongs, if
+     * that file was changed or removed.
+     **/
+    void dropOutdated(const std::string& url);
     ArchiveReaderPrivate();
     ~ArchiveReaderPrivate();
     ListingInProgress* findListingInProgress(const string& url) const;
@@ -309,6 +314,41 @@ ArchiveReader::ArchiveReaderPrivate::open(const string& url) const {
     }
     return stream;
 }
+void
+ArchiveReader::ArchiveReaderPrivate::dropOutdated(const std::string& url) {
+    // find the physical file for which there is a listing or a cached tree
+    const ArchiveEntryCache::RootSubEntry* root = NULL;
+    string name;
+    map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator ci
+        = cache.findRootEntry(url);
+    ListingInProgress* lip = NULL;
+    if (ci != cache.cache.end()) {
+        root = ci->second;
+        name = ci->first;
+    } else if ((lip = findListingInProgress(url)) != NULL) {
+        root = lip->root;
+        name = lip->url;
+    } else {
+        return;
+    }
+    EntryInfo e;
+    list<StreamOpener*>::const_iterator i;
+    for (i = openers.begin(); i != openers.end(); ++i) {
+        if ((*i)->stat(name, e) == 0) break;
+    }
+    if (i != openers.end() && (e.type & EntryInfo::File)
+            && e.mtime == root->entry.mtime && e.size == root->entry.size) {
+        return;
+    }
+    if (lip) {
+        listingsInProgress.erase(name);
+        if (lip->unref()) delete lip;
+    } else {
+        ArchiveEntryCache::RootSubEntry* rse = cache.cache[name];
+        cache.cache.erase(name);
+        if (rse->unref()) delete rse;
+    }
+}
 int
 ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
         EntryInfo& e) {
@@ -320,6 +360,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
                 return 0;
             }
 
+            dropOutdated(url);
+
             // check if a ListingInProgress points to this url
             map<string, ListingInProgress*>::const_iterator li =
                 listingsInProgress.find(url);
@@ -333,14 +375,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
             map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator se
                 = cache.cache.find(url);
             if (se != cache.cache.end()) {
-                if (se->second->entry.mtime == e.mtime) {
-                    e.type = se->second->entry.type;
-                    return 0;
-                }
-                // the file has changed: it is removed from the cache
-                ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(url);
-                if (rse->unref()) delete rse;
+                e.type = se->second->entry.type;
+                return 0;
             }
 
             // The file exists, but is it an archive?
@@ -378,6 +414,7 @@ ArchiveReader::stat(const std::string& url, EntryInfo& e) {
     if (p->localStat(url, e) == 0) return 0;
 
     // check the cache (this assumes dirEntries was already called)
+    p->dropOutdated(url);
     const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
     if (subentry) {
         e = subentry->entry;
@@ -444,6 +481,7 @@ convert(const ArchiveEntryCache::SubEntry* entry) {
 ArchiveReader::DirLister
 ArchiveReader::dirEntries(const std::string& url) {
     // find the entry in the cache
+    p->dropOutdated(url);
     const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
 
     // look for a ListingInProgress
-- 
2.43.0


From 397df7e0a9818822a9d4a3c36cf6f5d48fd1982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 073/115] fix: a request for an absent entry replaced and
 leaked the cached tree of the archive

---
 lib/archivereader.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index de1532a..58b5f90 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -486,10 +486,14 @@ ArchiveReader::dirEntries(const std::string& url) {
 
     // look for a ListingInProgress
     ListingInProgress* lip = NULL;
+    std::vector<EntryInfo> v;
     if (subentry == NULL) {
+        if (p->cache.findRootEntry(url) != p->cache.cache.end()) {
+            // the complete file is in the cache, but it has no such entry
+            return DirLister(new DirLister::Private(v));
+        }
         lip = p->findListingInProgress(url);
     }
-    std::vector<EntryInfo> v;
     if (subentry == NULL && lip == NULL) {
         // this entry is not in the cache, we try to open it
         InputStream* s = 0;
-- 
2.43.0


From aff5210848781cad5654ed18ba1708e3a156b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:40 +0000
Subject: [PATCH 074/115] fix: listing a file that is no archive kept the file
 open

---
 lib/listinginprogress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 4c5825d..936be80 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -199,7 +199,10 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
                 = (EntryInfo::Type)(e.entry->entry.type|EntryInfo::Dir);
         currentdepth = 0;
     } else {
+        // this is no archive: there is nothing to list
         currentdepth = -1;
+        delete stream;
+        stream = 0;
     }
 }
 ListingInProgress::~ListingInProgress() {
-- 
2.43.0


From af022cabb475a3a22b59b49da5340065cbe8d0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:37 +0000
Subject: [PATCH 075/115] fix: FileStreamOpener opened directories as if they
 were files

---
 lib/filestreamopener.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/filestreamopener.cpp b/lib/filestreamopener.cpp
index a4a07ff..dd7dd5f 100644
--- a/lib/filestreamopener.cpp
+++ b/lib/filestreamopener.cpp
@@ -36,6 +36,9 @@ using namespace Strigi;
 
 InputStream*
 FileStreamOpener::openStream(const string& url) {
+    // a directory can be opened for reading, but has no content
+    struct stat s;
+    if (::stat(url.c_str(), &s) == 0 && S_ISDIR(s.st_mode)) return 0;
     InputStream* stream = new FileInputStream(url.c_str());
     if (stream->status() != Ok) {
         delete stream;
-- 
2.43.0


From 04b368c4fa59fcbecd5efffa468c83a6c5616bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 076/115] fix: sub-stream in error after a failed reset has the
 input's message

---
 lib/subinputstream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index 7717242..f27a281 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -85,7 +85,11 @@ SubInputStream::reset(int64_t newpos) {
     // positions after the end of this stream are outside of the window
     if (m_size != -1 && newpos > m_size) newpos = m_size;
     m_position = m_input->reset(newpos + m_offset);
-    if (m_position < m_offset) {
+    if (m_input->status() == Error) {
+        m_position = -1;
+        m_status = Error;
+        m_error = m_input->error();
+    } else if (m_position < m_offset) {
         cerr << "########### m_position " << m_position << " newpos " << newpos
             << endl;
         m_status = Error;
-- 
2.43.0


From 12bcfa2ac587eefffd3c7675ba3a03347051ccd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 077/115] fix: string-terminated sub-stream reports a failed
 reset of its input

---
 lib/stringterminatedsubstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 9bb485a..10244f8 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -132,6 +132,12 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
         // signal the end of stream at the next call
         m_status = Eof;
     }
+    if (p->m_input->status() == Error) {
+        // the input could not be repositioned
+        m_status = Error;
+        m_error = p->m_input->error();
+        return -2;
+    }
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
-- 
2.43.0


From bdd603f50272d53547c6fb409526539827dcdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:58 +0000
Subject: [PATCH 078/115] fix: mail stream does not scan a line after its input
 failed

---
 lib/mailinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 6c5b001..9b2e1b9 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -408,7 +408,7 @@ MailInputStream::Private::readHeaderLine() {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
         if (nread < linepos+1) {
             completeLine = true;
-            lineend = linestart + nread;
+            lineend = linestart + ((nread > 0) ?nread :0);
             if (m->m_input->status() == Error) {
                 m->m_status = Error;
                 m->m_error = m->m_input->error();
@@ -518,6 +518,7 @@ void
 MailInputStream::Private::scanBody() {
     while (m->m_status == Ok) {
         readHeaderLine();
+        if (m->m_status == Error) break;
         int32_t len = (int32_t)(lineend - linestart);
         // whitespace after the boundary is padding
         while (len > 2 && isblank(linestart[len-1])) len--;
-- 
2.43.0


From d0ce3e13af100ff1355f4ab66e40c8ee8a20bf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:34 +0000
Subject: [PATCH 079/115] fix: automatic detection looks at a fixed amount of
 data and not beyond it

---
 lib/substreamproviderprovider.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..78cadac 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -33,23 +33,19 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     // read the header
     const char* header;
     int64_t pos = input->position();
-    int32_t headersize = input->read(header, 1024, 0);
+    int32_t headersize = input->read(header, 1024, 1024);
     input->reset(pos);
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From fb9ca112593b2305e9ce1249056d3304b4b2653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 080/115] fix: gzip and bzip2 streams report that unused input
 could not be put back

---
 lib/bz2inputstream.cpp  | 4 ++++
 lib/gzipinputstream.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index 0099ec3..5cb7808 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -165,6 +165,10 @@ BZ2InputStream::fillBuffer(char* start, int32_t space) {
     case BZ_STREAM_END:
         if (bzstream.avail_in) {
             p->input->reset(p->input->position()-bzstream.avail_in);
+            if (p->input->status() == Error) {
+                m_error = p->input->error();
+                m_status = Error;
+            }
         }
         // we are finished decompressing,
         // (but this stream is not yet finished)
diff --git a/lib/gzipinputstream.cpp b/lib/gzipinputstream.cpp
index e07045f..061c6ab 100644
--- a/lib/gzipinputstream.cpp
+++ b/lib/gzipinputstream.cpp
@@ -176,6 +176,10 @@ GZipInputStream::fillBuffer(char* start, int32_t space) {
     case Z_STREAM_END:
         if (zstream.avail_in) {
             p->input->reset(p->input->position()-zstream.avail_in);
+            if (p->input->status() == Error) {
+                m_error = p->input->error();
+                m_status = Error;
+            }
         }
         // we are finished decompressing,
         // (but this stream is not yet finished)
-- 
2.43.0


From 7423aa19ca57c560f834dd13614f14628ebd7586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 081/115] fix: ole stream does not use data of an input that
 could not be reset

---
 lib/oleinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index d3574d5..99d9560 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -176,6 +176,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     input->reset(0);
+    if (input->status() == Error) {
+        stream->m_status = Error;
+        stream->m_error = input->error();
+        return;
+    }
 
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
@@ -213,7 +218,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
     size = input->read(data, toread, toread);
     input->reset(0);
-    if (size != input->size()) {
+    if (input->status() == Error || size != input->size()) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
-- 
2.43.0


From 41ec939b2f28ca4932d79fa498f3f268bd75aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 082/115] fix: mail stream reports that its input failed in the
 only entry

---
 lib/mailinputstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 9b2e1b9..5d73126 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -676,6 +676,11 @@ MailInputStream::Private::ensureFileName() {
 }
 InputStream*
 MailInputStream::nextEntry() {
+    if (m_status == Eof && m_input->status() == Error) {
+        // reading the last entry failed
+        m_status = Error;
+        m_error = m_input->error();
+    }
     if (m_status != Ok) return 0;
     // if the mail does not consist of multiple parts, we give a pointer to
     // the input stream
@@ -684,6 +689,11 @@ MailInputStream::nextEntry() {
         m_status = Eof;
         // the body starts after the empty line that ends the header
         m_input->reset(p->nextLineStartPosition);
+        if (m_input->status() == Error) {
+            m_status = Error;
+            m_error = m_input->error();
+            return 0;
+        }
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
-- 
2.43.0


From b6cf9b6c3b17ffe8dccdcaa7773c0298c8862bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 083/115] fix: a stream in error can be reset to its own
 position

---
 include/strigi/bufferedstream.h | 2 +-
 lib/subinputstream.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 0201fa4..295ea1a 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -163,8 +163,8 @@ BufferedStream<T>::read(const T*& start, int32_t min, int32_t max) {
 template <class T>
 int64_t
 BufferedStream<T>::reset(int64_t newpos) {
-    assert(newpos >= 0);
     if (StreamBase<T>::m_status == Error) return -2;
+    assert(newpos >= 0);
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
     if (buffer.readPos >= buffer.start + d && -d <= buffer.avail) {
diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index f27a281..81e7d64 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -78,8 +78,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
 }
 int64_t
 SubInputStream::reset(int64_t newpos) {
-    assert(newpos >= 0);
     if (m_status == Error) return -2;
+    assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
     // positions after the end of this stream are outside of the window
-- 
2.43.0


From a9861a981788e3b9f6ef0fbd5d9b88aed7bbd599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 084/115] fix: rpm stream does not use data of an input that
 could not be reset

---
 lib/rpminputstream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 35d6a4a..40df328 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -139,6 +139,10 @@ RpmInputStream::RpmInputStream(InputStream* input)
         return;
     }
     m_input->reset(pos);
+    if (m_input->status() == Error) {
+        m_error = m_input->error();
+        return;
+    }
     if (BZ2InputStream::checkHeader(b, 16)) {
         uncompressionStream = new BZ2InputStream(m_input);
     } else if (LZMAInputStream::checkHeader(b, 16)) {
-- 
2.43.0


From 7ecf71b387ae2e65067c70924a785afdadc159d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:47 +0000
Subject: [PATCH 085/115] fix: unbuffered file stream reports a failed read
 when it is opened

---
 lib/skippingfileinputstream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index d16bb35..d873b8f 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -71,6 +71,9 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
             if (n == 1) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
+            } else if (ferror(file)) {
+                m_error = "Could not read from file '" + filepath + "'.";
+                m_status = Error;
             }
         }
     }
-- 
2.43.0


From a489511ef1757593fc771765766dbea81f6295d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:31 +0000
Subject: [PATCH 086/115] fix: a large minimum made buffered streams allocate
 as much and overflow the buffer size

The buffer now grows with the data that comes in.
---
 include/strigi/bufferedstream.h |  8 +++++++-
 include/strigi/streambuffer.h   | 16 +++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 295ea1a..2c484d6 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -108,7 +108,13 @@ BufferedStream<T>::writeToBuffer(int32_t ntoread, int32_t maxread) {
     int32_t nwritten = 0;
     while (missing > 0 && nwritten >= 0) {
         int32_t space;
-        space = buffer.makeSpace(missing);
+        // let the buffer grow with the amount of data and not with the minimum
+        // that was asked for, which may be much more than there is
+        int32_t wanted = missing;
+        if (wanted > 1048576 && wanted > buffer.avail) {
+            wanted = (buffer.avail > 1048576) ?buffer.avail :1048576;
+        }
+        space = buffer.makeSpace(wanted);
         if (maxread >= ntoread && space > maxread) {
              space = maxread;
         }
diff --git a/include/strigi/streambuffer.h b/include/strigi/streambuffer.h
index 5b26435..8a3f50e 100644
--- a/include/strigi/streambuffer.h
+++ b/include/strigi/streambuffer.h
@@ -171,15 +171,17 @@ StreamBuffer<T>::makeSpace(int32_t needed) {
 
     // still not enough space, we have to allocate more
 //    printf("resize %i %i %i %i %i\n", avail, needed, space, size + needed - space, size);
-    if (size > needed - space) {
+    int64_t newsize = (int64_t)size + needed - space;
+    if (newsize < 2 * (int64_t)size) {
         // double the buffer size
-        space += size;
-        setSize(2 * size);
-        return space;
+        newsize = 2 * (int64_t)size;
+    }
+    if (newsize > 0x7fffffff) {
+        newsize = 0x7fffffff;
     }
-    // just allocate what is needed
-    setSize(size + needed - space);
-    return needed;
+    space += (int32_t)(newsize - size);
+    setSize((int32_t)newsize);
+    return space;
 }
 template <class T>
 int32_t
-- 
2.43.0


From f8045834b77287db7e15e864c757ee7fa64b43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:48 +0000
Subject: [PATCH 087/115] fix: stack overflow and quadratic time on archives
 with very deep paths

---
 lib/archiveentrycache.cpp | 15 ++++++++++++++-
 lib/listinginprogress.cpp | 38 +++++++++++++++++++++++++-------------
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/lib/archiveentrycache.cpp b/lib/archiveentrycache.cpp
index d8ca405..24b98d2 100644
--- a/lib/archiveentrycache.cpp
+++ b/lib/archiveentrycache.cpp
@@ -19,13 +19,26 @@
  */
 #include "archiveentrycache.h"
 #include <iostream>
+#include <vector>
 
 using namespace std;
 
 ArchiveEntryCache::SubEntry::~SubEntry() {
+    // the depth of the tree is determined by the names in the archive, so the
+    // entries are not deleted recursively
+    vector<SubEntry*> todelete;
     SubEntryMap::iterator i;
     for (i=entries.begin(); i!=entries.end(); ++i) {
-        delete i->second;
+        todelete.push_back(i->second);
+    }
+    while (todelete.size()) {
+        SubEntry* e = todelete.back();
+        todelete.pop_back();
+        for (i=e->entries.begin(); i!=e->entries.end(); ++i) {
+            todelete.push_back(i->second);
+        }
+        e->entries.clear();
+        delete e;
     }
 }
 map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 936be80..47ca216 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -33,18 +33,28 @@ namespace {
  **/
 void
 merge(ArchiveEntryCache::SubEntry* to, ArchiveEntryCache::SubEntry* from) {
-    to->entry = from->entry;
-    ArchiveEntryCache::SubEntryMap::const_iterator i;
-    for (i = from->entries.begin(); i != from->entries.end(); ++i) {
-        ArchiveEntryCache::SubEntry*& child = to->entries[i->first];
-        if (child) {
-            merge(child, i->second);
-        } else {
-            child = i->second;
+    // not recursive because an archive can contain very deep paths
+    typedef pair<ArchiveEntryCache::SubEntry*, ArchiveEntryCache::SubEntry*>
+        EntryPair;
+    vector<EntryPair> todo;
+    todo.push_back(EntryPair(to, from));
+    while (todo.size()) {
+        to = todo.back().first;
+        from = todo.back().second;
+        todo.pop_back();
+        to->entry = from->entry;
+        ArchiveEntryCache::SubEntryMap::const_iterator i;
+        for (i = from->entries.begin(); i != from->entries.end(); ++i) {
+            ArchiveEntryCache::SubEntry*& child = to->entries[i->first];
+            if (child) {
+                todo.push_back(EntryPair(child, i->second));
+            } else {
+                child = i->second;
+            }
         }
+        from->entries.clear();
+        delete from;
     }
-    from->entries.clear();
-    delete from;
 }
 /**
  * Add the entry @p se to the cache.
@@ -60,12 +70,14 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
     // 'names'. The filename is kept in the filename member of se
     vector<string> names;
     string& name = se->entry.filename;
+    string::size_type start = 0;
     string::size_type p = name.find('/');
     while (p != string::npos) {
-        names.push_back(name.substr(0, p));
-        name.erase(0, p + 1);
-        p = name.find('/');
+        names.push_back(name.substr(start, p - start));
+        start = p + 1;
+        p = name.find('/', start);
     }
+    name.erase(0, start);
 
     // find the right entry
     ArchiveEntryCache::SubEntry* child;
-- 
2.43.0


From 8dd7ae82a1c2e67ad1b7f27c01523b62f732312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 088/115] fix: listing an archive that contains itself did not
 end

---
 lib/listinginprogress.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 47ca216..7e5e4be 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -28,6 +28,10 @@ using namespace Strigi;
 using namespace std;
 
 namespace {
+/**
+ * The number of levels of nested archives that is listed.
+ **/
+const int maxdepth = 64;
 /**
  * Move the information and the entries of @p from to @p to and delete @p from.
  **/
@@ -255,7 +259,9 @@ ListingInProgress::nextEntry(int depth) {
         // create a child entry
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
-        ce->p = subStreamProvider(subs, e->p->currentEntry(), ce->streams);
+        // archives that contain themselves have no deepest level
+        ce->p = (depth < maxdepth)
+            ?subStreamProvider(subs, e->p->currentEntry(), ce->streams) :0;
         if (ce->p) {
             // the child has substreams too
             ce->entry->entry.type
-- 
2.43.0


From c5318256ac56c5da496fe20591e3996491c57168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:53 +0000
Subject: [PATCH 089/115] fix: unbuffered streams of unknown size overwrote
 data when going forward in it

---
 lib/skippingfileinputstream.cpp | 4 +++-
 lib/skippingfileinputstream.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index d873b8f..88dd440 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -32,6 +32,7 @@ using namespace std;
 SkippingFileInputStream::SkippingFileInputStream(const char* filepath) {
     buffer = 0;
     buffersize = 0;
+    furthest = 0;
     if (filepath == 0) {
         file = 0;
         m_error = "No filename was provided.";
@@ -112,6 +113,7 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     }
     int32_t nr = (int32_t)fread(buffer, 1, n, file);
     m_position = ftell(file);
+    if (m_position > furthest) furthest = m_position;
     if (nr != n) {
         if (ferror(file)) {
             m_error = "Could not read from file '" + filepath + "'.";
@@ -145,7 +147,7 @@ SkippingFileInputStream::reset(int64_t pos) {
          return -2; // error
     }
     if (m_status == Error) return -2;
-    if (m_size < 0 && pos > m_position) {
+    if (m_size < 0 && pos > m_position && pos > furthest) {
         skip(pos - m_position);
         return (m_status == Error) ?-2 :m_position;
     }
diff --git a/lib/skippingfileinputstream.h b/lib/skippingfileinputstream.h
index b504a57..cac4f00 100644
--- a/lib/skippingfileinputstream.h
+++ b/lib/skippingfileinputstream.h
@@ -33,6 +33,7 @@ private:
     char *buffer;
     std::string filepath;
     int32_t buffersize;
+    int64_t furthest; // the file is known to reach up to here
 
     void open(FILE* f, const char* path);
 
-- 
2.43.0


From 292ca1c1c58ee81899bb858fc806ce4a254b394d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:10 +0000
Subject: [PATCH 090/115] fix: unbuffered streams allocated as much as the
 largest amount asked for and overflowed the buffer size

---
 lib/skippingfileinputstream.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 88dd440..566b31a 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -100,13 +100,20 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     int32_t n = max(_min, _max);
     if (_max <= 0) {
         n = max(1024, max(buffersize, _min));
+    } else {
+        // the limit may be far more than there is to read
+        n = max(_min, min(n, max(buffersize, 1048576)));
+    }
+    if (m_size != -1 && n > buffersize && n > m_size - m_position) {
+        n = (int32_t)(m_size - m_position + 1);
     }
     if (n > buffersize) {
         if (_max <= 0) {
-            n = max(n, 2 * buffersize);
-            if (m_size != -1 && n > m_size - m_position) {
-                n = m_size - m_position + 1;
+            int64_t doubled = 2 * (int64_t)buffersize;
+            if (m_size != -1 && doubled > m_size - m_position) {
+                doubled = m_size - m_position + 1;
             }
+            if (doubled > n && doubled <= 0x7fffffff) n = (int32_t)doubled;
         }
         buffer = (char*)realloc(buffer, n);
         buffersize = n;
-- 
2.43.0


From 2479097bf1b91e6817e4b0cdf12e1b43429e19e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 091/115] fix: string-terminated sub-streams overflowed when
 asked for everything at once

---
 lib/stringterminatedsubstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 10244f8..3733b33 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -88,6 +88,8 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     int32_t tlmax = max;
     if (tlmin == 0) {
         tlmin = 1 + tl;
+    } else if (tlmin > 0x7fffffff - tl) {
+        tlmin = 0x7fffffff;
     } else {
         tlmin += tl;
     }
-- 
2.43.0


From 26061ef4078ef36f951ed559dc0e98238b5ec184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 092/115] fix: sub-streams overflowed when reset to very large
 positions

---
 lib/subinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index 81e7d64..9fc48b7 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -84,7 +84,9 @@ SubInputStream::reset(int64_t newpos) {
 //         m_position, newpos, m_offset, m_size);
     // positions after the end of this stream are outside of the window
     if (m_size != -1 && newpos > m_size) newpos = m_size;
-    m_position = m_input->reset(newpos + m_offset);
+    const int64_t maxpos = 0x7fffffffffffffffLL - m_offset;
+    m_position = m_input->reset(
+        ((newpos < maxpos) ?newpos :maxpos) + m_offset);
     if (m_input->status() == Error) {
         m_position = -1;
         m_status = Error;
-- 
2.43.0


From cab4c6cff5b9043bdde7100cf1a019b9c0c67e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:20 +0000
Subject: [PATCH 093/115] fix: string-terminated sub-streams overflowed when
 reset to very large positions

---
 lib/stringterminatedsubstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 3733b33..ac2d9ce 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -153,7 +153,7 @@ StringTerminatedSubStream::reset(int64_t newpos) {
     if (m_size != -1) {
         // do not go past the terminator
         if (newpos > m_size) newpos = m_size;
-    } else if (newpos > m_position && newpos + p->m_offset > p->furthest) {
+    } else if (newpos > m_position && newpos > p->furthest - p->m_offset) {
         // the terminator might come before newpos
         skip(newpos - m_position);
         return (m_status == Error) ?-2 :m_position;
-- 
2.43.0


From e99ae54665d48cba5c2c004edae8e35ab45f4c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:41 +0000
Subject: [PATCH 094/115] fix: lzma stream that ends before its declared size
 was reported as complete

---
 lib/lzmainputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index 55bf4d6..7dcb1f6 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -171,6 +171,11 @@ LZMAInputStream::Private::fillBuffer(char* start, int32_t space) {
         }
         p->m_size = bytesDecompressed;
     } else if (status == LZMA_STATUS_FINISHED_WITH_MARK) {
+        if (p->m_size != -1 && p->m_size != bytesDecompressed) {
+            p->m_error = "unexpected end";
+            p->m_status = Error;
+            return -1;
+        }
         p->m_size = bytesDecompressed;
     }
     return (int32_t)outProcessed;
-- 
2.43.0


From f1a09f0c8ef82b27cffe8c327836a3b218e05235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 095/115] fix: names of ar entries could each be as long as the
 name table

---
 lib/arinputstream.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 2d91189..570fa76 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -149,13 +149,19 @@ ArInputStream::readHeader() {
                 m_status = Error;
                 return true;
             }
+            // entries can share a name, so do not let names be as long as the
+            // table
+            const size_t maxlen = 4096;
             const char* c = gnufilenames.c_str() + p;
-            const char* e = std::strchr(c, '/');
-            if (e) {
-                m_entryinfo.filename = std::string(c, e-c);
-            } else {
-                m_entryinfo.filename = c;
+            size_t l;
+            for (l = 0; l <= maxlen && c[l] && c[l] != '/'; ++l) {
             }
+            if (l > maxlen) {
+                m_error = "Invalid name field.";
+                m_status = Error;
+                return true;
+            }
+            m_entryinfo.filename.assign(c, l);
         }
     } else {
         m_entryinfo.filename = std::string(b, len);
-- 
2.43.0


From 0af9fee5737e42527eaf7ff0d35976fb579190ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:11 +0000
Subject: [PATCH 096/115] fix: stacked decompressors in an archive listing
 could take gigabytes of memory

---
 lib/listinginprogress.cpp | 52 ++++++++++++++++++++++++++++++++-------
 lib/listinginprogress.h   |  4 ++-
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 7e5e4be..e66d89c 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -21,6 +21,7 @@
 #include <strigi/gzipinputstream.h>
 #include <strigi/bz2inputstream.h>
 #include <strigi/lzmainputstream.h>
+#include <strigi/rpminputstream.h>
 #include <iostream>
 #include <algorithm> 
 
@@ -32,6 +33,21 @@ namespace {
  * The number of levels of nested archives that is listed.
  **/
 const int maxdepth = 64;
+/**
+ * Decompression takes memory: up to 4 MB for most formats, but up to 32 MB for
+ * LZMA. This limits the number of decompressors that are stacked.
+ **/
+const int maxcost = 64;
+const int lzmacost = 8;
+int
+cost(const list<StreamPtr>& l) {
+    int n = 0;
+    list<StreamPtr>::const_iterator i;
+    for (i=l.begin(); i!=l.end(); ++i) {
+        n += i->cost();
+    }
+    return n;
+}
 /**
  * Move the information and the entries of @p from to @p to and delete @p from.
  **/
@@ -108,6 +124,15 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
 }
 }
 
+int
+StreamPtr::cost() const {
+    if (dynamic_cast<LZMAInputStream*>(stream)
+            || dynamic_cast<RpmInputStream*>(provider)) {
+        return lzmacost;
+    }
+    return dynamic_cast<BZ2InputStream*>(stream)
+        || dynamic_cast<GZipInputStream*>(stream) ?1 :0;
+}
 void
 free(list<StreamPtr>& l) {
     list<StreamPtr>::iterator i;
@@ -119,24 +144,25 @@ free(list<StreamPtr>& l) {
 
 SubStreamProvider*
 subStreamProvider(const Subs& subs, InputStream* input,
-         list<StreamPtr>& streams) {
+         list<StreamPtr>& streams, int usedcost) {
     if (input == 0) return 0;
+    usedcost += cost(streams);
     InputStream* s = input;
 
     bool foundCompressedStream;
-    int nestingDepth = 0;
     do {
         foundCompressedStream = false;
         // check if this is a compressed stream
         const char* c;
         int32_t n = s->read(c, 16, 0);
         s->reset(0);
-        if (BZ2InputStream::checkHeader(c, n)) {
+        if (BZ2InputStream::checkHeader(c, n) && usedcost < maxcost) {
             InputStream* ns = new BZ2InputStream(s);
             if (ns->status() == Ok) {
                 foundCompressedStream = true;
                 s = ns;
                 streams.push_back(s);
+                usedcost += streams.back().cost();
             } else {
                 delete ns;
                 s->reset(0);
@@ -144,12 +170,14 @@ subStreamProvider(const Subs& subs, InputStream* input,
         }
         n = s->read(c, 2, 0);
         s->reset(0);
-        if (n >= 2 && c[0] == 0x1f && c[1] == (char)0x8b) {
+        if (n >= 2 && c[0] == 0x1f && c[1] == (char)0x8b
+                && usedcost < maxcost) {
             InputStream* ns = new GZipInputStream(s);
             if (ns->status() == Ok) {
                 foundCompressedStream = true;
                 s = ns;
                 streams.push_back(s);
+                usedcost += streams.back().cost();
             } else {
                 delete ns;
                 s->reset(0);
@@ -157,18 +185,20 @@ subStreamProvider(const Subs& subs, InputStream* input,
         }
         n = s->read(c, 16, 0);
         s->reset(0);
-        if (LZMAInputStream::checkHeader(c, n)) {
+        if (LZMAInputStream::checkHeader(c, n)
+                && usedcost + lzmacost <= maxcost) {
             InputStream* ns = new LZMAInputStream(s);
             if (ns->status() == Ok) {
                 foundCompressedStream = true;
                 s = ns;
                 streams.push_back(s);
+                usedcost += streams.back().cost();
             } else {
                 delete ns;
                 s->reset(0);
             }
         }
-    } while (foundCompressedStream && nestingDepth++ < 32);
+    } while (foundCompressedStream);
  
     const char* c;
     // not more than this: the answer should not depend on how much of the
@@ -183,7 +213,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
         if (i->first(c, n)) {
             // create a new SubStreamProvider
             ss = i->second(s);
-            if (ss->nextEntry()) {
+            if (usedcost + StreamPtr(ss).cost() <= maxcost && ss->nextEntry()) {
                 streams.push_back(ss);
                 // return the first substream
                 return ss;
@@ -260,8 +290,12 @@ ListingInProgress::nextEntry(int depth) {
         ce->entry = new ArchiveEntryCache::SubEntry();
         ce->entry->entry = e->p->entryInfo();
         // archives that contain themselves have no deepest level
-        ce->p = (depth < maxdepth)
-            ?subStreamProvider(subs, e->p->currentEntry(), ce->streams) :0;
+        int usedcost = 0;
+        for (int i = 0; i <= depth; ++i) {
+            usedcost += cost(stack[i].streams);
+        }
+        ce->p = (depth < maxdepth) ?subStreamProvider(subs,
+            e->p->currentEntry(), ce->streams, usedcost) :0;
         if (ce->p) {
             // the child has substreams too
             ce->entry->entry.type
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index a7070fe..82c7c58 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -40,6 +40,8 @@ public:
     StreamPtr() :stream(0), provider(0) {}
     StreamPtr(Strigi::InputStream* s) :stream(s), provider(0) {}
     StreamPtr(Strigi::SubStreamProvider* p) :stream(0), provider(p) {}
+    /** The amount of memory this holds, see maxcost. **/
+    int cost() const;
     void free() {
         delete stream;
         delete provider;
@@ -48,7 +50,7 @@ public:
 
 Strigi::SubStreamProvider*
 subStreamProvider(const Subs& subs, Strigi::InputStream* input,
-         std::list<StreamPtr>& streams);
+         std::list<StreamPtr>& streams, int usedcost = 0);
 void free(std::list<StreamPtr>& l);
 
 class StackEntry {
-- 
2.43.0


From 5238d95d3ef72a222fecb514662bd5d1589fd7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 097/115] fix: skipping very far in an unbuffered file
 overflowed

---
 lib/skippingfileinputstream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 566b31a..60eb443 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -144,6 +144,7 @@ SkippingFileInputStream::skip(int64_t ntoskip) {
         return InputStream::skip(ntoskip);
     }
     int64_t oldpos = m_position;
+    if (ntoskip > m_size - m_position) ntoskip = m_size - m_position;
     if (reset(m_position + ntoskip) == -2) return -2;
     return m_position - oldpos;
 }
-- 
2.43.0


From e8be0b10ce4c2d92638386bf14b0b271c5600115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 098/115] fix: threads that decode base64 for the first time
 raced for the decoding table

---
 lib/base64inputstream.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index adbf9e7..3d4dc42 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -48,16 +48,14 @@ const unsigned char alphabet[]
     = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
 bool inalphabet[256];
 unsigned char decoder[133];
-bool initializedAlphabet = false;
 void initialize();
 string decode(const char* in, string::size_type length);
 
 
-void
-initialize() {
-    if (!initializedAlphabet) {
-        initializedAlphabet = true;
-        // initialize the translation arrays
+/** Fills the translation arrays. **/
+class AlphabetInitializer {
+public:
+    AlphabetInitializer() {
         for (int i=64; i<256; ++i) {
             inalphabet[i] = 0;
         }
@@ -66,6 +64,13 @@ initialize() {
             decoder[alphabet[i]] = i;
         }
     }
+};
+
+void
+initialize() {
+    // the compiler makes sure that only one thread fills the arrays and that
+    // the others wait for it
+    static AlphabetInitializer initializer;
 }
 
 Base64InputStream::Base64InputStream(InputStream* i) 
-- 
2.43.0


From 77000c8d9f771547360aefbcb9f2236213dad00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 099/115] fix: read a mail from the position of the input
 instead of from position 0

A mail that starts after bytes that were read already was parsed from the
start of the input: its header was misread and the parts were wrong.
---
 lib/mailinputstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 5d73126..f538a68 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -367,7 +367,8 @@ MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     linestart = 0;
     lineend = 0;
     entrynumber = 0;
-    nextLineStartPosition = 0;
+    // the mail starts where the input is now
+    nextLineStartPosition = mail->m_input->position();
 }
 MailInputStream::Private::~Private() {
     if (substream && substream != m->m_entrystream) {
-- 
2.43.0


From b9a1f8856911108f7f2d5081f5a966849db497b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 100/115] fix: keep the pipes of ProcessInputStream off the
 standard descriptors

With closed standard streams pipe() returns descriptors 0 to 2, which the
child closes or replaces and which the parent takes for unused.
---
 lib/processinputstream.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index deed14d..0a12ed5 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -172,14 +172,28 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     return (int32_t)n;
 }
 // The pipes must not be inherited by other child processes: these would keep
-// them open.
+// them open. If standard streams of this process are closed, pipe() returns
+// their descriptors; these are avoided because the child replaces them.
 static bool
 openPipe(int p[2]) {
     if (pipe(p) == -1) {
         return false;
     }
-    fcntl(p[0], F_SETFD, FD_CLOEXEC);
-    fcntl(p[1], F_SETFD, FD_CLOEXEC);
+    for (int i = 0; i < 2; ++i) {
+        if (p[i] <= 2) {
+            int fd = fcntl(p[i], F_DUPFD, 3);
+            if (fd == -1) {
+                int error = errno;
+                close(p[0]);
+                close(p[1]);
+                errno = error;
+                return false;
+            }
+            close(p[i]);
+            p[i] = fd;
+        }
+        fcntl(p[i], F_SETFD, FD_CLOEXEC);
+    }
     return true;
 }
 void
-- 
2.43.0


From 72c1637288f6e8f6100255a9db857d63f8ea3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 101/115] fix: keep the spaces in the names of ar entries

A GNU entry name that ends with a slash can contain spaces: 'a b/' is not 'a'.
---
 lib/arinputstream.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 570fa76..4be65bc 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -97,11 +97,14 @@ ArInputStream::readHeader() {
         m_status = Error;
         return true;
     }
+    // a name ends with a slash (GNU) or is padded with spaces (BSD): a name
+    // that ends with a slash can contain spaces
     int len;
-    for (len=0; len<16; len++) {
-        char c = b[len];
-        if (c == ' ' || c == '/' || c == '\0') {
-            break;
+    for (len=0; len<16 && b[len] != '/' && b[len] != '\0'; len++) {
+    }
+    if (len == 16 || b[len] == '\0') {
+        while (len > 0 && b[len-1] == ' ') {
+            len--;
         }
     }
 
-- 
2.43.0


From 2c0a5c08099c5eca0d5ef05c71ac13715e8bf3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 102/115] fix: align ar entries relative to the start of the
 archive

An archive that starts at an odd position of its input was read from the
wrong bytes.
---
 include/strigi/arinputstream.h | 2 ++
 lib/arinputstream.cpp          | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/strigi/arinputstream.h b/include/strigi/arinputstream.h
index 3834cbe..f5cbcf8 100644
--- a/include/strigi/arinputstream.h
+++ b/include/strigi/arinputstream.h
@@ -28,6 +28,8 @@ class STREAMS_EXPORT ArInputStream : public SubStreamProvider {
 private:
     // information relating to the current entry
     std::string gnufilenames;
+    // entries are aligned relative to the start of the archive
+    int64_t startPosition;
 
     bool readHeader();
 public:
diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 4be65bc..f77bd03 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -33,7 +33,7 @@ ArInputStream::checkHeader(const char* data, int32_t datasize) {
     return ok;
 }
 ArInputStream::ArInputStream(InputStream* input)
-        : SubStreamProvider(input) {
+        : SubStreamProvider(input), startPosition(input->position()) {
     // check header
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
@@ -75,7 +75,7 @@ ArInputStream::readHeader() {
     int32_t nread;
 
     int64_t pos = m_input->position();
-    if (pos%2) {
+    if ((pos-startPosition)%2) {
         m_input->skip(1);
     }
 
-- 
2.43.0


From b3e89c4fe77738fdcf3a706b7ca152a37ac44359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 103/115] fix: string-terminated sub-streams of more than 2 GB
 could pass the terminator

The distance to the furthest searched position was truncated to 32 bits.
---
 lib/stringterminatedsubstream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index ac2d9ce..d304b1a 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -62,10 +62,10 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
-    nread = (int32_t)(p->furthest - pos);
-    if (nread > 0 && min <= nread) {
-        if (max <= 0 || max > nread) {
-            max = nread;
+    const int64_t known = p->furthest - pos;
+    if (known > 0 && min <= known) {
+        if (max <= 0 || max > known) {
+            max = (int32_t)((known < 0x7fffffff) ?known :0x7fffffff);
         }
         nread = p->m_input->read(start, min, max);
         if (nread < -1) {
-- 
2.43.0


From f4a4bd41bd0e979a8dbeb57a398e03dd77795f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:19 +0000
Subject: [PATCH 104/115] fix: read integers from unaligned data without
 undefined behaviour

---
 include/strigi/textutils.h | 37 +++++++++++++++++++++++++------------
 lib/textutils.cpp          | 24 ++++++++++++------------
 2 files changed, 37 insertions(+), 24 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index dc6bc91..054bc55 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -20,6 +20,7 @@
 #ifndef STRIGI_TEXTUTILS_H
 #define STRIGI_TEXTUTILS_H
 
+#include <cstring>
 #include <string>
 #include <strigi/strigiconfig.h>
 
@@ -42,24 +43,36 @@ STREAMS_EXPORT bool checkUtf8(const std::string&);
 
 STREAMS_EXPORT void convertNewLines(char* p);
 
+/**
+ * @brief Read an integer in the byte order of the machine.
+ *
+ * There are no requirements for the alignment of the data.
+ **/
+template <class T>
+inline T readInt(const char* c) {
+    T value;
+    std::memcpy(&value, c, sizeof(T));
+    return value;
+}
+
 #ifdef __BIG_ENDIAN__
 inline STREAMS_INLINE_EXPORT int16_t  readBigEndianInt16(const char* c) {
-    return *reinterpret_cast<const int16_t*>(c);
+    return readInt<int16_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint16_t readBigEndianUInt16(const char* c) {
-    return *reinterpret_cast<const uint16_t*>(c);
+    return readInt<uint16_t>(c);
 }
 inline STREAMS_INLINE_EXPORT int32_t  readBigEndianInt32(const char* c) {
-    return *reinterpret_cast<const int32_t*>(c);
+    return readInt<int32_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const char* c) {
-    return *reinterpret_cast<const uint32_t*>(c);
+    return readInt<uint32_t>(c);
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const char* c) {
-    return *reinterpret_cast<const int64_t*>(c);
+    return readInt<int64_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const char* c) {
-    return *reinterpret_cast<const uint64_t*>(c);
+    return readInt<uint64_t>(c);
 }
 STREAMS_EXPORT int16_t  readLittleEndianInt16(const char* c);
 STREAMS_EXPORT uint16_t readLittleEndianUInt16(const char* c);
@@ -69,22 +82,22 @@ STREAMS_EXPORT int64_t  readLittleEndianInt64(const char* c);
 STREAMS_EXPORT uint64_t readLittleEndianUInt64(const char* c);
 #else
 inline STREAMS_INLINE_EXPORT int16_t  readLittleEndianInt16(const char* c) {
-    return *reinterpret_cast<const int16_t*>(c);
+    return readInt<int16_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint16_t readLittleEndianUInt16(const char* c) {
-    return *reinterpret_cast<const uint16_t*>(c);
+    return readInt<uint16_t>(c);
 }
 inline STREAMS_INLINE_EXPORT int32_t  readLittleEndianInt32(const char* c) {
-    return *reinterpret_cast<const int32_t*>(c);
+    return readInt<int32_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const char* c) {
-    return *reinterpret_cast<const uint32_t*>(c);
+    return readInt<uint32_t>(c);
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const char* c) {
-    return *reinterpret_cast<const int64_t*>(c);
+    return readInt<int64_t>(c);
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const char* c) {
-    return *reinterpret_cast<const uint64_t*>(c);
+    return readInt<uint64_t>(c);
 }
 STREAMS_EXPORT int16_t  readBigEndianInt16(const char* c);
 STREAMS_EXPORT uint16_t readBigEndianUInt16(const char* c);
diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index 6bd329d..9f70793 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -196,51 +196,51 @@ Strigi::convertNewLines(char* p) {
 #ifdef __BIG_ENDIAN__
 int16_t
 Strigi::readLittleEndianInt16(const char* c) {
-    return (int16_t)swap16(*reinterpret_cast<const int16_t*>(c));
+    return (int16_t)swap16(readInt<int16_t>(c));
 }
 uint16_t
 Strigi::readLittleEndianUInt16(const char* c) {
-    return swap16(*reinterpret_cast<const uint16_t*>(c));
+    return swap16(readInt<uint16_t>(c));
 }
 int32_t
 Strigi::readLittleEndianInt32(const char* c) {
-    return swap32(*reinterpret_cast<const int32_t*>(c));
+    return swap32(readInt<int32_t>(c));
 }
 uint32_t
 Strigi::readLittleEndianUInt32(const char* c) {
-    return swap32(*reinterpret_cast<const uint32_t*>(c));
+    return swap32(readInt<uint32_t>(c));
 }
 int64_t
 Strigi::readLittleEndianInt64(const char* c) {
-    return swap64(*reinterpret_cast<const int64_t*>(c));
+    return swap64(readInt<int64_t>(c));
 }
 uint64_t
 Strigi::readLittleEndianUInt64(const char* c) {
-    return swap64(*reinterpret_cast<const uint64_t*>(c));
+    return swap64(readInt<uint64_t>(c));
 }
 #else
 int16_t
 Strigi::readBigEndianInt16(const char* c) {
-    return (int16_t)swap16(*reinterpret_cast<const int16_t*>(c));
+    return (int16_t)swap16(readInt<int16_t>(c));
 }
 uint16_t
 Strigi::readBigEndianUInt16(const char* c) {
-    return (uint16_t)swap16(*reinterpret_cast<const uint16_t*>(c));
+    return (uint16_t)swap16(readInt<uint16_t>(c));
 }
 int32_t
 Strigi::readBigEndianInt32(const char* c) {
-    return swap32(*reinterpret_cast<const int32_t*>(c));
+    return swap32(readInt<int32_t>(c));
 }
 uint32_t
 Strigi::readBigEndianUInt32(const char* c) {
-    return swap32(*reinterpret_cast<const uint32_t*>(c));
+    return swap32(readInt<uint32_t>(c));
 }
 int64_t
 Strigi::readBigEndianInt64(const char* c) {
-    return swap64(*reinterpret_cast<const int64_t*>(c));
+    return swap64(readInt<int64_t>(c));
 }
 uint64_t
 Strigi::readBigEndianUInt64(const char* c) {
-    return swap64(*reinterpret_cast<const uint64_t*>(c));
+    return swap64(readInt<uint64_t>(c));
 }
 #endif
-- 
2.43.0


From 0606ef28aa8c9ca3d265c8bb4ebe85a9aef4136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:22 +0000
Subject: [PATCH 105/115] fix: do not compute pointers outside of the buffer
 when a stream is reset

---
 include/strigi/bufferedstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strigi/bufferedstream.h b/include/strigi/bufferedstream.h
index 2c484d6..1a1ab07 100644
--- a/include/strigi/bufferedstream.h
+++ b/include/strigi/bufferedstream.h
@@ -173,7 +173,7 @@ BufferedStream<T>::reset(int64_t newpos) {
     assert(newpos >= 0);
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos >= buffer.start + d && -d <= buffer.avail) {
+    if (d <= buffer.readPos - buffer.start && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
-- 
2.43.0


From f796fb2df39e47253ced833766ef2fc4f7d65a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 106/115] fix: do not lose the last character of mail header
 values in some character sets

---
 lib/mailinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index f538a68..a14197c 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -88,9 +88,15 @@ Decoder::decode(const string& enc, string& data) {
         char* out = buffer;
         char* mem = out;
         size_t r = iconv(conv, &in, &ilen, &out, &olen);
+        if (r != (size_t)-1) {
+            // write out the character that the converter may have kept back
+            r = iconv(conv, 0, 0, &out, &olen);
+        }
         if (r != (size_t)-1) {
             data.assign(mem, out-mem);
         }
+        // the next text does not continue this one
+        iconv(conv, 0, 0, 0, 0);
     }
 }
 
-- 
2.43.0


From d297893381afc03471ab742faed8e608355f5730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:47 +0000
Subject: [PATCH 107/115] fix: do not list tar archives and SD files as mails

The functions that recognize the formats were called in the order of their
addresses. The check for mails accepts many tar archives and SD files, which
were then listed as a mail without their members.
---
 lib/archivereader.cpp             | 26 ++++++++++++--------------
 lib/listinginprogress.cpp         |  3 +--
 lib/listinginprogress.h           |  6 ++++--
 lib/substreamproviderprovider.cpp |  8 +++++---
 4 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 58b5f90..554886b 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -150,10 +150,9 @@ public:
     std::list<StreamOpener*> openers;
     /** Cache of EntryInfo object to files that have been read. **/
     ArchiveEntryCache cache;
-    /** Map with pointers to a headerCheck function as key and a factory
-     *  function as value. */
-    std::map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)> subs;
+    /** Pointers to a headerCheck function with the factory function to use if
+     *  that function accepts the header. */
+    Subs subs;
     /**
      * A list of dir listings in progress. Each ListingInProgress has a physical
      * file in common. The url of the physical file is the key.
@@ -184,21 +183,20 @@ public:
     ListingInProgress* findListingInProgress(const string& url) const;
 };
 ArchiveReader::ArchiveReaderPrivate::ArchiveReaderPrivate() {
-    typedef std::pair<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)> SubsPair;
-
-    subs.insert(SubsPair(MailInputStream::checkHeader,
-        MailInputStream::factory));
-    subs.insert(SubsPair(RpmInputStream::checkHeader,
+    subs.push_back(Subs::value_type(RpmInputStream::checkHeader,
         RpmInputStream::factory));
-    subs.insert(SubsPair(ArInputStream::checkHeader,
+    subs.push_back(Subs::value_type(ArInputStream::checkHeader,
         ArInputStream::factory));
-    subs.insert(SubsPair(ZipInputStream::checkHeader,
+    subs.push_back(Subs::value_type(ZipInputStream::checkHeader,
         ZipInputStream::factory));
-    subs.insert(SubsPair(TarInputStream::checkHeader,
+    subs.push_back(Subs::value_type(TarInputStream::checkHeader,
         TarInputStream::factory));
-    subs.insert(SubsPair(SdfInputStream::checkHeader,
+    subs.push_back(Subs::value_type(SdfInputStream::checkHeader,
         SdfInputStream::factory));
+    // anything that starts with a word and a colon looks like a mail header,
+    // so try the other formats first
+    subs.push_back(Subs::value_type(MailInputStream::checkHeader,
+        MailInputStream::factory));
 }
 ArchiveReader::ArchiveReaderPrivate::~ArchiveReaderPrivate() {
     if (openstreams.size() > 0) {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index e66d89c..b457c48 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -206,8 +206,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
     int32_t n = s->read(c, 1024, 1024);
     s->reset(0);
     SubStreamProvider* ss;
-    map<bool (*)(const char*, int32_t),
-        SubStreamProvider* (*)(InputStream*)>::const_iterator i;
+    Subs::const_iterator i;
     for (i = subs.begin(); i != subs.end(); ++i) {
         // check if the header matches for each substreamprovider
         if (i->first(c, n)) {
diff --git a/lib/listinginprogress.h b/lib/listinginprogress.h
index 82c7c58..e072dd9 100644
--- a/lib/listinginprogress.h
+++ b/lib/listinginprogress.h
@@ -25,8 +25,10 @@
 #include <list>
 #include <vector>
 
-typedef std::map<bool (*)(const char*, int32_t),
-    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> Subs;
+/** Header checks with the factory function that goes with each of them. They
+ *  are used in this order. **/
+typedef std::vector<std::pair<bool (*)(const char*, int32_t),
+    Strigi::SubStreamProvider* (*)(Strigi::InputStream*)> > Subs;
 
 /** Convenience class that holds a pointer to either a stream or a
  *  SubStreamProvider. It ensures proper destruction of the objects pointed
diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index 78cadac..b8ff7fa 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,14 +38,16 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    if (MailInputStream::checkHeader(header, headersize)) {
-        return new MailInputStream(input);
-    }
     if (ZipInputStream::checkHeader(header, headersize)) {
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
         return new SdfInputStream(input);
     }
+    // anything that starts with a word and a colon looks like a mail header,
+    // so try the other formats first
+    if (MailInputStream::checkHeader(header, headersize)) {
+        return new MailInputStream(input);
+    }
     return 0;
 }
-- 
2.43.0


From 8574dcc386e1f284833935e4e2dd72524c09374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 108/115] fix: skip in SkippingFileInputStream2 without losing
 track of the position

After a skip beyond the buffer a reset gave data of another place in the file,
skipping beyond the end moved the position beyond the size of the file, and
skipping in a stream with an error or of unknown size was not handled.
---
 lib/skippingbufferedstream.h     | 21 ++++++++++++++++++---
 lib/skippingfileinputstream2.cpp | 12 ++++++++++++
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..f6598ce 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -77,6 +77,16 @@ protected:
         buffer.avail = 0; 
         finishedWritingToBuffer = false;
     }
+    /**
+     * @brief Forget what is in the buffer
+     *
+     * Call this from advanceInput() when the input was moved without reading
+     * what was skipped. The buffer has been read completely then.
+     */
+    void dropBuffer() {
+        buffer.readPos = buffer.start;
+        buffer.avail = 0;
+    }
     /**
      * @brief Sets the minimum size of the buffer
      */
@@ -169,7 +179,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (d <= buffer.readPos - buffer.start && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -181,7 +191,8 @@ template <class T>
 int64_t
 SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     assert(ntoskip >= 0);
-    if (ntoskip == 0) return 0;
+    if (StreamBase<T>::m_status == Error) return -2;
+    if (ntoskip == 0 || StreamBase<T>::m_status == Eof) return 0;
     if (buffer.avail > ntoskip) {
         buffer.avail -= (int32_t)ntoskip;
         buffer.readPos += ntoskip;
@@ -191,6 +202,7 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     int32_t frombuffer = buffer.avail;
     StreamBase<T>::m_position += frombuffer;
     int64_t oldpos = StreamBase<T>::m_position;
+    buffer.readPos += frombuffer;
     buffer.avail = 0;
     ntoskip -= frombuffer;
     int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
@@ -214,8 +226,11 @@ SkippingBufferedStream<T>::advanceInput(int64_t ntoskip) {
     int32_t nread;
     int64_t skipped = 0;
     while (ntoskip) {
-        int32_t step = (int32_t)((ntoskip > buffer.size) ?buffer.size :ntoskip);
+        int32_t step = (int32_t)((ntoskip > 10000000) ?10000000 :ntoskip);
         nread = read(begin, 1, step);
+        if (nread < -1) {
+            return nread;
+        }
         if (nread <= 0) {
             return skipped;
         }
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..ddf4365 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -73,6 +73,10 @@ SkippingFileInputStream2::open(FILE* f, const char* path, int32_t buffersize) {
                 m_size = -1;
                 fseeko(file, 0, SEEK_SET);
             } else {
+                if (ferror(file)) {
+                    m_error = "Could not read from file '" + filepath + "'.";
+                    m_status = Error;
+                }
                 fclose(file);
                 file = 0;
                 return;
@@ -116,6 +120,13 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    if (m_size == -1) {
+        // the end is not known, so read what is skipped
+        return SkippingBufferedInputStream::advanceInput(ntoskip);
+    }
+    if (ntoskip > m_size - m_position) {
+        ntoskip = m_size - m_position;
+    }
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
@@ -123,5 +134,6 @@ SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
         m_status = Error;
         return -1;
     }
+    dropBuffer();
     return ntoskip;
 }
-- 
2.43.0


From 8219cfc88eeafea15d5f341302d1b9c7009cd4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:14 +0000
Subject: [PATCH 109/115] fix: read zip members with a compressed size of 2 GiB
 or more

---
 include/strigi/zipinputstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..e4fddb1 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    int64_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
-- 
2.43.0


From 5362289bdab6aedd7f0f3cc105c8308cd0b6861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:16 +0000
Subject: [PATCH 110/115] fix: do not let the children of other threads inherit
 the pipes of a process stream

---
 lib/processinputstream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 0a12ed5..5bc8f8c 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -176,12 +176,20 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
 // their descriptors; these are avoided because the child replaces them.
 static bool
 openPipe(int p[2]) {
-    if (pipe(p) == -1) {
+#ifdef __linux__
+    // another thread may start a child process at any time
+    const int dupfd = F_DUPFD_CLOEXEC;
+    int r = pipe2(p, O_CLOEXEC);
+#else
+    const int dupfd = F_DUPFD;
+    int r = pipe(p);
+#endif
+    if (r == -1) {
         return false;
     }
     for (int i = 0; i < 2; ++i) {
         if (p[i] <= 2) {
-            int fd = fcntl(p[i], F_DUPFD, 3);
+            int fd = fcntl(p[i], dupfd, 3);
             if (fd == -1) {
                 int error = errno;
                 close(p[0]);
-- 
2.43.0


From 499a865971603f9c651b725d630c084b19f8eb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:24 +0000
Subject: [PATCH 111/115] fix: accept a zip archive without members

Such an archive is only the 22 byte end record, shorter than the 30 byte
member header that was asked for, and was reported as truncated.
---
 lib/zipinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index d95926a..fa28dce 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -159,6 +159,11 @@ ZipInputStream::readHeader() {
     // read the first 30 characters
     toread = 30;
     nread = m_input->read(b, toread, toread);
+    if (nread >= 22 && nread < toread && memcmp(b, "PK\5\6", 4) == 0) {
+        // an archive without members is just an end record of 22 bytes
+        m_status = Eof;
+        return;
+    }
     if (nread != toread) {
         m_error = "Error reading zip header: ";
         if (nread == -1) {
-- 
2.43.0


From 3a5c9124edefe4c20a6b9230a85bf2e5bee5fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:15 +0000
Subject: [PATCH 112/115] fix: accept tar members whose name is all in the
 prefix field

A directory name ends in a slash, which is where writers may split it, so
that nothing is left for the name field. The header was taken for the end
of the archive and the members behind it were lost.
---
 lib/tarinputstream.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index 149603d..1640a36 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -165,7 +165,9 @@ TarInputStream::parseHeader() {
         if (m_status) return;
     }
 
-    if (len == 0) {
+    // the name can be preceded by the directory in the prefix field
+    const bool prefixed = memcmp(hb+257, "ustar", 6) == 0 && hb[345];
+    if (len == 0 && !prefixed) {
         // ready
         m_status = Eof;
         return;
@@ -174,8 +176,7 @@ TarInputStream::parseHeader() {
     if (m_entryinfo.filename.length()) {
         // the name came from a LongLink entry
     } else {
-        if (memcmp(hb+257, "ustar", 6) == 0 && hb[345]) {
-            // the name is preceded by the directory in the prefix field
+        if (prefixed) {
             m_entryinfo.filename.append(hb+345, strnlen(hb+345, 155));
             m_entryinfo.filename.append("/");
         }
-- 
2.43.0


From b4336159fde9659d98f9d76a3e76ff2af9b3167b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:16 +0000
Subject: [PATCH 113/115] fix: KmpSearcher passed over some occurrences

After a shift by the bad character rule, the shift was raised to one more
than the length of the remembered match. That can go past an occurrence,
for example that of 'babbacbbab' in a longer text of the same letters.
---
 lib/kmpsearcher.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/kmpsearcher.cpp b/lib/kmpsearcher.cpp
index 1e950f3..77f77b1 100644
--- a/lib/kmpsearcher.cpp
+++ b/lib/kmpsearcher.cpp
@@ -148,9 +148,7 @@ KmpSearcher::search(const char* haystack, int32_t haylen) const {
             if (shift == bmGs[i]) {
                 u = min(len - shift, v);
             } else {
-                if (turboShift < bcShift) {
-                    shift = max(shift, u + 1);
-                }
+                // a longer shift than this one could pass an occurrence
                 u = 0;
             }
         }
-- 
2.43.0


From 8e906071ebe30fa18d6a0e19325693ba6bf5f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:35 +0000
Subject: [PATCH 114/115] fix: do not take other header text for an encoded
 word

Text that contains '=?' before a real encoded word was combined with it, and
'=?charset?x?text?=' with an unknown encoding was dropped. An encoded word
has no white space in its character set and one letter b or q as encoding.
---
 lib/mailinputstream.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index a14197c..16605c7 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -162,12 +162,14 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
             // start of encoded data, find the next position of '?','?' and '?='
             const char *q1, *q2, *end;
             q1 = s+2;
-            while (q1 < e && *q1 != '?') q1++;
+            while (q1 < e && *q1 != '?' && !isspace((unsigned char)*q1)) q1++;
             q2 = q1+1;
             while (q2 < e && *q2 != '?') q2++;
             end = q2+1;
             while (end < e && *end != '?') end++;
-            if (e - end < 2 || end[1] != '=') {
+            // other text that happens to start like this is left as it is
+            if (e - end < 2 || end[1] != '=' || *q1 != '?' || q2 - q1 != 2
+                    || strchr("bBqQ", q1[1]) == 0) {
                 decoded.append(space);
                 space.clear();
                 afterEncodedWord = false;
@@ -192,15 +194,13 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else if (*q1 == 'q' || *q1 =='Q') {
+            } else {
                 string& str(decodeQuotedPrintable(q2, end-q2));
                 if (strncasecmp("utf-8", s, 5) != 0) {
                     string encoding(s, q1-s-1);
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else {
-                s -= 1;
             }
 
             // continue after the quoted data
-- 
2.43.0


From bb33d45d1ee9053e3ef4b2381875b6487da1545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:36 +0000
Subject: [PATCH 115/115] fix: find mail parameters only where they are

The name of a parameter was looked for anywhere in the line: in the media
type (application/x-name), in longer names (x-boundary) and in quoted values
of other parameters, so parts were given wrong names and mails with such a
boundary were not split. White space after an unquoted value is not a part
of it.
---
 lib/mailinputstream.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 16605c7..4aa65e0 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -485,13 +485,24 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     string value;
     // get the value
     const char* hl = headerline.c_str();
-    const char* v = strcasestr(hl, n);
-    if (v == 0) {
-        // so far we just scan for a value attribute
-        return value;
+    // scan for the attribute: a whole word before a '=', outside of quotes
+    const char* v;
+    bool quoted = false;
+    for (v = hl; *v; ++v) {
+        if (quoted) {
+            if (*v == '\\' && v[1]) ++v;
+            else quoted = *v != '"';
+        } else if (*v == '"') {
+            quoted = true;
+        } else if ((v == hl || strchr("; \t\n\r", v[-1]))
+                && strncasecmp(v, n, nl) == 0
+                && v[nl + strspn(v + nl, " \t\n\r")] == '=') {
+            break;
+        }
     }
+    if (*v == 0) return value;
     v += nl;
-    v += strspn(v, "= \n\r");
+    v += strspn(v, "= \t\n\r");
     if (*v == '"') {
         // the value ends at the closing quote, '\' quotes one character
         while (*++v && *v != '"') {
@@ -504,6 +515,7 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     if (vend == 0) {
         vend = hl + headerline.length();
     }
+    while (vend > v && isspace((unsigned char)vend[-1])) --vend;
     value.assign(v, vend-v);
     return value;
 }
-- 
2.43.0

