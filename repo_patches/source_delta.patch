From 37584c476d650574c28caeb71582658b1316c8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:40 +0000
Subject: [PATCH 01/63] fix: the builder must not write a reference without an
 id

---
 ron/text.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 4d7118c..396e174 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -173,12 +173,14 @@ class TextFrame {
             WriteTerm();
             span_size_ = 1;
             bool seq_id = id == prev_id_.inc();
-            if (!seq_id) {
+            bool seq_ref = ref == prev_id_;
+            // the grammar has no id-less spec: a ref always follows an id
+            if (!seq_id || !seq_ref) {
                 Write(SPEC_PUNCT[EVENT]);
                 WriteUuid(id);
             }
-            if (ref != prev_id_) {
-                if (!seq_id) Write(' ');
+            if (!seq_ref) {
+                Write(' ');
                 Write(SPEC_PUNCT[REF]);
                 WriteUuid(ref);
             }
-- 
2.43.0


From 186d7127b7109d2c7b882ca630958059a9669e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 02/63] fix: a whole float must be written as a float, not as
 an integer

---
 ron/text-builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 9a9c9ac..5904f43 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -1,4 +1,5 @@
 #include <cinttypes>
+#include <cstring>
 #include "text.hpp"
 
 namespace ron {
@@ -54,6 +55,11 @@ void TextFrame::Builder::WriteFloat(double value) {
     // text->binary->text we don't care about (see test/text.cc)
     // 17 is DBL_DECIMAL_DIG, enough to express 64 bit ISO floats
     int len = sprintf(tmp, "%.17G", value);
+    // a float is told from an integer by its fraction or exponent
+    if (!strpbrk(tmp, ".EN")) {
+        tmp[len++] = '.';
+        tmp[len++] = '0';
+    }
     data_.append(tmp, static_cast<size_t>(len));
 }
 
-- 
2.43.0


From bdf8a9d39a941ed620b9c17a36551cb8e72bbc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 03/63] fix: the smallest 64-bit integer must be written and
 read back

---
 ron/text-builder.cc |  2 +-
 ron/text.cc         | 15 +++++++++------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 5904f43..21262df 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -38,7 +38,7 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
 }
 
 void TextFrame::Builder::WriteInt(int64_t value) {
-    char tmp[20];
+    char tmp[24];  // "-9223372036854775808" and the terminating zero
     int len = sprintf(tmp, "%" PRId64, value);
     data_.append(tmp, static_cast<size_t>(len));
 }
diff --git a/ron/text.cc b/ron/text.cc
index 7ff30d0..2b8cee9 100644
--- a/ron/text.cc
+++ b/ron/text.cc
@@ -15,13 +15,14 @@ Result TextFrame::Cursor::ParseInteger(Atom& a) const {
     } else if (*i == '+') {
         i++;
     }
-    int64_t& ret = a.value.as_integer;
+    uint64_t ret = 0;  // the magnitude, may be 2^63
     while (i < range.end()) {
         ret *= 10;
         ret += *i - '0';
         i++;
     }
-    if (neg) ret = -ret;
+    if (neg) ret = 0 - ret;
+    a.value.as_integer = static_cast<int64_t>(ret);
     return OK;
 }
 
@@ -69,19 +70,21 @@ Status TextFrame::Split(std::vector<TextFrame>& to) {
 
 bool TextFrame::Cursor::int_too_big(const Slice& data) {
     static const char* MAXINTSTR = "9223372036854775807";
+    static const char* MININTSTR = "9223372036854775808";
     if (data.size() < 19) {
         return false;
     }
     CharRef mem = data.begin();
     size_t sz = data.size();
-    if (*mem == '-' || *mem == '+') {
+    bool neg = *mem == '-';
+    if (neg || *mem == '+') {
         ++mem;
         --sz;
     }
-    if (sz > 19) {
-        return true;
+    if (sz != 19) {
+        return sz > 19;
     }
-    int res = memcmp(mem, MAXINTSTR, sz);
+    int res = memcmp(mem, neg ? MININTSTR : MAXINTSTR, sz);
     return res > 0;
 }
 
-- 
2.43.0


From 5c0e36aba91178361de3cce639bca127d33cf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 04/63] fix: a form feed must not be written as an escape the
 grammar lacks

---
 ron/encdec.hpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 986b18f..40ebc94 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -114,10 +114,6 @@ inline void utf8esc_append(String& to, Codepoint cp) {
                 to.push_back(ESC);
                 to.push_back('b');
                 break;
-            case '\f':
-                to.push_back(ESC);
-                to.push_back('f');
-                break;
             case '\n':
                 to.push_back(ESC);
                 to.push_back('n');
-- 
2.43.0


From d4209a8dd1c86ec56018b0fe704638680598716e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:00 +0000
Subject: [PATCH 05/63] fix: a spread span must keep its first character

---
 ron/text.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index 396e174..256e67c 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -257,19 +257,11 @@ class TextFrame {
             if (prev_2_.type() == STRING) {
                 Atom a = cur.op()[2];
                 if (span_size_ == 1) {
-                    char ret[8];
-                    fsize_t retc{0};
+                    // 'a' turns into ('a...
                     data_.pop_back();
-                    while (data_.back() != ATOM_PUNCT[STRING]) {
-                        ret[retc++] = data_.back();
-                        data_.pop_back();
-                    }
-                    data_.pop_back();
-                    Write('(');
-                    Write(ATOM_PUNCT[STRING]);
-                    for (fsize_t i = 0; i < retc; ++i) {
-                        data_.push_back(ret[i]);
-                    }
+                    size_t quote =
+                        data_.rfind(ATOM_PUNCT[STRING], data_.size() - 2);
+                    data_.insert(quote, 1, '(');
                 }
                 if (!a.value.cp) {
                     cur.NextCodepoint(a);
-- 
2.43.0


From 5fcb36def0c729214f782bbad68b6b0ab07cbaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 06/63] fix: an op after a chunk end must not extend the span
 of that chunk

---
 ron/text.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 256e67c..5ed1dd3 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -243,6 +243,9 @@ class TextFrame {
 
         template <class Cursor2>
         inline bool is_same_span(const Cursor2& cur) const {
+            if (!span_size_) {
+                return false;  // the chunk has ended
+            }
             if (cur.ref() != prev_id_) {
                 return false;
             }
-- 
2.43.0


From f3d3e9496d16ef6f0c73f119a4b3482c01a0df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 07/63] fix: the end of a frame must end its last chunk first

---
 ron/text.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 5ed1dd3..559bea5 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -317,6 +317,9 @@ class TextFrame {
         }
 
         Result EndFrame() {
+            if (span_size_) {
+                EndChunk();
+            }
             Write(FRAME_TERM);
             return OK;
         }
-- 
2.43.0


From 03a55858674ecfdcf533af7becf636dabe8f3466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 08/63] fix: an oversized atom must be refused, not taken for
 the end of the frame

---
 ragel/text-grammar.rl |  8 ++--
 ragel/text-parser.rl  |  4 ++
 ron/text-parser.cc    | 88 +++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 96 insertions(+), 4 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index ef32bff..d81e492 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -15,7 +15,7 @@
     action begin_int { intb = p; }
     action end_int {
         Range range{buffer, intb, p};
-        if (range.size()>=19 && int_too_big(Slice{intb,p})) { cs = 0; fbreak; }
+        if (range.size()>=19 && int_too_big(Slice{intb,p})) { oversize = true; cs = 0; fbreak; }
         op_.emplace_back(INT, range);
         uuidb = nullptr; // sabotage uuid
     }
@@ -27,16 +27,16 @@
     action begin_float { floatb = p; }
     action end_float { 
         Range range{buffer, floatb, p};
-        if (range.size() > 24) { cs = 0; fbreak; }
+        if (range.size() > 24) { oversize = true; cs = 0; fbreak; }
         op_.emplace_back(FLOAT, range);
     }
     action end_quoted_uuid {
-        if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+        if (word_too_big(value) || word_too_big(origin)) { oversize = true; cs = 0; fbreak; }
         op_.push_back(Uuid{variety, value, version, origin}); 
     }
     action end_bare_uuid { 
         if (uuidb!=nullptr) { // " 123 " is an int, not an UUID
-            if (word_too_big(value) || word_too_big(origin)) { cs = 0; fbreak; }
+            if (word_too_big(value) || word_too_big(origin)) { oversize = true; cs = 0; fbreak; }
             op_.push_back(Uuid{variety, value, version, origin}); 
         }
     }
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index cb66f71..71f7c00 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -62,6 +62,7 @@ Status TextFrame::Cursor::Next () {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool oversize{false};
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -75,6 +76,9 @@ Status TextFrame::Cursor::Next () {
     write exec;
     }%%
     data().Consume(p-pb);
+    if (oversize) {
+        cs = RON_error; // fbreak has overwritten it
+    }
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 4ca2a7c..e21b99b 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -74,6 +74,7 @@ Status TextFrame::Cursor::Next() {
     char term{0};
     Slice value, origin;
     char variety{0}, version{0};
+    bool oversize{false};
 
     Uuid prev = atoms.empty() ? Uuid::NIL : A2U(atoms[0]);
     atoms.clear();
@@ -109,6 +110,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                oversize = true;
                 cs = 0;
                 {
                     p++;
@@ -134,6 +136,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
+                oversize = true;
                 cs = 0;
                 {
                     p++;
@@ -163,6 +166,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -192,6 +196,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
             {
                 if (word_too_big(value) || word_too_big(origin)) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -216,6 +221,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, intb, p};
             if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                oversize = true;
                 cs = 0;
                 {
                     p++;
@@ -234,6 +240,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -265,6 +272,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -296,6 +304,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -321,6 +330,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
+                oversize = true;
                 cs = 0;
                 {
                     p++;
@@ -338,6 +348,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -363,6 +374,7 @@ Status TextFrame::Cursor::Next() {
         {
             Range range{buffer, floatb, p};
             if (range.size() > 24) {
+                oversize = true;
                 cs = 0;
                 {
                     p++;
@@ -380,6 +392,7 @@ Status TextFrame::Cursor::Next() {
             {
                 if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -535,6 +548,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -551,6 +565,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -571,6 +586,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -591,6 +607,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -606,6 +623,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -624,6 +642,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -646,6 +665,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -668,6 +688,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -684,6 +705,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -701,6 +723,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -717,6 +740,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -734,6 +758,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -962,6 +987,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -985,6 +1011,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1012,6 +1039,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -1039,6 +1067,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -1061,6 +1090,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1079,6 +1109,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1108,6 +1139,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1137,6 +1169,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1160,6 +1193,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1177,6 +1211,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1200,6 +1235,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1217,6 +1253,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1330,6 +1367,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1346,6 +1384,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1366,6 +1405,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -1386,6 +1426,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -1401,6 +1442,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1419,6 +1461,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1441,6 +1484,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1463,6 +1507,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1479,6 +1524,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1496,6 +1542,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -1512,6 +1559,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -1529,6 +1577,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2195,6 +2244,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2211,6 +2261,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2231,6 +2282,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -2251,6 +2303,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -2266,6 +2319,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2284,6 +2338,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2306,6 +2361,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2328,6 +2384,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2344,6 +2401,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2361,6 +2419,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2377,6 +2436,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2394,6 +2454,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2529,6 +2590,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2545,6 +2607,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2565,6 +2628,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -2585,6 +2649,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -2600,6 +2665,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2618,6 +2684,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2640,6 +2707,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2662,6 +2730,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2678,6 +2747,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2695,6 +2765,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2711,6 +2782,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2728,6 +2800,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -2953,6 +3026,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2969,6 +3043,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -2989,6 +3064,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -3009,6 +3085,7 @@ Status TextFrame::Cursor::Next() {
 #line 33 "ragel/./text-grammar.rl"
                 {
                     if (word_too_big(value) || word_too_big(origin)) {
+                        oversize = true;
                         cs = 0;
                         {
                             p++;
@@ -3024,6 +3101,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, intb, p};
                 if (range.size() >= 19 && int_too_big(Slice{intb, p})) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -3042,6 +3120,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -3064,6 +3143,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -3086,6 +3166,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -3102,6 +3183,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -3119,6 +3201,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -3135,6 +3218,7 @@ Status TextFrame::Cursor::Next() {
             {
                 Range range{buffer, floatb, p};
                 if (range.size() > 24) {
+                    oversize = true;
                     cs = 0;
                     {
                         p++;
@@ -3152,6 +3236,7 @@ Status TextFrame::Cursor::Next() {
                 {
                     if (uuidb != nullptr) {  // " 123 " is an int, not an UUID
                         if (word_too_big(value) || word_too_big(origin)) {
+                            oversize = true;
                             cs = 0;
                             {
                                 p++;
@@ -4963,6 +5048,9 @@ Status TextFrame::Cursor::Next() {
 #line 76 "ragel/text-parser.rl"
 
     data().Consume(p - pb);
+    if (oversize) {
+        cs = RON_error;  // fbreak has overwritten it
+    }
 
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
-- 
2.43.0


From a7d31ceef423a1defa52fda5ce69724fb1d5feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 09/63] fix: an oversized word in an op's spec must be refused,
 not asserted

---
 ragel/text-grammar.rl |  12 ++-
 ron/text-parser.cc    | 240 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 220 insertions(+), 32 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index d81e492..290e338 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -7,10 +7,18 @@
     include UTF8 "./utf8-grammar.rl";
 
     action end_id {
-        op_[0] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) {
+            oversize = true;
+        } else {
+            op_[0] = Uuid{variety, value, version, origin};
+        }
     }
     action end_ref {
-        op_[1] = Uuid{variety, value, version, origin};
+        if (word_too_big(value) || word_too_big(origin)) {
+            oversize = true;
+        } else {
+            op_[1] = Uuid{variety, value, version, origin};
+        }
     }
     action begin_int { intb = p; }
     action end_int {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index e21b99b..bd3f5b8 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -421,7 +421,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -440,7 +446,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -459,7 +471,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 12 "ragel/./text-grammar.rl"
-            { op_[1] = Uuid{variety, value, version, origin}; }
+            {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -478,7 +496,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
             {}
 #line 9 "ragel/./text-grammar.rl"
-            { op_[0] = Uuid{variety, value, version, origin}; }
+            {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 48 "ragel/./text-grammar.rl"
             {
                 term = (*p);
@@ -778,7 +802,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st1;
             tr195 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -788,7 +818,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st1;
             tr205 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -798,7 +834,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st1;
             tr215 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -808,7 +850,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st1;
             st1:
                 if (++p == pe) goto _test_eof1;
@@ -1280,7 +1328,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1297,7 +1351,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -1597,7 +1657,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st5;
             tr196 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -1607,7 +1673,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st5;
             tr206 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1617,7 +1689,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st5;
             tr216 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -1627,7 +1705,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st5;
             st5:
                 if (++p == pe) goto _test_eof5;
@@ -2474,7 +2558,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st25;
             tr199 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2484,7 +2574,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st25;
             tr208 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2494,7 +2590,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st25;
             tr219 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2504,7 +2606,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st25;
             st25:
                 if (++p == pe) goto _test_eof25;
@@ -2820,7 +2928,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st28;
             tr200 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -2830,7 +2944,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st28;
             tr209 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2840,7 +2960,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st28;
             tr220 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -2850,7 +2976,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st28;
             st28:
                 if (++p == pe) goto _test_eof28;
@@ -3256,7 +3388,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st32;
             tr201 :
 #line 14 "ragel/././uuid-grammar.rl"
@@ -3266,7 +3404,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st32;
             tr210 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3276,7 +3420,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 12 "ragel/./text-grammar.rl"
-                { op_[1] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[1] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st32;
             tr221 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -3286,7 +3436,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st32;
             st32:
                 if (++p == pe) goto _test_eof32;
@@ -4315,7 +4471,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4332,7 +4494,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
 #line 52 "ragel/./text-grammar.rl"
                 {
                     if ((*p) == '\n') {
@@ -4398,7 +4566,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st64;
             tr218 :
 #line 17 "ragel/././uuid-grammar.rl"
@@ -4408,7 +4582,13 @@ Status TextFrame::Cursor::Next() {
 #line 18 "ragel/././uuid-grammar.rl"
                 {}
 #line 9 "ragel/./text-grammar.rl"
-                { op_[0] = Uuid{variety, value, version, origin}; }
+                {
+            if (word_too_big(value) || word_too_big(origin)) {
+                oversize = true;
+            } else {
+                op_[0] = Uuid{variety, value, version, origin};
+            }
+        }
                 goto st64;
             st64:
                 if (++p == pe) goto _test_eof64;
-- 
2.43.0


From da026a2444949d37700a7213defca75b988a9525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 10/63] fix: an empty or a broken span must not yield ops

---
 ragel/text-grammar.rl | 22 +++++++++++++++++-----
 ragel/text-parser.rl  |  3 +++
 ron/text-parser.cc    | 31 +++++++++++++++++++++++++------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 290e338..a9e84ce 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -67,15 +67,27 @@
     action string_uesc { cp = decode_hex_cp(Slice{p-4,4}); }
 
     action span_size_digit {
-        span_size_ *= 10;
-        span_size_ += fc - '0';
+        if (span_size_ > FSIZE_MAX/10) {
+            oversize = true;
+        } else {
+            span_size_ *= 10;
+            span_size_ += fc - '0';
+        }
     }
     action end_span_size {
-        --span_size_;
+        if (span_size_) {
+            --span_size_;
+        } else {
+            oversize = true; // an empty span
+        }
     }
     action end_spread {
-        if (op_.back().value.cp_size) { NextCodepoint(op_.back()); }
-        span_size_ = cp_size-1;
+        if (op_.back().value.cp_size) {
+            NextCodepoint(op_.back());
+            span_size_ = cp_size-1;
+        } else {
+            oversize = true; // an empty span
+        }
     }
 
     WS = [ \r\n\t] @newline;
diff --git a/ragel/text-parser.rl b/ragel/text-parser.rl
index 71f7c00..8a7c3c7 100644
--- a/ragel/text-parser.rl
+++ b/ragel/text-parser.rl
@@ -79,6 +79,9 @@ Status TextFrame::Cursor::Next () {
     if (oversize) {
         cs = RON_error; // fbreak has overwritten it
     }
+    if (!term || cs==RON_error) {
+        span_size_ = 0; // no op, no span
+    }
 
     //std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<" atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
 
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index bd3f5b8..42119ac 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -1890,8 +1890,10 @@ Status TextFrame::Cursor::Next() {
             {
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
+                    span_size_ = cp_size - 1;
+                } else {
+                    oversize = true;  // an empty span
                 }
-                span_size_ = cp_size - 1;
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1904,7 +1906,11 @@ Status TextFrame::Cursor::Next() {
             tr59 :
 #line 65 "ragel/./text-grammar.rl"
             {
-                --span_size_;
+                if (span_size_) {
+                    --span_size_;
+                } else {
+                    oversize = true;  // an empty span
+                }
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1942,14 +1948,20 @@ Status TextFrame::Cursor::Next() {
             {
                 if (op_.back().value.cp_size) {
                     NextCodepoint(op_.back());
+                    span_size_ = cp_size - 1;
+                } else {
+                    oversize = true;  // an empty span
                 }
-                span_size_ = cp_size - 1;
             }
                 goto st10;
             tr60 :
 #line 65 "ragel/./text-grammar.rl"
             {
-                --span_size_;
+                if (span_size_) {
+                    --span_size_;
+                } else {
+                    oversize = true;  // an empty span
+                }
             }
                 goto st10;
             st10:
@@ -2200,8 +2212,12 @@ Status TextFrame::Cursor::Next() {
             tr26 :
 #line 61 "ragel/./text-grammar.rl"
             {
-                span_size_ *= 10;
-                span_size_ += (*p) - '0';
+                if (span_size_ > FSIZE_MAX / 10) {
+                    oversize = true;
+                } else {
+                    span_size_ *= 10;
+                    span_size_ += (*p) - '0';
+                }
             }
                 goto st20;
             st20:
@@ -5231,6 +5247,9 @@ Status TextFrame::Cursor::Next() {
     if (oversize) {
         cs = RON_error;  // fbreak has overwritten it
     }
+    if (!term || cs == RON_error) {
+        span_size_ = 0;  // no op, no span
+    }
 
     // std::cerr << "ending with [" <<p<<"] state "<<cs<<" "<<op_.size()<<"
     // atoms "<<(pe-p)<<" bytes left, prev_id_ "<<prev_id_.str()<<'\n';
-- 
2.43.0


From 498e23bc1548379a39ebc97c041d2ca91a299bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 11/63] fix: an exponent-only float must not be read as a uuid
 too

---
 ragel/text-grammar.rl |  1 +
 ron/text-parser.cc    | 21 +++++++++++++++++++++
 ron/uuid.cc           | 14 ++++++++++++++
 ron/uuid.hpp          |  5 ++---
 4 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index a9e84ce..82235a4 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -37,6 +37,7 @@
         Range range{buffer, floatb, p};
         if (range.size() > 24) { oversize = true; cs = 0; fbreak; }
         op_.emplace_back(FLOAT, range);
+        uuidb = nullptr; // 1E5 is no uuid
     }
     action end_quoted_uuid {
         if (word_too_big(value) || word_too_big(origin)) { oversize = true; cs = 0; fbreak; }
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 42119ac..74799e3 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -145,6 +145,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // 1E5 is no uuid
         }
 #line 48 "ragel/./text-grammar.rl"
             {
@@ -339,6 +340,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // 1E5 is no uuid
         }
 #line 17 "ragel/././uuid-grammar.rl"
             { origin = Slice{wordb, p}; }
@@ -383,6 +385,7 @@ Status TextFrame::Cursor::Next() {
                 }
             }
             op_.emplace_back(FLOAT, range);
+            uuidb = nullptr;  // 1E5 is no uuid
         }
 #line 14 "ragel/././uuid-grammar.rl"
             { value = Slice{wordb, p}; }
@@ -598,6 +601,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
                 goto st1;
             tr89 :
@@ -738,6 +742,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -773,6 +778,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1068,6 +1074,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 52 "ragel/./text-grammar.rl"
                 {
@@ -1250,6 +1257,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1292,6 +1300,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -1453,6 +1462,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
                 goto st5;
             tr90 :
@@ -1593,6 +1603,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -1628,6 +1639,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2370,6 +2382,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
                 goto st25;
             tr93 :
@@ -2510,6 +2523,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2545,6 +2559,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -2740,6 +2755,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
                 goto st28;
             tr94 :
@@ -2880,6 +2896,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -2915,6 +2932,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
@@ -3200,6 +3218,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
                 goto st32;
             tr95 :
@@ -3340,6 +3359,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 17 "ragel/././uuid-grammar.rl"
                 { origin = Slice{wordb, p}; }
@@ -3375,6 +3395,7 @@ Status TextFrame::Cursor::Next() {
                     }
                 }
                 op_.emplace_back(FLOAT, range);
+                uuidb = nullptr;  // 1E5 is no uuid
             }
 #line 14 "ragel/././uuid-grammar.rl"
                 { value = Slice{wordb, p}; }
diff --git a/ron/uuid.cc b/ron/uuid.cc
index 57f0dbe..2bc81ef 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -59,6 +59,20 @@ void Uuid::write_base64(ron::String& ret) const {
     }
 }
 
+bool Uuid::is_ambiguous() const {
+    const ron::String text = str();
+    size_t i = 0, size = text.size();
+    while (i < size && isdigit(text[i])) ++i;
+    if (i == 0) return false;
+    if (i == size) return true;
+    if (text[i] != 'e' && text[i] != 'E') return false;
+    ++i;
+    if (i < size && (text[i] == '+' || text[i] == '-')) ++i;
+    if (i == size) return false;
+    while (i < size && isdigit(text[i])) ++i;
+    return i == size;
+}
+
 String Uuid::str() const {
     ron::String ret;
     ret.reserve(Word::BASE64_WORD_LEN * 2 + 2 + 1);
diff --git a/ron/uuid.hpp b/ron/uuid.hpp
index b6b0c23..71981f9 100644
--- a/ron/uuid.hpp
+++ b/ron/uuid.hpp
@@ -210,9 +210,8 @@ struct Uuid : public Atom {
     void write_base64(ron::String& to) const;
     ron::String str() const;
     inline bool zero() const { return value == ZERO; }
-    inline bool is_ambiguous() const {
-        return origin.is_zero() && value.is_all_digits();
-    }
+    /** Whether the text form looks like a number: 123, 1E5, 1e+5. */
+    bool is_ambiguous() const;
     inline bool is_error() const { return origin == Word::MAX_VALUE; }
     static Uuid Time(Word value, Word origin) {
         return Uuid{value, (uint64_t(origin) & Word::PAYLOAD_BITS) |
-- 
2.43.0


From 097d3aa8020643b04c2035d7b9e14c2aeafafa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 12/63] fix: a float field must be read as a float

---
 rdt/lww_obj.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 5d07b31..31f3ca5 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -61,7 +61,7 @@ class LWWObject {
 
     inline double number(Uuid key) {
         Atom a = atom(key, FLOAT);
-        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_integer;
+        return Uuid::NIL == Uuid{a} ? std::nan("") : a.value.as_float;
     }
 
     inline String string(Uuid key) {
-- 
2.43.0


From b28fef33b8243e304e004973c8a8bbacd300a9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:51 +0000
Subject: [PATCH 13/63] fix: a field change must refer to the previous op, not
 to itself

---
 rdt/lww_obj.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 31f3ca5..6d56c66 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -40,8 +40,9 @@ class LWWObject {
 
     template <typename... Ts>
     inline Frame Write(Uuid id, Uuid key, Ts... args) {
+        Uuid ref = last_;
         last_ = id;
-        return OneOp<Frame>(id, last_, key, args...);
+        return OneOp<Frame>(id, ref, key, args...);
     }
 
     Atom atom(Uuid key, ATOM type) {
-- 
2.43.0


From fb63059e26123f08b300789209436d8de16ec4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:21 +0000
Subject: [PATCH 14/63] fix: a field must be read from the frame its op came
 with

---
 rdt/lww_obj.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 6d56c66..312fa3f 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -10,8 +10,8 @@ template <class Frame>
 class LWWObject {
     using Cursor = typename Frame::Cursor;
 
-    Cursor cur_;
-    std::unordered_map<Uuid, Atom> vals_;
+    /** the last op for every key; the frames must outlive the object */
+    std::unordered_map<Uuid, Cursor> vals_;
     Uuid last_;
 
    public:
@@ -19,11 +19,13 @@ class LWWObject {
         if (c.op().size() < 4 || !HasValue(c, UUID)) {
             return;
         }
-        vals_[Uuid{c.atom(2)}] = c.atom(3);
+        Uuid key{c.atom(2)};
+        vals_.erase(key);
+        vals_.emplace(key, c);
         last_ = c.id();
     }
 
-    void Update(Frame frame) {
+    void Update(const Frame& frame) {
         Cursor c{frame};
         while (c.Next()) {
             Update(c);
@@ -32,11 +34,7 @@ class LWWObject {
 
     /** Note that LWWObject does not own the memory. It serves like an index to
      * a LWW frame. */
-    LWWObject(const Frame& state) : cur_{state}, vals_{}, last_{} {
-        do {
-            Update(cur_);
-        } while (cur_.Next());
-    }
+    LWWObject(const Frame& state) : vals_{}, last_{} { Update(state); }
 
     template <typename... Ts>
     inline Frame Write(Uuid id, Uuid key, Ts... args) {
@@ -47,10 +45,10 @@ class LWWObject {
 
     Atom atom(Uuid key, ATOM type) {
         auto i = vals_.find(key);
-        if (i == vals_.end() || i->second.type() != type) {
+        if (i == vals_.end() || !HasValue(i->second, type, 3)) {
             return Uuid::NIL;
         }
-        return i->second;
+        return i->second.atom(3);
     }
 
     /*inline int64_t integer(Uuid key) {
@@ -66,9 +64,13 @@ class LWWObject {
     }
 
     inline String string(Uuid key) {
-        Atom a = atom(key, STRING);
         String ret;
-        ReadString(ret, cur_, a);  // TODO error checking, tests :)
+        auto i = vals_.find(key);
+        if (i == vals_.end() || !HasValue(i->second, STRING, 3)) {
+            return ret;
+        }
+        const Cursor& op = i->second;
+        ReadString(ret, op, op.atom(3));  // TODO error checking, tests :)
         return ret;
     }
 };
-- 
2.43.0


From 3bcd54fa070dd01310c09812a6d848781be94efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:27 +0000
Subject: [PATCH 15/63] fix: an older op must not overwrite a newer field value

---
 rdt/lww_obj.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rdt/lww_obj.hpp b/rdt/lww_obj.hpp
index 312fa3f..85ecb96 100644
--- a/rdt/lww_obj.hpp
+++ b/rdt/lww_obj.hpp
@@ -16,13 +16,21 @@ class LWWObject {
 
    public:
     void Update(const Cursor& c) {
+        if (last_ < c.id()) {
+            last_ = c.id();
+        }
         if (c.op().size() < 4 || !HasValue(c, UUID)) {
             return;
         }
         Uuid key{c.atom(2)};
-        vals_.erase(key);
+        auto i = vals_.find(key);
+        if (i != vals_.end()) {
+            if (c.id() < i->second.id()) {
+                return;  // the last write wins
+            }
+            vals_.erase(i);
+        }
         vals_.emplace(key, c);
-        last_ = c.id();
     }
 
     void Update(const Frame& frame) {
-- 
2.43.0


From 7ece30a6d91deacedd6752faff3d95a0477e9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 16/63] fix: compaction must tell fields by their names and
 keep the header

---
 rdt/lww.hpp | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/rdt/lww.hpp b/rdt/lww.hpp
index 45a206f..d727441 100644
--- a/rdt/lww.hpp
+++ b/rdt/lww.hpp
@@ -2,6 +2,7 @@
 #define rdt_lww_hpp
 
 #include <unordered_map>
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -24,29 +25,47 @@ class LastWriteWinsRDT {
         return Status::OK;
     }
 
-    // TODO this impl will not match escaped keys, e.g. '\006bey' for 'key'.
+    /** The identity of a field: the type and the value of the name atom
+     * (so, differently escaped names still match). */
+    static String KeyOf(const Cursor &op) {
+        Atom name = op.atom(2);
+        String key{{static_cast<char>(ATOM_PUNCT[name.type()])}};
+        switch (name.type()) {
+            case STRING:
+                ReadString(key, op, name);
+                break;
+            case UUID:
+                key.append(reinterpret_cast<const char *>(&name.origin),
+                           sizeof(Word));
+                // fall through
+            default:
+                key.append(reinterpret_cast<const char *>(&name.value),
+                           sizeof(Word));
+        }
+        return key;
+    }
+
     // Either way, the latest/winning value will go first.
-    // May use Frame::unescape() and/or Op unesc flag.
     Status GC(Builder &output, const Frame &input) const {
-        std::unordered_map<Slice, Uuid> last;
+        std::unordered_map<String, Uuid> last;
         auto scan = input.cursor();
-        do {
+        while (scan.Next()) {
             if (scan.op().size() < 3) continue;
-            Slice key{input.data(), scan.atom(2).origin.as_range};
-            last[key] = scan.id();
-        } while (scan.Next());
+            last[KeyOf(scan)] = scan.id();
+        }
 
         auto filter = input.cursor();
-        if (filter.op().size() == 2) {  // header
-            output.AppendOp(filter);
-        }
-        do {  // TODO maybe check op pattern here
-            if (filter.op().size() < 3) continue;
-            Slice key{input.data(), filter.atom(2).origin.as_range};
-            if (last[key] == filter.id()) {
+        bool first = true;
+        while (filter.Next()) {  // TODO maybe check op pattern here
+            bool header = first && filter.op().size() == 2;
+            first = false;
+            if (header) {
+                output.AppendOp(filter);
+            } else if (filter.op().size() >= 3 &&
+                       last[KeyOf(filter)] == filter.id()) {
                 output.AppendOp(filter);
             }
-        } while (filter.Next());
+        }
 
         return Status::OK;
     }
-- 
2.43.0


From 37924a61f5b7ccc34b130453e1655db3ff583c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:51 +0000
Subject: [PATCH 17/63] fix: a greater value must win, whatever its sign, type
 and spelling

---
 rdt/max.hpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index 45cd5a8..f397587 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -3,6 +3,7 @@
 
 #include <unordered_map>
 #include "../ron/form.hpp"
+#include "../ron/frames.hpp"
 #include "merge.hpp"
 
 namespace ron {
@@ -13,13 +14,42 @@ class MaxRDT {
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
 
+    /** compares two string atoms by their codepoints */
+    static int CompareStrings(const Cursor &a, const Cursor &b) {
+        String as, bs;
+        ReadString(as, a, a.atom(2));
+        ReadString(bs, b, b.atom(2));
+        return as.compare(bs);
+    }
+
+    /** The order of values; any two replicas must agree on it, hence it does
+     * not depend on the way a value was spelled. Ties: the newer op wins. */
     static bool Less(const Cursor &a, const Cursor &b) {
         if (a.op().size() == 2) {
             if (b.op().size() > 2) return true;
             return b.id() > a.id();
         }
         if (b.op().size() == 2) return false;
-        return static_cast<Uuid>(a.atom(2)) < static_cast<Uuid>(b.atom(2));
+        Atom av = a.atom(2), bv = b.atom(2);
+        if (av.type() != bv.type()) return av.type() < bv.type();
+        switch (av.type()) {
+            case INT:
+                if (av.value.as_integer != bv.value.as_integer)
+                    return av.value.as_integer < bv.value.as_integer;
+                break;
+            case FLOAT:
+                if (av.value.as_float != bv.value.as_float)
+                    return av.value.as_float < bv.value.as_float;
+                break;
+            case UUID:
+                if (av != bv) return static_cast<Uuid>(av) < static_cast<Uuid>(bv);
+                break;
+            case STRING:
+                int c = CompareStrings(a, b);
+                if (c) return c < 0;
+                break;
+        }
+        return a.id() < b.id();
     }
 
    public:
-- 
2.43.0


From 398e53f5cfa7a082192d0b0b8dd5e7023093e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 18/63] fix: a max merge must keep the header and add no ops of
 its own

---
 rdt/max.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/rdt/max.hpp b/rdt/max.hpp
index f397587..9d4e374 100644
--- a/rdt/max.hpp
+++ b/rdt/max.hpp
@@ -55,22 +55,30 @@ class MaxRDT {
    public:
     Status Merge(typename Frame::Builder &output, Cursors &inputs) const {
         if (inputs.empty()) return Status::OK;
-        if (inputs[0].valid() && inputs[0].ref() == MAX_FORM_UUID) {
-            output.AppendOp(inputs[0]);
-            inputs[0].Next();
+        bool header{false};
+        for (auto &input : inputs) {
+            if (!input.valid() || input.ref() != MAX_FORM_UUID) continue;
+            if (!header) {
+                output.AppendOp(input);
+                header = true;
+            }
+            input.Next();
         }
         // TODO  sanity: all ops ref the root
         Cursor max = inputs.back();
-        inputs.back().Next();
-        for (int i = inputs.size() - 1; i >= 0; --i) {
-            while (inputs[i].valid()) {
-                if (Less(max, inputs[i])) {
-                    max = inputs[i];
+        bool found{false};
+        for (auto &input : inputs) {
+            while (input.valid()) {
+                if (!found || Less(max, input)) {
+                    max = input;
+                    found = true;
                 }
-                inputs[i].Next();
+                input.Next();
             }
         }
-        output.AppendOp(max);
+        if (found) {
+            output.AppendOp(max);
+        }
         output.EndChunk();
         return Status::OK;
     }
-- 
2.43.0


From 88d73daa15a472c58ca374bfdf3c2feb644947a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 19/63] fix: an array merge must take any number of pieces

---
 rdt/rga.hpp | 50 ++++++++++++++------------------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 5fc9140..d4a1314 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -18,7 +18,6 @@ class RGArrayRDT {
     using Builder = typename Frame::Builder;
     using Cursor = typename Frame::Cursor;
     using Cursors = typename Frame::Cursors;
-    using PCursor = typename Cursors::iterator;
 
     static bool less_than(const Cursor &a, const Cursor &b) {
         return b.id() < a.id();
@@ -32,37 +31,16 @@ class RGArrayRDT {
     } id_cmp;
 
    public:
-    Status MergeBig(Builder &output, Cursors &inputs) const {
-        /*
-        typedef unordered_multimap<Uuid, Cursor *> insmap_t;
-        insmap_t inserts;
-        using insmap_t::value_type insmapval_t;
-        insmapval_t least{FATAL, nullptr};
-        for (int i = 0; i < inputs.size(); i++) {
-            const Cursor &c = inputs[i];
-            insmapval_t entry{c.id(), &c};
-            if (c.id() < least.first) least = entry;
-            inserts.insert(entry);
-        }
-
-        MCursor m{};
-        m.Add(*least.second);
-        inserts.erase(least);  //?
-        */
-        return Status::NOT_IMPLEMENTED;
-    }
-
     Status Merge(Builder &output, Cursors &inputs) const {
-        if (inputs.size() > 3) return MergeBig(output, inputs);
-
         MCursor m{};
         auto max = std::min_element(inputs.begin(), inputs.end(), id_cmp);
-        uint64_t added{0}, b{1};  // TODO refs[MAX_INPUTS]
-        PCursor i;
-        for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U) {
-            if (i->id() == max->id()) {
-                m.Add(i);
-                added |= b;
+        std::vector<bool> added(inputs.size(), false);
+        size_t left = inputs.size();
+        for (size_t i = 0; i < inputs.size(); ++i) {
+            if (inputs[i].id() == max->id()) {
+                m.Add(inputs.begin() + i);
+                added[i] = true;
+                --left;
             }
         }
 
@@ -71,17 +49,17 @@ class RGArrayRDT {
             output.AppendOp(cur);
             const Uuid id = cur.id();
             m.Next();
-            for (i = inputs.begin(), b = 1; i != inputs.end(); i++, b <<= 1U)
-                if ((b & added) == 0 && i->ref() == id) {
-                    m.Add(i);
-                    added |= b;
+            for (size_t i = 0; left && i < inputs.size(); ++i)
+                if (!added[i] && inputs[i].ref() == id) {
+                    m.Add(inputs.begin() + i);
+                    added[i] = true;
+                    --left;
                 }
         }
         output.EndChunk(RAW);
 
-        return ++added == 1 << inputs.size()
-                   ? Status::OK
-                   : Status::CAUSEBREAK.comment("unattacheable pieces");
+        return left == 0 ? Status::OK
+                         : Status::CAUSEBREAK.comment("unattacheable pieces");
     }
 
     Status GC(Builder &output, const Frame &input) const {
-- 
2.43.0


From 9c51b91d962715d7165cbe9232f6714420d81be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:45 +0000
Subject: [PATCH 20/63] fix: an unknown form must have no uuid

---
 ron/form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ron/form.hpp b/ron/form.hpp
index 2a2ed67..478633e 100644
--- a/ron/form.hpp
+++ b/ron/form.hpp
@@ -108,7 +108,7 @@ inline FORM uuid2form(Uuid u) {
 }
 
 inline Uuid form2uuid(FORM form) {
-    if (form < sizeof(FORMS)) {
+    if (form < sizeof(FORMS) / sizeof(FORMS[0])) {
         return Uuid{FORMS[form], 0};
     } else {
         return Uuid::FATAL;
-- 
2.43.0


From bafa143919b79dd672a82f0e63c1f492baa7338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:52 +0000
Subject: [PATCH 21/63] fix: an id stack iterator must advance by the given
 number of ids

---
 ron/inc_stack.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 1e7a893..14d4621 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -42,11 +42,13 @@ class inc_stack {
         }
         void operator+=(len_t advance) {
             while (advance > 0) {
-                if (i_->size <= advance) {
-                    advance -= i_->size;
+                len_t rest = i_->size - off_;
+                if (rest <= advance) {
+                    advance -= rest;
+                    off_ = 0;
                     ++i_;
                 } else {
-                    i_ += advance;
+                    off_ += advance;
                     advance = 0;
                 }
             }
-- 
2.43.0


From 4b86efd91f0f08a33e8005de38df985335f3854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 22/63] fix: a hash must be read from its text and written in
 full

---
 ron/encdec.hpp |  8 ++++++++
 ron/hash.hpp   | 28 ++++++++++++++++------------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index 40ebc94..bc65423 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -25,6 +25,14 @@ void encode(String& coded, Slice raw, int bit_size) {
             coded.push_back(coding[(bits >> bc) & MASK]);
         }
     }
+    if (bit_size > 0) {
+        bits = (bits << bit_size) | (*raw >> (8 - bit_size));
+        bc += bit_size;
+        while (bc >= bit_width) {
+            bc -= bit_width;
+            coded.push_back(coding[(bits >> bc) & MASK]);
+        }
+    }
     if (bc > 0) {
         bits <<= bit_width - bc;
         coded.push_back(coding[bits & MASK]);
diff --git a/ron/hash.hpp b/ron/hash.hpp
index 52b87e4..6f4b0b0 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -61,23 +61,13 @@ struct SHA2 {
     }
 
     static SHA2 ParseHex(const String& hash) {
-        SHA2 ret;
         assert(hash.size() <= HEX_SIZE);
-        uint32_t b = uint32_t(hash.size()) << 2;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<4, ABC16>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
-        return ret;
+        return Parse<4, ABC16>(hash);
     }
 
     static SHA2 ParseBase64(const String& hash) {
-        SHA2 ret;
         assert(hash.size() <= BASE64_SIZE);
-        uint32_t b = uint32_t(hash.size()) * 6;
-        if (b > BIT_SIZE) b = BIT_SIZE;
-        if (decode<6, ABC64>(ret.bits_, hash, ret.known_bits_))
-            ret.known_bits_ = b;
-        return ret;
+        return Parse<6, ABC64>(hash);
     }
 
     /** my motivation for using Base64: Base64 is less clutter.
@@ -94,6 +84,20 @@ struct SHA2 {
 
     static const SHA2 ZERO;
     static const Uuid FORM_ID;
+
+   private:
+    template <int bit_width, const int8_t table[256]>
+    static SHA2 Parse(const String& hash) {
+        SHA2 ret;
+        String bytes;
+        uint32_t b = uint32_t(hash.size()) * bit_width;
+        if (decode<bit_width, table>(bytes, hash, b)) {
+            bytes.resize(SIZE, 0);
+            std::swap(ret.bits_, bytes);
+            ret.known_bits_ = std::min(b, uint32_t(BIT_SIZE));
+        }
+        return ret;
+    }
 };
 
 // a binary stream of RON primitives
-- 
2.43.0


From 4d686c227c09402347718e95b520f014f4f631d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:38 +0000
Subject: [PATCH 23/63] fix: a truncated uuid must not be read as a shorter one

---
 ragel/uuid-parser.rl | 3 ++-
 ron/uuid-parser.cc   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ragel/uuid-parser.rl b/ragel/uuid-parser.rl
index eceec05..11e5e05 100644
--- a/ragel/uuid-parser.rl
+++ b/ragel/uuid-parser.rl
@@ -25,7 +25,8 @@ namespace ron {
             write exec;
         }%%
 
-        if (cs && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
+        bool complete = cs >= UUID_first_final || pb == pe;
+        if (complete && value.size()<=Word::MAX_BASE64_SIZE && origin.size()<=Word::MAX_BASE64_SIZE) {
             this->value = Word{ABC[variety], value};
             this->origin = Word{ABC[version], origin};
         } else {
diff --git a/ron/uuid-parser.cc b/ron/uuid-parser.cc
index 6b9cc52..d052fdd 100644
--- a/ron/uuid-parser.cc
+++ b/ron/uuid-parser.cc
@@ -247,7 +247,8 @@ Uuid::Uuid(Slice data) noexcept {
 
 #line 26 "ragel/uuid-parser.rl"
 
-    if (cs && value.size() <= Word::MAX_BASE64_SIZE &&
+    bool complete = cs >= UUID_first_final || pb == pe;
+    if (complete && value.size() <= Word::MAX_BASE64_SIZE &&
         origin.size() <= Word::MAX_BASE64_SIZE) {
         this->value = Word{ABC[variety], value};
         this->origin = Word{ABC[version], origin};
-- 
2.43.0


From 28dba37a55b051501c2be531ffca339afec281c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:28 +0000
Subject: [PATCH 24/63] fix: a historical state must not go past the cutoff op
 inside a span

---
 rdt/rdt.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 3d22447..84d78fb 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -194,12 +194,35 @@ Status SplitLogIntoChains(typename Frame::Cursors &chains, const Frame &input,
     return ok == Status::ENDOFFRAME ? Status::OK : ok;
 }
 
+/** Cuts a log after the given op (a cursor can not end inside of a span). */
+template <typename Frame>
+Status CutLog(Frame &ret, const Frame &input, Uuid cutoff) {
+    typename Frame::Builder log;
+    typename Frame::Cursor cur = input.cursor();
+    Status ok;
+    do {
+        ok = cur.Next();
+        if (!ok) break;
+        log.AppendOp(cur);
+        if (cur.term() != REDUCED) {
+            log.EndChunk(cur.term());
+        }
+    } while (cur.id() != cutoff);
+    log.Release(ret);
+    return ok == Status::ENDOFFRAME ? Status::OK : ok;
+}
+
 template <typename Frame>
 Status ObjectLogIntoState(typename Frame::Builder &into, const Frame input,
                           Uuid cutoff = Uuid::FATAL) {
     using Cursors = typename Frame::Cursors;
     Cursors chains;
-    Status ok = SplitLogIntoChains<Frame>(chains, input, cutoff);
+    Frame history;
+    if (cutoff != Uuid::FATAL) {
+        IFOK(CutLog<Frame>(history, input, cutoff));
+    }
+    const Frame &log = cutoff != Uuid::FATAL ? history : input;
+    Status ok = SplitLogIntoChains<Frame>(chains, log);
     if (!ok) return ok;
     if (chains.empty()) return Status::OK;
     Uuid rdt_id = chains[0].ref();
-- 
2.43.0


From 027791ff6519eea7ce30e3f44581365ea0857d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 25/63] fix: an amended op must keep its values

---
 ron/op.hpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ron/op.hpp b/ron/op.hpp
index 101fc7e..6c6dd10 100644
--- a/ron/op.hpp
+++ b/ron/op.hpp
@@ -22,7 +22,7 @@ struct Op {
     Result NextCodepoint(Atom& a) const {
         if (!a.value.cp_size) {
             a.value.cp = 0;
-            return OUTOFRANGE;
+            return ENDOFINPUT;
         }
         a.value.cp = strings_[a.origin.as_range.begin()];
         --a.value.cp_size;
@@ -55,14 +55,19 @@ struct Op {
     void WriteAtoms(const String& value, Ts... args) {
         fsize_t b = strings_.size();
         Result re = ParseUtf8(strings_, value);
-        fsize_t cp_size = strings_.size() - b;
+        WriteString(b);
+        WriteAtoms(args...);
+    }
+
+    /** Adds an atom for the string that starts at the offset given. */
+    void WriteString(fsize_t b) {
+        fsize_t cp_size = FSIZE(strings_.size()) - b;
         if (cp_size) {
             Range range{b + 1, FSIZE(strings_.size())};
             atoms_.push_back(Atom::String(strings_[b], range, cp_size - 1));
         } else {
             atoms_.push_back(Atom::String(0, Range{b, b}, cp_size));
         }
-        WriteAtoms(args...);
     }
 
     /** A convenience API method to add an op with any number of atoms. */
@@ -80,22 +85,22 @@ struct Op {
 
     template <class Cursor>
     Result WriteValues(const Cursor& cur) {
-        const Atoms& op = cur.op();
-        for (fsize_t i = 2; i < op.size(); ++i) {
-            Atom a = op[i];
+        for (fsize_t i = 2; i < cur.op().size(); ++i) {
+            Atom a = cur.atom(i);  // parsed
             if (a.type() != STRING) {
                 atoms_.push_back(a);
                 continue;
             }
             fsize_t b = strings_.size();
-            fsize_t cp_size{0};
-            while (a.value.cp_size) {  // Oopsie!!! FIXME
+            if (a.value.cp != 0) {  // a char
+                strings_.push_back(a.value.cp);
+            }
+            Result re;
+            while (OK == (re = cur.NextCodepoint(a))) {
                 strings_.push_back(a.value.cp);
-                cur.NextCodepoint(a);
-                ++cp_size;
             }
-            Range range{b, FSIZE(strings_.size())};
-            atoms_.push_back(Atom::String(strings_[b], range, cp_size));
+            if (re != ENDOFINPUT) return re;
+            WriteString(b);
         }
         return OK;
     }
-- 
2.43.0


From 75a0d287d192eaec3bca687b759f2987f41a84cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:48 +0000
Subject: [PATCH 26/63] fix: a string must be read in full if its first
 codepoint is read already

---
 ron/frames.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index e8d941a..ba10009 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -121,13 +121,13 @@ Status Reserialize(std::vector<Frame>& into,
 
 /** Reads a String from an op using the Atom as a cursor.
  * By a convention, the atom cursor for a String must be in the BTB state.
- * For a char (a single codepoint), the atom cursor must point at the char. */
+ * For a char, or once the first codepoint is read, the atom cursor points
+ * at it. */
 template <class Cursor>
 Result ReadString(String& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
     if (a.value.cp != 0) {
         utf8append(to, a.value.cp);
-        return OK;
     }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
@@ -139,6 +139,9 @@ Result ReadString(String& to, const Cursor& c, Atom a) {
 template <class Cursor>
 Result ReadString16(String16& to, const Cursor& c, Atom a) {
     assert(a.type() == STRING);
+    if (a.value.cp != 0) {
+        utf16append(to, a.value.cp);
+    }
     Result ret{OK};
     while (OK == (ret = c.NextCodepoint(a))) {
         utf16append(to, a.value.cp);
-- 
2.43.0


From cad805514b8e55a0372b2334d24bcf4023bc9801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:52 +0000
Subject: [PATCH 27/63] fix: an op hash must not depend on the layout of its
 strings

---
 ron/hash.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index 6f4b0b0..cea0e24 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -151,7 +151,9 @@ void WriteOpHashable(const Cursor& cursor, SomeStream& stream,
                 stream.WriteAtomRangeless(atom);
                 break;
             case STRING:
-                stream.WriteAtomRangeless(atom);
+                // the size only: no matter how the string was spelled
+                stream.WriteAtomRangeless(
+                    Atom::String(0, Range{}, StringSize(atom)));
                 // TODO: slice_t, no alloc
                 String str;
                 ReadString(str, cursor, atom);
-- 
2.43.0


From ace906a6da4a75ea614b61716e75f827b35d04a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 28/63] fix: utf-16 surrogate pairs must follow the standard

---
 ron/encdec.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ron/encdec.hpp b/ron/encdec.hpp
index bc65423..6cc2ba2 100644
--- a/ron/encdec.hpp
+++ b/ron/encdec.hpp
@@ -154,9 +154,10 @@ inline void utf8esc_append(String& to, Codepoint cp) {
 }
 
 inline void utf16append(std::u16string& to, Codepoint cp) {
-    if (cp < 0xd7ff || (cp < 0x10000 && cp >= 0xe000)) {
+    if (cp < 0x10000) {
         to.push_back(static_cast<char16_t>(cp));
     } else {
+        cp -= 0x10000;
         to.push_back(static_cast<char16_t>(0xd800 + (cp >> 10)));
         to.push_back(static_cast<char16_t>(0xdc00 + (cp & 1023)));
     }
@@ -217,10 +218,14 @@ inline Codepoint utf16read(std::u16string::const_iterator& at,
     if (ret >= 0xe000) {
         return ret;
     }
+    if (ret >= 0xdc00 || at == end || *at < 0xdc00 || *at >= 0xe000) {
+        return CP_ERROR;  // an unpaired surrogate
+    }
     ret -= 0xd800;
     uint16_t next = *at;
     ret <<= 10;
     ret |= next - 0xdc00;
+    ret += 0x10000;
     ++at;
     return ret;
 }
-- 
2.43.0


From cbf441bdafabc768caf7d269485323ce7da72527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:55 +0000
Subject: [PATCH 29/63] fix: an opened store must have a column family to use

---
 db/rocks_store.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 3533ece..c1f43be 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -159,6 +159,9 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
 template <typename Frame>
 Status RocksDBStore<Frame>::Open(Uuid id) {
     if (db_) return Status::BAD_STATE.comment("db open already");
+    if (id != Uuid::NIL) {
+        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
+    }
 
     Options options;
     init_options<Frame>(options);
@@ -166,10 +169,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
     rocksdb::DB* db;
     IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
     db_.reset(db);
-
-    if (!id.zero()) {
-        return Status::NOT_IMPLEMENTED.comment("use OpenAll for now");
-    }
+    cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
 
     return Status::OK;
 }
-- 
2.43.0


From 4305bafd6eb4bc66c1e54cc71bb08c2ffb1297d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:59 +0000
Subject: [PATCH 30/63] fix: a batch must obey the same rules as a single write

---
 db/rocks_store.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index c1f43be..4d5b085 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -176,6 +176,7 @@ Status RocksDBStore<Frame>::Open(Uuid id) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Drop() {
+    if (!db_) return Status::BAD_STATE.comment("closed");
     auto db = static_pointer_cast<rocksdb::DB>(db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     IFROK(db->DropColumnFamily(cf.get()));
@@ -233,6 +234,12 @@ Status RocksDBStore<Frame>::Read(Key key, Frame& result) {
 
 template <typename Frame>
 Status RocksDBStore<Frame>::Write(const Records& batch) {
+    if (!db_) return Status::BAD_STATE.comment("closed");
+    for (auto& record : batch) {
+        if (record.first == Key::END && !record.second.empty()) {
+            return Status::BADARGS.comment("can't write to Key::END");
+        }
+    }
     rocksdb::WriteBatch b;
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(cf_);
     for (auto i = batch.begin(); i != batch.end(); ++i) {
-- 
2.43.0


From d8e3c5dda6d4864137506c8d83202b7224495ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 31/63] fix: a store iterator must not step from nowhere

---
 db/rocks_store.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 4d5b085..617e86b 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -258,6 +258,7 @@ Status RocksDBStore<Frame>::Write(const Records& batch) {
 
 template <typename Frame>
 RocksDBStore<Frame>::Iterator::Iterator(RocksDBStore& host) {
+    if (!host.open()) return;
     auto db = static_pointer_cast<rocksdb::DB>(host.db_);
     auto cf = static_pointer_cast<rocksdb::ColumnFamilyHandle>(host.cf_);
     auto i = db->NewIterator(ro(), cf.get());
@@ -295,7 +296,9 @@ Status RocksDBStore<Frame>::Iterator::Next() {
         return Status::BAD_STATE.comment("closed");
     }
     auto i = static_pointer_cast<rocksdb::Iterator>(i_);
-    i->Next();
+    if (i->Valid()) {
+        i->Next();
+    }
     IFROK(i->status());
     if (!i->Valid()) {
         return Status::ENDOFINPUT;
-- 
2.43.0


From b7b8c4bf785c156bbb9e18e54fb11a967b1564f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:20 +0000
Subject: [PATCH 32/63] fix: a hex escape that ends a string must be decoded

---
 ragel/cp-parser.rl |   4 +-
 ron/cp-parser.cc   | 146 ++++++++++++++++++++++++++-------------------
 2 files changed, 87 insertions(+), 63 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index 4e96057..cf9c2df 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -18,14 +18,14 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs=0;
     %%write init;
     %%{
         include TEXT_FRAME "./text-grammar.rl";
-        action end_cp_brk { --p; fbreak; }
+        action end_cp_brk { if (p < pe) { --p; fbreak; } }
         CP1 = (CP) %end_cp_brk;
         main := CP1*;
         write exec;
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 65fa874..3d8f03a 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -27,7 +27,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef p = str_data.begin();
     CharRef pe = str_data.end();
     CharRef pb = p;
-    CharRef eof = 0;
+    CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
     int cs = 0;
@@ -95,11 +95,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 10;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 10;
+                            goto _out;
+                        }
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -114,11 +116,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 10;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 10;
+                            goto _out;
+                        }
                     }
                 }
 #line 8 "ragel/././utf8-grammar.rl"
@@ -160,11 +164,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
                     }
                 }
                 goto st1;
@@ -177,11 +183,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 1;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 1;
+                            goto _out;
+                        }
                     }
                 }
                 goto st1;
@@ -297,11 +305,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 6;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 6;
+                            goto _out;
+                        }
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -316,11 +326,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 6;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 6;
+                            goto _out;
+                        }
                     }
                 }
 #line 9 "ragel/././utf8-grammar.rl"
@@ -351,11 +363,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 7;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 7;
+                            goto _out;
+                        }
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -370,11 +384,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 7;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 7;
+                            goto _out;
+                        }
                     }
                 }
 #line 10 "ragel/././utf8-grammar.rl"
@@ -399,11 +415,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
             }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 8;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -418,11 +436,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                 {
-                    --p;
-                    {
-                        p++;
-                        cs = 8;
-                        goto _out;
+                    if (p < pe) {
+                        --p;
+                        {
+                            p++;
+                            cs = 8;
+                            goto _out;
+                        }
                     }
                 }
 #line 11 "ragel/././utf8-grammar.rl"
@@ -476,11 +496,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 }
 #line 28 "ragel/cp-parser.rl"
                     {
-                        --p;
-                        {
-                            p++;
-                            cs = 0;
-                            goto _out;
+                        if (p < pe) {
+                            --p;
+                            {
+                                p++;
+                                cs = 0;
+                                goto _out;
+                            }
                         }
                     }
                     break;
@@ -493,11 +515,13 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     { cp_size++; }
 #line 28 "ragel/cp-parser.rl"
                     {
-                        --p;
-                        {
-                            p++;
-                            cs = 0;
-                            goto _out;
+                        if (p < pe) {
+                            --p;
+                            {
+                                p++;
+                                cs = 0;
+                                goto _out;
+                            }
                         }
                     }
                     break;
-- 
2.43.0


From bb7fd15a5c0d9597b731fec5cbaa5444ba02749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 33/63] fix: a builder must not carry the last id over to the
 next frame

---
 ron/text.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ron/text.hpp b/ron/text.hpp
index 559bea5..fb44dae 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -321,6 +321,7 @@ class TextFrame {
                 EndChunk();
             }
             Write(FRAME_TERM);
+            prev_id_ = Uuid::NIL;  // the next frame has no defaults yet
             return OK;
         }
 
@@ -330,6 +331,7 @@ class TextFrame {
             }
             std::swap(data_, to);
             data_.clear();
+            prev_id_ = Uuid::NIL;  // the next frame has no defaults yet
             return OK;
         }
 
-- 
2.43.0


From 7d5854886a081f4b7c66884f2b1669cb89a745e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:33 +0000
Subject: [PATCH 34/63] fix: the term of a span belongs to its last op only

---
 ron/text.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/text.hpp b/ron/text.hpp
index fb44dae..b25ba5f 100644
--- a/ron/text.hpp
+++ b/ron/text.hpp
@@ -113,8 +113,8 @@ class TextFrame {
         }
 
         /** The op's term is basically a form of punctuation in a frame.
-            See enum TERM. */
-        inline TERM term() const { return term_; }
+            See enum TERM. The term of a span belongs to its last op. */
+        inline TERM term() const { return span_size_ ? REDUCED : term_; }
 
         /** Returns an atom (0 id, 1 ref, 2... are values). Values are parsed.
          */
-- 
2.43.0


From 72dd182a16f012795eb560b889fe26c2aa1097a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 35/63] fix: a zero codepoint must be refused, escaped or not

---
 ragel/cp-parser.rl    |  1 +
 ragel/text-grammar.rl |  1 +
 ron/cp-parser.cc      | 19 +++++++++++++------
 ron/text-parser.cc    | 36 ++++++++++++++++++++++++------------
 4 files changed, 39 insertions(+), 18 deletions(-)

diff --git a/ragel/cp-parser.rl b/ragel/cp-parser.rl
index cf9c2df..84e0230 100644
--- a/ragel/cp-parser.rl
+++ b/ragel/cp-parser.rl
@@ -21,6 +21,7 @@ Result TextFrame::Cursor::NextCodepoint (Atom& a) const {
     CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
+    bool oversize{false};
     int cs=0;
     %%write init;
     %%{
diff --git a/ragel/text-grammar.rl b/ragel/text-grammar.rl
index 82235a4..4a802f4 100644
--- a/ragel/text-grammar.rl
+++ b/ragel/text-grammar.rl
@@ -51,6 +51,7 @@
     }
     action end_cp {
         cp_size++;
+        if (!cp) oversize = true; // 0 is forbidden
     }
     action begin_span {}
     action end_span {}
diff --git a/ron/cp-parser.cc b/ron/cp-parser.cc
index 3d8f03a..50c4fbe 100644
--- a/ron/cp-parser.cc
+++ b/ron/cp-parser.cc
@@ -30,6 +30,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
     CharRef eof = pe;
     Codepoint cp = 0;
     fsize_t cp_size{0};
+    bool oversize{false};
     int cs = 0;
 
 #line 39 "ron/cp-parser.cc"
@@ -92,6 +93,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -113,7 +115,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p < pe) {
@@ -161,6 +163,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -180,7 +183,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p < pe) {
@@ -302,6 +305,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -323,7 +327,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p < pe) {
@@ -360,6 +364,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -381,7 +386,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p < pe) {
@@ -412,6 +417,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 28 "ragel/cp-parser.rl"
                 {
@@ -433,7 +439,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                 {
                     if (p < pe) {
@@ -493,6 +499,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
 #line 43 "ragel/./text-grammar.rl"
                 {
                     cp_size++;
+                    if (!cp) oversize = true;
                 }
 #line 28 "ragel/cp-parser.rl"
                     {
@@ -512,7 +519,7 @@ Result TextFrame::Cursor::NextCodepoint(Atom& a) const {
                     cp = decode_hex_cp(Slice{p - 4, 4});
                 }
 #line 43 "ragel/./text-grammar.rl"
-                    { cp_size++; }
+                    { cp_size++; if (!cp) oversize = true; }
 #line 28 "ragel/cp-parser.rl"
                     {
                         if (p < pe) {
diff --git a/ron/text-parser.cc b/ron/text-parser.cc
index 74799e3..871de99 100644
--- a/ron/text-parser.cc
+++ b/ron/text-parser.cc
@@ -906,6 +906,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
@@ -922,7 +923,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
                 goto st2;
@@ -977,6 +978,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
@@ -990,7 +992,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -1783,6 +1785,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
@@ -1799,7 +1802,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 8 "ragel/././utf8-grammar.rl"
                 { cp = (*p); }
                 goto st7;
@@ -1854,6 +1857,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 23 "ragel/./text-grammar.rl"
                 {
@@ -1867,7 +1871,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 23 "ragel/./text-grammar.rl"
                 {
                     op_.emplace_back(STRING, Range{buffer, strb, p});
@@ -2007,6 +2011,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
                 goto st11;
             tr52 :
@@ -2015,7 +2020,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
                 goto st11;
             st11:
                 if (++p == pe) goto _test_eof11;
@@ -2123,6 +2128,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
@@ -2133,7 +2139,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
                 goto st17;
@@ -2162,6 +2168,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
@@ -2172,7 +2179,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
                 goto st18;
@@ -2201,6 +2208,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
@@ -2211,7 +2219,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
                 goto st19;
@@ -4187,6 +4195,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
                 goto st51;
             tr167 :
@@ -4195,7 +4204,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
                 goto st51;
             st51:
                 if (++p == pe) goto _test_eof51;
@@ -4303,6 +4312,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
@@ -4313,7 +4323,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 9 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0x1f; }
                 goto st57;
@@ -4342,6 +4352,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
@@ -4352,7 +4363,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 10 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 0xf; }
                 goto st58;
@@ -4381,6 +4392,7 @@ Status TextFrame::Cursor::Next() {
 #line 43 "ragel/./text-grammar.rl"
             {
                 cp_size++;
+                if (!cp) oversize = true;
             }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
@@ -4391,7 +4403,7 @@ Status TextFrame::Cursor::Next() {
                 cp = decode_hex_cp(Slice{p - 4, 4});
             }
 #line 43 "ragel/./text-grammar.rl"
-                { cp_size++; }
+                { cp_size++; if (!cp) oversize = true; }
 #line 11 "ragel/././utf8-grammar.rl"
                 { cp = (*p) & 7; }
                 goto st59;
-- 
2.43.0


From 47a45460997f0a6e247af9833c2a507ee137e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 36/63] fix: a copied char must be canonical for a span to
 extend it

---
 ron/text-builder.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ron/text-builder.cc b/ron/text-builder.cc
index 21262df..0798a05 100644
--- a/ron/text-builder.cc
+++ b/ron/text-builder.cc
@@ -23,6 +23,10 @@ Result TextFrame::Builder::WriteValues(const Cursor& cur) {
                 Write(ATOM_PUNCT[STRING]);
                 if (atom.value.cp) {  // a char
                     WriteCodepoint(atom.value.cp);
+                } else if (op.size() == 3 && atom.value.cp_size == 1) {
+                    Atom a = atom;  // a span may start here, keep it canonical
+                    cur.NextCodepoint(a);
+                    WriteCodepoint(a.value.cp);
                 } else {  // a string
                     Write(cur.data(atom));
                 }
-- 
2.43.0


From 9a60c09f2be16b6c2cb5924f9e39aab87c2aba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:12 +0000
Subject: [PATCH 37/63] fix: a frame of comments only must compare as an empty
 one

---
 ron/frames.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ron/frames.hpp b/ron/frames.hpp
index ba10009..b66599c 100644
--- a/ron/frames.hpp
+++ b/ron/frames.hpp
@@ -78,7 +78,9 @@ Status CompareFrames(const Frame& frame_a, const Frame& frame_b) {
     using Cursor = typename Frame::Cursor;
     Cursor a = frame_a.cursor();
     Cursor b = frame_b.cursor();
-    if (a.Next() != b.Next()) {
+    Status oka = a.Next(), okb = b.Next();
+    if (oka != okb && (!(oka || oka == Status::ENDOFFRAME) ||
+                       !(okb || okb == Status::ENDOFFRAME))) {
         return Status::BADVALUE;
     }
     return CompareWithCursors(a, b);
-- 
2.43.0


From f3ea1073a77f1c72b468871489320b44d2138309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 38/63] fix: an op that names a field and holds no value must
 not displace the value in LWW compaction

---
 rdt/lww.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rdt/lww.hpp b/rdt/lww.hpp
index d727441..96280d9 100644
--- a/rdt/lww.hpp
+++ b/rdt/lww.hpp
@@ -50,7 +50,7 @@ class LastWriteWinsRDT {
         std::unordered_map<String, Uuid> last;
         auto scan = input.cursor();
         while (scan.Next()) {
-            if (scan.op().size() < 3) continue;
+            if (scan.op().size() < 4) continue;  // sets no value
             last[KeyOf(scan)] = scan.id();
         }
 
@@ -61,7 +61,7 @@ class LastWriteWinsRDT {
             first = false;
             if (header) {
                 output.AppendOp(filter);
-            } else if (filter.op().size() >= 3 &&
+            } else if (filter.op().size() >= 4 &&
                        last[KeyOf(filter)] == filter.id()) {
                 output.AppendOp(filter);
             }
-- 
2.43.0


From 33d933c10358c0ec343d1be9c1ac18b7ed4d4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:27 +0000
Subject: [PATCH 39/63] fix: a merge must step over an op in every input that
 holds it, whatever the order of ops is

---
 rdt/merge.hpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/rdt/merge.hpp b/rdt/merge.hpp
index 9935218..de2de2c 100644
--- a/rdt/merge.hpp
+++ b/rdt/merge.hpp
@@ -91,22 +91,21 @@ class MergeCursor {
         push(0);
     }
 
-    bool step() {
-        if (cursors_[0]->Next()) {
-            push(0);
-        } else {
-            eject();
-        }
-        return size() > 0;
-    }
-
    public:
     // advances to the next op
     // @return non-empty
     bool Next() {
-        Uuid id{op()[OP_ID_IDX]};
-        while (step() && Uuid{op()[OP_ID_IDX]} == id)
-            ;  // idempotency
+        const Uuid id{op()[OP_ID_IDX]};
+        do {  // idempotency: step over the op in every input that has it
+            std::vector<PCursor> stepped;
+            while (!empty() && Uuid{op()[OP_ID_IDX]} == id) {
+                stepped.push_back(cursors_.front());
+                eject();
+            }
+            for (auto &cur : stepped) {
+                if (cur->Next()) Add(cur);
+            }
+        } while (!empty() && Uuid{op()[OP_ID_IDX]} == id);
         return size() > 0;
     }
     // returns the data buffer for the current cursor/op
-- 
2.43.0


From bec0349f3845f1e06addc5e9b330f9774886b415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 40/63] fix: an undo of the first delete in a row must take
 effect

---
 rdt/rga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index d4a1314..3c7b652 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -170,7 +170,7 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case UNDO:
                     at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at > ceiling[REMOVE]) {
+                    if (at >= ceiling[REMOVE]) {
                         kills[at] = true;
                     }
                     break;
-- 
2.43.0


From 1bc7db20eda16cfb0a648f85884c67eda58978e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:51 +0000
Subject: [PATCH 41/63] fix: a run of deletes or undos that reaches above the
 root must not write out of bounds

---
 rdt/rga.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rdt/rga.hpp b/rdt/rga.hpp
index 3c7b652..d92d740 100644
--- a/rdt/rga.hpp
+++ b/rdt/rga.hpp
@@ -163,15 +163,15 @@ Status ScanRGA(Booleans &tombstones, const Frame &frame) {
                     break;
                 case REMOVE:
                     if (kills.back()) break;
-                    at = ceiling[REMOVE] - (depth - ceiling[REMOVE]);
-                    if (at > 0) {  // aka ceiling[META_ENTRY]
-                        kills[at] = true;
+                    at = depth - ceiling[REMOVE];  // reach
+                    if (at < ceiling[REMOVE]) {  // can't reach the root
+                        kills[ceiling[REMOVE] - at] = true;
                     }
                     break;
                 case UNDO:
-                    at = ceiling[UNDO] - (depth - ceiling[UNDO]);
-                    if (at >= ceiling[REMOVE]) {
-                        kills[at] = true;
+                    at = depth - ceiling[UNDO];  // reach
+                    if (at <= ceiling[UNDO] - ceiling[REMOVE]) {
+                        kills[ceiling[UNDO] - at] = true;
                     }
                     break;
                 case TRASH:
-- 
2.43.0


From 2fa8aa7b26c2c8ea645952cbb4e312e2ca027e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 42/63] fix: an input that declares no type (zero ref) must not
 make a merge disagree, whatever the order

---
 rdt/rdt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rdt/rdt.hpp b/rdt/rdt.hpp
index 84d78fb..51fe8fd 100644
--- a/rdt/rdt.hpp
+++ b/rdt/rdt.hpp
@@ -73,7 +73,7 @@ template <class Frame>
 Status GetForm(FORM &ret, const typename Frame::Cursors &inputs) {
     Uuid form{};
     for (auto &i : inputs) {
-        if (!i.valid() || i.ref().version() != NAME) continue;
+        if (!i.valid() || i.ref().version() != NAME || i.ref().zero()) continue;
         if (form.zero()) {
             form = i.ref();
         } else if (form != i.ref()) {
-- 
2.43.0


From 39b9ce59daf820d1f597fdc64eec5b8e70f881ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 43/63] fix: a text too long for a hash must read as an unknown
 hash, not overflow

---
 ron/hash.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/hash.hpp b/ron/hash.hpp
index cea0e24..665289f 100644
--- a/ron/hash.hpp
+++ b/ron/hash.hpp
@@ -61,12 +61,12 @@ struct SHA2 {
     }
 
     static SHA2 ParseHex(const String& hash) {
-        assert(hash.size() <= HEX_SIZE);
+        if (hash.size() > HEX_SIZE) return SHA2{};  // not a hash
         return Parse<4, ABC16>(hash);
     }
 
     static SHA2 ParseBase64(const String& hash) {
-        assert(hash.size() <= BASE64_SIZE);
+        if (hash.size() > BASE64_SIZE) return SHA2{};  // not a hash
         return Parse<6, ABC64>(hash);
     }
 
-- 
2.43.0


From d844f6afcdaefbda085d8cf7d63ef8708f6e7870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 44/63] fix: a failed creation must leave a store as it was

---
 db/rocks_store.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 617e86b..2e549f0 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -134,20 +134,24 @@ Status RocksDBStore<Frame>::Create(Uuid id) {
     options.create_if_missing = true;
     options.error_if_exists = false;
 
-    if (!db_) {
+    // if anything fails, the store must stay as it was
+    SharedPtr dbsh{db_}, cfsh;
+    if (!dbsh) {
         rocksdb::DB* db;
         IFROK(DB::Open(options, ROCKSDB_STORE_DIR, &db));
-        db_ = SharedPtr{db};
+        dbsh = SharedPtr{db};
     }
 
-    ColumnFamilyHandle* cfh;
-    auto db = static_pointer_cast<rocksdb::DB>(db_);
+    auto db = static_pointer_cast<rocksdb::DB>(dbsh);
     if (id != Uuid::NIL) {
+        ColumnFamilyHandle* cfh;
         IFROK(db->CreateColumnFamily(options, id.str(), &cfh));
-        cf_.reset(cfh);
+        cfsh = SharedPtr{cfh};
     } else {
-        cf_ = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
+        cfsh = SharedPtr{db->DefaultColumnFamily(), [](void*) {}};
     }
+    cf_ = cfsh;
+    db_ = dbsh;
 
     tip = Uuid::NIL;
     Frame now = OneOp<Frame>(tip, ZERO_FORM_UUID);
-- 
2.43.0


From 2917363f13c45462a32293b5d5eb7cac425d6976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 45/63] fix: a skip of a span must not go back, however great
 its limit

---
 ron/inc_stack.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ron/inc_stack.hpp b/ron/inc_stack.hpp
index 14d4621..aa10e24 100644
--- a/ron/inc_stack.hpp
+++ b/ron/inc_stack.hpp
@@ -54,12 +54,11 @@ class inc_stack {
             }
         }
         len_t skip_span(len_t max_len) {
-            len_t s = i_->size;
-            if (off_ + max_len < i_->size) {
+            len_t rest = i_->size - off_;
+            if (max_len < rest) {
                 off_ += max_len;
                 return max_len;
             } else {
-                len_t rest = i_->size - off_;
                 ++i_;
                 off_ = 0;
                 return rest;
-- 
2.43.0


From 85d27fc8cafe81f2c7c060f75ec0f11cf588a104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:47 +0000
Subject: [PATCH 46/63] fix: a slice must give its own bytes as a string, no
 others

---
 ron/slice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ron/slice.hpp b/ron/slice.hpp
index 78aba93..307bf3c 100644
--- a/ron/slice.hpp
+++ b/ron/slice.hpp
@@ -207,8 +207,8 @@ class Slice {
     }
 
     inline String str() const {
-        return String{reinterpret_cast<const String::value_type*>(buf_),
-                      range_.begin(), range_.end()};
+        return String{reinterpret_cast<const String::value_type*>(begin()),
+                      size()};
     }
 
     inline Range range_of(Slice sub) const {
-- 
2.43.0


From 02b5de8a6ce97f8b050129ddd8d4de1291a135af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 47/63] fix: a backward seek in InMemoryStore skips all but the
 last change of a key

---
 db/mem_store.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 9311c69..03673c1 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -131,6 +131,7 @@ class InMemoryStore {
             if (b_ == store_.end()) {
                 if (prev && !store_.empty()) {
                     --b_;
+                    b_ = store_.lower_bound(b_->first);
                     e_ = b_;
                 } else {
                     return Status::OK;
@@ -138,6 +139,7 @@ class InMemoryStore {
             } else if (prev && b_->first != key) {
                 if (b_ != store_.begin()) {
                     --b_;
+                    b_ = store_.lower_bound(b_->first);
                     e_ = b_;
                 } else {
                     b_ = e_ = store_.end();
-- 
2.43.0


From 3780b6abd143d72af98c425153c4b5608f90108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:39 +0000
Subject: [PATCH 48/63] fix: InMemoryStore's SeekTo keeps the merged value of
 another key

---
 db/mem_store.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 03673c1..11716eb 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -126,6 +126,8 @@ class InMemoryStore {
          * @return OK or error if something really bad happened
          */
         Status SeekTo(ron::Key key, bool prev = false) {
+            merged_.Clear();
+            len_ = 0;
             b_ = store_.lower_bound(key);
             e_ = b_;
             if (b_ == store_.end()) {
-- 
2.43.0


From 2d6cbae41e370d960f35fdcd9413446b99f3bf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:40 +0000
Subject: [PATCH 49/63] fix: InMemoryStore's Read erases changes that do not
 merge

---
 db/mem_store.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/mem_store.hpp b/db/mem_store.hpp
index 11716eb..34bcc0d 100644
--- a/db/mem_store.hpp
+++ b/db/mem_store.hpp
@@ -179,11 +179,11 @@ class InMemoryStore {
             result = range.first->second;
             return Status::OK;
         }
-        Status ok = Merge(result, range.first, range.second);
+        IFOK(Merge(result, range.first, range.second));
         state_.erase(range.first, range.second);
         state_.insert(Record{key, result});
         LOG('e', key, result.data());
-        return ok;
+        return Status::OK;
     }
 
     Status Write(const Records& batch) {
-- 
2.43.0


From bc8b42ed6472ddc7575a2dacf717ed4ef2020e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 50/63] fix: JoinedStore's iterator returns a cursor over a
 temporary frame

---
 db/joined_store.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a991470..8d747c3 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -111,8 +111,10 @@ class JoinedStore {
             }
             Status ok = MergeCursors<Frame>(merged_, inputs);
             LOG('_', at_, merged_.data());
-            return ok ? Cursor{merged_}
-                      : OneOp<Frame>(ok.code(), Uuid::FATAL).cursor();
+            if (!ok) {
+                merged_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
+            }
+            return Cursor{merged_};
         }
 
         inline Key key() const { return at_; }
-- 
2.43.0


From 19eab9baa2421b8ae3efb1e6e1570a2f70a6e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:01 +0000
Subject: [PATCH 51/63] fix: JoinedStore merges by the type the frames claim,
 not the type of the key

---
 db/joined_store.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index 8d747c3..a854bbd 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -36,7 +36,16 @@ class JoinedStore {
         } else if (b.empty()) {
             std::swap(a, into);
         } else {
-            IFOK(MergeFrames(into, Frames{a, b}));
+            Cursors inputs;
+            inputs.emplace_back(a);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            inputs.emplace_back(b);
+            if (!inputs.back().Next()) {
+                inputs.pop_back();
+            }
+            IFOK(MergeCursors<Frame>(into, key.form(), inputs));
         }
         LOG('R', key, into.data());
         return Status::OK;
@@ -109,7 +118,7 @@ class JoinedStore {
             if (!inputs.back().Next()) {
                 inputs.pop_back();
             }
-            Status ok = MergeCursors<Frame>(merged_, inputs);
+            Status ok = MergeCursors<Frame>(merged_, at_.form(), inputs);
             LOG('_', at_, merged_.data());
             if (!ok) {
                 merged_ = OneOp<Frame>(ok.code(), Uuid::FATAL);
-- 
2.43.0


From 33682333082be181da56b59f631c020bcc75cfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 52/63] fix: JoinedStore's iterator goes back after a backward
 seek

---
 db/joined_store.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index a854bbd..e8b49b9 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -93,6 +93,10 @@ class JoinedStore {
                 } else {
                     at_ = std::max(ai_.key(), bi_.key());
                 }
+                if (at_ != Key::END) {  // neither part is left behind
+                    IFOK(ai_.SeekTo(at_));
+                    IFOK(bi_.SeekTo(at_));
+                }
             } else {
                 at_ = std::min(ai_.key(), bi_.key());
             }
-- 
2.43.0


From a12f85bdef1ed7779f542f9ff99d2b77d55dd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 53/63] fix: JoinedStore's iterator stops once one of the
 stores is at its end

---
 db/joined_store.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/db/joined_store.hpp b/db/joined_store.hpp
index e8b49b9..70f1fb8 100644
--- a/db/joined_store.hpp
+++ b/db/joined_store.hpp
@@ -69,14 +69,20 @@ class JoinedStore {
             : ai_{host.a_}, bi_{host.b_}, at_{Key::END}, merged_{} {}
 
         Status Next() {
+            Status oka, okb;
             if (ai_.key() == at_) {
-                IFOK(ai_.Next());
+                oka = ai_.Next();
             }
             if (bi_.key() == at_) {
-                IFOK(bi_.Next());
+                okb = bi_.Next();
             }
             pick();
-            return Status::OK;
+            // one part may end before the other one does
+            if (at_ != Key::END) {
+                if (oka == Status::ENDOFINPUT) oka = Status::OK;
+                if (okb == Status::ENDOFINPUT) okb = Status::OK;
+            }
+            return oka ? okb : oka;
         }
 
         Status SeekTo(Key key, bool prev = false) {
-- 
2.43.0


From 3e00a1099a364514fdb5206f3d6f25ed76f0c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 54/63] fix: a branch takes the event of another yarn for its
 own tip and can't be opened again

---
 db/replica.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index 04d8478..c7b1813 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -435,7 +435,10 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
     IFOK(join_.Write(Key{obj_id, LOG_FORM_UUID}, data));
     IFOK(join_.Write(Key{obj_id, tip_meta.rdt}, data));
 
-    tip_ = tip_meta.id;
+    // the tip of the branch is its own last event, not just any
+    if (base_ == Uuid::NIL || id.origin == base_.origin) {
+        tip_ = tip_meta.id;
+    }
 
     return tip_meta.id;
 }
@@ -660,9 +663,6 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
 
 template <typename Store>
 Status Replica<Store>::Commit::Save() {
-    if (tip_ == base_) {
-        return Status::OK;
-    }
     if (base_ != Uuid::NIL && tip_.origin != base_.origin) {
         return Status::BAD_STATE.comment("tip changes origin? " + base_.str() +
                                          " -> " + tip_.str());
@@ -673,13 +673,19 @@ Status Replica<Store>::Commit::Save() {
     }
     // FIXME error handling!!!
     Records save;
-    Frame now = OneOp<Frame>(tip_, ZERO_FORM_UUID);
-    IFOK(mem_.Write(Key::ZERO, now));
-    mem_.Release(save);
+    if (tip_ != base_) {
+        Frame now = OneOp<Frame>(tip_, ZERO_FORM_UUID);
+        IFOK(mem_.Write(Key::ZERO, now));
+    }
+    if (!mem_.Release(save)) {
+        return Status::OK;
+    }
     // Frames are applied transactionally, all or nothing.
     // We saw no errors => we may save the changes.
+    IFOK(main_.Write(save));
+    main_.tip = tip_;
     base_ = tip_ = Uuid::NIL;
-    return main_.Write(save);
+    return Status::OK;
 }
 
 template <class Cursor>
-- 
2.43.0


From 53a6aa302615f7c1d5ab185d1e7f6f347d8ba77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:25 +0000
Subject: [PATCH 55/63] fix: the active store is forgotten once the replica is
 closed

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index c7b1813..0d0dce0 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -63,7 +63,7 @@ Status Replica<Store>::Open() {
     Frame active;
     if (GetMetaStore().Read(Key{ACTIVE_STORE_UUID, ZERO_RAW_FORM}, active)) {
         Cursor c{active};
-        if (c.valid() && HasStore(c.ref())) {
+        if (c.Next() && HasStore(c.ref())) {
             active_ = c.ref();
         }
     }
-- 
2.43.0


From b30db19e79145e30ac856401bbf5a09594995a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 56/63] fix: a query for an object log gives the object state

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 0d0dce0..4c14c22 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -510,7 +510,7 @@ Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
     query.Next();
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
-    Key logkey{meta.object, meta.rdt};
+    Key logkey{meta.object, LOG_FORM_UUID};
     if (id == meta.object) {
         Frame obj;
         IFOK(join_.Read(logkey, obj));
-- 
2.43.0


From 4d9e8a3e0dd13afb81feaaab0ed7ec30c758355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:26 +0000
Subject: [PATCH 57/63] fix: a name is written even if the rest of the frame is
 refused

---
 db/replica.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/replica.cc b/db/replica.cc
index 4c14c22..8489554 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -148,7 +148,7 @@ Status Replica<Store>::Commit::WriteName(Uuid key, Uuid value) {
     Uuid id = host_.Now(yarn_id());
     Key names_key{Uuid::NIL, LWW_RDT_FORM};
     Frame valop = OneOp<Frame>(id, Uuid::NIL, key, value);
-    IFOK(main_.Write(names_key, valop));
+    IFOK(join_.Write(names_key, valop));
     //???!!!last_name_id_ = id;
     return id;
 }
-- 
2.43.0


From 4f26ff3c6f123a895cd1e3985a1c125e7a84c89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 58/63] fix: the text of an array assumes one-letter strings in
 all of its ops

---
 db/map/txt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index ea8d977..5b9e5e4 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -13,16 +13,16 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
     Frame state;
     IFOK( branch.Read(Key{id, RGA_RDT_FORM}, state) );
     vector<bool> tombs;
-    ScanRGA<Frame>(tombs, state);
+    IFOK( ScanRGA<Frame>(tombs, state) );
     Codepoints weave;
     // now, walk em both
     String text;
     Cursor c{state};
     fsize_t pos = 0;
     while (c.Next()) {
-        if (!tombs[pos]) {
+        if (!tombs[pos] && HasValue(c, STRING)) {
             // FIXME may send directly to the Builder?
-            utf8append(text, c.atom(2).value.cp);
+            ReadString(text, c, 2);
         }
         ++pos;
     }
-- 
2.43.0


From b86468b0494cd7038cb00ba2a5d9089752e7f65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 59/63] fix: a frame that is malformed after a query is applied
 as if it ended there, one that ends with a comment is not applied

---
 db/map.hpp     |  8 ++++++++
 db/map/txt.hpp |  3 +--
 db/replica.cc  | 14 ++++++--------
 db/replica.hpp |  5 +++--
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/db/map.hpp b/db/map.hpp
index 14dcd5d..a44b17c 100644
--- a/db/map.hpp
+++ b/db/map.hpp
@@ -9,6 +9,14 @@
 
 namespace ron {
 
+/** Moves past the current op; the end of the frame is no error, unlike a
+ *  malformed op. */
+template <typename Cursor>
+inline Status Consume(Cursor& c) {
+    Status ok = c.Next();
+    return ok == Status::ENDOFFRAME ? Status::OK : ok;
+}
+
 template <typename Commit>
 class CSVMapper {
    public:
diff --git a/db/map/txt.hpp b/db/map/txt.hpp
index 5b9e5e4..2a97dca 100644
--- a/db/map/txt.hpp
+++ b/db/map/txt.hpp
@@ -27,8 +27,7 @@ Status TxtMapper<Commit>::Read(Builder& response, Cursor& query, Commit& branch)
         ++pos;
     }
     response.AppendOp(Op{id.derived(), TXT_MAP_ID, text});
-    query.Next(); // consume the query
-    return Status::OK;
+    return Consume(query);
 }
 
 template <typename Commit>
diff --git a/db/replica.cc b/db/replica.cc
index 8489554..a3c12f0 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -479,15 +479,13 @@ Status Replica<Store>::Commit::QueryObject(Builder& response, Cursor& query) {
         Frame f;
         IFOK(join_.Read(key, f));
         AppendFrame<Frame>(response, f);
-        query.Next();
-        return Status::OK;
+        return Consume(query);
     } else if (host_.mode_ & KEEP_OBJECT_LOGS) {
         Key logkey{query.id(), LOG_FORM_UUID};
         Frame log;
         join_.Read(logkey, log);
-        Status ok = ObjectLogIntoState(response, log);
-        query.Next();
-        return ok;
+        IFOK(ObjectLogIntoState(response, log));
+        return Consume(query);
     } else {
         return Status::NOT_FOUND.comment("unsupported form");
     }
@@ -507,7 +505,7 @@ template <typename Store>
 Status Replica<Store>::Commit::QueryObjectLog(Builder& response,
                                               Cursor& query) {
     Uuid id = query.id();
-    query.Next();
+    IFOK(Consume(query));
     OpMeta meta;
     IFOK(FindOpMeta(meta, id));
     Key logkey{meta.object, LOG_FORM_UUID};
@@ -657,7 +655,7 @@ Status Replica<Store>::Commit::WriteName(Cursor& cmd) {
         return Status::BADARGS.comment("a name must be a NAME UUID");
     }
     // TODO global/scoped names
-    cmd.Next();
+    IFOK(Consume(cmd));
     return WriteName(tag, tip_);
 }
 
@@ -732,7 +730,7 @@ Status Replica<Store>::Receive(Builder& resp, Cursor& c, Word yarn_id) {
                 break;
             case NAME:
                 if (c.id() == Uuid::COMMENT) {
-                    ok = c.Next();
+                    ok = Consume(c);
                 } else if (c.id() == NAME_UUID) {
                     ok = commit.WriteName(c);
                 } else {
diff --git a/db/replica.hpp b/db/replica.hpp
index 118ed48..94ee9a2 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -397,8 +397,9 @@ class Replica {
     inline Status ReceiveFrame(Builder &response, Frame frame,
                                Word branch = ZERO) {
         Cursor c{frame};
-        if (!c.Next()) {
-            return Status::OK;
+        Status ok = c.Next();
+        if (!ok) {
+            return ok == Status::ENDOFFRAME ? Status::OK : ok;
         }
         return Receive(response, c, branch);
     }
-- 
2.43.0


From 92425d8f6f43242095ce8d36981e8b7f8cb0375c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 60/63] fix: an op that is no object's creation makes an object
 of a raw form, its record can't be read

---
 db/replica.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/db/replica.cc b/db/replica.cc
index a3c12f0..f17f6e2 100644
--- a/db/replica.cc
+++ b/db/replica.cc
@@ -406,12 +406,18 @@ Status Replica<Store>::Commit::SaveChain(Builder&, Cursor& chain) {
         tip_meta.Next(chain, tip_meta);
     } else if (ref_id.version() == NAME) {  // tree root, references nothing
         FORM form = uuid2form(ref_id);
-        if (form == ERROR_NO_FORM) {
-            return Status::NOT_IMPLEMENTED.comment("form unknown: " +
-                                                   ref_id.str());
+        switch (form) {
+            case LWW_RDT_FORM:
+            case RGA_RDT_FORM:
+            case MX_RDT_FORM:
+            case MAX_RDT_FORM:
+            case YARN_RAW_FORM:
+                break;
+            default:
+                return Status::NOT_IMPLEMENTED.comment(
+                    "neither an RDT nor a yarn: " + ref_id.str());
         }
         tip_meta = OpMeta{chain, tip_meta};
-        // TODO check it is an RDT or yarn
     } else {  // ok, let's check the db
         // we enforce referential integrity but we
         // can't run datatype-specific checks here
-- 
2.43.0


From 87b4ca96e96dbf37fd9c98dd0548fc21858ff684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 61/63] fix: HybridTime uses the static buffer of gmtime, so
 clocks read in two threads at once mix up

---
 ron/uuid.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ron/uuid.cc b/ron/uuid.cc
index 2bc81ef..1dfece0 100644
--- a/ron/uuid.cc
+++ b/ron/uuid.cc
@@ -81,7 +81,8 @@ String Uuid::str() const {
 }
 
 Word Uuid::HybridTime(time_t seconds, long int nanos) {
-    tm* t = gmtime(&seconds);
+    tm utc;
+    tm* t = gmtime_r(&seconds, &utc);  // gmtime() is not thread safe
     uint64_t ret = 1900U + t->tm_year - 2010U;
     ret *= 12;
     ret += t->tm_mon;
-- 
2.43.0


From deec0c91bed0ca8b653e4a58b9dd1c87439a24a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:15 +0000
Subject: [PATCH 62/63] fix: the version of an object at an event inside a
 compressed run has the whole run

---
 db/replica.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/db/replica.hpp b/db/replica.hpp
index 94ee9a2..6429541 100644
--- a/db/replica.hpp
+++ b/db/replica.hpp
@@ -254,9 +254,7 @@ class Replica {
         inline Status GetObjectVersion(Frame &into, Uuid id, Uuid version) {
             Frame log;
             IFOK(FindObjectLog(log, id));
-            Cursors chains;
-            IFOK(SplitLogIntoChains(chains, log, version));
-            return MergeCursors(into, chains);
+            return ObjectLogToState(into, log, version);
         }
 
         inline Status GetObjectLog(Frame &frame, Uuid id) {
-- 
2.43.0


From ea5d229fd789ef642ec994336b492609b8b04ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:54 +0000
Subject: [PATCH 63/63] fix: a repair of a database loses the branches that
 have no table files yet

---
 db/rocks_store.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/db/rocks_store.cc b/db/rocks_store.cc
index 2e549f0..6598439 100644
--- a/db/rocks_store.cc
+++ b/db/rocks_store.cc
@@ -382,6 +382,20 @@ Status RocksDBStore<Frame>::Repair() {
         families.push_back(CFD{name, cfo});
     }
 
+    // the repair only keeps the branches that have table files
+    vector<ColumnFamilyHandle*> handles;
+    rocksdb::DB* db{nullptr};
+    if (DB::Open(options, ROCKSDB_STORE_DIR, families, &handles, &db).ok()) {
+        rocksdb::Status saved;
+        for (auto* cf : handles) {
+            rocksdb::Status ok = db->Flush(rocksdb::FlushOptions{}, cf);
+            if (!ok.ok()) saved = ok;
+            delete cf;
+        }
+        delete db;
+        IFROK(saved);
+    }
+
     IFROK(rocksdb::RepairDB(ROCKSDB_STORE_DIR, options, families));
 
     return Status::OK;
-- 
2.43.0

