From 92e9fa7e7d92eff133571e22054fc8ba7e87f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 01/50] fix: find SEG-Y trailer stanzas at the end of the file

The stanzas were looked for num*3200 bytes beyond the end of the file, so
every file with a positive stanza count failed to open.
---
 src/ISEGY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index c30c355..4066c73 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -406,7 +406,8 @@ void ISEGY::Impl::read_trailer_stanzas()
         }
     } else {
         // go to first trailer stanza
-        common.file.seekg(common.binary_header.num_of_trailer_stanza *
+        common.file.seekg(-static_cast<streamoff>(
+						  common.binary_header.num_of_trailer_stanza) *
 						  CommonSEGY::TEXT_HEADER_SIZE, ios_base::end);
         end_of_data = common.file.tellg();
         for (int32_t i = common.binary_header.num_of_trailer_stanza; i; --i) {
-- 
2.43.0


From 599d0c9e3226a941d303a92387d3227c811c9585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:05 +0000
Subject: [PATCH 02/50] fix: skip trace headers when looking for terminated
 SEG-Y trailer stanzas

With a stanza count of -1 the size of the trace headers was left out for
fixed length traces, and the number of samples and of additional headers
was taken from fixed places instead of the trace header layout in use.
---
 src/ISEGY.cpp | 35 +++++++++++------------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 4066c73..696a379 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -353,8 +353,13 @@ void ISEGY::Impl::read_trailer_stanzas()
 						   	"unable to determine end of trace data"));
         if (common.binary_header.fixed_tr_length) {
             // skip all traces
-            common.file.seekg(common.bytes_per_sample * common.samp_per_tr *
-							  common.binary_header.num_of_tr_in_file,
+            uint64_t trc_size = CommonSEGY::TR_HEADER_SIZE *
+			   	(static_cast<uint64_t>(
+				common.binary_header.max_num_add_tr_headers) + 1) +
+				static_cast<uint64_t>(common.bytes_per_sample) *
+				common.samp_per_tr;
+            common.file.seekg(static_cast<streamoff>(trc_size *
+							  common.binary_header.num_of_tr_in_file),
 							  ios_base::cur);
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
@@ -368,30 +373,12 @@ void ISEGY::Impl::read_trailer_stanzas()
             }
         } else {
             // variable trace length
-            char trc_hdr_buf[CommonSEGY::TR_HEADER_SIZE];
             for (auto i = common.binary_header.num_of_tr_in_file; i; --i) {
-                common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
-                // get number of samples from main header
-                char const* ptr = trc_hdr_buf + 114;
-                uint32_t trc_samp_num = read_i16(&ptr);
-                if (common.binary_header.max_num_add_tr_headers) {
-                    // if there are additional header(s)
-                    // get number of samples from first additional header
-                    common.file.read(trc_hdr_buf, CommonSEGY::TR_HEADER_SIZE);
-                    ptr = trc_hdr_buf + 136;
-                    trc_samp_num = read_u32(&ptr);
-                    ptr = trc_hdr_buf + 156;
-                    uint16_t add_tr_hdr_num = read_u16(&ptr);
-                    add_tr_hdr_num = add_tr_hdr_num ? add_tr_hdr_num :
-					   	common.binary_header.max_num_add_tr_headers;
-                    // skip addional headers
-                    common.file.seekg((add_tr_hdr_num - 1) *
-									  CommonSEGY::TR_HEADER_SIZE,
-									  ios_base::cur);
-                }
+                unordered_map<string, Trace::Header::Value> hdr =
+				   	read_trc_header();
                 // skip trace samples
-                common.file.seekg(trc_samp_num * common.bytes_per_sample,
-								  ios_base::cur);
+                common.file.seekg(get<int64_t>(hdr["SAMP_NUM"]) *
+								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
             string end_stanza = "((SEG: EndText))";
-- 
2.43.0


From 9c62d95335c501433c2759e62f44c68838d889a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:19 +0000
Subject: [PATCH 03/50] fix: reject a negative number of samples in a SEG-Y
 trace header

Skipping a negative number of samples moved backwards in the file, so
reading headers until the end of the file never ended.
---
 src/ISEGY.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 696a379..5b5c125 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -58,6 +58,7 @@ public:
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
     void file_skip_bytes(streamoff off);
+    int64_t trc_smpls_num(unordered_map<string, Trace::Header::Value>& hdr);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
 
@@ -377,7 +378,7 @@ void ISEGY::Impl::read_trailer_stanzas()
                 unordered_map<string, Trace::Header::Value> hdr =
 				   	read_trc_header();
                 // skip trace samples
-                common.file.seekg(get<int64_t>(hdr["SAMP_NUM"]) *
+                common.file.seekg(trc_smpls_num(hdr) *
 								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
@@ -494,6 +495,16 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
     return hdr;
 }
 
+int64_t ISEGY::Impl::trc_smpls_num(unordered_map<string,
+								   Trace::Header::Value>& hdr)
+{
+    int64_t samp_num = get<int64_t>(hdr["SAMP_NUM"]);
+    if (samp_num < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of samples in trace header");
+    return samp_num;
+}
+
 Trace::Header ISEGY::read_header()
 {
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
@@ -502,9 +513,8 @@ Trace::Header ISEGY::read_header()
         pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
 							   pimpl->common.bytes_per_sample);
     } else {
-        Trace::Header::Value v = hdr["SAMP_NUM"];
-        uint64_t samp_num = get<int64_t>(v);
-        pimpl->file_skip_bytes(samp_num * pimpl->common.bytes_per_sample);
+        pimpl->file_skip_bytes(pimpl->trc_smpls_num(hdr) *
+							   pimpl->common.bytes_per_sample);
     }
     return Trace::Header(hdr);
 }
@@ -522,8 +532,7 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    Trace::Header::Value v = hdr["SAMP_NUM"];
-    size_t samp_num = get<int64_t>(v);
+    size_t samp_num = trc_smpls_num(hdr);
     if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
         common.samp_buf.resize(samp_num * common.bytes_per_sample);
     return read_trc_smpls_fix();
-- 
2.43.0


From 37059cef30ddbe1dee668ec20e57929ed2452f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:22 +0000
Subject: [PATCH 04/50] fix: compute the size of SEG-Y trace samples without
 int overflow

---
 src/ISEGY.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 5b5c125..62e92c0 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -116,7 +116,7 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
     common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr * common.bytes_per_sample));
+        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
@@ -510,7 +510,8 @@ Trace::Header ISEGY::read_header()
     unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
     if (pimpl->common.binary_header.fixed_tr_length ||
 	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(pimpl->common.samp_per_tr *
+        pimpl->file_skip_bytes(static_cast<streamoff>(
+							   pimpl->common.samp_per_tr) *
 							   pimpl->common.bytes_per_sample);
     } else {
         pimpl->file_skip_bytes(pimpl->trc_smpls_num(hdr) *
-- 
2.43.0


From 34d8acafb03e52ec37d84aeda44af50b9ff787d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:27 +0000
Subject: [PATCH 05/50] fix: keep the position of a SEG-Y reader when a trace
 cannot be read

An exception between the header and the samples of a trace (no memory for
the samples, a bad number of samples) left the reader in the middle of the
trace, and the next call returned samples as a trace header.
---
 src/ISEGY.cpp | 50 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 62e92c0..0fb9e70 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -58,6 +58,7 @@ public:
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
     void file_skip_bytes(streamoff off);
+    void rewind(streampos pos);
     int64_t trc_smpls_num(unordered_map<string, Trace::Header::Value>& hdr);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
@@ -495,6 +496,15 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
     return hdr;
 }
 
+void ISEGY::Impl::rewind(streampos pos)
+{
+    // after a failed file operation the stream refuses to read anyway
+    if (!common.file.good())
+        return;
+    common.file.seekg(pos);
+    curr_pos = pos;
+}
+
 int64_t ISEGY::Impl::trc_smpls_num(unordered_map<string,
 								   Trace::Header::Value>& hdr)
 {
@@ -507,17 +517,24 @@ int64_t ISEGY::Impl::trc_smpls_num(unordered_map<string,
 
 Trace::Header ISEGY::read_header()
 {
-    unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
-    if (pimpl->common.binary_header.fixed_tr_length ||
-	   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
-        pimpl->file_skip_bytes(static_cast<streamoff>(
-							   pimpl->common.samp_per_tr) *
-							   pimpl->common.bytes_per_sample);
-    } else {
-        pimpl->file_skip_bytes(pimpl->trc_smpls_num(hdr) *
-							   pimpl->common.bytes_per_sample);
+    streampos start = pimpl->common.file.tellg();
+    try {
+        unordered_map<string, Trace::Header::Value> hdr =
+		   	pimpl->read_trc_header();
+        if (pimpl->common.binary_header.fixed_tr_length ||
+		   	pimpl->common.binary_header.SEGY_rev_major_ver == 0) {
+            pimpl->file_skip_bytes(static_cast<streamoff>(
+								   pimpl->common.samp_per_tr) *
+								   pimpl->common.bytes_per_sample);
+        } else {
+            pimpl->file_skip_bytes(pimpl->trc_smpls_num(hdr) *
+								   pimpl->common.bytes_per_sample);
+        }
+        return Trace::Header(hdr);
+    } catch (...) {
+        pimpl->rewind(start);
+        throw;
     }
-    return Trace::Header(hdr);
 }
 
 vector<double> ISEGY::Impl::read_trc_smpls_fix()
@@ -541,9 +558,16 @@ vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 
 Trace ISEGY::read_trace()
 {
-    unordered_map<string, Trace::Header::Value> hdr = pimpl->read_trc_header();
-    vector<double> samples = pimpl->read_trc_smpls(hdr);
-    return Trace(move(hdr), move(samples));
+    streampos start = pimpl->common.file.tellg();
+    try {
+        unordered_map<string, Trace::Header::Value> hdr =
+		   	pimpl->read_trc_header();
+        vector<double> samples = pimpl->read_trc_smpls(hdr);
+        return Trace(move(hdr), move(samples));
+    } catch (...) {
+        pimpl->rewind(start);
+        throw;
+    }
 }
 
 bool ISEGY::has_trace()
-- 
2.43.0


From fd3c32010661449eca1ee9bb6ec39c98724bf3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:03 +0000
Subject: [PATCH 06/50] fix: copy an exception without dereferencing a null
 pointer

---
 src/Exception.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Exception.cpp b/src/Exception.cpp
index 69d4fcb..50a0afd 100644
--- a/src/Exception.cpp
+++ b/src/Exception.cpp
@@ -42,8 +42,8 @@ char const* Exception::what() const noexcept
     return pimpl->d_message.c_str();
 }
 Exception::Exception(Exception const& e)
+    : pimpl { make_unique<Impl>(*e.pimpl) }
 {
-    this->pimpl->d_message = e.pimpl->d_message;
 }
 Exception::Exception(Exception&& e)
 {
-- 
2.43.0


From f302af357ee8cb106e9fe114a47024d23913ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:07 +0000
Subject: [PATCH 07/50] fix: check that the first field of a trace header
 layout lies in the header

Only the second and later fields were checked, so a layout with one field
made the reader and the writers access memory outside the header.
---
 src/CommonSEGY.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CommonSEGY.cpp b/src/CommonSEGY.cpp
index bc8d6c4..e7e3b49 100644
--- a/src/CommonSEGY.cpp
+++ b/src/CommonSEGY.cpp
@@ -91,12 +91,12 @@ void check_tr_hdr_map(CommonSEGY* com)
 									string("overlapping type/offset in "
                                     "trace headers map: ") +
 								   	to_string(i.first));
-                if (i.first + size > 240)
-                    throw Exception(__FILE__, __LINE__,
-                        string("trace header has only 240 bytes"));
                 prev = i.first;
 				prev_size = size;
             }
+            if (i.first > static_cast<uint32_t>(240 - size))
+                throw Exception(__FILE__, __LINE__,
+                    string("trace header has only 240 bytes"));
         }
     }
 }
-- 
2.43.0


From e466bb93d6066b3f7da184405ff08407eb48f51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:14 +0000
Subject: [PATCH 08/50] fix: sorted SEG-Y reader used invalid iterators for
 empty files and past the end

---
 src/ISEGYSorted1D.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ISEGYSorted1D.cpp b/src/ISEGYSorted1D.cpp
index eca66b6..97455c9 100644
--- a/src/ISEGYSorted1D.cpp
+++ b/src/ISEGYSorted1D.cpp
@@ -34,14 +34,17 @@ ISEGYSorted1D::Impl::Impl(ISEGYSorted1D &s, string hdr_name) : sgy{s} {
     }
     map_cur = trc_map.begin();
     map_end = trc_map.end();
-    vec_cur = map_cur->second.begin();
-    vec_end = map_cur->second.end();
-    Trace::Header::Value key = map_cur->first;
+    if (map_cur != map_end) {
+        vec_cur = map_cur->second.begin();
+        vec_end = map_cur->second.end();
+    }
 }
 
 bool ISEGYSorted1D::has_trace() { return pimpl->map_cur != pimpl->map_end; }
 
 Trace::Header ISEGYSorted1D::read_header() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces");
     common().file.seekg(*pimpl->vec_cur);
     Trace::Header hdr = ISEGY::read_header();
     ++pimpl->vec_cur;
@@ -56,6 +59,8 @@ Trace::Header ISEGYSorted1D::read_header() {
 }
 
 Trace ISEGYSorted1D::read_trace() {
+    if (!has_trace())
+        throw Exception(__FILE__, __LINE__, "no more traces");
     common().file.seekg(*pimpl->vec_cur);
     Trace trc = ISEGY::read_trace();
     ++pimpl->vec_cur;
-- 
2.43.0


From 33724521106ce8f59a42fb1a188e165a6337065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:34 +0000
Subject: [PATCH 09/50] fix: blank the revision in the default text header of
 SEG-Y rev 0

The arguments of the string constructor were swapped: 32 bytes 0x0c were
inserted for 12 blanks, which shifted the rest of the header.
---
 src/OSEGYRev0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 76739c0..708419c 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -38,7 +38,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         auto pos = txt_hdr.find(to_replace);
         // there are no revision field in text header in revision 0
         txt_hdr.replace(pos, to_replace.size(),
-					   	string(' ', to_replace.size()));
+					   	string(to_replace.size(), ' '));
         CommonSEGY::ascii_to_ebcdic(txt_hdr);
     } else if (txt_hdr.size() != CommonSEGY::TEXT_HEADER_SIZE) {
         throw Exception(__FILE__, __LINE__,
-- 
2.43.0


From ac442c612f23c685f6c28d8a3a9dcef5aacb6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:37 +0000
Subject: [PATCH 10/50] fix: do not swap the byte order constant of big endian
 SEG-Y files

It was written as the constant of little endian files, so the reader
swapped all values of such files.
---
 src/OSEGY.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index f17082a..d7f0398 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -271,8 +271,9 @@ void OSEGY::Impl::write_bin_header()
     write_IEEE_double(&ptr, common.binary_header.ext_samp_int_orig);
     write_i32(&ptr, common.binary_header.ext_samp_per_tr_orig);
     write_i32(&ptr, common.binary_header.ext_ens_fold);
-    write_i32(&ptr, common.binary_header.endianness);
-    ptr += 200;
+    // the reader takes these bytes as they are to detect the byte order
+    memcpy(ptr, &common.binary_header.endianness, sizeof(int32_t));
+    ptr += 204;
     write_u8(&ptr, common.binary_header.SEGY_rev_major_ver);
     write_u8(&ptr, common.binary_header.SEGY_rev_minor_ver);
     write_i16(&ptr, common.binary_header.fixed_tr_length);
-- 
2.43.0


From 3a20e2115e146c11ba2b692dc93dce7315849db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:32 +0000
Subject: [PATCH 11/50] fix: store the number of extended text headers in SEG-Y
 rev 1 and 2 files

It was set after the binary header had been written, so readers took the
extended headers for traces.
---
 src/OSEGYRev1.cpp | 2 ++
 src/OSEGYRev2.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index f80741e..3935d9f 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -50,6 +50,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
     sgy.assign_raw_writers();
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 610931f..6f5e9da 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -57,6 +57,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
     sgy.assign_raw_writers();
+    sgy.common().binary_header.ext_text_headers_num =
+	   	sgy.common().text_headers.size() - 1;
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
-- 
2.43.0


From 51ac06520ebc23e9c2cd689550c46659bc07da64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:35 +0000
Subject: [PATCH 12/50] fix: mark SEG-Y rev 1 and 2 files as such

Without a revision in the binary header given by the user the files were
marked as rev 0, and readers took traces of variable length for traces of
fixed length.
---
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 3935d9f..1e99cbe 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -49,6 +49,8 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.common().file.write(txt_hdrs[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver == 0)
+        sgy.common().binary_header.SEGY_rev_major_ver = 1;
     sgy.assign_raw_writers();
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
@@ -59,6 +61,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 1;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 6f5e9da..688518e 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -56,6 +56,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.common().file.write(sgy.common().text_headers[0].c_str(), CommonSEGY::TEXT_HEADER_SIZE);
     if (sgy.common().binary_header.format_code == 0)
         sgy.common().binary_header.format_code = 5;
+    if (sgy.common().binary_header.SEGY_rev_major_ver == 0)
+        sgy.common().binary_header.SEGY_rev_major_ver = 2;
     sgy.assign_raw_writers();
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
@@ -66,6 +68,7 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_bytes_per_sample();
     CommonSEGY::BinaryHeader zero = {};
 	zero.format_code = 5;
+	zero.SEGY_rev_major_ver = 2;
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-- 
2.43.0


From b69169785ec2eb89e5ee9c9db199039c3d21ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:59 +0000
Subject: [PATCH 13/50] fix: store the number of trailer stanzas in SEG-Y rev 2
 files

Stanzas were dropped when the given binary header did not count them.
---
 src/OSEGYRev2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 688518e..d0f90af 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -61,6 +61,8 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     sgy.assign_raw_writers();
     sgy.common().binary_header.ext_text_headers_num =
 	   	sgy.common().text_headers.size() - 1;
+    sgy.common().binary_header.num_of_trailer_stanza =
+	   	sgy.common().trailer_stanzas.size();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
-- 
2.43.0


From 310d6fa53d79a01942f9a9922e4fdf6fa435c101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:01 +0000
Subject: [PATCH 14/50] fix: do not terminate the program when a SEG-Y rev 2
 file cannot be completed

The destructor let the exception of a failed file operation escape.
---
 src/OSEGYRev2.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index d0f90af..1fe4cfe 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -175,8 +175,12 @@ OSEGYRev2::OSEGYRev2(string name, vector<string> ths,
 
 OSEGYRev2::~OSEGYRev2()
 {
-    common().file.seekg(0, ios_base::end);
-    if (common().binary_header.num_of_trailer_stanza)
-        write_trailer_stanzas();
+    try {
+        common().file.seekg(0, ios_base::end);
+        if (common().binary_header.num_of_trailer_stanza)
+            write_trailer_stanzas();
+    } catch (...) {
+        // a destructor must not throw
+    }
 }
 } // namespace sedaman
-- 
2.43.0


From 7036ca348df1b7ab58217457a1184769ba348d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:03 +0000
Subject: [PATCH 15/50] fix: SEG-Y rev 2 writer ignored the extended number of
 samples

Readers prefer it to the two byte one, so they read such files with
another trace length than they were written with.
---
 src/OSEGYRev2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 1fe4cfe..be1c1b1 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -74,8 +74,12 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
     if (memcmp(&sgy.common().binary_header, &zero,
 			   sizeof(CommonSEGY::BinaryHeader))) {
         if (sgy.common().binary_header.fixed_tr_length) {
-            sgy.common().samp_buf.resize(static_cast<uint16_t>(
-					sgy.common().binary_header.samp_per_tr) *
+            int32_t ext_samp_per_tr =
+			   	sgy.common().binary_header.ext_samp_per_tr;
+            sgy.common().samp_buf.resize(static_cast<size_t>(
+					ext_samp_per_tr ? ext_samp_per_tr :
+				   	static_cast<uint16_t>(
+					sgy.common().binary_header.samp_per_tr)) *
 			   	sgy.common().bytes_per_sample);
             if (sgy.common().binary_header.max_num_add_tr_headers)
                 write_trace = [this](Trace& tr) {
-- 
2.43.0


From ec4b4084085abd360a8018fadbfd3da58f91b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:22 +0000
Subject: [PATCH 16/50] fix: SEG-Y rev 2 writer left out the last additional
 trace header

Readers expect as many as the binary header announces.
---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index d7f0398..a9ba446 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -355,7 +355,7 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 {
     char* buf = common.hdr_buf;
 	for (decltype(common.binary_header.max_num_add_tr_headers) i = 1;
-		 i < common.binary_header.max_num_add_tr_headers; ++i) {
+		 i <= common.binary_header.max_num_add_tr_headers; ++i) {
 		std::memset(buf, 0, CommonSEGY::TR_HEADER_SIZE);
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
-- 
2.43.0


From b17608b48f3eb2796e823cc642d84e1dc20a174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:36 +0000
Subject: [PATCH 17/50] fix: write floating point SEG-Y trace header values

Fields of floating point type were taken for integers, and a value of the
other kind than its field failed, so traces of files with additional trace
headers could not be written back.
---
 src/OSEGY.cpp | 69 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index a9ba446..d6bbf90 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -12,6 +12,7 @@ using std::abs;
 using std::fstream;
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -287,6 +288,22 @@ void OSEGY::Impl::write_bin_header()
     common.file.write(buf, CommonSEGY::BIN_HEADER_SIZE);
 }
 
+static int64_t to_int(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<int64_t>(*v) ? get<int64_t>(*v) :
+	   	static_cast<int64_t>(get<double>(*v));
+}
+
+static double to_double(optional<Trace::Header::Value> const& v)
+{
+    if (!v)
+        return 0;
+    return holds_alternative<double>(*v) ? get<double>(*v) :
+	   	static_cast<double>(get<int64_t>(*v));
+}
+
 void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
@@ -296,55 +313,55 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
 				tmp = hdr.get(p.second.first);
-				write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint8_t:
 				tmp = hdr.get(p.second.first);
-				write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u8(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int16_t:
 				tmp = hdr.get(p.second.first);
-				write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint16_t:
 				tmp = hdr.get(p.second.first);
-				write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u16(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int24_t:
 				tmp = hdr.get(p.second.first);
-				write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint24_t:
 				tmp = hdr.get(p.second.first);
-				write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u24(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int32_t:
 				tmp = hdr.get(p.second.first);
-				write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint32_t:
 				tmp = hdr.get(p.second.first);
-				write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u32(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::int64_t:
 				tmp = hdr.get(p.second.first);
-				write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_i64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::uint64_t:
 				tmp = hdr.get(p.second.first);
-				write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_u64(&pos, to_int(tmp));
 				break;
 			case Trace::Header::ValueType::ibm:
 				tmp = hdr.get(p.second.first);
-				write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_ibm_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_single:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_float(&pos, to_double(tmp));
 				break;
 			case Trace::Header::ValueType::ieee_double:
 				tmp = hdr.get(p.second.first);
-				write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+				write_IEEE_double(&pos, to_double(tmp));
 				break;
 		}
 	}
@@ -365,55 +382,55 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				switch (p.second.second) {
 					case Trace::Header::ValueType::int8_t:
 						tmp = hdr.get(p.second.first);
-						write_i8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint8_t:
 						tmp = hdr.get(p.second.first);
-						write_u8(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u8(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int16_t:
 						tmp = hdr.get(p.second.first);
-						write_i16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint16_t:
 						tmp = hdr.get(p.second.first);
-						write_u16(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u16(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int24_t:
 						tmp = hdr.get(p.second.first);
-						write_i24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint24_t:
 						tmp = hdr.get(p.second.first);
-						write_u24(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u24(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int32_t:
 						tmp = hdr.get(p.second.first);
-						write_i32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint32_t:
 						tmp = hdr.get(p.second.first);
-						write_u32(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u32(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::int64_t:
 						tmp = hdr.get(p.second.first);
-						write_i64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_i64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::uint64_t:
 						tmp = hdr.get(p.second.first);
-						write_u64(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_u64(&pos, to_int(tmp));
 						break;
 					case Trace::Header::ValueType::ibm:
 						tmp = hdr.get(p.second.first);
-						write_ibm_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_ibm_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_single:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_float(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_float(&pos, to_double(tmp));
 						break;
 					case Trace::Header::ValueType::ieee_double:
 						tmp = hdr.get(p.second.first);
-						write_IEEE_double(&pos, tmp ? get<int64_t>(*tmp) : 0);
+						write_IEEE_double(&pos, to_double(tmp));
 						break;
 				}
 			}
-- 
2.43.0


From 5161ee5c178dc08211b1036afab8748505c64eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:02 +0000
Subject: [PATCH 18/50] fix: fail cleanly on traces without a number of samples
 or sample interval

The SEG-Y writers dereferenced an empty optional; the rev 2 writer also
refused a sample interval of floating point type, which rev 0 and 1 accept.
---
 src/OSEGY.cpp     |  2 +-
 src/OSEGYRev0.cpp |  4 ++--
 src/OSEGYRev1.cpp |  4 ++--
 src/OSEGYRev2.cpp | 11 ++++++++---
 4 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index d6bbf90..18747fc 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -459,7 +459,7 @@ void OSEGY::Impl::write_trailer_stanzas()
 
 void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 {
-    Trace::Header::Value v = *t.header_const().get("SAMP_NUM");
+    Trace::Header::Value v = t.header_const().get("SAMP_NUM").value();
     int64_t samp_num = get<int64_t>(v);
     uint64_t bytes_num = samp_num * common.bytes_per_sample;
     if (bytes_num != common.samp_buf.size())
diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 708419c..8ee00be 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -68,7 +68,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
         write_trace = [this](Trace& tr) {
             if (sgy.common().file.tellg() == first_trace_pos) {
                 //throw exception if trace header does not has a samples number
-                Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+                Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
                 if (samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
@@ -76,7 +76,7 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
 									"revision 0");
                 else
                     sgy.common().binary_header.samp_per_tr = samp_num;
-                v = *tr.header().get("SAMP_INT");
+                v = tr.header().get("SAMP_INT").value();
                 double samp_int;
                 if (holds_alternative<int64_t>(v))
                     samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 1e99cbe..3af28cf 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -85,7 +85,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 			if (sgy.common().file.tellg() == first_trace_pos) {
 				// throw exception if trace header does not has
 				// a samples number
-				Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
@@ -93,7 +93,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 									"for revision 1");
 				else
 					sgy.common().binary_header.samp_per_tr = samp_num;
-				v = *tr.header().get("SAMP_INT");
+				v = tr.header().get("SAMP_INT").value();
 				double samp_int;
 				if (holds_alternative<int64_t>(v))
 					samp_int = get<int64_t>(v);
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index be1c1b1..a7e86e1 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -7,6 +7,7 @@
 
 using std::function;
 using std::get;
+using std::holds_alternative;
 using std::ios_base;
 using std::make_unique;
 using std::map;
@@ -142,7 +143,7 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 {
     if (sgy.common().file.tellg() == first_trace_pos) {
         // throw exception if trace header does not has a samples number
-        Trace::Header::Value v = *tr.header().get("SAMP_NUM");
+        Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
@@ -150,8 +151,12 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
 							"revision 0");
         else
             sgy.common().binary_header.samp_per_tr = samp_num;
-        v = *tr.header().get("SAMP_INT");
-        double samp_int = get<int64_t>(v);
+        v = tr.header().get("SAMP_INT").value();
+        double samp_int;
+        if (holds_alternative<int64_t>(v))
+            samp_int = get<int64_t>(v);
+        else
+            samp_int = get<double>(v);
         if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
-- 
2.43.0


From 4e6f52936b80d5e48351d815dfcace9ae24ab59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:07 +0000
Subject: [PATCH 19/50] fix: SEG-Y writers overran the sample buffer and left
 parts of rejected traces

A trace with more samples than its record overran the buffer, one with
fewer was completed with samples of an earlier trace, and a trace that
could not be written left its header in the file.
---
 src/OSEGY.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 18747fc..216b23b 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -31,6 +31,9 @@ public:
     {
     }
     CommonSEGY common;
+    // a trace is collected here and written at once, so that a trace that
+    // can not be written leaves nothing in the file
+    vector<char> trc_buf;
     void assign_raw_writers();
     void assign_sample_writer();
     void assign_bytes_per_sample();
@@ -365,7 +368,8 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 				break;
 		}
 	}
-    common.file.write(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
+    trc_buf.assign(common.hdr_buf,
+				   common.hdr_buf + CommonSEGY::TR_HEADER_SIZE);
 }
 
 void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
@@ -435,7 +439,8 @@ void OSEGY::Impl::write_additional_trace_headers(Trace::Header const& hdr)
 				}
 			}
 		}
-		common.file.write(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
+		trc_buf.insert(trc_buf.end(), common.hdr_buf,
+					   common.hdr_buf + CommonSEGY::TR_HEADER_SIZE);
 	}
 }
 
@@ -469,11 +474,18 @@ void OSEGY::Impl::write_trace_samples_var(Trace const& t)
 
 void OSEGY::Impl::write_trace_samples_fix(Trace const& t)
 {
-    char* buf = common.samp_buf.data();
     vector<double> const& samples = t.samples();
+    if (samples.size() > common.samp_buf.size() / common.bytes_per_sample)
+        throw Exception(__FILE__, __LINE__,
+					   	"trace has more samples than its record in the file");
+    char* buf = common.samp_buf.data();
     for (auto samp : samples)
         write_sample(&buf, samp);
-    common.file.write(common.samp_buf.data(), common.samp_buf.size());
+    // a shorter trace is completed with zeros
+    std::memset(buf, 0, common.samp_buf.data() + common.samp_buf.size() - buf);
+    trc_buf.insert(trc_buf.end(), common.samp_buf.begin(),
+				   common.samp_buf.end());
+    common.file.write(trc_buf.data(), trc_buf.size());
 }
 
 OSEGY::OSEGY(string name, CommonSEGY::BinaryHeader bh,
-- 
2.43.0


From 39aebd5a859f1aa099102fa3a2b63d082cf56f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:48 +0000
Subject: [PATCH 20/50] fix: write powers of 16 as IBM floating point numbers

The rounding of the logarithm gave some of them an exponent that is one
too small, and they were written as zero.
---
 src/OSEGD.cpp | 7 +++++--
 src/OSEGY.cpp | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index b581e5d..0d4954c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -174,8 +174,11 @@ void OSEGD::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
+        // exact, unlike a logarithm: abs_val < 16^((exp2 + 3) / 4)
+        int exp2 = 0;
+        frexp(abs_val, &exp2);
+        uint32_t exp = abs_val != 0 ?
+		   	(((exp2 + 3) >> 2) + 64) & 0x7f : 0;
         uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
 		   	pow(2, 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index 216b23b..bbbc4e6 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -151,8 +151,11 @@ void OSEGY::Impl::assign_raw_writers()
     write_ibm_float = [this](char** buf, double val) {
         uint32_t sign = val < 0 ? 1 : 0;
         double abs_val = abs(val);
-        uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 +
-											 1 + 64) & 0x7f;
+        // exact, unlike a logarithm: abs_val < 16^((exp2 + 3) / 4)
+        int exp2 = 0;
+        frexp(abs_val, &exp2);
+        uint32_t exp = abs_val != 0 ?
+		   	(((exp2 + 3) >> 2) + 64) & 0x7f : 0;
         uint32_t fraction = abs_val / pow(16, static_cast<int>(exp) - 64) *
 		   	pow(2, 24);
         uint32_t result = sign << 31 | exp << 24 | (fraction & 0x00ffffff);
-- 
2.43.0


From 226d86c084e98af1383aa746cca91f7098e350c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:52 +0000
Subject: [PATCH 21/50] fix: SEG-Y writers used the first header of an empty
 trace header layout

---
 src/OSEGY.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OSEGY.cpp b/src/OSEGY.cpp
index bbbc4e6..dc998a7 100644
--- a/src/OSEGY.cpp
+++ b/src/OSEGY.cpp
@@ -314,7 +314,7 @@ void OSEGY::Impl::write_trace_header(Trace::Header const& hdr)
 {
     std::memset(common.hdr_buf, 0, CommonSEGY::TR_HEADER_SIZE);
     optional<Trace::Header::Value> tmp;
-	for (auto& p : common.tr_hdr_map[0].second) {
+	for (auto& p : common.tr_hdr_map.at(0).second) {
 		char* pos = common.hdr_buf + p.first;
 		switch (p.second.second) {
 			case Trace::Header::ValueType::int8_t:
-- 
2.43.0


From f605528dc27c6f5282ab8db227e2e04be8d1e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:32 +0000
Subject: [PATCH 22/50] fix: do not read SEG-Y traces past the end of trace
 data

---
 src/ISEGY.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 0fb9e70..e9c470c 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -59,6 +59,7 @@ public:
 									  Trace::Header::Value>& hdr);
     void file_skip_bytes(streamoff off);
     void rewind(streampos pos);
+    void check_end_of_data();
     int64_t trc_smpls_num(unordered_map<string, Trace::Header::Value>& hdr);
     vector<map<uint32_t, pair<string, Trace::Header::ValueType>>>
 	   	tr_hdr_default_io_map();
@@ -505,6 +506,13 @@ void ISEGY::Impl::rewind(streampos pos)
     curr_pos = pos;
 }
 
+void ISEGY::Impl::check_end_of_data()
+{
+    if (curr_pos > end_of_data)
+        throw Exception(__FILE__, __LINE__,
+					   	"trace lies past the end of trace data");
+}
+
 int64_t ISEGY::Impl::trc_smpls_num(unordered_map<string,
 								   Trace::Header::Value>& hdr)
 {
@@ -530,6 +538,7 @@ Trace::Header ISEGY::read_header()
             pimpl->file_skip_bytes(pimpl->trc_smpls_num(hdr) *
 								   pimpl->common.bytes_per_sample);
         }
+        pimpl->check_end_of_data();
         return Trace::Header(hdr);
     } catch (...) {
         pimpl->rewind(start);
@@ -563,6 +572,7 @@ Trace ISEGY::read_trace()
         unordered_map<string, Trace::Header::Value> hdr =
 		   	pimpl->read_trc_header();
         vector<double> samples = pimpl->read_trc_smpls(hdr);
+        pimpl->check_end_of_data();
         return Trace(move(hdr), move(samples));
     } catch (...) {
         pimpl->rewind(start);
-- 
2.43.0


From 0aa8510524161726f5280cc8675f5214d9cdeb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:06 +0000
Subject: [PATCH 23/50] fix: store the offset of the first trace of the SEG-Y
 file being written

---
 src/OSEGYRev2.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index a7e86e1..91b53ad 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -64,6 +64,11 @@ OSEGYRev2::Impl::Impl(OSEGYRev2& s, vector<string> txt_hdrs,
 	   	sgy.common().text_headers.size() - 1;
     sgy.common().binary_header.num_of_trailer_stanza =
 	   	sgy.common().trailer_stanzas.size();
+    // traces follow the text headers, wherever they were in another file
+    if (sgy.common().binary_header.byte_off_of_first_tr)
+        sgy.common().binary_header.byte_off_of_first_tr =
+		   	CommonSEGY::BIN_HEADER_SIZE +
+		   	CommonSEGY::TEXT_HEADER_SIZE * sgy.common().text_headers.size();
     sgy.write_bin_header();
     sgy.write_ext_text_headers();
 	first_trace_pos = sgy.common().file.tellg();
-- 
2.43.0


From 67207ca4d082c9d64f673cba094bd2674bd330e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:15 +0000
Subject: [PATCH 24/50] fix: bound the work spent on a bad number of additional
 SEG-Y trace headers

---
 src/ISEGY.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index e9c470c..f419da3 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -97,6 +97,9 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
     char bin_buf[CommonSEGY::BIN_HEADER_SIZE];
     common.file.read(bin_buf, CommonSEGY::BIN_HEADER_SIZE);
 	fill_bin_header(bin_buf, override_bin_hdr);
+    if (common.binary_header.max_num_add_tr_headers < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of additional trace headers");
     assign_sample_reader();
     assign_bytes_per_sample();
     read_ext_text_headers();
@@ -441,8 +444,9 @@ void ISEGY::Impl::assign_bytes_per_sample()
 unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 {
     unordered_map<string, Trace::Header::Value> hdr;
-	for (decltype(common.binary_header.max_num_add_tr_headers) i = 0;
-		 i < common.binary_header.max_num_add_tr_headers + 1; ++i) {
+	streamoff hdrs_num = static_cast<streamoff>(
+			common.binary_header.max_num_add_tr_headers) + 1;
+	for (streamoff i = 0; i < hdrs_num; ++i) {
 		if (static_cast<decltype(common.tr_hdr_map.size())>(i) <
 		   	common.tr_hdr_map.size()) {
 			fill_buf_from_file(common.hdr_buf, CommonSEGY::TR_HEADER_SIZE);
@@ -491,7 +495,9 @@ unordered_map<string, Trace::Header::Value> ISEGY::Impl::read_trc_header()
 				}
 			}
 		} else {
-			file_skip_bytes(CommonSEGY::TR_HEADER_SIZE);
+			// no more known headers, skip the rest of them
+			file_skip_bytes((hdrs_num - i) * CommonSEGY::TR_HEADER_SIZE);
+			break;
 		}
 	}
     return hdr;
-- 
2.43.0


From 54a81bc4971d9e52a4740b1ca8c4de001a7ec9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 25/50] fix: do not allocate memory for SEG-Y samples that the
 file does not have

---
 src/ISEGY.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index f419da3..81b18cc 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -54,7 +54,7 @@ public:
     unordered_map<string, Trace::Header::Value> read_trc_header();
     function<vector<double>(unordered_map<string, Trace::Header::Value>&)>
 	   	read_trc_smpls;
-    vector<double> read_trc_smpls_fix();
+    vector<double> read_trc_smpls_fix(int64_t samp_num);
     vector<double> read_trc_smpls_var(unordered_map<string,
 									  Trace::Header::Value>& hdr);
     void file_skip_bytes(streamoff off);
@@ -117,17 +117,18 @@ void ISEGY::Impl::initialization(bool override_bin_hdr)
 		/* static cast for the case you will get SEGY prior rev2 with samples
 		 * more then int16_t can hold without wrap. i got one */
 	   	static_cast<uint16_t>(common.binary_header.samp_per_tr);
+    if (common.samp_per_tr < 0)
+        throw Exception(__FILE__, __LINE__,
+					   	"negative number of samples in binary header");
     read_trailer_stanzas();
     common.file.seekg(first_trace_pos);
     curr_pos = first_trace_pos;
-    common.samp_buf.resize(static_cast<decltype(common.samp_buf.size())>(
-        common.samp_per_tr) * common.bytes_per_sample);
 	if (common.binary_header.fixed_tr_length ||
 		common.binary_header.SEGY_rev_major_ver == 0)
 		read_trc_smpls =
 			[this](unordered_map<string,
 				   Trace::Header::Value>& hdr)
-			{ (void)hdr; return read_trc_smpls_fix(); };
+			{ (void)hdr; return read_trc_smpls_fix(common.samp_per_tr); };
 	else
 		read_trc_smpls =
 			[this](unordered_map<string,
@@ -552,8 +553,13 @@ Trace::Header ISEGY::read_header()
     }
 }
 
-vector<double> ISEGY::Impl::read_trc_smpls_fix()
+vector<double> ISEGY::Impl::read_trc_smpls_fix(int64_t samp_num)
 {
+    // do not allocate memory for samples that the file does not have
+    if (samp_num > (end_of_data - curr_pos) / common.bytes_per_sample)
+        throw Exception(__FILE__, __LINE__,
+					   	"trace lies past the end of trace data");
+    common.samp_buf.resize(samp_num * common.bytes_per_sample);
     fill_buf_from_file(common.samp_buf.data(), common.samp_buf.size());
     char const* buf = common.samp_buf.data();
     vector<double> result(common.samp_buf.size() / common.bytes_per_sample);
@@ -565,10 +571,7 @@ vector<double> ISEGY::Impl::read_trc_smpls_fix()
 vector<double> ISEGY::Impl::read_trc_smpls_var(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    size_t samp_num = trc_smpls_num(hdr);
-    if (common.samp_buf.size() != samp_num * common.bytes_per_sample)
-        common.samp_buf.resize(samp_num * common.bytes_per_sample);
-    return read_trc_smpls_fix();
+    return read_trc_smpls_fix(trc_smpls_num(hdr));
 }
 
 Trace ISEGY::read_trace()
-- 
2.43.0


From 97a367db2c53bd8dd87ed10b41f87bbbb3211b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:47 +0000
Subject: [PATCH 26/50] fix: decode all SEG-D sample formats as the standard
 defines them

---
 src/ISEGD.cpp | 95 +++++++++++++++++++++++++++------------------------
 1 file changed, 50 insertions(+), 45 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index faf14b3..5d9fdc0 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -54,6 +54,9 @@ private:
     void file_skip_bytes(streamoff off);
     void check_trc_hdr_ext();
     function<double(char const**)> read_sample;
+    // values of 8015 format are stored by four
+    double quad[4];
+    int quad_pos;
     function<uint8_t(char const**)> read_u8;
     function<int8_t(char const**)> read_i8;
     function<uint16_t(char const**)> read_u16;
@@ -918,40 +921,38 @@ void ISEGD::Impl::assign_sample_reading()
 {
     switch (common.general_header.format_code) {
     case 8015:
+        // four exponents of two followed by four one's complement fractions
         common.bits_per_sample = 20;
         read_sample = [this](char const** buf) {
-            static double result[4];
-            static int counter = 0;
-            if (counter == 4)
-                counter = 0;
-            if (!counter) {
-                int exp[4];
-                for (int i = 0; i < 4; i += 2) {
-                    exp[i] = **buf >> 4;
-                    exp[i + 1] = **buf++ & 0xf;
+            if (quad_pos == 4) {
+                uint16_t exps = read_u16(buf);
+                for (int i = 0; i < 4; ++i) {
+                    int frac = read_i16(buf) >> 1;
+                    quad[i] = ldexp(frac < 0 ? frac + 1 : frac,
+                        (exps >> (12 - 4 * i) & 0xf) - 14);
                 }
-                for (int i = 0; i < 4; ++i)
-                    result[i] = read_i16(buf) * pow(2, exp[i] - 15);
+                quad_pos = 0;
             }
-            return result[counter++];
+            return quad[quad_pos++];
         };
         break;
     case 8022:
+        // exponent of four and one's complement fraction
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            return sign * (**buf++ & 0xf) * pow(2, exp - 4);
+        read_sample = [this](char const** buf) {
+            int val = read_u8(buf);
+            int exp = val >> 4 & 0x7;
+            return val & 0x80 ? -ldexp(~val & 0xf, exp * 2 - 4) :
+                ldexp(val & 0xf, exp * 2 - 4);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01110000;
-            uint16_t frac = **buf++ & 0xf;
-            frac = (frac << 8) & **buf++;
-            return sign * frac * pow(2, exp - 12);
+        read_sample = [this](char const** buf) {
+            int val = read_u16(buf);
+            int exp = val >> 12 & 0x7;
+            return val & 0x8000 ? -ldexp(~val & 0xfff, exp * 2 - 12) :
+                ldexp(val & 0xfff, exp * 2 - 12);
         };
         break;
     case 8036:
@@ -963,30 +964,27 @@ void ISEGD::Impl::assign_sample_reading()
         read_sample = [this](char const** buf) { return read_i32(buf); };
         break;
     case 8042:
+        // exponent of sixteen and positive fraction
         common.bits_per_sample = 8;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            return sign * (**buf++ & 0x1f) / pow(2, 5) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            int val = read_u8(buf);
+            int sign = val & 0x80 ? -1 : 1;
+            int exp = val >> 5 & 0x3;
+            return sign * ldexp(val & 0x1f, exp * 4 - 5);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
-        read_sample = [](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf & 0b01100000;
-            uint16_t frac = **buf++ & 0x1f;
-            frac = (frac << 8) & **buf++;
-            return sign * frac / pow(2, 13) * pow(16, exp);
+        read_sample = [this](char const** buf) {
+            int val = read_u16(buf);
+            int sign = val & 0x8000 ? -1 : 1;
+            int exp = val >> 13 & 0x3;
+            return sign * ldexp(val & 0x1fff, exp * 4 - 13);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
-        read_sample = [this](char const** buf) {
-            int sign = **buf & 0b10000000 ? -1 : 1;
-            int exp = **buf++ & 0b01111111;
-            return sign * read_u24(buf) / pow(2, 24) * pow(16, exp);
-        };
+        read_sample = dbl_from_ibm_float;
         break;
     case 8058:
         common.bits_per_sample = 32;
@@ -1009,13 +1007,14 @@ void ISEGD::Impl::assign_sample_reading()
     case 9036:
         common.bits_per_sample = 24;
         if (endian::native == endian::big)
-            read_sample = [this](char const** buf)
-		   	{ return swap(read_i24(buf)); };
+            read_sample = [](char const** buf) {
+                int32_t result = swap(read<uint16_t>(buf));
+                return result + read<int8_t>(buf) * 0x10000;
+            };
         else
             read_sample = [](char const** buf) {
-                uint32_t result = read<uint16_t>(buf) << 8 |
-				   	read<uint8_t>(buf);
-                return result & 0x800000 ? result | 0xff000000 : result;
+                int32_t result = read<uint16_t>(buf);
+                return result + read<int8_t>(buf) * 0x10000;
             };
         break;
     case 9038:
@@ -1364,9 +1363,15 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    if (common.trc_samp_buf.size() != (samp_num * common.bits_per_sample) / 8)
-        common.trc_samp_buf.resize((samp_num * common.bits_per_sample) / 8);
-    fill_buf_from_file(common.trc_samp_buf.data(), common.trc_samp_buf.size());
+    streamoff size = (static_cast<streamoff>(samp_num) *
+        common.bits_per_sample + 7) / 8;
+    // there could be no more samples than there are in the file
+    if (size > end_of_data - curr_pos)
+        throw Exception(__FILE__, __LINE__, "unexpected end of file");
+    // with place for the last incomplete four of samples in 8015 format
+    common.trc_samp_buf.assign(size + 10, 0);
+    quad_pos = 4;
+    fill_buf_from_file(common.trc_samp_buf.data(), size);
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
     double descale = pow(2, curr_ch_set.descale_multiplier);
-- 
2.43.0


From 3403f9a61e554fcb426219a3b6c06dc6d25fd227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:53 +0000
Subject: [PATCH 27/50] fix: fail cleanly on SEG-D traces with undeclared
 channel sets, header extensions or samples

---
 src/ISEGD.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 5d9fdc0..cf0194d 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1269,6 +1269,9 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             CommonSEGD::TRACE_HEADER_EXT_SIZE);
         char const* buf = common.trc_ext_hdr_buf;
         if (common.trace_header_extension.size()) {
+            // skip blocks that are not described by the maps
+            if (static_cast<size_t>(i) >= common.trace_header_extension.size())
+                continue;
             for (auto& p : common.trace_header_extension[i]) {
                 char const* pos = common.trc_ext_hdr_buf + p.first;
                 switch (p.second.second) {
@@ -1353,21 +1356,26 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
 vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
 											   Trace::Header::Value>& hdr)
 {
-    uint32_t samp_num;
+    int64_t samp_num;
+    uint64_t scan_type = get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1;
+    uint64_t ch_set = get<int64_t>(hdr["CH_SET_NUM"]) - 1;
+    if (scan_type >= common.channel_sets.size() ||
+        ch_set >= common.channel_sets[scan_type].size())
+        throw Exception(__FILE__, __LINE__,
+            "there is no channel set of the trace in the record");
     CommonSEGD::ChannelSetHeader curr_ch_set =
-	   	common.channel_sets[get<int64_t>(hdr["SCAN_TYPE_NUM"]) - 1]
-		[get<int64_t>(hdr["CH_SET_NUM"]) - 1];
+	   	common.channel_sets[scan_type][ch_set];
     if (hdr.find("SAMP_NUM") != hdr.end())
         samp_num = get<int64_t>(hdr["SAMP_NUM"]);
     else if (curr_ch_set.number_of_samples())
         samp_num = *curr_ch_set.number_of_samples();
     else
         samp_num = curr_ch_set.subscans_per_ch_set;
-    streamoff size = (static_cast<streamoff>(samp_num) *
-        common.bits_per_sample + 7) / 8;
     // there could be no more samples than there are in the file
-    if (size > end_of_data - curr_pos)
+    if (samp_num < 0 || samp_num > (end_of_data - curr_pos) * 8 /
+        common.bits_per_sample)
         throw Exception(__FILE__, __LINE__, "unexpected end of file");
+    streamoff size = (samp_num * common.bits_per_sample + 7) / 8;
     // with place for the last incomplete four of samples in 8015 format
     common.trc_samp_buf.assign(size + 10, 0);
     quad_pos = 4;
@@ -1375,7 +1383,7 @@ vector<double> ISEGD::Impl::read_trace_samples(unordered_map<string,
     char const* buf = common.trc_samp_buf.data();
     vector<double> result(samp_num);
     double descale = pow(2, curr_ch_set.descale_multiplier);
-    for (uint32_t i = 0; i < samp_num; ++i)
+    for (int64_t i = 0; i < samp_num; ++i)
         result[i] = read_sample(&buf) * descale;
     return result;
 }
-- 
2.43.0


From b76b4a885d59caf52acabe09c55e998eaeae9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:01 +0000
Subject: [PATCH 28/50] fix: skip general trailers of SEG-D records

---
 src/ISEGD.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index cf0194d..fd04770 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -129,7 +129,7 @@ private:
 
 bool ISEGD::has_record()
 {
-    return pimpl->curr_pos != pimpl->end_of_data;
+    return pimpl->curr_pos < pimpl->end_of_data;
 }
 
 bool ISEGD::has_trace()
@@ -147,6 +147,7 @@ Trace ISEGD::read_trace()
     if (pimpl->chans_in_record == pimpl->chans_read) {
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
+        pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
     }
@@ -1404,7 +1405,7 @@ void ISEGD::Impl::read_trailer()
 {
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.gen_trailer_num_of_blocks)
-        file_skip_bytes(CommonSEGD::GEN_TRLR_SIZE *
+        file_skip_bytes(static_cast<streamoff>(CommonSEGD::GEN_TRLR_SIZE) *
 					   	common.general_header2.gen_trailer_num_of_blocks);
 }
 
-- 
2.43.0


From a1251155a65f7c84be93a6427f1ddfdf4d321e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:09 +0000
Subject: [PATCH 29/50] fix: keep SEG-D headers of different records and
 revisions apart

---
 include/CommonSEGD.hpp |  4 ++-
 src/CommonSEGD.cpp     | 60 ++++++++++++++++++++++--------------------
 src/ISEGD.cpp          |  8 ++++--
 3 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index d0c6b0b..73d91b8 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -194,7 +194,9 @@ public:
             RELATIVE_POS_BLK = 0x56,
             ORIENT_HDR_BLK = 0x60,
             MEASUREMENT_BLK = 0x61,
-            GEN_TRAILER_DESC_BLK = 0x70
+            GEN_TRAILER_DESC_BLK = 0x70,
+            // block numbers of rev 1 and 2 are not block types of rev 3
+            GENERAL_HEADER_N = 0x100
         };
         ///
         /// \brief Returns type of additional general header
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 59202a7..6257bd9 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -42,140 +42,144 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     fl.open(file_name, mode);
     file = move(fl);
     for (shared_ptr<AdditionalGeneralHeader>& item : add_ghs) {
+        // for GeneralHeaderN from rev 2
+        if (GeneralHeaderN* hdr = dynamic_cast<GeneralHeaderN*>(item.get())) {
+            add_gen_hdr_blks_map[AdditionalGeneralHeader::GENERAL_HEADER_N +
+                hdr->gen_hdr_block_num] = make_unique<GeneralHeaderN>(*hdr);
+            continue;
+        }
         switch (item->type()) {
         case AdditionalGeneralHeader::VESSEL_CREW_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::VESSEL_CREW_ID] =
 			   	make_unique<GeneralHeaderVes>(
-					*dynamic_cast<GeneralHeaderVes*>(item.get()));
+					dynamic_cast<GeneralHeaderVes&>(*item));
             break;
         case AdditionalGeneralHeader::SURVEY_AREA_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SURVEY_AREA_NAME] =
 			   	make_unique<GeneralHeaderSur>(
-					*dynamic_cast<GeneralHeaderSur*>(item.get()));
+					dynamic_cast<GeneralHeaderSur&>(*item));
             break;
         case AdditionalGeneralHeader::CLIENT_NAME:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::CLIENT_NAME] =
 			   	make_unique<GeneralHeaderCli>(
-					*dynamic_cast<GeneralHeaderCli*>(item.get()));
+					dynamic_cast<GeneralHeaderCli&>(*item));
             break;
         case AdditionalGeneralHeader::JOB_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::JOB_ID] =
 			   	make_unique<GeneralHeaderJob>(
-					*dynamic_cast<GeneralHeaderJob*>(item.get()));
+					dynamic_cast<GeneralHeaderJob&>(*item));
             break;
         case AdditionalGeneralHeader::LINE_ID:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::LINE_ID] =
 			   	make_unique<GeneralHeaderLin>(
-					*dynamic_cast<GeneralHeaderLin*>(item.get()));
+					dynamic_cast<GeneralHeaderLin&>(*item));
             break;
         case AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::VIBRATOR_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderVib>(
-					*dynamic_cast<GeneralHeaderVib*>(item.get()));
+					dynamic_cast<GeneralHeaderVib&>(*item));
             break;
         case AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::EXPLOSIVE_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderExp>(
-					*dynamic_cast<GeneralHeaderExp*>(item.get()));
+					dynamic_cast<GeneralHeaderExp&>(*item));
             break;
         case AdditionalGeneralHeader::AIRGUN_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::AIRGUN_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAir>(
-					*dynamic_cast<GeneralHeaderAir*>(item.get()));
+					dynamic_cast<GeneralHeaderAir&>(*item));
             break;
         case AdditionalGeneralHeader::WATERGUN_SOURCE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::WATERGUN_SOURCE_INFO]	=
 			   	make_unique<GeneralHeaderWat>(
-					*dynamic_cast<GeneralHeaderWat*>(item.get()));
+					dynamic_cast<GeneralHeaderWat&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAGNETIC_SOURCE] =
 			   	make_unique<GeneralHeaderEle>(
-					*dynamic_cast<GeneralHeaderEle*>(item.get()));
+					dynamic_cast<GeneralHeaderEle&>(*item));
             break;
         case AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::OTHER_SOURCE_TYPE_INFO] =
 			   	make_unique<GeneralHeaderOth>(
-					*dynamic_cast<GeneralHeaderOth*>(item.get()));
+					dynamic_cast<GeneralHeaderOth&>(*item));
             break;
         case AdditionalGeneralHeader::ADD_SOURCE_INFO:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ADD_SOURCE_INFO] =
 			   	make_unique<GeneralHeaderAdd>(
-					*dynamic_cast<GeneralHeaderAdd*>(item.get()));
+					dynamic_cast<GeneralHeaderAdd&>(*item));
             break;
         case AdditionalGeneralHeader::SOU_AUX_CHAN_REF:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::SOU_AUX_CHAN_REF] =
 			   	make_unique<GeneralHeaderSaux>(
-					*dynamic_cast<GeneralHeaderSaux*>(item.get()));
+					dynamic_cast<GeneralHeaderSaux&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_INFO_HDR_EXT_BLK] =
 			   	make_unique<GeneralHeaderSen>(
-					*dynamic_cast<GeneralHeaderSen*>(item.get()));
+					dynamic_cast<GeneralHeaderSen&>(*item));
             break;
         case AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::SENSOR_CALIBRATION_BLK]
 			   	= make_unique<GeneralHeaderSCa>(
-					*dynamic_cast<GeneralHeaderSCa*>(item.get()));
+					dynamic_cast<GeneralHeaderSCa&>(*item));
             break;
         case AdditionalGeneralHeader::TIME_DRIFT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::TIME_DRIFT_BLK] =
 			   	make_unique<GeneralHeaderTim>(
-					*dynamic_cast<GeneralHeaderTim*>(item.get()));
+					dynamic_cast<GeneralHeaderTim&>(*item));
             break;
         case AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK:
             add_gen_hdr_blks_map
 				[AdditionalGeneralHeader::ELECTROMAG_SRC_REC_DESC_BLK] =
 			   	make_unique<GeneralHeaderElSR>(
-					*dynamic_cast<GeneralHeaderElSR*>(item.get()));
+					dynamic_cast<GeneralHeaderElSR&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK1:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK1] =
 			   	make_unique<GeneralHeaderPos1>(
-					*dynamic_cast<GeneralHeaderPos1*>(item.get()));
+					dynamic_cast<GeneralHeaderPos1&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK2:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK2] =
 			   	make_unique<GeneralHeaderPos2>(
-					*dynamic_cast<GeneralHeaderPos2*>(item.get()));
+					dynamic_cast<GeneralHeaderPos2&>(*item));
             break;
         case AdditionalGeneralHeader::POSITION_BLK3:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::POSITION_BLK3] =
 			   	make_unique<GeneralHeaderPos3>(
-					*dynamic_cast<GeneralHeaderPos3*>(item.get()));
+					dynamic_cast<GeneralHeaderPos3&>(*item));
             break;
         case AdditionalGeneralHeader::COORD_REF_SYSTEM:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::COORD_REF_SYSTEM] =
 			   	make_unique<GeneralHeaderCoord>(
-					*dynamic_cast<GeneralHeaderCoord*>(item.get()));
+					dynamic_cast<GeneralHeaderCoord&>(*item));
             break;
         case AdditionalGeneralHeader::RELATIVE_POS_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::RELATIVE_POS_BLK] =
 			   	make_unique<GeneralHeaderRel>(
-					*dynamic_cast<GeneralHeaderRel*>(item.get()));
+					dynamic_cast<GeneralHeaderRel&>(*item));
             break;
         case AdditionalGeneralHeader::ORIENT_HDR_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::ORIENT_HDR_BLK] =
 			   	make_unique<GeneralHeaderOri>(
-					*dynamic_cast<GeneralHeaderOri*>(item.get()));
+					dynamic_cast<GeneralHeaderOri&>(*item));
             break;
         case AdditionalGeneralHeader::MEASUREMENT_BLK:
             add_gen_hdr_blks_map[AdditionalGeneralHeader::MEASUREMENT_BLK] =
 			   	make_unique<GeneralHeaderMeas>(
-					*dynamic_cast<GeneralHeaderMeas*>(item.get()));
+					dynamic_cast<GeneralHeaderMeas&>(*item));
             break;
-        // for GeneralHeaderN from rev 2
         default:
-            add_gen_hdr_blks_map[item->type()] = make_unique<GeneralHeaderN>(
-                *dynamic_cast<GeneralHeaderN*>(item.get()));
-            break;
+            throw Exception(__FILE__, __LINE__,
+                "unexpected type of additional general header");
         }
     }
 }
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index fd04770..d873589 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -286,6 +286,10 @@ void ISEGD::Impl::assign_raw_readers()
 
 void ISEGD::Impl::read_general_headers()
 {
+    // nothing should be left from the previous record
+    common.general_header2 = {};
+    common.general_header3 = {};
+    common.add_gen_hdr_blks_map.clear();
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
     char const* buf = common.gen_hdr_buf;
     read_gen_hdr1(buf);
@@ -376,8 +380,8 @@ void ISEGD::Impl::read_rev2_add_gen_hdr_blks(char const* buf)
     ghN.phase_angle = read_i16(&buf);
     ghN.gen_hdr_block_num = read_u8(&buf);
     ghN.sou_set_num = read_u8(&buf);
-    common.add_gen_hdr_blks_map[static_cast<CommonSEGD::
-		AdditionalGeneralHeader::ADD_GEN_HDR_BLKS>(ghN.gen_hdr_block_num)] =
+    common.add_gen_hdr_blks_map[CommonSEGD::AdditionalGeneralHeader::
+		GENERAL_HEADER_N + ghN.gen_hdr_block_num] =
 	   	make_unique<CommonSEGD::GeneralHeaderN>(ghN);
 }
 
-- 
2.43.0


From b411797aacd7376eab45706cfcb707d3e0794c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:16 +0000
Subject: [PATCH 30/50] fix: layout of SEG-D rev 3 headers

---
 include/CommonSEGD.hpp |  2 +-
 src/CommonSEGD.cpp     |  2 +-
 src/ISEGD.cpp          | 89 +++++++++++++++++++++++-------------------
 src/pybind/pybind.cpp  |  4 +-
 4 files changed, 53 insertions(+), 44 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index 73d91b8..b321c89 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1166,7 +1166,7 @@ public:
         uint64_t instrument_test_time;
         uint32_t sensor_sensitivity;
         uint8_t instr_test_result;
-        char serial_number[28];
+        char serial_number[18];
         uint8_t gen_hdr_block_type;
         ///
         /// \brief Constants to use with names.
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 6257bd9..b91236c 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -275,7 +275,7 @@ optional<uint8_t> CommonSEGD::ChannelSetHeader::physical_unit()
 
 optional<uint32_t> CommonSEGD::ChannelSetHeader::filter_delay()
 {
-   	return segd_rev_more_than_2 ? optional<uint8_t>(p_filter_delay) : nullopt;
+   	return segd_rev_more_than_2 ? optional<uint32_t>(p_filter_delay) : nullopt;
 }
 
 optional<array<char, 27>> CommonSEGD::ChannelSetHeader::description()
diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d873589..8ebc95b 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -314,7 +314,7 @@ void ISEGD::Impl::read_general_headers()
             uint16_t add_blks_num = common.general_header.add_gen_hdr_blocks ==
 			   	0xf ? gh2.ext_num_add_blks_in_gen_hdr :
 			   	common.general_header.add_gen_hdr_blocks;
-            for (uint16_t i = add_blks_num - 2; i; --i) {
+            for (int i = add_blks_num - 2; i > 0; --i) {
                 fill_buf_from_file(common.gen_hdr_buf,
 								   CommonSEGD::GEN_HDR_SIZE);
                 read_rev3_add_gen_hdr_blks(common.gen_hdr_buf);
@@ -394,9 +394,10 @@ void ISEGD::Impl::read_gen_hdr2_and_3(char const* buf)
     gh2.extended_skew_blocks = read_u16(&buf);
     buf += 2;
     gh2.gen_trailer_num_of_blocks = read_u32(&buf);
+    gh2.ext_record_len = read_u32(&buf);
     gh2.record_set_number = read_u16(&buf);
     gh2.ext_num_add_blks_in_gen_hdr = read_u16(&buf);
-    gh2.dominant_sampling_int = read_u16(&buf);
+    gh2.dominant_sampling_int = read_u24(&buf);
     gh2.external_hdr_blocks = read_u24(&buf);
     gh2.gen_hdr_block_num = *++buf;
     fill_buf_from_file(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
@@ -576,9 +577,9 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderVib ghV;
     ghV.expanded_file_number = read_u24(&buf);
-    ghV.sou_line_num = read_u24(&buf);
+    ghV.sou_line_num = read_i24(&buf);
     ghV.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghV.sou_point_num = read_u24(&buf);
+    ghV.sou_point_num = read_i24(&buf);
     ghV.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghV.sou_point_index = read_u8(&buf);
     ghV.phase_control = read_u8(&buf);
@@ -589,10 +590,10 @@ ISEGD::Impl::read_vibrator_hdr(char const* buf)
     ghV.reshoot_idx = read_u8(&buf);
     ghV.group_idx = read_u8(&buf);
     ghV.depth_idx = read_u8(&buf);
-    ghV.offset_crossline = read_u8(&buf);
-    ghV.offset_inline = read_u8(&buf);
-    ghV.size = read_u8(&buf);
-    ghV.offset_depth = read_u8(&buf);
+    ghV.offset_crossline = read_u16(&buf);
+    ghV.offset_inline = read_u16(&buf);
+    ghV.size = read_u16(&buf);
+    ghV.offset_depth = read_u16(&buf);
     ghV.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderVib>(move(ghV));
 }
@@ -602,9 +603,9 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderExp ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.depth = read_u16(&buf);
@@ -615,10 +616,10 @@ ISEGD::Impl::read_explosive_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderExp>(move(ghE));
 }
@@ -628,9 +629,9 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderAir ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -640,10 +641,10 @@ ISEGD::Impl::read_airgun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderAir>(move(ghA));
 }
@@ -653,9 +654,9 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderWat ghA;
     ghA.expanded_file_number = read_u24(&buf);
-    ghA.sou_line_num = read_u24(&buf);
+    ghA.sou_line_num = read_i24(&buf);
     ghA.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghA.sou_point_num = read_u24(&buf);
+    ghA.sou_point_num = read_i24(&buf);
     ghA.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghA.sou_point_index = read_u8(&buf);
     ghA.depth = read_u16(&buf);
@@ -665,10 +666,10 @@ ISEGD::Impl::read_watergun_hdr(char const* buf)
     ghA.reshoot_idx = read_u8(&buf);
     ghA.group_idx = read_u8(&buf);
     ghA.depth_idx = read_u8(&buf);
-    ghA.offset_crossline = read_u8(&buf);
-    ghA.offset_inline = read_u8(&buf);
-    ghA.size = read_u8(&buf);
-    ghA.offset_depth = read_u8(&buf);
+    ghA.offset_crossline = read_u16(&buf);
+    ghA.offset_inline = read_u16(&buf);
+    ghA.size = read_u16(&buf);
+    ghA.offset_depth = read_u16(&buf);
     ghA.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderWat>(move(ghA));
 }
@@ -678,9 +679,9 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderEle ghE;
     ghE.expanded_file_number = read_u24(&buf);
-    ghE.sou_line_num = read_u24(&buf);
+    ghE.sou_line_num = read_i24(&buf);
     ghE.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghE.sou_point_num = read_u24(&buf);
+    ghE.sou_point_num = read_i24(&buf);
     ghE.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghE.sou_point_index = read_u8(&buf);
     ghE.source_type = read_u8(&buf);
@@ -690,10 +691,10 @@ ISEGD::Impl::read_electromagnetic_hdr(char const* buf)
     ghE.reshoot_idx = read_u8(&buf);
     ghE.group_idx = read_u8(&buf);
     ghE.depth_idx = read_u8(&buf);
-    ghE.offset_crossline = read_u8(&buf);
-    ghE.offset_inline = read_u8(&buf);
-    ghE.size = read_u8(&buf);
-    ghE.offset_depth = read_u8(&buf);
+    ghE.offset_crossline = read_u16(&buf);
+    ghE.offset_inline = read_u16(&buf);
+    ghE.size = read_u16(&buf);
+    ghE.offset_depth = read_u16(&buf);
     ghE.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderEle>(move(ghE));
 }
@@ -703,9 +704,9 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
 {
     CommonSEGD::GeneralHeaderOth ghO;
     ghO.expanded_file_number = read_u24(&buf);
-    ghO.sou_line_num = read_u24(&buf);
+    ghO.sou_line_num = read_i24(&buf);
     ghO.sou_line_num += read_u16(&buf) / pow(2, 16);
-    ghO.sou_point_num = read_u24(&buf);
+    ghO.sou_point_num = read_i24(&buf);
     ghO.sou_point_num += read_u16(&buf) / pow(2, 16);
     ghO.sou_point_index = read_u8(&buf);
     buf += 4;
@@ -714,10 +715,10 @@ ISEGD::Impl::read_other_source_hdr(char const* buf)
     ghO.reshoot_idx = read_u8(&buf);
     ghO.group_idx = read_u8(&buf);
     ghO.depth_idx = read_u8(&buf);
-    ghO.offset_crossline = read_u8(&buf);
-    ghO.offset_inline = read_u8(&buf);
-    ghO.size = read_u8(&buf);
-    ghO.offset_depth = read_u8(&buf);
+    ghO.offset_crossline = read_u16(&buf);
+    ghO.offset_inline = read_u16(&buf);
+    ghO.size = read_u16(&buf);
+    ghO.offset_depth = read_u16(&buf);
     ghO.gen_hdr_block_type = *buf;
     return make_unique<CommonSEGD::GeneralHeaderOth>(move(ghO));
 }
@@ -1115,6 +1116,14 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         vert_stack = read_u8(&buf);
         streamer_no = read_u8(&buf);
         array_forming = read_u8(&buf);
+        return CommonSEGD::ChannelSetHeader(
+            scan_type_number, channel_set_number, channel_type,
+            channel_set_start_time, channel_set_end_time, descale_multiplier,
+            number_of_channels, subscans_per_ch_set, channel_gain,
+            alias_filter_freq, alias_filter_slope, low_cut_filter_freq,
+            low_cut_filter_slope, first_notch_filter, second_notch_filter,
+            third_notch_filter, ext_ch_set_num, ext_hdr_flag, trc_hdr_ext,
+            vert_stack, streamer_no, array_forming);
     } else {
         scan_type_number = from_bcd<int>(&buf, false, 2);
         channel_set_number = read_u16(&buf);
@@ -1347,8 +1356,8 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
             }
             if (common.general_header2.segd_rev_major > 2) {
                 uint32_t ext_tr_num = read_u24(&buf);
-                if (get<int64_t>(hdr["TRACE_NUMBER"]) == 16665)
-                    hdr["TRACE_NUMBER"] = ext_tr_num;
+                if (get<int64_t>(hdr["CHAN"]) == 16665)
+                    hdr["CHAN"] = ext_tr_num;
                 hdr["SAMP_NUM"] = read_u32(&buf);
                 hdr["SENSOR_MOVING"] = read_u8(&buf);
                 ++buf;
diff --git a/src/pybind/pybind.cpp b/src/pybind/pybind.cpp
index 87a3708..e897da5 100644
--- a/src/pybind/pybind.cpp
+++ b/src/pybind/pybind.cpp
@@ -935,10 +935,10 @@ PYBIND11_MODULE(pysedaman, m) {
   GeneralHeaderSen_py.def_property(
       "serial_number",
       [](CommonSEGD::GeneralHeaderSen &h) {
-        return string(h.serial_number, 28);
+        return string(h.serial_number, sizeof(h.serial_number));
       },
       [](CommonSEGD::GeneralHeaderSen &h, string &s) {
-        strncpy(h.serial_number, s.c_str(), 28);
+        strncpy(h.serial_number, s.c_str(), sizeof(h.serial_number));
       });
   GeneralHeaderSen_py.def_readwrite(
       "gen_hdr_block_type", &CommonSEGD::GeneralHeaderSen::gen_hdr_block_type);
-- 
2.43.0


From e5c13c3ecd123be38a6f2cb5f066900196aa79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:26 +0000
Subject: [PATCH 31/50] fix: read 8-byte fields of SEG-D trace header
 extensions and more than 99 channel sets

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index 8ebc95b..d480a69 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -173,7 +173,7 @@ void ISEGD::Impl::read_headers_before_traces()
     assign_sample_reading();
     // read header for each scan type
     uint16_t ch_sets_per_scan_type_num =
-	   	common.general_header.channel_sets_per_scan_type ==	1665 ?
+	   	common.general_header.channel_sets_per_scan_type == 165 ?
 	   	common.general_header2.ext_ch_sets_per_scan_type :
 	   	common.general_header.channel_sets_per_scan_type;
     if (!common.general_header.add_gen_hdr_blocks ||
@@ -1317,7 +1317,7 @@ void ISEGD::Impl::read_trace_header_ext(unordered_map<string,
                     hdr[p.second.first] = read_i64(&pos);
                     break;
                 case Trace::Header::ValueType::uint64_t:
-                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&buf));
+                    hdr[p.second.first] = static_cast<int64_t>(read_u64(&pos));
                     break;
                 case Trace::Header::ValueType::ibm:
                     hdr[p.second.first] = dbl_from_ibm_float(&pos);
-- 
2.43.0


From 094542f505606786290338da9344bf9e16af1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:36 +0000
Subject: [PATCH 32/50] fix: do not allocate memory for SEG-D header blocks
 that the file does not have

---
 src/ISEGD.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index d480a69..c762c73 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -199,15 +199,15 @@ void ISEGD::Impl::read_headers_before_traces()
 	uint32_t external_blocks = common.general_header.external_hdr_blocks == 165
 		? common.general_header2.external_hdr_blocks :
 		common.general_header.external_hdr_blocks;
-    common.extended_headers.resize(extended_blocks);
+    common.extended_headers.clear();
     for (uint32_t i = 0; i < extended_blocks; ++i) {
-        common.extended_headers[i].resize(CommonSEGD::EXTENDED_HEADER_SIZE);
+        common.extended_headers.emplace_back(CommonSEGD::EXTENDED_HEADER_SIZE);
         fill_buf_from_file(common.extended_headers[i].data(),
             CommonSEGD::EXTENDED_HEADER_SIZE);
     }
-	common.external_headers.resize(external_blocks);
+    common.external_headers.clear();
     for (uint32_t i = 0; i < external_blocks; ++i) {
-        common.external_headers[i].resize(CommonSEGD::EXTERNAL_HEADER_SIZE);
+        common.external_headers.emplace_back(CommonSEGD::EXTERNAL_HEADER_SIZE);
         fill_buf_from_file(common.external_headers[i].data(),
             CommonSEGD::EXTERNAL_HEADER_SIZE);
     }
-- 
2.43.0


From d3cebd594cd91185dd92126c56a552ccaf811895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:30 +0000
Subject: [PATCH 33/50] fix: do not continue in the middle of a SEG-D trace
 after a failed read

---
 src/ISEGD.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index c762c73..abcd41e 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -46,6 +46,7 @@ public:
     streampos end_of_data;
     uint64_t chans_in_record;
     uint64_t chans_read;
+    bool record_is_broken;
 
 private:
     void read_general_headers();
@@ -139,25 +140,42 @@ bool ISEGD::has_trace()
 
 Trace ISEGD::read_trace()
 {
-    unordered_map<string, Trace::Header::Value> hdr =
-	   	pimpl->read_trace_header();
-    pimpl->read_trace_header_ext(hdr);
-    vector<double> samples = pimpl->read_trace_samples(hdr);
+    if (pimpl->record_is_broken)
+        throw Exception(__FILE__, __LINE__,
+            "headers of the record could not be read");
+    streampos start = pimpl->curr_pos;
+    optional<Trace> result;
+    try {
+        unordered_map<string, Trace::Header::Value> hdr =
+            pimpl->read_trace_header();
+        pimpl->read_trace_header_ext(hdr);
+        vector<double> samples = pimpl->read_trace_samples(hdr);
+        result.emplace(move(hdr), move(samples));
+    } catch (...) {
+        // next attempt should not start in the middle of the trace
+        pimpl->common.file.clear();
+        pimpl->common.file.seekg(start);
+        pimpl->curr_pos = start;
+        throw;
+    }
     ++pimpl->chans_read;
     if (pimpl->chans_in_record == pimpl->chans_read) {
+        pimpl->record_is_broken = true;
         pimpl->chans_in_record = pimpl->chans_read = 0;
         pimpl->common.channel_sets.clear();
         pimpl->read_trailer();
         if (has_record())
             pimpl->read_headers_before_traces();
+        pimpl->record_is_broken = false;
     }
-    return Trace(move(hdr), move(samples));
+    return move(*result);
 }
 
 ISEGD::Impl::Impl(CommonSEGD com)
     : common { move(com) }
 	, chans_in_record {0}
 	, chans_read {0}
+	, record_is_broken {false}
 {
     common.file.seekg(0, ios_base::end);
     end_of_data = common.file.tellg();
-- 
2.43.0


From cfd815861941c99eae22d3f7c5cd5a7eb9395df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:38 +0000
Subject: [PATCH 34/50] fix: check that fields of trace header extension maps
 lie in the block

---
 src/CommonSEGD.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index b91236c..1aa7417 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -18,6 +18,27 @@ using std::unique_ptr;
 using std::vector;
 
 namespace sedaman {
+static uint32_t field_size(Trace::Header::ValueType type)
+{
+    switch (type) {
+    case Trace::Header::ValueType::int8_t:
+    case Trace::Header::ValueType::uint8_t:
+        return 1;
+    case Trace::Header::ValueType::int16_t:
+    case Trace::Header::ValueType::uint16_t:
+        return 2;
+    case Trace::Header::ValueType::int24_t:
+    case Trace::Header::ValueType::uint24_t:
+        return 3;
+    case Trace::Header::ValueType::int64_t:
+    case Trace::Header::ValueType::uint64_t:
+    case Trace::Header::ValueType::ieee_double:
+        return 8;
+    default:
+        return 4;
+    }
+}
+
 CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     GeneralHeader gh, GeneralHeader2 gh2, GeneralHeader3 gh3,
     vector<shared_ptr<AdditionalGeneralHeader>> add_ghs,
@@ -37,6 +58,13 @@ CommonSEGD::CommonSEGD(string name, fstream::openmode mode,
     , channel_sets { ch_sets }
     , trace_header_extension { trc_hdr_ext }
 {
+    for (auto& hdr_map : trace_header_extension)
+        for (auto& item : hdr_map)
+            if (item.first >= TRACE_HEADER_EXT_SIZE || item.first +
+                field_size(item.second.second) > TRACE_HEADER_EXT_SIZE)
+                throw Exception(__FILE__, __LINE__, "field of the trace header "
+                    "extension map is out of the block: " +
+                    item.second.first);
     fstream fl;
     fl.exceptions(fstream::failbit | fstream::badbit);
     fl.open(file_name, mode);
-- 
2.43.0


From 759af0a6e2f5c467c764c300c2b35511b5825c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:14 +0000
Subject: [PATCH 35/50] fix: SEG-D writer used an uninitialised number of
 channels

---
 src/OSEGD.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 0d4954c..c657639 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -38,7 +38,8 @@ public:
     void write_ext_trace_headers(Trace::Header const& hdr);
     void write_trace_samples(Trace const& trc);
     Impl(CommonSEGD com)
-        : common { move(com) }
+        : chans_in_record { 0 }
+        , common { move(com) }
     {
     }
     CommonSEGD common;
-- 
2.43.0


From 2bea78267379fba21d2f3458ceb5003bd75fade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:19 +0000
Subject: [PATCH 36/50] fix: SEG-D writer overran the trace header buffer and
 wrote parts of rejected traces

---
 src/OSEGD.cpp | 48 ++++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c657639..760c62e 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -45,6 +45,8 @@ public:
     CommonSEGD common;
 
 private:
+    // trace is written to file when all its parts are converted
+    vector<char> trc_buf;
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, uint8_t)> write_i8;
@@ -895,12 +897,13 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     else
         to_bcd(&buf, ffid ? get<int64_t>(*ffid) : 0, false, 4);
     optional<Trace::Header::Value> tmp = hdr.get("SCAN_TYPE_NUM");
-    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 0, false, 2);
-    optional<Trace::Header::Value> ch_set = hdr.get("CH_SET_NUM");
-    if (ch_set && get<int64_t>(*ch_set) > 99)
+    to_bcd(&buf, tmp ? get<int64_t>(*tmp) : 1, false, 2);
+    tmp = hdr.get("CH_SET_NUM");
+    int64_t ch_set = tmp ? get<int64_t>(*tmp) : 1;
+    if (ch_set > 99)
         *buf++ = static_cast<uint8_t>(0xff);
     else
-        to_bcd(&buf, get<int64_t>(*ch_set), false, 2);
+        to_bcd(&buf, ch_set, false, 2);
     tmp = hdr.get("CHAN");
     if (tmp && get<int64_t>(*tmp) > 9999)
         write_u16(&buf, 0xffff);
@@ -911,14 +914,15 @@ void OSEGD::Impl::write_trace_header(Trace::Header const& hdr)
     tmp = hdr.get("TR_HDR_EXT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("SAMPLE_SKEW");
-    *buf++ = tmp ? get<double>(*tmp) * pow(2, 8) : 0;
+    write_u8(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
     tmp = hdr.get("TRACE_EDIT");
     *buf++ = tmp ? get<int64_t>(*tmp) : 0;
     tmp = hdr.get("TIME_BREAK_WIN");
     write_u24(&buf, tmp ? get<double>(*tmp) * pow(2, 8) : 0);
-    write_u16(&buf, ch_set && get<int64_t>(*ch_set) < 100 ? 0 : get<int64_t>(*ch_set));
+    write_u16(&buf, ch_set < 100 ? 0 : ch_set);
     write_u24(&buf, ffid ? get<int64_t>(*ffid) : 0);
-    common.file.write(common.trc_hdr_buf, CommonSEGD::TRACE_HEADER_SIZE);
+    trc_buf.assign(common.trc_hdr_buf,
+        common.trc_hdr_buf + CommonSEGD::TRACE_HEADER_SIZE);
 }
 
 void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
@@ -926,15 +930,16 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
     uint8_t ext_hdr_blks = get<int64_t>(hdr.get("TR_HDR_EXT").value_or(0));
     optional<Trace::Header::Value> tmp;
     for (int i = 0; i < ext_hdr_blks; ++i) {
-        std::memset(common.trc_hdr_buf, 0, CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        std::memset(common.trc_ext_hdr_buf, 0,
+            CommonSEGD::TRACE_HEADER_EXT_SIZE);
         // for each item in map
-        if (common.trace_header_extension.size()) {
+        if (static_cast<size_t>(i) < common.trace_header_extension.size()) {
             for (auto& item : common.trace_header_extension[i]) {
                 tmp = hdr.get(item.second.first);
                 if (tmp == std::nullopt)
                     throw Exception(__FILE__, __LINE__,
                         "no such header in trace");
-                char* pos = common.trc_hdr_buf + item.first;
+                char* pos = common.trc_ext_hdr_buf + item.first;
                 switch (item.second.second) {
                 case Trace::Header::ValueType::int8_t:
                     write_i8(&pos, get<int64_t>(*tmp));
@@ -977,8 +982,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                     break;
                 }
             }
-        } else if (i == 0) {
-            char* buf = common.trc_hdr_buf;
+        } else if (i == 0 && common.trace_header_extension.empty()) {
+            char* buf = common.trc_ext_hdr_buf;
             tmp = hdr.get("R_LINE");
             double r_line;
             int64_t r_line_int;
@@ -1003,7 +1008,7 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
             write_u24(&buf, r_point);
             tmp = hdr.get("R_POINT_IDX");
             *buf++ = tmp ? get<int64_t>(*tmp) : 0;
-            if (common.general_header2.segd_rev_major > 1) {
+            if (common.general_header2.segd_rev_major < 3) {
                 tmp = hdr.get("SAMP_NUM");
                 write_u24(&buf, tmp ? get<int64_t>(*tmp) : 0);
             } else {
@@ -1055,8 +1060,8 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
         }
-        common.file.write(common.trc_hdr_buf,
-            CommonSEGD::TRACE_HEADER_EXT_SIZE);
+        trc_buf.insert(trc_buf.end(), common.trc_ext_hdr_buf,
+            common.trc_ext_hdr_buf + CommonSEGD::TRACE_HEADER_EXT_SIZE);
     }
 }
 
@@ -1068,24 +1073,31 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
 								   common.bits_per_sample / 8);
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
-    uint16_t scan_type;
+    int64_t scan_type;
     std::optional<Trace::Header::Value> tmp = trc.header_const().get("SCAN_TYPE_NUM");
     if (tmp == std::nullopt)
         scan_type = 1;
     else
         scan_type = get<int64_t>(*tmp);
-    uint16_t ch_set;
+    int64_t ch_set;
     tmp = trc.header_const().get("CH_SET_NUM");
     if (tmp == std::nullopt)
         ch_set = 1;
     else
         ch_set = get<int64_t>(*tmp);
+    if (scan_type < 1 || ch_set < 1 ||
+        static_cast<size_t>(scan_type) > common.channel_sets.size() ||
+        static_cast<size_t>(ch_set) > common.channel_sets[scan_type - 1].size())
+        throw Exception(__FILE__, __LINE__,
+            "there is no channel set of the trace in the record");
     double descale = common.channel_sets[scan_type - 1][ch_set - 1]
     .descale_multiplier;
     descale = pow(2, descale);
     for (auto samp : samples)
         write_sample(&buf, samp / descale);
-    common.file.write(common.trc_samp_buf.data(), common.trc_samp_buf.size());
+    trc_buf.insert(trc_buf.end(), common.trc_samp_buf.begin(),
+        common.trc_samp_buf.end());
+    common.file.write(trc_buf.data(), trc_buf.size());
 }
 
 void OSEGD::Impl::assign_sample_writers()
-- 
2.43.0


From 7a7c10bebb3a1dacb629428652c79349fa522c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:25 +0000
Subject: [PATCH 37/50] fix: encode all SEG-D sample formats as the standard
 defines them

---
 src/OSEGD.cpp | 137 ++++++++++++++++++++++++++++----------------------
 1 file changed, 76 insertions(+), 61 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 760c62e..c756d4b 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -23,6 +23,31 @@ using std::shared_ptr;
 using std::vector;
 
 namespace sedaman {
+// nearest integer of specified size in bits
+static int32_t to_integer(double val, int bits)
+{
+    double max = ldexp(1, bits - 1) - 1;
+    if (std::isnan(val))
+        return 0;
+    return std::lround(val > max ? max : val < -max - 1 ? -max - 1 : val);
+}
+
+// absolute value as biased exponent of base 2^base_bits and nearest fraction
+static pair<uint32_t, uint32_t> to_exp_and_frac(double val, int base_bits,
+    int min_exp, int max_exp, int frac_bits)
+{
+    double abs_val = abs(val);
+    if (!(abs_val > 0))
+        return { 0, 0 };
+    double limit = ldexp(1, frac_bits);
+    for (int exp = min_exp; exp <= max_exp; ++exp) {
+        double frac = std::round(ldexp(abs_val, frac_bits - exp * base_bits));
+        if (frac < limit)
+            return { exp - min_exp, frac };
+    }
+    return { max_exp - min_exp, limit - 1 };
+}
+
 class OSEGD::Impl {
 public:
     uint64_t chans_in_record;
@@ -47,6 +72,9 @@ public:
 private:
     // trace is written to file when all its parts are converted
     vector<char> trc_buf;
+    // values of 8015 format are stored by four
+    double quad[4];
+    int quad_pos;
     function<void(char**, double)> write_sample;
     function<void(char**, uint8_t)> write_u8;
     function<void(char**, uint8_t)> write_i8;
@@ -1071,6 +1099,10 @@ void OSEGD::Impl::write_trace_samples(Trace const& trc)
 	   	common.bits_per_sample / 8)
         common.trc_samp_buf.resize(trc.samples().size() *
 								   common.bits_per_sample / 8);
+    if (common.general_header.format_code == 8015 && trc.samples().size() % 4)
+        throw Exception(__FILE__, __LINE__,
+            "number of samples of 8015 format should be a multiple of four");
+    quad_pos = 0;
     char* buf = common.trc_samp_buf.data();
     vector<double> const& samples = trc.samples();
     int64_t scan_type;
@@ -1104,96 +1136,74 @@ void OSEGD::Impl::assign_sample_writers()
 {
     switch (common.general_header.format_code) {
     case 8015:
+        // four exponents of two followed by four one's complement fractions
         common.bits_per_sample = 20;
         write_sample = [this](char** buf, double val) {
-            static double result[4];
-            static int counter = 0;
-            result[counter++] = val;
-            if (counter == 4) {
-                counter = 0;
-                uint32_t sign = val < 0 ? 1 : 0;
-                uint16_t exp[4], frac[4];
+            quad[quad_pos++] = val;
+            if (quad_pos == 4) {
+                quad_pos = 0;
+                uint16_t exps = 0, fracs[4];
                 for (int i = 0; i < 4; ++i) {
-                    double abs_val = abs(result[i]);
-                    exp[i] = static_cast<uint16_t>(log(abs_val) /
-												   log(2) + 1 + 15) & 0xf;
-                    frac[i] = abs_val / pow(2, exp[i] - 15);
-                }
-                for (int i = 0; i < 4; i += 2) {
-                    **buf = exp[i] << 4 | exp[i + 1];
-                    ++*buf;
+                    pair<uint32_t, uint32_t> num =
+                        to_exp_and_frac(quad[i], 1, 0, 15, 14);
+                    exps = exps << 4 | num.first;
+                    fracs[i] = quad[i] < 0 ? ~num.second : num.second;
                 }
+                write_u16(buf, exps);
                 for (int i = 0; i < 4; ++i)
-                    write_i16(buf, frac[i] | sign << 15);
+                    write_u16(buf, fracs[i] << 1);
             }
         };
         break;
     case 8022:
+        // exponent of four and one's complement fraction
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 4) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 4)) & 0xf;
-            **buf++ = sign << 7 | exp << 4 | frac;
+        write_sample = [this](char** buf, double val) {
+            pair<uint32_t, uint32_t> num = to_exp_and_frac(val, 2, 0, 7, 4);
+            write_u8(buf, val < 0 ? 0x80 | num.first << 4 |
+                (~num.second & 0xf) : num.first << 4 | num.second);
         };
         break;
     case 8024:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) + 1 + 12) & 0b111;
-            uint32_t frac = static_cast<uint32_t>(abs_val /
-												  pow(2, exp - 12)) & 0xfff;
-            write_u16(buf, sign << 15 | exp << 12 | frac);
+            pair<uint32_t, uint32_t> num = to_exp_and_frac(val, 2, 0, 7, 12);
+            write_u16(buf, val < 0 ? 0x8000 | num.first << 12 |
+                (~num.second & 0xfff) : num.first << 12 | num.second);
         };
         break;
     case 8036:
         common.bits_per_sample = 24;
-        write_sample = [this](char** buf, double val) { write_i24(buf, val); };
+        write_sample = [this](char** buf, double val)
+        { write_i24(buf, to_integer(val, 24)); };
         break;
     case 8038:
         common.bits_per_sample = 32;
-        write_sample = [this](char** buf, double val) { write_i32(buf, val); };
+        write_sample = [this](char** buf, double val)
+        { write_i32(buf, to_integer(val, 32)); };
         break;
     case 8042:
+        // exponent of sixteen and positive fraction
         common.bits_per_sample = 8;
-        write_sample = [](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 5)) & 0x1f;
-            **buf++ = sign << 7 | exp << 5 | frac;
+        write_sample = [this](char** buf, double val) {
+            pair<uint32_t, uint32_t> num = to_exp_and_frac(val, 4, 0, 3, 5);
+            write_u8(buf, (val < 0 ? 0x80 : 0) | num.first << 5 | num.second);
         };
         break;
     case 8044:
         common.bits_per_sample = 16;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) /
-												 log(2) / 4 + 1) & 0b11;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 13)) & 0x1fff;
-            write_u16(buf, sign << 15 | exp << 13 | frac);
+            pair<uint32_t, uint32_t> num = to_exp_and_frac(val, 4, 0, 3, 13);
+            write_u16(buf, (val < 0 ? 0x8000 : 0) | num.first << 13 |
+                num.second);
         };
         break;
     case 8048:
         common.bits_per_sample = 32;
         write_sample = [this](char** buf, double val) {
-            uint32_t sign = val < 0 ? 1 : 0;
-            double abs_val = abs(val);
-            uint32_t exp = static_cast<uint32_t>(log(abs_val) / log(2) / 4 + 1)
-			   	& 0b01111111;
-            uint32_t frac = static_cast<uint32_t>(abs_val / pow(16, exp) *
-												  pow(2, 24)) & 0xffffff;
-            write_u32(buf, sign << 31 | exp << 24 | frac);
+            pair<uint32_t, uint32_t> num = to_exp_and_frac(val, 4, -64, 63, 24);
+            write_u32(buf, (val < 0 ? 0x80000000 : 0) | num.first << 24 |
+                num.second);
         };
         break;
     case 8058:
@@ -1216,22 +1226,27 @@ void OSEGD::Impl::assign_sample_writers()
     case 9036:
         common.bits_per_sample = 24;
         if (endian::native == endian::big)
-            write_sample = [this](char** buf, double val)
-		   	{ return write_i24(buf, swap(static_cast<int32_t>(val))); };
+            write_sample = [](char** buf, double val)
+            {
+                int32_t tmp = to_integer(val, 24);
+                write<uint16_t>(buf, swap(static_cast<uint16_t>(tmp)));
+                write<int8_t>(buf, tmp >> 16);
+            };
         else
             write_sample = [](char** buf, double val) {
-                write<int16_t>(buf, val);
-                write<int8_t>(buf, static_cast<int32_t>(val) >> 16);
+                int32_t tmp = to_integer(val, 24);
+                write<uint16_t>(buf, tmp);
+                write<int8_t>(buf, tmp >> 16);
             };
         break;
     case 9038:
         common.bits_per_sample = 32;
         if (endian::native == endian::big)
             write_sample = [this](char** buf, double val)
-		   	{ return write_i32(buf, swap(static_cast<int32_t>(val))); };
+		   	{ return write_i32(buf, swap(to_integer(val, 32))); };
         else
             write_sample = [](char** buf, double val)
-		   	{ return write<int32_t>(buf, val); };
+		   	{ return write<int32_t>(buf, to_integer(val, 32)); };
         break;
     case 9058:
         common.bits_per_sample = 32;
-- 
2.43.0


From 23602a544d32e1cc6fcdfb5df16caba0807d6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:30 +0000
Subject: [PATCH 38/50] fix: general and channel set header values of SEG-D
 writer

---
 src/OSEGD.cpp       | 38 +++++++++++++++++++++++---------------
 src/OSEGDRev2_1.cpp |  2 +-
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index c756d4b..a016da5 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -234,24 +234,29 @@ void OSEGD::Impl::write_general_header1()
     to_bcd(&ptr, common.general_header.manufac_code, false, 2);
     to_bcd(&ptr, common.general_header.manufac_num, false, 4);
     to_bcd(&ptr, common.general_header.bytes_per_scan, false, 6);
-    *ptr++ = common.general_header.base_scan_int * pow(2, 4);
-    to_bcd(&ptr, common.general_header.polarity, false, 1);
-    int exp = static_cast<unsigned>(log2(common.general_header.
-										 scans_per_block)) & 0x0f;
+    write_u8(&ptr, common.general_header.base_scan_int * pow(2, 4));
+    *ptr = common.general_header.polarity << 4;
+    int exp = 0;
+    long scans = common.general_header.scans_per_block;
+    for (; exp < 0xf && scans && !(scans & 1); ++exp)
+        scans /= 2;
     *ptr++ |= exp;
-    *ptr++ = common.general_header.scans_per_block / pow(2, exp);
+    write_u8(&ptr, scans);
     if (common.general_header.add_gen_hdr_blocks &&
 	   	common.general_header2.ext_record_len) {
         write_u16(&ptr, 0x0fff |
         (static_cast<unsigned>(common.general_header.record_type) << 12));
     } else {
-        to_bcd(&ptr, common.general_header.record_type, false, 1);
+        *ptr = common.general_header.record_type << 4;
         to_bcd(&ptr, common.general_header.record_length, true, 3);
     }
     common.general_header.scan_types_per_record > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.scan_types_per_record, false, 2);
-    to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false, 2);
+    common.general_header.channel_sets_per_scan_type > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
+			   2);
     to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
@@ -293,11 +298,11 @@ void OSEGD::Impl::write_rev2_add_gen_hdrs()
         CommonSEGD::GeneralHeaderN* hdr = dynamic_cast<CommonSEGD::GeneralHeaderN*>
 				  (it->second.get());
         write_u24(&buf, hdr->expanded_file_number);
-        uint32_t integer = hdr->sou_line_num;
+        int32_t integer = floor(hdr->sou_line_num);
         double frac = hdr->sou_line_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
-        integer = hdr->sou_point_num;
+        integer = floor(hdr->sou_point_num);
         frac = hdr->sou_point_num - integer;
         write_i24(&buf, integer);
         write_u16(&buf, frac * pow(2, 16));
@@ -856,18 +861,21 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
     if (!common.general_header.add_gen_hdr_blocks ||
 	   	common.general_header2.segd_rev_major < 3) {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        to_bcd(&buf, hdr.channel_set_number, false, 2);
+        hdr.channel_set_number > 99 ?
+            (void)(*buf++ = static_cast<uint8_t>(0xff)) :
+            to_bcd(&buf, hdr.channel_set_number, false, 2);
         write_u16(&buf, hdr.channel_set_start_time / 2);
         write_u16(&buf, hdr.channel_set_end_time / 2);
         uint16_t sign = hdr.descale_multiplier < 0 ? 0x8000 : 0;
-        uint16_t val = static_cast<uint16_t>(hdr.descale_multiplier *
+        uint16_t val = static_cast<uint16_t>(abs(hdr.descale_multiplier) *
 											 pow(2, 10)) & 0x7fff;
         write_u16(&buf, val | sign);
         to_bcd(&buf, hdr.number_of_channels, false, 4);
-        to_bcd(&buf, hdr.channel_type, false, 1);
-        ++buf;
-        to_bcd(&buf, log2(hdr.subscans_per_ch_set), false, 1);
-        to_bcd(&buf, hdr.channel_gain, true, 1);
+        *buf++ = hdr.channel_type << 4;
+        int exp = 0;
+        while (exp < 0xf && hdr.subscans_per_ch_set >> (exp + 1))
+            ++exp;
+        *buf++ = exp << 4 | (hdr.channel_gain & 0xf);
         to_bcd(&buf, hdr.alias_filter_freq, false, 4);
         to_bcd(&buf, hdr.alias_filter_slope, false, 4);
         to_bcd(&buf, hdr.low_cut_filter_freq, false, 4);
diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index 3e29252..d73f4dc 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -34,7 +34,7 @@ OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     for (vector<CommonSEGD::ChannelSetHeader>& sets :
 		 sgd.common().channel_sets) {
         uint16_t ch_sets_per_scan_type_num =
-		   	sgd.common().general_header.channel_sets_per_scan_type == 1665 ?
+		   	sgd.common().general_header.channel_sets_per_scan_type == 165 ?
 		   	sgd.common().general_header2.ext_ch_sets_per_scan_type :
 		   	sgd.common().general_header.channel_sets_per_scan_type;
         if (sets.size() != ch_sets_per_scan_type_num)
-- 
2.43.0


From c03662a45775d177a2d93447155c4fa9356fa285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:36 +0000
Subject: [PATCH 39/50] fix: reject SEG-D headers which do not match each other

---
 src/OSEGDRev2_1.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/OSEGDRev2_1.cpp b/src/OSEGDRev2_1.cpp
index d73f4dc..66b738c 100644
--- a/src/OSEGDRev2_1.cpp
+++ b/src/OSEGDRev2_1.cpp
@@ -21,10 +21,40 @@ private:
     OSEGDRev2_1& sgd;
 };
 
+static void check_blocks(vector<vector<char>> const& blocks, uint32_t num)
+{
+    if (blocks.size() < num)
+        throw Exception(__FILE__, __LINE__,
+            "number of header blocks less than number in general header");
+    for (uint32_t i = 0; i < num; ++i)
+        if (blocks[i].size() != CommonSEGD::EXTENDED_HEADER_SIZE)
+            throw Exception(__FILE__, __LINE__,
+                "unexpected size of header block");
+}
+
 OSEGDRev2_1::Impl::Impl(OSEGDRev2_1& s)
     : chans_written { 0 }
     , sgd { s }
 {
+    CommonSEGD& com = sgd.common();
+    CommonSEGD::GeneralHeader& gh = com.general_header;
+    if (com.general_header2.segd_rev_major > 2)
+        throw Exception(__FILE__, __LINE__,
+            "revision in general header should be less than 3");
+    if (gh.add_gen_hdr_blocks < 1 || gh.add_gen_hdr_blocks > 0xf ||
+        com.add_gen_hdr_blks_map.size() + 1 !=
+        static_cast<size_t>(gh.add_gen_hdr_blocks))
+        throw Exception(__FILE__, __LINE__,
+            "number of additional general headers not equal to number in "
+            "general header");
+    for (auto& item : com.add_gen_hdr_blks_map)
+        if (item.first < CommonSEGD::AdditionalGeneralHeader::GENERAL_HEADER_N)
+            throw Exception(__FILE__, __LINE__,
+                "unexpected type of additional general header");
+    check_blocks(com.extended_headers, gh.extended_hdr_blocks == 165 ?
+        com.general_header2.extended_hdr_blocks : gh.extended_hdr_blocks);
+    check_blocks(com.external_headers, gh.external_hdr_blocks == 165 ?
+        com.general_header2.external_hdr_blocks : gh.external_hdr_blocks);
     sgd.assign_raw_writers();
     sgd.assign_sample_writers();
     sgd.write_general_header1();
-- 
2.43.0


From a8a4ca13ce789ac87f3465e587bef9f2ad3004f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:19 +0000
Subject: [PATCH 40/50] fix: extension header flag of SEG-D channel sets was
 sign extended

---
 src/ISEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ISEGD.cpp b/src/ISEGD.cpp
index abcd41e..c5babdf 100644
--- a/src/ISEGD.cpp
+++ b/src/ISEGD.cpp
@@ -1128,7 +1128,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         second_notch_filter = from_bcd<int>(&buf, false, 4);
         third_notch_filter = from_bcd<int>(&buf, false, 4);
         ext_ch_set_num = read_u16(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         trc_hdr_ext = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
@@ -1154,7 +1154,7 @@ CommonSEGD::ChannelSetHeader ISEGD::Impl::read_ch_set_hdr()
         samp_int = read_u24(&buf);
         array_forming = read_u8(&buf);
         trc_hdr_ext = read_u8(&buf);
-        ext_hdr_flag = *buf >> 4;
+        ext_hdr_flag = static_cast<uint8_t>(*buf) >> 4;
         channel_gain = *buf & 0x0f;
         ++buf;
         vert_stack = read_u8(&buf);
-- 
2.43.0


From 063af32a6db4eea3d08a9bb0ece7e37a1a294041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:04 +0000
Subject: [PATCH 41/50] fix: description of SEG-D orientation header fields was
 read past its table

---
 include/CommonSEGD.hpp | 3 +--
 src/CommonSEGD.cpp     | 1 +
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CommonSEGD.hpp b/include/CommonSEGD.hpp
index b321c89..6966973 100644
--- a/include/CommonSEGD.hpp
+++ b/include/CommonSEGD.hpp
@@ -1364,8 +1364,7 @@ public:
             ORIENT_TYPE,
             REF_ORIENT_VALID,
             ROTATION_APPLIED,
-            ROT_NORTH,
-            APPLIED,
+            ROT_NORTH_APPLIED,
             GEN_HEADER_TYPE
         };
         ///
diff --git a/src/CommonSEGD.cpp b/src/CommonSEGD.cpp
index 1aa7417..7cc44a0 100644
--- a/src/CommonSEGD.cpp
+++ b/src/CommonSEGD.cpp
@@ -768,6 +768,7 @@ static char const* ghOri_names[] = {
     "Time Stamp",
     "Orientation Type",
     "Ref Orient Valid",
+    "Rotation Applied",
     "Rot North Applied",
     "General header type"
 };
-- 
2.43.0


From 7ed70bd131dbe2fca5eef1f149c0db0eca1695ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:08 +0000
Subject: [PATCH 42/50] fix: find the end of EBCDIC extended text headers and
 trailer stanzas

---
 src/ISEGY.cpp | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/ISEGY.cpp b/src/ISEGY.cpp
index 81b18cc..72c5fc4 100644
--- a/src/ISEGY.cpp
+++ b/src/ISEGY.cpp
@@ -326,6 +326,17 @@ void ISEGY::Impl::assign_sample_reader()
     }
 }
 
+// text of a file could be in ascii or in ebcdic
+static bool is_end_stanza(char const* buf)
+{
+    string const end_stanza = "((SEG: EndText))";
+    string text(buf, end_stanza.size());
+    if (text == end_stanza)
+        return true;
+    CommonSEGY::ebcdic_to_ascii(text);
+    return text == end_stanza;
+}
+
 void ISEGY::Impl::read_ext_text_headers()
 {
     int num = common.binary_header.ext_text_headers_num;
@@ -333,13 +344,11 @@ void ISEGY::Impl::read_ext_text_headers()
         return;
     char buf[CommonSEGY::TEXT_HEADER_SIZE];
     if (num == -1) {
-        string end_stanza = "((SEG: EndText))";
         while (1) {
             common.file.read(buf, CommonSEGY::TEXT_HEADER_SIZE);
             common.text_headers.emplace_back(buf,
 											 CommonSEGY::TEXT_HEADER_SIZE);
-            if (!end_stanza.compare(0, end_stanza.size(), buf,
-								   	end_stanza.size()))
+            if (is_end_stanza(buf))
                 return;
         }
     } else {
@@ -369,13 +378,11 @@ void ISEGY::Impl::read_trailer_stanzas()
 							  common.binary_header.num_of_tr_in_file),
 							  ios_base::cur);
             end_of_data = common.file.tellg();
-            string end_stanza = "((SEG: EndText))";
             while (1) {
                 common.file.read(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
                 common.trailer_stanzas
 					.emplace_back(text_buf,	CommonSEGY::TEXT_HEADER_SIZE);
-                if (!end_stanza.compare(0, end_stanza.size(), text_buf,
-									   	end_stanza.size()))
+                if (is_end_stanza(text_buf))
                     return;
             }
         } else {
@@ -388,13 +395,11 @@ void ISEGY::Impl::read_trailer_stanzas()
 								  common.bytes_per_sample, ios_base::cur);
             }
             end_of_data = common.file.tellg();
-            string end_stanza = "((SEG: EndText))";
             while (1) {
                 common.file.read(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
                 common.trailer_stanzas
 					.emplace_back(text_buf, CommonSEGY::TEXT_HEADER_SIZE);
-                if (!end_stanza.compare(0, end_stanza.size(), text_buf,
-									   	end_stanza.size()))
+                if (is_end_stanza(text_buf))
                     return;
             }
         }
-- 
2.43.0


From 9c14e4900ce6837e24c42c686098ff80ac1bc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:52 +0000
Subject: [PATCH 43/50] fix: a refused first trace changed the binary header of
 a SEG-Y file

---
 src/OSEGYRev0.cpp | 3 +++
 src/OSEGYRev1.cpp | 3 +++
 src/OSEGYRev2.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index 8ee00be..bec2864 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -70,6 +70,9 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
                 //throw exception if trace header does not has a samples number
                 Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
                 int64_t samp_num = get<int64_t>(v);
+                if (samp_num < static_cast<int64_t>(tr.samples().size()))
+                    throw Exception(__FILE__, __LINE__,
+                                "trace has more samples than its header says");
                 if (samp_num > INT16_MAX)
                     throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much for "
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 3af28cf..8962559 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -87,6 +87,9 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 				// a samples number
 				Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
 				int64_t samp_num = get<int64_t>(v);
+				if (samp_num < static_cast<int64_t>(tr.samples().size()))
+					throw Exception(__FILE__, __LINE__,
+								"trace has more samples than its header says");
 				if (samp_num > INT16_MAX)
 					throw Exception(__FILE__, __LINE__,
 									"the number of samples is too much "
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 91b53ad..9ddc154 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -150,6 +150,9 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
         // throw exception if trace header does not has a samples number
         Trace::Header::Value v = tr.header().get("SAMP_NUM").value();
         int64_t samp_num = get<int64_t>(v);
+        if (samp_num < static_cast<int64_t>(tr.samples().size()))
+            throw Exception(__FILE__, __LINE__,
+                        "trace has more samples than its header says");
         if (samp_num > INT16_MAX)
             throw Exception(__FILE__, __LINE__,
 							"the number of samples is too much for "
-- 
2.43.0


From 5bebc0866adf445afa300090e81623125d7f811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:09 +0000
Subject: [PATCH 44/50] fix: general header 3 was not written to SEG-D files

---
 src/OSEGD.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index a016da5..4a8d6c6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -343,6 +343,7 @@ void OSEGD::Impl::write_general_header2_and_3()
     *buf++ = common.general_header3.extd_rec_mode;
     *buf++ = common.general_header3.rel_time_mode;
     *++buf = common.general_header3.gen_hdr_block_num;
+    common.file.write(common.gen_hdr_buf, CommonSEGD::GEN_HDR_SIZE);
 }
 
 void OSEGD::Impl::write_rev3_add_gen_hdrs()
-- 
2.43.0


From e58eae73e42a8bd941834c765fccb4a821cb0d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:14 +0000
Subject: [PATCH 45/50] fix: type of SEG-D text blocks was written as its size

---
 src/OSEGD.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 4a8d6c6..ae36c5d 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -470,7 +470,7 @@ void OSEGD::Impl::write_vessel_crew_id(char* buf,
     size = sizeof(hdr->vessel_crew_name);
     memcpy(buf, hdr->vessel_crew_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_survey_area_name(char* buf,
@@ -479,7 +479,7 @@ void OSEGD::Impl::write_survey_area_name(char* buf,
     size_t size = sizeof(hdr->survey_area_name);
     memcpy(buf, hdr->survey_area_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_client_name(char* buf,
@@ -488,7 +488,7 @@ void OSEGD::Impl::write_client_name(char* buf,
     size_t size = sizeof(hdr->client_name);
     memcpy(buf, hdr->client_name, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_job_id(char* buf,
@@ -500,7 +500,7 @@ void OSEGD::Impl::write_job_id(char* buf,
     size = sizeof(hdr->job_id);
     memcpy(buf, hdr->job_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
@@ -511,7 +511,7 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
     size = sizeof(hdr->line_id);
     memcpy(buf, hdr->line_id, size);
     buf += size;
-    *buf = sizeof(hdr->gen_hdr_block_type);
+    *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
-- 
2.43.0


From 5e2b412b8379725b63d689d4b23059785634f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:19 +0000
Subject: [PATCH 46/50] fix: layout of SEG-D revision 3 source blocks

---
 src/OSEGD.cpp | 84 +++++++++++++++++++++++++--------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index ae36c5d..8cd18fc 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -517,12 +517,12 @@ void OSEGD::Impl::write_line_id(char* buf, CommonSEGD::GeneralHeaderLin* hdr)
 void OSEGD::Impl::write_vibrator_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderVib* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -535,22 +535,22 @@ void OSEGD::Impl::write_vibrator_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_explosive_hdr(char* buf,
 									  CommonSEGD::GeneralHeaderExp* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -563,22 +563,22 @@ void OSEGD::Impl::write_explosive_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_airgun_hdr(char* buf,
 								   CommonSEGD::GeneralHeaderAir* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -590,22 +590,22 @@ void OSEGD::Impl::write_airgun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_watergun_hdr(char* buf,
 									 CommonSEGD::GeneralHeaderWat* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -617,22 +617,22 @@ void OSEGD::Impl::write_watergun_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
 										   	CommonSEGD::GeneralHeaderEle* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -644,22 +644,22 @@ void OSEGD::Impl::write_electromagnetic_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
 void OSEGD::Impl::write_other_source_hdr(char* buf,
 										 CommonSEGD::GeneralHeaderOth* hdr)
 {
-    write_u32(&buf, hdr->expanded_file_number);
-    uint32_t integer = hdr->sou_line_num;
+    write_u24(&buf, hdr->expanded_file_number);
+    int32_t integer = floor(hdr->sou_line_num);
     double frac = hdr->sou_line_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
-    integer = hdr->sou_point_num;
+    integer = floor(hdr->sou_point_num);
     frac = hdr->sou_point_num - integer;
     write_i24(&buf, integer);
     write_u16(&buf, frac * pow(2, 16));
@@ -670,10 +670,10 @@ void OSEGD::Impl::write_other_source_hdr(char* buf,
     *buf++ = hdr->reshoot_idx;
     *buf++ = hdr->group_idx;
     *buf++ = hdr->depth_idx;
-    *buf++ = hdr->offset_crossline;
-    *buf++ = hdr->offset_inline;
-    *buf++ = hdr->size;
-    *buf++ = hdr->offset_depth;
+    write_u16(&buf, hdr->offset_crossline);
+    write_u16(&buf, hdr->offset_inline);
+    write_u16(&buf, hdr->size);
+    write_u16(&buf, hdr->offset_depth);
     *buf = hdr->gen_hdr_block_type;
 }
 
-- 
2.43.0


From 4ac4a92cefa144f6f65b1eed6ccf38760083f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:25 +0000
Subject: [PATCH 47/50] fix: number and filters of SEG-D revision 3 channel
 sets

---
 src/OSEGD.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 8cd18fc..5126ff6 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -892,7 +892,7 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ = hdr.array_forming;
     } else {
         to_bcd(&buf, hdr.scan_type_number, false, 2);
-        write_u16(&buf, hdr.channel_set_start_time);
+        write_u16(&buf, hdr.channel_set_number);
         *buf++ = hdr.channel_type;
         write_u32(&buf, hdr.channel_set_start_time);
         write_u32(&buf, hdr.channel_set_end_time);
@@ -908,8 +908,8 @@ void OSEGD::Impl::write_ch_set_hdr(CommonSEGD::ChannelSetHeader& hdr)
         *buf++ = hdr.streamer_no;
         ++buf;
         write_u32(&buf, hdr.alias_filter_freq);
-        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_freq);
+        write_u32(&buf, hdr.alias_filter_slope);
         write_u32(&buf, hdr.low_cut_filter_slope);
         write_u32(&buf, hdr.first_notch_filter);
         write_u32(&buf, hdr.second_notch_filter);
-- 
2.43.0


From e8253dd19bef2b43fe88c92cbc5e5a6b41907093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:31 +0000
Subject: [PATCH 48/50] fix: channel numbers in SEG-D revision 3 trace header
 extensions

---
 src/OSEGD.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 5126ff6..940fe3c 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -1085,9 +1085,9 @@ void OSEGD::Impl::write_ext_trace_headers(Trace::Header const& hdr)
                 *buf++ = tmp ? get<int64_t>(*tmp) : 0;
             }
             if (common.general_header2.segd_rev_major > 2) {
-                tmp = hdr.get("TRACE_NUMBER");
-                if (tmp && get<int64_t>(*tmp) > 9999)
-                    write_u24(&buf, get<int64_t>(*tmp));
+                tmp = hdr.get("CHAN");
+                write_u24(&buf, tmp && get<int64_t>(*tmp) > 9999 ?
+                    get<int64_t>(*tmp) : 0);
                 tmp = hdr.get("SAMP_NUM");
                 write_u32(&buf, tmp ? get<int64_t>(*tmp) : 0);
                 tmp = hdr.get("SENSOR_MOVING");
-- 
2.43.0


From c2ea4dbddfa47317b082ea759c2836df1ab3aa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:37 +0000
Subject: [PATCH 49/50] fix: mark more than 99 skew blocks in SEG-D general
 header

---
 src/OSEGD.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/OSEGD.cpp b/src/OSEGD.cpp
index 940fe3c..8229658 100644
--- a/src/OSEGD.cpp
+++ b/src/OSEGD.cpp
@@ -257,7 +257,9 @@ void OSEGD::Impl::write_general_header1()
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.channel_sets_per_scan_type, false,
 			   2);
-    to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
+    common.general_header.skew_blocks > 99 ?
+	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
+	   	to_bcd(&ptr, common.general_header.skew_blocks, false, 2);
     common.general_header.extended_hdr_blocks > 99 ?
 	   	(void)(*ptr++ = static_cast<uint8_t>(0xff)) :
 	   	to_bcd(&ptr, common.general_header.extended_hdr_blocks, false, 2);
-- 
2.43.0


From 0fb1983cb342c19f61c70b50ecb5e549971ca932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:54 +0000
Subject: [PATCH 50/50] fix: refuse sample intervals below the range of the
 binary header

---
 src/OSEGYRev0.cpp | 3 ++-
 src/OSEGYRev1.cpp | 2 +-
 src/OSEGYRev2.cpp | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/OSEGYRev0.cpp b/src/OSEGYRev0.cpp
index bec2864..008bd55 100644
--- a/src/OSEGYRev0.cpp
+++ b/src/OSEGYRev0.cpp
@@ -85,7 +85,8 @@ OSEGYRev0::Impl::Impl(OSEGYRev0& s, string txt_hdr)
                     samp_int = get<int64_t>(v);
                 else
                     samp_int = get<double>(v);
-                if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+                if (samp_int > INT16_MAX || samp_int < INT16_MIN ||
+                    !static_cast<int16_t>(samp_int))
                     throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
 									"written to rev0");
diff --git a/src/OSEGYRev1.cpp b/src/OSEGYRev1.cpp
index 8962559..019d10d 100644
--- a/src/OSEGYRev1.cpp
+++ b/src/OSEGYRev1.cpp
@@ -102,7 +102,7 @@ OSEGYRev1::Impl::Impl(OSEGYRev1& s, vector<string> txt_hdrs)
 					samp_int = get<int64_t>(v);
 				else
 					samp_int = get<double>(v);
-				if (samp_int > INT16_MAX ||
+				if (samp_int > INT16_MAX || samp_int < INT16_MIN ||
 					!static_cast<int16_t>(samp_int))
 					throw Exception(__FILE__, __LINE__,
 									"the sample interval can not be "
diff --git a/src/OSEGYRev2.cpp b/src/OSEGYRev2.cpp
index 9ddc154..df97502 100644
--- a/src/OSEGYRev2.cpp
+++ b/src/OSEGYRev2.cpp
@@ -165,7 +165,8 @@ void OSEGYRev2::Impl::set_min_hdrs(Trace& tr)
             samp_int = get<int64_t>(v);
         else
             samp_int = get<double>(v);
-        if (samp_int > INT16_MAX || !static_cast<int16_t>(samp_int))
+        if (samp_int > INT16_MAX || samp_int < INT16_MIN ||
+            !static_cast<int16_t>(samp_int))
             throw Exception(__FILE__, __LINE__,
 						   	"the sample interval can not be written to rev0");
         else
-- 
2.43.0

