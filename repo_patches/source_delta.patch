From 85e9a9cd80526d63ee086d4966631df4ce57242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 1/4] fix: bound code-length runs in the DEFLATE header

Repeat codes 16, 17 and 18 were expanded without checking the run against
the number of code lengths the block announced, so a corrupt stream could
write up to 137 bytes past the 320-byte lens array on the stack. Reject
such a stream, as zlib does.
---
 src/raw_inflate.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_inflate.hpp b/src/raw_inflate.hpp
index dd0435c..ada06dd 100644
--- a/src/raw_inflate.hpp
+++ b/src/raw_inflate.hpp
@@ -211,17 +211,20 @@ inline size_t inflate_raw(const uint8_t* src, size_t src_len, uint8_t* dst,
             if (rep == UINT32_MAX) return 0;
             rep += 3;
             if (i == 0) return 0;
+            if (rep > n - i) return 0;  // run exceeds the announced lengths
             uint8_t v = lens[i - 1];
             while (rep--) lens[i++] = v;
           } else if (sym == 17) {
             uint32_t rep = br.get(3);
             if (rep == UINT32_MAX) return 0;
             rep += 3;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else if (sym == 18) {
             uint32_t rep = br.get(7);
             if (rep == UINT32_MAX) return 0;
             rep += 11;
+            if (rep > n - i) return 0;
             while (rep--) lens[i++] = 0;
           } else
             return 0;
-- 
2.43.0


From 7479a678377459ead7bf6186deb87fe6b4f4125c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:17 +0000
Subject: [PATCH 2/4] sim: guarded poll seam in the table wait loop
 (ADA_IDNA_SIM, off by default)

---
 src/table_store.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/table_store.hpp b/src/table_store.hpp
index f9584bb..31f6e74 100644
--- a/src/table_store.hpp
+++ b/src/table_store.hpp
@@ -248,6 +248,13 @@ inline std::atomic<uint8_t> tables_init_state{kTablesUninit};
 // that owns this buffer while other code may still call into ada::idna.
 inline uint8_t* tables_buffer = nullptr;
 
+#if defined(ADA_IDNA_SIM)
+// Deterministic-simulation seam, never defined in shipped builds: called once
+// per poll of the wait loop below, it returns how many further polls' worth of
+// simulated time has passed meanwhile.
+extern "C" uint64_t ada_idna_sim_poll() noexcept;
+#endif
+
 // Cap spin-wait so a stuck peer cannot hang the process forever.
 inline constexpr uint64_t kTablesSpinLimit = 1'000'000'000ull;
 
@@ -349,6 +356,9 @@ inline constexpr uint64_t kTablesSpinLimit = 1'000'000'000ull;
 
   // Another thread owns init (or finished between our loads).
   for (uint64_t spins = 0; spins < kTablesSpinLimit; ++spins) {
+#if defined(ADA_IDNA_SIM)
+    spins += ada_idna_sim_poll();
+#endif
     state = tables_init_state.load(std::memory_order_acquire);
     if (state == kTablesReady) {
       return true;
-- 
2.43.0


From d4483c7f5c474ff9be4b33392af89f538003b0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 3/4] fix: append when decoding punycode into a non-empty
 string

punycode_to_utf32 reserves out.size() + input.size() and appends the ASCII
part, but inserted the remaining code points (and looked for a double-encoded
prefix) relative to the start of out, so decoding into a string that already
held text mixed the two.
---
 src/punycode.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/punycode.cpp b/src/punycode.cpp
index 60e6e25..13372e4 100644
--- a/src/punycode.cpp
+++ b/src/punycode.cpp
@@ -1,5 +1,6 @@
 #include "ada/idna/punycode.h"
 
+#include <cstddef>
 #include <cstdint>
 
 namespace ada::idna {
@@ -39,7 +40,9 @@ static constexpr int32_t adapt(int32_t d, int32_t n, bool firsttime) {
 
 bool punycode_to_utf32(std::string_view input, std::u32string &out) {
   int32_t written_out{0};
-  out.reserve(out.size() + input.size());
+  // The decoded text is appended: insert positions are relative to it.
+  const size_t start = out.size();
+  out.reserve(start + input.size());
   uint32_t n = initial_n;
   int32_t i = 0;
   int32_t bias = initial_bias;
@@ -90,14 +93,14 @@ bool punycode_to_utf32(std::string_view input, std::u32string &out) {
     if (n < 0x80) {
       return false;
     }
-    out.insert(out.begin() + i, n);
+    out.insert(out.begin() + std::ptrdiff_t(start) + i, n);
     written_out++;
     ++i;
   }
   // See https://github.com/whatwg/url/issues/803
   // Reject labels whose decoded form begins with "xn--" (double-encoded ACE).
-  if (out.size() >= 4 && out[0] == U'x' && out[1] == U'n' && out[2] == U'-' &&
-      out[3] == U'-') {
+  if (out.size() - start >= 4 && out[start] == U'x' && out[start + 1] == U'n' &&
+      out[start + 2] == U'-' && out[start + 3] == U'-') {
     return false;
   }
   return true;
-- 
2.43.0


From abbd10947990fe3be7675a1aed7a20760692ee57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:21 +0000
Subject: [PATCH 4/4] fix: to_unicode waits at most once for tables that never
 come

With the expanding thread lost, every ACE label of a domain waited out the
whole limit again: a domain of k ACE labels returned only after k waits.
Find out once per call whether the tables are available.
---
 src/to_unicode.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/to_unicode.cpp b/src/to_unicode.cpp
index 89d36e6..9484bdb 100644
--- a/src/to_unicode.cpp
+++ b/src/to_unicode.cpp
@@ -10,6 +10,7 @@
 #include "ada/idna/unicode_transcoding.h"
 #include "ada/idna/validity.h"
 #include "idna.h"
+#include "table_store.hpp"
 
 #ifdef ADA_USE_SIMDUTF
 #include "simdutf.h"
@@ -27,6 +28,9 @@ namespace ada::idna {
   size_t label_start = 0;
   std::u32string tmp_buffer;
   std::u32string post_map;
+  // Finding the tables unavailable can take a (bounded) wait for another thread
+  // that never finishes: find it out once, not again for every label.
+  bool tables_available = true;
   while (label_start < input.size()) {
     size_t loc_dot = input.find('.', label_start);
     bool is_last_label = (loc_dot == std::string_view::npos);
@@ -42,7 +46,8 @@ namespace ada::idna {
         // that are pure ASCII (xn-- encoding of an ASCII-only label), or whose
         // mapping/normalization is not stable, or that fail label validity.
         bool accept_decoded = true;
-        if (ada::idna::is_ascii(tmp_buffer)) {
+        if (!tables_available || ada::idna::is_ascii(tmp_buffer) ||
+            !(tables_available = ensure_tables())) {
           accept_decoded = false;
         } else {
           post_map.clear();
-- 
2.43.0

