From d76d63143383fbe132c0182caaa493cfb24bc798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:32 +0000
Subject: [PATCH 01/29] fix: never read past the end of the input

The cursor could reach one past the last byte and was dereferenced there,
and huge lengths wrapped the bounds comparison.
---
 include/Srl/In.hpp | 11 +++++++----
 src/lib/In.cpp     |  2 +-
 src/lib/PJson.cpp  |  2 +-
 src/lib/PSrl.cpp   | 17 +++++++----------
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/Srl/In.hpp b/include/Srl/In.hpp
index 00ae2a7..77a70c4 100644
--- a/include/Srl/In.hpp
+++ b/include/Srl/In.hpp
@@ -48,8 +48,11 @@ namespace Srl { namespace Lib {
         }
         auto steps = 0U;
 
+        this->peek(1, error);
+
         while(Not == this->is_at_token(tokens...)) {
             this->move(1, error);
+            this->peek(1, error);
             steps++;
         }
 
@@ -82,7 +85,7 @@ namespace Srl { namespace Lib {
 
     inline const uint8_t* In::peek(size_t steps, const Error& error)
     {
-        if(this->pos + steps >= this->end) {
+        if(steps > (size_t)(this->end - this->pos)) {
             this->fetch_data(steps, error);
         }
         return this->pos;
@@ -90,7 +93,7 @@ namespace Srl { namespace Lib {
 
     inline bool In::try_peek(size_t steps)
     {
-        return this->pos + steps < this->end || this->try_fetch_data(steps);
+        return steps <= (size_t)(this->end - this->pos) || this->try_fetch_data(steps);
     }
 
     inline MemBlock In::read_block(size_t steps, const Error& error)
@@ -116,14 +119,14 @@ namespace Srl { namespace Lib {
         auto steps = 0U;
         auto bufsz = buf.size();
 
-        while(*this->peek(0, error) != delimiter) {
+        while(*this->peek(1, error) != delimiter) {
 
             if(steps + 1 > bufsz) {
                 bufsz += steps + 10;
                 buf.resize(bufsz);
             }
 
-            auto left = this->try_peek(max) ? max : this->end - this->pos - 1;
+            auto left = this->try_peek(max) ? max : this->end - this->pos;
             steps += this->substitute_token(buf, steps, left, tokens...);
         }
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index ea31829..570aea1 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -18,7 +18,7 @@ void In::set(Source source)
 
     } else {
         this->start = this->pos = source.block.ptr;
-        this->end   = this->start + source.block.size + 1;
+        this->end   = this->start + source.block.size;
     }
 }
 
diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 1824c2c..9e76f13 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -78,7 +78,7 @@ namespace {
     {
         assert(*source.pointer() == '/');
 
-        if(!source.try_peek(1)) {
+        if(!source.try_peek(2)) {
             return;
         }
 
diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 565efa0..541415d 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -88,25 +88,22 @@ namespace {
 
     uint64_t decode_integer(In& source)
     {
-        uint8_t  block       = *source.pointer();
+        uint8_t  block       = source.read_move<uint8_t>(error);
         uint64_t out_integer = mask_reset_msb & block;
 
         auto shift = 7U;
         /* first block w/o msb set is the last 8-bit block of the integer to decode */
         while(mask_msb & block) {
-            source.move(1, error);
-            block = *source.pointer();
+            /* no support for integers > 64 bit */
+            if(shift >= 10 * 7) {
+                error();
+            }
+
+            block = source.read_move<uint8_t>(error);
             out_integer |= (mask_reset_msb & block) << shift;
             shift += 7;
         }
 
-        /* no support for integers > 64 bit */
-        if(shift > 10 * 7) {
-            error();
-        }
-
-        source.move(1, error);
-
         return out_integer;
     }
 }
-- 
2.43.0


From f7e1db614fb804798ffcf0de04b45931d9b7a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:52 +0000
Subject: [PATCH 02/29] fix: keep the anchored block when a stream buffer is
 refilled

try_fetch_data() kept the anchor only when there was none, so a refill in
the middle of an anchored block lost the start of that block.
---
 src/lib/In.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index 570aea1..af41653 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -77,7 +77,7 @@ bool In::try_fetch_data(size_t nbytes, size_t read_len)
     auto bytes_read = (size_t)this->stream->gcount();
 
     this->pos  = &this->buffer[preserve_sz - left];
-    anchor = anchor ? nullptr : &this->buffer[margin];
+    anchor = anchor ? &this->buffer[margin] : nullptr;
 
     this->start = this->buffer.data();
     this->end   = this->buffer.data() + bytes_read + preserve_sz;
-- 
2.43.0


From 9d0bdf14e4598b7b9eed4077cf62f6c4168b425e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:28 +0000
Subject: [PATCH 03/29] fix: copy field names PSrl remembers while writing

The table of written names kept pointers to memory of the caller, which
need not outlive the write of that field.
---
 src/lib/PSrl.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 541415d..1d888f2 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -124,14 +124,16 @@ void PSrl::write_head(Flag flag, const MemBlock& str, Out& out)
 
     auto nstrings = this->hashed_strings.num_entries();
 
-    bool exists; size_t* index;
-    tie(exists, index) = this->hashed_strings.insert(str, nstrings);
+    auto* index = this->hashed_strings.get(str);
 
-    if(exists) {
+    if(index) {
         out.write_byte(flag | FIndexed);
         encode_integer(*index, out);
 
     } else {
+        /* the name outlives this call as a key */
+        this->hashed_strings.insert(Aux::copy(this->string_buffer, str), nstrings);
+
         out.write_byte(flag);
         encode_integer(str.size, out);
         out.write(str);
-- 
2.43.0


From f1a6172e76707a3b414bb304b9365750d63cbc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 04/29] fix: no signed overflow negating the smallest int64 in
 PSrl

---
 src/lib/PSrl.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/PSrl.cpp b/src/lib/PSrl.cpp
index 1d888f2..19d6a66 100644
--- a/src/lib/PSrl.cpp
+++ b/src/lib/PSrl.cpp
@@ -206,7 +206,7 @@ void PSrl::write(const Value& value, const MemBlock& name, Out& out)
     } else if(TpTools::is_integral(type)) {
 
         uint64_t integer = TpTools::is_signed(type) && value.pblock().i64 < 0
-            ? -value.pblock().i64
+            ? 0 - value.pblock().ui64
             : value.pblock().ui64;
 
         encode_integer(integer, out);
@@ -283,7 +283,7 @@ pair<Lib::MemBlock, Value> PSrl::read_num(Flag flag, const MemBlock& name, In& s
     uint64_t integer = decode_integer(source);
 
     return flag & FSigned
-        ? make_pair(name, Value(-(int64_t)integer))
+        ? make_pair(name, Value((int64_t)(0 - integer)))
         : make_pair(name, Value(integer));
 }
 
-- 
2.43.0


From 3ebede0d3a49896f148578e102fab6e5f04a6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 05/29] fix: detect every overflow when converting strings and
 doubles to integers

'30000000000000000000' passed the wrap check of str_to_int, 2^63 was cast to
int64 when printing doubles, and negating the smallest int64 overflowed.
---
 src/lib/ToolsStrConv.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index c554a22..2b27d67 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -58,7 +58,6 @@ namespace {
             idx = 1;
         }
 
-        uint64_t tmp = 0;
         for(char c = '\0'; idx < str_len; idx++) {
             c = str[idx];
 
@@ -66,12 +65,12 @@ namespace {
                 break;
             }
 
-            tmp = val * 10 + c - '0';
-            if(tmp < val) {
+            uint64_t digit = c - '0';
+            if(val > (numeric_limits<uint64_t>::max() - digit) / 10) {
                 /* overflow */
                 break;
             }
-            val = tmp;
+            val = val * 10 + digit;
         }
 
         bool success = idx >= str_len && (!is_signed || val <= numeric_limits<int64_t>::max());
@@ -99,7 +98,7 @@ namespace {
 
         bool negative = TpTools::is_signed(TP) && value.pblock().i64 < 0;
 
-        uint64_t val = negative ? -value.pblock().i64 : value.pblock().ui64;
+        uint64_t val = negative ? 0 - value.pblock().ui64 : value.pblock().ui64;
 
         if(val == 0) {
             if(out.size() < 1) out.resize(1);
@@ -134,7 +133,7 @@ namespace {
     {
         double val = type == Type::FP64 ? value.pblock().fp64 : value.pblock().fp32;
 
-        if(floor(val) == val && val <= (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
+        if(floor(val) == val && val < (double)numeric_limits<int64_t>::max() && val >= numeric_limits<int64_t>::min()) {
 
             return conv_type<Type::I64>((int64_t)val, out);
         }
-- 
2.43.0


From eb3fdcadf9b44385e97a64cc4c4c2f190c44a039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 06/29] fix: escape field names in JSON output

---
 src/lib/PJson.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 9e76f13..d7ce27b 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -107,7 +107,7 @@ void PJson::write(const Value& value, const MemBlock& name, Out& out)
        this->scope_type != Type::Array &&
        type != Type::Scope_End) {
 
-        insert_in_quotes(out, name);
+        insert_in_quotes(out, name, true);
         out.write(':');
 
         if(!this->compact) {
-- 
2.43.0


From d0e8d95f48c479ba670168e18ee8ac0e57524cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 07/29] fix: decode \uXXXX escapes in JSON strings

The digits were taken as little-endian UTF-16 and surrogate pairs rejected.
---
 src/lib/PJson.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index d7ce27b..486fc70 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -14,13 +14,23 @@ namespace {
     };
 
     const In::Substitute uc_literal = [](In& src, vector<uint8_t>& buf, size_t idx) -> size_t {
-        uint8_t hex_buffer[2];
-        /* skip "\u" and read 4 hex digits */
-        auto block = src.read_block(2 + 4, error);
+        uint8_t hex_buffer[4];
+        size_t  len = 0;
 
-        Tools::hex_to_bytes(hex_buffer, 2, block.ptr + 2, 4);
+        do {
+            /* skip "\u" and read 4 hex digits */
+            auto block = src.read_block(2 + 4, error);
 
-        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, 2, Encoding::UTF16), buf, true, idx);
+            Tools::hex_to_bytes(hex_buffer + len, 2, block.ptr + 2, 4);
+            /* digits are big-endian */
+            swap(hex_buffer[len], hex_buffer[len + 1]);
+            len += 2;
+
+            /* a high surrogate is followed by a second "\u" with the low one */
+        } while(len < 4 && (hex_buffer[1] & 0xFC) == 0xD8 && src.try_peek(2) &&
+                src.pointer()[0] == '\\' && src.pointer()[1] == 'u');
+
+        return Tools::conv_charset(Encoding::UTF8, String(hex_buffer, len, Encoding::UTF16), buf, true, idx);
     };
 
     constexpr array<const char, 2> ar(const char c)
-- 
2.43.0


From 126bc98f1dbbdc899ef29ba1aac2171bb6d93ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:19 +0000
Subject: [PATCH 08/29] fix: escape control characters in JSON strings

---
 src/lib/PJson.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/lib/PJson.cpp b/src/lib/PJson.cpp
index 486fc70..bc87967 100644
--- a/src/lib/PJson.cpp
+++ b/src/lib/PJson.cpp
@@ -46,6 +46,32 @@ namespace {
         );
     }
 
+    /* control characters without a short escape sequence */
+    bool needs_uc_literal(uint8_t c)
+    {
+        return c < 0x20 && c != '\n' && c != '\t' && c != '\r' && c != '\b' && c != '\f';
+    }
+
+    void write_text(const MemBlock& str, Out& out)
+    {
+        size_t done = 0;
+
+        for(size_t i = 0; i < str.size; i++) {
+
+            if(needs_uc_literal(str.ptr[i])) {
+                write_escape({ str.ptr + done, i - done }, out);
+
+                auto hex = Tools::bytes_to_hex(str.ptr + i, 1);
+                out.write((const uint8_t*)"\\u00", 4);
+                out.write(hex.data(), hex.size());
+
+                done = i + 1;
+            }
+        }
+
+        write_escape({ str.ptr + done, str.size - done }, out);
+    }
+
     MemBlock read_unescape(In& in, vector<uint8_t>& buffer)
     {
         auto len = in.read_substitue(error, '\"', buffer,
@@ -62,7 +88,7 @@ namespace {
         if(!escape) {
             out.write(txt);
         } else {
-            write_escape(txt, out);
+            write_text(txt, out);
         }
         out.write('\"');
     }
-- 
2.43.0


From 10352f337dfb6de7e5feeb3270b3ac63a243a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 09/29] fix: charset conversion overran its buffer when growing
 it

The retry after E2BIG counted buffer_index twice, so iconv was handed a
position past the converted bytes together with too much space.
---
 src/lib/ToolsStrConv.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index 2b27d67..f65b681 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -378,8 +378,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
             auto current = buffer.size();
             auto new_size = buffer.size() + left_in * 4;
             buffer.resize(new_size);
-            converted = current - left_out;
-            left_out = new_size - converted;
+            converted = current - buffer_index - left_out;
+            left_out = new_size - buffer_index - converted;
         }
     }
 
-- 
2.43.0


From f25df9990b1b132f72a270fa01a88f3cfdf7fa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:41 +0000
Subject: [PATCH 10/29] fix: reject malformed base64 without reading out of
 bounds

Characters above 127 indexed the table with a sign-extended value, a
destination larger than the data read past the string and misplaced fill
characters were decoded as data.
---
 src/lib/ToolsBtsConv.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/ToolsBtsConv.cpp b/src/lib/ToolsBtsConv.cpp
index a500d98..1b4383c 100644
--- a/src/lib/ToolsBtsConv.cpp
+++ b/src/lib/ToolsBtsConv.cpp
@@ -110,16 +110,20 @@ size_t Tools::base64_to_bytes(uint8_t* dest, size_t dest_size, const char* str,
                         " Size of source must be a multiple of 4." );
     }
 
-    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size;
+    for(size_t in_idx = 0, out_idx = 0; out_idx < dest_size && in_idx + 4 <= str_len;
                out_idx += 3, in_idx += 4) {
 
-        uint8_t b0 = table.decode[ (size_t) str[in_idx] ],
-                b1 = table.decode[ (size_t) str[in_idx + 1] ],
-                b2 = table.decode[ (size_t) str[in_idx + 2] ],
-                b3 = table.decode[ (size_t) str[in_idx + 3] ];
+        uint8_t b0 = table.decode[ (uint8_t) str[in_idx] ],
+                b1 = table.decode[ (uint8_t) str[in_idx + 1] ],
+                b2 = table.decode[ (uint8_t) str[in_idx + 2] ],
+                b3 = table.decode[ (uint8_t) str[in_idx + 3] ];
 
         if(b0 == table.val_invalid || b1 == table.val_invalid ||
-           b2 == table.val_invalid || b3 == table.val_invalid) {
+           b2 == table.val_invalid || b3 == table.val_invalid ||
+           /* fill characters are only valid at the end of the last group */
+           b0 == table.val_fill || b1 == table.val_fill ||
+           (b2 == table.val_fill && b3 != table.val_fill) ||
+           (b3 == table.val_fill && in_idx + 4 != str_len)) {
             throw Exception("Unable to convert base64 string to binary data. String malformed.");
         }
         /* [BBBBBB BB]BBBB BBBBBB BBBBBB */
-- 
2.43.0


From 483c665d4b6cd3d4bdabc3b21d48d2711b5b1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 11/29] fix: VecWrap allocated less than it copied for odd
 sizes

---
 include/Srl/BitWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/BitWrap.h b/include/Srl/BitWrap.h
index dc0b176..3257ddb 100644
--- a/include/Srl/BitWrap.h
+++ b/include/Srl/BitWrap.h
@@ -42,7 +42,7 @@ namespace Srl {
                 (uint8_t*)vec->data(), vec->size() * sizeof(T),
                 [this](size_t sz)
                 {
-                    vec->resize(sz / sizeof(T));
+                    vec->resize((sz + sizeof(T) - 1) / sizeof(T));
                     bitwrap.data = { (uint8_t*)vec->data(), sz };
                     return (uint8_t*)vec->data();
                 })
-- 
2.43.0


From bcec9e13147a3baf7104de57f660401121e8b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 12/29] fix: bounds of char16_t / char32_t arrays

The terminator was placed by the unconverted size and unterminated arrays
were scanned up to their size in bytes.
---
 include/Srl/Resolve.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index e515c00..8aeeabd 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -175,7 +175,7 @@ namespace Srl { namespace Lib {
         static WrapArray(const T& str)
         {
             size_t size = 0;
-            while(size < str_size && str[size]) size++;
+            while(size < str_size / chr_size && str[size]) size++;
 
             return MemBlock(reinterpret_cast<const uint8_t*>(str), size * chr_size);
         }
@@ -207,7 +207,7 @@ namespace Srl { namespace Lib {
 
                 Aux::check_size_max(str_size, conv_size, id);
                 memcpy(str, buffer.data(), conv_size);
-                str[value.size() / chr_size] = 0;
+                str[conv_size / chr_size] = 0;
             }
         }
     };
-- 
2.43.0


From 40858f30c7b3b2c562bb5d946d271264429dc1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 13/29] fix: moving an HTable left its entries in the heap of
 the source

---
 include/Srl/Hash.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Srl/Hash.hpp b/include/Srl/Hash.hpp
index a25c667..3265dc6 100644
--- a/include/Srl/Hash.hpp
+++ b/include/Srl/Hash.hpp
@@ -24,6 +24,10 @@ namespace Srl { namespace Lib {
 
         this->table     = m.table;
         this->mem_cache = std::move(m.mem_cache);
+        this->heap      = std::move(m.heap);
+
+        m.table = nullptr;
+        m.mem_cache.clear();
 
         return *this;
     }
-- 
2.43.0


From b77084a2417f7f71cb99f21bdef0dd6a7d3bc992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 14/29] fix: Heap must not be copyable, copies freed the same
 segments twice

---
 include/Srl/Heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/Heap.h b/include/Srl/Heap.h
index ab1f663..31bd2f0 100644
--- a/include/Srl/Heap.h
+++ b/include/Srl/Heap.h
@@ -38,7 +38,7 @@ namespace Srl { namespace Lib {
 
     public:
         Heap() { }
-        Heap(const Heap&) = default;
+        Heap(const Heap&) = delete;
 
         Heap(Heap&& m) { *this = std::forward<Heap>(m); };
         Heap& operator= (Heap&& m);
-- 
2.43.0


From 4d018642b4aac511ba8c8965bfbb30ccea515160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 15/29] fix: keep the old object of a pointer when restoring it
 fails

The pointer was deleted before its replacement was built, so an exception
left the caller with a dangling pointer.
---
 include/Srl/Resolve.hpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/Srl/Resolve.hpp b/include/Srl/Resolve.hpp
index 8aeeabd..9de923d 100644
--- a/include/Srl/Resolve.hpp
+++ b/include/Srl/Resolve.hpp
@@ -455,12 +455,13 @@ namespace Srl { namespace Lib {
             String type_id;
             ctx(Aux::str_type_id, type_id);
 
+            auto uptr = Lib::registrations()->create<U>(type_id);
+            uptr->srl_resolve(ctx);
+
+            /* replace the old object only once the new one is complete */
             if(o != nullptr) {
                 delete o;
             }
-
-            auto uptr = Lib::registrations()->create<U>(type_id);
-            uptr->srl_resolve(ctx);
             o = uptr.release();
         }
     };
@@ -703,20 +704,17 @@ namespace Srl { namespace Lib {
         template<class Item, class ID = String>
         static void Paste(T& p, Item& item, const ID& id = Aux::str_empty)
         {
+            std::unique_ptr<E> uptr;
 
-            if(p != nullptr) {
-                delete p;
+            if(item.type() != Type::Null) {
+                uptr = Ctor<E>::Create_New();
+                Switch<E>::Paste(*uptr.get(), item, id);
             }
 
-            auto val_type = item.type();
-
-            if(val_type == Type::Null) {
-                p = nullptr;
-                return;
+            /* replace the old object only once the new one is complete */
+            if(p != nullptr) {
+                delete p;
             }
-
-            auto uptr = Ctor<E>::Create_New();
-            Switch<E>::Paste(*uptr.get(), item, id);
             p = uptr.release();
         }
     };
-- 
2.43.0


From 9be369b0c58151836acc6db2b5f874f8a5927548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 16/29] fix: Node::get by index dereferenced null when out of
 bounds

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 9051a2f..7e06be9 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -238,7 +238,7 @@ Union Node::get(size_t index)
         return Union(resnode->field);
     }
 
-    auto* resvalue = get_link_at_index<None>(index, this->values);
+    auto* resvalue = get_link_at_index<Throw>(index, this->values);
 
     return Union(resvalue->field);
 }
-- 
2.43.0


From 90142cd773cba1928fac56125b7849da22c6aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:05 +0000
Subject: [PATCH 17/29] fix: Node::to_source dereferenced the missing name of a
 standalone node

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index 7e06be9..f72152c 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -508,7 +508,7 @@ void Node::to_source()
     }
 
     Value scope_end = Value(Type::Scope_End);
-    this->env->write(scope_end, *this->name_ptr);
+    this->env->write(scope_end, this->name());
 }
 
 void Node::consume_scope()
-- 
2.43.0


From 3dbb17ff1793af15a6c930f1a31d00f99e21a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:10 +0000
Subject: [PATCH 18/29] fix: skipping the rest of a scope stopped after its
 first nested scope

---
 src/lib/Node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Node.cpp b/src/lib/Node.cpp
index f72152c..ca870eb 100644
--- a/src/lib/Node.cpp
+++ b/src/lib/Node.cpp
@@ -527,7 +527,7 @@ void Node::consume_scope()
 
         if(tp == Type::Scope_End) {
             depth--;
-            if(depth <= 0) {
+            if(depth < 0) {
                 this->parsed = true;
             }
         }
-- 
2.43.0


From b0e5b1f414d55cfc7a4543c0c10c200752b1b7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 19/29] fix: a failed store left the tree writing to a dead
 parser

An exception out of srl_resolve skipped the reset of Environment::parsing,
so later insertions went to a parser and stream that no longer exist.
---
 include/Srl/Environment.h | 9 +++++++++
 include/Srl/Tree.hpp      | 3 +--
 src/lib/Tree.cpp          | 3 +--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index 5163c0c..a71e148 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -56,6 +56,15 @@ namespace Lib {
 
         Parser*   parser  = nullptr;
         bool      parsing = false;
+
+        /* insertions are written to the parser while one of these exists */
+        struct ParsingScope {
+            ParsingScope(Environment& env_) : env(&env_) { env->parsing = true; }
+            ~ParsingScope() { env->parsing = false; }
+
+            Environment* env;
+        };
+
         Lib::In   in;
         Lib::Out  out;
 
diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index a05fbba..2c226aa 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -56,7 +56,7 @@ namespace Srl {
         }
 
         this->env->set_output(parser, out);
-        this->env->parsing = true;
+        Lib::Environment::ParsingScope scope(*this->env);
 
         this->env->write(Value(Type::Object), "");
 
@@ -64,7 +64,6 @@ namespace Srl {
 
         this->env->write(Value(Type::Scope_End), "");
 
-        this->env->parsing = false;
         this->env->out.flush();
     }
 
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index 680928c..f80bc4f 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -55,7 +55,7 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
         this->create_env();
     }
     this->env->set_output(parser, source);
-    this->env->parsing = true;
+    Environment::ParsingScope scope(*this->env);
 
     auto& name = this->root_node->name();
     this->env->write(Value(type), name);
@@ -64,7 +64,6 @@ void Tree::to_source(Type type, Parser& parser, Lib::Out::Source source, const f
 
     this->env->write(Value(Type::Scope_End), name);
 
-    this->env->parsing = false;
     this->env->out.flush();
 }
 
-- 
2.43.0


From c814eb5b7ecf900960ecdff8771b82c0d3acc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 20/29] fix: nodes kept reading from the parser and source of a
 finished restore

The root stayed marked as unparsed after restore / unpack, a later access
went to a parser and an input which may be gone.
---
 include/Srl/Tree.hpp |  6 +-----
 src/lib/Tree.cpp     | 11 ++++++++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/Srl/Tree.hpp b/include/Srl/Tree.hpp
index 2c226aa..66c53ab 100644
--- a/include/Srl/Tree.hpp
+++ b/include/Srl/Tree.hpp
@@ -70,11 +70,7 @@ namespace Srl {
     template<class TParser, class... Items>
     void Tree::unpack(Lib::In::Source in, TParser&& parser, Items&... items)
     {
-        this->prologue_in(parser, in);
-
-        this->root_node->parsed = false;
-
-        this->root_node->paste(items...);
+        this->read_source(parser, in, [&] { this->root_node->paste(items...); });
     }
 
     template<class TParser>
diff --git a/src/lib/Tree.cpp b/src/lib/Tree.cpp
index f80bc4f..69c8412 100644
--- a/src/lib/Tree.cpp
+++ b/src/lib/Tree.cpp
@@ -78,7 +78,16 @@ void Tree::read_source(Parser& parser, In::Source source, const function<void()>
     prologue_in(parser, source);
     this->root_node->parsed = false;
 
-    restore_switch();
+    try {
+        restore_switch();
+
+    } catch(...) {
+        this->root_node->parsed = true;
+        throw;
+    }
+
+    /* the parser and the source aren't available beyond this call */
+    this->root_node->parsed = true;
 }
 
 Node& Tree::root()
-- 
2.43.0


From 1c179ae20791d1e7fe9d1eb1abc99fe3feb6e7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 21/29] fix: PMsgPack took reserved and container prefixes for
 numbers

---
 src/lib/PMsgPack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index c4ba12e..dfff263 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -240,7 +240,7 @@ namespace {
     {
         return (prefix >= 0xCA && prefix <= 0xD3) || // integers / floats
                 prefix <= 0x7F || prefix >= 0xE0  || // pos fixnum / neg fixnum
-                prefix == 0xC2 || prefix <= 0xC3  || // true / false
+                prefix == 0xC2 || prefix == 0xC3  || // true / false
                 prefix == 0xC0;                      // null
     }
 
-- 
2.43.0


From afb4852c8c2f8d840da77c52c9883eb884375829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 22/29] fix: lengths of MessagePack strings and binaries are
 big-endian

---
 src/lib/PMsgPack.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index dfff263..52fa1ed 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -137,12 +137,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xC5);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xC6);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -164,12 +164,12 @@ namespace {
         } else if (block.size <= 0xFFFE) {
             uint16_t sz = block.size;
             out.write_byte(0xDA);
-            out.write(sz);
+            out.write(swap_bytes(sz));
 
         } else {
             uint32_t sz = block.size;
             out.write_byte(0xDB);
-            out.write(sz);
+            out.write(swap_bytes(sz));
         }
 
         out.write(block.ptr, block.size);
@@ -284,8 +284,8 @@ namespace {
 
         return prefix >= 0xA0 && prefix <= 0xBF ? (prefix & 0x1F)
              : prefix == 0xD9 ? in.read_move<uint8_t>(error)
-             : prefix == 0xDA ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xDA ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     size_t get_bin_size(uint8_t prefix, In& in)
@@ -293,8 +293,8 @@ namespace {
         assert(prefix_is_bin(prefix));
 
         return prefix == 0xC4 ? in.read_move<uint8_t>(error)
-             : prefix == 0xC5 ? in.read_move<uint16_t>(error)
-             : in.read_move<uint32_t>(error);
+             : prefix == 0xC5 ? swap_bytes(in.read_move<uint16_t>(error))
+             : swap_bytes(in.read_move<uint32_t>(error));
     }
 
     Value read_str(uint8_t prefix, In& in)
-- 
2.43.0


From 50fef5dabd71e92e5aab17033acdf9fa24fd4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:33 +0000
Subject: [PATCH 23/29] fix: skip MessagePack keys other than strings as a
 whole

Only their first byte was skipped, the rest was taken for the value.
---
 src/lib/PMsgPack.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/lib/PMsgPack.cpp b/src/lib/PMsgPack.cpp
index 52fa1ed..8f0e93b 100644
--- a/src/lib/PMsgPack.cpp
+++ b/src/lib/PMsgPack.cpp
@@ -434,7 +434,20 @@ pair<MemBlock, Value> PMsgPack::read(In& source)
 
 
     if(this->scope && this->scope->type == Type::Object) {
-        name = prefix_is_str(prefix) ? read_name(prefix, this->buffer, source) : name;
+        if(prefix_is_str(prefix)) {
+            name = read_name(prefix, this->buffer, source);
+
+        } else if(prefix_is_scalar(prefix)) {
+            /* no names for keys of other types, but skip all of their bytes */
+            read_scalar(prefix, source);
+
+        } else if(prefix_is_bin(prefix)) {
+            read_bin(prefix, source);
+
+        } else {
+            error();
+        }
+
         prefix = source.read_move<uint8_t>(error);
 
     }
-- 
2.43.0


From 7df9b2aafe7db2b0294f33124cde118bca8ea421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 24/29] fix: container sizes were patched at the wrong position
 of a stream

Positions were taken relative to the start of the stream instead of the
position the output started at, and a failed seek went unnoticed.
---
 include/Srl/Out.h   | 1 +
 include/Srl/Out.hpp | 7 ++++++-
 src/lib/Out.cpp     | 4 ++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/Srl/Out.h b/include/Srl/Out.h
index ba9ac30..5f00078 100644
--- a/include/Srl/Out.h
+++ b/include/Srl/Out.h
@@ -67,6 +67,7 @@ namespace Srl { namespace Lib {
             size_t segs_flushed = 0;
             uint8_t* crr_mem   = nullptr;
             uint8_t* mem_start = nullptr;
+            std::streamoff stream_start = 0;
         } state;
 
         bool streaming;
diff --git a/include/Srl/Out.hpp b/include/Srl/Out.hpp
index f653d2c..e394d83 100644
--- a/include/Srl/Out.hpp
+++ b/include/Srl/Out.hpp
@@ -3,6 +3,7 @@
 
 #include "Out.h"
 #include "Aux.h"
+#include "Exception.h"
 
 namespace Srl { namespace Lib {
 
@@ -49,7 +50,11 @@ namespace Srl { namespace Lib {
         } else {
             auto crr = this->stream->tellp();
 
-            this->stream->seekp(ticket.pos + offset);
+            if(this->state.stream_start < 0) {
+                throw Exception("Unable to write to stream. Stream is not seekable.");
+            }
+
+            this->stream->seekp(this->state.stream_start + (std::streamoff)(ticket.pos + offset));
             this->stream->write((const char*)bytes, nbytes);
 
             this->stream->seekp(crr);
diff --git a/src/lib/Out.cpp b/src/lib/Out.cpp
index 39ae254..3dda777 100644
--- a/src/lib/Out.cpp
+++ b/src/lib/Out.cpp
@@ -13,6 +13,10 @@ void Out::set(Source source)
     this->streaming = source.is_stream;
     this->stream = source.is_stream ? source.stream : nullptr;
     this->buffer = !source.is_stream ? source.buffer : nullptr;
+
+    if(source.is_stream) {
+        this->state.stream_start = source.stream->tellp();
+    }
 }
 
 void Out::inc_cap(size_t nbytes)
-- 
2.43.0


From 35b5155ee86a243538962ad7125f0e284d8e9e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 25/29] fix: reject doubles just above the range of 64 bit
 integers

---
 include/Srl/TpTools.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/Srl/TpTools.h b/include/Srl/TpTools.h
index 32d973e..3631dc0 100644
--- a/include/Srl/TpTools.h
+++ b/include/Srl/TpTools.h
@@ -143,6 +143,16 @@ namespace Srl { namespace TpTools {
             return true;
         }
 
+        template<class T>
+        typename std::enable_if<std::is_floating_point<T>::value, bool>::type
+        fits_integral(double) { return true; }
+
+        /* the maximum of 64 bit types isn't representable and rounded up to a power of two,
+         * not-a-number doesn't fit at all */
+        template<class T>
+        typename std::enable_if<!std::is_floating_point<T>::value, bool>::type
+        fits_integral(double val) { return val < 2.0 * (double)(max<T>() / 2 + 1); }
+
         template<class T, Type TP>
         typename std::enable_if<is_fp(TP), bool>::type
         try_apply(T& target, const Value& value)
@@ -150,7 +160,7 @@ namespace Srl { namespace TpTools {
             double val = TP == Type::FP32 ? value.pblock().fp32 : value.pblock().fp64;
 
             if(SrlType<T>::type != TP && SrlType<T>::type != Type::FP64 &&
-              (val < min<T>() || val > (double)max<T>())) {
+              (val < min<T>() || val > (double)max<T>() || !fits_integral<T>(val))) {
 
                 return false;
             }
-- 
2.43.0


From 9bc198677b882984ed36ed8f388b5d5df4d8d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:24 +0000
Subject: [PATCH 26/29] fix: charset converters are closed when the output
 buffer cannot grow

---
 src/lib/ToolsStrConv.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib/ToolsStrConv.cpp b/src/lib/ToolsStrConv.cpp
index f65b681..8d51cb0 100644
--- a/src/lib/ToolsStrConv.cpp
+++ b/src/lib/ToolsStrConv.cpp
@@ -295,6 +295,17 @@ namespace {
 
         return rslt;
     }
+
+    /* closes the descriptor on every way out, a failed allocation included */
+    struct Converter {
+        explicit Converter(iconv_t desc_) : desc(desc_) { }
+        ~Converter() { iconv_close(this->desc); }
+
+        Converter(const Converter&) = delete;
+        Converter& operator= (const Converter&) = delete;
+
+        iconv_t desc;
+    };
 }
 
 size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
@@ -335,6 +346,8 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         return 0;
     }
 
+    const Converter converter(desc);
+
     size_t left_in = str_wrap.size();
     size_t reserve = left_in * (
         target_encoding < src_encoding ? 1 : src_encoding == Encoding::UTF16 ? 2 : 4
@@ -358,7 +371,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EINVAL) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Incomplete byte sequence.");
             }
@@ -366,7 +378,6 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
 
         if(errno == EILSEQ) {
-            iconv_close(desc);
             if(throw_error) {
                 throw Exception("Unable to convert charset. Invalid byte sequence.");
             }
@@ -383,7 +394,5 @@ size_t Tools::conv_charset(Encoding target_encoding, const String& str_wrap,
         }
     }
 
-    iconv_close(desc);
-
     return buffer.size() - buffer_index - left_out;
 }
-- 
2.43.0


From 77411e7ac6196b30200d95061b37e226df0dc8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:58 +0000
Subject: [PATCH 27/29] fix: lengths found in a document do not decide how much
 is allocated

---
 include/Srl/In.h |  1 +
 src/lib/In.cpp   | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/Srl/In.h b/include/Srl/In.h
index d591434..ef7c215 100644
--- a/include/Srl/In.h
+++ b/include/Srl/In.h
@@ -111,6 +111,7 @@ namespace Srl { namespace Lib {
         size_t move_until (const Error& error, const Tokens&... tokens);
 
         bool try_fetch_data(size_t nbytes, size_t read_len = 1024);
+        bool fetch_step(size_t nbytes, size_t read_len);
         void fetch_data(size_t nbytes, const Error& error);
     };
 
diff --git a/src/lib/In.cpp b/src/lib/In.cpp
index af41653..d8fe065 100644
--- a/src/lib/In.cpp
+++ b/src/lib/In.cpp
@@ -30,6 +30,25 @@ void In::fetch_data(size_t nbytes, const Error& error)
 }
 
 bool In::try_fetch_data(size_t nbytes, size_t read_len)
+{
+    /* lengths are found in documents: before making room for a long block of data, see most of it */
+    const size_t max_step = 1024 * 1024;
+
+    while(true) {
+        size_t left = this->end - this->pos;
+        size_t step = left < max_step ? max_step : left;
+
+        if(nbytes <= left || nbytes - left <= step) {
+            return this->fetch_step(nbytes, read_len);
+        }
+
+        if(!this->fetch_step(left + step, read_len)) {
+            return false;
+        }
+    }
+}
+
+bool In::fetch_step(size_t nbytes, size_t read_len)
 {
     /*           (   <--------->   ) -> this needs to be preserved
      * [.........*.............*...] -> buffer
-- 
2.43.0


From 090339aaf8b70dc009a1c35259628e6a8f8117ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 28/29] fix: a tree can store objects with shared pointers more
 than once

---
 include/Srl/Environment.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/Srl/Environment.h b/include/Srl/Environment.h
index a71e148..8edf363 100644
--- a/include/Srl/Environment.h
+++ b/include/Srl/Environment.h
@@ -57,12 +57,23 @@ namespace Lib {
         Parser*   parser  = nullptr;
         bool      parsing = false;
 
-        /* insertions are written to the parser while one of these exists */
+        /* insertions are written to the parser while one of these exists, the shared objects
+         * of that document are its own */
         struct ParsingScope {
-            ParsingScope(Environment& env_) : env(&env_) { env->parsing = true; }
-            ~ParsingScope() { env->parsing = false; }
+            ParsingScope(Environment& env_) : env(&env_)
+            {
+                std::swap(this->shared, env->shared_table_store);
+                env->parsing = true;
+            }
+
+            ~ParsingScope()
+            {
+                std::swap(this->shared, env->shared_table_store);
+                env->parsing = false;
+            }
 
             Environment* env;
+            HTable<const void*, size_t> shared { 16 };
         };
 
         Lib::In   in;
-- 
2.43.0


From 7524b106bb30e2c1ea9be14d0aa042047e52f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:13 +0000
Subject: [PATCH 29/29] fix: a ScopeWrap keeps the function it is made from

---
 include/Srl/ScopeWrap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Srl/ScopeWrap.h b/include/Srl/ScopeWrap.h
index a6b6f6f..e91642d 100644
--- a/include/Srl/ScopeWrap.h
+++ b/include/Srl/ScopeWrap.h
@@ -23,7 +23,7 @@ namespace Srl {
 
     private:
         const Type scope_type;
-        const std::function<void(Node&)>& fn_insert;
+        const std::function<void(Node&)> fn_insert;
 
     };
 }
-- 
2.43.0

