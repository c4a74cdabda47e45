From 7306d506a90c81dc7fb765e5f4656fc8d477f83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 01/23] fix: base_16 decode of odd length input

The pair loop started at one instead of zero after the leading lone nibble,
so the last pair was neither checked nor written.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..50f385e 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = char(from_ptr[0]);
                 auto c_1 = char(from_ptr[1]);
-- 
2.43.0


From a1028e05649360dc754c442696cf2bc45b4c75e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 02/23] fix: base_16 decode returns count of written bytes on
 error

It returned the count of consumed chars, so a dynamic container was resized
past the bytes that were really decoded.
---
 src/milo/primitive/detail/codec/base_16.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 50f385e..b50a874 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (c_0 == b_0 || c_1 == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return last_size + i;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 9188ba66c16b7865c58285dc790aa36e42befb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 03/23] fix: base_16 and base_64 decode reject bytes above 0x7f

A signed char never compares equal to its uint8_t copy when its top bit is
set, so such input passed for a valid digit.
---
 src/milo/primitive/detail/codec/base_16.h |  4 ++--
 src/milo/primitive/detail/codec/base_64.h | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index b50a874..5ab61cd 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -131,7 +131,7 @@ namespace milo::primitive::detail
                 auto b_0 = decode(c_0);
                 
                 [[unlikely]]
-                if (c_0 == b_0)
+                if (uint8_t(c_0) == b_0)
                 {
                     a_error = error::codec_base_16_decode;
                     return 0;
@@ -151,7 +151,7 @@ namespace milo::primitive::detail
                 auto b_1 = decode(c_1);
                 
                 [[unlikely]]
-                if (c_0 == b_0 || c_1 == b_1)
+                if (uint8_t(c_0) == b_0 || uint8_t(c_1) == b_1)
                 {
                     a_error = error::codec_base_16_decode;
                     return last_size + i;
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..7ee8007 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -188,10 +188,10 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
-                    c_2 == b_2 ||
-                    c_3 == b_3)
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
+                    uint8_t(c_2) == b_2 ||
+                    uint8_t(c_3) == b_3)
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
@@ -220,11 +220,11 @@ namespace milo::primitive::detail
                 
                 [[unlikely]]
                 if (
-                    c_0 == b_0 ||
-                    c_1 == b_1 ||
+                    uint8_t(c_0) == b_0 ||
+                    uint8_t(c_1) == b_1 ||
                     (p_0 && !p_1) ||
-                    (c_2 == b_2 && !p_0) ||
-                    (c_3 == b_3 && !p_1))
+                    (uint8_t(c_2) == b_2 && !p_0) ||
+                    (uint8_t(c_3) == b_3 && !p_1))
                 {
                     a_error = error::codec_base_64_decode;
                     return to_ptr - a_to_ptr;
-- 
2.43.0


From e9ba7b4c5ceac28e1c916d2b9ed59c52543d075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/23] fix: aead decrypt without error argument is not
 noexcept

The condition was inverted, so a digest mismatch terminated the process
instead of throwing the error.
---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..f49a758 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1159,7 +1159,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) != 0
     )
     ) -> size_t
     requires
@@ -1252,7 +1252,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) != 0 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 24e3cf086e2d9a64647d8e33dcb05ac30c4ee001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 05/23] fix: aead digest without encrypt or decrypt call pads
 aad

The digest of aad only input, taken without an empty encrypt call, was not
the one of RFC 8439.
---
 src/milo/primitive/aead/apie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index f49a758..cfc1e16 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -149,6 +149,8 @@ namespace milo::primitive::aead
                 return;
             }
             
+            do_finalize_aad();
+            
             m_impl.finalize();
             m_finalized = true;
         }
-- 
2.43.0


From 4ad50556c04b48e818c015d0b3a3a4a334bcacd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 06/23] fix: aead encrypt into caller provided output compiles

The class template argument deduction of the lvalues yielded tuple of
references, which does not convert to the declared return type.
---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index cfc1e16..566eaa6 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -937,7 +937,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return {
             ciphertext_size,
             digest_size
         };
@@ -1017,7 +1017,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return {
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From d2caf1856923e798109f7b75ae0fb1119b6cc5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 07/23] fix: cipher encrypt and decrypt over pointers compile

The context had no constructor for the pointer form they call.
---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From 1bc4b92127ac641b5f98cb5d553411d340f9b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 08/23] fix: library links from more than one translation unit

The cpuid wrapper and two of the literals were defined in headers without
inline.
---
 src/milo/internal/arch/x86_64.h | 1 +
 src/milo/literal.h              | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a84eed5 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,6 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
+    inline
     auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..153e89f 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,6 +11,7 @@
 
 namespace milo::literal
 {
+    inline
     auto
     operator "" _b(
         const char* a_ptr,
@@ -23,6 +24,7 @@ namespace milo::literal
         };
     }
     
+    inline
     auto
     operator "" _bv(
         const char* a_ptr,
-- 
2.43.0


From e307f87c7833075cc721a692dfcd9fa6506fe322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 09/23] fix: application without arguments reports the missing
 command

The dump of an empty argument list popped a character of an empty string.
---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From 199d7354495d6aec8d697617db50a01abf7821ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 10/23] fix: kdf benchmarks with an empty key

The guard value was read from an empty, not allocated, key.
---
 app/include/milo/app/command/benchmark.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 3e7118e..e561f35 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -476,12 +476,10 @@ namespace milo::app::command::benchmark
             a_info_ptr,
             a_info_size
         );
-        a_impl.derive(
+        return a_impl.derive(
             a_key_ptr,
             a_key_size
         );
-        
-        return a_key_ptr[0];
     }
     
     template<
@@ -537,12 +535,10 @@ namespace milo::app::command::benchmark
             a_salt_size,
             a_iterations
         );
-        a_impl.derive(
+        return a_impl.derive(
             a_key_ptr,
             a_key_size
         );
-        
-        return a_key_ptr[0];
     }
     
     template<
-- 
2.43.0


From 1cb88a2941f58c28d6023eef8163303f7ff40254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 11/23] fix: application parameter is found by its whole name

Any parameter whose name began with the wanted one was taken for it.
---
 app/include/milo/app/app.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index dc9870c..e0bb580 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -214,7 +214,9 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        auto name = it->substr(2);
+                        
+                        if (name.substr(0, name.find('=')) == a_name)
                         {
                             break;
                         }
-- 
2.43.0


From 043b4e41ea293241dd6e446bf91b0f549568205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 12/23] fix: application parameter value is converted as a
 whole

Trailing characters that are not a part of the number were ignored.
---
 app/include/milo/app/app.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index e0bb580..42d1cc0 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -279,7 +279,7 @@ namespace milo::app
                             value
                         );
                         
-                        if (result.ec != decltype(result.ec)())
+                        if (result.ec != decltype(result.ec)() || result.ptr != value_end)
                         {
                             throw std::logic_error(
                                 std::string("Error. Value conversion failure for --") +
-- 
2.43.0


From 17e9cd87ada66ef640af50726d0041ca74f5a1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 13/23] fix: benchmark cycles metrics do not overflow

The product of clock speed and duration overflowed for measurements longer
than a few seconds.
---
 app/include/milo/app/command/benchmark.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index e561f35..6f39a83 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -232,9 +232,10 @@ namespace milo::app::command::benchmark
             
             if (processed != 0 && cpu_clock != 0)
             {
-                auto billion = 1000 * 1000 * 1000;
-                auto cpu_cycles_per_call = double(cpu_clock * nanoseconds) / double(billion * repeats_time);
-                auto cpu_cycles_per_byte = double(cpu_clock * nanoseconds) / double(billion * processed);
+                auto billion = double(1000 * 1000 * 1000);
+                auto cpu_cycles = double(cpu_clock) * double(nanoseconds) / billion;
+                auto cpu_cycles_per_call = cpu_cycles / double(repeats_time);
+                auto cpu_cycles_per_byte = cpu_cycles / double(processed);
                 
                 result["metrics"]["cpu"] = {
                     {"cycles_per_call", cpu_cycles_per_call},
-- 
2.43.0


From a4c3bb5e8516bf736189672b9ac9f581d97e4bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 14/23] fix: benchmark pattern is matched as a whole

The start of the pattern was not anchored, and a star was extended only up
to the first occurrence of what follows it, which need not be the last.
---
 app/include/milo/app/pattern.h | 82 ++++++++++++----------------------
 1 file changed, 29 insertions(+), 53 deletions(-)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..5e9dad7 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -24,70 +24,46 @@ namespace milo::app
         requires meta::same<t_message, std::string, std::string_view>;
     }
     {
-        if (a_pattern == "*")
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && a_message.empty())
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && !a_message.empty())
-        {
-            return false;
-        }
+        auto pattern_size = a_pattern.size();
+        auto message_size = a_message.size();
         
-        size_t message_pos = 0;
         size_t pattern_pos = 0;
+        size_t message_pos = 0;
+        
+        /*
+         * Position after the last star and position of the message it is matched up to.
+         */
+        auto pattern_pos_star = t_pattern::npos;
+        auto message_pos_star = t_message::npos;
         
-        while (true)
+        while (message_pos < message_size)
         {
-            auto pattern_pos_beg = a_pattern.find_first_not_of(
-                '*',
-                pattern_pos
-            );
-            
-            if (pattern_pos_beg == t_pattern::npos)
+            if (pattern_pos < pattern_size && a_pattern[pattern_pos] == '*')
             {
-                if (pattern_pos < a_pattern.size())
-                {
-                    return a_pattern.ends_with('*');
-                }
-                else
-                {
-                    return a_message.size() == message_pos;
-                }
+                pattern_pos += 1;
+                pattern_pos_star = pattern_pos;
+                message_pos_star = message_pos;
             }
-            
-            auto pattern_pos_end = a_pattern.find_first_of(
-                '*',
-                pattern_pos_beg
-            );
-            
-            if (pattern_pos_end == t_pattern::npos)
+            else if (pattern_pos < pattern_size && a_pattern[pattern_pos] == a_message[message_pos])
             {
-                pattern_pos_end = a_pattern.size();
+                pattern_pos += 1;
+                message_pos += 1;
             }
-            
-            auto pattern = a_pattern.data() + pattern_pos_beg;
-            auto pattern_size = pattern_pos_end - pattern_pos_beg;
-            
-            pattern_pos = pattern_pos_beg;
-            message_pos = a_message.find(
-                pattern,
-                message_pos,
-                pattern_size
-            );
-            
-            if (message_pos == t_message::npos)
+            else if (pattern_pos_star != t_pattern::npos)
+            {
+                message_pos_star += 1;
+                pattern_pos = pattern_pos_star;
+                message_pos = message_pos_star;
+            }
+            else
             {
                 return false;
             }
-            
-            pattern_pos += pattern_size;
-            message_pos += pattern_size;
         }
+        
+        return a_pattern.find_first_not_of(
+            '*',
+            pattern_pos
+        ) == t_pattern::npos;
     }
 }
-- 
2.43.0


From fa5c5c1090d175309b2c5b0696a494bf2cf5151f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 15/23] fix: application output is valid json for any argument

Quotes, backslashes and control characters of strings were not escaped.
---
 app/include/milo/app/type.h | 50 ++++++++++++++++++++++++++++++++++---
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 6ed3931..0f69cbe 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -313,7 +313,9 @@ namespace milo::app::type
             
             return false;
         }
-
+    
+    public:
+        
         auto
         string(
         ) const -> std::string
@@ -817,6 +819,35 @@ namespace milo::app::type
         throw std::logic_error("Attempt to call [] operator on non index-able type.");
     }
     
+    auto
+    to_json(
+        std::stringstream& a_stream,
+        const std::string& a_string
+    ) -> void
+    {
+        constexpr auto hex = "0123456789abcdef";
+        
+        a_stream << '\"';
+        
+        for (auto c: a_string)
+        {
+            if (c == '\"' || c == '\\')
+            {
+                a_stream << '\\' << c;
+            }
+            else if (uint8_t(c) < 0x20)
+            {
+                a_stream << "\\u00" << hex[uint8_t(c) >> 4] << hex[uint8_t(c) & 0b1111];
+            }
+            else
+            {
+                a_stream << c;
+            }
+        }
+        
+        a_stream << '\"';
+    }
+    
     auto
     to_json(
         std::stringstream& a_stream,
@@ -849,7 +880,12 @@ namespace milo::app::type
                 throw std::logic_error("Attempt to use json-serializable type as key.");
             }
             
-            a_stream << '\"' << key << "\":";
+            to_json(
+                a_stream,
+                key.string()
+            );
+            
+            a_stream << ':';
             
             if (item.is<object>())
             {
@@ -867,7 +903,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.string()
+                );
             }
             else
             {
@@ -914,7 +953,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json(
+                    a_stream,
+                    item.string()
+                );
             }
             else
             {
-- 
2.43.0


From f4a3db73f49ed0bdf98062e0082d0ba6232207c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 16/23] fix: avx backends require support of the operating
 system

The cpu reports avx and avx 2 even if the system has not enabled ymm
registers, in which case the instructions fault.
---
 src/milo/internal/arch/x86_64.h         | 48 +++++++++++++++++++++++--
 src/milo/internal/arch/x86_64/cpuid.asm | 17 +++++++++
 2 files changed, 63 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index a84eed5..12be41f 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -29,6 +29,13 @@ namespace milo::internal
         uint32_t a_ecx
     ) noexcept(true) -> void;
     
+    extern "C"
+    auto
+    milo_internal_arch_x86_64_xgetbv(
+        uint32_t* a_info_ptr,
+        uint32_t a_ecx
+    ) noexcept(true) -> void;
+    
     #endif
     
     /*
@@ -63,6 +70,28 @@ namespace milo::internal
         #endif
     }
     
+    inline
+    auto
+    arch_x86_64_xgetbv(
+        uint32_t* a_info_ptr,
+        uint32_t a_ecx
+    ) noexcept(true) -> void
+    {
+        #if MILO_INTERNAL_ASM && MILO_INTERNAL_ARCH_X86_64
+        
+        milo_internal_arch_x86_64_xgetbv(
+            a_info_ptr,
+            a_ecx
+        );
+        
+        #else
+        
+        a_info_ptr[0] = 0;
+        a_info_ptr[1] = 0;
+        
+        #endif
+    }
+    
     inline
     const
     class arch_x86_64_info_basic
@@ -80,6 +109,8 @@ namespace milo::internal
     private:
         
         registers m_features[2]{};
+        
+        bool m_ymm = false;
     
     public:
         
@@ -114,6 +145,19 @@ namespace milo::internal
                 
                 m_features[1] = {info[0], info[1], info[2], info[3]};
             }
+            
+            /*
+             * The system has to enable ymm registers, otherwise avx instructions fault.
+             */
+            if (m_features[0].ecx & (1 << 27))
+            {
+                arch_x86_64_xgetbv(
+                    info,
+                    0
+                );
+                
+                m_ymm = (info[0] & 0b110) == 0b110;
+            }
         }
         
         arch_x86_64_info_basic(arch_x86_64_info_basic&& a_object) noexcept(true) = default;
@@ -175,14 +219,14 @@ namespace milo::internal
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28);
+            return m_ymm && (m_features[0].ecx & (1 << 28));
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5);
+            return m_ymm && (m_features[1].ebx & (1 << 5));
         }
         
         auto
diff --git a/src/milo/internal/arch/x86_64/cpuid.asm b/src/milo/internal/arch/x86_64/cpuid.asm
index d82a319..6e168a8 100644
--- a/src/milo/internal/arch/x86_64/cpuid.asm
+++ b/src/milo/internal/arch/x86_64/cpuid.asm
@@ -5,6 +5,7 @@ bits 64
 %include "abi.asm"
 
 global milo_internal_arch_x86_64_cpuid
+global milo_internal_arch_x86_64_xgetbv
 
 ; BEG arch_x86_64_cpuid
 
@@ -27,3 +28,19 @@ milo_internal_arch_x86_64_cpuid:
     ret
 
 ; BEG arch_x86_64_cpuid
+
+; BEG arch_x86_64_xgetbv
+
+section .text
+milo_internal_arch_x86_64_xgetbv:
+; Args:
+;   0 -> ptr to array of 2 double-words
+;   1 -> register
+    mov     r9,     abi_arg_0
+    mov     rcx,    abi_arg_1
+    xgetbv
+    mov     [r9 + 0],   eax
+    mov     [r9 + 4],   edx
+    ret
+
+; END arch_x86_64_xgetbv
-- 
2.43.0


From 02bbbbce9ea8f5625482f3ef005643f334dce49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:56 +0000
Subject: [PATCH 17/23] fix: cipher objects made in constant expressions
 continue at run time

---
 src/milo/internal/update.h                    | 22 +++++++++++++------
 .../primitive/detail/cipher/chacha/chacha.h   | 16 ++++++++------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/milo/internal/update.h b/src/milo/internal/update.h
index 1211b32..b488004 100644
--- a/src/milo/internal/update.h
+++ b/src/milo/internal/update.h
@@ -106,6 +106,7 @@ namespace milo::internal
     update_block_prod_xor(
         t_buf* a_buf_ptr,
         size_t a_buf_size,
+        size_t a_buf_left,
         t_dst* a_dst_ptr,
         const t_src* a_src_ptr,
         size_t a_src_size,
@@ -117,24 +118,29 @@ namespace milo::internal
         
         auto block_size = impl_type::template invoke<0>();
         
-        if (a_buf_size > 0)
+        /*
+         * Bytes left over are kept at the end of the buffer, so that their place does
+         * not depend on the implementation, which is another one when an object made
+         * in a constant expression is used at run time.
+         */
+        
+        if (a_buf_left > 0)
         {
-            auto left_size = block_size - a_buf_size;
             auto todo_size = min(
-                left_size,
+                a_buf_left,
                 a_src_size
             );
             
             memory_xor(
                 a_dst_ptr,
                 a_src_ptr,
-                a_buf_ptr + a_buf_size,
+                a_buf_ptr + a_buf_size - a_buf_left,
                 todo_size
             );
             
-            if (todo_size < left_size)
+            if (todo_size < a_buf_left)
             {
-                return a_buf_size + todo_size;
+                return a_buf_left - todo_size;
             }
             
             a_dst_ptr += todo_size;
@@ -168,6 +174,8 @@ namespace milo::internal
         
         if (last_size)
         {
+            a_buf_ptr += a_buf_size - block_size;
+            
             auto done_blks = impl_type::template invoke<2>(
                 1,
                 forward<
@@ -190,6 +198,6 @@ namespace milo::internal
             );
         }
         
-        return last_size;
+        return last_size ? block_size - last_size : 0;
     }
 }
diff --git a/src/milo/primitive/detail/cipher/chacha/chacha.h b/src/milo/primitive/detail/cipher/chacha/chacha.h
index 7039ed6..c2b0cff 100644
--- a/src/milo/primitive/detail/cipher/chacha/chacha.h
+++ b/src/milo/primitive/detail/cipher/chacha/chacha.h
@@ -66,7 +66,7 @@ namespace milo::primitive::detail
         
         uint8_t m_buffer[block_size * 8]{};
         
-        size_t m_buffer_size = 0;
+        size_t m_buffer_left = 0;
     
     public:
         
@@ -80,7 +80,7 @@ namespace milo::primitive::detail
         {
             internal::memory_erase(m_state);
             internal::memory_erase(m_buffer);
-            internal::memory_erase(m_buffer_size);
+            internal::memory_erase(m_buffer_left);
         }
     
     public:
@@ -123,7 +123,7 @@ namespace milo::primitive::detail
                 a_iv_size
             );
             
-            m_buffer_size = 0;
+            m_buffer_left = 0;
         }
         
         template<
@@ -137,11 +137,12 @@ namespace milo::primitive::detail
             t_ciphertext* a_ciphertext_ptr
         ) noexcept(true) -> size_t
         {
-            m_buffer_size = internal::update_block_prod_xor<
+            m_buffer_left = internal::update_block_prod_xor<
                 impl_type
             >(
                 m_buffer,
-                m_buffer_size,
+                sizeof(m_buffer),
+                m_buffer_left,
                 a_ciphertext_ptr,
                 a_plaintext_ptr,
                 a_plaintext_size,
@@ -181,11 +182,12 @@ namespace milo::primitive::detail
             t_plaintext* a_plaintext_ptr
         ) noexcept(true) -> size_t
         {
-            m_buffer_size = internal::update_block_prod_xor<
+            m_buffer_left = internal::update_block_prod_xor<
                 impl_type
             >(
                 m_buffer,
-                m_buffer_size,
+                sizeof(m_buffer),
+                m_buffer_left,
                 a_plaintext_ptr,
                 a_ciphertext_ptr,
                 a_ciphertext_size,
-- 
2.43.0


From 7b34704aad4501d24134c8379c7600ca7219f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:05 +0000
Subject: [PATCH 18/23] fix: containers and pointers of signed char are
 accepted at run time

---
 src/milo/meta.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 4613eca..9deae10 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -232,7 +232,8 @@ namespace milo::meta
     using type_map_char_ptr_to_unsigned_char_ptr = type_map<
         t_arg,
         unsigned char*,
-        char*
+        char*,
+        signed char*
     >;
     
     template<
@@ -241,7 +242,8 @@ namespace milo::meta
     using type_map_const_char_ptr_to_const_unsigned_char_ptr = type_map<
         t_arg,
         const unsigned char*,
-        const char*
+        const char*,
+        const signed char*
     >;
     
     template<typename t_0>
-- 
2.43.0


From a4095c2e44be2a62cddeec9232ec0b49eb232499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:50 +0000
Subject: [PATCH 19/23] fix: benchmark report stays valid json when no time has
 passed

---
 app/include/milo/app/command/benchmark.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 6f39a83..0acbca8 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -219,7 +219,7 @@ namespace milo::app::command::benchmark
                 {"nanoseconds_per_call", duration_nanoseconds_per_call}
             };
             
-            if (processed != 0)
+            if (processed != 0 && nanoseconds != 0)
             {
                 auto throughput_gigabytes_per_second = double(processed) / double(nanoseconds);
                 auto throughput_megabytes_per_second = double(processed * 1000) / double(nanoseconds);
-- 
2.43.0


From eeeacbb16e48bb8341b942b52bcbe33a6677494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:20 +0000
Subject: [PATCH 20/23] fix: backends are chosen before first use during static
 initialization

---
 src/milo/internal/arch/x86_64.h | 84 ++++++++++-----------------------
 src/milo/internal/impl.h        | 18 ++++---
 2 files changed, 38 insertions(+), 64 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 12be41f..f415d1a 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -92,8 +92,6 @@ namespace milo::internal
         #endif
     }
     
-    inline
-    const
     class arch_x86_64_info_basic
     {
     private:
@@ -242,54 +240,24 @@ namespace milo::internal
         {
             return m_features[1].ebx & (1 << 29);
         }
-    } arch_x86_64_info;
+    };
     
-    struct arch_x86_64_ise
+    /*
+     * Initialized by the first call, which may precede the initialization of objects
+     * with static storage duration.
+     */
+    inline
+    auto
+    arch_x86_64_info(
+    ) noexcept(true) -> const arch_x86_64_info_basic&
     {
-        inline
-        static
-        const bool sse_1 = arch_x86_64_info.sse_1();
-        
-        inline
-        static
-        const bool sse_2 = arch_x86_64_info.sse_2();
-        
-        inline
-        static
-        const bool sse_3 = arch_x86_64_info.sse_3();
-        
-        inline
-        static
-        const bool ssse_3 = arch_x86_64_info.ssse_3();
-        
-        inline
-        static
-        const bool sse_4_1 = arch_x86_64_info.sse_4_1();
-        
-        inline
-        static
-        const bool sse_4_2 = arch_x86_64_info.sse_4_2();
-        
-        inline
-        static
-        const bool sse_4 = arch_x86_64_info.sse_4_1() && arch_x86_64_info.sse_4_2();
-        
-        inline
-        static
-        const bool avx_1 = arch_x86_64_info.avx_1();
-        
-        inline
-        static
-        const bool avx_2 = arch_x86_64_info.avx_2();
-        
-        inline
-        static
-        const bool sha_1 = arch_x86_64_info.sha_1();
-        
-        inline
-        static
-        const bool sha_2 = arch_x86_64_info.sha_2();
+        static const arch_x86_64_info_basic info;
         
+        return info;
+    }
+    
+    struct arch_x86_64_ise
+    {
         template<
             typename t_impl
         >
@@ -312,7 +280,7 @@ namespace milo::internal
                         typename impl_type::sse_1;
                     })
                     {
-                        if (!sse_1)
+                        if (!arch_x86_64_info().sse_1())
                         {
                             return false;
                         }
@@ -322,7 +290,7 @@ namespace milo::internal
                         typename impl_type::sse_2;
                     })
                     {
-                        if (!sse_2)
+                        if (!arch_x86_64_info().sse_2())
                         {
                             return false;
                         }
@@ -332,7 +300,7 @@ namespace milo::internal
                         typename impl_type::sse_3;
                     })
                     {
-                        if (!sse_3)
+                        if (!arch_x86_64_info().sse_3())
                         {
                             return false;
                         }
@@ -342,7 +310,7 @@ namespace milo::internal
                         typename impl_type::ssse_3;
                     })
                     {
-                        if (!ssse_3)
+                        if (!arch_x86_64_info().ssse_3())
                         {
                             return false;
                         }
@@ -352,7 +320,7 @@ namespace milo::internal
                         typename impl_type::sse_4_1;
                     })
                     {
-                        if (!sse_4_1)
+                        if (!arch_x86_64_info().sse_4_1())
                         {
                             return false;
                         }
@@ -362,7 +330,7 @@ namespace milo::internal
                         typename impl_type::sse_4_2;
                     })
                     {
-                        if (!sse_4_2)
+                        if (!arch_x86_64_info().sse_4_2())
                         {
                             return false;
                         }
@@ -372,7 +340,7 @@ namespace milo::internal
                         typename impl_type::sse_4;
                     })
                     {
-                        if (!sse_4)
+                        if (!arch_x86_64_info().sse_4_1() || !arch_x86_64_info().sse_4_2())
                         {
                             return false;
                         }
@@ -382,7 +350,7 @@ namespace milo::internal
                         typename impl_type::avx_1;
                     })
                     {
-                        if (!avx_1)
+                        if (!arch_x86_64_info().avx_1())
                         {
                             return false;
                         }
@@ -392,7 +360,7 @@ namespace milo::internal
                         typename impl_type::avx_2;
                     })
                     {
-                        if (!avx_2)
+                        if (!arch_x86_64_info().avx_2())
                         {
                             return false;
                         }
@@ -402,7 +370,7 @@ namespace milo::internal
                         typename impl_type::sha_1;
                     })
                     {
-                        if (!sha_1)
+                        if (!arch_x86_64_info().sha_1())
                         {
                             return false;
                         }
@@ -412,7 +380,7 @@ namespace milo::internal
                         typename impl_type::sha_2;
                     })
                     {
-                        if (!sha_2)
+                        if (!arch_x86_64_info().sha_2())
                         {
                             return false;
                         }
diff --git a/src/milo/internal/impl.h b/src/milo/internal/impl.h
index f9d3b7b..bec8361 100644
--- a/src/milo/internal/impl.h
+++ b/src/milo/internal/impl.h
@@ -155,12 +155,18 @@ namespace milo::internal
     }
     struct impl_runtime_reader
     {
-        inline
         static
-        const auto impl = impl_choose_hook<
-            t_chooser,
-            t_impls...
-        >();
+        auto
+        impl(
+        ) noexcept(true)
+        {
+            static const auto hook = impl_choose_hook<
+                t_chooser,
+                t_impls...
+            >();
+            
+            return hook;
+        }
     };
     
     template<
@@ -260,7 +266,7 @@ namespace milo::internal
                     return invoker::template hook<
                         t_id
                     >(
-                        runtime_selected::impl,
+                        runtime_selected::impl(),
                         forward<
                             t_args
                         >(
-- 
2.43.0


From e8d9afdd3e1da4c1884eff8c29728857118fa164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:21 +0000
Subject: [PATCH 21/23] fix: digest size options larger than the digest are
 rejected

---
 src/milo/primitive/detail/hash/sha/sha_1_160.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_256.h | 2 ++
 src/milo/primitive/detail/hash/sha/sha_2_512.h | 2 ++
 src/milo/primitive/detail/mac/hmac/hmac.h      | 2 ++
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/milo/primitive/detail/hash/sha/sha_1_160.h b/src/milo/primitive/detail/hash/sha/sha_1_160.h
index 5e110e6..bb3966c 100644
--- a/src/milo/primitive/detail/hash/sha/sha_1_160.h
+++ b/src/milo/primitive/detail/hash/sha/sha_1_160.h
@@ -61,6 +61,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_256.h b/src/milo/primitive/detail/hash/sha/sha_2_256.h
index da23024..2d7f1ca 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_256.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_256.h
@@ -61,6 +61,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/hash/sha/sha_2_512.h b/src/milo/primitive/detail/hash/sha/sha_2_512.h
index 5111b34..4cebb11 100644
--- a/src/milo/primitive/detail/hash/sha/sha_2_512.h
+++ b/src/milo/primitive/detail/hash/sha/sha_2_512.h
@@ -59,6 +59,8 @@ namespace milo::primitive::detail
                 bits / 8,
                 t_options...
             >;
+        
+        static_assert(digest_size <= bits / 8);
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/hmac/hmac.h b/src/milo/primitive/detail/mac/hmac/hmac.h
index e4b78ed..d217aaa 100644
--- a/src/milo/primitive/detail/mac/hmac/hmac.h
+++ b/src/milo/primitive/detail/mac/hmac/hmac.h
@@ -40,6 +40,8 @@ namespace milo::primitive::detail
                 hash_type::digest_size,
                 t_options...
             >;
+        
+        static_assert(digest_size <= hash_type::digest_size);
     
     private:
         
diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..dcc2912 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -54,6 +54,8 @@ namespace milo::primitive::detail
                 16,
                 t_options...
             >;
+        
+        static_assert(digest_size <= 16);
     
     private:
         
-- 
2.43.0


From ae94c6f52e8949147df5755508d82508f956012c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 22/23] fix: codegen makes literals of any text

---
 tool/codegen/src/cpp/lang.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/tool/codegen/src/cpp/lang.py b/tool/codegen/src/cpp/lang.py
index eb73286..871b9f2 100644
--- a/tool/codegen/src/cpp/lang.py
+++ b/tool/codegen/src/cpp/lang.py
@@ -168,13 +168,26 @@ def gen_str(
         wrap: int = 64,
         end: str = ''
 ) -> tuple:
-    chunks = [
-        f'"{a_str[i: i + wrap]}"'
-        for i in range(0, len(a_str), wrap)
+    a_bytes = a_str.encode()
+
+    parts = [
+        a_bytes[i: i + wrap]
+        for i in range(0, len(a_bytes), wrap)
     ]
 
+    chunks = []
+    for chunk in parts:
+        s = '"'
+        for byte in chunk:
+            if byte < 0x20 or byte > 0x7e or byte in b'"\\':
+                s += f'\\{byte:03o}'
+            else:
+                s += chr(byte)
+        s += '"'
+        chunks.append(s)
+
     if len(chunks) == 0:
-        chunks.append(end)
+        chunks.append('""' + end)
     else:
         chunks[len(chunks) - 1] += end
 
-- 
2.43.0


From bb530181d7a43bf8fb32fceb6cb7770f7cb2c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:22 +0000
Subject: [PATCH 23/23] fix: codegen refuses a vector whose id says success

---
 tool/codegen/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/codegen/main.py b/tool/codegen/main.py
index 1bac860..d857f2e 100644
--- a/tool/codegen/main.py
+++ b/tool/codegen/main.py
@@ -72,6 +72,11 @@ def main(
     payload: dict
     payload = config['payload']
 
+    # A test returns the id of the vector which fails, and zero if there is none.
+    for test in payload['vectors']:
+        for test_vector in test['data']:
+            assert test_vector['id'] != 0
+
     code: str
     code = callbacks[scheme](
         payload
-- 
2.43.0

