From 6da256507e278fd0372de2fef149e0c4c85eaf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 01/30] fix: reject characters above 0x7f in base 16 and base
 64 decoders

The alphabet test compared a signed char with an unsigned byte, which is
never equal for characters above 0x7f, so those were decoded as data.
---
 src/milo/primitive/detail/codec/base_16.h | 12 ++++-----
 src/milo/primitive/detail/codec/base_64.h | 32 +++++++++++------------
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 24f16ce..352b3f9 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -127,8 +127,8 @@ namespace milo::primitive::detail
             
             if (last_size)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto b_0 = decode(c_0);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto b_0 = decode(char(c_0));
                 
                 [[unlikely]]
                 if (c_0 == b_0)
@@ -145,10 +145,10 @@ namespace milo::primitive::detail
             
             for (size_t i = last_size; i < full_size; i += 1)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
-                auto b_0 = decode(c_0);
-                auto b_1 = decode(c_1);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
+                auto b_0 = decode(char(c_0));
+                auto b_1 = decode(char(c_1));
                 
                 [[unlikely]]
                 if (c_0 == b_0 || c_1 == b_1)
diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 93d3446..6acb381 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -177,14 +177,14 @@ namespace milo::primitive::detail
             
             for (size_t i = 1; i < full_size; i += 1)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
-                auto c_2 = char(from_ptr[2]);
-                auto c_3 = char(from_ptr[3]);
-                auto b_0 = decode(c_0);
-                auto b_1 = decode(c_1);
-                auto b_2 = decode(c_2);
-                auto b_3 = decode(c_3);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
+                auto c_2 = uint8_t(from_ptr[2]);
+                auto c_3 = uint8_t(from_ptr[3]);
+                auto b_0 = decode(char(c_0));
+                auto b_1 = decode(char(c_1));
+                auto b_2 = decode(char(c_2));
+                auto b_3 = decode(char(c_3));
                 
                 [[unlikely]]
                 if (
@@ -207,14 +207,14 @@ namespace milo::primitive::detail
             
             if (full_size > 0)
             {
-                auto c_0 = char(from_ptr[0]);
-                auto c_1 = char(from_ptr[1]);
-                auto c_2 = char(from_ptr[2]);
-                auto c_3 = char(from_ptr[3]);
-                auto b_0 = decode(c_0);
-                auto b_1 = decode(c_1);
-                auto b_2 = decode(c_2);
-                auto b_3 = decode(c_3);
+                auto c_0 = uint8_t(from_ptr[0]);
+                auto c_1 = uint8_t(from_ptr[1]);
+                auto c_2 = uint8_t(from_ptr[2]);
+                auto c_3 = uint8_t(from_ptr[3]);
+                auto b_0 = decode(char(c_0));
+                auto b_1 = decode(char(c_1));
+                auto b_2 = decode(char(c_2));
+                auto b_3 = decode(char(c_3));
                 auto p_0 = c_2 == '=';
                 auto p_1 = c_3 == '=';
                 
-- 
2.43.0


From a5bc699611b1d9dbc20277334e284148fe904b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:50 +0000
Subject: [PATCH 02/30] fix: decode every pair of an odd sized base 16 input

The loop over whole pairs started at one when the input had a leading
single digit, so the last pair was dropped and a gap was left behind the
leading digit. Also report the count of decoded bytes on failure, as
base 64 does, rather than the count of consumed characters.
---
 src/milo/primitive/detail/codec/base_16.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/detail/codec/base_16.h b/src/milo/primitive/detail/codec/base_16.h
index 352b3f9..e204b3a 100644
--- a/src/milo/primitive/detail/codec/base_16.h
+++ b/src/milo/primitive/detail/codec/base_16.h
@@ -143,7 +143,7 @@ namespace milo::primitive::detail
                 from_ptr += 1;
             }
             
-            for (size_t i = last_size; i < full_size; i += 1)
+            for (size_t i = 0; i < full_size; i += 1)
             {
                 auto c_0 = uint8_t(from_ptr[0]);
                 auto c_1 = uint8_t(from_ptr[1]);
@@ -154,7 +154,7 @@ namespace milo::primitive::detail
                 if (c_0 == b_0 || c_1 == b_1)
                 {
                     a_error = error::codec_base_16_decode;
-                    return from_ptr - a_from_ptr;
+                    return last_size + i;
                 }
                 
                 to_ptr[i] = t_to(b_0 << 4 | b_1);
-- 
2.43.0


From 00cc245334c9869f49b74b94c2db120ebd59942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 03/30] fix: let one-shot aead decryption throw when no error
 object is given

The noexcept conditions were inverted, so a failed verification without
an error object called std::terminate instead of throwing.
---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index d92a702..f49a758 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -1159,7 +1159,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0
+        sizeof...(t_error) != 0
     )
     ) -> size_t
     requires
@@ -1252,7 +1252,7 @@ namespace milo::primitive::aead
         t_error& ...a_error
     ) noexcept(
     (
-        sizeof...(t_error) == 0 &&
+        sizeof...(t_error) != 0 &&
         meta::container_static<t_plaintext>
     )
     ) -> size_t
-- 
2.43.0


From 05df2292958678f3980211eb42284cb9b81af0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 04/30] fix: pad additional data in aead exactly once, whatever
 the call sequence

The additional data was only padded by an explicit aadover call, so the
documented sequence without one, and a digest taken without an encrypt
or decrypt call, gave a tag other than the one of RFC 8439.
---
 .../detail/aead/chacha/chacha_20_poly_1305.h     | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
index 630103f..6b637c8 100644
--- a/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
+++ b/src/milo/primitive/detail/aead/chacha/chacha_20_poly_1305.h
@@ -50,6 +50,8 @@ namespace milo::primitive::detail
         uint64_t m_aad_processed_size;
         
         uint64_t m_edd_processed_size;
+        
+        bool m_aad_padded;
     
     public:
         
@@ -119,6 +121,7 @@ namespace milo::primitive::detail
             
             m_aad_processed_size = 0;
             m_edd_processed_size = 0;
+            m_aad_padded = false;
         }
         
         template<
@@ -142,6 +145,13 @@ namespace milo::primitive::detail
         aadover(
         ) noexcept(true) -> void
         {
+            if (m_aad_padded)
+            {
+                return;
+            }
+            
+            m_aad_padded = true;
+            
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
@@ -162,6 +172,8 @@ namespace milo::primitive::detail
             t_ciphertext* a_ciphertext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             auto ciphertext_size = m_cipher.encrypt(
                 a_plaintext_ptr,
                 a_plaintext_size,
@@ -203,6 +215,8 @@ namespace milo::primitive::detail
             t_plaintext* a_plaintext_ptr
         ) noexcept(true) -> size_t
         {
+            aadover();
+            
             m_mac.update(
                 a_ciphertext_ptr,
                 a_ciphertext_size
@@ -237,6 +251,8 @@ namespace milo::primitive::detail
         finalize(
         ) noexcept(true) -> void
         {
+            aadover();
+            
             constexpr size_t buffer_zero_size = 16;
             constexpr uint8_t buffer_zero[buffer_zero_size]{};
             
-- 
2.43.0


From 6c59fae03d7ab85cb20c311f1a005e73c7168d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 05/30] fix: give cipher::apie the pointer constructor its
 one-shot functions use

cipher::encrypt and cipher::decrypt over pointers did not compile.
---
 src/milo/primitive/cipher/apie.h | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/milo/primitive/cipher/apie.h b/src/milo/primitive/cipher/apie.h
index 77a4dbd..8d7986a 100644
--- a/src/milo/primitive/cipher/apie.h
+++ b/src/milo/primitive/cipher/apie.h
@@ -57,6 +57,42 @@ namespace milo::primitive::cipher
     
     public:
         
+        /**
+         * Constructs the object.
+         *
+         * @tparam t_key
+         * Key type.
+         * @tparam t_iv
+         * Iv type.
+         * @param a_key_ptr
+         * Key pointer.
+         * @param a_key_size
+         * Key size.
+         * @param a_iv_ptr
+         * Iv pointer.
+         * @param a_iv_size
+         * Iv size.
+         */
+        template<
+            meta::byte t_key,
+            meta::byte t_iv
+        >
+        constexpr
+        apie(
+            const t_key* a_key_ptr,
+            size_t a_key_size,
+            const t_iv* a_iv_ptr,
+            size_t a_iv_size
+        ) noexcept(true)
+        {
+            initialize(
+                a_key_ptr,
+                a_key_size,
+                a_iv_ptr,
+                a_iv_size
+            );
+        }
+        
         /**
          * Constructs the object.
          *
-- 
2.43.0


From 9e95dcd8cba0f61ddf496b6440f942268e8ace3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 06/30] fix: define functions in headers as inline

Including the headers in two translation units of one program failed to
link because of multiple definitions.
---
 src/milo/internal/arch/x86_64.h | 2 +-
 src/milo/literal.h              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 1122314..a363264 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -37,7 +37,7 @@ namespace milo::internal
     
     #if MILO_INTERNAL_ARCH_X86_64
     
-    auto
+    inline auto
     arch_x86_64_cpuid(
         uint32_t* a_info_ptr,
         uint32_t a_eax,
diff --git a/src/milo/literal.h b/src/milo/literal.h
index 71d4b71..3a237b8 100644
--- a/src/milo/literal.h
+++ b/src/milo/literal.h
@@ -11,7 +11,7 @@
 
 namespace milo::literal
 {
-    auto
+    inline auto
     operator "" _b(
         const char* a_ptr,
         size_t a_size
@@ -23,7 +23,7 @@ namespace milo::literal
         };
     }
     
-    auto
+    inline auto
     operator "" _bv(
         const char* a_ptr,
         size_t a_size
-- 
2.43.0


From fa7dcf76a96e729095735b9941bdbf2952ff0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 07/30] fix: make option solvers class templates so that clang
 can compile them

Clang 18 rejects the alias templates with a requires expression in their
arguments when they are passed as template template arguments.
---
 src/milo/internal/option.h | 70 +++++++++++++++++++++-----------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/milo/internal/option.h b/src/milo/internal/option.h
index 17dfc1c..e21c87a 100644
--- a/src/milo/internal/option.h
+++ b/src/milo/internal/option.h
@@ -138,25 +138,28 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_ofvalue_is_v<t_option>;
-                    requires meta::same<
-                        meta::del_constant<
-                            decltype(t_option::value)
-                        >,
-                        t_type
-                    >;
-                    requires meta::same<
-                        t_option,
-                        option<t_option::value>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_ofvalue_is_v<t_option>;
+                        requires meta::same<
+                            meta::del_constant<
+                                decltype(t_option::value)
+                            >,
+                            t_type
+                        >;
+                        requires meta::same<
+                            t_option,
+                            option<t_option::value>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
@@ -224,19 +227,22 @@ namespace milo::internal
         template<
             typename t_option
         >
-        using solver = meta::asbool<
-            (
-                requires
-                {
-                    requires option_oftype_is_v<t_option>;
-                    requires meta::same<
-                        t_option,
-                        option<typename t_option::type>
-                    >;
-                }
-            ),
-            t_option
-        >;
+        struct solver
+            : meta::asbool<
+                (
+                    requires
+                    {
+                        requires option_oftype_is_v<t_option>;
+                        requires meta::same<
+                            t_option,
+                            option<typename t_option::type>
+                        >;
+                    }
+                ),
+                t_option
+            >
+        {
+        };
         
         template<
             typename... t_options
-- 
2.43.0


From 2bb85646885d60fb04cd3b04cd597a14f9447631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 08/30] fix: anchor benchmark pattern expressions at both ends
 and backtrack

The first part of an expression matched anywhere, so mac-* selected
kdf-hkdf-hmac-*, and the last part was only tried at its first
occurrence, so a*b did not match abb.
---
 app/include/milo/app/pattern.h | 79 +++++++++++-----------------------
 1 file changed, 26 insertions(+), 53 deletions(-)

diff --git a/app/include/milo/app/pattern.h b/app/include/milo/app/pattern.h
index fac4d9e..92bf562 100644
--- a/app/include/milo/app/pattern.h
+++ b/app/include/milo/app/pattern.h
@@ -24,70 +24,43 @@ namespace milo::app
         requires meta::same<t_message, std::string, std::string_view>;
     }
     {
-        if (a_pattern == "*")
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && a_message.empty())
-        {
-            return true;
-        }
-        
-        if (a_pattern.empty() && !a_message.empty())
-        {
-            return false;
-        }
-        
         size_t message_pos = 0;
         size_t pattern_pos = 0;
         
-        while (true)
+        /*
+         * Position behind the last star and the message position it was last tried with.
+         */
+        
+        auto message_pos_star = t_message::npos;
+        auto pattern_pos_star = t_pattern::npos;
+        
+        while (message_pos < a_message.size())
         {
-            auto pattern_pos_beg = a_pattern.find_first_not_of(
-                '*',
-                pattern_pos
-            );
-            
-            if (pattern_pos_beg == t_pattern::npos)
+            if (pattern_pos < a_pattern.size() && a_pattern[pattern_pos] == '*')
             {
-                if (pattern_pos < a_pattern.size())
-                {
-                    return a_pattern.ends_with('*');
-                }
-                else
-                {
-                    return a_message.size() == message_pos;
-                }
+                pattern_pos += 1;
+                
+                message_pos_star = message_pos;
+                pattern_pos_star = pattern_pos;
             }
-            
-            auto pattern_pos_end = a_pattern.find_first_of(
-                '*',
-                pattern_pos_beg
-            );
-            
-            if (pattern_pos_end == t_pattern::npos)
+            else if (pattern_pos < a_pattern.size() && a_pattern[pattern_pos] == a_message[message_pos])
             {
-                pattern_pos_end = a_pattern.size();
+                message_pos += 1;
+                pattern_pos += 1;
             }
-            
-            auto pattern = a_pattern.data() + pattern_pos_beg;
-            auto pattern_size = pattern_pos_end - pattern_pos_beg;
-            
-            pattern_pos = pattern_pos_beg;
-            message_pos = a_message.find(
-                pattern,
-                message_pos,
-                pattern_size
-            );
-            
-            if (message_pos == t_message::npos)
+            else if (pattern_pos_star != t_pattern::npos)
+            {
+                message_pos_star += 1;
+                
+                message_pos = message_pos_star;
+                pattern_pos = pattern_pos_star;
+            }
+            else
             {
                 return false;
             }
-            
-            pattern_pos += pattern_size;
-            message_pos += pattern_size;
         }
+        
+        return a_pattern.find_first_not_of('*', pattern_pos) == t_pattern::npos;
     }
 }
-- 
2.43.0


From 4566d7d6f16c0fb4412782ee0d4e5adc400a4c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 09/30] fix: report a missing command when the application gets
 no arguments

The dump of an empty argument list removed the last character of an
empty string, which ended the application with an unrelated exception.
---
 app/include/milo/app/app.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 1fd466f..dc9870c 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -88,7 +88,10 @@ namespace milo::app
                     }
                 );
                 
-                str.pop_back();
+                if (!str.empty())
+                {
+                    str.pop_back();
+                }
                 
                 return str;
             }
-- 
2.43.0


From dc3187acde1e8ceacdcc9527cb464de42984e54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 10/30] fix: compare whole names and convert whole values of
 parameters

A parameter was taken from any argument whose name starts with its name,
and a number followed by other characters was accepted.
---
 app/include/milo/app/app.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index dc9870c..42d1cc0 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -214,7 +214,9 @@ namespace milo::app
                 {
                     if (it->starts_with("--"))
                     {
-                        if (it->substr(2).starts_with(a_name))
+                        auto name = it->substr(2);
+                        
+                        if (name.substr(0, name.find('=')) == a_name)
                         {
                             break;
                         }
@@ -277,7 +279,7 @@ namespace milo::app
                             value
                         );
                         
-                        if (result.ec != decltype(result.ec)())
+                        if (result.ec != decltype(result.ec)() || result.ptr != value_end)
                         {
                             throw std::logic_error(
                                 std::string("Error. Value conversion failure for --") +
-- 
2.43.0


From 1f3c37f73543eccbac709726bf74cb6baa76d8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 11/30] fix: skip unrecognized options with a single dash

A command token does not start with a dash, but an argument with a
single dash ended the search for the options and parameters behind it.
---
 app/include/milo/app/app.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/app.h b/app/include/milo/app/app.h
index 42d1cc0..f82b077 100644
--- a/app/include/milo/app/app.h
+++ b/app/include/milo/app/app.h
@@ -178,7 +178,7 @@ namespace milo::app
                             return true;
                         }
                     }
-                    else
+                    else if (!it->starts_with('-'))
                     {
                         return false;
                     }
@@ -221,7 +221,7 @@ namespace milo::app
                             break;
                         }
                     }
-                    else
+                    else if (!it->starts_with('-'))
                     {
                         throw std::logic_error(
                             std::string(
-- 
2.43.0


From 9bbe111e9b845a5cb1ea795f81ea7a9dca448b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 12/30] fix: compute cycle metrics in floating point

The product of the clock frequency and the duration wrapped around for a
measurement of more than a few seconds.
---
 app/include/milo/app/command/benchmark.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 3e7118e..270da8d 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -232,9 +232,9 @@ namespace milo::app::command::benchmark
             
             if (processed != 0 && cpu_clock != 0)
             {
-                auto billion = 1000 * 1000 * 1000;
-                auto cpu_cycles_per_call = double(cpu_clock * nanoseconds) / double(billion * repeats_time);
-                auto cpu_cycles_per_byte = double(cpu_clock * nanoseconds) / double(billion * processed);
+                auto billion = double(1000 * 1000 * 1000);
+                auto cpu_cycles_per_call = double(cpu_clock) * double(nanoseconds) / (billion * double(repeats_time));
+                auto cpu_cycles_per_byte = double(cpu_clock) * double(nanoseconds) / (billion * double(processed));
                 
                 result["metrics"]["cpu"] = {
                     {"cycles_per_call", cpu_cycles_per_call},
-- 
2.43.0


From 41ac8baaf31c669873afcd08d769dd769a565acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:42 +0000
Subject: [PATCH 13/30] fix: escape strings in json output

The verbose output contains the command line, so a quote, a backslash or
a control character in an argument gave malformed json.
---
 app/include/milo/app/type.h | 48 ++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/app/include/milo/app/type.h b/app/include/milo/app/type.h
index 6ed3931..f4a1bbe 100644
--- a/app/include/milo/app/type.h
+++ b/app/include/milo/app/type.h
@@ -829,6 +829,37 @@ namespace milo::app::type
         const object& a_object
     ) -> void;
     
+    auto
+    to_json_string(
+        std::stringstream& a_stream,
+        const var& a_var
+    ) -> void
+    {
+        std::stringstream string;
+        
+        string << a_var;
+        
+        a_stream << '\"';
+        
+        for (auto c: string.str())
+        {
+            if (c == '\"' || c == '\\')
+            {
+                a_stream << '\\' << c;
+            }
+            else if (static_cast<unsigned char>(c) < 0x20)
+            {
+                a_stream << "\\u00" << "01"[c >> 4] << "0123456789abcdef"[c & 0xf];
+            }
+            else
+            {
+                a_stream << c;
+            }
+        }
+        
+        a_stream << '\"';
+    }
+    
     auto
     to_json(
         std::stringstream& a_stream,
@@ -849,7 +880,12 @@ namespace milo::app::type
                 throw std::logic_error("Attempt to use json-serializable type as key.");
             }
             
-            a_stream << '\"' << key << "\":";
+            to_json_string(
+                a_stream,
+                key
+            );
+            
+            a_stream << ':';
             
             if (item.is<object>())
             {
@@ -867,7 +903,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json_string(
+                    a_stream,
+                    item
+                );
             }
             else
             {
@@ -914,7 +953,10 @@ namespace milo::app::type
             }
             else if (item.is<std::string_view>() || item.is<std::string>())
             {
-                a_stream << '\"' << item << "\"";
+                to_json_string(
+                    a_stream,
+                    item
+                );
             }
             else
             {
-- 
2.43.0


From e51fcc6ee6cbf9d74e2886144b861e5d587b1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 14/30] fix: use avx backends only if the operating system
 enabled avx state

The processor reports avx support even when the operating system does
not save the registers, and then avx instructions are illegal.
---
 src/milo/internal/arch/x86_64.h         | 35 +++++++++++++++++++++++--
 src/milo/internal/arch/x86_64/cpuid.asm | 12 +++++++++
 2 files changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index a363264..4ec4fc0 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -29,6 +29,11 @@ namespace milo::internal
         uint32_t a_ecx
     ) noexcept(true) -> void;
     
+    extern "C"
+    auto
+    milo_internal_arch_x86_64_xgetbv(
+    ) noexcept(true) -> uint32_t;
+    
     #endif
     
     /*
@@ -62,6 +67,21 @@ namespace milo::internal
         #endif
     }
     
+    inline auto
+    arch_x86_64_xgetbv(
+    ) noexcept(true) -> uint32_t
+    {
+        #if MILO_INTERNAL_ASM && MILO_INTERNAL_ARCH_X86_64
+        
+        return milo_internal_arch_x86_64_xgetbv();
+        
+        #else
+        
+        return 0;
+        
+        #endif
+    }
+    
     inline
     const
     class arch_x86_64_info_basic
@@ -79,6 +99,12 @@ namespace milo::internal
     private:
         
         registers m_features[2]{};
+        
+        /*
+         * Operating system saves and restores state of avx registers.
+         */
+        
+        bool m_avx_state = false;
     
     public:
         
@@ -102,6 +128,11 @@ namespace milo::internal
                 );
                 
                 m_features[0] = {info[0], info[1], info[2], info[3]};
+                
+                if (m_features[0].ecx & (1 << 27))
+                {
+                    m_avx_state = (arch_x86_64_xgetbv() & 0b110) == 0b110;
+                }
             }
             
             if (max >= 7)
@@ -174,14 +205,14 @@ namespace milo::internal
         avx_1(
         ) const noexcept(true) -> bool
         {
-            return m_features[0].ecx & (1 << 28);
+            return m_avx_state && m_features[0].ecx & (1 << 28);
         }
         
         auto
         avx_2(
         ) const noexcept(true) -> bool
         {
-            return m_features[1].ebx & (1 << 5);
+            return m_avx_state && m_features[1].ebx & (1 << 5);
         }
         
         auto
diff --git a/src/milo/internal/arch/x86_64/cpuid.asm b/src/milo/internal/arch/x86_64/cpuid.asm
index d82a319..cedd3a6 100644
--- a/src/milo/internal/arch/x86_64/cpuid.asm
+++ b/src/milo/internal/arch/x86_64/cpuid.asm
@@ -5,6 +5,7 @@ bits 64
 %include "abi.asm"
 
 global milo_internal_arch_x86_64_cpuid
+global milo_internal_arch_x86_64_xgetbv
 
 ; BEG arch_x86_64_cpuid
 
@@ -27,3 +28,14 @@ milo_internal_arch_x86_64_cpuid:
     ret
 
 ; BEG arch_x86_64_cpuid
+
+; BEG arch_x86_64_xgetbv
+
+section .text
+milo_internal_arch_x86_64_xgetbv:
+; Returns lower half of extended control register 0.
+    xor     ecx,    ecx
+    xgetbv
+    ret
+
+; BEG arch_x86_64_xgetbv
-- 
2.43.0


From 945e297bc84e2394d48e52b4678b4cecdd3849c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:03 +0000
Subject: [PATCH 15/30] fix: let one-shot aead encryption into caller's buffers
 compile

---
 src/milo/primitive/aead/apie.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/milo/primitive/aead/apie.h b/src/milo/primitive/aead/apie.h
index f49a758..adbc9bb 100644
--- a/src/milo/primitive/aead/apie.h
+++ b/src/milo/primitive/aead/apie.h
@@ -935,7 +935,7 @@ namespace milo::primitive::aead
             a_digest_ptr
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
@@ -1015,7 +1015,7 @@ namespace milo::primitive::aead
             a_digest
         );
         
-        return container::tuple{
+        return container::tuple<size_t, size_t>{
             ciphertext_size,
             digest_size
         };
-- 
2.43.0


From 63e3262e920872dffb50ac5e78be0a70b09f47fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 16/30] fix: accept signed char wherever the byte concept does

---
 src/milo/meta.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/milo/meta.h b/src/milo/meta.h
index 4613eca..9deae10 100644
--- a/src/milo/meta.h
+++ b/src/milo/meta.h
@@ -232,7 +232,8 @@ namespace milo::meta
     using type_map_char_ptr_to_unsigned_char_ptr = type_map<
         t_arg,
         unsigned char*,
-        char*
+        char*,
+        signed char*
     >;
     
     template<
@@ -241,7 +242,8 @@ namespace milo::meta
     using type_map_const_char_ptr_to_const_unsigned_char_ptr = type_map<
         t_arg,
         const unsigned char*,
-        const char*
+        const char*,
+        const signed char*
     >;
     
     template<typename t_0>
-- 
2.43.0


From f403f6873a71a3b02c4be9ed6777852c309eea88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:00 +0000
Subject: [PATCH 17/30] fix: pass no null pointers to memcpy when copying
 nothing

---
 src/milo/internal/memory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index cf1a0c4..7ad0c6f 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -606,6 +606,11 @@ namespace milo::internal
         }
         else
         {
+            if (a_size == 0)
+            {
+                return;
+            }
+            
             std::memcpy(
                 reinterpret_cast<uint8_t*>(a_dst_ptr),
                 reinterpret_cast<const uint8_t*>(a_src_ptr),
-- 
2.43.0


From 68252b9dc8eddbe0309b55399f74f8fc1da472fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 18/30] fix: compare tags through a volatile accumulator so
 that compilers cannot stop early

---
 src/milo/internal/memory.h | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index 7ad0c6f..df1e576 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -827,20 +827,40 @@ namespace milo::internal
         size_t a_size
     ) noexcept(true) -> bool
     {
-        uint8_t tmp = 0;
-        
-        for (size_t i = 0; i < a_size; i += 1)
+        if MILO_INTERNAL_CONSTEVAL
         {
-            tmp |= memory_load<uint8_t>(
-                a_src_a_ptr,
-                i
-            ) ^ memory_load<uint8_t>(
-                a_src_b_ptr,
-                i
-            );
+            uint8_t tmp = 0;
+            
+            for (size_t i = 0; i < a_size; i += 1)
+            {
+                tmp |= memory_load<uint8_t>(
+                    a_src_a_ptr,
+                    i
+                ) ^ memory_load<uint8_t>(
+                    a_src_b_ptr,
+                    i
+                );
+            }
+            
+            return tmp == 0;
+        }
+        else
+        {
+            volatile uint8_t tmp = 0;
+            
+            for (size_t i = 0; i < a_size; i += 1)
+            {
+                tmp = tmp | (memory_load<uint8_t>(
+                    a_src_a_ptr,
+                    i
+                ) ^ memory_load<uint8_t>(
+                    a_src_b_ptr,
+                    i
+                ));
+            }
+            
+            return tmp == 0;
         }
-        
-        return tmp == 0;
     }
     
     template<
-- 
2.43.0


From 73851b5cc66976e8fdcbcf67f9b57967c2f490a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 19/30] fix: benchmark key derivation of an empty key without
 reading it

---
 app/include/milo/app/command/benchmark.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index 270da8d..bc1661c 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -481,7 +481,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size ? a_key_ptr[0] : char(0);
     }
     
     template<
@@ -542,7 +542,7 @@ namespace milo::app::command::benchmark
             a_key_size
         );
         
-        return a_key_ptr[0];
+        return a_key_size ? a_key_ptr[0] : char(0);
     }
     
     template<
-- 
2.43.0


From 486ab0fe64a4a5da477b0b1cc44c04dc0bde17fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:55 +0000
Subject: [PATCH 20/30] fix: leave throughput out of a report when the clock
 did not advance

---
 app/include/milo/app/command/benchmark.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/include/milo/app/command/benchmark.h b/app/include/milo/app/command/benchmark.h
index bc1661c..88fa344 100644
--- a/app/include/milo/app/command/benchmark.h
+++ b/app/include/milo/app/command/benchmark.h
@@ -219,7 +219,7 @@ namespace milo::app::command::benchmark
                 {"nanoseconds_per_call", duration_nanoseconds_per_call}
             };
             
-            if (processed != 0)
+            if (processed != 0 && nanoseconds != 0)
             {
                 auto throughput_gigabytes_per_second = double(processed) / double(nanoseconds);
                 auto throughput_megabytes_per_second = double(processed * 1000) / double(nanoseconds);
-- 
2.43.0


From d3ed028bba31395dc1037d1cfe328ae29429e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:58 +0000
Subject: [PATCH 21/30] fix: load and store integers through byte pointers,
 operands need not be aligned

---
 src/milo/internal/memory.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index df1e576..b48165d 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -97,7 +97,7 @@ namespace milo::internal
                 
                 std::memcpy(
                     reinterpret_cast<uint8_t*>(&val),
-                    reinterpret_cast<const val_type*>(a_ptr) + a_off,
+                    reinterpret_cast<const uint8_t*>(a_ptr) + a_off * val_size,
                     val_size
                 );
                 
@@ -203,7 +203,7 @@ namespace milo::internal
             
             std::memcpy(
                 reinterpret_cast<uint8_t*>(&val),
-                reinterpret_cast<const val_type*>(a_ptr) + a_off,
+                reinterpret_cast<const uint8_t*>(a_ptr) + a_off * val_size,
                 min(
                     val_size,
                     ptr_size * a_size
@@ -382,7 +382,7 @@ namespace milo::internal
             else
             {
                 std::memcpy(
-                    reinterpret_cast<val_type*>(a_ptr) + a_off,
+                    reinterpret_cast<uint8_t*>(a_ptr) + a_off * val_size,
                     reinterpret_cast<const uint8_t*>(&a_val),
                     val_size
                 );
@@ -485,7 +485,7 @@ namespace milo::internal
         else
         {
             std::memcpy(
-                reinterpret_cast<val_type*>(a_ptr) + a_off,
+                reinterpret_cast<uint8_t*>(a_ptr) + a_off * val_size,
                 reinterpret_cast<const uint8_t*>(&a_val),
                 min(
                     val_size,
-- 
2.43.0


From 3272f78cb6afa8312c79eecec1dc13ff1adce77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 22/30] fix: programs linked with assembly don't get executable
 stack

---
 src/milo/internal/arch/x86_64/abi.asm | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/milo/internal/arch/x86_64/abi.asm b/src/milo/internal/arch/x86_64/abi.asm
index b5e6ee3..0d00e2f 100644
--- a/src/milo/internal/arch/x86_64/abi.asm
+++ b/src/milo/internal/arch/x86_64/abi.asm
@@ -15,3 +15,9 @@
     %define abi_arg_2 r8
     %define abi_arg_3 r9
 %endif
+
+; Stack of the program doesn't have to be executable.
+%ifidn __OUTPUT_FORMAT__, elf64
+    section .note.GNU-stack noalloc noexec nowrite progbits
+    section .text
+%endif
-- 
2.43.0


From bc632055a722221de1842aaae94ec9d2d379618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:41 +0000
Subject: [PATCH 23/30] fix: choose implementations on first use, not in
 dynamic initialization

---
 src/milo/internal/arch/x86_64.h | 127 +++++++++++++++++++++++---------
 src/milo/internal/impl.h        |  22 ++++--
 2 files changed, 107 insertions(+), 42 deletions(-)

diff --git a/src/milo/internal/arch/x86_64.h b/src/milo/internal/arch/x86_64.h
index 4ec4fc0..440baa1 100644
--- a/src/milo/internal/arch/x86_64.h
+++ b/src/milo/internal/arch/x86_64.h
@@ -82,8 +82,6 @@ namespace milo::internal
         #endif
     }
     
-    inline
-    const
     class arch_x86_64_info_basic
     {
     private:
@@ -228,53 +226,110 @@ namespace milo::internal
         {
             return m_features[1].ebx & (1 << 29);
         }
-    } arch_x86_64_info;
+    };
+    
+    /*
+     * Collected on first use, which may come before dynamic initialization.
+     */
+    
+    inline auto
+    arch_x86_64_info(
+    ) noexcept(true) -> const arch_x86_64_info_basic&
+    {
+        static const arch_x86_64_info_basic info;
+        
+        return info;
+    }
     
     struct arch_x86_64_ise
     {
-        inline
         static
-        const bool sse_1 = arch_x86_64_info.sse_1();
+        auto
+        sse_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_1();
+        }
         
-        inline
         static
-        const bool sse_2 = arch_x86_64_info.sse_2();
+        auto
+        sse_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_2();
+        }
         
-        inline
         static
-        const bool sse_3 = arch_x86_64_info.sse_3();
+        auto
+        sse_3(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_3();
+        }
         
-        inline
         static
-        const bool ssse_3 = arch_x86_64_info.ssse_3();
+        auto
+        ssse_3(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().ssse_3();
+        }
         
-        inline
         static
-        const bool sse_4_1 = arch_x86_64_info.sse_4_1();
+        auto
+        sse_4_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_1();
+        }
         
-        inline
         static
-        const bool sse_4_2 = arch_x86_64_info.sse_4_2();
+        auto
+        sse_4_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_2();
+        }
         
-        inline
         static
-        const bool sse_4 = arch_x86_64_info.sse_4_1() && arch_x86_64_info.sse_4_2();
+        auto
+        sse_4(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sse_4_1() && arch_x86_64_info().sse_4_2();
+        }
         
-        inline
         static
-        const bool avx_1 = arch_x86_64_info.avx_1();
+        auto
+        avx_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().avx_1();
+        }
         
-        inline
         static
-        const bool avx_2 = arch_x86_64_info.avx_2();
+        auto
+        avx_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().avx_2();
+        }
         
-        inline
         static
-        const bool sha_1 = arch_x86_64_info.sha_1();
+        auto
+        sha_1(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sha_1();
+        }
         
-        inline
         static
-        const bool sha_2 = arch_x86_64_info.sha_2();
+        auto
+        sha_2(
+        ) noexcept(true) -> bool
+        {
+            return arch_x86_64_info().sha_2();
+        }
         
         template<
             typename t_impl
@@ -298,7 +353,7 @@ namespace milo::internal
                         typename impl_type::sse_1;
                     })
                     {
-                        if (!sse_1)
+                        if (!sse_1())
                         {
                             return false;
                         }
@@ -308,7 +363,7 @@ namespace milo::internal
                         typename impl_type::sse_2;
                     })
                     {
-                        if (!sse_2)
+                        if (!sse_2())
                         {
                             return false;
                         }
@@ -318,7 +373,7 @@ namespace milo::internal
                         typename impl_type::sse_3;
                     })
                     {
-                        if (!sse_3)
+                        if (!sse_3())
                         {
                             return false;
                         }
@@ -328,7 +383,7 @@ namespace milo::internal
                         typename impl_type::ssse_3;
                     })
                     {
-                        if (!ssse_3)
+                        if (!ssse_3())
                         {
                             return false;
                         }
@@ -338,7 +393,7 @@ namespace milo::internal
                         typename impl_type::sse_4_1;
                     })
                     {
-                        if (!sse_4_1)
+                        if (!sse_4_1())
                         {
                             return false;
                         }
@@ -348,7 +403,7 @@ namespace milo::internal
                         typename impl_type::sse_4_2;
                     })
                     {
-                        if (!sse_4_2)
+                        if (!sse_4_2())
                         {
                             return false;
                         }
@@ -358,7 +413,7 @@ namespace milo::internal
                         typename impl_type::sse_4;
                     })
                     {
-                        if (!sse_4)
+                        if (!sse_4())
                         {
                             return false;
                         }
@@ -368,7 +423,7 @@ namespace milo::internal
                         typename impl_type::avx_1;
                     })
                     {
-                        if (!avx_1)
+                        if (!avx_1())
                         {
                             return false;
                         }
@@ -378,7 +433,7 @@ namespace milo::internal
                         typename impl_type::avx_2;
                     })
                     {
-                        if (!avx_2)
+                        if (!avx_2())
                         {
                             return false;
                         }
@@ -388,7 +443,7 @@ namespace milo::internal
                         typename impl_type::sha_1;
                     })
                     {
-                        if (!sha_1)
+                        if (!sha_1())
                         {
                             return false;
                         }
@@ -398,7 +453,7 @@ namespace milo::internal
                         typename impl_type::sha_2;
                     })
                     {
-                        if (!sha_2)
+                        if (!sha_2())
                         {
                             return false;
                         }
diff --git a/src/milo/internal/impl.h b/src/milo/internal/impl.h
index f9d3b7b..c87c0e9 100644
--- a/src/milo/internal/impl.h
+++ b/src/milo/internal/impl.h
@@ -155,12 +155,22 @@ namespace milo::internal
     }
     struct impl_runtime_reader
     {
-        inline
+        /*
+         * Chosen on first use, which may come before dynamic initialization.
+         */
+        
         static
-        const auto impl = impl_choose_hook<
-            t_chooser,
-            t_impls...
-        >();
+        auto
+        impl(
+        ) noexcept(true)
+        {
+            static const auto result = impl_choose_hook<
+                t_chooser,
+                t_impls...
+            >();
+            
+            return result;
+        }
     };
     
     template<
@@ -260,7 +270,7 @@ namespace milo::internal
                     return invoker::template hook<
                         t_id
                     >(
-                        runtime_selected::impl,
+                        runtime_selected::impl(),
                         forward<
                             t_args
                         >(
-- 
2.43.0


From 6a049b801e2612fb75abd15e8ee9629c6237935b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:03 +0000
Subject: [PATCH 24/30] fix: let poly 1305 use the implementation options it is
 given

---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index 72214d9..bb34717 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -27,7 +27,8 @@ namespace milo::primitive::detail
                 >,
                 internal::impl_runtime<
                     mac_poly_1305_impl_sw
-                >
+                >,
+                t_options...
             >
         {
             static
-- 
2.43.0


From 7ce2db94fd62e47b5b45f33953f88096a055008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 25/30] fix: pass no null pointers to memcmp when comparing
 nothing

---
 src/milo/internal/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/internal/memory.h b/src/milo/internal/memory.h
index b48165d..3b74a11 100644
--- a/src/milo/internal/memory.h
+++ b/src/milo/internal/memory.h
@@ -779,7 +779,7 @@ namespace milo::internal
         }
         else
         {
-            return std::memcmp(
+            return a_size == 0 || std::memcmp(
                 a_src_a_ptr,
                 a_src_b_ptr,
                 a_size
-- 
2.43.0


From 2f0d2bc91088e3e9a8162e0b0d4d227f3f9f52a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:31 +0000
Subject: [PATCH 26/30] fix: generate an empty string literal for an empty text
 of a test vector

---
 tool/codegen/src/cpp/lang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tool/codegen/src/cpp/lang.py b/tool/codegen/src/cpp/lang.py
index eb73286..ca3e94e 100644
--- a/tool/codegen/src/cpp/lang.py
+++ b/tool/codegen/src/cpp/lang.py
@@ -174,7 +174,7 @@ def gen_str(
     ]
 
     if len(chunks) == 0:
-        chunks.append(end)
+        chunks.append('""' + end)
     else:
         chunks[len(chunks) - 1] += end
 
-- 
2.43.0


From a839ef0c4a80e2be9bd4fdb405d0cfb4e8b209ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 27/30] fix: refuse test vectors with id 0, which generated
 tests report as success

---
 tool/codegen/main.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tool/codegen/main.py b/tool/codegen/main.py
index 1bac860..b0b3475 100644
--- a/tool/codegen/main.py
+++ b/tool/codegen/main.py
@@ -72,6 +72,11 @@ def main(
     payload: dict
     payload = config['payload']
 
+    # Test programs report a failure with the id of a vector, 0 stands for success.
+    for test in payload['vectors']:
+        for test_vector in test['data']:
+            assert test_vector.get('id') != 0
+
     code: str
     code = callbacks[scheme](
         payload
-- 
2.43.0


From a88836e7a63f083fd340f3f9430b7118ef3deb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:22 +0000
Subject: [PATCH 28/30] fix: poly_1305 key is little endian on every machine

---
 src/milo/primitive/detail/mac/poly/poly_1305.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/mac/poly/poly_1305.h b/src/milo/primitive/detail/mac/poly/poly_1305.h
index bb34717..005ac9a 100644
--- a/src/milo/primitive/detail/mac/poly/poly_1305.h
+++ b/src/milo/primitive/detail/mac/poly/poly_1305.h
@@ -108,7 +108,7 @@ namespace milo::primitive::detail
             size_t a_key_size
         ) noexcept(true) -> void
         {
-            internal::memory_init(
+            internal::memory_init_le(
                 m_key_r,
                 a_key_ptr,
                 a_key_size
-- 
2.43.0


From a6155e150e1bc9d5e133208295a27a62721b6c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:24 +0000
Subject: [PATCH 29/30] fix: base_64 encode_size does not overflow for sizes
 its result can express

---
 src/milo/primitive/detail/codec/base_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 6acb381..92c510d 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -144,7 +144,7 @@ namespace milo::primitive::detail
             size_t a_from_size
         ) noexcept(true) -> size_t
         {
-            return (a_from_size * 4 / 3 + 3) & ~0b11;
+            return (a_from_size / 3 + size_t(a_from_size % 3 != 0)) * 4;
         }
         
         template<
-- 
2.43.0


From 75a0243d0ae6469486287555beadb87ab09a588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:47 +0000
Subject: [PATCH 30/30] fix: base_64 decode_size does not overflow for sizes
 its result can express

---
 src/milo/primitive/detail/codec/base_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/milo/primitive/detail/codec/base_64.h b/src/milo/primitive/detail/codec/base_64.h
index 92c510d..98010e6 100644
--- a/src/milo/primitive/detail/codec/base_64.h
+++ b/src/milo/primitive/detail/codec/base_64.h
@@ -259,7 +259,7 @@ namespace milo::primitive::detail
             size_t a_from_size
         ) noexcept(true) -> size_t
         {
-            size_t size = a_from_size * 3 / 4;
+            size_t size = a_from_size / 4 * 3 + a_from_size % 4 * 3 / 4;
             
             if (a_from_size > 1 && char(a_from_ptr[a_from_size - 1]) == '=')
             {
-- 
2.43.0

