From 44b350eda60f023665ad4ecde6a5a37226ab1f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 01/24] fix: always write four hex digits in \u escapes

json_hex padded to sizeof(the integer), so control characters and other
BMP code points below U+1000 were dumped as \u01, \u7F, ...: not JSON.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0eb79ea 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From dd951c7abd0f137f22127b9568d1e66dad9cba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 02/24] fix: reject a sign that is not followed by a digit

The assertion aborted the process in debug builds; with NDEBUG the text was
accepted as a number.
---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0eb79ea..4f2ebb8 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -509,7 +509,8 @@ public:
     {
         using integer_type = typename value_type::integer_type;
 
-        CONFIGOR_ASSERT(is_digit(current_));
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
 
         number_integer_ = static_cast<integer_type>(current_ - '0');
         while (true)
-- 
2.43.0


From 6fd330b883f3805b72a0119a7902bec67aa55e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:38 +0000
Subject: [PATCH 03/24] fix: do not truncate code points when matching literals
 and digits

U+0130 passed for the digit 0 and U+0172 for the letter r because the code
point was narrowed to the source character type first.
---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 4f2ebb8..2a29d45 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -326,7 +326,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -625,9 +625,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t codepoint) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= codepoint && codepoint <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From b807e7d0e6a12f2b27aea4c723b15a7ad8565326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 04/24] fix: do not wrap integer literals beyond the integer
 range

The accumulation overflowed (undefined behaviour) and 9223372036854775808,
18446744073709551617 and so on parsed to unrelated integers, as did the
integer part of large floats. Such literals are now floats; both extremes of
the integer type are exact.
---
 include/configor/json.hpp | 51 ++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 2a29d45..bd842d3 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,8 +22,10 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
+#include <cmath>      // std::ceil, std::floor, std::fabs
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -163,7 +165,7 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -483,6 +485,7 @@ public:
     {
         is_negative_    = false;
         number_integer_ = 0;
+        number_float_   = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -508,31 +511,51 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
 
         if (!is_digit(current_))
             fail("invalid number, got", current_);
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
-        while (true)
+        // the integer is accumulated with its sign, the float without
+        const integer_type limit = is_negative_ ? std::numeric_limits<integer_type>::min()
+                                                : std::numeric_limits<integer_type>::max();
+
+        bool overflow = false;
+        do
         {
-            const auto ch = read_next();
-            if (ch == '.' || ch == 'e' || ch == 'E')
-                return scan_float();
+            const auto digit = static_cast<int>(current_ - '0');
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
-            else
-                break;
-        }
-        return token_type::value_integer;
+            if (!overflow)
+            {
+                const integer_type rest = limit / 10;
+                const int          last = static_cast<int>(limit % 10);
+
+                overflow = is_negative_ ? (number_integer_ < rest || (number_integer_ == rest && -digit < last))
+                                        : (number_integer_ > rest || (number_integer_ == rest && digit > last));
+                if (!overflow)
+                    number_integer_ = static_cast<integer_type>(number_integer_ * 10 + (is_negative_ ? -digit : digit));
+                else
+                    number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+            }
+
+            if (overflow)
+                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+        } while (is_digit(read_next()));
+
+        if (!overflow)
+            number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+
+        if (current_ == '.' || current_ == 'e' || current_ == 'E')
+            return scan_float();
+
+        // a number that does not fit the integer type is a float
+        return overflow ? token_type::value_float : token_type::value_integer;
     }
 
     token_type scan_float()
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
-- 
2.43.0


From a359c8a465873247d97fe6a12153138ab2361e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 05/24] fix: require exponent digits and apply every exponent
 value

1e+ and 1e-x were accepted, an exponent beyond 32 bits wrapped around, and
0.0e400 or 0.001e310 became NaN or infinite because the power of ten was
computed apart from the number.
---
 include/configor/json.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index bd842d3..ab117cb 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -607,18 +607,26 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // a larger exponent makes no difference
+            if (exponent < 100000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
-        float_type power = 1;
+        // zero stays zero, whatever the exponent
+        if (number_float_ == 0)
+            return token_type::value_float;
+
+        // scale step by step, the power alone may be out of range
         for (; exponent; exponent >>= 1, base *= base)
             if (exponent & 1)
-                power *= base;
+                number_float_ *= base;
 
-        number_float_ *= power;
         return token_type::value_float;
     }
 
-- 
2.43.0


From 3e409308b36c6e731f9bb24a4d3c105ed4dc4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 06/24] fix: find the end of every comment

A block comment ending in **/ was not closed, and a comment that reaches the
end of an input adapter (which delivers NUL characters) never ended.
---
 include/configor/json.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index ab117cb..cd73679 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -290,7 +290,8 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                // end of input
+                if (current_ == '\0')
                 {
                     break;
                 }
@@ -299,9 +300,10 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (current_ == '*')
                 {
                     if (read_next() == '/')
                     {
@@ -310,8 +312,13 @@ public:
                         break;
                     }
                 }
+                else if (current_ != '\0')
+                {
+                    read_next();
+                }
 
-                if (this->is_.eof())
+                // end of input
+                if (current_ == '\0')
                 {
                     fail("unexpected eof while reading comment");
                 }
-- 
2.43.0


From e00b1ea4b64fe6038999a77f1507eaa28d3aa153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 07/24] fix: pass errors in the first character to the error
 handler

The first character was decoded before the try block.
---
 include/configor/details/parser.hpp | 3 +++
 include/configor/json.hpp           | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..b712cce 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -56,6 +56,7 @@ public:
     {
         try
         {
+            start();
             do_parse(c, token_type::uninitialized);
             if (scan() != token_type::end_of_input)
                 fail(token_type::end_of_input);
@@ -87,6 +88,8 @@ public:
     }
 
 protected:
+    virtual void start() {}
+
     virtual token_type scan() = 0;
 
     virtual void get_integer(typename value_type::integer_type& out) = 0;
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index cd73679..5ad67d5 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -156,11 +156,10 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
+    virtual void start() override
     {
         // read first char
         read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
     }
 
     virtual void get_integer(typename value_type::integer_type& out) override
-- 
2.43.0


From d1c5017281261e4e3146e79c6ba714fb36245384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 08/24] fix: reject ill-formed UTF-8, UTF-16 and UTF-32

The UTF-8 decoder took any byte as a continuation byte and accepted lone
continuation bytes, overlong forms and surrogates; the UTF-16 decoder accepted
a lone trail surrogate and truncated wide units; the encoders wrote surrogates.
---
 include/configor/details/encoding.hpp | 63 ++++++++++++++++-----------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..0e601a1 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -54,6 +54,11 @@ inline bool is_trail_surrogate(const uint32_t codepoint)
     return constants::trail_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
 }
 
+inline bool is_surrogate(const uint32_t codepoint)
+{
+    return is_lead_surrogate(codepoint) || is_trail_surrogate(codepoint);
+}
+
 inline uint32_t decode_surrogates(uint32_t lead_surrogate, uint32_t trail_surrogate)
 {
     uint32_t codepoint = ((lead_surrogate - constants::lead_surrogate_begin) << constants::surrogate_bits);
@@ -126,6 +131,10 @@ public:
             os.put(static_cast<char_type>(0xC0 | (codepoint >> 6)));
             os.put(static_cast<char_type>(0x80 | (codepoint & 0x3F)));
         }
+        else if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
         else if (codepoint <= 0xFFFF)
         {
             // 1110xxxx 10xxxxxx 10xxxxxx
@@ -175,32 +184,26 @@ public:
         if (is.eof())
             return false;
 
-        codepoint = 0;
+        // the smallest code point that needs this many extra bytes
+        static const std::array<std::uint32_t, 6> utf8_minimums = {
+            0x00000000, 0x00000080, 0x00000800, 0x00010000, 0x00200000, 0x04000000,
+        };
 
         // read bytes
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+
+        is.get();
+        codepoint    = first_byte;
+        bool invalid = (first_byte & 0xC0) == 0x80;
+        for (auto i = extra_bytes_to_read; i > 0 && !invalid; --i)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            const auto next_byte = static_cast<uint8_t>(is.get());
+            codepoint            = (codepoint << 6) + next_byte;
+            invalid              = !is.good() || (next_byte & 0xC0) != 0x80;
         }
         codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+        if (invalid || codepoint > 0x10FFFF || codepoint < utf8_minimums[extra_bytes_to_read]
+            || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
@@ -221,7 +224,11 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint <= 0xFFFF)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint <= 0xFFFF)
         {
             os.put(traits_type::to_char_type(static_cast<typename traits_type::int_type>(codepoint)));
         }
@@ -240,7 +247,7 @@ public:
 
     static bool decode(istream_type& is, uint32_t& codepoint)
     {
-        codepoint = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+        codepoint = static_cast<uint32_t>(is.get());
 
         if (is.eof())
             return false;
@@ -248,7 +255,7 @@ public:
         if (unicode::is_lead_surrogate(codepoint))
         {
             uint32_t lead_surrogate  = codepoint;
-            uint32_t trail_surrogate = static_cast<uint32_t>(static_cast<uint16_t>(is.get()));
+            uint32_t trail_surrogate = static_cast<uint32_t>(is.get());
 
             if (unicode::is_trail_surrogate(trail_surrogate))
             {
@@ -259,6 +266,11 @@ public:
                 is.setstate(std::ios_base::failbit);
             }
         }
+        else if (codepoint > 0xFFFF || unicode::is_trail_surrogate(codepoint))
+        {
+            // not a code unit, or unpaired
+            is.setstate(std::ios_base::failbit);
+        }
 
         if (codepoint > 0x10FFFF)
         {
@@ -281,9 +293,10 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             os.setstate(std::ios_base::failbit);
+            return;
         }
         os.put(traits_type::to_char_type(static_cast<typename traits_type::int_type>(codepoint)));
     }
@@ -295,7 +308,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 3cd4bc2c9992c5bd472b7039cd1ab59133b823d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 09/24] fix: reject an unpaired trail surrogate escape

---
 include/configor/json.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 5ad67d5..058b2fd 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -459,6 +459,11 @@ public:
                         codepoint = encoding::unicode::decode_surrogates(lead_surrogate, trail_surrogate);
                     }
 
+                    else if (encoding::unicode::is_trail_surrogate(codepoint))
+                    {
+                        fail("trail surrogate must follow a lead surrogate, but got", codepoint);
+                    }
+
                     this->target_encoder_(oss, codepoint);
                     if (!oss.good())
                     {
-- 
2.43.0


From fb6cbc23b0a81178ba0fbc3c5499182065ca391c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:41 +0000
Subject: [PATCH 10/24] fix: dump floats beyond the integer range

Integral floats were converted to int64_t whatever their magnitude, which is
undefined behaviour from 2^63 on and for infinities, and NaN was written as
"nan". Large floats are now written as floats and non-finite ones are errors.
---
 include/configor/json.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 058b2fd..af52c45 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -22,7 +22,7 @@
 #include "configor.hpp"
 
 #include <algorithm>  // std::for_each
-#include <cmath>      // std::ceil, std::floor, std::fabs
+#include <cmath>      // std::ceil, std::floor, std::fabs, std::isfinite
 #include <iomanip>    // std::setprecision
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 #include <limits>     // std::numeric_limits
@@ -905,7 +905,15 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        if (!std::isfinite(f))
+        {
+            throw configor_serialization_error("a number that is not finite cannot be represented in JSON");
+        }
+
+        // 2^63, the first float beyond the integer range
+        const auto limit = static_cast<typename value_type::float_type>(9223372036854775808.0);
+
+        if (std::ceil(f) == std::floor(f) && -limit <= f && f < limit)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From e3b41c894e483ea7a54005774481fa3f4c41415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 11/24] fix: stay consistent when an allocation fails

A failing construction leaked the storage obtained for it, reset() set the
kind before the storage existed (released again by the destructor), and a
conversion that failed half way leaked what it had built.
---
 include/configor/details/value.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..4821c6d 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value(nullptr)  // from here on the destructor releases what a failing conversion leaves
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
@@ -1024,8 +1023,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
@@ -1103,7 +1103,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From c3dd54bf8418951de1573b2e8f1d649cc42a7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:22 +0000
Subject: [PATCH 12/24] fix: converting to a container replaces its contents
 and checks the kind

Maps kept their old elements, and an empty value of the wrong kind was taken
for an empty container.
---
 include/configor/details/conversion.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..06c25c3 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -48,6 +48,14 @@ inline configor_type_error make_conversion_error(value_constant::type t, value_c
     ss << "cannot convert type '" << to_string(t) << "' to type '" << to_string(want) << "' (implicitly)";
     return configor_type_error(ss.str());
 }
+
+// a null value converts to an empty container
+template <typename _ValTy>
+inline void check_container(const _ValTy& c, value_constant::type want)
+{
+    if (!c.is_null() && c.type() != want)
+        throw make_conversion_error(c.type(), want);
+}
 }  // namespace
 
 // to_value functions
@@ -208,6 +216,7 @@ template <
                             int>::type = 0>
 void from_value(const _ValTy& c, _Ty (&v)[_Num])
 {
+    check_container(c, value_constant::array);
     for (size_t i = 0; i < c.size() && i < _Num; i++)
     {
         v[i] = c[i].template get<_Ty>();
@@ -287,6 +296,7 @@ template <typename _ValTy, typename _Ty, size_t _Num,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::array<_Ty, _Num>& v)
 {
+    check_container(c, value_constant::array);
     for (size_t i = 0; i < c.size() && i < _Num; i++)
     {
         v[i] = c[i].template get<_Ty>();
@@ -308,6 +318,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::vector<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.resize(c.size());
     for (size_t i = 0; i < c.size(); ++i)
     {
@@ -330,6 +341,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::deque<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.resize(c.size());
     for (size_t i = 0; i < c.size(); ++i)
     {
@@ -353,6 +365,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::list<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.clear();
     for (size_t i = 0; i < c.size(); i++)
     {
@@ -376,6 +389,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::forward_list<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.clear();
     size_t size = c.size();
     for (size_t i = 0; i < size; i++)
@@ -400,6 +414,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::set<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.clear();
     for (size_t i = 0; i < c.size(); i++)
     {
@@ -423,6 +438,7 @@ template <typename _ValTy, typename _Ty,
           typename std::enable_if<detail::is_value_getable<_ValTy, _Ty>::value, int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_set<_Ty>& v)
 {
+    check_container(c, value_constant::array);
     v.clear();
     for (size_t i = 0; i < c.size(); i++)
     {
@@ -449,6 +465,8 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    check_container(c, value_constant::object);
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +492,8 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    check_container(c, value_constant::object);
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From 79b3262c82bca59e82167dd4cc0786f182fc5477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 13/24] fix: deliver NUL and high characters from C files and
 input adapters

A NUL character was skipped after being peeked because 0 meant 'nothing read',
and an adapter's characters beyond 0x7F arrived as negative values.
---
 include/configor/details/stream.hpp | 55 +++++++++++++++++++----------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..0e1b2ba 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -156,42 +156,51 @@ private:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
             , last_char_(0)
+            , has_last_char_(false)
         {
         }
 
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
-                return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            if (!has_last_char_)
+            {
+                const char_type ch = adapter_.read();
+
+                last_char_ = traits_type::eq(ch, traits_type::to_char_type(traits_type::eof()))
+                                 ? traits_type::eof()
+                                 : traits_type::to_int_type(ch);
+                has_last_char_ = true;
+            }
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
-            int_type c = underflow();
-            last_char_ = 0;
+            int_type c     = underflow();
+            has_last_char_ = false;
             return c;
         }
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
-            if (last_char_ != 0)
+            const auto total = num;
+            if (has_last_char_ && num > 0)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
+                s[0]           = traits_type::to_char_type(last_char_);
+                has_last_char_ = false;
                 ++s;
                 --num;
             }
             adapter_.read(s, static_cast<size_t>(num));
-            return num;
+            return total;
         }
 
     private:
         basic_iadapter<char_type>& adapter_;
         int_type                   last_char_;
+        bool                       has_last_char_;
     };
 
     streambuf buf_;
@@ -348,22 +357,25 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , has_last_char_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetc(file_);
+        if (!has_last_char_)
+        {
+            last_char_     = std::fgetc(file_);
+            has_last_char_ = true;
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -377,6 +389,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       has_last_char_;
 };
 
 template <>
@@ -391,22 +404,25 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , has_last_char_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetwc(file_);
+        if (!has_last_char_)
+        {
+            last_char_     = std::fgetwc(file_);
+            has_last_char_ = true;
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
-        int_type c = underflow();
-        last_char_ = 0;
+        int_type c     = underflow();
+        has_last_char_ = false;
         return c;
     }
 
@@ -420,6 +436,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       has_last_char_;
 };
 
 //
-- 
2.43.0


From e76a65f883a07019699e64d63b5577cb6eafe5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:52 +0000
Subject: [PATCH 14/24] fix: bulk reads advance the position and start at it

The string and buffer streams returned the same (for the buffer: the first)
characters again, and the C file streams dropped the peeked character and
reported more characters than a line held.
---
 include/configor/details/stream.hpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 0e1b2ba..af2b828 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,7 +21,7 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -286,7 +286,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -328,11 +331,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (index_ >= size_)
+            return 0;
         if (index_ + static_cast<size_t>(num) >= size_)
             num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
-            return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
+        traits_type::copy(s, buffer_ + index_, static_cast<size_t>(num));
+        index_ += static_cast<size_t>(num);
         return num;
     }
 
@@ -379,13 +383,6 @@ protected:
         return c;
     }
 
-    virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
-    {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
-    }
-
 private:
     std::FILE* file_;
     int_type   last_char_;
@@ -426,13 +423,6 @@ protected:
         return c;
     }
 
-    virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
-    {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
-    }
-
 private:
     std::FILE* file_;
     int_type   last_char_;
-- 
2.43.0


From 65e0a7a36a8a3e6f7f4ba21e1ac7ff92023a1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 15/24] fix: reject an object key that is not followed by a
 colon

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index b712cce..fea6f6d 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -185,7 +185,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From ad0cbd9c3c0587c8f70f4abdc95b4f8c46ad76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 16/24] fix: errors inside a bound field were ignored

CONFIGOR_BIND read each field with get(T&), which reports every failure by
returning false, so a required key missing in a nested struct, a value of the
wrong kind or a failing allocation was silently dropped. Add get_to, which
throws, and use it for bound fields.
---
 include/configor/details/conversion.hpp |  2 +-
 include/configor/details/value.hpp      | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index 06c25c3..09d95b0 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -804,7 +804,7 @@ public:
                            _37, _38, _39, _40, _41, _42, _43, _44, _45, _46, _47, _48, _49, _50)
 
 #define __CONFIGOR_TO_CONF_REQUIRED(field, name) c[name].operator=(v.field);
-#define __CONFIGOR_FROM_CONF_REQUIRED(field, name) c.at(name).get(v.field);
+#define __CONFIGOR_FROM_CONF_REQUIRED(field, name) c.at(name).get_to(v.field);
 
 #define __CONFIGOR_TO_CONF_OPTIONAL(field, name) \
     if (v.field != decltype(v.field){})          \
diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 4821c6d..9f26087 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -650,6 +650,15 @@ public:
         return do_get_ref<_Ty>(*this);
     }
 
+    // same as get(value), but errors are thrown
+    template <typename _Ty>
+    auto get_to(_Ty& value) const
+        -> decltype(std::declval<const basic_value&>().template do_get<_Ty>(std::declval<_Ty&>(),
+                                                                            detail::priority<3>{}))
+    {
+        return do_get<_Ty>(value, detail::priority<3>{});
+    }
+
     template <typename _Ty>
     auto get(_Ty& value) const
         -> decltype(std::declval<const basic_value&>().template do_get<_Ty>(std::declval<_Ty&>(),
@@ -658,7 +667,7 @@ public:
     {
         try
         {
-            do_get<_Ty>(value, detail::priority<3>{});
+            get_to(value);
             return true;
         }
         catch (...)
-- 
2.43.0


From b1f4af3ceb6bbbae1b3bc3828cf64b82a2ae31df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 17/24] fix: a failing allocation inside parse or dump was
 swallowed

The private streams caught std::bad_alloc: the end of a parsed string
could be dropped without an error, and dump() reported an encoding error.
---
 include/configor/details/serializer.hpp | 3 +++
 include/configor/json.hpp               | 1 +
 2 files changed, 4 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..ef2ab37 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -50,6 +50,8 @@ public:
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
+        // let the exceptions of the buffer through, if the stream does
+        os_.exceptions(os.exceptions() & std::ios_base::badbit);
         os_.setf(os.flags(), std::ios_base::floatfield);
         os_.imbue(std::locale(std::locale::classic(), os.getloc(), std::locale::collate | std::locale::ctype));
     }
@@ -238,6 +240,7 @@ public:
     {
         detail::fast_string_ostreambuf<_TargetCharTy> buf{ str };
         std::basic_ostream<_TargetCharTy>             os{ &buf };
+        os.exceptions(std::ios_base::badbit);  // a failing allocation is not swallowed
         return dump<_TargetCharTy>(os, v, options);
     }
 
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index af52c45..7ca3272 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -355,6 +355,7 @@ public:
 
         detail::fast_string_ostreambuf<target_char_type> buf{ out };
         std::basic_ostream<target_char_type>             oss{ &buf };
+        oss.exceptions(std::ios_base::badbit);  // a failing allocation is not swallowed
         while (true)
         {
             read_next();
-- 
2.43.0


From 057facb3692937800d8cfae98a36efab2b777080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 18/24] fix: a read error of a C file was taken for the end of
 the input

A document that was cut off by the error could be accepted.
---
 include/configor/details/stream.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index af2b828..708d02b 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -21,11 +21,12 @@
 #pragma once
 #include <algorithm>    // std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgetwc, std::snprintf
+#include <cstdio>       // std::FILE, std::fgetc, std::fgetwc, std::ferror, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
 #include <ostream>      // std::basic_ostream
+#include <stdexcept>    // std::runtime_error
 #include <streambuf>    // std::streambuf
 #include <string>       // std::basic_string
 #include <type_traits>  // std::char_traits
@@ -370,7 +371,9 @@ protected:
     {
         if (!has_last_char_)
         {
-            last_char_     = std::fgetc(file_);
+            last_char_ = std::fgetc(file_);
+            if (last_char_ == traits_type::eof() && std::ferror(file_))
+                throw std::runtime_error("error reading the file");
             has_last_char_ = true;
         }
         return last_char_;
@@ -410,7 +413,9 @@ protected:
     {
         if (!has_last_char_)
         {
-            last_char_     = std::fgetwc(file_);
+            last_char_ = std::fgetwc(file_);
+            if (last_char_ == traits_type::eof() && std::ferror(file_))
+                throw std::runtime_error("error reading the file");
             has_last_char_ = true;
         }
         return last_char_;
-- 
2.43.0


From b54a67f8718f0e25c6f2eec987549f56b5663f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 19/24] fix: a sink that fails was ignored by dump

The private stream kept the error to itself: the text was cut off, no
exception was thrown and the caller's stream stayed good.
---
 include/configor/details/serializer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index ef2ab37..b3c7c3a 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -62,6 +62,8 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+            if (!os_.good())
+                throw configor_serialization_error("the output could not be written");
         }
         catch (...)
         {
-- 
2.43.0


From f65f5d01bbab65153d8fa2b4b7e48e4b1138e698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 20/24] fix: a long run of comments exhausted the stack

skip_spaces and skip_comments called each other once per comment.
---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 7ca3272..26aa750 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -263,12 +263,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            if (current_ != '/')
+                break;
+
             skip_comments();
         }
     }
@@ -285,7 +287,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -322,7 +323,6 @@ public:
                     fail("unexpected eof while reading comment");
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 5f89a2e2b01e48a3db02ca2c13e95fdfc9d18628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 21/24] fix: a deeply nested document exhausted the stack

The parser recurses once per level; it now reports an error beyond 1000
levels instead of crashing.
---
 include/configor/details/parser.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index fea6f6d..8eaa65a 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -47,6 +47,7 @@ public:
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
+        , depth_(0)
     {
         is_.unsetf(std::ios_base::skipws);
         is_.imbue(std::locale(std::locale::classic(), is.getloc(), std::locale::collate | std::locale::ctype));
@@ -136,6 +137,7 @@ protected:
             break;
 
         case token_type::begin_array:
+            enter();
             c = value_constant::array;
             while (true)
             {
@@ -170,9 +172,11 @@ protected:
             }
             if (token != token_type::end_array)
                 fail(token, token_type::end_array);
+            --depth_;
             break;
 
         case token_type::begin_object:
+            enter();
             c = value_constant::object;
             while (true)
             {
@@ -198,6 +202,7 @@ protected:
             }
             if (token != token_type::end_object)
                 fail(token, token_type::end_object);
+            --depth_;
             break;
 
         default:
@@ -206,6 +211,13 @@ protected:
         }
     }
 
+    // every level of nesting takes space on the stack
+    void enter()
+    {
+        if (++depth_ > 1000)
+            throw configor_deserialization_error("arrays and objects are nested more than 1000 levels deep");
+    }
+
     void fail(token_type actual_token, const std::string& msg = "unexpected token")
     {
         detail::fast_ostringstream ss;
@@ -223,6 +235,7 @@ protected:
     error_handler*                       err_handler_;
     encoding::decoder<source_char_type>  source_decoder_;
     encoding::encoder<target_char_type>  target_encoder_;
+    std::size_t                          depth_;
 };
 
 //
-- 
2.43.0


From 97fb4f15c6fa4958d2164d773635deb9eeab82e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:16 +0000
Subject: [PATCH 22/24] fix: operator[] with the largest index on an empty
 array no longer reads out of bounds

---
 include/configor/details/value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 9f26087..34e2f20 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -730,6 +730,10 @@ public:
 
         if (index >= data().vector->size())
         {
+            if (index >= data().vector->max_size())
+            {
+                throw std::length_error("operator[] index too large");
+            }
             data().vector->insert(data().vector->end(), index - data().vector->size() + 1, basic_value());
         }
         return (*data().vector)[index];
-- 
2.43.0


From 475c92795b1434bd9950db329c9a586fc5cf8da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:40 +0000
Subject: [PATCH 23/24] fix: ordering deeply nested values took exponential
 time

Comparing containers with their own operator< compares each pair of elements
in both directions, so the time doubled at every level of nesting.
---
 include/configor/details/value.hpp | 46 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 34e2f20..1c51a9f 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -908,10 +908,10 @@ public:
             switch (lhs_type)
             {
             case value_constant::array:
-                return (*lhs.data().vector) < (*rhs.data().vector);
+                return compare(lhs, rhs) < 0;
 
             case value_constant::object:
-                return (*lhs.data().object) < (*rhs.data().object);
+                return compare(lhs, rhs) < 0;
 
             case value_constant::null:
                 return false;
@@ -1013,6 +1013,48 @@ public:
         return basic_value(lhs) >= rhs;
     }
 
+private:
+    // three-way comparison, 0 if neither is less than the other. It visits nested values once, while comparing
+    // the containers with their own operator< compares every element in both directions, at every level
+    static int compare(const basic_value& lhs, const basic_value& rhs)
+    {
+        if (lhs.is_array() && rhs.is_array())
+        {
+            auto       lhs_it  = lhs.data().vector->begin();
+            auto       rhs_it  = rhs.data().vector->begin();
+            const auto lhs_end = lhs.data().vector->end();
+            const auto rhs_end = rhs.data().vector->end();
+            for (; lhs_it != lhs_end && rhs_it != rhs_end; ++lhs_it, ++rhs_it)
+            {
+                const int result = compare(*lhs_it, *rhs_it);
+                if (result != 0)
+                    return result;
+            }
+            return (lhs_it != lhs_end) - (rhs_it != rhs_end);
+        }
+
+        if (lhs.is_object() && rhs.is_object())
+        {
+            auto       lhs_it  = lhs.data().object->begin();
+            auto       rhs_it  = rhs.data().object->begin();
+            const auto lhs_end = lhs.data().object->end();
+            const auto rhs_end = rhs.data().object->end();
+            for (; lhs_it != lhs_end && rhs_it != rhs_end; ++lhs_it, ++rhs_it)
+            {
+                if (lhs_it->first < rhs_it->first)
+                    return -1;
+                if (rhs_it->first < lhs_it->first)
+                    return 1;
+                const int result = compare(lhs_it->second, rhs_it->second);
+                if (result != 0)
+                    return result;
+            }
+            return (lhs_it != lhs_end) - (rhs_it != rhs_end);
+        }
+
+        return (rhs < lhs) - (lhs < rhs);
+    }
+
 private:
     value_constant::type type_;
     data_type            data_;
-- 
2.43.0


From d6045035f15bbeea673cca14619376531c6f0593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:15 +0000
Subject: [PATCH 24/24] fix: keep the value of a float literal whose digits
 alone leave the float range

---
 include/configor/json.hpp | 59 ++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 26aa750..d9b7504 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -148,6 +148,7 @@ public:
         , current_(0)
         , number_integer_(0)
         , number_float_(0)
+        , float_scale_(0)
     {
     }
 
@@ -498,6 +499,7 @@ public:
         is_negative_    = false;
         number_integer_ = 0;
         number_float_   = 0;
+        float_scale_    = 0;
 
         if (current_ == '-' || current_ == '+')
         {
@@ -551,7 +553,13 @@ public:
             }
 
             if (overflow)
-                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+            {
+                // the digits alone may be out of range, those beyond the precision are only counted
+                if (number_float_ < static_cast<float_type>(1e18))
+                    number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
+                else
+                    ++float_scale_;
+            }
         } while (is_digit(read_next()));
 
         if (!overflow)
@@ -561,7 +569,7 @@ public:
             return scan_float();
 
         // a number that does not fit the integer type is a float
-        return overflow ? token_type::value_float : token_type::value_integer;
+        return overflow ? scale_float(0) : token_type::value_integer;
     }
 
     token_type scan_float()
@@ -576,6 +584,17 @@ public:
         if (!is_digit(read_next()))
             fail("invalid float number, got", current_);
 
+        // the zeros in front of the first digit are only counted, a fraction may be out of range without its exponent
+        while (number_float_ == 0 && current_ == '0')
+        {
+            --float_scale_;
+            read_next();
+            if (current_ == 'e' || current_ == 'E')
+                return scan_exponent();
+            if (!is_digit(current_))
+                return scale_float(0);
+        }
+
         float_type fraction = static_cast<float_type>(0.1);
         number_float_ += static_cast<float_type>(static_cast<uint32_t>(current_ - '0')) * fraction;
 
@@ -593,13 +612,11 @@ public:
             else
                 break;
         }
-        return token_type::value_float;
+        return scale_float(0);
     }
 
     token_type scan_exponent()
     {
-        using float_type = typename value_type::float_type;
-
         CONFIGOR_ASSERT(current_ == 'e' || current_ == 'E');
 
         read_next();
@@ -608,35 +625,38 @@ public:
         if (!invalid)
             fail("invalid exponent number, got", current_);
 
-        float_type base = 10;
-        if (current_ == '+')
-        {
-            read_next();
-        }
-        else if (current_ == '-')
-        {
-            base = static_cast<float_type>(0.1);
+        const bool negative = (current_ == '-');
+        if (current_ == '+' || current_ == '-')
             read_next();
-        }
 
         if (!is_digit(current_))
             fail("invalid exponent number, got", current_);
 
-        uint32_t exponent = static_cast<uint32_t>(current_ - '0');
+        int64_t exponent = static_cast<int64_t>(current_ - '0');
         while (is_digit(read_next()))
         {
             // a larger exponent makes no difference
-            if (exponent < 100000)
-                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            if (exponent < INT64_C(10000000000000000))
+                exponent = (exponent * 10) + static_cast<int64_t>(current_ - '0');
         }
+        return scale_float(negative ? -exponent : exponent);
+    }
+
+    token_type scale_float(int64_t exponent)
+    {
+        using float_type = typename value_type::float_type;
+
+        exponent += float_scale_;
 
         // zero stays zero, whatever the exponent
         if (number_float_ == 0)
             return token_type::value_float;
 
+        float_type base = static_cast<float_type>(exponent < 0 ? 0.1 : 10);
+
         // scale step by step, the power alone may be out of range
-        for (; exponent; exponent >>= 1, base *= base)
-            if (exponent & 1)
+        for (uint64_t n = static_cast<uint64_t>(exponent < 0 ? -exponent : exponent); n; n >>= 1, base *= base)
+            if (n & 1)
                 number_float_ *= base;
 
         return token_type::value_float;
@@ -691,6 +711,7 @@ private:
     uint32_t                          current_;
     typename value_type::integer_type number_integer_;
     typename value_type::float_type   number_float_;
+    int64_t                           float_scale_;
 };
 
 //
-- 
2.43.0

