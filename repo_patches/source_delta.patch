From a9e007a76f1ebba2d51e317ff5fa4c4206989684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 01/25] fix: do not index the Base64 code table with a
 sign-extended symbol

---
 fly/coders/base64/base64_coder.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 9dad34d..12d6660 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -83,10 +83,10 @@ namespace {
     std::conditional_t<AllowPadding::value, std::size_t, bool>
     decode_chunk(std::ios::char_type const *encoded, std::ios::char_type *decoded)
     {
-        auto const code0 = s_base64_codes[static_cast<std::size_t>(encoded[0])];
-        auto const code1 = s_base64_codes[static_cast<std::size_t>(encoded[1])];
-        auto const code2 = s_base64_codes[static_cast<std::size_t>(encoded[2])];
-        auto const code3 = s_base64_codes[static_cast<std::size_t>(encoded[3])];
+        auto const code0 = s_base64_codes[static_cast<std::uint8_t>(encoded[0])];
+        auto const code1 = s_base64_codes[static_cast<std::uint8_t>(encoded[1])];
+        auto const code2 = s_base64_codes[static_cast<std::uint8_t>(encoded[2])];
+        auto const code3 = s_base64_codes[static_cast<std::uint8_t>(encoded[3])];
 
         // All 6 bits of the first code, first 2 bits of the second code.
         decoded[0] = static_cast<std::ios::char_type>((code0 << 2) | ((code1 >> 4) & 0x03));
-- 
2.43.0


From 9311afcd26de0da2a0aa4117f2d6856a35c3cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 02/25] fix: clear only the missing bytes of the last Base64
 chunk when encoding

---
 fly/coders/base64/base64_coder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index 12d6660..ec92a09 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -147,7 +147,7 @@ bool Base64Coder::encode_internal(std::istream &decoded, std::ostream &encoded)
         if (auto const remainder = bytes % s_decoded_chunk_size; remainder > 0)
         {
             auto const end = static_cast<std::size_t>(decoding - m_decoded.data()) + remainder;
-            ::memset(m_decoded.data() + end, '\0', end);
+            ::memset(m_decoded.data() + end, '\0', s_decoded_chunk_size - remainder);
 
             encode_chunk(decoding, m_encoded.data());
 
-- 
2.43.0


From 202a13978e37ae9def2da400fa3eb4f788c46295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 03/25] fix: allow padding in the last Base64 block when it
 exactly fills the buffer

---
 fly/coders/base64/base64_coder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fly/coders/base64/base64_coder.cpp b/fly/coders/base64/base64_coder.cpp
index ec92a09..d191717 100644
--- a/fly/coders/base64/base64_coder.cpp
+++ b/fly/coders/base64/base64_coder.cpp
@@ -177,6 +177,10 @@ bool Base64Coder::decode_internal(std::istream &encoded, std::ostream &decoded)
             break;
         }
 
+        // If the remainder of the stream fit exactly into the buffer, the stream is not yet aware
+        // that it has been exhausted, and this block would not be treated as the last block.
+        encoded.peek();
+
         std::ios::char_type const *encoding = m_encoded.data();
         std::ios::char_type *decoding = m_decoded.data();
 
-- 
2.43.0


From 0b3f0e7c256f89e7940126ccd0195467cce1c92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 04/25] fix: do not search replaced text again when replacing
 all substrings

---
 fly/types/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 2da7973..52393ba 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -573,7 +573,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, c
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), 1, replace);
-        index = target.find(search);
+        index = target.find(search, index + 1);
     }
 }
 
@@ -586,7 +586,7 @@ void BasicString<CharType>::replace_all(string_type &target, view_type search, v
     while (!search.empty() && (index != string_type::npos))
     {
         target.replace(index, search.size(), replace);
-        index = target.find(search);
+        index = target.find(search, index + replace.size());
     }
 }
 
-- 
2.43.0


From 20d06ac16d6ee7baefe8ef50e75503be9efb2bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 05/25] fix: match every wildcard segment once and anchor
 unwildcarded ends

---
 fly/types/string/string.hpp | 46 +++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index 52393ba..c4b5eb6 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -607,25 +607,47 @@ bool BasicString<CharType>::wildcard_match(view_type source, view_type search)
     std::vector<string_type> const segments = split(search, s_wildcard);
     size_type index = 0;
 
-    if (!segments.empty())
+    auto it = segments.begin();
+    auto end = segments.end();
+
+    // Without a leading wildcard, the first segment must begin the source string.
+    if (result && (it != end) && (search.front() != s_wildcard))
     {
-        if (result && (search.front() != s_wildcard))
+        result = source.starts_with(*it);
+        index = it->size();
+        ++it;
+
+        // Without any wildcard, there is nothing else which may be matched.
+        if (result && (it == end) && (search.back() != s_wildcard))
         {
-            result = source.starts_with(segments.front());
+            result = source.size() == index;
         }
-        if (result && (search.back() != s_wildcard))
+    }
+
+    // Without a trailing wildcard, the last segment must end what remains of the source string.
+    if (result && (it != end) && (search.back() != s_wildcard))
+    {
+        --end;
+        result = source.substr(index).ends_with(*end);
+
+        if (result)
         {
-            result = source.ends_with(segments.back());
+            source.remove_suffix(end->size());
         }
+    }
 
-        for (auto it = segments.begin(); result && (it != segments.end()); ++it)
-        {
-            index = source.find(*it, index);
+    // All other segments must appear in order, without overlapping.
+    for (; result && (it != end); ++it)
+    {
+        index = source.find(*it, index);
 
-            if (index == string_type::npos)
-            {
-                result = false;
-            }
+        if (index == string_type::npos)
+        {
+            result = false;
+        }
+        else
+        {
+            index += it->size();
         }
     }
 
-- 
2.43.0


From 0aa39710f9e176fc3b380fa5797fa246b9ac82d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:47 +0000
Subject: [PATCH 06/25] fix: do not classify characters with negative values as
 digits

---
 fly/types/string/detail/classifier.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/detail/classifier.hpp b/fly/types/string/detail/classifier.hpp
index 0f444fc..84adce0 100644
--- a/fly/types/string/detail/classifier.hpp
+++ b/fly/types/string/detail/classifier.hpp
@@ -169,6 +169,7 @@ private:
 
     static constexpr auto const s_null_terminator = FLY_CHR(CharType, '\0');
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
+    static constexpr auto const s_nine = FLY_CHR(CharType, '9');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_z = FLY_CHR(CharType, 'Z');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -260,7 +261,7 @@ constexpr CharType BasicClassifier<CharType>::to_lower(CharType ch)
 template <fly::StandardCharacter CharType>
 constexpr bool BasicClassifier<CharType>::is_digit(CharType ch)
 {
-    return (ch ^ s_zero) < 10;
+    return (ch >= s_zero) && (ch <= s_nine);
 }
 
 //==================================================================================================
-- 
2.43.0


From 378d6e58114042db347eb518cf7505e9fd2530f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 07/25] fix: write only the requested number of bits to a bit
 stream

---
 fly/types/bit_stream/bit_stream_writer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index 26abf10..d679ecc 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -100,6 +100,9 @@ private:
 template <detail::BitStreamInteger DataType>
 void BitStreamWriter::write_bits(DataType bits, byte_type size)
 {
+    // Only the least-significant bits are to be written.
+    bits &= bit_mask<DataType>(size);
+
     // If there are more bits to write than are available in the byte buffer, break the bits into
     // two chunks.
     if (size > m_position)
-- 
2.43.0


From 87166e62277abb52227fe6f45ae01f6a4a03828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 08/25] fix: do not shift by the size of the bit stream buffer
 when it is full

---
 fly/types/bit_stream/bit_stream_writer.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fly/types/bit_stream/bit_stream_writer.hpp b/fly/types/bit_stream/bit_stream_writer.hpp
index d679ecc..126e315 100644
--- a/fly/types/bit_stream/bit_stream_writer.hpp
+++ b/fly/types/bit_stream/bit_stream_writer.hpp
@@ -110,8 +110,13 @@ void BitStreamWriter::write_bits(DataType bits, byte_type size)
         byte_type const rshift = size - m_position;
 
         // Fill the remainder of the byte buffer with as many bits as are available, and flush it
-        // onto the stream.
-        m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        // onto the stream. If the byte buffer is already full, there is nothing to fill (and it would
+        // be undefined behavior to bit-shift by the size of the byte buffer).
+        if (m_position > 0)
+        {
+            m_buffer |= static_cast<buffer_type>(bits) >> rshift;
+        }
+
         flush_buffer();
 
         // Then update the input bits to retain only those bits that have not been written yet.
-- 
2.43.0


From a3c7b2737d8a9608655ecf43d0f46d84a28950a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 09/25] fix: do not shift by the size of the output when there
 are no bits to peek

---
 fly/types/bit_stream/bit_stream_reader.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fly/types/bit_stream/bit_stream_reader.hpp b/fly/types/bit_stream/bit_stream_reader.hpp
index 048961b..67da85f 100644
--- a/fly/types/bit_stream/bit_stream_reader.hpp
+++ b/fly/types/bit_stream/bit_stream_reader.hpp
@@ -217,6 +217,12 @@ byte_type BitStreamReader::peek_bits(DataType &bits, byte_type size)
         lshift -= size;
     }
 
+    // If there are no (more) bits to peek, the shifts below could exceed the size of the buffers.
+    if (size == 0)
+    {
+        return peeked;
+    }
+
     byte_type const rshift = m_position - peeked - size;
     DataType const buffer = static_cast<DataType>(m_buffer >> rshift);
 
-- 
2.43.0


From 33b73fa4c8c2bfab5e95efe0eb4c7fd38d19f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 10/25] fix: reject Huffman code lengths which exceed the
 prefix table

---
 fly/coders/huffman/huffman_decoder.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 998d32c..449eaeb 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -190,7 +190,17 @@ bool HuffmanDecoder::decode_codes(fly::BitStreamReader &encoded, length_type &ma
                 HuffmanCode const &last = m_huffman_codes[m_huffman_codes_size - 1_u16];
 
                 length_type const shift = length - last.m_length;
-                code = (last.m_code + 1) << shift;
+                std::uint32_t const next = (last.m_code + 1_u32) << shift;
+
+                // The code must be representable with its length. Otherwise, the code lengths do not
+                // satisfy the Kraft-McMillan inequality.
+                if ((next >> length) != 0)
+                {
+                    LOGW("Decoded too many codes of length {} bits", length);
+                    return false;
+                }
+
+                code = static_cast<code_type>(next);
             }
 
             if (m_huffman_codes_size == m_huffman_codes.size())
-- 
2.43.0


From eaee214e8304602852255dc6110a6d53646bafdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 11/25] fix: do not discard more bits than are available when
 decoding Huffman symbols

---
 fly/coders/huffman/huffman_decoder.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fly/coders/huffman/huffman_decoder.cpp b/fly/coders/huffman/huffman_decoder.cpp
index 449eaeb..82caab2 100644
--- a/fly/coders/huffman/huffman_decoder.cpp
+++ b/fly/coders/huffman/huffman_decoder.cpp
@@ -243,12 +243,19 @@ bool HuffmanDecoder::decode_symbols(
     std::ostream &decoded) const
 {
     std::uint32_t bytes = 0;
+    byte_type peeked;
     code_type prefix;
 
-    while ((bytes < chunk_size) && (encoded.peek_bits(prefix, max_code_length) != 0))
+    while ((bytes < chunk_size) && ((peeked = encoded.peek_bits(prefix, max_code_length)) != 0))
     {
         HuffmanCode const &code = m_prefix_table[prefix];
 
+        if (code.m_length > peeked)
+        {
+            LOGW("Could not decode symbol of length {} bits", code.m_length);
+            return false;
+        }
+
         m_chunk_buffer[bytes++] = code.m_symbol;
         encoded.discard_bits(code.m_length);
     }
-- 
2.43.0


From 9da269867eefec781a75067c7fce9528aa0727e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 12/25] fix: fail to encode when the Huffman coder limits
 cannot represent the input

---
 fly/coders/huffman/huffman_encoder.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fly/coders/huffman/huffman_encoder.cpp b/fly/coders/huffman/huffman_encoder.cpp
index 7b78b07..bf22a52 100644
--- a/fly/coders/huffman/huffman_encoder.cpp
+++ b/fly/coders/huffman/huffman_encoder.cpp
@@ -36,6 +36,14 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         LOGW("Maximum Huffman code length {} is too large for code_type", m_max_code_length);
         return false;
     }
+    else if ((m_max_code_length == 0) || (m_chunk_size == 0))
+    {
+        LOGW(
+            "Maximum Huffman code length {} and chunk size {} must not be zero",
+            m_max_code_length,
+            m_chunk_size);
+        return false;
+    }
 
     encode_header(encoded);
 
@@ -47,6 +55,15 @@ bool HuffmanEncoder::encode_binary(std::istream &decoded, fly::BitStreamWriter &
         create_tree(chunk_size);
         create_codes();
 
+        if (m_huffman_codes_size > (1_u16 << m_max_code_length))
+        {
+            LOGW(
+                "Maximum Huffman code length {} is too small for {} symbols",
+                m_max_code_length,
+                m_huffman_codes_size);
+            return false;
+        }
+
         encode_codes(encoded);
         encode_symbols(chunk_size, encoded);
     }
-- 
2.43.0


From 9e075d266a476956b24ed3366628e7447f27df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 13/25] fix: do not wrap around when peeking past the end of a
 lexer

---
 fly/types/string/lexer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index f99464d..d343303 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -189,7 +189,7 @@ constexpr void BasicLexer<CharType>::set_position(std::size_t position)
 template <StandardCharacter CharType>
 constexpr std::optional<CharType> BasicLexer<CharType>::peek(std::size_t offset)
 {
-    if ((m_index + offset) >= m_size)
+    if ((m_index >= m_size) || (offset >= (m_size - m_index)))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 23b5d2e44c9dda65a3f858858b59440279e107ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 14/25] fix: do not provide truncated numbers when a lexed
 number overflows

---
 fly/types/string/lexer.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/fly/types/string/lexer.hpp b/fly/types/string/lexer.hpp
index d343303..3b7c74b 100644
--- a/fly/types/string/lexer.hpp
+++ b/fly/types/string/lexer.hpp
@@ -6,6 +6,7 @@
 #include "fly/types/string/literals.hpp"
 
 #include <cstdint>
+#include <limits>
 #include <optional>
 
 namespace fly {
@@ -107,7 +108,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a decimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed decimal number. Otherwise, an uninitialized value.
+     * @return If consumed and representable, the parsed decimal number. Otherwise, an uninitialized
+     *         value.
      */
     constexpr std::optional<std::uintmax_t> consume_number();
 
@@ -116,7 +118,8 @@ public:
      * advance the current position to the next character until a character is either not available
      * or not a hexadecimal digit. Convert the retrieved characters to an unsigned number.
      *
-     * @return If consumed, the parsed hexadecimal number. Otherwise, an uninitialized value.
+     * @return If consumed and representable, the parsed hexadecimal number. Otherwise, an
+     *         uninitialized value.
      */
     constexpr std::optional<std::uintmax_t> consume_hex_number();
 
@@ -135,6 +138,8 @@ private:
     template <typename Condition>
     constexpr std::optional<CharType> consume_if(Condition condition);
 
+    static constexpr auto const s_max_number = std::numeric_limits<std::uintmax_t>::max();
+
     static constexpr auto const s_zero = FLY_CHR(CharType, '0');
     static constexpr auto const s_upper_a = FLY_CHR(CharType, 'A');
     static constexpr auto const s_upper_f = FLY_CHR(CharType, 'F');
@@ -227,17 +232,23 @@ template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_number()
 {
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_digit))
     {
         parsed_number = true;
 
+        auto const digit = static_cast<std::uintmax_t>(ch.value() - s_zero);
+
+        // Continue to consume digits after overflowing, but do not provide a truncated number.
+        overflowed |= number > ((s_max_number - digit) / 10);
+
         number *= 10;
-        number += static_cast<std::uintmax_t>(ch.value() - s_zero);
+        number += digit;
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
@@ -245,11 +256,15 @@ template <StandardCharacter CharType>
 constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number()
 {
     bool parsed_number = false;
+    bool overflowed = false;
     std::uintmax_t number = 0;
 
     while (auto ch = consume_if(classifier::is_x_digit))
     {
         parsed_number = true;
+
+        // Continue to consume digits after overflowing, but do not provide a truncated number.
+        overflowed |= number > (s_max_number / 16);
         number *= 16;
 
         if ((ch.value() >= s_upper_a) && (ch.value() <= s_upper_f))
@@ -266,7 +281,7 @@ constexpr std::optional<std::uintmax_t> BasicLexer<CharType>::consume_hex_number
         }
     }
 
-    return parsed_number ? std::optional<std::uintmax_t>(number) : std::nullopt;
+    return (parsed_number && !overflowed) ? std::optional<std::uintmax_t>(number) : std::nullopt;
 }
 
 //==================================================================================================
-- 
2.43.0


From 14a34a10c4e26e6949fa5a9b2594ec63d80a7283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 15/25] fix: reject stray separators and void short forms in
 IPv6 addresses

---
 fly/net/ipv6_address.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fly/net/ipv6_address.hpp b/fly/net/ipv6_address.hpp
index 62d97c6..ff97d58 100644
--- a/fly/net/ipv6_address.hpp
+++ b/fly/net/ipv6_address.hpp
@@ -162,6 +162,7 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 
     std::optional<std::size_t> index_after_short_form;
     std::size_t index = 0;
+    bool after_segment = false;
 
     do
     {
@@ -176,11 +177,19 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
 
                 index_after_short_form = index;
             }
+            else if (!after_segment || !lexer.peek())
+            {
+                // A single separator must be enclosed by two segments.
+                return std::nullopt;
+            }
+
+            after_segment = false;
         }
         else if (auto const segment = lexer.consume_hex_number(); segment && (*segment <= s_max16))
         {
             parts[index++] = static_cast<address_type::value_type>((*segment >> 8) & 0xff);
             parts[index++] = static_cast<address_type::value_type>(*segment & 0xff);
+            after_segment = true;
         }
         else
         {
@@ -188,7 +197,7 @@ constexpr std::optional<IPv6Address> IPv6Address::from_string(std::string_view a
         }
     } while (lexer.peek() && (index < s_address_size));
 
-    if (lexer.peek() || ((index != s_address_size) && !index_after_short_form))
+    if (lexer.peek() || ((index == s_address_size) == index_after_short_form.has_value()))
     {
         return std::nullopt;
     }
-- 
2.43.0


From 95cb4c3e983dd0f250b5b1c253434f92222b7254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 16/25] fix: compare signed and unsigned JSON integers by value

---
 fly/types/json/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 103bf46..94728c8 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -747,7 +747,7 @@ bool operator==(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 == static_cast<S1>(value2);
+            return std::cmp_equal(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
@@ -789,7 +789,7 @@ bool operator<(Json::const_reference json1, Json::const_reference json2)
         }
         else if constexpr (JsonNumber<S1> && JsonNumber<S2>)
         {
-            return value1 < static_cast<S1>(value2);
+            return std::cmp_less(value1, value2);
         }
         else if constexpr (fly::SameAs<S1, S2>)
         {
-- 
2.43.0


From e89d25b8d2d1cd791f325a12d28a862043ea9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:19 +0000
Subject: [PATCH 17/25] fix: treat a lone quote in an INI value as imbalanced

---
 fly/parser/ini_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/parser/ini_parser.cpp b/fly/parser/ini_parser.cpp
index a7b4c5a..65ffc96 100644
--- a/fly/parser/ini_parser.cpp
+++ b/fly/parser/ini_parser.cpp
@@ -165,7 +165,7 @@ IniParser::TrimResult IniParser::trim_value(std::string &str, char start, char e
     bool starts_with_char = str.starts_with(start);
     bool ends_with_char = str.ends_with(end);
 
-    if (starts_with_char && ends_with_char)
+    if (starts_with_char && ends_with_char && (str.size() > 1))
     {
         str = str.substr(1, str.size() - 2);
         return TrimResult::Trimmed;
-- 
2.43.0


From 7862f6b323431d35a706865a5bf627152d14cb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:36 +0000
Subject: [PATCH 18/25] fix: refuse integer literals which exceed the largest
 integer type

---
 fly/types/numeric/detail/literal_parser.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fly/types/numeric/detail/literal_parser.hpp b/fly/types/numeric/detail/literal_parser.hpp
index a349ea1..0f59215 100644
--- a/fly/types/numeric/detail/literal_parser.hpp
+++ b/fly/types/numeric/detail/literal_parser.hpp
@@ -2,6 +2,7 @@
 
 #include <cstdint>
 #include <limits>
+#include <stdexcept>
 #include <type_traits>
 
 namespace fly::detail {
@@ -50,8 +51,15 @@ struct Aggregator<T, Base, Digit, Literals...>
 {
     static constexpr T aggregate(T aggregated)
     {
-        return Aggregator<T, Base, Literals...>::aggregate(
-            aggregated * Base + parse_and_validate_literal());
+        const T digit = parse_and_validate_literal();
+
+        // Unsigned overflow wraps silently; throwing makes the literal an ill-formed constant instead.
+        if (aggregated > (std::numeric_limits<T>::max() - digit) / Base)
+        {
+            throw std::out_of_range("Integer literal exceeds the largest integer type");
+        }
+
+        return Aggregator<T, Base, Literals...>::aggregate(aggregated * Base + digit);
     }
 
 private:
-- 
2.43.0


From 99148f3c9a816f34647b16e3fb4e4200a8b87e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:37 +0000
Subject: [PATCH 19/25] fix: own the tasks which are posted as named callables

---
 fly/task/task_runner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/task/task_runner.hpp b/fly/task/task_runner.hpp
index 7cb7c17..dc81e59 100644
--- a/fly/task/task_runner.hpp
+++ b/fly/task/task_runner.hpp
@@ -351,7 +351,7 @@ private:
     template <typename TaskType>
     struct TaskHolder
     {
-        TaskType m_task;
+        std::decay_t<TaskType> m_task;
     };
 
     /**
-- 
2.43.0


From ebc47803611ed7810b2cfe5541d2493f37e0110f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:27 +0000
Subject: [PATCH 20/25] fix: join strings with any separator character

---
 fly/types/string/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fly/types/string/string.hpp b/fly/types/string/string.hpp
index c4b5eb6..87c662c 100644
--- a/fly/types/string/string.hpp
+++ b/fly/types/string/string.hpp
@@ -816,7 +816,9 @@ inline void BasicString<CharType>::join_internal(
     T &&value,
     Args &&...args)
 {
-    result += fly::string::format(FLY_ARR(char_type, "{}{}"), std::forward<T>(value), separator);
+    result += fly::string::format(FLY_ARR(char_type, "{}"), std::forward<T>(value));
+    result += separator;
+
     join_internal(result, separator, std::forward<Args>(args)...);
 }
 
-- 
2.43.0


From 5e876495bbfeb12158197e848d87f13edd6b34c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 21/25] fix: do not treat vertical tabs as JSON whitespace

---
 fly/parser/json_parser.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index eb645d1..8f6224f 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -468,7 +468,6 @@ bool JsonParser::is_whitespace(Token token) const
     {
         case Token::Tab:
         case Token::NewLine:
-        case Token::VerticalTab:
         case Token::CarriageReturn:
         case Token::Space:
             return true;
-- 
2.43.0


From 09a66a322926ea1dee1fa16adf758a895d2af17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 22/25] fix: allow comments between JSON object keys and colons

---
 fly/parser/json_parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 8f6224f..83c2c19 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -112,7 +112,8 @@ std::optional<fly::Json> JsonParser::parse_object()
 
         std::optional<fly::json_string_type> key = parse_quoted_string();
 
-        if (!key || (consume_token(Token::Colon) == ParseState::Invalid))
+        if (!key || (consume_whitespace_and_comments() == ParseState::Invalid) ||
+            (consume_token(Token::Colon) == ParseState::Invalid))
         {
             return std::nullopt;
         }
-- 
2.43.0


From d260cafd910650af1a38351348b99c816f18d751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:10 +0000
Subject: [PATCH 23/25] fix: leave null JSON values unchanged by invalid
 accesses

---
 fly/types/json/json.cpp | 4 ++--
 fly/types/json/json.hpp | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fly/types/json/json.cpp b/fly/types/json/json.cpp
index 94728c8..2226ee7 100644
--- a/fly/types/json/json.cpp
+++ b/fly/types/json/json.cpp
@@ -713,8 +713,8 @@ void Json::swap(reference json)
 //==================================================================================================
 void Json::merge(fly::Json &other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(other_storage);
 }
@@ -722,8 +722,8 @@ void Json::merge(fly::Json &other)
 //==================================================================================================
 void Json::merge(fly::Json &&other)
 {
-    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
     auto &other_storage = other.get<json_object_type>("Other JSON type invalid for merging");
+    auto &this_storage = get_or_promote<json_object_type>("JSON type invalid for merging");
 
     this_storage.merge(std::move(other_storage));
 }
diff --git a/fly/types/json/json.hpp b/fly/types/json/json.hpp
index 82e63de..7f31451 100644
--- a/fly/types/json/json.hpp
+++ b/fly/types/json/json.hpp
@@ -1810,8 +1810,10 @@ Json::const_reference Json::at(T key) const
 template <JsonStringLike T>
 Json::reference Json::operator[](T key)
 {
+    auto string = convert_to_string(std::move(key));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for operator[key]");
-    return storage[convert_to_string(std::move(key))];
+    return storage[std::move(string)];
 }
 
 //==================================================================================================
@@ -1854,8 +1856,10 @@ std::pair<Json::iterator, bool> Json::insert_or_assign(Key key, Json &&value)
 template <JsonStringLike Key, typename Value>
 std::pair<Json::iterator, bool> Json::emplace(Key key, Value &&value)
 {
+    auto string = convert_to_string(std::move(key));
+
     auto &storage = get_or_promote<json_object_type>("JSON type invalid for object emplacement");
-    auto result = storage.emplace(convert_to_string(std::move(key)), std::forward<Value>(value));
+    auto result = storage.emplace(std::move(string), std::forward<Value>(value));
 
     auto it = end();
     it.m_iterator = result.first;
-- 
2.43.0


From f76c8884453595ec5057a79f0bc0ad23e5c7622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:18 +0000
Subject: [PATCH 24/25] fix: refuse malformed comments behind commas in JSON

---
 fly/parser/json_parser.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/fly/parser/json_parser.cpp b/fly/parser/json_parser.cpp
index 83c2c19..0e66234 100644
--- a/fly/parser/json_parser.cpp
+++ b/fly/parser/json_parser.cpp
@@ -288,18 +288,16 @@ JsonParser::ParseState JsonParser::consume_comma(Token end_token)
     {
         return ParseState::Invalid;
     }
-    else if (state_for_object_or_array(end_token) == ParseState::StopParsing)
-    {
-        if (m_allow_trailing_comma)
-        {
-            return ParseState::StopParsing;
-        }
 
+    ParseState const state = state_for_object_or_array(end_token);
+
+    if ((state == ParseState::StopParsing) && !m_allow_trailing_comma)
+    {
         JLOG("Found trailing comma, but Features::AllowTrailingComma is not enabled");
         return ParseState::Invalid;
     }
 
-    return ParseState::KeepParsing;
+    return state;
 }
 
 //==================================================================================================
-- 
2.43.0


From 2953c2325e2b1f24f1aca5cbe3b281941ce45c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:19 +0000
Subject: [PATCH 25/25] fix: refuse the most negative offset of JSON iterators

---
 fly/types/json/detail/json_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fly/types/json/detail/json_iterator.hpp b/fly/types/json/detail/json_iterator.hpp
index 73aca05..94354f9 100644
--- a/fly/types/json/detail/json_iterator.hpp
+++ b/fly/types/json/detail/json_iterator.hpp
@@ -867,7 +867,7 @@ void JsonIterator<JsonType>::validate_offset(T const &it, difference_type offset
         distance = std::distance(std::get<T>(begin.m_iterator), it);
     }
 
-    if (std::abs(offset) > distance)
+    if ((offset > distance) || (offset < -distance))
     {
         throw OutOfRangeJsonException(*m_json, offset);
     }
-- 
2.43.0

