From 95dc9230ba467ce5147332e920ff1bac5e6e135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 01/53] fix: keep an escape that a buffer boundary separates
 from its character

When a buffer ended in the backslash of an escape sequence and the next
buffer was at least one SIMD block long, the vectorised string scan jumped
to the first quote or backslash and applied the pending escape to that
character instead of to the first one of the buffer.
---
 include/json_struct/json_struct.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 9bcf75c..fc79e4f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1928,10 +1928,12 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
   // again from cursor_index, which must re-derive escape state from the ORIGINAL
   // value -- re-running the state machine from the SIMD end-state would flip escape
   // parity for a string crossing a streaming buffer boundary. Snapshot and restore.
+  // The SIMD scan skips ahead to the first quote or backslash and so cannot honour an
+  // escape carried over from the previous buffer; leave that case to the scalar scan.
   const bool escaped_before_simd = is_escaped;
 #endif
 #ifdef JSON_STRUCT_HAS_AVX2
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 32))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 32))
   {
     size_t consumed =
       Internal::findStringEndAVX2(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1942,7 +1944,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_NEON)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 16))
   {
     size_t consumed =
       Internal::findStringEndNEON(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
@@ -1953,7 +1955,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStringEnd(const DataRef &json_data
     }
   }
 #elif defined(JSON_STRUCT_HAS_SSE2)
-  if (JSON_STRUCT_LIKELY(json_data.size - cursor_index >= 16))
+  if (JSON_STRUCT_LIKELY(!is_escaped && json_data.size - cursor_index >= 16))
   {
     size_t consumed =
       Internal::findStringEndSIMD(json_data.data + cursor_index, json_data.size - cursor_index, is_escaped);
-- 
2.43.0


From c8ddb4a119e478dad4f356e0b09ded8991c9a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 02/53] fix: keep a completed name or array value when the
 buffer ends behind it

The name (or anonymous value) found so far lived in a local variable that
was dropped when the buffer ended before its delimiter or data was seen, so
the token came back with an empty name or value.
---
 include/json_struct/json_struct.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index fc79e4f..170bd9f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2633,6 +2633,13 @@ inline size_t strnlen(const char *data, size_t size)
 inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const DataRef &json_data)
 {
   Token tmp_token;
+  if (intermediate_token.active && token_state != InTokenState::FindingName)
+  {
+    // The name (or anonymous value) was completed in an earlier buffer
+    tmp_token.name = DataRef(intermediate_token.name);
+    tmp_token.name_type =
+      Internal::getType(intermediate_token.name_type, intermediate_token.name.data(), intermediate_token.name.size());
+  }
   while (cursor_index < json_data.size)
   {
     size_t diff = 0;
@@ -2806,6 +2813,14 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       break;
     }
   }
+  if ((token_state == InTokenState::FindingDelimiter || token_state == InTokenState::FindingData) &&
+      !intermediate_token.active)
+  {
+    // The buffer ended right behind the name or its delimiter
+    intermediate_token.name.append(tmp_token.name.data, tmp_token.name.size);
+    intermediate_token.name_type = tmp_token.name_type;
+    intermediate_token.active = true;
+  }
   return Error::NeedMoreData;
 }
 
-- 
2.43.0


From 95864f64e7f418a0d7739b10892ddd0e32b8a4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:26 +0000
Subject: [PATCH 03/53] fix: continue a comment that is split across buffers

A // comment that a buffer boundary fell into, or between its two slashes,
was forgotten, and the rest of the comment was read as JSON.
---
 include/json_struct/json_struct.h | 80 +++++++++++++++++++++++++++++--
 1 file changed, 76 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 170bd9f..e7b7f65 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1404,6 +1404,13 @@ private:
     FoundEnd
   };
 
+  enum class InCommentState : unsigned char
+  {
+    NoComment,
+    FoundFirstSlash,
+    FindingEnd
+  };
+
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1413,6 +1420,7 @@ private:
   Error findDelimiter(const DataRef &json_data, size_t *chars_ahead);
   Error findTokenEnd(const DataRef &json_data, size_t *chars_ahead);
   Error skipComment(const DataRef &json_data, size_t *chars_ahead);
+  Error continueComment(const DataRef &json_data, Error single_slash_error);
   void requestMoreData();
   void releaseFirstDataRef();
   Error populateFromDataRef(DataRef &data, Type &type, const DataRef &json_data);
@@ -1421,6 +1429,7 @@ private:
 
   InTokenState token_state = InTokenState::FindingName;
   InPropertyState property_state = InPropertyState::NoStartFound;
+  InCommentState comment_state = InCommentState::NoComment;
   Type property_type = Type::Error;
   bool is_escaped;
   bool allow_ascii_properties : 1;
@@ -1910,6 +1919,7 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
+  comment_state = InCommentState::NoComment;
   resetForNewValue();
 }
 
@@ -2135,6 +2145,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
 
   assert(property_state == InPropertyState::NoStartFound);
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
+  {
+    Error comment_error = continueComment(json_data, Error::NoError);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t current_pos = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2200,8 +2217,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
     const char c = json_data.data[current_pos];
     unsigned char lc = Internal::lookup()[(unsigned char)c];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 < json_data.size &&
-                             json_data.data[current_pos + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && current_pos + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundFirstSlash;
+      return Error::NeedMoreData;
+    }
+
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[current_pos + 1] == '/'))
     {
       cursor_index = current_pos + 2;
       size_t comment_skip;
@@ -2270,6 +2292,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   if (JSON_STRUCT_UNLIKELY(container_stack.empty()))
     return Error::IllegalPropertyType;
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
+  {
+    Error comment_error = continueComment(json_data, Error::ExpectedDelimiter);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t end = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2299,7 +2328,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findDelimiter(const DataRef &json_data
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundFirstSlash;
+      return Error::NeedMoreData;
+    }
+
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
       size_t comment_skip;
@@ -2352,6 +2387,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   if (JSON_STRUCT_UNLIKELY(container_stack.empty()))
     return Error::NoError;
 
+  if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
+  {
+    Error comment_error = continueComment(json_data, Error::InvalidToken);
+    if (comment_error != Error::NoError)
+      return comment_error;
+  }
+
   // Skip whitespace using SIMD if available
   size_t end = cursor_index;
 #ifdef JSON_STRUCT_HAS_AVX2
@@ -2381,7 +2423,13 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findTokenEnd(const DataRef &json_data,
   {
     const char c = json_data.data[end];
 
-    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 < json_data.size && json_data.data[end + 1] == '/'))
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && end + 1 == json_data.size))
+    {
+      comment_state = InCommentState::FoundFirstSlash;
+      return Error::NeedMoreData;
+    }
+
+    if (JSON_STRUCT_UNLIKELY(allow_comments && c == '/' && json_data.data[end + 1] == '/'))
     {
       cursor_index = end + 2;
       size_t comment_skip;
@@ -2470,9 +2518,33 @@ inline Error Tokenizer::skipComment(const DataRef &json_data, size_t *chars_ahea
     }
     return Error::NoError;
   }
+  comment_state = InCommentState::FindingEnd;
   return Error::NeedMoreData;
 }
 
+// Picks up a comment, or the first slash of one, that the previous buffer ended in.
+inline Error Tokenizer::continueComment(const DataRef &json_data, Error single_slash_error)
+{
+  if (comment_state == InCommentState::FoundFirstSlash)
+  {
+    if (json_data.data[cursor_index] != '/')
+    {
+      comment_state = InCommentState::NoComment;
+      return single_slash_error;
+    }
+    cursor_index++;
+  }
+
+  size_t comment_skip;
+  Error error = skipComment(json_data, &comment_skip);
+  if (error != Error::NoError)
+    return error;
+
+  cursor_index += comment_skip;
+  comment_state = InCommentState::NoComment;
+  return Error::NoError;
+}
+
 inline void Tokenizer::requestMoreData()
 {
   if (need_more_data_callback)
-- 
2.43.0


From f4976341ff5f6fd4e234536ab70ddcb2de924b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:45 +0000
Subject: [PATCH 04/53] fix: set the size of an ArrayVariableContent that is
 filled completely

---
 include/json_struct/json_struct.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index e7b7f65..d909b10 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10201,19 +10201,18 @@ struct TypeHandler<ArrayVariableContent<T, COUNT>>
       return JS::Error::ExpectedArrayStart;
 
     context.nextToken();
+    to_type.size = 0;
     for (size_t i = 0; i < COUNT; i++)
     {
       if (context.error != JS::Error::NoError)
         return context.error;
       if (context.token.value_type == Type::ArrayEnd)
-      {
-        to_type.size = i;
         break;
-      }
       context.error = TypeHandler<T>::to(to_type.data[i], context);
       if (context.error != JS::Error::NoError)
         return context.error;
 
+      to_type.size = i + 1;
       context.nextToken();
     }
 
-- 
2.43.0


From 704d817307fc0a80d7d39c7f24f87be4c239b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 05/53] fix: replace the text of a raw JsonObject, JsonArray or
 JsonObjectOrArray on a new parse instead of appending

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d909b10..bdce5ab 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9346,6 +9346,7 @@ struct TypeHandler<JsonArray>
     if (context.token.value_type != JS::Type::ArrayStart)
       return Error::ExpectedArrayStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9425,6 +9426,7 @@ struct TypeHandler<JsonObject>
     if (context.token.value_type != JS::Type::ObjectStart)
       return Error::ExpectedObjectStart;
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
@@ -9531,6 +9533,7 @@ struct TypeHandler<JsonObjectOrArray>
       return Error::ExpectedObjectStart;
     }
 
+    to_type.data.clear();
     context.tokenizer.copyFromValue(context.token, to_type.data);
 
     size_t level = 1;
-- 
2.43.0


From 6f01beca9d4fa2b6c39d25780a9110e6f8c37511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:10 +0000
Subject: [PATCH 06/53] fix: end the raw copy of a JsonArray when the array
 turns out to be malformed

---
 include/json_struct/json_struct.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index bdce5ab..221de0e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9360,8 +9360,7 @@ struct TypeHandler<JsonArray>
         level--;
     }
 
-    if (error == JS::Error::NoError)
-      context.tokenizer.copyIncludingValue(context.token, to_type.data);
+    context.tokenizer.copyIncludingValue(context.token, to_type.data);
 
     return error;
   }
-- 
2.43.0


From 09faa4b88a0ccc38777f0304ce3d035f1537013c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 07/53] fix: replace the contents of a OneOrMany when a single
 value is parsed into it

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 221de0e..4f7bee6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9746,6 +9746,7 @@ public:
     }
     else
     {
+      to_type.data.clear();
       to_type.data.push_back(T());
       context.error = TypeHandler<T>::to(to_type.data.back(), context);
     }
-- 
2.43.0


From 881ce38c4646b1678bf27abdab130e38836e636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:13 +0000
Subject: [PATCH 08/53] fix: do not count leading zeros and dropped digits of a
 decimal number as significant digits

A fraction with leading zeros lost its last digits, one with 19 of them divided
by zero, and an integer of more than 20 digits parsed as a double lost its
magnitude.
---
 include/json_struct/json_struct.h | 38 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 4f7bee6..1ef1ce6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -7992,7 +7992,8 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 {
   const char *current;
   set_end_ptr<T> setendptr(parsedString, current);
-  int desimal_position = -1;
+  bool found_decimal_point = false;
+  int decimal_exponent = 0;
   bool increase_significand = true;
 
   parsedString.negative = false;
@@ -8021,12 +8022,19 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
 
     if (c == '.')
     {
-      if (desimal_position >= 0)
+      if (found_decimal_point)
         return parse_string_error::multiple_commas;
-      desimal_position = parsedString.significand_digit_count;
+      found_decimal_point = true;
+    }
+    else if (c == '0' && parsedString.significand == T(0))
+    {
+      // leading zeros only move the decimal point
+      if (found_decimal_point)
+        decimal_exponent--;
     }
     else
     {
+      bool digit_used = false;
       bool keep_digit = NoDigitCount;
       if (!keep_digit)
         keep_digit = parsedString.significand_digit_count < 19;
@@ -8034,6 +8042,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
       {
         parsedString.significand = parsedString.significand * T(10) + T(int(c) - '0');
         parsedString.significand_digit_count++;
+        digit_used = true;
       }
       else if (increase_significand && parsedString.significand_digit_count < 20)
       {
@@ -8047,17 +8056,19 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
         {
           parsedString.significand = parsedString.significand * uint64_t(10) + digit;
           parsedString.significand_digit_count++;
+          digit_used = true;
         }
       }
+      if (digit_used && found_decimal_point)
+        decimal_exponent--;
+      else if (!digit_used && !found_decimal_point)
+        decimal_exponent++;
     }
     current++;
   }
   if (current == number_end || (*current != 'e' && *current != 'E'))
   {
-    if (desimal_position >= 0)
-      parsedString.exp = desimal_position - parsedString.significand_digit_count;
-    else
-      parsedString.exp = 0;
+    parsedString.exp = decimal_exponent;
     return parse_string_error::ok;
   }
   current++;
@@ -8098,10 +8109,7 @@ inline parse_string_error parseNumber(const char *number, size_t size, parsed_st
   if (exponent_nagative)
     exponent = -exponent;
 
-  if (desimal_position >= 0)
-    parsedString.exp = desimal_position - parsedString.significand_digit_count + exponent;
-  else
-    parsedString.exp = exponent;
+  parsedString.exp = decimal_exponent + exponent;
   return parse_string_error::ok;
 }
 
@@ -8133,6 +8141,10 @@ inline uint64_t getPow10(uint32_t pow)
 template <typename T, typename SignificandType>
 inline T convertToNumber(const parsed_string<SignificandType> &parsed)
 {
+  if (parsed.significand == 0)
+  {
+    return make_zero<T>(parsed.negative);
+  }
   int base10exponent = parsed.exp + parsed.significand_digit_count - 1;
   if (base10exponent > float_info<T>::max_base10_exponent())
   {
@@ -8142,10 +8154,6 @@ inline T convertToNumber(const parsed_string<SignificandType> &parsed)
   {
     return make_zero<T>(parsed.negative);
   }
-  if (parsed.significand == 0)
-  {
-    return make_zero<T>(parsed.negative);
-  }
 
 #if 1
   if (parsed.significand < ((uint64_t(1) << 53)) && iabs<int>(parsed.exp) < count_chars((uint64_t(1) << 53)))
-- 
2.43.0


From 48acd3a22f15b55bf84ff003347d0c80f613f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:13 +0000
Subject: [PATCH 09/53] fix: parse zero with a positive exponent as the integer
 zero

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1ef1ce6..25609dc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -8332,7 +8332,7 @@ inline T convert_to_integer(const parsed_string<SignificandType> &parsed)
       exp++;
     }
   }
-  else if (exp > 0)
+  else if (exp > 0 && significand != 0)
   {
     int chars_in_sig = count_chars(significand);
     if (exp > ft::StaticLog10<T, std::numeric_limits<T>::max(), 0, 0, true>::get() - chars_in_sig)
-- 
2.43.0


From b23096ed6bec7121cc940a0af9d70ae99b8d4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:10 +0000
Subject: [PATCH 10/53] fix: reject a time point that is out of range instead
 of overflowing

---
 include/json_struct/json_struct.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 25609dc..34edba7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9070,11 +9070,11 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       return err;
 
     if (t <= 1e11) // Seconds => 10 digits, normally
-      to_type = T{std::chrono::seconds{t}};
+      return assign<std::chrono::seconds>(to_type, t);
     else if (t <= 1e14) // Milliseconds => 13 digits, normally
-      to_type = T{std::chrono::milliseconds{t}};
+      return assign<std::chrono::milliseconds>(to_type, t);
     else if (t <= 1e17) // Microseconds
-      to_type = T{std::chrono::microseconds{t}};
+      return assign<std::chrono::microseconds>(to_type, t);
     else if (t <= 1e20) // Nanoseconds
       if constexpr (std::is_same_v<std::chrono::high_resolution_clock::time_point, T>)
         to_type = T{std::chrono::nanoseconds{t}};
@@ -9097,6 +9097,20 @@ struct TypeHandler<T, typename std::enable_if_t<Internal::is_specialization<T, s
       t /= 1000;
     TypeHandler<uint64_t>::from(t, token, serializer);
   }
+
+private:
+  template <typename Duration>
+  static inline Error assign(T &to_type, uint64_t t)
+  {
+    if constexpr (!std::chrono::treat_as_floating_point_v<typename T::rep>)
+    {
+      // The value has to be representable in the resolution of the time point
+      if (t > uint64_t(std::chrono::duration_cast<Duration>(T::duration::max()).count()))
+        return JS::Error::IllegalDataValue;
+    }
+    to_type = T{Duration{t}};
+    return JS::Error::NoError;
+  }
 };
 #endif
 
-- 
2.43.0


From 7c2e9fa29e9133812a062395fb15b1766554aeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:10 +0000
Subject: [PATCH 11/53] fix: reject a number that is not a value of the enum

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 34edba7..99bd638 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5904,6 +5904,8 @@ struct EnumHandler
       auto err = TypeHandler<enum_int_t>::to(tmp, context);
       if (err != Error::NoError)
         return err;
+      if (tmp < 0 || size_t(tmp) >= F::strings().size())
+        return Error::IllegalDataValue;
       to_type = static_cast<T>(tmp);
       return Error::NoError;
     }
-- 
2.43.0


From a04870c23ee8099fd3d46b5a5bc42d4127b45f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:10 +0000
Subject: [PATCH 12/53] fix: stop parsing a map when the input ends or turns
 malformed inside it

The loop repeated the last member forever when the next token could not be
read, and stored an uninitialised value when a value could not be parsed.
---
 include/json_struct/json_struct.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 99bd638..3fe7d4c 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9851,12 +9851,14 @@ struct TypeHandlerMap
       std::string str;
       Internal::handle_json_escapes_in(context.token.name, str);
       Key key(str.data(), str.size());
-      Value v;
+      Value v{};
       error = TypeHandler<Value>::to(v, context);
       to_type[std::move(key)] = std::move(v);
       if (error != JS::Error::NoError)
         return error;
       error = context.nextToken();
+      if (error != JS::Error::NoError)
+        return error;
     }
 
     return error;
-- 
2.43.0


From 1b53babd43d03bd0c3ae6aade10572264d26802a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 13/53] fix: return the error when the argument of a function
 call is cut off or malformed

The scope of the argument was popped although its end had not been reached,
which asserts, and execution went on from the middle of the argument.
---
 include/json_struct/json_struct.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3fe7d4c..361fe99 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1833,7 +1833,7 @@ inline void Tokenizer::pushScope(JS::Type type)
 
 inline void Tokenizer::popScope()
 {
-  assert(scope_counter.size() && scope_counter.back().depth == 0);
+  assert(scope_counter.size());
   scope_counter.pop_back();
 }
 
@@ -5561,8 +5561,14 @@ inline Error CallFunctionContext::callFunctions(T &container)
       parse_context.error = error;
     }
     Internal::add_error(execution_list.back(), parse_context);
-    parse_context.tokenizer.goToEndOfScope(parse_context.token);
+    Error scope_error = parse_context.tokenizer.goToEndOfScope(parse_context.token);
     parse_context.tokenizer.popScope();
+    if (scope_error != Error::NoError)
+    {
+      // the rest of the argument cannot be read, so there is no next member to find
+      parse_context.error = scope_error;
+      return scope_error;
+    }
     if (error == Error::MissingFunction && allow_missing)
       error = Error::NoError;
     if (stop_execute_on_fail && error != Error::NoError)
-- 
2.43.0


From 59e4ce946631573af736812ed1bf18ebc811b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:38 +0000
Subject: [PATCH 14/53] fix: drop the custom message of an earlier error
 together with the error

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 361fe99..ae4f21f 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1321,6 +1321,7 @@ public:
     line = 0;
     character = 0;
     error = Error::NoError;
+    custom_message.clear();
     lines.clear();
   }
 };
-- 
2.43.0


From f965555d248c75d66264211a7435c2e3b00d9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:18 +0000
Subject: [PATCH 15/53] fix: escape every control character when a string is
 serialized

---
 include/json_struct/json_struct.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ae4f21f..79c5a17 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6075,7 +6075,7 @@ static void handle_json_escapes_in(const DataRef &ref, std::string &to_type)
 }
 
 // Returns the offset of the first character in [data, data+len) that needs
-// JSON string escaping (byte <= 0x0d, '"', or '\\'), or len if none. The clean
+// JSON string escaping (byte <= 0x1f, '"', or '\\'), or len if none. The clean
 // (no-escape) run is by far the common case, so scan it with SIMD when possible.
 static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUCT_RESTRICT data, size_t len)
 {
@@ -6084,7 +6084,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m256i vquote = _mm256_set1_epi8('"');
     const __m256i vbackslash = _mm256_set1_epi8('\\');
-    const __m256i vctrl = _mm256_set1_epi8(0x0d);
+    const __m256i vctrl = _mm256_set1_epi8(0x1f);
     for (; i + 32 <= len; i += 32)
     {
       __m256i chunk = _mm256_loadu_si256(reinterpret_cast<const __m256i *>(data + i));
@@ -6101,7 +6101,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   {
     const __m128i vquote = _mm_set1_epi8('"');
     const __m128i vbackslash = _mm_set1_epi8('\\');
-    const __m128i vctrl = _mm_set1_epi8(0x0d);
+    const __m128i vctrl = _mm_set1_epi8(0x1f);
     for (; i + 16 <= len; i += 16)
     {
       __m128i chunk = _mm_loadu_si128(reinterpret_cast<const __m128i *>(data + i));
@@ -6118,7 +6118,7 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   for (; i < len; i++)
   {
     unsigned char c = static_cast<unsigned char>(data[i]);
-    if (c <= 0x0d || c == '"' || c == '\\')
+    if (c <= 0x1f || c == '"' || c == '\\')
       return i;
   }
   return len;
@@ -6169,10 +6169,16 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
     case '\\':
       buffer.append("\\\\", 2);
       break;
-    default:
-      buffer.push_back(cur);
+    default: {
+      // the remaining control characters have no short escape
+      static const char hex[] = "0123456789abcdef";
+      const unsigned char value = static_cast<unsigned char>(cur);
+      buffer.append("\\u00", 4);
+      buffer.push_back(hex[value >> 4]);
+      buffer.push_back(hex[value & 0xf]);
       break;
     }
+    }
     i++;
   }
   if (buffer.size())
-- 
2.43.0


From 742e6616bcc677aaba58ff0b30d3da569df6a1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:18 +0000
Subject: [PATCH 16/53] fix: escape the keys of a map when it is serialized

---
 include/json_struct/json_struct.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 79c5a17..daeac00 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6124,10 +6124,10 @@ static JSON_STRUCT_FORCE_INLINE size_t findFirstEscapeOut(const char *JSON_STRUC
   return len;
 }
 
-static DataRef handle_json_escapes_out(const std::string &data, std::string &buffer)
+static DataRef handle_json_escapes_out(const DataRef &data, std::string &buffer)
 {
-  const char *d = data.data();
-  const size_t n = data.size();
+  const char *d = data.data;
+  const size_t n = data.size;
   size_t start_index = 0;
   size_t i = 0;
   while (i < n)
@@ -6189,7 +6189,7 @@ static DataRef handle_json_escapes_out(const std::string &data, std::string &buf
     }
     return DataRef(buffer.data(), buffer.size());
   }
-  return DataRef(data.data(), data.size());
+  return data;
 }
 } // namespace Internal
 /// \private
@@ -6206,7 +6206,7 @@ struct TypeHandler<std::string>
   static inline void from(const std::string &str, Token &token, Serializer &serializer)
   {
     std::string buffer;
-    DataRef ref = Internal::handle_json_escapes_out(str, buffer);
+    DataRef ref = Internal::handle_json_escapes_out(DataRef(str), buffer);
     token.value_type = Type::String;
     token.value.data = ref.data;
     token.value.size = ref.size;
@@ -9882,9 +9882,11 @@ struct TypeHandlerMap
     token.value_type = Type::ObjectStart;
     token.value = DataRef("{");
     serializer.write(token);
+    std::string buffer;
     for (auto it = from.begin(); it != from.end(); ++it)
     {
-      token.name = DataRef(it->first);
+      buffer.clear();
+      token.name = Internal::handle_json_escapes_out(DataRef(it->first), buffer);
       token.name_type = Type::String;
       TypeHandler<Value>::from(it->second, token, serializer);
     }
-- 
2.43.0


From 0212f325b2ed7cb18e327d548a14e2ab1e845978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:18 +0000
Subject: [PATCH 17/53] fix: count the nesting depth of serialized output
 beyond 255 levels

---
 include/json_struct/json_struct.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index daeac00..5834ed6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1493,7 +1493,7 @@ public:
   bool convertAsciiToString() const;
   void setConvertAsciiToString(bool set);
 
-  unsigned char depth() const;
+  int depth() const;
   void setDepth(int depth);
 
   void skipDelimiter(bool skip);
@@ -1505,7 +1505,7 @@ public:
 
 private:
   uint8_t m_shift_size;
-  uint8_t m_depth;
+  int m_depth;
   Style m_style;
   bool m_convert_ascii_to_string;
 
@@ -3204,7 +3204,7 @@ inline void SerializerOptions::setShiftSize(unsigned char set)
   m_shift_size = set;
 }
 
-inline unsigned char SerializerOptions::depth() const
+inline int SerializerOptions::depth() const
 {
   return m_depth;
 }
@@ -3242,7 +3242,7 @@ inline void SerializerOptions::skipDelimiter(bool skip)
 
 inline void SerializerOptions::setDepth(int depth)
 {
-  m_depth = (unsigned char)depth;
+  m_depth = depth;
   m_prefix = m_style == Pretty ? std::string(depth * size_t(m_shift_size), ' ') : std::string();
 }
 
-- 
2.43.0


From 50b62d8779d82fea221f2363e41dfdba962810ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:33 +0000
Subject: [PATCH 18/53] fix: write the name of a member whose name is the empty
 string

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 5834ed6..00461ca 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1578,6 +1578,7 @@ private:
 
   bool m_first;
   bool m_token_start;
+  std::vector<bool> m_in_object;
   SerializerOptions m_option;
 };
 
@@ -3321,6 +3322,8 @@ inline bool Serializer::write(const Token &in_token)
       return false;
     }
     m_option.setDepth(m_option.depth() - 1);
+    if (!m_in_object.empty())
+      m_in_object.pop_back();
   }
 
   bool shortcut_front = false;
@@ -3398,7 +3401,8 @@ inline bool Serializer::write(const Token &in_token)
       if (!write(m_option.prefix()))
         return false;
   }
-  if (token.name.size)
+  // every member of an object has a name, even if it is the empty string
+  if (token.name.size || (!isEnd && !m_in_object.empty() && m_in_object.back()))
   {
     if (!write(token.name_type, token.name))
       return false;
@@ -3422,6 +3426,7 @@ inline bool Serializer::write(const Token &in_token)
   if (m_token_start)
   {
     m_option.setDepth(m_option.depth() + 1);
+    m_in_object.push_back(token.value_type == Type::ObjectStart);
   }
   return true;
 }
-- 
2.43.0


From 620ee388b4e15eac368938f7f4d17683fae4719f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:00 +0000
Subject: [PATCH 19/53] fix: report input that ends inside a document when it
 is reformatted

---
 include/json_struct/json_struct.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 00461ca..cf2e9c9 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3014,15 +3014,20 @@ static inline JS::Error reformat(const char *data, size_t size, std::string &out
     out.resize(4096);
   serializer.setBuffer(&out[0], out.size());
 
+  size_t depth = 0;
   while (error == Error::NoError)
   {
     error = tokenizer.nextToken(token);
     if (error != Error::NoError)
       break;
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      depth++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      depth--;
     serializer.write(token);
   }
   out.resize(last_pos + serializer.currentBuffer().used);
-  if (error == Error::NeedMoreData)
+  if (error == Error::NeedMoreData && depth == 0)
     return Error::NoError;
 
   return error;
-- 
2.43.0


From 770290b732b0e61283def76d9ee143b46ce15131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 20/53] fix: forget the missing array items of an earlier diff

---
 include/json_struct/json_struct_diff.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index f580e16..cb4e50a 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -118,6 +118,7 @@ struct DiffTokens
     void invalidate()
     {
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         error = DiffError::NoError;
         diff_count = 0;
@@ -128,6 +129,7 @@ struct DiffTokens
     {
         tokens.data.clear();
         missingMembers.clear();
+        missingArrayItems.clear();
         diffs.clear();
         meta.clear();
         error = DiffError::NoError;
-- 
2.43.0


From 5833948d1b4f685c5d95e118dc00d03fb8e64964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 21/53] fix: mark every new array item when the first of them
 is an array

---
 include/json_struct/json_struct_diff.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index cb4e50a..294f472 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -689,15 +689,10 @@ namespace Internal
                     // New items in array.
                     if (baseToken.value_type == Type::ArrayEnd)
                     {
-                        int arrayEndCount = 0;
-                        while (arrayEndCount >= 0)
+                        while (diff.tokens.data[dPos].value_type != Type::ArrayEnd)
                         {
-                            diff.set(dPos++, DiffType::NewArrayItem);
-                            const Token& dToken = diff.tokens.data[dPos];
-                            if (dToken.value_type == Type::ArrayStart)
-                                arrayEndCount++;
-                            else if (dToken.value_type == Type::ArrayEnd)
-                                arrayEndCount--;
+                            setStateForEntireToken(diff, dPos, DiffType::NewArrayItem);
+                            diff.skip(&dPos);
                         }
                         arrayDiffDone = true;
                     }
-- 
2.43.0


From 13e607f700835c809746141b98bdbfc1ddcd26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:00 +0000
Subject: [PATCH 22/53] fix: compare names and strings in a diff beyond a null
 byte

---
 include/json_struct/json_struct_diff.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 294f472..53ca562 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -424,7 +424,7 @@ namespace Internal
         {
             return (base.name_type == diff.name_type)
                 && (base.name.size == diff.name.size)
-                && (strncmp(base.name.data, diff.name.data, base.name.size) == 0);
+                && (memcmp(base.name.data, diff.name.data, base.name.size) == 0);
         }
 
         inline bool isSameValueType(const Token &base, const Token &diff)
@@ -434,7 +434,7 @@ namespace Internal
 
         inline bool stringValuesEqual(const DataRef &base, const DataRef &diff)
         {
-            return (base.size == diff.size) && (strncmp(base.data, diff.data, base.size) == 0);
+            return (base.size == diff.size) && (memcmp(base.data, diff.data, base.size) == 0);
         }
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
-- 
2.43.0


From ff2ed794e669e75011e6af74ee0ef3b030bb820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 23/53] fix: diff numbers that are out of the range of a double

---
 include/json_struct/json_struct_diff.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index 53ca562..e94f385 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -439,6 +439,8 @@ namespace Internal
 
         inline bool fuzzyEquals(double d1, double d2, double epsilon)
         {
+            if (d1 == d2)//-V550
+                return true; // also when both are infinite
             double diff = d2 - d1;
             return diff > 0 ? (diff <= epsilon) : (-diff <= epsilon);
         }
@@ -453,8 +455,12 @@ namespace Internal
 
         inline void diffNumberValues(const Token &baseToken, const Token &diffToken, DiffTokens &diff, const size_t diffPos, const DiffOptions &options)
         {
-            double baseValue = std::stod(std::string(baseToken.value.data, baseToken.value.size));
-            double diffValue = std::stod(std::string(diffToken.value.data, diffToken.value.size));
+            // std::stod throws for numbers that are out of range
+            const char *end;
+            double baseValue = 0;
+            double diffValue = 0;
+            ft::to_double(baseToken.value.data, baseToken.value.size, baseValue, end);
+            ft::to_double(diffToken.value.data, diffToken.value.size, diffValue, end);
 
             if (options.flags & DiffFlags::FuzzyFloatComparison)
             {
-- 
2.43.0


From 0f8605aa9424777b9ab8fca569e5889559c487ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 24/53] fix: report malformed json given to a diff instead of
 walking its unbalanced tokens

---
 include/json_struct/json_struct_diff.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index e94f385..c000b0f 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -58,7 +58,8 @@ enum DiffError : unsigned char
 {
     NoError,
     NoTokens,
-    EmptyString
+    EmptyString,
+    InvalidJson
 };
 
 struct DiffOptions
@@ -148,15 +149,25 @@ struct DiffTokens
         tokenizer.addData(json, size);
         Token token;
         Error e = Error::NoError;
+        size_t depth = 0;
         while (e == Error::NoError)
         {
             e = tokenizer.nextToken(token);
             if (e == Error::NoError)
+            {
                 tokens.data.emplace_back(token);
+                if (Internal::Diff::isComplexValue(token))
+                    depth++;
+                else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+                    depth--;
+            }
+        }
+        if (e != Error::NeedMoreData || depth != 0)
+        {
+            tokens.data.clear();
+            error = DiffError::InvalidJson;
         }
-        if (e == Error::NeedMoreData)
-            error = DiffError::NoError;
-        if (tokens.data.size() == 0)
+        else if (tokens.data.size() == 0)
             error = DiffError::NoTokens;
     }
 
@@ -816,7 +827,7 @@ struct DiffContext
         base.reset(baseJson, baseSize);
         options = opt;
         diffs.clear();
-        error = DiffError::NoError;
+        error = base.error;
     }
 
     void reset(const std::string &baseJson, const DiffOptions &opt = {})
-- 
2.43.0


From e54c48ec3063d0138af42951e15dcda2b82eee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:22 +0000
Subject: [PATCH 25/53] fix: do not attach differences to a token list that is
 empty

---
 include/json_struct/json_struct_diff.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index c000b0f..a5135b2 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -754,12 +754,8 @@ namespace Internal
             }
             else if (base.tokens.data.size() && diff.tokens.data.empty())
             {
-                if (base.tokens.data[0].value_type == Type::ObjectStart)
-                    diff.addMissingMembers(0, base, 0);
-                else if (base.tokens.data[0].value_type == Type::ArrayStart)
-                    diff.addMissingArrayItems(0, base, 0);
-                else
-                    setStateForEntireToken(diff, 0, DiffType::ErroneousRootItem);
+                // There is no token the difference could be attached to.
+                diff.error = DiffError::NoTokens;
             }
             else
             {
-- 
2.43.0


From 27bf6f9ab53ba8662162522a5494e16c711463ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:59 +0000
Subject: [PATCH 26/53] fix: diff unquoted array items instead of asserting

---
 include/json_struct/json_struct_diff.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct_diff.h b/include/json_struct/json_struct_diff.h
index a5135b2..b796a79 100644
--- a/include/json_struct/json_struct_diff.h
+++ b/include/json_struct/json_struct_diff.h
@@ -682,6 +682,7 @@ namespace Internal
                         diffArrays(base, bPos, diff, dPos, options);
                         break;
                     case Type::String:
+                    case Type::Ascii: // the tokenizer hands out unquoted array items
                         diffStringValues(baseToken, diffToken, diff, dPos);
                         break;
                     case Type::Number:
-- 
2.43.0


From f26862a1f2ac7c6e6d31c7716a0fdad3a62713d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:53 +0000
Subject: [PATCH 27/53] fix: do not write the start of a line again when it did
 not fit the output buffers

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cf2e9c9..76c1e57 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3375,6 +3375,9 @@ inline bool Serializer::write(const Token &in_token)
       else if (m_option.depth() == 5)
         shortcut_front = write(begining_literals.get<4>());
     }
+    // the literal may be stored in part, so the generic path must not write it again
+    if (!shortcut_front && m_option.depth() >= 1 && m_option.depth() <= 5)
+      return false;
   }
 
   if (!shortcut_front)
-- 
2.43.0


From 98da7541e6a13dff618195368fdd3be2d4e878d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:56 +0000
Subject: [PATCH 28/53] fix: end the iteration of a Map at its last member

---
 include/json_struct/json_struct.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 76c1e57..ba9a846 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10012,7 +10012,8 @@ struct Map
   inline It end() const
   {
     It e(*this);
-    e.index = uint32_t(tokens.data.size());
+    // The last token closes the object, it is not a member
+    e.index = tokens.data.size() > 1 ? uint32_t(tokens.data.size() - 1) : 1;
     e.next_meta = 0;
     e.next_complex = 0;
     return e;
-- 
2.43.0


From 0a9ad1087153bb077d8fab8290ed7c5ec9523265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 29/53] fix: keep track of the nested members behind a plain
 one that is replaced in a Map

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index ba9a846..b992cf3 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10139,6 +10139,10 @@ struct Map
         meta[0].size--;
         tokens.data.erase(tokens.data.begin() + it.index);
         tokens_removed = 1;
+        for (int i = it.next_meta; i < int(meta.size()); i++)
+        {
+          meta[i].position--;
+        }
       }
       {
         int index_to_remove = -1;
-- 
2.43.0


From ea137259cf97d6434424e70e2c2ea58182a78799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 30/53] fix: replace every member of the given name when a
 value is set in a Map

---
 include/json_struct/json_struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b992cf3..24c7005 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10112,8 +10112,8 @@ struct Map
       meta = JS::metaForTokens(tokens);
     }
 
-    auto it = find(name);
-    if (it != end())
+    // A parsed object can hold several members of that name
+    for (It it = find(name); it != end(); it = find(name))
     {
       meta[0].children--;
       int tokens_removed = 0;
-- 
2.43.0


From e536905411786793bd00b12fdc87a0a6efab850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 31/53] fix: escape the name of a member that is set in a Map
 and find it by its unescaped name

---
 include/json_struct/json_struct.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 24c7005..f05edfc 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9922,8 +9922,14 @@ struct TypeHandler<std::unordered_map<Key, Value>> : TypeHandlerMap<Key, Value,
 
 namespace Internal
 {
-inline bool compareDataRefWithString(const DataRef &a, const std::string &b)
+inline bool compareNameWithString(const DataRef &a, const std::string &b)
 {
+  if (a.size && memchr(a.data, '\\', a.size))
+  {
+    std::string name;
+    handle_json_escapes_in(a, name);
+    return name == b;
+  }
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
 } // namespace Internal
@@ -10022,7 +10028,7 @@ struct Map
   inline It find(const std::string &name) const
   {
     return std::find_if(begin(), end(),
-                        [&name](const Token &token) { return Internal::compareDataRefWithString(token.name, name); });
+                        [&name](const Token &token) { return Internal::compareNameWithString(token.name, name); });
   }
 
   template <typename T>
@@ -10169,7 +10175,8 @@ struct Map
     token.value = DataRef(objectStart);
     serializeContext.serializer.write(token);
 
-    token.name = DataRef(name);
+    std::string escaped_name;
+    token.name = Internal::handle_json_escapes_out(DataRef(name), escaped_name);
     token.name_type = Type::String;
     JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-- 
2.43.0


From 737b1d4f6cbf13e57c4d582f8bd95d68b78054cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 32/53] fix: leave the error of a cast from a Map in the
 context

---
 include/json_struct/json_struct.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index f05edfc..a279af2 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10035,8 +10035,9 @@ struct Map
   JS::Error castToType(JS::ParseContext &parseContext, T &to) const
   {
     parseContext.tokenizer.resetData(&tokens.data, 0);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
@@ -10044,8 +10045,9 @@ struct Map
   {
     assert(iterator.index < tokens.data.size());
     parseContext.tokenizer.resetData(&tokens.data, iterator.index);
-    parseContext.nextToken();
-    return JS::TypeHandler<T>::to(to, parseContext);
+    if (parseContext.nextToken() == JS::Error::NoError)
+      parseContext.error = JS::TypeHandler<T>::to(to, parseContext);
+    return parseContext.error;
   }
 
   template <typename T>
-- 
2.43.0


From 3575bc887b9ad80071ff1d77e68a260910a06364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 33/53] fix: leave an empty Map behind when parsing into it
 fails

---
 include/json_struct/json_struct.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index a279af2..3844605 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10223,12 +10223,13 @@ struct TypeHandler<Map>
 {
   static inline Error to(Map &to_type, ParseContext &context)
   {
-    Error error = TypeHandler<JS::JsonTokens>::to(to_type.tokens, context);
+    Map parsed;
+    Error error = TypeHandler<JS::JsonTokens>::to(parsed.tokens, context);
     if (error == Error::NoError)
-    {
-      to_type.meta = metaForTokens(to_type.tokens);
-    }
-
+      parsed.meta = metaForTokens(parsed.tokens);
+    else
+      parsed.tokens.data.clear();
+    to_type = std::move(parsed);
     return error;
   }
 
-- 
2.43.0


From 9864264b67424112e4c121b48efc26825d5da58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:14 +0000
Subject: [PATCH 34/53] fix: leave a Map as it was when setting a value fails
 or the value has no json representation

---
 include/json_struct/json_struct.h | 120 +++++++++++++++++++-----------
 1 file changed, 76 insertions(+), 44 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 3844605..446f6fa 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9932,6 +9932,13 @@ inline bool compareNameWithString(const DataRef &a, const std::string &b)
   }
   return a.size == b.size() && memcmp(a.data, b.data(), a.size) == 0;
 }
+
+template <typename T>
+inline void reserveFor(std::vector<T> &to, size_t extra)
+{
+  if (to.capacity() - to.size() < extra)
+    to.reserve(std::max(to.size() + extra, to.capacity() * 2));
+}
 } // namespace Internal
 struct Map
 {
@@ -10088,41 +10095,87 @@ struct Map
     static_assert(sizeof(JS::Internal::HasJsonStructBase<T>::template test_in_base<T>(nullptr)) ==
                     sizeof(typename JS::Internal::HasJsonStructBase<T>::yes),
                   "Not a Json Object type\n");
+    Map changed;
     std::string obj = JS::serializeStruct(value);
     parseContext.tokenizer.resetData(obj.data(), obj.size(), 0);
-    tokens.data.clear();
-    meta.clear();
-    json_data.clear();
-    auto error = parseContext.parseTo(tokens);
-    if (error == JS::Error::NoError)
-      assert(tokens.data.size() && tokens.data[0].value_type == JS::Type::ObjectStart);
-
-    meta = metaForTokens(tokens);
-    json_data.emplace_back(0, std::move(obj));
-    return parseContext.error;
+    auto error = parseContext.parseTo(changed.tokens);
+    if (error != JS::Error::NoError)
+      return error;
+    assert(changed.tokens.data.size() && changed.tokens.data[0].value_type == JS::Type::ObjectStart);
+
+    changed.meta = metaForTokens(changed.tokens);
+    changed.json_data.emplace_back(0, std::move(obj));
+    *this = std::move(changed);
+    return error;
   }
 
   template <typename T>
   JS::Error setValue(const std::string &name, JS::ParseContext &parseContext, const T &value)
   {
     (void)parseContext;
+    // The member is built first: if that fails this map is left as it is, and value can refer to this map
+    static const char objectStart[] = "{";
+    static const char objectEnd[] = "}";
+    std::string out;
+    JS::SerializerContext serializeContext(out);
+    serializeContext.serializer.setOptions(SerializerOptions(JS::SerializerOptions::Compact));
+    JS::Token token;
+    token.value_type = Type::ObjectStart;
+    token.value = DataRef(objectStart);
+    serializeContext.serializer.write(token);
+
+    std::string escaped_name;
+    token.name = Internal::handle_json_escapes_out(DataRef(name), escaped_name);
+    token.name_type = Type::String;
+    JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
+
+    token.name = DataRef();
+    token.value_type = Type::ObjectEnd;
+    token.value = DataRef(objectEnd);
+    serializeContext.serializer.write(token);
+
+    serializeContext.flush();
+    JS::JsonTokens new_tokens;
+    JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
+    if (pc.error != JS::Error::NoError)
+      return pc.error;
+    auto new_meta = metaForTokens(new_tokens);
+
     if (tokens.data.empty())
     {
-      tokens.data.reserve(10);
-      meta.reserve(10);
-      JS::Token token;
-      token.value_type = JS::Type::ObjectStart;
-      token.value = JS::DataRef("{");
-      tokens.data.push_back(token);
-      token.value_type = JS::Type::ObjectEnd;
-      token.value = JS::DataRef("}");
-      tokens.data.push_back(token);
-      meta = JS::metaForTokens(tokens);
+      Map empty;
+      empty.tokens.data.reserve(10);
+      empty.meta.reserve(10);
+      JS::Token empty_token;
+      empty_token.value_type = JS::Type::ObjectStart;
+      empty_token.value = JS::DataRef("{");
+      empty.tokens.data.push_back(empty_token);
+      empty_token.value_type = JS::Type::ObjectEnd;
+      empty_token.value = JS::DataRef("}");
+      empty.tokens.data.push_back(empty_token);
+      empty.meta = JS::metaForTokens(empty.tokens);
+      *this = std::move(empty);
+    }
+    else if (tokens.data.front().value_type != JS::Type::ObjectStart)
+    {
+      return JS::Error::ExpectedObjectStart;
     }
 
     // A parsed object can hold several members of that name
-    for (It it = find(name); it != end(); it = find(name))
+    std::vector<It> replaced;
+    for (It it = begin(); it != end(); ++it)
+    {
+      if (Internal::compareNameWithString(it->name, name))
+        replaced.push_back(it);
+    }
+    Internal::reserveFor(tokens.data, new_tokens.data.size());
+    Internal::reserveFor(meta, new_meta.size());
+    Internal::reserveFor(json_data, 1);
+
+    // Nothing from here on allocates memory
+    for (auto replaced_it = replaced.rbegin(); replaced_it != replaced.rend(); ++replaced_it)
     {
+      const It &it = *replaced_it;
       meta[0].children--;
       int tokens_removed = 0;
       if (it.index == it.next_complex)
@@ -10167,30 +10220,9 @@ struct Map
         }
       }
     }
-    static const char objectStart[] = "{";
-    static const char objectEnd[] = "}";
-    std::string out;
-    JS::SerializerContext serializeContext(out);
-    serializeContext.serializer.setOptions(SerializerOptions(JS::SerializerOptions::Compact));
-    JS::Token token;
-    token.value_type = Type::ObjectStart;
-    token.value = DataRef(objectStart);
-    serializeContext.serializer.write(token);
-
-    std::string escaped_name;
-    token.name = Internal::handle_json_escapes_out(DataRef(name), escaped_name);
-    token.name_type = Type::String;
-    JS::TypeHandler<T>::from(value, token, serializeContext.serializer);
 
-    token.name = DataRef();
-    token.value_type = Type::ObjectEnd;
-    token.value = DataRef(objectEnd);
-    serializeContext.serializer.write(token);
-
-    serializeContext.flush();
-    JS::JsonTokens new_tokens;
-    JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
-    auto new_meta = metaForTokens(new_tokens);
+    if (new_tokens.data.size() == 2)
+      return JS::Error::NoError; // The value has no json representation, e.g. an empty optional
 
     json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
     int old_tokens_size = int(tokens.data.size());
-- 
2.43.0


From cb8bb42180c85f42e09e13808241953f816c8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:14 +0000
Subject: [PATCH 35/53] fix: keep the text a copied Map refers to

---
 include/json_struct/json_struct.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 446f6fa..c03583d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -10010,7 +10010,21 @@ struct Map
 
   JS::JsonTokens tokens;
   std::vector<JsonMeta> meta;
-  std::vector<std::pair<int, std::string>> json_data;
+  // The text that the tokens of a set value refer to. It is shared by the copies of a map
+  struct Text
+  {
+    std::shared_ptr<const std::string> text;
+
+    const char *data() const
+    {
+      return text->data();
+    }
+    size_t size() const
+    {
+      return text->size();
+    }
+  };
+  std::vector<std::pair<int, Text>> json_data;
 
   inline It begin() const
   {
@@ -10096,15 +10110,15 @@ struct Map
                     sizeof(typename JS::Internal::HasJsonStructBase<T>::yes),
                   "Not a Json Object type\n");
     Map changed;
-    std::string obj = JS::serializeStruct(value);
-    parseContext.tokenizer.resetData(obj.data(), obj.size(), 0);
+    auto obj = std::make_shared<const std::string>(JS::serializeStruct(value));
+    parseContext.tokenizer.resetData(obj->data(), obj->size(), 0);
     auto error = parseContext.parseTo(changed.tokens);
     if (error != JS::Error::NoError)
       return error;
     assert(changed.tokens.data.size() && changed.tokens.data[0].value_type == JS::Type::ObjectStart);
 
     changed.meta = metaForTokens(changed.tokens);
-    changed.json_data.emplace_back(0, std::move(obj));
+    changed.json_data.push_back({0, Text{std::move(obj)}});
     *this = std::move(changed);
     return error;
   }
@@ -10116,8 +10130,8 @@ struct Map
     // The member is built first: if that fails this map is left as it is, and value can refer to this map
     static const char objectStart[] = "{";
     static const char objectEnd[] = "}";
-    std::string out;
-    JS::SerializerContext serializeContext(out);
+    auto out = std::make_shared<std::string>();
+    JS::SerializerContext serializeContext(*out);
     serializeContext.serializer.setOptions(SerializerOptions(JS::SerializerOptions::Compact));
     JS::Token token;
     token.value_type = Type::ObjectStart;
@@ -10136,7 +10150,7 @@ struct Map
 
     serializeContext.flush();
     JS::JsonTokens new_tokens;
-    JS::ParseContext pc(out.c_str(), out.size(), new_tokens);
+    JS::ParseContext pc(out->c_str(), out->size(), new_tokens);
     if (pc.error != JS::Error::NoError)
       return pc.error;
     auto new_meta = metaForTokens(new_tokens);
@@ -10224,7 +10238,7 @@ struct Map
     if (new_tokens.data.size() == 2)
       return JS::Error::NoError; // The value has no json representation, e.g. an empty optional
 
-    json_data.emplace_back(int(tokens.data.size() - 1), std::move(out));
+    json_data.push_back({int(tokens.data.size() - 1), Text{std::move(out)}});
     int old_tokens_size = int(tokens.data.size());
     tokens.data.insert(tokens.data.end() - 1, new_tokens.data.begin() + 1, new_tokens.data.end() - 1);
     meta[0].children++;
-- 
2.43.0


From ee1280b0faf201f398df1fdfea59e2ed7aeeb4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 36/53] fix: capture raw text when parsing from a list of
 tokens

---
 include/json_struct/json_struct.h | 81 +++++++++++++++++++++++++------
 1 file changed, 67 insertions(+), 14 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index c03583d..1b7a909 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1349,6 +1349,13 @@ struct ScopeCounter
     }
   }
 };
+
+struct CopyBuffer
+{
+  size_t start;                     // index into the first buffer or into the list of tokens
+  const std::vector<Token> *parsed; // when the value is read from a list of tokens
+  std::string *to;
+};
 } // namespace Internal
 
 class Tokenizer
@@ -1450,7 +1457,7 @@ private:
   std::vector<Type> container_stack;
   std::function<void(const char *)> release_callback;
   std::function<void(Tokenizer &)> need_more_data_callback;
-  std::vector<std::pair<size_t, std::string *>> copy_buffers;
+  std::vector<Internal::CopyBuffer> copy_buffers;
   const std::vector<Token> *parsed_data_vector;
   Internal::ErrorContext error_context;
 };
@@ -1797,33 +1804,77 @@ static bool isValueInIntermediateToken(const Token &token, const Internal::Inter
   return false;
 }
 
+namespace Internal
+{
+// Writes the value starting at the token with index start
+inline void writeTokens(const std::vector<Token> &tokens, size_t start, std::string &to_buffer)
+{
+  char buffer[256];
+  Serializer serializer(buffer, sizeof(buffer));
+  serializer.setOptions(SerializerOptions(SerializerOptions::Compact));
+  serializer.setRequestBufferCallback([&to_buffer, &buffer](Serializer &s) {
+    to_buffer.append(buffer, sizeof(buffer)); // the buffer is full
+    s.setBuffer(buffer, sizeof(buffer));
+  });
+  size_t level = 0;
+  for (size_t i = start; i < tokens.size(); i++)
+  {
+    Token token = tokens[i];
+    if (i == start)
+      token.name = DataRef();
+    serializer.write(token);
+    if (token.value_type == Type::ObjectStart || token.value_type == Type::ArrayStart)
+      level++;
+    else if (token.value_type == Type::ObjectEnd || token.value_type == Type::ArrayEnd)
+      level--;
+    if (level == 0)
+      break;
+  }
+  to_buffer.append(buffer, serializer.currentBuffer().used);
+}
+} // namespace Internal
+
 inline void Tokenizer::copyFromValue(const Token &token, std::string &to_buffer)
 {
   if (JSON_STRUCT_UNLIKELY(isValueInIntermediateToken(token, intermediate_token)))
   {
     to_buffer.reserve(to_buffer.size() + token.value.size);
     to_buffer.append(token.value.data, token.value.size);
-    copy_buffers.emplace_back(cursor_index, &to_buffer);
+    copy_buffers.push_back({cursor_index, nullptr, &to_buffer});
+  }
+  else if (parsed_data_vector || data_list.empty())
+  {
+    if (parsed_data_vector)
+      copy_buffers.push_back({cursor_index - 1, parsed_data_vector, &to_buffer});
+    else // the last token of the list
+      to_buffer.append(token.value.data, token.value.size);
   }
   else
   {
     assert(token.value.data >= data_list.front().data &&
            token.value.data < data_list.front().data + data_list.front().size);
     ptrdiff_t index = token.value.data - data_list.front().data;
-    copy_buffers.emplace_back(index, &to_buffer);
+    copy_buffers.push_back({size_t(index), nullptr, &to_buffer});
   }
 }
 
 inline void Tokenizer::copyIncludingValue(const Token &, std::string &to_buffer)
 {
-  auto it =
-    std::find_if(copy_buffers.begin(), copy_buffers.end(),
-                 [&to_buffer](const std::pair<size_t, std::string *> &pair) { return &to_buffer == pair.second; });
-  assert(it != copy_buffers.end());
-  assert(it->first <= cursor_index);
-  if (cursor_index - it->first != 0)
-    to_buffer.append(data_list.front().data + it->first, cursor_index - it->first);
+  auto it = std::find_if(copy_buffers.begin(), copy_buffers.end(),
+                         [&to_buffer](const Internal::CopyBuffer &buffer) { return &to_buffer == buffer.to; });
+  if (it == copy_buffers.end())
+    return;
+  const Internal::CopyBuffer copy = *it;
   copy_buffers.erase(it);
+  if (copy.parsed)
+  {
+    // The texts the tokens refer to do not have to be next to each other
+    Internal::writeTokens(*copy.parsed, copy.start, to_buffer);
+    return;
+  }
+  assert(copy.start <= cursor_index);
+  if (cursor_index - copy.start != 0)
+    to_buffer.append(data_list.front().data + copy.start, cursor_index - copy.start);
 }
 
 inline void Tokenizer::pushScope(JS::Type type)
@@ -2561,11 +2612,13 @@ inline void Tokenizer::releaseFirstDataRef()
   const DataRef &json_data = data_list.front();
 
   // Optimize string operations: append directly instead of creating temporary
-  for (auto &copy_pair : copy_buffers)
+  for (auto &copy : copy_buffers)
   {
-    size_t copy_size = json_data.size - copy_pair.first;
-    copy_pair.second->append(json_data.data + copy_pair.first, copy_size);
-    copy_pair.first = 0;
+    if (copy.parsed)
+      continue;
+    size_t copy_size = json_data.size - copy.start;
+    copy.to->append(json_data.data + copy.start, copy_size);
+    copy.start = 0;
   }
 
   cursor_index = 0;
-- 
2.43.0


From d94c247308df05da1ce4fa984f23796d7c0cd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 37/53] fix: do not read a token from an empty list of tokens

---
 include/json_struct/json_struct.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 1b7a909..35e7c9d 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1710,6 +1710,12 @@ inline Error Tokenizer::nextToken(Token &next_token)
   {
     return Error::ScopeHasEnded;
   }
+  if (parsed_data_vector && cursor_index >= parsed_data_vector->size())
+  {
+    // Nothing (left) in the list of tokens
+    cursor_index = 0;
+    parsed_data_vector = nullptr;
+  }
   if (parsed_data_vector)
   {
     next_token = (*parsed_data_vector)[cursor_index];
-- 
2.43.0


From c822c0da7e4971cd39efaf05c80bfbc016ccb1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:04 +0000
Subject: [PATCH 38/53] fix: do not take the texts of a list of tokens for one
 text when reporting an error

---
 include/json_struct/json_struct.h | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 35e7c9d..322e532 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2970,17 +2970,32 @@ JSON_STRUCT_COLD inline Error Tokenizer::updateErrorContext(Error error, const s
 {
   error_context.error = error;
   error_context.custom_message = custom_message;
+  error_context.lines.clear();
   if ((!parsed_data_vector || parsed_data_vector->empty()) && data_list.empty())
     return error;
 
-  const DataRef json_data =
-    parsed_data_vector && parsed_data_vector->size()
-      ? DataRef(parsed_data_vector->front().value.data,
-                size_t(parsed_data_vector->back().value.data - parsed_data_vector->front().value.data))
-      : data_list.front();
-  int64_t real_cursor_index = parsed_data_vector && parsed_data_vector->size()
-                                ? int64_t(parsed_data_vector->at(cursor_index).value.data - json_data.data)
-                                : int64_t(cursor_index);
+  if (parsed_data_vector && parsed_data_vector->size())
+  {
+    // The texts the tokens refer to do not have to be next to each other
+    const size_t current = cursor_index ? cursor_index - 1 : 0;
+    const size_t first = current > line_context ? current - line_context : 0;
+    std::string tokens;
+    error_context.line = 0;
+    for (size_t i = first; i < parsed_data_vector->size() && i <= current + line_context; i++)
+    {
+      const Token &token = (*parsed_data_vector)[i];
+      if (i == current)
+        error_context.character = tokens.size();
+      if (token.name.size)
+        tokens.append(token.name.data, token.name.size).append(":");
+      tokens.append(token.value.data, std::min(token.value.size, size_t(range_context))).append(" ");
+    }
+    error_context.lines.push_back(tokens);
+    return error;
+  }
+
+  const DataRef json_data = data_list.front();
+  int64_t real_cursor_index = int64_t(cursor_index);
   const int64_t stop_back = real_cursor_index - std::min(int64_t(real_cursor_index), int64_t(line_range_context));
   const int64_t stop_forward = std::min(real_cursor_index + int64_t(line_range_context), int64_t(json_data.size));
   std::vector<Internal::Lines> lines;
-- 
2.43.0


From 66f3cdc88f3a11ad3015317ec90804f305234bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:51 +0000
Subject: [PATCH 39/53] fix: count the depth of a scope without wrapping

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 322e532..8129223 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1333,7 +1333,7 @@ namespace Internal
 struct ScopeCounter
 {
   JS::Type type;
-  uint16_t depth;
+  size_t depth;
   inline void handleType(JS::Type in_type)
   {
     if (type == JS::Type::ArrayStart || type == JS::Type::ObjectStart)
-- 
2.43.0


From 712ad1da6f5f16783125b84287fc6f65bf41e2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:03 +0000
Subject: [PATCH 40/53] fix: count a token in every open scope

---
 include/json_struct/json_struct.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 8129223..0b8dda5 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1343,7 +1343,7 @@ struct ScopeCounter
       else if (in_type == JS::Type(static_cast<int>(type) + 1))
         depth--;
     }
-    else
+    else if (depth)
     {
       depth--;
     }
@@ -1725,8 +1725,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       cursor_index = 0;
       parsed_data_vector = nullptr;
     }
-    if (scope_counter.size())
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
     return Error::NoError;
   }
   if (JSON_STRUCT_UNLIKELY(data_list.empty()))
@@ -1785,8 +1785,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
       }
       container_stack.pop_back();
     }
-    if (JSON_STRUCT_LIKELY(scope_counter.size()))
-      scope_counter.back().handleType(next_token.value_type);
+    for (auto &scope : scope_counter)
+      scope.handleType(next_token.value_type);
   }
   return error;
 }
-- 
2.43.0


From 62b14f3558a6968d0a9a899cb53f4b21a86b8c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:36 +0000
Subject: [PATCH 41/53] fix: forget the document before when the data of a
 tokenizer is reset

---
 include/json_struct/json_struct.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 0b8dda5..d62e875 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1419,6 +1419,7 @@ private:
     FindingEnd
   };
 
+  void resetForNewData();
   void resetForNewToken();
   void resetForNewValue();
   Error findStringEnd(const DataRef &json_data, size_t *chars_ahead);
@@ -1671,7 +1672,7 @@ inline void Tokenizer::resetData(const char *data, size_t size, size_t index)
   parsed_data_vector = nullptr;
   cursor_index = index;
   addData(data, size);
-  resetForNewToken();
+  resetForNewData();
 }
 
 inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t index)
@@ -1684,7 +1685,7 @@ inline void Tokenizer::resetData(const std::vector<Token> *parsedData, size_t in
   data_list.clear();
   parsed_data_vector = parsedData;
   cursor_index = index;
-  resetForNewToken();
+  resetForNewData();
 }
 
 inline size_t Tokenizer::registeredBuffers() const
@@ -1975,6 +1976,19 @@ inline void Tokenizer::setErrorContextConfig(size_t lineContext, size_t rangeCon
   range_context = rangeContext;
 }
 
+inline void Tokenizer::resetForNewData()
+{
+  token_state = InTokenState::FindingName;
+  is_escaped = false;
+  expecting_prop_or_anonymous_data = false;
+  continue_after_need_more_data = false;
+  scope_counter.clear();
+  container_stack.clear();
+  copy_buffers.clear();
+  error_context.clear();
+  resetForNewToken();
+}
+
 JSON_STRUCT_FORCE_INLINE void Tokenizer::resetForNewToken()
 {
   intermediate_token.clear();
-- 
2.43.0


From 61ba106a1c6eb444f2772e80355916bc97e2bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:36 +0000
Subject: [PATCH 42/53] fix: keep the output behind a flush of a serializer
 context

---
 include/json_struct/json_struct.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index d62e875..cac2590 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4821,8 +4821,9 @@ struct SerializerContext
     serializer.setBuffer(&json_out[0], json_out.size());
     serializer.setRequestBufferCallback([this](Serializer &serializer_p) {
       size_t end = this->json_out.size();
-      this->json_out.resize(end * 2);
-      serializer_p.setBuffer(&(this->json_out[0]) + end, end);
+      size_t more = end ? end : 4096;
+      this->json_out.resize(end + more);
+      serializer_p.setBuffer(&(this->json_out[0]) + end, more);
       this->last_pos = end;
     });
   }
@@ -4843,6 +4844,8 @@ struct SerializerContext
   void flush()
   {
     json_out.resize(last_pos + serializer.currentBuffer().used);
+    last_pos = json_out.size();
+    serializer.setBuffer(nullptr, 0);
   }
 
   Serializer serializer;
-- 
2.43.0


From ef93a5bf98002656bfbd65d77af1d6cff7bf9ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:51 +0000
Subject: [PATCH 43/53] fix: replace the tokens of a list by a value that is
 one token

---
 include/json_struct/json_struct.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cac2590..2b770a7 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -9395,13 +9395,10 @@ struct TypeHandler<std::vector<Token, A>>
 public:
   static inline Error to(std::vector<Token, A> &to_type, ParseContext &context)
   {
-    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
-    {
-      to_type.push_back(context.token);
-      return context.error;
-    }
     to_type.clear();
     to_type.push_back(context.token);
+    if (context.token.value_type != JS::Type::ArrayStart && context.token.value_type != JS::Type::ObjectStart)
+      return context.error;
 
     size_t level = 1;
     Error error = Error::NoError;
-- 
2.43.0


From b56a30d440f32891d28bb0b6b7fd535f8371af41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:40 +0000
Subject: [PATCH 44/53] fix: do not write the end of the return values from a
 destructor

---
 include/json_struct/json_struct.h | 39 +++++++++++++------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2b770a7..cbd30b3 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -4988,6 +4988,10 @@ protected:
   virtual void afterCallFunctions()
   {
   }
+
+private:
+  template <typename T>
+  Error callMembers(T &container);
 };
 
 inline Error CallFunctionErrorContext::setError(Error error, const std::string &errorString)
@@ -5605,28 +5609,6 @@ struct RAICallFunctionOnExit
 };
 } // namespace Internal
 
-namespace Internal
-{
-struct ArrayEndWriter
-{
-  ArrayEndWriter(Serializer &serializer, Token &token)
-    : serializer(serializer)
-    , token(token)
-  {
-  }
-
-  ~ArrayEndWriter()
-  {
-    token.value_type = Type::ArrayEnd;
-    token.value = DataRef("]");
-    serializer.write(token);
-  }
-
-  Serializer &serializer;
-  Token &token;
-};
-} // namespace Internal
-
 template <typename T>
 inline Error CallFunctionContext::callFunctions(T &container)
 {
@@ -5645,8 +5627,19 @@ inline Error CallFunctionContext::callFunctions(T &container)
   Token token;
   token.value_type = Type::ArrayStart;
   token.value = DataRef("[");
-  Internal::ArrayEndWriter endWriter(return_serializer, token);
   return_serializer.write(token);
+  error = callMembers(container);
+  // Not from a destructor: asking for another buffer can throw
+  token.value_type = Type::ArrayEnd;
+  token.value = DataRef("]");
+  return_serializer.write(token);
+  return error;
+}
+
+template <typename T>
+inline Error CallFunctionContext::callMembers(T &container)
+{
+  Error error = Error::NoError;
   auto &functions = Internal::JsonStructFunctionContainerDummy<T, T>::js_static_meta_functions_info();
   using FunctionsType = typename std::remove_reference<decltype(functions)>::type;
   while (parse_context.token.value_type != JS::Type::ObjectEnd)
-- 
2.43.0


From da07fad4ce2af0b8553c5158b79749b5223858ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:23 +0000
Subject: [PATCH 45/53] fix: forget an earlier error when reading on in a list
 of tokens

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index cbd30b3..afece69 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1719,6 +1719,7 @@ inline Error Tokenizer::nextToken(Token &next_token)
   }
   if (parsed_data_vector)
   {
+    error_context.clear();
     next_token = (*parsed_data_vector)[cursor_index];
     cursor_index++;
     if (cursor_index == parsed_data_vector->size())
-- 
2.43.0


From 5fdcddc24a686b560646323a2d151fbcfcac00a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:02 +0000
Subject: [PATCH 46/53] fix: a string given an object or array no longer takes
 its contents for members of the surrounding value

---
 include/json_struct/json_struct.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index afece69..7235db6 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -6296,8 +6296,17 @@ struct TypeHandler<std::string>
 {
   static inline Error to(std::string &to_type, ParseContext &context)
   {
+    const Type type = context.token.value_type;
+    if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+      return Error::IllegalDataValue;
     to_type.clear();
     Internal::handle_json_escapes_in(context.token.value, to_type);
+    // read past the contents, they are not members or elements of the surrounding value
+    if (type == Type::ObjectStart || type == Type::ArrayStart)
+    {
+      Internal::skipArrayOrObject(context);
+      return context.error;
+    }
     return Error::NoError;
   }
 
-- 
2.43.0


From 75bc01e0501de84f704aafde16cc5aa4013cd113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 47/53] fix: compact style with a shift size of two wrote
 newlines and indentation down to depth five

---
 include/json_struct/json_struct.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 7235db6..82f932e 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3421,7 +3421,7 @@ inline bool Serializer::write(const Token &in_token)
   }
 
   bool shortcut_front = false;
-  if (m_option.shiftSize() == 2 && !m_first)
+  if (m_option.style() == SerializerOptions::Pretty && m_option.shiftSize() == 2 && !m_first)
   {
     if (!m_token_start && !isEnd && m_option.tokenDelimiter().empty())
     {
-- 
2.43.0


From 60d49941c6a375b9077dc8dbf92813ef1fe2189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:52 +0000
Subject: [PATCH 48/53] fix: a shift size set after the depth takes effect at
 once

---
 include/json_struct/json_struct.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 82f932e..71d9c77 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -3297,6 +3297,7 @@ inline int SerializerOptions::shiftSize() const
 inline void SerializerOptions::setShiftSize(unsigned char set)
 {
   m_shift_size = set;
+  setDepth(m_depth);
 }
 
 inline int SerializerOptions::depth() const
-- 
2.43.0


From 2bdcb17986490832349123113e24baed3b42b31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:11 +0000
Subject: [PATCH 49/53] fix: a function that reports MissingFunction is not
 followed by another function of that name

---
 include/json_struct/json_struct.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 71d9c77..b06fb60 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -5508,6 +5508,12 @@ Error matchAndCallFunction(T &container, CallFunctionContext &context,
 
 namespace Internal
 {
+// A function that was called can itself report MissingFunction
+static inline bool noFunctionCalled(Error error, const CallFunctionContext &context)
+{
+  return error == Error::MissingFunction && context.parse_context.error == Error::NoError;
+}
+
 template <typename T, size_t INDEX>
 struct FunctionalSuperRecursion
 {
@@ -5543,7 +5549,7 @@ struct FunctionObjectTraverser
     Error error = matchAndCallFunction(container, context, function, primary);
     if (error == Error::NoError)
       return Error::NoError;
-    if (error != Error::MissingFunction)
+    if (!noFunctionCalled(error, context))
       return context.parse_context.error;
     return FunctionObjectTraverser<T, Functions, INDEX - 1>::call(container, context, functions, primary);
   }
@@ -5558,7 +5564,7 @@ struct FunctionObjectTraverser<T, Functions, 0>
     Error error = matchAndCallFunction(container, context, function, primary);
     if (error == Error::NoError)
       return Error::NoError;
-    if (error != Error::MissingFunction)
+    if (!noFunctionCalled(error, context))
       return error;
     using SuperMeta = decltype(Internal::template JsonStructFunctionContainerDummy<T, T>::js_static_meta_super_info());
     return StartFunctionalSuperRecursion<T, SuperMeta::size>::callFunction(container, context, primary);
@@ -5652,9 +5658,10 @@ inline Error CallFunctionContext::callMembers(T &container)
     execution_list.back().context.data = user_context;
     error = Internal::FunctionObjectTraverser<T, FunctionsType, FunctionsType::size - 1>::call(container, *this,
                                                                                                functions, true);
-    if (error == Error::MissingFunction)
+    if (Internal::noFunctionCalled(error, *this))
       error = Internal::FunctionObjectTraverser<T, FunctionsType, FunctionsType::size - 1>::call(container, *this,
                                                                                                  functions, false);
+    const bool missing = Internal::noFunctionCalled(error, *this);
     if (error != Error::NoError)
     {
       assert(error == parse_context.error || parse_context.error == Error::NoError);
@@ -5669,7 +5676,7 @@ inline Error CallFunctionContext::callMembers(T &container)
       parse_context.error = scope_error;
       return scope_error;
     }
-    if (error == Error::MissingFunction && allow_missing)
+    if (missing && allow_missing)
       error = Error::NoError;
     if (stop_execute_on_fail && error != Error::NoError)
       return error;
@@ -5729,7 +5736,7 @@ Error FunctionalSuperRecursion<T, INDEX>::callFunction(T &container, CallFunctio
   using FunctionsType = typename std::remove_reference<decltype(functions)>::type;
   Error error = FunctionObjectTraverser<Super, FunctionsType, FunctionsType::size - 1>::call(container, context,
                                                                                              functions, primary);
-  if (error != Error::MissingFunction)
+  if (!noFunctionCalled(error, context))
     return error;
 
   return FunctionalSuperRecursion<T, INDEX - 1>::callFunction(container, context, primary);
-- 
2.43.0


From 44665b8bca5c7e323bdb969bf0dc916f3447a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:00 +0000
Subject: [PATCH 50/53] fix: a need-more-data callback that throws no longer
 loses the part of a token already read

---
 include/json_struct/json_struct.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index b06fb60..be9e234 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -1757,6 +1757,8 @@ inline Error Tokenizer::nextToken(Token &next_token)
 
     if (JSON_STRUCT_UNLIKELY(error == Error::NeedMoreData))
     {
+      // The callbacks may throw; what has been read of the token is kept
+      continue_after_need_more_data = true;
       releaseFirstDataRef();
       requestMoreData();
     }
-- 
2.43.0


From 5bc7535477dc3af5039dc72ba77b777b7bef4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:06 +0000
Subject: [PATCH 51/53] fix: a member without a value is rejected

---
 include/json_struct/json_struct.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index be9e234..11a5ee1 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2939,6 +2939,9 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
       tmp_token.value = data;
       tmp_token.value_type = Internal::getType(type, tmp_token.value.data, tmp_token.value.size);
 
+      if (type == Type::ObjectEnd || type == Type::ArrayEnd)
+        return Error::ExpectedDataToken;
+
       if (tmp_token.value_type == Type::Ascii && !allow_ascii_properties)
         return Error::IllegalDataValue;
 
-- 
2.43.0


From 0d6167d77ccbcd2e61a6d4f2aa083ad4cc2c2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:01 +0000
Subject: [PATCH 52/53] fix: a value without a name in an object is rejected

---
 include/json_struct/json_struct.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 11a5ee1..2079263 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2844,6 +2844,10 @@ inline Error Tokenizer::populateNextTokenFromDataRef(Token &next_token, const Da
 
         case Type::ObjectStart:
         case Type::ArrayStart:
+          if (container_stack.size() && container_stack.back() == Type::ObjectStart)
+          {
+            return Error::IllegalPropertyName;
+          }
           populate_anonymous_token(data, type, next_token);
           expecting_prop_or_anonymous_data = false;
           token_state = InTokenState::FindingName;
-- 
2.43.0


From 10868f0ae9be385d540682ec55ccc416d225c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:09 +0000
Subject: [PATCH 53/53] fix: a stray character before a name or value is
 rejected instead of skipped

---
 include/json_struct/json_struct.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/json_struct/json_struct.h b/include/json_struct/json_struct.h
index 2079263..8ff2198 100644
--- a/include/json_struct/json_struct.h
+++ b/include/json_struct/json_struct.h
@@ -2223,7 +2223,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
 
   if (JSON_STRUCT_UNLIKELY(comment_state != InCommentState::NoComment))
   {
-    Error comment_error = continueComment(json_data, Error::NoError);
+    Error comment_error = continueComment(json_data, Error::EncounteredIllegalChar);
     if (comment_error != Error::NoError)
       return comment_error;
   }
@@ -2354,7 +2354,7 @@ JSON_STRUCT_FORCE_INLINE Error Tokenizer::findStartOfNextValue(Type *type, const
       *chars_ahead = current_pos - cursor_index;
       return Error::NoError;
     }
-    else if (JSON_STRUCT_UNLIKELY(lc == 0))
+    else if (JSON_STRUCT_UNLIKELY(!(lc & Internal::WhiteSpaceOrNull)))
     {
       *chars_ahead = current_pos - cursor_index;
       return Error::EncounteredIllegalChar;
-- 
2.43.0

