From dad91d7049769468aa69b43558885adf17db2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 01/35] fix: Avoid null dereference when a JSON array for a set
 contains duplicates

The errors object is optional but was accessed unconditionally.
---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 9aeb899..3d92132 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -729,7 +729,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         ++index;
         typename Type::value_type itemObj;
         pull(itemObj, item, errors);
-        if (!reflectable.emplace(std::move(itemObj)).second) {
+        if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
         }
     }
-- 
2.43.0


From bb2cfb6bec42640e8c3438a9df4b06050f9db542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 02/35] fix: Restore index of outer array in error context
 after pulling nested array

---
 lib/json/reflector.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 3d92132..62fe646 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -665,6 +665,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -676,9 +677,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         pull(reflectable.back(), item, errors);
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -692,6 +693,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -704,9 +706,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         reflectable.emplace(std::move(itemObj));
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
@@ -720,6 +722,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
     reflectable.clear();
 
     // pull all array elements of the specified value
+    const auto previousIndex = errors ? errors->currentIndex : JsonDeserializationError::noIndex;
     std::size_t index = 0;
     for (const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &item : array) {
         // set error context for current index
@@ -734,9 +737,9 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
         }
     }
 
-    // clear error context
+    // restore previous error context
     if (errors) {
-        errors->currentIndex = JsonDeserializationError::noIndex;
+        errors->currentIndex = previousIndex;
     }
 }
 
-- 
2.43.0


From e8cb98c26bea25d43760b3be907ed157475abaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 03/35] fix: Copy map keys when pushing maps to JSON document

The keys were only referenced so using the JSON document after the map has
been destroyed was a use-after-free. Keys were also cut off at the first
null byte.
---
 lib/json/reflector.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 62fe646..8088727 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -247,7 +247,9 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
     value.SetObject();
     RAPIDJSON_NAMESPACE::Value::Object object(value.GetObject());
     for (const auto &item : reflectable) {
-        push(item.second, item.first.data(), object, allocator);
+        RAPIDJSON_NAMESPACE::Value memberName(item.first.data(), rapidJsonSize(item.first.size()), allocator), memberValue;
+        push(item.second, memberValue, allocator);
+        object.AddMember(memberName, memberValue, allocator);
     }
 }
 
@@ -267,7 +269,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(memberName, newArrayValue, allocator);
+            value.AddMember(RAPIDJSON_NAMESPACE::Value(memberName, allocator), newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From 19f4f231459bfb997fc2991eef311431d7dd1c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 04/35] fix: Preserve null bytes when pulling strings and map
 keys from JSON

---
 lib/json/reflector.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 8088727..0e426b0 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -606,7 +606,7 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.GetString();
+    reflectable.assign(value.GetString(), value.GetStringLength());
 }
 
 /*!
@@ -759,7 +759,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
-        pull(reflectable[i->name.GetString()], i->value, errors);
+        pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
     }
 }
 
@@ -777,14 +777,15 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     }
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
+        const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
         if (i->value.GetType() != RAPIDJSON_NAMESPACE::kArrayType) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, i->value, errors);
             continue;
         }
         const auto array = i->value.GetArray();
         for (const auto &arrayValue : array) {
-            auto insertedIterator = reflectable.insert(typename Type::value_type(i->name.GetString(), typename Type::mapped_type()));
+            auto insertedIterator = reflectable.insert(typename Type::value_type(key, typename Type::mapped_type()));
             pull(insertedIterator->second, arrayValue, errors);
         }
     }
@@ -1147,7 +1148,7 @@ Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors
         return Type();
     }
 
-    return doc.GetString();
+    return std::string(doc.GetString(), doc.GetStringLength());
 }
 
 /*!
-- 
2.43.0


From 211d6bb1f02dee4432db0f4154ccc3e8df57e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 05/35] fix: Clear maps before populating them from JSON

This is consistent with arrays and sets. Otherwise values present by default
would be mixed with the deserialized ones.
---
 lib/json/reflector.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 0e426b0..0e99a9b 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -458,13 +458,13 @@ template <typename Type, Traits::EnableIf<IsMultiSet<Type>> * = nullptr>
 void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>>::ConstArray array, JsonDeserializationErrors *errors);
 
 /*!
- * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object.
+ * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object. The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMapOrHash<Type>> * = nullptr>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
 /*!
- * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object.
+ * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object. The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMultiMapOrHash<Type>> * = nullptr>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
@@ -746,7 +746,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
 }
 
 /*!
- * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object.
+ * \brief Pulls the specified \a reflectable which is a map from the specified value which is checked to contain an object. The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMapOrHash<Type>> *>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
@@ -757,6 +757,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         pull(reflectable[std::string(i->name.GetString(), i->name.GetStringLength())], i->value, errors);
@@ -764,7 +765,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
 }
 
 /*!
- * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object.
+ * \brief Pulls the specified \a reflectable which is a multimap from the specified value which is checked to contain an object. The \a reflectable is cleared before.
  */
 template <typename Type, Traits::EnableIf<IsMultiMapOrHash<Type>> *>
 void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
@@ -775,6 +776,7 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
         }
         return;
     }
+    reflectable.clear();
     auto obj = value.GetObject();
     for (auto i = obj.MemberBegin(), end = obj.MemberEnd(); i != end; ++i) {
         const auto key = std::string(i->name.GetString(), i->name.GetStringLength());
-- 
2.43.0


From 8a37c9c2a6bb69c718603058fccd87187d3c5fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 06/35] fix: Parse floating point numbers with full precision

Otherwise double values do not survive a round-trip because the last digits
might be off.
---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 0e99a9b..a78f543 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -73,7 +73,7 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse(json, jsonSize);
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag>(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From 1427cf0a1dc8c90fbd74695ef01a1fdce32ad7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 07/35] fix: Parse JSON iteratively to avoid stack overflow on
 deeply nested input

---
 lib/json/reflector.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index a78f543..256411d 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -73,7 +73,9 @@ inline RAPIDJSON_NAMESPACE::StringBuffer serializeJsonDocToString(RAPIDJSON_NAME
 inline RAPIDJSON_NAMESPACE::Document parseJsonDocFromString(const char *json, std::size_t jsonSize)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kObjectType);
-    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag>(json, jsonSize);
+    constexpr unsigned int flags
+        = RAPIDJSON_NAMESPACE::kParseDefaultFlags | RAPIDJSON_NAMESPACE::kParseFullPrecisionFlag | RAPIDJSON_NAMESPACE::kParseIterativeFlag;
+    const RAPIDJSON_NAMESPACE::ParseResult parseRes = document.Parse<flags>(json, jsonSize);
     if (parseRes.IsError()) {
         throw parseRes;
     }
-- 
2.43.0


From fae1705e2bb5d13ad9e270062de5fad546af3333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 08/35] fix: Allow toJson() and toJsonDocument() to be invoked
 with strings

The template parameter could not be deduced.
---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 256411d..675efd2 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1049,7 +1049,7 @@ RAPIDJSON_NAMESPACE::Document toJsonDocument(Type reflectable)
  * \brief Serializes the specified \a reflectable which is an std::string.
  */
 template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = nullptr>
-RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
+RAPIDJSON_NAMESPACE::Document toJsonDocument(const Type &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
     document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
@@ -1060,7 +1060,7 @@ RAPIDJSON_NAMESPACE::Document toJsonDocument(const std::string &reflectable)
  * \brief Serializes the specified \a reflectable which is a C-string.
  */
 template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * = nullptr>
-RAPIDJSON_NAMESPACE::Document toJsonDocument(const char *reflectable)
+RAPIDJSON_NAMESPACE::Document toJsonDocument(Type reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
     document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
-- 
2.43.0


From 40a62d72a49b241df1f068dbab0df5b2edecd982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:15 +0000
Subject: [PATCH 09/35] fix: Throw variant-related deserialization errors if
 considered fatal

---
 lib/json/errorhandling.h | 23 +++++++++++++++++++++++
 lib/json/reflector.h     |  9 +++------
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index d363950..4bbd70b 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -159,6 +159,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     void reportArraySizeMismatch();
     void reportConversionError(JsonType jsonType);
     void reportUnexpectedDuplicate(JsonType jsonType);
+    void reportInvalidVariantObject();
+    void reportInvalidVariantIndex(JsonType presentType);
 
     /// \brief The name of the class or struct which is currently being processed.
     const char *currentRecord;
@@ -173,6 +175,8 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
         ArraySizeMismatch = 0x2,
         ConversionError = 0x4,
         UnexpectedDuplicate = 0x8,
+        InvalidVariantObject = 0x10,
+        InvalidVariantIndex = 0x20,
         All = 0xFF,
     } throwOn;
 
@@ -264,6 +268,25 @@ inline void JsonDeserializationErrors::reportUnexpectedDuplicate(JsonType jsonTy
     throwMaybe(ThrowOn::UnexpectedDuplicate);
 }
 
+/*!
+ * \brief Reports that an object supposed to represent an std::variant lacks the index or data member.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantObject()
+{
+    emplace_back(
+        JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantObject);
+}
+
+/*!
+ * \brief Reports that the index of an object representing an std::variant is not an unsigned integer or out of range.
+ */
+inline void JsonDeserializationErrors::reportInvalidVariantIndex(JsonType presentType)
+{
+    emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, presentType, currentRecord, currentMember, currentIndex);
+    throwMaybe(ThrowOn::InvalidVariantIndex);
+}
+
 } // namespace ReflectiveRapidJSON
 
 #endif // REFLECTIVE_RAPIDJSON_JSON_REFLECTOR_H
diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 675efd2..23105b5 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -923,8 +923,7 @@ void assignVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant
         }
     } else {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, JsonType::Number, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(JsonType::Number);
         }
     }
 }
@@ -949,16 +948,14 @@ void pull(Type &reflectable, const rapidjson::GenericValue<RAPIDJSON_NAMESPACE::
     auto dataIterator = obj.FindMember("data");
     if (indexIterator == obj.MemberEnd() || dataIterator == obj.MemberEnd()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantObject, JsonType::Object, JsonType::Object, errors->currentRecord,
-                errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantObject();
         }
         return;
     }
     const auto &indexValue = indexIterator->value;
     if (!indexValue.IsUint64()) {
         if (errors) {
-            errors->emplace_back(JsonDeserializationErrorKind::InvalidVariantIndex, JsonType::Number, jsonType(indexValue.GetType()),
-                errors->currentRecord, errors->currentMember, errors->currentIndex);
+            errors->reportInvalidVariantIndex(jsonType(indexValue.GetType()));
         }
         return;
     }
-- 
2.43.0


From 989f2c5b0ca5e526a0cbf382f4e4cc9972b1df50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 10/35] fix: Report JSON numbers not representable by the
 target type

The conversion of numbers out of the range of the target type was undefined
behavior or silently truncated the value.
---
 lib/json/reflector.h | 59 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 23105b5..d180904 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -16,6 +16,7 @@
 #include <rapidjson/stringbuffer.h>
 #include <rapidjson/writer.h>
 
+#include <cmath>
 #include <limits>
 #include <map>
 #include <memory>
@@ -529,6 +530,25 @@ inline void pull(Type &reflectable, const char *name, const rapidjson::GenericVa
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> *>
 void pull(Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors);
 
+/// \cond
+namespace Detail {
+/*!
+ * \brief Returns whether \a value can be converted to \tparam Type (disregarding the fractional part for integral types).
+ */
+template <typename Type> inline bool isConvertibleNumber(double value)
+{
+    if constexpr (std::is_integral_v<Type>) {
+        const auto limit = std::ldexp(1.0, std::numeric_limits<Type>::digits);
+        const auto integralPart = std::trunc(value);
+        return integralPart >= (std::is_signed_v<Type> ? -limit : 0.0) && integralPart < limit;
+    } else {
+        CPP_UTILITIES_UNUSED(value)
+        return true;
+    }
+}
+} // namespace Detail
+/// \endcond
+
 /*!
  * \brief Pulls the integer or float from the specified value which is supposed and checked to contain the right type.
  */
@@ -544,7 +564,18 @@ inline void pull(
         }
         return;
     }
-    reflectable = value.Is<Type>() ? value.Get<Type>() : static_cast<Type>(value.GetDouble());
+    if (value.Is<Type>()) {
+        reflectable = value.Get<Type>();
+        return;
+    }
+    const auto number = value.GetDouble();
+    if (!Detail::isConvertibleNumber<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -554,11 +585,20 @@ template <typename Type, Traits::EnableIfAny<std::is_same<Type, std::uint8_t>, s
 inline void pull(
     Type &reflectable, const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    int i = 0;
-    pull(i, value, errors);
-    if (value.IsNumber()) {
-        reflectable = static_cast<Type>(i);
+    if (!value.IsNumber()) {
+        if (errors) {
+            errors->reportTypeMismatch<Type>(value.GetType());
+        }
+        return;
     }
+    const auto number = value.GetDouble();
+    if (!Detail::isConvertibleNumber<Type>(number)) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
@@ -592,7 +632,14 @@ inline void pull(
         }
         return;
     }
-    reflectable = static_cast<Type>(value.Get<ExpectedType>());
+    const auto number = value.Get<ExpectedType>();
+    if (static_cast<ExpectedType>(static_cast<typename std::underlying_type<Type>::type>(number)) != number) {
+        if (errors) {
+            errors->reportConversionError(JsonType::Number);
+        }
+        return;
+    }
+    reflectable = static_cast<Type>(number);
 }
 
 /*!
-- 
2.43.0


From c215ef399b1ac3b62be63fd18304e9706dd84836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 11/35] fix: Avoid further conversion of date times and time
 spans after type mismatch

An empty string was converted in that case which lead to an additional
conversion error or resetting the time span.
---
 lib/json/reflector-chronoutilities.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 7acccaf..2aee8e7 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -41,10 +41,14 @@ template <>
 inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    std::string str;
-    pull(str, value, errors);
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     try {
-        reflectable = CppUtilities::DateTime::fromIsoStringGmt(str.data());
+        reflectable = CppUtilities::DateTime::fromIsoStringGmt(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
@@ -56,10 +60,14 @@ template <>
 inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
     const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value, JsonDeserializationErrors *errors)
 {
-    std::string str;
-    pull(str, value, errors);
+    if (!value.IsString()) {
+        if (errors) {
+            errors->reportTypeMismatch<std::string>(value.GetType());
+        }
+        return;
+    }
     try {
-        reflectable = CppUtilities::TimeSpan::fromString(str.data());
+        reflectable = CppUtilities::TimeSpan::fromString(value.GetString());
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
-- 
2.43.0


From 872ba4b83cd170e1bfb1ab32b877373dbd708c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 12/35] fix: Make fromBinary() usable with versioned types

---
 lib/binary/serializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/binary/serializable.h b/lib/binary/serializable.h
index 3a87d06..a0b68e8 100644
--- a/lib/binary/serializable.h
+++ b/lib/binary/serializable.h
@@ -46,7 +46,7 @@ template <typename Type, BinaryVersion v> inline BinaryVersion BinarySerializabl
 template <typename Type, BinaryVersion v> Type BinarySerializable<Type, v>::fromBinary(std::istream &inputStream)
 {
     Type object;
-    static_cast<BinarySerializable<Type> &>(object).restoreFromBinary(inputStream);
+    static_cast<BinarySerializable<Type, v> &>(object).restoreFromBinary(inputStream);
     return object;
 }
 
-- 
2.43.0


From c51061579d9255e4cda6f972170fea8cfabc4d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 13/35] fix: Clear maps and sets before populating them from
 binary data

This is consistent with arrays. Otherwise values already present would be
mixed with the deserialized ones.
---
 lib/binary/reflector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 883d9b7..cf52dff 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -183,6 +183,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 
 template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
 {
+    iteratable.clear();
     const auto size = readVariableLengthUIntBE();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
@@ -196,6 +197,7 @@ template <typename Type,
         Traits::None<IsMapOrHash<Type>, IsMultiMapOrHash<Type>, Traits::All<IsArray<Type>, Traits::IsResizable<Type>>>> *>
 void BinaryDeserializer::read(Type &iteratable)
 {
+    iteratable.clear();
     const auto size = readVariableLengthUIntBE();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
-- 
2.43.0


From 7fdfe1d8b5b521fd90caeacc1b732ae4dad29da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 14/35] fix: Avoid considering members of indirect base classes
 multiple times

---
 generator/serializationcodegenerator.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ae3a774..ee3a70f 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -8,6 +8,7 @@
 #include <clang/AST/PrettyPrinter.h>
 #include <clang/AST/QualTypeNames.h>
 
+#include <algorithm>
 #include <iostream>
 
 using namespace std;
@@ -130,6 +131,16 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
             relevantBaseClasses.push_back(&otherClass);
         }
     }
+    // remove indirect base classes which are already covered by another relevant base class
+    // note: Otherwise members of indirect base classes would be considered multiple times.
+    const auto allBaseClasses = relevantBaseClasses;
+    relevantBaseClasses.erase(std::remove_if(relevantBaseClasses.begin(), relevantBaseClasses.end(),
+                                  [&allBaseClasses](const RelevantClass *baseClass) {
+                                      return std::any_of(allBaseClasses.begin(), allBaseClasses.end(), [baseClass](const RelevantClass *otherClass) {
+                                          return otherClass->record != baseClass->record && otherClass->record->isDerivedFrom(baseClass->record);
+                                      });
+                                  }),
+        relevantBaseClasses.end());
     return relevantBaseClasses;
 }
 
-- 
2.43.0


From c0de30ae1526ec9b1a5443c187f7c2a465b1eae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 15/35] fix: Propagate version to custom types within
 containers, pointers, optionals and variants

---
 lib/binary/reflector.h | 125 +++++++++++++++++++++++++----------------
 1 file changed, 76 insertions(+), 49 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index cf52dff..32a3a40 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -51,6 +51,11 @@ using IsBuiltInType = Traits::Any<Traits::IsAnyOf<Type, char, std::uint8_t, bool
     IsVariant<Type>>;
 template <typename Type> using IsCustomType = Traits::Not<IsBuiltInType<Type>>;
 
+// define trait to distinguish "built-in" types which possibly contain custom types (and hence need to propagate the version) from primitive ones
+template <typename Type>
+using IsNestingType = Traits::Any<IsIteratableExceptString<Type>,
+    Traits::IsSpecializingAnyOf<Type, std::pair, std::unique_ptr, std::shared_ptr, std::optional>, IsVariant<Type>>;
+
 class BinaryDeserializer;
 class BinarySerializer;
 
@@ -77,19 +82,26 @@ public:
     explicit BinaryDeserializer(std::istream *stream);
 
     using CppUtilities::BinaryReader::read;
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr> void read(Type &pair);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> * = nullptr> void read(Type &pointer);
-    template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> * = nullptr> void read(Type &iteratable);
-    template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> * = nullptr> void read(Type &iteratable);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+    void read(Type &pair, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> * = nullptr>
+    void read(Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> * = nullptr>
+    void read(Type &iteratable, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> * = nullptr>
+    void read(Type &iteratable, BinaryVersion version = 0);
     template <typename Type,
         Traits::EnableIf<IsIteratableExceptString<Type>,
             Traits::None<IsMapOrHash<Type>, IsMultiMapOrHash<Type>, Traits::All<IsArray<Type>, Traits::IsResizable<Type>>>> * = nullptr>
-    void read(Type &iteratable);
+    void read(Type &iteratable, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<std::is_enum<Type>> * = nullptr> void read(Type &enumValue);
-    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void read(Type &variant);
-    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> * = nullptr> BinaryVersion read(Type &builtInType, BinaryVersion version);
+    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void read(Type &variant, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsNestingType<Type>>> * = nullptr>
+    BinaryVersion read(Type &builtInType, BinaryVersion version);
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> BinaryVersion read(Type &customType, BinaryVersion version = 0);
 
 private:
@@ -104,14 +116,18 @@ public:
     explicit BinarySerializer(std::ostream *stream);
 
     using CppUtilities::BinaryWriter::write;
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr> void write(const Type &pair);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+    void write(const Type &pair, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::optional>> * = nullptr>
-    void write(const Type &pointer);
-    template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> * = nullptr> void write(const Type &pointer);
-    template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> * = nullptr> void write(const Type &iteratable);
+    void write(const Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> * = nullptr>
+    void write(const Type &pointer, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> * = nullptr>
+    void write(const Type &iteratable, BinaryVersion version = 0);
     template <typename Type, Traits::EnableIf<std::is_enum<Type>> * = nullptr> void write(const Type &enumValue);
-    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void write(const Type &variant);
-    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> * = nullptr> void write(const Type &builtInType, BinaryVersion version);
+    template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr> void write(const Type &variant, BinaryVersion version = 0);
+    template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsNestingType<Type>>> * = nullptr>
+    void write(const Type &builtInType, BinaryVersion version);
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> void write(const Type &customType, BinaryVersion version = 0);
 
 private:
@@ -123,23 +139,26 @@ inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
 {
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *> void BinaryDeserializer::read(Type &pair)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
+void BinaryDeserializer::read(Type &pair, BinaryVersion version)
 {
-    read(pair.first);
-    read(pair.second);
+    read(pair.first, version);
+    read(pair.second, version);
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *> void BinaryDeserializer::read(Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::unique_ptr>> *>
+void BinaryDeserializer::read(Type &pointer, BinaryVersion version)
 {
     if (!readBool()) {
         pointer.reset();
         return;
     }
     pointer = std::make_unique<typename Type::element_type>();
-    read(*pointer);
+    read(*pointer, version);
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> *> void BinaryDeserializer::read(Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::shared_ptr>> *>
+void BinaryDeserializer::read(Type &pointer, BinaryVersion version)
 {
     auto mode = readByte();
     if (!mode) {
@@ -152,7 +171,7 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::
     if ((mode & 0x3) == 1) {
         // first occurrence: make a new pointer
         m_pointer[id] = pointer = std::make_shared<typename Type::element_type>();
-        read(*pointer);
+        read(*pointer, version);
         return;
     }
     // further occurrences: copy previous pointer
@@ -163,31 +182,34 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::
     }
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> *> void BinaryDeserializer::read(Type &opt)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::optional>> *>
+void BinaryDeserializer::read(Type &opt, BinaryVersion version)
 {
     if (readBool()) {
-        read(opt.emplace());
+        read(opt.emplace(), version);
     } else {
         opt.reset();
     }
 }
 
-template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> *> void BinaryDeserializer::read(Type &iteratable)
+template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Type>> *>
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
     iteratable.resize(size);
     for (auto &element : iteratable) {
-        read(element);
+        read(element, version);
     }
 }
 
-template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *> void BinaryDeserializer::read(Type &iteratable)
+template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash<Type>> *>
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     iteratable.clear();
     const auto size = readVariableLengthUIntBE();
     for (size_t i = 0; i != size; ++i) {
         std::pair<typename std::remove_const<typename Type::value_type::first_type>::type, typename Type::value_type::second_type> value;
-        read(value);
+        read(value, version);
         iteratable.emplace(std::move(value));
     }
 }
@@ -195,13 +217,13 @@ template <typename Type, Traits::EnableIfAny<IsMapOrHash<Type>, IsMultiMapOrHash
 template <typename Type,
     Traits::EnableIf<IsIteratableExceptString<Type>,
         Traits::None<IsMapOrHash<Type>, IsMultiMapOrHash<Type>, Traits::All<IsArray<Type>, Traits::IsResizable<Type>>>> *>
-void BinaryDeserializer::read(Type &iteratable)
+void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     iteratable.clear();
     const auto size = readVariableLengthUIntBE();
     for (size_t i = 0; i != size; ++i) {
         typename Type::value_type value;
-        read(value);
+        read(value, version);
         iteratable.emplace(std::move(value));
     }
 }
@@ -216,17 +238,17 @@ template <typename Type, Traits::EnableIf<std::is_enum<Type>> *> void BinaryDese
 /// \cond
 namespace Detail {
 template <typename Variant, std::size_t compiletimeIndex = 0>
-void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant, BinaryDeserializer &deserializer)
+void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant, BinaryDeserializer &deserializer, BinaryVersion version)
 {
     if constexpr (compiletimeIndex < std::variant_size_v<Variant>) {
         if (compiletimeIndex == runtimeIndex) {
             if constexpr (std::is_same_v<std::variant_alternative_t<compiletimeIndex, Variant>, std::monostate>) {
                 variant = std::monostate{};
             } else {
-                deserializer.read(variant.template emplace<compiletimeIndex>());
+                deserializer.read(variant.template emplace<compiletimeIndex>(), version);
             }
         } else {
-            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer);
+            readVariantValueByRuntimeIndex<Variant, compiletimeIndex + 1>(runtimeIndex, variant, deserializer, version);
         }
     } else {
         throw CppUtilities::ConversionException("Variant index is out of expected range");
@@ -235,12 +257,13 @@ void readVariantValueByRuntimeIndex(std::size_t runtimeIndex, Variant &variant,
 } // namespace Detail
 /// \endcond
 
-template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeserializer::read(Type &variant)
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinaryDeserializer::read(Type &variant, BinaryVersion version)
 {
-    Detail::readVariantValueByRuntimeIndex(readByte(), variant, *this);
+    Detail::readVariantValueByRuntimeIndex(readByte(), variant, *this, version);
 }
 
-template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
+template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsNestingType<Type>>> *>
+BinaryVersion BinaryDeserializer::read(Type &builtInType, BinaryVersion version)
 {
     read(builtInType);
     return version;
@@ -256,22 +279,24 @@ inline BinarySerializer::BinarySerializer(std::ostream *stream)
 {
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *> void BinarySerializer::write(const Type &pair)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
+void BinarySerializer::write(const Type &pair, BinaryVersion version)
 {
-    write(pair.first);
-    write(pair.second);
+    write(pair.first, version);
+    write(pair.second, version);
 }
 
 template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::optional>> *>
-void BinarySerializer::write(const Type &opt)
+void BinarySerializer::write(const Type &opt, BinaryVersion version)
 {
     writeBool(static_cast<bool>(opt));
     if (opt) {
-        write(*opt);
+        write(*opt, version);
     }
 }
 
-template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> *> void BinarySerializer::write(const Type &pointer)
+template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std::shared_ptr>> *>
+void BinarySerializer::write(const Type &pointer, BinaryVersion version)
 {
     if (pointer == nullptr) {
         writeByte(0);
@@ -292,16 +317,16 @@ template <typename Type, Traits::EnableIf<Traits::IsSpecializingAnyOf<Type, std:
     }
     if (!alreadyWritten) {
         alreadyWritten = true;
-        write(*pointer);
+        write(*pointer, version);
     }
 }
 
 template <typename Type, Traits::EnableIf<IsIteratableExceptString<Type>, Traits::HasSize<Type>> *>
-void BinarySerializer::write(const Type &iteratable)
+void BinarySerializer::write(const Type &iteratable, BinaryVersion version)
 {
     writeVariableLengthUIntBE(iteratable.size());
     for (const auto &element : iteratable) {
-        write(element);
+        write(element, version);
     }
 }
 
@@ -310,22 +335,24 @@ template <typename Type, Traits::EnableIf<std::is_enum<Type>> *> void BinarySeri
     write(static_cast<typename std::underlying_type<Type>::type>(enumValue));
 }
 
-template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySerializer::write(const Type &variant)
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *> void BinarySerializer::write(const Type &variant, BinaryVersion version)
 {
     static_assert(std::variant_size_v<Type> < std::numeric_limits<std::uint8_t>::max(), "index will not exceed limit");
     writeByte(static_cast<std::uint8_t>(variant.index()));
     std::visit(
-        [this](const auto &valueOfActualType) {
+        [this, version](const auto &valueOfActualType) {
             if constexpr (!std::is_same_v<std::decay_t<decltype(valueOfActualType)>, std::monostate>) {
-                write(valueOfActualType);
+                write(valueOfActualType, version);
             } else {
                 CPP_UTILITIES_UNUSED(this)
+                CPP_UTILITIES_UNUSED(version)
             }
         },
         variant);
 }
 
-template <typename Type, Traits::EnableIf<IsBuiltInType<Type>> *> void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
+template <typename Type, Traits::EnableIf<IsBuiltInType<Type>, Traits::Not<IsNestingType<Type>>> *>
+void BinarySerializer::write(const Type &builtInType, BinaryVersion version)
 {
     CPP_UTILITIES_UNUSED(version)
     write(builtInType);
-- 
2.43.0


From 8b30b1cce9afec791a221278849335df9c6d8155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 16/35] fix: Avoid writing versions not supported by the type
 when the outer type has a higher version

---
 lib/versioning.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/versioning.h b/lib/versioning.h
index 42968a9..adbe915 100644
--- a/lib/versioning.h
+++ b/lib/versioning.h
@@ -41,7 +41,8 @@ template <typename Type> struct Versioning<Type, true> {
     static constexpr auto maxSupported = Type::version;
     static constexpr auto &applyDefault(std::remove_const_t<decltype(serializationDefault)> &version)
     {
-        if (!version) {
+        // assume the default version if no version has been specified or if the specified version (e.g. propagated from an outer type) is not supported
+        if (!version || !isSupported(version)) {
             version = serializationDefault;
         }
         return version;
-- 
2.43.0


From 4a8596e06a287a863274e2a3d9975db83fe1a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 17/35] fix: Report IO errors occurring when flushing the
 generated code

---
 generator/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/generator/main.cpp b/generator/main.cpp
index e3aa4b3..ae2390d 100644
--- a/generator/main.cpp
+++ b/generator/main.cpp
@@ -57,9 +57,9 @@ int main(int argc, char *argv[])
     }
 
     // setup output stream
+    ofstream outputFile;
     ostream *os = nullptr;
     try {
-        ofstream outputFile;
         if (outputFileArg.isPresent()) {
             outputFile.exceptions(ios_base::badbit | ios_base::failbit);
             outputFile.open(outputFileArg.values(0).front(), ios_base::out | ios_base::trunc | ios_base::binary);
@@ -127,6 +127,11 @@ int main(int argc, char *argv[])
             return -2;
         }
 
+        // flush output stream explicitly to be able to handle pending IO errors
+        if (!os->flush()) {
+            throw ios_base::failure("unable to flush output stream");
+        }
+
     } catch (const std::ios_base::failure &failure) {
         const char *errorMessage = failure.what();
         if (os) {
-- 
2.43.0


From d4f1d1b46d5ad62671fc77cc6a7ebc149e03551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 18/35] fix: Report correct expected type for tuples, pairs,
 multimaps and custom maps

---
 lib/json/errorhandling.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index 4bbd70b..f23f95a 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -6,7 +6,7 @@
  * \brief Contains helper for error handling when deserializing JSON files.
  */
 
-#include <c++utilities/misc/traits.h>
+#include "../traits.h"
 
 #include <rapidjson/rapidjson.h>
 
@@ -14,6 +14,8 @@
 #include <limits>
 #include <list>
 #include <string>
+#include <tuple>
+#include <utility>
 #include <vector>
 
 namespace ReflectiveRapidJSON {
@@ -62,20 +64,19 @@ template <typename Type, Traits::EnableIfAny<Traits::IsString<Type>, Traits::IsC
     return JsonType::String;
 }
 
-template <typename Type,
-    Traits::EnableIf<Traits::IsIteratable<Type>,
-        Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-            Traits::IsSpecializationOf<Type, std::unordered_map>>>> * = nullptr>
-constexpr JsonType jsonType()
+// define trait to check for C++ types which are mapped to JSON arrays
+template <typename Type>
+using IsMappedToJsonArray = Traits::Any<Traits::IsSpecializingAnyOf<Type, std::tuple, std::pair>,
+    Traits::All<Traits::IsIteratable<Type>, Traits::Not<Traits::Any<Traits::IsString<Type>, IsMapOrHash<Type>, IsMultiMapOrHash<Type>>>>>;
+
+template <typename Type, Traits::EnableIf<IsMappedToJsonArray<Type>> * = nullptr> constexpr JsonType jsonType()
 {
     return JsonType::Array;
 }
 
 template <typename Type,
     Traits::DisableIfAny<std::is_integral<Type>, std::is_floating_point<Type>, Traits::IsString<Type>, Traits::IsCString<Type>,
-        Traits::All<Traits::IsIteratable<Type>,
-            Traits::Not<Traits::Any<Traits::IsString<Type>, Traits::IsSpecializationOf<Type, std::map>,
-                Traits::IsSpecializationOf<Type, std::unordered_map>>>>> * = nullptr>
+        IsMappedToJsonArray<Type>> * = nullptr>
 constexpr JsonType jsonType()
 {
     return JsonType::Object;
-- 
2.43.0


From 244d60ee8f4b8607179066f2734e531b3c836e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 19/35] fix: Avoid inserting uninitialised elements into sets
 when JSON array elements mismatch

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index d180904..8b48874 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -752,7 +752,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         reflectable.emplace(std::move(itemObj));
     }
@@ -781,7 +781,7 @@ void pull(Type &reflectable, rapidjson::GenericValue<RAPIDJSON_NAMESPACE::UTF8<c
             errors->currentIndex = index;
         }
         ++index;
-        typename Type::value_type itemObj;
+        auto itemObj = typename Type::value_type();
         pull(itemObj, item, errors);
         if (!reflectable.emplace(std::move(itemObj)).second && errors) {
             errors->reportUnexpectedDuplicate(JsonType::Array);
-- 
2.43.0


From a99762b54ec92b6732a35b024b0dc62e2483bbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 20/35] fix: Report JSON numbers exceeding the range of the
 float type of the target

---
 lib/json/reflector.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 8b48874..2f20d92 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -542,8 +542,7 @@ template <typename Type> inline bool isConvertibleNumber(double value)
         const auto integralPart = std::trunc(value);
         return integralPart >= (std::is_signed_v<Type> ? -limit : 0.0) && integralPart < limit;
     } else {
-        CPP_UTILITIES_UNUSED(value)
-        return true;
+        return std::abs(value) <= static_cast<double>(std::numeric_limits<Type>::max());
     }
 }
 } // namespace Detail
-- 
2.43.0


From 32a069f14c8382119c2898c2497e192e0b8f0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 21/35] fix: Convert top-level numbers like nested ones when
 deserializing JSON

---
 lib/json/reflector.h | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 2f20d92..91a2772 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1171,14 +1171,9 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 Type fromJson(const char *json, std::size_t jsonSize, JsonDeserializationErrors *errors = nullptr)
 {
     RAPIDJSON_NAMESPACE::Document doc(parseJsonDocFromString(json, jsonSize));
-    if (!doc.Is<Type>()) {
-        if (errors) {
-            errors->reportTypeMismatch<Type>(doc.GetType());
-        }
-        return Type();
-    }
-
-    return doc.Get<Type>();
+    auto res = Type();
+    pull(res, doc, errors);
+    return res;
 }
 
 /*!
-- 
2.43.0


From 758c2a1e53aa2da87512839ee929d4f7b10847e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 22/35] fix: Declare push() overloads before first use so maps
 and pointers of nesting types can be serialized to JSON

---
 lib/json/reflector.h | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 91a2772..47547f7 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -137,6 +137,37 @@ void push(
 template <typename Type, Traits::DisableIf<IsBuiltInType<Type>> * = nullptr>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value::Object &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
 
+/*!
+ * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
+ */
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified tuple to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified pair to the specified value.
+ */
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
+ */
+template <typename Type,
+    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
+/*!
+ * \brief Pushes the specified variant to the specified value.
+ */
+template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator);
+
 /*!
  * \brief Pushes the specified \a reflectable which has a custom type to the specified value.
  */
@@ -259,7 +290,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified multimap (std::multimap, std::unordered_multimap) to the specified value.
  */
-template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> * = nullptr>
+template <typename Type, Traits::EnableIfAny<IsMultiMapOrHash<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetObject();
@@ -301,7 +332,7 @@ template <class Tuple> struct TuplePushHelper<Tuple, 1> {
 /*!
  * \brief Pushes the specified tuple to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::tuple>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -313,7 +344,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified pair to the specified value.
  */
-template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> * = nullptr>
+template <typename Type, Traits::EnableIf<Traits::IsSpecializationOf<Type, std::pair>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     value.SetArray();
@@ -326,8 +357,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified unique_ptr, shared_ptr, weak_ptr or optional to the specified value.
  */
-template <typename Type,
-    Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> * = nullptr>
+template <typename Type, Traits::EnableIfAny<Traits::IsSpecializingAnyOf<Type, std::unique_ptr, std::shared_ptr, std::weak_ptr, std::optional>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (!reflectable) {
@@ -340,7 +370,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 /*!
  * \brief Pushes the specified variant to the specified value.
  */
-template <typename Type, Traits::EnableIf<IsVariant<Type>> * = nullptr>
+template <typename Type, Traits::EnableIf<IsVariant<Type>> *>
 void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
     if (reflectable.valueless_by_exception()) {
-- 
2.43.0


From 88ca3e88843be8c86f9686f3e1fa72b12fb834c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 23/35] fix: Preserve null bytes in multimap keys when pushing
 to JSON

---
 lib/json/reflector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 47547f7..ef7715d 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -303,7 +303,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(RAPIDJSON_NAMESPACE::Value(memberName, allocator), newArrayValue, allocator);
+            value.AddMember(RAPIDJSON_NAMESPACE::Value(memberName.s, memberName.length, allocator), newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From cd66a4eacf92910a8efb7f9be2e46fd4e1c4e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 24/35] fix: Preserve null bytes when serializing top-level
 strings to JSON

---
 lib/json/reflector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index ef7715d..37cdb74 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -1125,7 +1125,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string>> * = n
 RAPIDJSON_NAMESPACE::Document toJsonDocument(const Type &reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
     return document;
 }
 
@@ -1136,7 +1136,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, const char *>> * =
 RAPIDJSON_NAMESPACE::Document toJsonDocument(Type reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable), document.GetAllocator());
+    document.SetString(reflectable, document.GetAllocator());
     return document;
 }
 
@@ -1147,7 +1147,7 @@ template <typename Type, Traits::EnableIf<std::is_same<Type, std::string_view>>
 RAPIDJSON_NAMESPACE::Document toJsonDocument(std::string_view reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kStringType);
-    document.SetString(RAPIDJSON_NAMESPACE::StringRef(reflectable.data(), reflectable.size()), document.GetAllocator());
+    document.SetString(reflectable.data(), rapidJsonSize(reflectable.size()), document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From b81267261b0e3fc232004283f1a9a00807080151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 25/35] fix: Distinguish multimap keys containing null bytes
 when pushing to JSON

---
 lib/json/reflector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 37cdb74..41370f4 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -295,7 +295,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
 {
     value.SetObject();
     for (const auto &item : reflectable) {
-        const auto memberName = RAPIDJSON_NAMESPACE::Value::StringRefType(item.first.data(), rapidJsonSize(item.first.size()));
+        auto memberName = RAPIDJSON_NAMESPACE::Value(item.first.data(), rapidJsonSize(item.first.size()), allocator);
         const auto existingMember = value.FindMember(memberName);
         const auto arrayAlreadyExists
             = existingMember != value.MemberEnd() && existingMember->value.GetType() == RAPIDJSON_NAMESPACE::Type::kArrayType;
@@ -303,7 +303,7 @@ void push(const Type &reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_
         RAPIDJSON_NAMESPACE::Value::Array array = arrayAlreadyExists ? existingMember->value.GetArray() : newArrayValue.GetArray();
         push(item.second, array, allocator);
         if (!arrayAlreadyExists) {
-            value.AddMember(RAPIDJSON_NAMESPACE::Value(memberName.s, memberName.length, allocator), newArrayValue, allocator);
+            value.AddMember(memberName, newArrayValue, allocator);
         }
     }
 }
-- 
2.43.0


From 79a0edb6b5b0efe775b649b7a3694335c381047f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 26/35] fix: Report JSON numbers exceeding the range of double
 instead of reading infinity

---
 lib/json/reflector.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 41370f4..0daeb11 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -593,9 +593,11 @@ inline void pull(
         }
         return;
     }
-    if (value.Is<Type>()) {
-        reflectable = value.Get<Type>();
-        return;
+    if constexpr (std::is_integral_v<Type>) {
+        if (value.Is<Type>()) {
+            reflectable = value.Get<Type>();
+            return;
+        }
     }
     const auto number = value.GetDouble();
     if (!Detail::isConvertibleNumber<Type>(number)) {
-- 
2.43.0


From 929d50264210192df21e731dd00dac965568dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:08 +0000
Subject: [PATCH 27/35] fix: Generate deserialization code for base classes
 without default constructor if required

---
 generator/binaryserializationcodegenerator.cpp |  2 +-
 generator/jsonserializationcodegenerator.cpp   |  2 +-
 generator/serializationcodegenerator.cpp       | 15 +++++++++++++++
 generator/serializationcodegenerator.h         |  1 +
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/generator/binaryserializationcodegenerator.cpp b/generator/binaryserializationcodegenerator.cpp
index 3f12fe6..fe1b0a7 100644
--- a/generator/binaryserializationcodegenerator.cpp
+++ b/generator/binaryserializationcodegenerator.cpp
@@ -299,7 +299,7 @@ void BinarySerializationCodeGenerator::generate(std::ostream &os) const
         os << "}\n";
 
         // skip printing the readCustomType method for classes without default constructor because deserializing those is currently not supported
-        if (!relevantClass.record->hasDefaultConstructor()) {
+        if (!isDeserializable(relevantClass, relevantClasses)) {
             continue;
         }
 
diff --git a/generator/jsonserializationcodegenerator.cpp b/generator/jsonserializationcodegenerator.cpp
index 435c0a4..e62f8cd 100644
--- a/generator/jsonserializationcodegenerator.cpp
+++ b/generator/jsonserializationcodegenerator.cpp
@@ -132,7 +132,7 @@ void JsonSerializationCodeGenerator::generate(ostream &os) const
         os << "}\n";
 
         // skip printing the pull method for classes without default constructor because deserializing those is currently not supported
-        if (!relevantClass.record->hasDefaultConstructor()) {
+        if (!isDeserializable(relevantClass, relevantClasses)) {
             continue;
         }
 
diff --git a/generator/serializationcodegenerator.cpp b/generator/serializationcodegenerator.cpp
index ee3a70f..b88c342 100644
--- a/generator/serializationcodegenerator.cpp
+++ b/generator/serializationcodegenerator.cpp
@@ -144,4 +144,19 @@ std::vector<const SerializationCodeGenerator::RelevantClass *> SerializationCode
     return relevantBaseClasses;
 }
 
+/*!
+ * \brief Returns whether code for deserializing the specified \a relevantClass is required.
+ * \remarks Deserializing classes without default constructor is currently not supported. However, the code is still required
+ *          if one of the \a relevantClasses which can be default-constructed inherits from \a relevantClass.
+ */
+bool SerializationCodeGenerator::isDeserializable(
+    const SerializationCodeGenerator::RelevantClass &relevantClass, const std::vector<SerializationCodeGenerator::RelevantClass> &relevantClasses)
+{
+    return relevantClass.record->hasDefaultConstructor()
+        || std::any_of(relevantClasses.begin(), relevantClasses.end(), [&relevantClass](const RelevantClass &otherClass) {
+               return otherClass.record != relevantClass.record && otherClass.record->hasDefaultConstructor()
+                   && otherClass.record->isDerivedFrom(relevantClass.record);
+           });
+}
+
 } // namespace ReflectiveRapidJSON
diff --git a/generator/serializationcodegenerator.h b/generator/serializationcodegenerator.h
index 23a3236..733f945 100644
--- a/generator/serializationcodegenerator.h
+++ b/generator/serializationcodegenerator.h
@@ -36,6 +36,7 @@ protected:
     std::vector<RelevantClass> findRelevantClasses() const;
     static std::vector<const RelevantClass *> findRelevantBaseClasses(
         const RelevantClass &relevantClass, const std::vector<RelevantClass> &relevantBases);
+    static bool isDeserializable(const RelevantClass &relevantClass, const std::vector<RelevantClass> &relevantClasses);
 
 protected:
     const char *m_qualifiedNameOfRecords;
-- 
2.43.0


From e4c664935893ab908c28585e6214cadb72c1b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:27 +0000
Subject: [PATCH 28/35] fix: Reject time strings containing null bytes when
 reading them from JSON

---
 lib/json/reflector-chronoutilities.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index 2aee8e7..ba40a91 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -14,9 +14,28 @@
 #include <c++utilities/chrono/timespan.h>
 #include <c++utilities/conversion/conversionexception.h>
 
+#include <cstring>
+
 namespace ReflectiveRapidJSON {
 namespace JsonReflector {
 
+namespace Detail {
+
+/*!
+ * \brief Returns the string within the specified \a value for parsing it as time.
+ * \throws Throws CppUtilities::ConversionException if the string contains null bytes (and thus could not be parsed completely).
+ */
+inline const char *getTimeString(const RAPIDJSON_NAMESPACE::GenericValue<RAPIDJSON_NAMESPACE::UTF8<char>> &value)
+{
+    const auto *const str = value.GetString();
+    if (std::strlen(str) != value.GetStringLength()) {
+        throw CppUtilities::ConversionException("unexpected null byte");
+    }
+    return str;
+}
+
+} // namespace Detail
+
 // define functions to "push" values to a RapidJSON array or object
 
 template <>
@@ -48,7 +67,7 @@ inline void pull<CppUtilities::DateTime>(CppUtilities::DateTime &reflectable,
         return;
     }
     try {
-        reflectable = CppUtilities::DateTime::fromIsoStringGmt(value.GetString());
+        reflectable = CppUtilities::DateTime::fromIsoStringGmt(Detail::getTimeString(value));
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
@@ -67,7 +86,7 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
         return;
     }
     try {
-        reflectable = CppUtilities::TimeSpan::fromString(value.GetString());
+        reflectable = CppUtilities::TimeSpan::fromString(Detail::getTimeString(value));
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
-- 
2.43.0


From d37bc7907003e3fe312cd826582b79ba160efc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:47 +0000
Subject: [PATCH 29/35] fix: Restore negative time spans correctly from JSON

---
 lib/json/reflector-chronoutilities.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/json/reflector-chronoutilities.h b/lib/json/reflector-chronoutilities.h
index ba40a91..6ebb11e 100644
--- a/lib/json/reflector-chronoutilities.h
+++ b/lib/json/reflector-chronoutilities.h
@@ -14,6 +14,7 @@
 #include <c++utilities/chrono/timespan.h>
 #include <c++utilities/conversion/conversionexception.h>
 
+#include <cstdint>
 #include <cstring>
 
 namespace ReflectiveRapidJSON {
@@ -86,7 +87,14 @@ inline void pull<CppUtilities::TimeSpan>(CppUtilities::TimeSpan &reflectable,
         return;
     }
     try {
-        reflectable = CppUtilities::TimeSpan::fromString(Detail::getTimeString(value));
+        // apply leading minus sign to all components like CppUtilities::TimeSpan::toString() and not just to the first one
+        const auto *const str = Detail::getTimeString(value);
+        if (str[0] == '-' && str[1] >= '0' && str[1] <= '9') {
+            const auto ticks = static_cast<std::uint64_t>(CppUtilities::TimeSpan::fromString(str + 1).totalTicks());
+            reflectable = CppUtilities::TimeSpan(static_cast<std::int64_t>(0u - ticks));
+        } else {
+            reflectable = CppUtilities::TimeSpan::fromString(str);
+        }
     } catch (const CppUtilities::ConversionException &) {
         if (errors) {
             errors->reportConversionError(JsonType::String);
-- 
2.43.0


From 260663b965fb5547e21fb67c45677bf9f1e1b275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 30/35] fix: Make relative output directories work in
 add_reflection_generator_invocation

A relative OUTPUT_DIRECTORY (as shown in the README) was passed to the
generator relative to the source directory while CMake expects the output in
the build directory. Besides, the directory was not created and OUTPUT_LISTS
did not contain full paths.
---
 lib/cmake/modules/ReflectionGenerator.cmake | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/cmake/modules/ReflectionGenerator.cmake b/lib/cmake/modules/ReflectionGenerator.cmake
index ea3231b..a46cd80 100644
--- a/lib/cmake/modules/ReflectionGenerator.cmake
+++ b/lib/cmake/modules/ReflectionGenerator.cmake
@@ -99,11 +99,13 @@ function (add_reflection_generator_invocation)
         JSON_CLASSES)
     cmake_parse_arguments(ARGS "${OPTIONAL_ARGS}" "${ONE_VALUE_ARGS}" "${MULTI_VALUE_ARGS}" ${ARGN})
 
-    # determine file name or file path if none specified
+    # determine output directory if none specified; treat relative paths as relative to the build directory
     if (NOT ARGS_OUTPUT_DIRECTORY)
         set(ARGS_OUTPUT_DIRECTORY "${CMAKE_CURRENT_BINARY_DIR}/reflection")
-        file(MAKE_DIRECTORY "${ARGS_OUTPUT_DIRECTORY}")
+    elseif (NOT IS_ABSOLUTE "${ARGS_OUTPUT_DIRECTORY}")
+        set(ARGS_OUTPUT_DIRECTORY "${CMAKE_CURRENT_BINARY_DIR}/${ARGS_OUTPUT_DIRECTORY}")
     endif ()
+    file(MAKE_DIRECTORY "${ARGS_OUTPUT_DIRECTORY}")
 
     # specify Clang's resource directory
     list(APPEND ARGS_CLANG_OPTIONS -resource-dir "${REFLECTION_GENERATOR_CLANG_RESOURCE_DIR}")
-- 
2.43.0


From 8145ee619a0f2ffebc8ef502ed6e0607acd4ff21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:53 +0000
Subject: [PATCH 31/35] fix: Fix misspelling of BINARY_VISIBILITY in
 add_reflection_generator_invocation

The argument was only recognized as BINARY_VISBILITY so the correctly spelled
one was treated as a value of the preceding argument.
---
 lib/cmake/modules/ReflectionGenerator.cmake | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/cmake/modules/ReflectionGenerator.cmake b/lib/cmake/modules/ReflectionGenerator.cmake
index a46cd80..2fdc10a 100644
--- a/lib/cmake/modules/ReflectionGenerator.cmake
+++ b/lib/cmake/modules/ReflectionGenerator.cmake
@@ -88,7 +88,7 @@ include(CMakeParseArguments)
 function (add_reflection_generator_invocation)
     # parse arguments
     set(OPTIONAL_ARGS ERROR_RESILIENT)
-    set(ONE_VALUE_ARGS OUTPUT_DIRECTORY JSON_VISIBILITY BINARY_VISBILITY)
+    set(ONE_VALUE_ARGS OUTPUT_DIRECTORY JSON_VISIBILITY BINARY_VISIBILITY BINARY_VISBILITY)
     set(MULTI_VALUE_ARGS
         INPUT_FILES
         GENERATORS
@@ -197,7 +197,9 @@ function (add_reflection_generator_invocation)
         if (ARGS_JSON_VISIBILITY)
             list(APPEND CLI_ARGUMENTS --json-visibility "${ARGS_JSON_VISIBILITY}")
         endif ()
-        if (ARGS_BINARY_VISBILITY)
+        if (ARGS_BINARY_VISIBILITY)
+            list(APPEND CLI_ARGUMENTS --binary-visibility "${ARGS_BINARY_VISIBILITY}")
+        elseif (ARGS_BINARY_VISBILITY) # keep supporting previous misspelling
             list(APPEND CLI_ARGUMENTS --binary-visibility "${ARGS_BINARY_VISBILITY}")
         endif ()
         if (ARGS_ERROR_RESILIENT)
-- 
2.43.0


From c212a22db02d5454aa5fd961254ed048e4a74a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 32/35] fix: Avoid leftovers in previous elements when reading
 lists from binary data

Existing elements were reused when reading into a non-empty list. So members
which are not part of the data (due to versioning or because they are not
serialized) kept the value they had in the element previously present at the
same position (in contrast to all other containers and pointers where the
elements are always created from scratch).
---
 lib/binary/reflector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index 32a3a40..a762553 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -196,6 +196,7 @@ template <typename Type, Traits::EnableIf<IsArray<Type>, Traits::IsResizable<Typ
 void BinaryDeserializer::read(Type &iteratable, BinaryVersion version)
 {
     const auto size = readVariableLengthUIntBE();
+    iteratable.clear(); // avoid leftovers within previous elements (e.g. members not present in the version being read)
     iteratable.resize(size);
     for (auto &element : iteratable) {
         read(element, version);
-- 
2.43.0


From 7ca033c0aa26db66e2f85eb4fbdd84992d680998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 33/35] fix: Prevent confusing different objects sharing the
 same address when serializing

The address of an object is used as ID by BinarySerializer. If an object has
been freed after writing it (e.g. when writing temporary objects) the address
might be re-used by another object which was then wrongly written as reference
to the previous object. So keep the pointers until the serializer is
destroyed.
---
 lib/binary/reflector.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/binary/reflector.h b/lib/binary/reflector.h
index a762553..cb816b3 100644
--- a/lib/binary/reflector.h
+++ b/lib/binary/reflector.h
@@ -131,7 +131,7 @@ public:
     template <typename Type, Traits::EnableIf<IsCustomType<Type>> * = nullptr> void write(const Type &customType, BinaryVersion version = 0);
 
 private:
-    std::unordered_map<std::uint64_t, bool> m_pointer;
+    std::unordered_map<std::uint64_t, std::any> m_pointer; // holds the pointers to prevent addresses from being re-used
 };
 
 inline BinaryDeserializer::BinaryDeserializer(std::istream *stream)
@@ -306,7 +306,8 @@ void BinarySerializer::write(const Type &pointer, BinaryVersion version)
     const auto id = reinterpret_cast<std::uintptr_t>(pointer.get());
     const auto bigId = id >= 0x80000000000000;
     auto &alreadyWritten = m_pointer[id];
-    std::uint8_t mode = alreadyWritten ? 2 : 1;
+    const auto firstOccurrence = !alreadyWritten.has_value();
+    std::uint8_t mode = firstOccurrence ? 1 : 2;
     if (bigId) {
         mode = mode | 0x4; // "flag" 3rd bit to indicate big ID
     }
@@ -316,8 +317,8 @@ void BinarySerializer::write(const Type &pointer, BinaryVersion version)
     } else {
         writeVariableLengthUIntBE(id);
     }
-    if (!alreadyWritten) {
-        alreadyWritten = true;
+    if (firstOccurrence) {
+        alreadyWritten = pointer;
         write(*pointer, version);
     }
 }
-- 
2.43.0


From d5c93de11dff0581df1ae85154fa7dc4d96b98ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:23 +0000
Subject: [PATCH 34/35] fix: Support all integral types when (de)serializing
 JSON

---
 lib/json/reflector.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/json/reflector.h b/lib/json/reflector.h
index 0daeb11..aaadf8d 100644
--- a/lib/json/reflector.h
+++ b/lib/json/reflector.h
@@ -96,6 +96,19 @@ template <typename Type>
 using IsJsonSerializable
     = Traits::Any<Traits::Not<Traits::IsComplete<Type>>, std::is_base_of<JsonSerializable<Type>, Type>, AdaptedJsonSerializable<Type>>;
 
+/// \cond
+namespace Detail {
+/*!
+ * \brief Maps arithmetic types to the corresponding types supported by RapidJSON (which lacks support for e.g. short, char and long long).
+ */
+template <typename Type>
+using RapidJsonNumber = Traits::Conditional<Traits::Any<Traits::Not<std::is_integral<Type>>, std::is_same<Type, bool>>, Type,
+    Traits::Conditional<Traits::Bool<(sizeof(Type) < sizeof(int))>, int,
+        Traits::Conditional<Traits::Bool<sizeof(Type) == sizeof(int)>, Traits::Conditional<std::is_signed<Type>, int, unsigned int>,
+            Traits::Conditional<std::is_signed<Type>, std::int64_t, std::uint64_t>>>>;
+} // namespace Detail
+/// \endcond
+
 // define functions to "push" values to a RapidJSON array or object
 
 /*!
@@ -188,7 +201,7 @@ template <typename Type,
         std::is_floating_point<Type>> * = nullptr>
 inline void push(Type reflectable, RAPIDJSON_NAMESPACE::Value &value, RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
 {
-    value.Set(reflectable, allocator);
+    value.Set(static_cast<Detail::RapidJsonNumber<Type>>(reflectable), allocator);
 }
 
 /*!
@@ -593,9 +606,10 @@ inline void pull(
         }
         return;
     }
-    if constexpr (std::is_integral_v<Type>) {
-        if (value.Is<Type>()) {
-            reflectable = value.Get<Type>();
+    if constexpr (std::is_integral_v<Type> && sizeof(Type) >= sizeof(int)) {
+        using NumberType = Detail::RapidJsonNumber<Type>;
+        if (value.Is<NumberType>()) {
+            reflectable = static_cast<Type>(value.Get<NumberType>());
             return;
         }
     }
@@ -1116,7 +1130,7 @@ template <typename Type, Traits::EnableIfAny<std::is_integral<Type>, std::is_flo
 RAPIDJSON_NAMESPACE::Document toJsonDocument(Type reflectable)
 {
     RAPIDJSON_NAMESPACE::Document document(RAPIDJSON_NAMESPACE::kNumberType);
-    document.Set(reflectable, document.GetAllocator());
+    document.Set(static_cast<Detail::RapidJsonNumber<Type>>(reflectable), document.GetAllocator());
     return document;
 }
 
-- 
2.43.0


From 3bd348df53f9c3d7381946d62ae9e5819ef1ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:29 +0000
Subject: [PATCH 35/35] fix: Reset error context when throwing fatal JSON
 deserialization errors

---
 lib/json/errorhandling.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/json/errorhandling.h b/lib/json/errorhandling.h
index f23f95a..8c70556 100644
--- a/lib/json/errorhandling.h
+++ b/lib/json/errorhandling.h
@@ -182,7 +182,7 @@ struct JsonDeserializationErrors : public std::vector<JsonDeserializationError>
     } throwOn;
 
 private:
-    void throwMaybe(ThrowOn on) const;
+    void throwMaybe(ThrowOn on);
 };
 
 /*!
@@ -207,11 +207,16 @@ constexpr JsonDeserializationErrors::ThrowOn operator|(JsonDeserializationErrors
 /*!
  * \brief Throws the last error if its type is considered critical.
  * \param on Specifies the type of the last error as ThrowOn mask.
- * \remarks Behaviour is undefined if no error is present.
+ * \remarks
+ * - Behaviour is undefined if no error is present.
+ * - The context is reset when throwing because it is not restored during stack unwinding and the object might be re-used.
  */
-inline void JsonDeserializationErrors::throwMaybe(ThrowOn on) const
+inline void JsonDeserializationErrors::throwMaybe(ThrowOn on)
 {
     if (static_cast<std::uint8_t>(throwOn) & static_cast<std::uint8_t>(on)) {
+        currentRecord = "[document]";
+        currentMember = nullptr;
+        currentIndex = JsonDeserializationError::noIndex;
         throw back();
     }
 }
-- 
2.43.0

