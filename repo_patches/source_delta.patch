From 30d0b34a4380f9d4df39d5d8dfcf24a992d74796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:24 +0000
Subject: [PATCH 01/38] fix: release the held lock when an RLock or WLock is
 move-assigned over

---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 92897e3ed40760f03e3316a221f87ad5f3e416b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:24 +0000
Subject: [PATCH 02/38] fix: always resolve a failed request with its error,
 passing the message verbatim

---
 src/session.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..a0f97d1 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -463,12 +463,14 @@ class Impl : public dap::Session {
       handler(data.get(), nullptr);
       typeinfo->destruct(data.get());
     } else {
+      // "message" field in Response is an optional field.
       std::string message;
-      if (!d->field("message", &message)) {
-        handlers.error("Failed to deserialize message");
-        return;
+      d->field("message", &message);
+      if (message.empty()) {
+        // An empty message would represent success.
+        message = "Request failed";
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 7a2c32e276428fcafba5530876804f5dd29b2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:24 +0000
Subject: [PATCH 03/38] fix: do not drop a pending request when a malformed
 response names it

---
 src/session.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index a0f97d1..1ad04ec 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -437,6 +437,12 @@ class Impl : public dap::Session {
       return;
     }
 
+    dap::boolean success = false;
+    if (!d->field("success", &success)) {
+      handlers.error("Response missing int 'success' field");
+      return;
+    }
+
     const dap::TypeInfo* typeinfo;
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
@@ -445,12 +451,6 @@ class Impl : public dap::Session {
       return;
     }
 
-    dap::boolean success = false;
-    if (!d->field("success", &success)) {
-      handlers.error("Response missing int 'success' field");
-      return;
-    }
-
     if (success) {
       auto data = std::unique_ptr<uint8_t[]>(new uint8_t[typeinfo->size()]);
       typeinfo->construct(data.get());
-- 
2.43.0


From 5304f9db3fadc3cda3597cdb6ea4cc834a878a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:24 +0000
Subject: [PATCH 04/38] fix: forget the response handler of a request that
 could not be sent

---
 src/session.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 1ad04ec..00bcabb 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -117,10 +117,13 @@ class Impl : public dap::Session {
                  fs->field("arguments", [&](dap::Serializer* s) {
                    return requestTypeInfo->serialize(s, request);
                  });
-        })) {
+        }) ||
+        !send(s.dump())) {
+      // The request has failed. It no longer has a response.
+      handlers.removeResponse(seq);
       return false;
     }
-    return send(s.dump());
+    return true;
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
@@ -213,6 +216,11 @@ class Impl : public dap::Session {
       }
     }
 
+    void removeResponse(int seq) {
+      std::unique_lock<std::mutex> lock(responseMutex);
+      responseMap.erase(seq);
+    }
+
     std::pair<const dap::TypeInfo*, GenericEventHandler> event(
         const std::string& name) {
       std::unique_lock<std::mutex> lock(eventMutex);
-- 
2.43.0


From 73aa74a6ec979b3c6e13fc2acf56fe5518411529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:00 +0000
Subject: [PATCH 05/38] fix: treat the end of the stream as closed instead of
 reading it again for ever

---
 src/content_stream.cpp | 5 ++++-
 src/content_stream.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..b5ab4d4 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -33,11 +33,12 @@ ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
   on_invalid_data = std::move(rhs.on_invalid_data);
+  eof = rhs.eof;
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return (reader && !eof) ? reader->isOpen() : false;
 }
 
 void ContentReader::close() {
@@ -150,6 +151,8 @@ bool ContentReader::buffer(size_t bytes) {
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
     if (numGot == 0) {
+      // Readers block until there is data, unless the stream has ended.
+      eof = true;
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..55d7dbd 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -52,6 +52,7 @@ class ContentReader {
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
   OnInvalidData on_invalid_data;
+  bool eof = false;  // true once the reader has no more data
 };
 
 class ContentWriter {
-- 
2.43.0


From 913397402cf1f8e66f5379086919a684429b9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:01 +0000
Subject: [PATCH 06/38] fix: reject NUL bytes and overflowing lengths in
 message headers

---
 src/content_stream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index b5ab4d4..9d31aaa 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -18,6 +18,7 @@
 
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
+#include <limits>
 
 namespace dap {
 
@@ -68,8 +69,12 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    auto digit = size_t(c) - size_t('0');
+    if (len > (std::numeric_limits<size_t>::max() - digit) / 10) {
+      return badHeader();  // Length overflow
+    }
     len *= 10;
-    len += size_t(c) - size_t('0');
+    len += digit;
   }
   if (len == 0) {
     return "";
@@ -134,6 +139,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would find the terminator
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From b39353dc2c4e2c5d630bee6af2a3d0640c06a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:46 +0000
Subject: [PATCH 07/38] fix: treat a header without a positive length as
 invalid data

In close-on-invalid-data mode such a header was skipped without closing, so a
well-formed frame after it was still delivered.
---
 src/content_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 9d31aaa..c30834f 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -77,7 +77,7 @@ std::string ContentReader::read() {
     len += digit;
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
-- 
2.43.0


From 22ef84dbb8e731311c088f6b91cd9ce99dd7f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 08/38] fix: fail to decode an object from a JSON value that is
 not an object

---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 3 +++
 src/rapid_json_serializer.cpp    | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..613da3c 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -68,6 +68,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..4528b49 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..7710100 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -75,6 +75,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
-- 
2.43.0


From b98d549554ed8d347d5a63d748ec81062309acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 09/38] fix: do not assert when decoding an array from a
 non-array with RapidJSON

---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 7710100..607a1db 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -120,7 +120,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From 1ba134fdbadb77911a6a54626114fdca508dd9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 10/38] fix: fail to decode a structure from a JSON array with
 nlohmann

---
 src/nlohmann_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 4528b49..2538b4f 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -135,7 +135,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
-- 
2.43.0


From f21c2a4b09e13406d45771802fb09113c1b4944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 11/38] fix: decode integers consistently over the whole
 int64_t range and beyond

Integers above INT64_MAX wrapped around (nlohmann, RapidJSON), an any rejected
integers beyond int32 (RapidJSON) or above INT64_MAX (RapidJSON, JsonCpp).
---
 src/jsoncpp_json_serializer.cpp  |  2 ++
 src/nlohmann_json_serializer.cpp | 17 +++++++++++++++--
 src/rapid_json_serializer.cpp    | 24 ++++++++----------------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 613da3c..f1fa34a 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -92,6 +92,8 @@ bool JsonCppDeserializer::deserialize(dap::any* v) const {
     *v = dap::number(json->asDouble());
   } else if (json->isInt64()) {
     *v = dap::integer(json->asInt64());
+  } else if (json->isNumeric()) {
+    *v = dap::number(json->asDouble());  // Too large for an int64_t
   } else if (json->isString()) {
     *v = json->asString();
   } else if (json->isObject()) {
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 2538b4f..15a9595 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -21,6 +21,19 @@
 #define JSON_NOEXCEPTION 1
 #include <nlohmann/json.hpp>
 
+#include <limits>
+
+namespace {
+
+// Returns true if the JSON value is an integer that does not fit in an int64_t.
+bool isBeyondInt64(const nlohmann::json& json) {
+  return json.is_number_unsigned() &&
+         json.get<uint64_t>() >
+             static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
@@ -46,7 +59,7 @@ bool NlohmannDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::integer* v) const {
-  if (!json->is_number_integer()) {
+  if (!json->is_number_integer() || isBeyondInt64(*json)) {
     return false;
   }
   *v = json->get<int64_t>();
@@ -88,7 +101,7 @@ bool NlohmannDeserializer::deserialize(dap::object* v) const {
 bool NlohmannDeserializer::deserialize(dap::any* v) const {
   if (json->is_boolean()) {
     *v = dap::boolean(json->get<bool>());
-  } else if (json->is_number_float()) {
+  } else if (json->is_number_float() || isBeyondInt64(*json)) {
     *v = dap::number(json->get<double>());
   } else if (json->is_number_integer()) {
     *v = dap::integer(json->get<int64_t>());
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 607a1db..973c016 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -42,20 +42,12 @@ bool RapidDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::integer* v) const {
-  if (json()->IsInt()) {
-    *v = json()->GetInt();
-    return true;
-  } else if (json()->IsUint()) {
-    *v = static_cast<int64_t>(json()->GetUint());
-    return true;
-  } else if (json()->IsInt64()) {
-    *v = json()->GetInt64();
-    return true;
-  } else if (json()->IsUint64()) {
-    *v = static_cast<int64_t>(json()->GetUint64());
-    return true;
+  // True for all integers that fit in an int64_t.
+  if (!json()->IsInt64()) {
+    return false;
   }
-  return false;
+  *v = json()->GetInt64();
+  return true;
 }
 
 bool RapidDeserializer::deserialize(dap::number* v) const {
@@ -93,10 +85,10 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
 bool RapidDeserializer::deserialize(dap::any* v) const {
   if (json()->IsBool()) {
     *v = dap::boolean(json()->GetBool());
-  } else if (json()->IsDouble()) {
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
+  } else if (json()->IsNumber()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
   } else if (json()->IsString()) {
     *v = dap::string(json()->GetString());
   } else if (json()->IsNull()) {
-- 
2.43.0


From be76c7fc90262f4c3bef350acc18cf5354185ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:05 +0000
Subject: [PATCH 12/38] fix: do not decode a JSON real as an integer with
 JsonCpp, as with the other libraries

---
 src/jsoncpp_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index f1fa34a..931f644 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -44,7 +44,8 @@ bool JsonCppDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::integer* v) const {
-  if (!json->isInt64()) {
+  // isInt64() returns true for reals with an integral value as well.
+  if (json->type() == Json::ValueType::realValue || !json->isInt64()) {
     return false;
   }
   *v = json->asInt64();
-- 
2.43.0


From 6237ab3b20904f5d616327dd3d5d3eb173d173e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 13/38] fix: only decode the types of a variant into a variant

Any JSON value was accepted, leaving the variant holding a value of none of its
types. Likewise a null was decoded from any JSON value.
---
 include/dap/serialization.h | 39 ++++++++++++++++++++++++++++++++++++-
 src/typeof.cpp              |  5 +++--
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/include/dap/serialization.h b/include/dap/serialization.h
index c7d4c5e..4448795 100644
--- a/include/dap/serialization.h
+++ b/include/dap/serialization.h
@@ -110,9 +110,46 @@ bool Deserializer::deserialize(dap::optional<T>* opt) const {
   return true;
 }
 
+// internal functionality
+namespace detail {
+// VariantTypes helps decoding a variant of the given types.
+template <typename... Types>
+struct VariantTypes {
+  static bool contains(const any&) { return false; }
+  static bool deserialize(const Deserializer*, any*) { return false; }
+};
+
+template <typename T0, typename... Types>
+struct VariantTypes<T0, Types...> {
+  // contains() returns true if value holds one of the types.
+  static bool contains(const any& value) {
+    return value.is<T0>() || VariantTypes<Types...>::contains(value);
+  }
+  // deserialize() decodes the first of the types that can be decoded.
+  static bool deserialize(const Deserializer* d, any* value) {
+    T0 v{};
+    if (TypeOf<T0>::type()->deserialize(d, &v)) {
+      *value = v;
+      return true;
+    }
+    return VariantTypes<Types...>::deserialize(d, value);
+  }
+};
+}  // namespace detail
+
 template <typename T0, typename... Types>
 bool Deserializer::deserialize(dap::variant<T0, Types...>* var) const {
-  return deserialize(&var->value);
+  using VariantTypes = detail::VariantTypes<T0, Types...>;
+  any value;
+  if (!deserialize(&value)) {
+    return false;
+  }
+  if (!VariantTypes::contains(value) &&
+      !VariantTypes::deserialize(this, &value)) {
+    return false;
+  }
+  var->value = value;
+  return true;
 }
 
 template <typename T>
diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..a7ad1a8 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -52,8 +52,9 @@ struct TypeInfos {
     inline void destruct(void* ptr) const override {
       reinterpret_cast<null*>(ptr)->~null();
     }
-    inline bool deserialize(const dap::Deserializer*, void*) const override {
-      return true;
+    inline bool deserialize(const dap::Deserializer* d, void*) const override {
+      dap::any value;
+      return d->deserialize(&value) && value.is<null>();
     }
     inline bool serialize(dap::Serializer*, const void*) const override {
       return true;
-- 
2.43.0


From 76ebfc2ff0aeb21d6d128f3925638e0ff2367371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 14/38] fix: parse the whole message, and numbers exactly, with
 RapidJSON

Anything after a NUL byte was ignored and doubles could be off by a few units in
the last place.
---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 973c016..e2114de 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -24,7 +24,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 8db45a5d0a968175765c04ab052e4c70d3a4e705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:27 +0000
Subject: [PATCH 15/38] fix: keep strings and names that contain NULs whole
 with RapidJSON

---
 src/rapid_json_serializer.cpp | 38 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index e2114de..7ea631b 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -19,6 +19,17 @@
 #include <rapidjson/document.h>
 #include <rapidjson/prettywriter.h>
 
+namespace {
+
+// key() returns a JSON string that references the given string, which may
+// contain NULs.
+rapidjson::Value key(const std::string& str) {
+  return rapidjson::Value(
+      rapidjson::StringRef(str.data(), rapidjson::SizeType(str.size())));
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
@@ -62,7 +73,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  v->assign(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -77,7 +88,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    dap::string name(el->name.GetString(), el->name.GetStringLength());
+    (*v)[name] = el_val;
   }
   return true;
 }
@@ -90,7 +102,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
   } else if (json()->IsNumber()) {
     *v = dap::number(json()->GetDouble());
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -135,7 +147,7 @@ bool RapidDeserializer::field(
   if (!json()->IsObject()) {
     return false;
   }
-  auto it = json()->FindMember(name.c_str());
+  auto it = json()->FindMember(key(name));
   if (it == json()->MemberEnd()) {
     return cb(&NullDeserializer::instance);
   }
@@ -159,7 +171,7 @@ std::string RapidSerializer::dump() const {
   rapidjson::StringBuffer sb;
   rapidjson::PrettyWriter<rapidjson::StringBuffer> writer(sb);
   json()->Accept(writer);
-  return sb.GetString();
+  return std::string(sb.GetString(), sb.GetSize());
 }
 
 bool RapidSerializer::serialize(dap::boolean v) {
@@ -187,11 +199,12 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    if (!json()->HasMember(key(it.first))) {
+      rapidjson::Value name_value{
+          it.first.data(), rapidjson::SizeType(it.first.size()), allocator};
       json()->AddMember(name_value, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[key(it.first)];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -255,15 +268,16 @@ bool RapidSerializer::object(
     FS(rapidjson::Value* json, rapidjson::Document::AllocatorType& allocator)
         : json(json), allocator(allocator) {}
     bool field(const std::string& name, const SerializeFunc& cb) override {
-      if (!json->HasMember(name.c_str())) {
-        rapidjson::Value name_value{name.c_str(), allocator};
+      if (!json->HasMember(key(name))) {
+        rapidjson::Value name_value{
+            name.data(), rapidjson::SizeType(name.size()), allocator};
         json->AddMember(name_value, rapidjson::Value(), allocator);
       }
-      rapidjson::Value& member = (*json)[name.c_str()];
+      rapidjson::Value& member = (*json)[key(name)];
       RapidSerializer s(&member, allocator);
       auto res = cb(&s);
       if (s.removed) {
-        json->RemoveMember(name.c_str());
+        json->RemoveMember(key(name));
       }
       return res;
     }
-- 
2.43.0


From 7b6d005c2d654519e8d082cf9eb768b609865931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 16/38] fix: encode a null as null, not as an empty object,
 with RapidJSON

---
 src/rapid_json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 7ea631b..d467022 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -227,6 +227,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
-- 
2.43.0


From cd82b6903f692c5096cf72a596e703257c6c2a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:00 +0000
Subject: [PATCH 17/38] fix: do not terminate when encoding a string that is
 not UTF-8 with nlohmann

---
 src/nlohmann_json_serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 15a9595..3850916 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -173,7 +173,8 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Strings that are not valid UTF-8 must not terminate the process.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From 68938c84dbf2be2c08a2da41a74f183f32a411b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:29 +0000
Subject: [PATCH 18/38] fix: encode and decode the inherited field of
 StackFrameFormat

---
 src/protocol_types.cpp             | 19 ++++++++++---------
 tools/protocol_gen/protocol_gen.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..db899e9 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,16 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(StackFrameFormat,
+                                  ValueFormat,
+                                  "",
+                                  DAP_FIELD(includeAll, "includeAll"),
+                                  DAP_FIELD(line, "line"),
+                                  DAP_FIELD(module, "module"),
+                                  DAP_FIELD(parameterNames, "parameterNames"),
+                                  DAP_FIELD(parameterTypes, "parameterTypes"),
+                                  DAP_FIELD(parameterValues, "parameterValues"),
+                                  DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..917a268 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,16 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	switch s.base {
+	case "", "Request", "Response", "Event":
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	default: // The fields of the base struct are fields of this one, too.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From f04ff5457d1d7b8f89a17f88c55ee480d11ad0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:31 +0000
Subject: [PATCH 19/38] fix: do not abort when a malformed message is parsed
 with JsonCpp

---
 src/jsoncpp_json_serializer.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 931f644..c9cb263 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,7 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
+#include <exception>
 #include <memory>
 
 namespace dap {
@@ -151,15 +151,22 @@ bool JsonCppDeserializer::field(
 
 Json::Value JsonCppDeserializer::parse(const std::string& text) {
   Json::CharReaderBuilder builder;
+  // Only accept JSON, as the other JSON libraries do.
+  builder["allowComments"] = false;
+  builder["allowTrailingCommas"] = false;
+  builder["failIfExtra"] = true;
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
+  try {
+    if (jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                          &error)) {
+      return json;
+    }
+  } catch (const std::exception&) {
     // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
   }
-  return json;
+  return Json::Value();
 }
 
 JsonCppSerializer::JsonCppSerializer()
-- 
2.43.0


From 608519731b78fe824ef0b83b9821fe78e593e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:31 +0000
Subject: [PATCH 20/38] fix: accept requests and events that leave out
 arguments and body with no required field

---
 src/session.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 00bcabb..d156872 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -324,6 +324,25 @@ class Impl : public dap::Session {
     return {};
   }
 
+  // deserialize() deserializes the member 'name' of the message d to data.
+  // The member may be missing if none of the fields of the type is required.
+  static bool deserialize(const dap::Deserializer* d,
+                          const std::string& name,
+                          const dap::TypeInfo* typeinfo,
+                          void* data) {
+    if (d->field(name, [&](const dap::Deserializer* d) {
+          return typeinfo->deserialize(d, data);
+        })) {
+      return true;
+    }
+    dap::any value;
+    if (d->field(name, &value)) {
+      return false;
+    }
+    dap::json::Deserializer empty("{}");
+    return typeinfo->deserialize(&empty, data);
+  }
+
   Payload processRequest(dap::json::Deserializer* d, dap::integer sequence) {
     dap::string command;
     if (!d->field("command", &command)) {
@@ -343,9 +362,7 @@ class Impl : public dap::Session {
     auto data = new uint8_t[typeinfo->size()];
     typeinfo->construct(data);
 
-    if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
-        })) {
+    if (!deserialize(d, "arguments", typeinfo, data)) {
       handlers.error("Failed to deserialize request");
       typeinfo->destruct(data);
       delete[] data;
@@ -416,15 +433,7 @@ class Impl : public dap::Session {
     typeinfo->construct(data);
 
     // "body" is an optional field for some events, such as "Terminated Event".
-    bool body_ok = true;
-    d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
-        body_ok = false;
-      }
-      return true;
-    });
-
-    if (!body_ok) {
+    if (!deserialize(d, "body", typeinfo, data)) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
       typeinfo->destruct(data);
       delete[] data;
-- 
2.43.0


From d3aa02e87e1849196e7ae60a7c74fefbf3f305fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:20 +0000
Subject: [PATCH 21/38] fix: report messages nested too deeply instead of
 overflowing the stack

---
 src/session.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/session.cpp b/src/session.cpp
index d156872..7a9cdd8 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -23,6 +23,7 @@
 
 #include <stdarg.h>
 #include <stdio.h>
+#include <algorithm>
 #include <atomic>
 #include <deque>
 #include <memory>
@@ -296,7 +297,40 @@ class Impl : public dap::Session {
         responseSentMap;
   };  // EventHandlers
 
+  // The deepest nesting of arrays and objects accepted in a message. The
+  // messages are parsed and deserialized recursively.
+  static constexpr size_t maxNestingDepth = 500;
+
+  // nestingDepth() returns the deepest nesting of arrays and objects in json.
+  static size_t nestingDepth(const std::string& json) {
+    size_t depth = 0;
+    size_t deepest = 0;
+    bool inString = false;
+    for (size_t i = 0; i < json.size(); i++) {
+      auto c = json[i];
+      if (inString) {
+        if (c == '\\') {
+          i++;
+        } else if (c == '"') {
+          inString = false;
+        }
+      } else if (c == '"') {
+        inString = true;
+      } else if (c == '[' || c == '{') {
+        deepest = std::max(deepest, ++depth);
+      } else if ((c == ']' || c == '}') && depth > 0) {
+        depth--;
+      }
+    }
+    return deepest;
+  }
+
   Payload processMessage(const std::string& str) {
+    if (nestingDepth(str) > maxNestingDepth) {
+      handlers.error("Message is nested too deeply");
+      return {};
+    }
+
     auto d = dap::json::Deserializer(str);
     dap::string type;
     if (!d.field("type", &type)) {
-- 
2.43.0


From d9609922782ede0dc34d194eaafcbe419e480d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:55 +0000
Subject: [PATCH 22/38] fix: any: assignment from itself or a part of itself,
 and moves of heap values

Moving an any that holds a heap allocated value did not take over the heap
pointer, so that the block was never freed (and moved out in-buffer values
were never destroyed). Assigning an any to itself, or assigning a part of the
contained value, read the value after it was destroyed.
---
 include/dap/any.h | 62 ++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 27 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..eb8e82b 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -20,6 +20,8 @@
 #include <assert.h>
 #include <stdint.h>
 
+#include <utility>  // std::move
+
 namespace dap {
 
 template <typename T>
@@ -68,6 +70,7 @@ class any {
   static inline void* alignUp(void* val, size_t alignment);
   inline void alloc(size_t size, size_t align);
   inline void free();
+  inline void take(any& other);
   inline bool isInBuffer(void* ptr) const;
 
   void* value = nullptr;
@@ -92,15 +95,8 @@ any::any(const any& other) noexcept : type(other.type) {
   }
 }
 
-any::any(any&& other) noexcept : type(other.type) {
-  if (other.isInBuffer(other.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, other.value);
-  } else {
-    value = other.value;
-  }
-  other.value = nullptr;
-  other.type = nullptr;
+any::any(any&& other) noexcept {
+  take(other);
 }
 
 void any::reset() {
@@ -113,41 +109,36 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  // The value of rhs may be a part of the value that is replaced.
+  any tmp(rhs);
   reset();
-  type = rhs.type;
-  if (rhs.value != nullptr) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  }
+  take(tmp);
   return *this;
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  // rhs may be a part of the value that is replaced.
+  any tmp(std::move(rhs));
   reset();
-  type = rhs.type;
-  if (rhs.isInBuffer(rhs.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  } else {
-    value = rhs.value;
-  }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
+  take(tmp);
   return *this;
 }
 
 template <typename T>
 any& any::operator=(const T& val) {
+  // val may be a part of the value that is replaced.
   if (!is<T>()) {
+    any tmp;
+    tmp.type = TypeOf<T>::type();
+    tmp.alloc(tmp.type->size(), tmp.type->alignment());
+    tmp.type->copyConstruct(tmp.value, &val);
     reset();
-    type = TypeOf<T>::type();
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, &val);
+    take(tmp);
   } else {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
 #endif
-    *reinterpret_cast<T*>(value) = val;
+    *reinterpret_cast<T*>(value) = T(val);
   }
   return *this;
 }
@@ -200,6 +191,23 @@ void any::free() {
   value = nullptr;
 }
 
+void any::take(any& other) {
+  assert(value == nullptr);
+  if (other.isInBuffer(other.value)) {
+    type = other.type;
+    alloc(type->size(), type->alignment());
+    type->copyConstruct(value, other.value);
+    other.reset();
+  } else {
+    type = other.type;
+    value = other.value;
+    heap = other.heap;
+    other.type = nullptr;
+    other.value = nullptr;
+    other.heap = nullptr;
+  }
+}
+
 bool any::isInBuffer(void* ptr) const {
   auto addr = reinterpret_cast<uintptr_t>(ptr);
   return addr >= reinterpret_cast<uintptr_t>(buffer) &&
-- 
2.43.0


From 25fdfc30d1dedabcaa3888dbe0b637d0612f4802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 23/38] fix: Socket: deadlock if the address could not be bound

The constructor released the shared socket, whose destructor takes the
exclusive lock, while holding the shared lock. Server::start() on a port that
is in use never returned.
---
 src/socket.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..1f5e57c 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,15 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
-        return;
-      }
-
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening = bind(socket, info->ai_addr, (int)info->ai_addrlen) == 0 &&
+                  listen(socket, 0) == 0;
     });
+    // Note: shared must not be released while its lock is held.
+    if (!listening) {
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 843223e6776b10d0cdc0d276e7d9c7580991c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 24/38] fix: Socket: partial and interrupted transfers, SIGPIPE

A send() that took only a part of the data was reported as a successful write
and the rest was lost. Interrupted calls were taken for the end of the stream
or a failure. Writing to a connection closed by the peer raised SIGPIPE.
---
 src/socket.cpp | 48 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 1f5e57c..20deb9f 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -34,6 +34,7 @@ namespace {
 std::atomic<int> wsaInitCount = {0};
 }  // anonymous namespace
 #else
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 namespace {
@@ -41,6 +42,10 @@ using SOCKET = int;
 }  // anonymous namespace
 #endif
 
+#if !defined(MSG_NOSIGNAL)
+#define MSG_NOSIGNAL 0
+#endif
+
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
 void init() {
@@ -74,6 +79,16 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// interrupted() returns true if the last socket call failed only because it was
+// interrupted by a signal.
+bool interrupted() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -149,6 +164,11 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     setsockopt(s, SOL_SOCKET, SO_LINGER, (char*)&linger, sizeof(linger));
 #endif  // !defined(_WIN32)
 
+#if defined(SO_NOSIGPIPE)
+    // Report writes to a closed connection as errors, not as signals.
+    setsockopt(s, SOL_SOCKET, SO_NOSIGPIPE, (char*)&enable, sizeof(enable));
+#endif
+
     // Enable TCP_NODELAY.
     // DAP usually consists of small packet requests, with small packet
     // responses. When there are many frequent, blocking requests made,
@@ -205,9 +225,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    while (true) {
+      auto len =
+          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
@@ -215,11 +240,20 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+    // ::send() may send only a part of the buffer.
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto len = ::send(s, data, static_cast<int>(bytes), MSG_NOSIGNAL);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      if (len <= 0) {
+        return false;
+      }
+      data += len;
+      bytes -= len;
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
-- 
2.43.0


From 2b23acba4501e7b963be719b1dca78582d1cd4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 25/38] fix: Socket: accept() gave up when interrupted

A signal, or a client that disconnected before it was accepted, made accept()
fail, which ended the server's accept loop while it was still listening.
---
 src/socket.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/socket.cpp b/src/socket.cpp
index 20deb9f..1cac221 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -89,6 +89,16 @@ bool interrupted() {
 #endif
 }
 
+// transient() returns true if the last ::accept() failed for a reason that does
+// not concern the listening socket.
+bool transient() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR || errno == ECONNABORTED;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -286,6 +296,9 @@ std::shared_ptr<ReaderWriter> Socket::accept() const {
       if (socket != InvalidSocket && !errored(socket)) {
         init();
         auto accepted = ::accept(socket, 0, 0);
+        while (accepted == InvalidSocket && transient()) {
+          accepted = ::accept(socket, 0, 0);
+        }
         if (accepted != InvalidSocket) {
           out = std::make_shared<Shared>(accepted);
           out->setOptions();
-- 
2.43.0


From 7e3ad51e1d55235e30480b14f4fd0c39b0f3afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 26/38] fix: Socket: isOpen() leaked the descriptor of a broken
 connection

---
 src/socket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 1cac221..7d03660 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -194,8 +194,8 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    // Releases the socket.
+    close();
     return false;
   }
 
-- 
2.43.0


From b93b82d847d8b72a00095e3d06e6880345038d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:39 +0000
Subject: [PATCH 27/38] fix: Socket: connect() with a timeout returned an
 unconnected socket

If ::connect() failed immediately (for example with ENETUNREACH), the socket
was reported as connected as it is writable and has no pending error. Timeouts
of more than 71 minutes overflowed.
---
 src/socket.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 7d03660..cf945e8 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -99,6 +99,16 @@ bool transient() {
 #endif
 }
 
+// connecting() returns true if the last, non-blocking, ::connect() has not
+// failed but is still in progress.
+bool connecting() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS || errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -352,16 +362,14 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
-      const auto microseconds = timeoutMillis * 1000;
-
+    } else if (connecting()) {
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
 
       timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
+      tv.tv_sec = timeoutMillis / 1000;
+      tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
-- 
2.43.0


From 8c0f09c006e499fbe5a5e88a81b852cc34204b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:06 +0000
Subject: [PATCH 28/38] fix: file(): do not use the file after it has been
 closed

---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..1b59424 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -116,6 +116,9 @@ class File : public dap::ReaderWriter {
   void close() override {
     if (closable) {
       if (!closed.exchange(true)) {
+        // Wait for calls that are using the file to notice and return.
+        std::unique_lock<std::mutex> readLock(readMutex);
+        std::unique_lock<std::mutex> writeLock(writeMutex);
         fclose(f);
       }
     }
@@ -124,6 +127,9 @@ class File : public dap::ReaderWriter {
     std::unique_lock<std::mutex> lock(readMutex);
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
+      if (closed) {
+        return i;
+      }
       int c = fgetc(f);
       if (c == EOF) {
         return i;
@@ -134,6 +140,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     if (fwrite(buffer, 1, n, f) == n) {
       fflush(f);
       return true;
-- 
2.43.0


From 1528594cc24490e61f22353221edc83aa1c58a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:06 +0000
Subject: [PATCH 29/38] fix: file(): write() returned true although the data
 could not be written

---
 src/io.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 1b59424..7642e07 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -143,11 +143,7 @@ class File : public dap::ReaderWriter {
     if (closed) {
       return false;
     }
-    if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
-    }
-    return false;
+    return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
  private:
-- 
2.43.0


From 9ef31dc161888e5d662383c1c9a60a44b5f329ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:06 +0000
Subject: [PATCH 30/38] fix: writef() truncated long strings

---
 src/io.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 7642e07..9f501e5 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -18,7 +18,6 @@
 #include <condition_variable>
 #include <cstdarg>
 #include <cstdio>
-#include <cstring>  // strlen
 #include <deque>
 #include <mutex>
 #include <string>
@@ -254,10 +253,20 @@ bool writef(const std::shared_ptr<Writer>& w, const char* msg, ...) {
 
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  int len = vsnprintf(buf, sizeof(buf), msg, vararg);
   va_end(vararg);
+  if (len < 0) {
+    return false;
+  }
+  if (size_t(len) < sizeof(buf)) {
+    return w->write(buf, size_t(len));
+  }
 
-  return w->write(buf, strlen(buf));
+  std::string str(size_t(len) + 1, '\0');
+  va_start(vararg, msg);
+  vsnprintf(&str[0], str.size(), msg, vararg);
+  va_end(vararg);
+  return w->write(str.data(), size_t(len));
 }
 
 }  // namespace dap
-- 
2.43.0


From d23b099197271d2fb3f471d6a199b1e02aa509de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:19 +0000
Subject: [PATCH 31/38] fix: a serializer used again kept parts of the previous
 value

---
 src/jsoncpp_json_serializer.cpp  |  5 ++---
 src/nlohmann_json_serializer.cpp |  5 ++---
 src/rapid_json_serializer.cpp    | 12 +++---------
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index c9cb263..2209e5d 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -207,9 +207,7 @@ bool JsonCppSerializer::serialize(const dap::string& v) {
 }
 
 bool JsonCppSerializer::serialize(const dap::object& v) {
-  if (!json->isObject()) {
-    *json = Json::Value(Json::objectValue);
-  }
+  *json = Json::Value(Json::objectValue);
   for (auto& it : v) {
     JsonCppSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -232,6 +230,7 @@ bool JsonCppSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = Json::Value();
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 3850916..fbd9685 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -198,9 +198,7 @@ bool NlohmannSerializer::serialize(const dap::string& v) {
 }
 
 bool NlohmannSerializer::serialize(const dap::object& v) {
-  if (!json->is_object()) {
-    *json = nlohmann::json::object();
-  }
+  *json = nlohmann::json::object();
   for (auto& it : v) {
     NlohmannSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -223,6 +221,7 @@ bool NlohmannSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = nullptr;
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index d467022..1d34f6c 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -195,9 +195,7 @@ bool RapidSerializer::serialize(const dap::string& v) {
 }
 
 bool RapidSerializer::serialize(const dap::object& v) {
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   for (auto& it : v) {
     if (!json()->HasMember(key(it.first))) {
       rapidjson::Value name_value{
@@ -243,9 +241,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
 
 bool RapidSerializer::array(size_t count,
                             const std::function<bool(dap::Serializer*)>& cb) {
-  if (!json()->IsArray()) {
-    json()->SetArray();
-  }
+  json()->SetArray();
 
   while (count > json()->Size()) {
     json()->PushBack(rapidjson::Value(), allocator);
@@ -284,9 +280,7 @@ bool RapidSerializer::object(
     }
   };
 
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   FS fs{json(), allocator};
   return cb(&fs);
 }
-- 
2.43.0


From f2f0c61f2bd8c0888a50e09f47317d91806c70b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:48 +0000
Subject: [PATCH 32/38] fix: type informations first used by two threads at
 once could be lost

TypeInfo::deleteOnExit() added to the list of type informations without a
lock, so that the first uses of two array, optional or variant types on
different threads could corrupt it.
---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index a7ad1a8..f3741ec 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -68,6 +69,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
+  std::mutex typesMutex;  // guards types
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
@@ -131,7 +133,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto typeinfos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);
+  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From 5e67cc6c3894efb3c4c2d08e200f3cc131c39a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:40 +0000
Subject: [PATCH 33/38] fix: type informations of structures did not outlive
 static destruction

initialize() keeps the library's types usable until terminate(), but the
type information of a structure was a static object of its own, destroyed
with the other statics: a global any holding a structure then used a
destroyed object.
---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..dddcf00 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static TI* typeinfo = TypeInfo::create<TI>();                           \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static TI* typeinfo = TypeInfo::create<TI>();                         \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From d82ba1e416af918b5c174ffa0c7e6d914be46001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:34 +0000
Subject: [PATCH 34/38] fix: an error reported while a handler is registered
 could race with onError()

---
 src/session.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/session.cpp b/src/session.cpp
index 7a9cdd8..12446b6 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -262,6 +262,7 @@ class Impl : public dap::Session {
     void errorfLocked(const char* format, ...) {
       va_list vararg;
       va_start(vararg, format);
+      std::unique_lock<std::mutex> lock(errorMutex);
       errorLocked(format, vararg);
       va_end(vararg);
     }
-- 
2.43.0


From a5229b7dc6883eb72c1493f9f580692fcc33e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:43 +0000
Subject: [PATCH 35/38] fix: connecting with a timeout overflowed an fd_set
 with sockets above FD_SETSIZE

---
 src/socket.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index cf945e8..cb66167 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,9 @@
 
 #include "rwmutex.h"
 
+#include <limits.h>
+#include <algorithm>  // std::min
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -23,7 +26,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -363,6 +366,7 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else if (connecting()) {
+#if defined(_WIN32)
       fd_set fdset;
       FD_ZERO(&fdset);
       FD_SET(socket, &fdset);
@@ -371,6 +375,14 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       tv.tv_sec = timeoutMillis / 1000;
       tv.tv_usec = (timeoutMillis % 1000) * 1000;
       res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
+#else
+      // Note: ::select() cannot be used with sockets of FD_SETSIZE and above.
+      pollfd pfd = {};
+      pfd.fd = socket;
+      pfd.events = POLLOUT;
+      res = poll(&pfd, 1,
+                 static_cast<int>(std::min<uint32_t>(timeoutMillis, INT_MAX)));
+#endif
       if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
         out = shared;
       }
-- 
2.43.0


From b6b6f0823aa5fa3a01820b11be728044c539abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:18 +0000
Subject: [PATCH 36/38] fix: a structure whose base is not at its start was
 encoded and decoded at the wrong address

---
 include/dap/typeof.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index dddcf00..784ed27 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -236,14 +236,14 @@ M member_type(M T::*);
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
       bool deserialize(const Deserializer* d, void* obj) const override { \
         auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
+        auto base = static_cast<BASE*>(derived);                          \
         return TypeOf<BASE>::deserializeFields(d, base) &&                \
                deserializeFields(d, derived);                             \
       }                                                                   \
       bool serialize(Serializer* s, const void* obj) const override {     \
         return s->object([&](FieldSerializer* fs) {                       \
           auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
+          auto base = static_cast<const BASE*>(derived);                  \
           return TypeOf<BASE>::serializeFields(fs, base) &&               \
                  serializeFields(fs, derived);                            \
         });                                                               \
-- 
2.43.0


From b35109e79b5f19d747dc7945136a58ee0b031321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:33 +0000
Subject: [PATCH 37/38] fix: fields inherited through two derivations were
 neither encoded nor decoded

---
 include/dap/typeof.h | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 784ed27..f5273fd 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -159,11 +159,17 @@ M member_type(M T::*);
 // and serializeFields() static methods of a TypeOf<> specialization. Used
 // internally by DAP_IMPLEMENT_STRUCT_TYPEINFO() and
 // DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT().
+// DESERIALIZE_BASE and SERIALIZE_BASE are expressions handling the fields of the
+// base structure, if there is one.
 // You probably do not want to use this directly.
-#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, ...)           \
+#define DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, DESERIALIZE_BASE,    \
+                                                 SERIALIZE_BASE, ...)         \
   bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    if (!(DESERIALIZE_BASE)) {                                                \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fd->field(field.name, [&](Deserializer* d) {                       \
             auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \
@@ -177,6 +183,9 @@ M member_type(M T::*);
   bool TypeOf<STRUCT>::serializeFields(FieldSerializer* fs, const void* obj) {\
     using StructTy = STRUCT;                                                  \
     (void)sizeof(StructTy); /* avoid unused 'using' warning */                \
+    if (!(SERIALIZE_BASE)) {                                                  \
+      return false;                                                           \
+    }                                                                         \
     for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {            \
       if (!fs->field(field.name, [&](Serializer* s) {                         \
             auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \
@@ -196,7 +205,7 @@ M member_type(M T::*);
 // DAP_FIELD()s, one for each field of the struct.
 // Must be used within the 'dap' namespace.
 #define DAP_IMPLEMENT_STRUCT_TYPEINFO(STRUCT, NAME, ...)                    \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)       \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, true, true, __VA_ARGS__) \
   const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                           \
     struct TI : BasicTypeInfo<STRUCT> {                                     \
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                                 \
@@ -230,23 +239,22 @@ M member_type(M T::*);
 #define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)        \
   static_assert(std::is_base_of<BASE, STRUCT>::value,                     \
                 #STRUCT " does not derive from " #BASE);                  \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)     \
+  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(                               \
+      STRUCT,                                                             \
+      TypeOf<BASE>::deserializeFields(                                    \
+          fd, static_cast<BASE*>(static_cast<STRUCT*>(obj))),             \
+      TypeOf<BASE>::serializeFields(                                      \
+          fs, static_cast<const BASE*>(static_cast<const STRUCT*>(obj))), \
+      __VA_ARGS__)                                                        \
   const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                         \
     struct TI : BasicTypeInfo<STRUCT> {                                   \
       TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
       bool deserialize(const Deserializer* d, void* obj) const override { \
-        auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(derived);                          \
-        return TypeOf<BASE>::deserializeFields(d, base) &&                \
-               deserializeFields(d, derived);                             \
+        return deserializeFields(d, obj);                                 \
       }                                                                   \
       bool serialize(Serializer* s, const void* obj) const override {     \
-        return s->object([&](FieldSerializer* fs) {                       \
-          auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(derived);                  \
-          return TypeOf<BASE>::serializeFields(fs, base) &&               \
-                 serializeFields(fs, derived);                            \
-        });                                                               \
+        return s->object(                                                 \
+            [&](FieldSerializer* fs) { return serializeFields(fs, obj); });\
       }                                                                   \
     };                                                                    \
     static TI* typeinfo = TypeInfo::create<TI>();                         \
-- 
2.43.0


From 5de3ebb871b769e05d83e296a8e3c68350c0a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:55 +0000
Subject: [PATCH 38/38] fix: destroy requests and events that are never handled

The request or event deserialized for a payload was owned by nobody until the
payload was called: a payload dropped by the caller of getPayload(), or one
that reached the inbox of a session being destroyed, leaked the object.
---
 src/session.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 12446b6..3a413ca 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -378,6 +378,17 @@ class Impl : public dap::Session {
     return typeinfo->deserialize(&empty, data);
   }
 
+  // construct() returns a new value of the given type. The value is destructed
+  // with the last reference to it, whether or not it was ever handled.
+  static std::shared_ptr<uint8_t> construct(const dap::TypeInfo* typeinfo) {
+    auto data = new uint8_t[typeinfo->size()];
+    typeinfo->construct(data);
+    return std::shared_ptr<uint8_t>(data, [typeinfo](uint8_t* ptr) {
+      typeinfo->destruct(ptr);
+      delete[] ptr;
+    });
+  }
+
   Payload processRequest(dap::json::Deserializer* d, dap::integer sequence) {
     dap::string command;
     if (!d->field("command", &command)) {
@@ -394,19 +405,16 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
-    if (!deserialize(d, "arguments", typeinfo, data)) {
+    if (!deserialize(d, "arguments", typeinfo, data.get())) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -443,8 +451,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -464,22 +470,15 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
-    if (!deserialize(d, "body", typeinfo, data)) {
+    if (!deserialize(d, "body", typeinfo, data.get())) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
-    return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
-    };
+    return [=] { handler(data.get()); };
   }
 
   void processResponse(const dap::Deserializer* d) {
-- 
2.43.0

