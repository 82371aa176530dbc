From 25de9f0d4929460e22d11271bc6f29d1d8b4ba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 01/29] fix: copies of RawBytes own their content

The implicit copy shared the buffer between the copies, each of which deleted it.
---
 include/lamppost/data/RawBytes.h |  4 ++++
 src/lamppost/data/RawBytes.cpp   | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/lamppost/data/RawBytes.h b/include/lamppost/data/RawBytes.h
index 9e6f7cb..bd06743 100644
--- a/include/lamppost/data/RawBytes.h
+++ b/include/lamppost/data/RawBytes.h
@@ -3,6 +3,7 @@
 
 
 #include <cstring>
+#include <utility>
 
 #include <lamppost/exceptions/ArgumentNullException.h>
 
@@ -20,8 +21,11 @@ namespace lp
     public:
       RawBytes();
       RawBytes(void* content, std::size_t size);
+      RawBytes(const RawBytes& other);
       ~RawBytes();
 
+      RawBytes& operator=(const RawBytes& other);
+
       const void* GetContent();
       std::size_t GetSize();
 
diff --git a/src/lamppost/data/RawBytes.cpp b/src/lamppost/data/RawBytes.cpp
index f63fb9e..752b1ea 100644
--- a/src/lamppost/data/RawBytes.cpp
+++ b/src/lamppost/data/RawBytes.cpp
@@ -23,6 +23,15 @@ namespace lp
       std::memcpy(mContent, content, size);
     }
 
+    RawBytes::RawBytes(const RawBytes& other)
+    : RawBytes()
+    {
+      if(other.mContent != nullptr)
+      {
+        Append(other.mContent, other.mSize);
+      }
+    }
+
     RawBytes::~RawBytes()
     {
       if(mContent != nullptr)
@@ -31,6 +40,16 @@ namespace lp
       }
     }
 
+    RawBytes& RawBytes::operator=(const RawBytes& other)
+    {
+      RawBytes copy(other);
+
+      std::swap(mContent, copy.mContent);
+      std::swap(mSize, copy.mSize);
+
+      return *this;
+    }
+
     const void* RawBytes::GetContent()
     {
       return mContent;
-- 
2.43.0


From a925f300415ea68f08f73ed43df5d0806824ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:02 +0000
Subject: [PATCH 02/29] fix: compare configurations completely

Search path lists of different lengths compared equal to their prefixes or were read past their
end, and the configuration files were not compared at all.
---
 include/lamppost/LampPostConfiguration.h             | 4 +++-
 include/lamppost/plugin/PluginManagerConfiguration.h | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/LampPostConfiguration.h b/include/lamppost/LampPostConfiguration.h
index 969413e..7dc402b 100644
--- a/include/lamppost/LampPostConfiguration.h
+++ b/include/lamppost/LampPostConfiguration.h
@@ -25,7 +25,9 @@ namespace lp
 
     bool operator==(const LampPostConfiguration& other) const
     {
-      return mPluginManagerConfiguration == other.mPluginManagerConfiguration;
+      return
+        mPluginManagerConfiguration == other.mPluginManagerConfiguration &&
+        mConfigurationFiles == other.mConfigurationFiles;
     }
 
     bool operator!=(const LampPostConfiguration& other) const
diff --git a/include/lamppost/plugin/PluginManagerConfiguration.h b/include/lamppost/plugin/PluginManagerConfiguration.h
index f884a12..5e89f96 100644
--- a/include/lamppost/plugin/PluginManagerConfiguration.h
+++ b/include/lamppost/plugin/PluginManagerConfiguration.h
@@ -30,7 +30,7 @@ namespace lp
     {
       return
         mBus == rhs.mBus &&
-        std::equal(mTemplateSearchPaths.begin(), mTemplateSearchPaths.end(), rhs.mTemplateSearchPaths.begin());
+        mTemplateSearchPaths == rhs.mTemplateSearchPaths;
     }
 
     bool operator!=(const lp::PluginManagerConfiguration& rhs) const
-- 
2.43.0


From fa925784ae45f5fea761b6ff3762f6991826652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 03/29] fix: draw all bits of a Uuid from the random device

Seeding the generator with a single 32-bit number meant that there were only 2^32 identifiers:
repetitions were to be expected after some ten thousand.
---
 include/lamppost/utilities/Uuid.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lamppost/utilities/Uuid.h b/include/lamppost/utilities/Uuid.h
index a84b584..e73b722 100644
--- a/include/lamppost/utilities/Uuid.h
+++ b/include/lamppost/utilities/Uuid.h
@@ -28,8 +28,7 @@ namespace lp
       {
         Uuid uuid;
 
-        std::mt19937 rng;
-        rng.seed(std::random_device()());
+        std::random_device rng;
         std::uniform_int_distribution<unsigned int> dist(1, -1);
 
         char buffer[128];
-- 
2.43.0


From 0bae626a32d80ce0b211a9b1123a1be6fe6d3272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 04/29] fix: string literals are stored in datagrams as texts

---
 include/lamppost/messages/RawDatagram.h |  2 ++
 src/lamppost/messages/RawDatagram.cpp   | 14 ++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index a70081d..ef8f21d 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -63,6 +63,7 @@ namespace lp
       RawDatagram();
       RawDatagram(RawDatagramType rawDatagramType);
       RawDatagram(std::shared_ptr<DataBase> data);
+      RawDatagram(const char* contentValue);
 
       template<typename ContentType>
       RawDatagram(ContentType contentValue)
@@ -95,6 +96,7 @@ namespace lp
 
       // Values
       RawDatagram& operator=(std::string value);
+      RawDatagram& operator=(const char* value);
       RawDatagram& operator=(int value);
       RawDatagram& operator=(double value);
       RawDatagram& operator=(bool value);
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index e005bc2..fe5b6b4 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -32,6 +32,13 @@ namespace lp
     {
     }
 
+    RawDatagram::RawDatagram(const char* contentValue)
+      : mType(RawDatagramType::Value),
+        mValue(nullptr)
+    {
+      SetValue(std::string(contentValue));
+    }
+
     RawDatagram::~RawDatagram()
     {
       mDictionary.clear();
@@ -244,6 +251,13 @@ namespace lp
       return *this;
     }
 
+    RawDatagram& RawDatagram::operator=(const char* value)
+    {
+      SetValue(std::string(value));
+
+      return *this;
+    }
+
     RawDatagram& RawDatagram::operator=(const std::shared_ptr<DataBase>& data)
     {
       if(mType != RawDatagramType::Value)
-- 
2.43.0


From 76586312e72559e4383ac83ff3de2a1c015de211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 05/29] fix: indexing something that is not a list no longer
 wipes it

It was turned into an empty list before the index was refused.
---
 src/lamppost/messages/RawDatagram.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index fe5b6b4..bd9f010 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -136,14 +136,7 @@ namespace lp
 
     std::shared_ptr<RawDatagram>& RawDatagram::Get(unsigned int index)
     {
-      if(mType != RawDatagramType::List)
-      {
-        mType = RawDatagramType::List;
-        mDictionary.clear();
-        mValue = nullptr;
-      }
-
-      if(index >= mList.size())
+      if(mType != RawDatagramType::List || index >= mList.size())
       {
         throw exceptions::IndexOutOfBoundsException(index, "Index out of bounds.");
       }
-- 
2.43.0


From afdec60f667483bc2826741328778a61facc35e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 06/29] fix: decode JSON documents faithfully and without
 leaking

Empty lists and dictionaries became empty datagrams, numbers at the top level were dropped, whole
numbers beyond 32 bits were clamped, texts were cut at null characters, and neither the tokener nor
the document was ever released.
---
 include/lamppost/messages/RawDatagram.h |  1 +
 src/lamppost/messages/RawDatagram.cpp   | 20 +++++++++++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/lamppost/messages/RawDatagram.h b/include/lamppost/messages/RawDatagram.h
index ef8f21d..a437633 100644
--- a/include/lamppost/messages/RawDatagram.h
+++ b/include/lamppost/messages/RawDatagram.h
@@ -3,6 +3,7 @@
 
 
 #include <algorithm>
+#include <limits>
 #include <list>
 #include <map>
 #include <memory>
diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index bd9f010..9ba0406 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -418,7 +418,8 @@ namespace lp
 
       tok = json_tokener_new_ex(1000);
 
-      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length());
+      // The terminating null character is included; without it, numbers at the top level never end.
+      jobj = json_tokener_parse_ex(tok, json.c_str(), json.length() + 1);
       error = tok->err;
 
       if(error == json_tokener_success)
@@ -426,6 +427,9 @@ namespace lp
         ParseJsonObject(jobj, rawDatagram);
       }
 
+      json_object_put(jobj);
+      json_tokener_free(tok);
+
       return rawDatagram;
     }
 
@@ -444,17 +448,25 @@ namespace lp
 
         case json_type_int:
         {
-          *root = static_cast<int>(json_object_get_int(jobj));
+          if(json_object_get_int64(jobj) >= std::numeric_limits<int>::min() && json_object_get_int64(jobj) <= std::numeric_limits<int>::max())
+          {
+            *root = static_cast<int>(json_object_get_int(jobj));
+          }
+          else
+          {
+            *root = json_object_get_double(jobj);
+          }
         } break;
 
         case json_type_string:
         {
-          *root = std::string(json_object_get_string(jobj));
+          *root = std::string(json_object_get_string(jobj), json_object_get_string_len(jobj));
         } break;
 
         case json_type_array:
         {
           json_object* jarray = jobj, *jvalue;
+          *root = RawDatagram(RawDatagramType::List);
 
           for(size_t i = 0; i < json_object_array_length(jarray); i++)
           {
@@ -468,6 +480,8 @@ namespace lp
 
         case json_type_object:
         {
+          *root = RawDatagram(RawDatagramType::Dictionary);
+
           // Note(fairlight1337): The following line is excluded from tidy checks as the utilized macro expands to
           // (according to tidy) unclean code which cannot be changed at this time.
           json_object_object_foreach(jobj, key, val) // NOLINT
-- 
2.43.0


From 423aaa034398af51e17ea08eda84aaece7ea029f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 07/29] fix: empty lists and dictionaries survive
 deserialisation, absent fields are tolerated

---
 src/lamppost/messages/RawDatagram.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lamppost/messages/RawDatagram.cpp b/src/lamppost/messages/RawDatagram.cpp
index 9ba0406..185a79f 100644
--- a/src/lamppost/messages/RawDatagram.cpp
+++ b/src/lamppost/messages/RawDatagram.cpp
@@ -363,7 +363,7 @@ namespace lp
           switch(structure->value_type())
           {
             case schemas::ValueType::ValueType_String:
-              rawDatagram->SetValue<std::string>(structure->string_content()->str());
+              rawDatagram->SetValue<std::string>(structure->string_content() != nullptr ? structure->string_content()->str() : "");
               break;
 
             case schemas::ValueType::ValueType_Double:
@@ -382,7 +382,8 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_List:
         {
-          unsigned int length = structure->list_content()->size();
+          *rawDatagram = RawDatagram(RawDatagramType::List);
+          unsigned int length = structure->list_content() != nullptr ? structure->list_content()->size() : 0;
 
           for(unsigned int i = 0; i < length; ++i)
           {
@@ -392,7 +393,13 @@ namespace lp
 
         case schemas::DatagramType::DatagramType_Dictionary:
         {
-          unsigned int length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          *rawDatagram = RawDatagram(RawDatagramType::Dictionary);
+          unsigned int length = 0;
+
+          if(structure->dictionary_keys() != nullptr && structure->dictionary_contents() != nullptr)
+          {
+            length = std::min(structure->dictionary_keys()->size(), structure->dictionary_contents()->size());
+          }
 
           for(unsigned int i = 0; i < length; ++i)
           {
-- 
2.43.0


From 0c7fb2c1e46ffdf618d02d575daa45ff323a7501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:33 +0000
Subject: [PATCH 08/29] fix: verify serialised messages before reading them

Arbitrary bytes were followed as if they were a valid buffer, reading anywhere in memory; also, few
bytes could stand for enormous messages. What is no message is refused with an exception now.
---
 src/lamppost/messages/Message.cpp | 114 ++++++++++++++++++++++++++++++
 1 file changed, 114 insertions(+)

diff --git a/src/lamppost/messages/Message.cpp b/src/lamppost/messages/Message.cpp
index 09ef905..1108dd6 100644
--- a/src/lamppost/messages/Message.cpp
+++ b/src/lamppost/messages/Message.cpp
@@ -1,8 +1,111 @@
 #include <lamppost/messages/Message.h>
 
+#include <limits>
+
+#include <lamppost/exceptions/ArgumentNullException.h>
+#include <lamppost/exceptions/OperationFailedException.h>
+
 
 namespace lp {
   namespace messages {
+    namespace {
+      // Checks bytes from elsewhere before they are read as a message. Nesting is limited, as it is followed
+      // recursively. No byte may be part of more than one element, so that the bytes cannot stand for a
+      // message that is much larger than they are.
+      class StructureVerifier
+      {
+      private:
+        static const flatbuffers::uoffset_t cMaximumDepth = 1024;
+
+        const uint8_t* mContent;
+        std::size_t mUnusedBytes;
+        flatbuffers::Verifier mVerifier;
+
+        bool Use(std::size_t bytes)
+        {
+          bool isAvailable = bytes <= mUnusedBytes;
+          mUnusedBytes -= isAvailable ? bytes : 0;
+
+          return isAvailable;
+        }
+
+        bool IsText(const flatbuffers::String* text)
+        {
+          return mVerifier.VerifyString(text) && Use(sizeof(flatbuffers::uoffset_t) + text->size() + 1);
+        }
+
+        bool IsText(const flatbuffers::Table* table, flatbuffers::voffset_t field)
+        {
+          return table->VerifyOffset(mVerifier, field) && IsText(table->GetPointer<const flatbuffers::String*>(field));
+        }
+
+        template<typename T, typename F>
+        bool IsVector(const flatbuffers::Table* table, flatbuffers::voffset_t field, F isElement)
+        {
+          if(!table->VerifyOffset(mVerifier, field))
+          {
+            return false;
+          }
+
+          const flatbuffers::Vector<flatbuffers::Offset<T>>* vector = table->GetPointer<const flatbuffers::Vector<flatbuffers::Offset<T>>*>(field);
+          bool isValid = mVerifier.VerifyVector(vector) && Use(sizeof(flatbuffers::uoffset_t) * (std::size_t(1) + vector->size()));
+
+          for(flatbuffers::uoffset_t i = 0; isValid && i < vector->size(); ++i)
+          {
+            isValid = isElement(vector->Get(i));
+          }
+
+          return isValid;
+        }
+
+        bool IsDatagram(const schemas::FBDatagram* datagram)
+        {
+          const flatbuffers::Table* table = reinterpret_cast<const flatbuffers::Table*>(datagram);
+
+          auto isText = [this](const flatbuffers::String* text) { return IsText(text); };
+          auto isDatagram = [this](const schemas::FBDatagram* element) { return IsDatagram(element); };
+
+          return Use(sizeof(flatbuffers::soffset_t)) &&
+            table->VerifyTableStart(mVerifier) &&
+            table->VerifyField<int8_t>(mVerifier, schemas::FBDatagram::VT_DATAGRAM_TYPE, sizeof(int8_t)) &&
+            table->VerifyField<int8_t>(mVerifier, schemas::FBDatagram::VT_VALUE_TYPE, sizeof(int8_t)) &&
+            (!table->CheckField(schemas::FBDatagram::VT_STRING_CONTENT) || IsText(table, schemas::FBDatagram::VT_STRING_CONTENT)) &&
+            table->VerifyField<int32_t>(mVerifier, schemas::FBDatagram::VT_INTEGER_CONTENT, sizeof(int32_t)) &&
+            table->VerifyField<double>(mVerifier, schemas::FBDatagram::VT_DOUBLE_CONTENT, sizeof(double)) &&
+            table->VerifyField<uint8_t>(mVerifier, schemas::FBDatagram::VT_BOOLEAN_CONTENT, sizeof(uint8_t)) &&
+            (!table->CheckField(schemas::FBDatagram::VT_LIST_CONTENT) || IsVector<schemas::FBDatagram>(table, schemas::FBDatagram::VT_LIST_CONTENT, isDatagram)) &&
+            (!table->CheckField(schemas::FBDatagram::VT_DICTIONARY_KEYS) || IsVector<flatbuffers::String>(table, schemas::FBDatagram::VT_DICTIONARY_KEYS, isText)) &&
+            (!table->CheckField(schemas::FBDatagram::VT_DICTIONARY_CONTENTS) || IsVector<schemas::FBDatagram>(table, schemas::FBDatagram::VT_DICTIONARY_CONTENTS, isDatagram)) &&
+            mVerifier.EndTable();
+        }
+
+      public:
+        StructureVerifier(const void* content, std::size_t size)
+          : mContent(static_cast<const uint8_t*>(content)),
+            mUnusedBytes(size),
+            mVerifier(mContent, size, cMaximumDepth, std::numeric_limits<flatbuffers::uoffset_t>::max())
+        {
+        }
+
+        bool IsMessage()
+        {
+          if(mVerifier.VerifyOffset(0) == 0)
+          {
+            return false;
+          }
+
+          const flatbuffers::Table* table = flatbuffers::GetRoot<flatbuffers::Table>(mContent);
+
+          return table->VerifyTableStart(mVerifier) &&
+            table->CheckField(schemas::FBMessage::VT_SENDER) && IsText(table, schemas::FBMessage::VT_SENDER) &&
+            table->CheckField(schemas::FBMessage::VT_TOPIC) && IsText(table, schemas::FBMessage::VT_TOPIC) &&
+            table->VerifyOffsetRequired(mVerifier, schemas::FBMessage::VT_DATAGRAM) &&
+            IsDatagram(table->GetPointer<const schemas::FBDatagram*>(schemas::FBMessage::VT_DATAGRAM)) &&
+            mVerifier.EndTable();
+        }
+      };
+    } // namespace
+
     Message::Message(std::string sender, std::string topic, Datagram datagram)
       : mSender(std::move(sender)),
         mTopic(std::move(topic)),
@@ -43,6 +146,17 @@ namespace lp {
 
     messages::Message Message::Deserialize(std::shared_ptr<data::RawBytes> bytesToDeserialize)
     {
+      if(bytesToDeserialize == nullptr)
+      {
+        throw exceptions::ArgumentNullException("bytesToDeserialize", "Bytes to deserialize may not be null.");
+      }
+
+      if(bytesToDeserialize->GetSize() >= FLATBUFFERS_MAX_BUFFER_SIZE ||
+        !StructureVerifier(bytesToDeserialize->GetContent(), bytesToDeserialize->GetSize()).IsMessage())
+      {
+        throw exceptions::OperationFailedException("The bytes are not a serialized message.");
+      }
+
       const schemas::FBMessage* deserializedMessage = schemas::GetFBMessage(bytesToDeserialize->GetContent());
 
       return messages::Message(
-- 
2.43.0


From 8064decedb1478ffde62ec86721a93facdc8d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 09/29] fix: directory listings honour the directory filter and
 leave out . and ..

Directories were listed when files were asked for, and not when only directories were.
---
 src/lamppost/Filesystem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/Filesystem.cpp b/src/lamppost/Filesystem.cpp
index 1720a0d..ddab628 100644
--- a/src/lamppost/Filesystem.cpp
+++ b/src/lamppost/Filesystem.cpp
@@ -101,12 +101,16 @@ namespace lp
         std::string name = static_cast<char*>(dir->d_name);
         std::string fullPath = CombinePaths(path, name);
 
+        if(name == "." || name == "..") {
+          continue;
+        }
+
         bool filterIncludesFiles = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
         if(filterIncludesFiles && IsFile(fullPath)) {
           contents.push_back(name);
         }
 
-        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::File)) != 0;
+        bool filterIncludesDirectories = (static_cast<int>(filter) & static_cast<int>(lp::FilesystemObjectType::Directory)) != 0;
         if(filterIncludesDirectories && IsDirectory(fullPath)) {
           contents.push_back(name);
         }
-- 
2.43.0


From dd81db3217c5df7d85d966cbfcaa9a9421213a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:47 +0000
Subject: [PATCH 10/29] fix: a publisher may be deleted while another thread
 publishes through it

---
 include/lamppost/bus/Publisher.h |  2 ++
 src/lamppost/bus/Publisher.cpp   | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/lamppost/bus/Publisher.h b/include/lamppost/bus/Publisher.h
index 10346c4..e0d93d3 100644
--- a/include/lamppost/bus/Publisher.h
+++ b/include/lamppost/bus/Publisher.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -20,6 +21,7 @@ namespace lp
     {
     private:
       DatagramCallbackType mPublishingFunction;
+      std::mutex mPublishingFunctionMutex;
 
     public:
       Publisher(std::string topic, DatagramCallbackType publishingFunction);
diff --git a/src/lamppost/bus/Publisher.cpp b/src/lamppost/bus/Publisher.cpp
index 27b2d2c..1c0ab20 100644
--- a/src/lamppost/bus/Publisher.cpp
+++ b/src/lamppost/bus/Publisher.cpp
@@ -19,14 +19,21 @@ namespace lp
 
     void Publisher::Publish(messages::Datagram datagram)
     {
-      if(mPublishingFunction != nullptr)
+      DatagramCallbackType publishingFunction;
       {
-        mPublishingFunction(datagram);
+        std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
+        publishingFunction = mPublishingFunction;
+      }
+
+      if(publishingFunction != nullptr)
+      {
+        publishingFunction(datagram);
       }
     }
 
     void Publisher::Reset()
     {
+      std::lock_guard<std::mutex> lock(mPublishingFunctionMutex);
       mPublishingFunction = nullptr;
     }
   } // namespace bus
-- 
2.43.0


From 949eea8c97d7bc8b2ad89155404295a339373f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 11/29] fix: a subscriber's callback may be changed while it is
 receiving

---
 include/lamppost/bus/Subscriber.h |  2 ++
 src/lamppost/bus/Subscriber.cpp   | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/lamppost/bus/Subscriber.h b/include/lamppost/bus/Subscriber.h
index b074913..4d908ae 100644
--- a/include/lamppost/bus/Subscriber.h
+++ b/include/lamppost/bus/Subscriber.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -19,6 +20,7 @@ namespace lp
     {
     private:
       MessageCallbackType mCallback;
+      std::mutex mCallbackMutex;
 
     public:
       Subscriber(std::string topic);
diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index ec00ad2..5f20b7e 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -25,31 +25,39 @@ namespace lp
 
     void Subscriber::Receive(messages::Message message)
     {
-      if(mCallback != nullptr)
+      MessageCallbackType callback;
       {
-        mCallback(message);
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(message);
       }
     }
 
     void Subscriber::Reset()
     {
-      mCallback = nullptr;
+      SetMessageCallback(nullptr);
     }
 
     void Subscriber::SetDatagramCallback(DatagramCallbackType callback)
     {
-      mCallback = [callback](lp::messages::Message message)
+      SetMessageCallback(
+        [callback](lp::messages::Message message)
         {
           messages::Datagram datagram = message.GetDatagram();
 
           // TODO(fairlight1337): Check value here.
           callback(datagram);
-        };
+        });
     }
 
     void Subscriber::SetMessageCallback(MessageCallbackType callback)
     {
-      mCallback = callback;
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
+      mCallback.swap(callback);
     }
 
 
-- 
2.43.0


From 7904242f81d466c94a016d042c5ef2145b2f3edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:21 +0000
Subject: [PATCH 12/29] fix: subscribers given an empty callback ignore
 messages

---
 src/lamppost/bus/Subscriber.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/bus/Subscriber.cpp b/src/lamppost/bus/Subscriber.cpp
index 5f20b7e..7c8fb69 100644
--- a/src/lamppost/bus/Subscriber.cpp
+++ b/src/lamppost/bus/Subscriber.cpp
@@ -17,8 +17,10 @@ namespace lp
                   {
                     messages::Datagram datagram = message.GetDatagram();
 
-                    // TODO(fairlight1337): Check value here.
-                    callback(datagram);
+                    if(callback != nullptr)
+                    {
+                      callback(datagram);
+                    }
                   })
     {
     }
@@ -49,8 +51,10 @@ namespace lp
         {
           messages::Datagram datagram = message.GetDatagram();
 
-          // TODO(fairlight1337): Check value here.
-          callback(datagram);
+          if(callback != nullptr)
+          {
+            callback(datagram);
+          }
         });
     }
 
-- 
2.43.0


From 6e04546e4f5c9f38fc9cd6b5faf6f3d7cf9ce567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:06 +0000
Subject: [PATCH 13/29] fix: busses may be detached or destroyed while busses
 below them publish

---
 include/lamppost/bus/Bus.h | 17 ++++++++++--
 src/lamppost/bus/Bus.cpp   | 56 ++++++++++++++++++++++++--------------
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index f89078d..8eb0f16 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -40,11 +40,19 @@ namespace lp
 
       std::map<std::string, std::shared_ptr<Bus>> mChildBusses;
       std::mutex mChildBussesMutex;
-      std::mutex mQueueMutex;
-      std::deque<messages::Message> mQueuedMessages;
-      std::condition_variable mNotifier;
+
+      // Shared with the publish function, which busses below may still be calling when this bus ends.
+      struct MessageQueue
+      {
+        std::mutex mMutex;
+        std::deque<messages::Message> mMessages;
+        std::condition_variable mNotifier;
+      };
+
+      std::shared_ptr<MessageQueue> mQueue;
       std::mutex mNotifierMutex;
       std::function<void(messages::Message)> mPublishMessageFunction;
+      std::mutex mPublishMessageFunctionMutex;
       std::atomic<bool> mShouldRun;
       bool mIsRootBus;
 
@@ -58,6 +66,9 @@ namespace lp
       std::mutex mActionConsumersMutex;
       std::list<std::shared_ptr<ActionConsumer>> mActionConsumers;
 
+      std::function<void(messages::Message)> GetPublishMessageFunction();
+      void SetPublishMessageFunction(std::function<void(messages::Message)> publishMessageFunction);
+
       void Publish(std::string topic, lp::messages::Datagram datagram);
       void Distribute(messages::Message message);
 
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index a2ad53f..750d89d 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -7,6 +7,7 @@ namespace lp
   {
     Bus::Bus(std::string name)
       : Identifiable(name),
+        mQueue(std::make_shared<MessageQueue>()),
         mShouldRun(false),
         mIsRootBus(true)
     {
@@ -15,19 +16,21 @@ namespace lp
         throw exceptions::ArgumentNullException("name", "Bus name may not be empty.");
       }
 
-      mPublishMessageFunction = [this](messages::Message message)
+      std::shared_ptr<MessageQueue> queue = mQueue;
+      mPublishMessageFunction = [queue](messages::Message message)
         {
           {
-            std::lock_guard<std::mutex> lock(mQueueMutex);
-            mQueuedMessages.push_back(message);
+            std::lock_guard<std::mutex> lock(queue->mMutex);
+            queue->mMessages.push_back(message);
           }
 
-          mNotifier.notify_one();
+          queue->mNotifier.notify_one();
         };
     }
 
     Bus::Bus(std::string name, std::function<void(messages::Message)> publishMessageFunction)
       : Identifiable(name),
+        mQueue(std::make_shared<MessageQueue>()),
         mPublishMessageFunction(publishMessageFunction),
         mShouldRun(false),
         mIsRootBus(false)
@@ -45,7 +48,7 @@ namespace lp
 
     Bus::~Bus()
     {
-      mPublishMessageFunction = nullptr;
+      SetPublishMessageFunction(nullptr);
 
       {
         std::lock_guard<std::mutex> lock(mChildBussesMutex);
@@ -72,7 +75,7 @@ namespace lp
         throw exceptions::DuplicateKeyException(name, "Child bus names must be unique.");
       }
 
-      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, mPublishMessageFunction);
+      std::shared_ptr<Bus> childBus = std::make_shared<Bus>(name, GetPublishMessageFunction());
       mChildBusses[name] = childBus;
 
       childBus->Start();
@@ -91,6 +94,18 @@ namespace lp
       return mChildBusses[name];
     }
 
+    std::function<void(messages::Message)> Bus::GetPublishMessageFunction()
+    {
+      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+      return mPublishMessageFunction;
+    }
+
+    void Bus::SetPublishMessageFunction(std::function<void(messages::Message)> publishMessageFunction)
+    {
+      std::lock_guard<std::mutex> lock(mPublishMessageFunctionMutex);
+      mPublishMessageFunction.swap(publishMessageFunction);
+    }
+
     void Bus::Publish(std::string topic, messages::Datagram datagram)
     {
       Publish(messages::Message(GetIdentifier(), std::move(topic), datagram));
@@ -98,9 +113,10 @@ namespace lp
 
     void Bus::Publish(messages::Message message)
     {
-      if(mPublishMessageFunction != nullptr)
+      std::function<void(messages::Message)> publishMessageFunction = GetPublishMessageFunction();
+      if(publishMessageFunction != nullptr)
       {
-        mPublishMessageFunction(message);
+        publishMessageFunction(message);
       }
     }
 
@@ -140,13 +156,13 @@ namespace lp
 
       while(mShouldRun)
       {
-        mNotifier.wait_for(notifierLock,
-                           std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
-                           [this]
-                           {
-                             std::lock_guard<std::mutex> lock(mQueueMutex);
-                             return !mQueuedMessages.empty() || !mShouldRun;
-                           });
+        mQueue->mNotifier.wait_for(notifierLock,
+                                   std::chrono::milliseconds(BUS_NOTIFIER_CHECK_TIMEOUT_MS),
+                                   [this]
+                                   {
+                                     std::lock_guard<std::mutex> lock(mQueue->mMutex);
+                                     return !mQueue->mMessages.empty() || !mShouldRun;
+                                   });
 
         if(!mShouldRun)
         {
@@ -155,10 +171,10 @@ namespace lp
 
         std::deque<messages::Message> queuedMessages;
         {
-          std::lock_guard<std::mutex> lock(mQueueMutex);
-          queuedMessages = mQueuedMessages;
+          std::lock_guard<std::mutex> lock(mQueue->mMutex);
+          queuedMessages = mQueue->mMessages;
 
-          mQueuedMessages.clear();
+          mQueue->mMessages.clear();
         }
 
         for(const messages::Message& message : queuedMessages)
@@ -205,8 +221,8 @@ namespace lp
 
     void Bus::Detach()
     {
-      mPublishMessageFunction = nullptr;
-      
+      SetPublishMessageFunction(nullptr);
+
       std::lock_guard<std::mutex> lock(mChildBussesMutex);
       for(std::pair<std::string, std::shared_ptr<Bus>> busPair : mChildBusses)
       {
-- 
2.43.0


From 665508d3a796881ce35b94bd44a51d69a7ed9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 14/29] fix: requests may be made from several threads and
 answered late

---
 include/lamppost/bus/ActionConsumer.h |  3 ++
 src/lamppost/bus/ActionConsumer.cpp   | 76 ++++++++++++++++++---------
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/include/lamppost/bus/ActionConsumer.h b/include/lamppost/bus/ActionConsumer.h
index 573637a..258c519 100644
--- a/include/lamppost/bus/ActionConsumer.h
+++ b/include/lamppost/bus/ActionConsumer.h
@@ -29,6 +29,9 @@ namespace lp
       std::shared_ptr<Publisher> mRequestPublisher;
 
       std::map<std::string, std::function<void(messages::Datagram)>> mOpenRequests;
+      std::mutex mOpenRequestsMutex;
+
+      std::string SendRequest(messages::Datagram request, std::function<void(messages::Datagram)> callback);
 
     public:
       ActionConsumer(std::shared_ptr<Subscriber> responseSubscriber, std::shared_ptr<Publisher> requestPublisher, std::string topic);
diff --git a/src/lamppost/bus/ActionConsumer.cpp b/src/lamppost/bus/ActionConsumer.cpp
index 8d101ab..290a40d 100644
--- a/src/lamppost/bus/ActionConsumer.cpp
+++ b/src/lamppost/bus/ActionConsumer.cpp
@@ -28,56 +28,84 @@ namespace lp
         throw exceptions::ArgumentNullException("callback", "Callback may not be null.");
       }
 
+      SendRequest(request, callback);
+    }
+
+    std::string ActionConsumer::SendRequest(
+      messages::Datagram request,
+      std::function<void(messages::Datagram)> callback)
+    {
       utilities::Uuid uuid = utilities::Uuid::CreateUuid();
       std::string uuidString = static_cast<std::string>(uuid);
-      mOpenRequests[uuidString] = callback;
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests[uuidString] = callback;
+      }
 
       messages::Datagram wrappedRequest;
       wrappedRequest["invocationId"] = uuidString;
       wrappedRequest["request"] = request;
 
       mRequestPublisher->Publish(wrappedRequest);
+
+      return uuidString;
     }
 
     messages::Datagram ActionConsumer::Request(messages::Datagram request, int timeoutMs)
     {
-      std::atomic<bool> waiting;
-      std::condition_variable cv;
-      std::mutex mtx;
+      // Shared with the callback, which may be invoked after this function has returned.
+      struct PendingRequest
+      {
+        std::mutex mtx;
+        std::condition_variable cv;
+        bool waiting = true;
+        messages::Datagram response;
+      };
 
-      std::unique_lock<std::mutex> ul(mtx);
-      messages::Datagram response;
-      waiting = true;
+      std::shared_ptr<PendingRequest> pending = std::make_shared<PendingRequest>();
 
-      RequestAsync(
+      std::string invocationId = SendRequest(
         request,
-        [&](messages::Datagram internalResponse)
+        [pending](messages::Datagram internalResponse)
         {
-          if(waiting)
-          {
-            response = internalResponse;
-            waiting = false;
-            cv.notify_one();
-          }
+          std::lock_guard<std::mutex> lock(pending->mtx);
+          pending->response = internalResponse;
+          pending->waiting = false;
+          pending->cv.notify_one();
         });
 
-      cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
-                  [&]
-                  {
-                    return !waiting;
-                  });
+      std::unique_lock<std::mutex> ul(pending->mtx);
+      pending->cv.wait_for(ul, std::chrono::milliseconds(timeoutMs),
+                           [&]
+                           {
+                             return !pending->waiting;
+                           });
+
+      if(pending->waiting)
+      {
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        mOpenRequests.erase(invocationId);
+      }
 
-      return response;
+      return pending->response;
     }
 
     void ActionConsumer::ProcessResponse(std::string invocationId, messages::Datagram response)
     {
-      if(mOpenRequests.find(invocationId) != mOpenRequests.end())
+      std::function<void(messages::Datagram)> callback;
       {
-        mOpenRequests[invocationId](response);
-        mOpenRequests.erase(invocationId);
+        std::lock_guard<std::mutex> lock(mOpenRequestsMutex);
+        std::map<std::string, std::function<void(messages::Datagram)>>::iterator openRequest = mOpenRequests.find(invocationId);
+        if(openRequest == mOpenRequests.end())
+        {
+          return;
+        }
+
+        callback = openRequest->second;
+        mOpenRequests.erase(openRequest);
       }
 
+      callback(response);
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From f6affccd2ab7a3c08c2e9170460bf8af6da26e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 15/29] fix: malformed action traffic and requests without a
 handler are ignored

---
 include/lamppost/bus/ActionProvider.h |  2 ++
 include/lamppost/bus/Bus.h            | 18 ++++++++++++------
 src/lamppost/bus/ActionProvider.cpp   | 12 +++++++++++-
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/lamppost/bus/ActionProvider.h b/include/lamppost/bus/ActionProvider.h
index dbc01b8..0c3e80d 100644
--- a/include/lamppost/bus/ActionProvider.h
+++ b/include/lamppost/bus/ActionProvider.h
@@ -4,6 +4,7 @@
 
 #include <functional>
 #include <iostream>
+#include <mutex>
 #include <string>
 #include <utility>
 
@@ -24,6 +25,7 @@ namespace lp
       std::shared_ptr<Publisher> mResponsePublisher;
 
       std::function<void(std::shared_ptr<ActionProvider>, std::string, lp::messages::Datagram)> mCallback;
+      std::mutex mCallbackMutex;
 
     public:
       ActionProvider(std::shared_ptr<Subscriber> requestSubscriber, std::shared_ptr<Publisher> responsePublisher, std::string topic, std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback);
diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 8eb0f16..fc71665 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -147,10 +147,12 @@ namespace lp
         requestSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            // TODO: Check for presence of invocationId field here.
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessRequest(invocationId, datagram);
+            if(!invocationId.empty())
+            {
+              instance->ProcessRequest(invocationId, datagram);
+            }
           });
 
         return instance;
@@ -173,10 +175,14 @@ namespace lp
         responseSubscriber->SetDatagramCallback(
           [instance](messages::Datagram datagram)
           {
-            std::string invocationId = static_cast<std::string>(datagram["invocationId"]);
-            messages::Datagram response = datagram["response"];
+            std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            instance->ProcessResponse(invocationId, response);
+            if(!invocationId.empty())
+            {
+              messages::Datagram response = datagram["response"];
+
+              instance->ProcessResponse(invocationId, response);
+            }
           });
 
         return instance;
diff --git a/src/lamppost/bus/ActionProvider.cpp b/src/lamppost/bus/ActionProvider.cpp
index 507f26f..7c74338 100644
--- a/src/lamppost/bus/ActionProvider.cpp
+++ b/src/lamppost/bus/ActionProvider.cpp
@@ -19,6 +19,7 @@ namespace lp
 
     void ActionProvider::Reset()
     {
+      std::lock_guard<std::mutex> lock(mCallbackMutex);
       mCallback = nullptr;
     }
 
@@ -33,7 +34,16 @@ namespace lp
 
     void ActionProvider::ProcessRequest(std::string invocationId, messages::Datagram request)
     {
-      mCallback(this->shared_from_this(), std::move(invocationId), request);
+      std::function<void(std::shared_ptr<ActionProvider>, std::string, messages::Datagram)> callback;
+      {
+        std::lock_guard<std::mutex> lock(mCallbackMutex);
+        callback = mCallback;
+      }
+
+      if(callback != nullptr)
+      {
+        callback(this->shared_from_this(), std::move(invocationId), request);
+      }
     }
   } // namespace bus
 } // namespace lp
-- 
2.43.0


From 362250e4e77a958d2bf1c0683006e65f83a2aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 16/29] fix: actions do not keep themselves alive

---
 include/lamppost/bus/Bus.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index fc71665..7da306a 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -144,12 +144,17 @@ namespace lp
           topic,
           std::forward<Args>(args)...);
 
+        // The bus owns the instance, which owns this subscriber.
+        std::weak_ptr<ActionProvider> weakInstance = instance;
+
         requestSubscriber->SetDatagramCallback(
-          [instance](messages::Datagram datagram)
+          [weakInstance](messages::Datagram datagram)
           {
             std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            if(!invocationId.empty())
+            std::shared_ptr<ActionProvider> instance = weakInstance.lock();
+
+            if(instance != nullptr && !invocationId.empty())
             {
               instance->ProcessRequest(invocationId, datagram);
             }
@@ -172,12 +177,17 @@ namespace lp
           topic,
           std::forward<Args>(args)...);
 
+        // The bus owns the instance, which owns this subscriber.
+        std::weak_ptr<ActionConsumer> weakInstance = instance;
+
         responseSubscriber->SetDatagramCallback(
-          [instance](messages::Datagram datagram)
+          [weakInstance](messages::Datagram datagram)
           {
             std::string invocationId = datagram.Get<std::string>("invocationId", "");
 
-            if(!invocationId.empty())
+            std::shared_ptr<ActionConsumer> instance = weakInstance.lock();
+
+            if(instance != nullptr && !invocationId.empty())
             {
               messages::Datagram response = datagram["response"];
 
-- 
2.43.0


From 719c3c25e2eb2644e3fa949ef9b00356a67da16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 17/29] fix: plugin workers that end on their own are waited
 for and can be started again

---
 src/lamppost/plugin/PluginInstance.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lamppost/plugin/PluginInstance.cpp b/src/lamppost/plugin/PluginInstance.cpp
index fc59556..adc64b9 100644
--- a/src/lamppost/plugin/PluginInstance.cpp
+++ b/src/lamppost/plugin/PluginInstance.cpp
@@ -34,6 +34,9 @@ namespace lp
 
   void PluginInstance::Start()
   {
+    // A previous worker may have returned on its own.
+    Stop();
+
     mShouldRun = true;
 
     std::thread workerThread(&PluginInstance::Run, this);
@@ -42,14 +45,11 @@ namespace lp
 
   void PluginInstance::Stop()
   {
-    if(mShouldRun)
-    {
-      mShouldRun = false;
+    mShouldRun = false;
 
-      if(mWorkerThread.joinable())
-      {
-        mWorkerThread.join();
-      }
+    if(mWorkerThread.joinable())
+    {
+      mWorkerThread.join();
     }
   }
 
-- 
2.43.0


From 95df3c61122985aaee8d7619fa2dae198fb5775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 18/29] fix: a failed instantiation leaves no empty plugin
 instance behind

---
 src/lamppost/plugin/PluginTemplate.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index fe63f77..c020469 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -33,9 +33,10 @@ namespace lp
     configuration.mIdentifier = mConfiguration.mIdentifier + std::to_string(index);
     configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
 
-    mInstances[configuration.mIdentifier] = mConfiguration.mInstantiateFunction(configuration);
+    std::shared_ptr<PluginInstance> instance = mConfiguration.mInstantiateFunction(configuration);
+    mInstances[configuration.mIdentifier] = instance;
 
-    return mInstances[configuration.mIdentifier];
+    return instance;
   }
 
   void PluginTemplate::Stop()
-- 
2.43.0


From a5f85d97f1d10486bc89d007a1fc23f1223aed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 19/29] fix: skip plugin libraries whose info factory yields
 nothing

---
 src/lamppost/plugin/PluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 01ba929..863fc40 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -95,7 +95,7 @@ namespace lp
 
           std::shared_ptr<PluginTemplateInfo> info = CreateSharedObject<PluginTemplateInfo>(CreateInfo);
 
-          if(!info->mIdentifier.empty())
+          if(info != nullptr && !info->mIdentifier.empty())
           {
             mLog.Info("Identifier = " + info->mIdentifier, 3);
 
-- 
2.43.0


From 737a7eaa90c0e9999e60bb84a0c54a1892a71660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:10 +0000
Subject: [PATCH 20/29] fix: write log lines in one go

---
 src/lamppost/log/Log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/log/Log.cpp b/src/lamppost/log/Log.cpp
index 95ca399..447d334 100644
--- a/src/lamppost/log/Log.cpp
+++ b/src/lamppost/log/Log.cpp
@@ -11,7 +11,8 @@ namespace lp
     {
       std::lock_guard<std::mutex> lock(sSynchronizationMutex);
 
-      std::cout << line << std::endl;
+      // Modules may have locks of their own, so a line is written in one go.
+      std::cout << (line + "\n") << std::flush;
     }
 
     void Log::Write(std::string prefix, std::string message, int indentationLevel, int /*color*/)
-- 
2.43.0


From 84c4c66764b597814ef29cbafbeb511b6a182834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 21/29] fix: the sysinfo plugin tolerates any announcement, and
 requests after its end

---
 src/plugins/sysinfo/SysInfo.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugins/sysinfo/SysInfo.cpp b/src/plugins/sysinfo/SysInfo.cpp
index 403cd77..7437486 100644
--- a/src/plugins/sysinfo/SysInfo.cpp
+++ b/src/plugins/sysinfo/SysInfo.cpp
@@ -21,7 +21,7 @@ namespace lp
         "/sysinfo",
         [this](messages::Datagram datagram)
         {
-          std::string message = datagram.Get<std::string>();
+          std::string message = datagram.Get<std::string>("", "");
           mLog.Info("Got it: " + message);
         });
 
@@ -65,6 +65,10 @@ namespace lp
 
       DeletePublisher(mSysInfoPublisher);
       mSysInfoPublisher = nullptr;
+
+      // Its handler refers to this instance.
+      mSysInfoActionProvider->Reset();
+      mSysInfoActionProvider = nullptr;
     }
   } // namespace plugins
 } // namespace lp
-- 
2.43.0


From c8f47d9395a9aac03017565e4e265e813b72be8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:26 +0000
Subject: [PATCH 22/29] fix: the link plugin ignores malformed messages

---
 src/plugins/link/Link.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 05463c8..68ce061 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -233,8 +233,15 @@ namespace lp
 
         if(bytes->GetSize() > 0)
         {
-          receivedMessage = messages::Message::Deserialize(bytes);
-          successfullyReceivedMessage = true;
+          try
+          {
+            receivedMessage = messages::Message::Deserialize(bytes);
+            successfullyReceivedMessage = true;
+          }
+          catch(exceptions::Exception& exception)
+          {
+            mLog.Warning("Ignoring malformed message: " + std::string(exception.what()));
+          }
         }
       }
 
-- 
2.43.0


From 2be12ac4f143dacd8945042799c9d6a1f16c6fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 23/29] fix: malformed configuration files and plugin entries
 are skipped

---
 src/lamppost/LampPost.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index de6dd98..a1b40e9 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -72,7 +72,7 @@ namespace lp
 
     messages::Datagram config = messages::Datagram::DeserializeFromJson(sts.str());
 
-    if(config.KeyExists("plugins"))
+    if(config.KeyExists("plugins") && config["plugins"].GetType() == messages::RawDatagramType::List)
     {
       int pluginsCount = config["plugins"].GetCount();
 
@@ -85,22 +85,22 @@ namespace lp
       {
         if(config["plugins"][i].KeyExists("type"))
         {
-          std::string pluginType = config["plugins"][i]["type"];
-
           PluginConfiguration pluginConfiguration;
           pluginConfiguration.mCustomConfiguration = config["plugins"][i]["configuration"];
 
           try
           {
+            std::string pluginType = config["plugins"][i]["type"];
+
             InstantiatePlugin(pluginType, pluginConfiguration);
           }
-          catch(exceptions::OperationFailedException& operationFailedException)
+          catch(std::exception& exception)
           {
             std::stringstream configSts;
             configSts << pluginConfiguration.mCustomConfiguration;
 
             mLog.Error("Error while processing configuration file:");
-            mLog.Error(std::string(operationFailedException.what()), 1);
+            mLog.Error(std::string(exception.what()), 1);
             mLog.Error("Plugin configuration: " + configSts.str(), 1);
           }
         }
-- 
2.43.0


From f15c477637985b91b2aabe311a70caa2f208b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:05 +0000
Subject: [PATCH 24/29] fix: a request to stop an application is honoured at
 any time

---
 include/lamppost/bus/Bus.h | 1 +
 src/lamppost/LampPost.cpp  | 9 ++++++---
 src/lamppost/bus/Bus.cpp   | 7 ++++++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/bus/Bus.h b/include/lamppost/bus/Bus.h
index 7da306a..0a38069 100644
--- a/include/lamppost/bus/Bus.h
+++ b/include/lamppost/bus/Bus.h
@@ -204,6 +204,7 @@ namespace lp
       void DeleteSubscriber(std::shared_ptr<bus::Subscriber> subscriber);
       void DeletePublisher(std::shared_ptr<bus::Publisher> publisher);
 
+      void Enable();
       void Start();
       void Run();
       void Stop();
diff --git a/src/lamppost/LampPost.cpp b/src/lamppost/LampPost.cpp
index a1b40e9..8d8ce24 100644
--- a/src/lamppost/LampPost.cpp
+++ b/src/lamppost/LampPost.cpp
@@ -10,6 +10,9 @@ namespace lp
       mRootBus(std::make_shared<bus::Bus>("root")),
       mLog("LampPost")
   {
+    // From here on, a request to stop is not lost.
+    mRootBus->Enable();
+
     for(const std::string& configurationFile : mConfiguration.mConfigurationFiles)
     {
       mSettingsManager.ReadConfigurationFile(configurationFile);
@@ -42,7 +45,7 @@ namespace lp
     mPluginManager.UnloadTemplates();
 
     mLog.Info("Disabling root bus", 1);
-    mRootBus = nullptr;
+    mRootBus->Stop();
   }
 
   void LampPost::InstantiatePlugin(std::string identifier, PluginConfiguration pluginConfiguration)
@@ -132,7 +135,7 @@ namespace lp
     }
 
     mLog.Info("Starting root bus.");
-    mRootBus->Start();
+    mRootBus->Run();
     mLog.Info("Returned from running root bus.");
 
     mLog.Info("Shutting down");
@@ -140,7 +143,7 @@ namespace lp
 
     mLog.Info("Shutdown complete.");
 
-    mRunState = RunState::Running;
+    mRunState = RunState::Stopped;
   }
 
   void LampPost::Stop()
diff --git a/src/lamppost/bus/Bus.cpp b/src/lamppost/bus/Bus.cpp
index 750d89d..0187178 100644
--- a/src/lamppost/bus/Bus.cpp
+++ b/src/lamppost/bus/Bus.cpp
@@ -140,9 +140,14 @@ namespace lp
       return ContainsManagedResource(mPublishersMutex, mPublishers, std::move(publisher));
     }
 
-    void Bus::Start()
+    void Bus::Enable()
     {
       mShouldRun = true;
+    }
+
+    void Bus::Start()
+    {
+      Enable();
 
       if(mIsRootBus)
       {
-- 
2.43.0


From ba4531602008aeed37ad4f4e541a22d85c4b0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:41 +0000
Subject: [PATCH 25/29] fix: termination signals are safe at any time

---
 src/lamppost/platformspecific/xnix/Xnix.cpp | 42 ++++++++++++++++++++-
 src/main.cpp                                | 26 ++++++++++++-
 2 files changed, 64 insertions(+), 4 deletions(-)

diff --git a/src/lamppost/platformspecific/xnix/Xnix.cpp b/src/lamppost/platformspecific/xnix/Xnix.cpp
index c7e1780..83c071e 100644
--- a/src/lamppost/platformspecific/xnix/Xnix.cpp
+++ b/src/lamppost/platformspecific/xnix/Xnix.cpp
@@ -1,14 +1,46 @@
+#include <cerrno>
+#include <thread>
+
+#include <fcntl.h>
+#include <unistd.h>
+
 #include <lamppost/LowLevel.h>
 
 
+// Hardly anything may be called in a signal handler, so it only wakes up the thread that does the work.
+static int signalPipe[2] = {-1, -1};
+
+
+static void handleSignals()
+{
+  char received;
+
+  while(true)
+  {
+    if(read(signalPipe[0], &received, 1) == 1)
+    {
+      HandleShutdownSignal();
+    }
+  }
+}
+
+
 void signalHandler(int signal)
 {
   switch(signal)
   {
     case SIGINT:
     case SIGTERM:
-      HandleShutdownSignal();
-      break;
+    {
+      int previousErrno = errno;
+
+      if(write(signalPipe[1], "", 1) != 1)
+      {
+        // The pipe is full of requests already.
+      }
+
+      errno = previousErrno;
+    } break;
 
     default:
       break;
@@ -18,6 +50,12 @@ void signalHandler(int signal)
 
 void HookSystemSignals()
 {
+  if(pipe(signalPipe) == 0)
+  {
+    fcntl(signalPipe[1], F_SETFL, O_NONBLOCK);
+    std::thread(handleSignals).detach();
+  }
+
   struct sigaction action = {};
   memset(&action, 0, sizeof(struct sigaction));
   action.sa_handler = signalHandler;
diff --git a/src/main.cpp b/src/main.cpp
index 69b645e..f2d77dc 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -1,6 +1,7 @@
 // System includes
 #include <cstdlib>
 #include <iostream>
+#include <mutex>
 
 // Private includes
 #include <lamppost/LampPost.h>
@@ -9,11 +10,19 @@
 
 // Globals
 std::shared_ptr<lp::LampPost> lamppost = nullptr;
+std::mutex lamppostMutex;
+bool shutdownRequested = false;
 
 
 void HandleShutdownSignal()
 {
-  lamppost->Stop();
+  std::lock_guard<std::mutex> lock(lamppostMutex);
+  shutdownRequested = true;
+
+  if(lamppost != nullptr)
+  {
+    lamppost->Stop();
+  }
 }
 
 
@@ -33,7 +42,15 @@ int main(int argc, char** argv)
     configuration.mConfigurationFiles.emplace_back(argv[1]);
   }
 
-  lamppost = std::make_shared<lp::LampPost>(configuration);
+  {
+    std::lock_guard<std::mutex> lock(lamppostMutex);
+    lamppost = std::make_shared<lp::LampPost>(configuration);
+
+    if(shutdownRequested)
+    {
+      lamppost->Stop();
+    }
+  }
 
   try
   {
@@ -46,6 +63,11 @@ int main(int argc, char** argv)
     throw;
   }
 
+  {
+    std::lock_guard<std::mutex> lock(lamppostMutex);
+    lamppost = nullptr;
+  }
+
   std::cout << "Exiting gracefully." << std::endl;
 
   return EXIT_SUCCESS;
-- 
2.43.0


From c5ce94ceae5e981eaf69d103c8806f9cae20f1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:00 +0000
Subject: [PATCH 26/29] fix: a plugin whose instance factory yields nothing
 leaves no empty instance behind

---
 src/lamppost/plugin/PluginTemplate.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lamppost/plugin/PluginTemplate.cpp b/src/lamppost/plugin/PluginTemplate.cpp
index c020469..374c630 100644
--- a/src/lamppost/plugin/PluginTemplate.cpp
+++ b/src/lamppost/plugin/PluginTemplate.cpp
@@ -34,7 +34,11 @@ namespace lp
     configuration.mBus = parentBus->CreateChildBus(configuration.mIdentifier);
 
     std::shared_ptr<PluginInstance> instance = mConfiguration.mInstantiateFunction(configuration);
-    mInstances[configuration.mIdentifier] = instance;
+
+    if(instance != nullptr)
+    {
+      mInstances[configuration.mIdentifier] = instance;
+    }
 
     return instance;
   }
-- 
2.43.0


From a319b8621f33fda313830d07a1ab948f029c178b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 27/29] fix: a plugin library replaced by another of the same
 identifier is closed

---
 src/lamppost/plugin/PluginManager.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 863fc40..0cf740d 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -125,6 +125,16 @@ namespace lp
               pluginTemplateDescription.mLibraryHandle = handle;
               pluginTemplateDescription.mTemplate = pluginTemplate;
 
+              // A plugin loaded earlier under the same identifier is replaced.
+              std::map<std::string, PluginTemplateDescription>::iterator existing = mTemplates.find(info->mIdentifier);
+
+              if(existing != mTemplates.end())
+              {
+                existing->second.mTemplate->Unload();
+                existing->second.mTemplate = nullptr;
+                ClosePluginLibrary(existing->second.mLibraryHandle);
+              }
+
               mTemplates[info->mIdentifier] = pluginTemplateDescription;
 
               loadedSuccessfully = true;
-- 
2.43.0


From 698e794f1c83d3e85fab8a7ec19350c1e3e250c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:31 +0000
Subject: [PATCH 28/29] fix: a link can be ended while a peer does not read
 what is sent to it

---
 src/plugins/link/Link.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/plugins/link/Link.cpp b/src/plugins/link/Link.cpp
index 68ce061..d37b150 100644
--- a/src/plugins/link/Link.cpp
+++ b/src/plugins/link/Link.cpp
@@ -105,6 +105,12 @@ namespace lp
       {
         mLog.Error("Failed to create ZMQ socket: " + std::string(zmq_strerror(zmq_errno())));
       }
+      else
+      {
+        // A peer that doesn't read what is sent to it must not keep this side from shutting down.
+        int lingerMilliseconds = 1000;
+        zmq_setsockopt(socket, ZMQ_LINGER, &lingerMilliseconds, sizeof(lingerMilliseconds));
+      }
 
       return socket;
     }
-- 
2.43.0


From d42d83466c9a916a66cd274247596f199877a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:18 +0000
Subject: [PATCH 29/29] fix: plugin libraries stay loaded while the bus may
 hold what they made

---
 include/lamppost/plugin/PluginManager.h |  4 ++++
 src/lamppost/plugin/PluginManager.cpp   | 23 +++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/lamppost/plugin/PluginManager.h b/include/lamppost/plugin/PluginManager.h
index a502f41..d928015 100644
--- a/include/lamppost/plugin/PluginManager.h
+++ b/include/lamppost/plugin/PluginManager.h
@@ -6,6 +6,7 @@
 #include <map>
 #include <memory>
 #include <string>
+#include <vector>
 
 #if defined(__unix__) || defined(__linux__) || defined(__FreeBSD__) || defined(__APPLE__)
 #include <dlfcn.h>
@@ -76,6 +77,8 @@ namespace lp
 
     PluginManagerConfiguration mConfiguration;
     std::map<std::string, PluginTemplateDescription> mTemplates;
+    // Until the bus is gone, it may hold messages and participants made by a plugin that is gone already.
+    std::vector<PluginLibraryHandle> mUnusedLibraryHandles;
     log::Log mLog;
 
     #pragma endregion
@@ -83,6 +86,7 @@ namespace lp
     #pragma region Private Methods
 
     bool LoadTemplate(std::string filePath);
+    void CloseUnusedLibraries();
 
     #pragma endregion
 
diff --git a/src/lamppost/plugin/PluginManager.cpp b/src/lamppost/plugin/PluginManager.cpp
index 0cf740d..2cca0ce 100644
--- a/src/lamppost/plugin/PluginManager.cpp
+++ b/src/lamppost/plugin/PluginManager.cpp
@@ -32,7 +32,18 @@ namespace lp
   PluginManager::~PluginManager()
   {
     UnloadTemplates();
-    mConfiguration.mBus = nullptr;
+    SetBus(nullptr);
+    CloseUnusedLibraries();
+  }
+
+  void PluginManager::CloseUnusedLibraries()
+  {
+    for(PluginLibraryHandle handle : mUnusedLibraryHandles)
+    {
+      ClosePluginLibrary(handle);
+    }
+
+    mUnusedLibraryHandles.clear();
   }
 
   void PluginManager::AddTemplateSearchPath(std::string templateSearchPath)
@@ -132,7 +143,7 @@ namespace lp
               {
                 existing->second.mTemplate->Unload();
                 existing->second.mTemplate = nullptr;
-                ClosePluginLibrary(existing->second.mLibraryHandle);
+                mUnusedLibraryHandles.push_back(existing->second.mLibraryHandle);
               }
 
               mTemplates[info->mIdentifier] = pluginTemplateDescription;
@@ -200,7 +211,7 @@ namespace lp
         mLog.Info(templatePair.first, 1);
 
         templatePair.second.mTemplate->Unload();
-        ClosePluginLibrary(templatePair.second.mLibraryHandle);
+        mUnusedLibraryHandles.push_back(templatePair.second.mLibraryHandle);
       }
 
       mTemplates.clear();
@@ -209,7 +220,11 @@ namespace lp
 
   void PluginManager::SetBus(std::shared_ptr<bus::Bus> bus)
   {
-    mConfiguration.mBus = bus;
+    if(mConfiguration.mBus != bus)
+    {
+      mConfiguration.mBus = bus;
+      CloseUnusedLibraries();
+    }
   }
 
   std::shared_ptr<PluginInstance> PluginManager::InstantiateTemplate(std::string templateIdentifier, PluginConfiguration configuration)
-- 
2.43.0

