From b41d3874df1cc3cbceb47d55cf1ad658f8637890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 01/49] fix: do not read the header field size through a
 misaligned pointer

Messages rarely start on a 4 byte boundary of the receive buffer.
---
 src/dbus_messageprotocol.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index c4ebdb1..4a78a0a 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -30,6 +30,7 @@
 #include "dbus_messageprotocol.h"
 
 #include <byteswap.h>
+#include <cstring>
 
 namespace {
 
@@ -115,8 +116,9 @@ bool DBus::MessageProtocol::getHeaderSize(OctetBuffer& buffer)
     // making a total of 16 bytes
     if (buffer.size() >= 16) {
         // Read the size of the array
-        m_headerSize = *(uint32_t*)(buffer.data() + 12);
-        m_headerSize = CorrectEndianess(buffer[0], m_headerSize);
+        uint32_t fieldsSize = 0;
+        memcpy(&fieldsSize, buffer.data() + 12, sizeof(fieldsSize));
+        m_headerSize = CorrectEndianess(buffer[0], fieldsSize);
         if (m_headerSize > MAX_ARRAY_SIZE) {
             throw std::out_of_range("DBus message error: Maximum size exceeded");
         }
-- 
2.43.0


From 48cfc98a6dd2061d79483231c286c771a9013757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/49] fix: asUint32 must accept the whole range of a uint32

std::stoi throws above INT32_MAX, so messages whose serial or reply serial
is 2^31 or more were dropped.
---
 src/dbus_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index ae8c90f..94f6a56 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -47,7 +47,7 @@ uint8_t DBus::Type::asByte(const Generic& v)
 
 uint32_t DBus::Type::asUint32(const Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    return std::stoul(Type::asString(v));
 }
 
 // Generate a compact, machine-friendly, version of the data.
-- 
2.43.0


From b8a4f503dc73298d5724fb0ed456e3ea66fb14ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 03/49] fix: drop the cached octets when the message protocol
 is reset

After a framing error the cache still held messages that had already been
dispatched, as well as the broken one, and all were processed again with
the next chunk.
---
 src/dbus_messageprotocol.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 4a78a0a..635818a 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -69,7 +69,12 @@ DBus::MessageProtocol::MessageProtocol()
     reset();
 }
 
-void DBus::MessageProtocol::reset() { startMessage(); }
+void DBus::MessageProtocol::reset()
+{
+    // What is cached belongs to the stream that is being abandoned
+    m_octetCache.clear();
+    startMessage();
+}
 
 void DBus::MessageProtocol::setMethodCallHandler(
     const DBus::Message::CallbackFunctionMethodCall& callback)
-- 
2.43.0


From 84238ffbe5595bf17e2d461128f4b4f86be701c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 04/49] fix: refuse to unmarshall a value of an unknown type

The value was skipped without consuming its data, so the values after it
were read from the wrong place, and a non-empty array of an unknown type
grew until memory was exhausted.
---
 src/dbus_type.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 94f6a56..6bcba39 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -37,6 +37,8 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 
+#include <stdexcept>
+
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
 //
@@ -281,6 +283,10 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
     Log::write(DBus::Log::ERROR,
         "DBus :: Unmarshalling type not implemented (%s)\n", type.c_str());
 
+    // Nothing after this value can be located, and an array of such values
+    // would never end.
+    throw std::runtime_error("Unmarshalling error: type not implemented");
+
 #undef TYPE_UNMARSHALL_DATA
 }
 
-- 
2.43.0


From 399c63fa793e1e2496e518aaa32d937e5015f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 05/49] fix: limit the depth of a received message

Variants within variants, and signatures with unbalanced brackets, recursed
until the stack overflowed.
---
 src/dbus_messageistream.cpp | 19 +++++++++++++++++++
 src/dbus_messageistream.h   |  5 +++++
 src/dbus_type.cpp           |  2 ++
 3 files changed, 26 insertions(+)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 9b2c48f..159b681 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -21,6 +21,13 @@
 #include <stdexcept>
 #include <string>
 
+namespace {
+
+// A message is at most 64 containers deep, and there is a value in the last.
+static const size_t MAX_DEPTH = 65;
+
+} // namespace
+
 namespace DBus {
 
 MessageIStream::MessageIStream(const uint8_t* data, size_t size,
@@ -28,6 +35,7 @@ MessageIStream::MessageIStream(const uint8_t* data, size_t size,
     : m_data(data, size)
     , m_offset(0)
     , m_swapByteOrder(swapByteOrder)
+    , m_depth(0)
 {
 }
 
@@ -35,6 +43,7 @@ MessageIStream::MessageIStream(MessageIStream& stream, size_t size)
     : m_data(stream.m_data.data(), size)
     , m_offset(stream.m_offset)
     , m_swapByteOrder(stream.m_swapByteOrder)
+    , m_depth(stream.m_depth)
 {
     stream.m_data.remove_prefix(size);
     stream.m_offset += size;
@@ -85,6 +94,16 @@ void MessageIStream::read(std::string& string, size_t size)
     m_offset += size;
 }
 
+void MessageIStream::enter()
+{
+    if (m_depth == MAX_DEPTH) {
+        throw std::runtime_error("Message read error: Nested too deeply");
+    }
+    ++m_depth;
+}
+
+void MessageIStream::leave() { --m_depth; }
+
 bool MessageIStream::empty() { return m_data.empty(); }
 
 } // namespace DBus
diff --git a/src/dbus_messageistream.h b/src/dbus_messageistream.h
index eadaa79..62872b1 100644
--- a/src/dbus_messageistream.h
+++ b/src/dbus_messageistream.h
@@ -28,6 +28,7 @@ class MessageIStream {
     OctetBuffer m_data;
     size_t m_offset;
     bool m_swapByteOrder;
+    size_t m_depth;
 
     template <class T>
     T swap(T value) const
@@ -53,6 +54,10 @@ public:
     MessageIStream(MessageIStream& stream, size_t size);
     bool empty();
 
+    // The level of nesting of the value being read
+    void enter();
+    void leave();
+
     void align(size_t alignment);
     uint8_t read();
     void read(uint8_t* value, size_t size);
diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 6bcba39..5b7090a 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -257,7 +257,9 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
 #define TYPE_UNMARSHALL_DATA(typename)                    \
     if (type[0] == typename ::s_StaticTypeCode[0]) {      \
         typename& v = boost::any_cast<typename&>(result); \
+        stream.enter();                                   \
         v.unmarshall(stream);                             \
+        stream.leave();                                   \
         return;                                           \
     }
 
-- 
2.43.0


From bce086d7635a8fe4d93b15bfd1f0901c79e182ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 06/49] fix: a variant is aligned to 1 byte, as its signature

Arrays of variants, sent and received, had padding no other implementation
has.
---
 src/dbus_type_variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_variant.h b/src/dbus_type_variant.h
index 343c288..4357c60 100644
--- a/src/dbus_type_variant.h
+++ b/src/dbus_type_variant.h
@@ -38,7 +38,7 @@ namespace Type {
         Variant(const DBus::Type::Uint32& v);
         Variant(const DBus::Type::Signature& v);
 
-        size_t getAlignment() const { return 8; }
+        size_t getAlignment() const { return 1; }
         void marshall(MessageOStream& stream) const;
         void unmarshall(MessageIStream& stream);
 
-- 
2.43.0


From 1f0c1b7d7c2f420cd83d9e0ecafb8a0b8326225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 07/49] fix: put the size of an array where the array starts

When padding was needed before it, the size overwrote the padding.
---
 src/dbus_type_array.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index da4fbf4..8b2346e 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -138,6 +138,7 @@ const std::vector<DBus::Type::Generic>& DBus::Type::Array::getContents() const
 
 void DBus::Type::Array::marshall(MessageOStream& stream) const
 {
+    stream.pad4();
     const size_t sizePos = stream.size();
     stream.writeUint32(0);
 
-- 
2.43.0


From ec94cfeb40f2f1041ee4d656aaf8077ea60d14d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 08/49] fix: a double is aligned to 8 bytes when it is read

After a value that does not end on an 8 byte boundary the padding was read
as part of the double. The double is also no longer loaded through a
pointer to an unaligned byte array.
---
 src/dbus_messageistream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageistream.cpp b/src/dbus_messageistream.cpp
index 159b681..d1db3ac 100644
--- a/src/dbus_messageistream.cpp
+++ b/src/dbus_messageistream.cpp
@@ -76,10 +76,12 @@ void MessageIStream::read(uint8_t* value, size_t size)
 void MessageIStream::read(double* value)
 {
     uint8_t bytes[sizeof(double)];
+    align(sizeof(double));
     read(bytes, sizeof(double));
     if (m_swapByteOrder)
         std::reverse(std::begin(bytes), std::end(bytes));
-    *value = *reinterpret_cast<double*>(bytes);
+    std::copy(std::begin(bytes), std::end(bytes),
+        reinterpret_cast<uint8_t*>(value));
 }
 
 void MessageIStream::read(std::string& string, size_t size)
-- 
2.43.0


From d102a6b05f6cb97908b95d310e970b914005c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 09/49] fix: the text of a double must denote that double

asString() is the only access to the value of a received double, and kept 6
of its digits.
---
 src/dbus_type_double.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dbus_type_double.cpp b/src/dbus_type_double.cpp
index 439eadd..3fd197d 100644
--- a/src/dbus_type_double.cpp
+++ b/src/dbus_type_double.cpp
@@ -18,6 +18,9 @@
 #include "dbus_type_double.h"
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
+#include <cstdlib>
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 const std::string DBus::Type::Double::s_StaticTypeCode("d");
@@ -56,7 +59,13 @@ std::string DBus::Type::Double::toString(const std::string& prefix) const
 
 std::string DBus::Type::Double::asString() const
 {
+    // The usual precision unless that would be another number
     std::stringstream ss;
     ss << m_Value;
+    if (std::strtod(ss.str().c_str(), nullptr) != m_Value) {
+        ss.str("");
+        ss << std::setprecision(std::numeric_limits<double>::max_digits10)
+           << m_Value;
+    }
     return ss.str();
 }
-- 
2.43.0


From f4d2c73a1999a6ec5ba5316a1233262d9a6c5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 10/49] fix: initialise the fields of a message header

The reply serial of a message that has none was whatever the memory held, so
such a reply could complete an unrelated call.
---
 src/dbus_message.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.h b/src/dbus_message.h
index 1c5e865..5c3c3ea 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -115,10 +115,10 @@ namespace Message {
             HEADER_FIELD_COUNT // = HEADER_UNIX_FDS+1
         } HeaderFields;
 
-        uint8_t flags;
-        uint8_t type;
-        uint32_t serial;
-        uint32_t replySerial;
+        uint8_t flags = FLAGS_NONE;
+        uint8_t type = TYPE_INVALID;
+        uint32_t serial = 0;
+        uint32_t replySerial = 0;
 
         std::string path;
         std::string interface;
-- 
2.43.0


From f4d84edc78ab0a05d8d6ed721f016ea92c7aafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 11/49] fix: receive the message of an error, and errors
 without one

getMessage() was always empty, because a local variable hid the member, and
an error whose first argument is not a string was dropped, so the call it
answers never completed.
---
 src/dbus_message_error.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 211c5a2..668aeb7 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -18,7 +18,6 @@
 #include "dbus_log.h"
 
 #include "dbus_message.h"
-#include "dbus_messageistream.h"
 #include "dbus_type_array.h"
 #include "dbus_type_byte.h"
 #include "dbus_type_signature.h"
@@ -44,17 +43,10 @@ DBus::Message::Error::Error(const DBus::Type::Struct& header,
     const std::string& body)
     : Message::Base(header, body)
 {
-    const bool isLittleEndian = Type::asByte(header[0]) == 'l' ? true : false;
-
-    DBus::Type::Struct dest;
-    dest.setSignature("(s)");
-
-    MessageIStream stream((uint8_t*)body.data(), body.size(),
-        isLittleEndian ? __BYTE_ORDER != __LITTLE_ENDIAN
-                       : __BYTE_ORDER != __BIG_ENDIAN);
-    dest.unmarshall(stream);
-
-    const std::string m_Message = DBus::Type::asString(dest[0]);
+    // If the first argument exists and is a string, it is an error message
+    if (getParameterCount() && Type::getMarshallingSignature(getParameter(0)) == Type::String::s_StaticTypeCode) {
+        m_Message = DBus::Type::asString(getParameter(0));
+    }
     m_SerialReplyingTo = getReplySerial();
 
     Log::write(Log::WARNING,
-- 
2.43.0


From acf0f5c2570fb31b7eb0607be4a199d31c02d315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 12/49] fix: keep the flags of a received method call

isReplyExpected() was true for calls whose sender expects no reply.
---
 src/dbus_message_methodcall.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 8f4408a..0919db3 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -31,7 +31,6 @@ DBus::Message::MethodCall::MethodCall(const DBus::Type::Struct& header,
     : Message::Base(header, body)
     , m_Name(m_Header.path, m_Header.interface, m_Header.member)
 {
-    m_Header.flags = 0;
     m_Header.type = Message::Header::TYPE_METHOD_CALL;
 }
 
-- 
2.43.0


From b924aa6110372f228ea63f9919f8b509dcf6a064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 13/49] fix: never give a message the serial zero

The counter wraps after 2^32 messages.
---
 src/dbus_message.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index 425264f..b4a59dc 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -35,7 +35,14 @@ boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 DBus::Message::Base::Base(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
-    m_Header.serial = serial ? serial : m_SerialCounter++;
+    if (!serial) {
+        if (m_SerialCounter == 0) {
+            // The counter has wrapped, and zero is not a serial
+            ++m_SerialCounter;
+        }
+        serial = m_SerialCounter++;
+    }
+    m_Header.serial = serial;
 }
 
 DBus::Message::Base::Base(const DBus::Type::Struct& header,
-- 
2.43.0


From 7f756f61fdfec70e494e05321cfbb2be8df2bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 14/49] hook: the first serial can be chosen with
 DBUS_ASIO_VERIF_SERIAL_START

Verification builds start the counter close to where it wraps.
---
 src/dbus_message.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index b4a59dc..bbc1b59 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -29,7 +29,10 @@
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
 
-uint32_t DBus::Message::Base::m_SerialCounter = 1;
+#ifndef DBUS_ASIO_VERIF_SERIAL_START
+#define DBUS_ASIO_VERIF_SERIAL_START 1
+#endif
+uint32_t DBus::Message::Base::m_SerialCounter = DBUS_ASIO_VERIF_SERIAL_START;
 boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
 
 DBus::Message::Base::Base(uint32_t serial)
-- 
2.43.0


From 0f52820b7e28366d97686e9f6ef3c3309a9087b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 15/49] fix: forget a call before its callback runs

A callback that threw was run again by the next reply with that serial, and
while a callback ran no other thread could make a call. Errors received are
now counted too.
---
 src/dbus_native.cpp | 29 +++++++++++++++++++++--------
 src/dbus_native.h   |  3 +++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index acca103..3aa4d2a 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -194,25 +194,38 @@ void DBus::Native::onReceiveMethodCall(
 void DBus::Native::onReceiveMethodReturn(
     const DBus::Message::MethodReturn& result)
 {
-    boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(result.m_SerialReplyingTo);
     ++m_Stats.count_receive_methodreturns;
 
-    if (it != m_MessageQueue.end()) {
-        it->second.success(result);
-        m_MessageQueue.erase(it);
+    std::unique_ptr<CallbackPair> callbacks(
+        takeCallbacks(result.m_SerialReplyingTo));
+    if (callbacks) {
+        callbacks->success(result);
     }
 }
 
-void DBus::Native::onReceiveError(const DBus::Message::Error& error)
+std::unique_ptr<DBus::Native::CallbackPair>
+DBus::Native::takeCallbacks(uint32_t serial)
 {
     boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
-    auto it = m_MessageQueue.find(error.getSerialOfReply());
+    std::unique_ptr<CallbackPair> callbacks;
+    auto it = m_MessageQueue.find(serial);
 
     if (it != m_MessageQueue.end()) {
-        it->second.failure(error);
+        callbacks.reset(new CallbackPair(it->second));
         m_MessageQueue.erase(it);
     }
+    return callbacks;
+}
+
+void DBus::Native::onReceiveError(const DBus::Message::Error& error)
+{
+    ++m_Stats.count_receive_errors;
+
+    std::unique_ptr<CallbackPair> callbacks(
+        takeCallbacks(error.getSerialOfReply()));
+    if (callbacks) {
+        callbacks->failure(error);
+    }
     DBus::Log::write(DBus::Log::WARNING, "DBus :: Error : %s\n",
         error.getMessage().c_str());
 }
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 61cdb8f..79a5fe0 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -136,6 +136,9 @@ private:
         Message::CallbackFunctionError failure;
     };
 
+    // Each call is answered at most once, and its callbacks run without the lock
+    std::unique_ptr<CallbackPair> takeCallbacks(uint32_t serial);
+
     struct Stats {
         size_t bytes_auth = 0;
         size_t bytes_message = 0;
-- 
2.43.0


From a8eca3ac215b46a7f489a0135befebc928541b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 16/49] fix: handlers may unregister themselves and change the
 match rules

A handler was destroyed while it ran, and the loop over the rules used an
iterator that the handler had invalidated.
---
 src/dbus_native.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 3aa4d2a..9cfa8fa 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -187,7 +187,9 @@ void DBus::Native::onReceiveMethodCall(
     auto it = m_MethodCallMap.find(method.getFullName());
 
     if (it != m_MethodCallMap.end()) {
-        it->second(method);
+        // The handler may unregister itself
+        const auto handler = it->second;
+        handler(method);
     }
 }
 
@@ -239,14 +241,26 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
-        it->second(signal);
+        // The handler may unregister itself
+        const auto handler = it->second;
+        handler(signal);
     }
 
     {
         boost::recursive_mutex::scoped_lock guard(m_RulesMapMutex);
-        for (auto it : m_RulesMap) {
-            if (it.second.isMatched(signal)) {
-                it.second.invoke(signal);
+        // The handlers may add and remove rules
+        std::vector<std::string> rules;
+        for (const auto& it : m_RulesMap) {
+            rules.push_back(it.first);
+        }
+        for (const auto& rule : rules) {
+            auto it = m_RulesMap.find(rule);
+            if (it == m_RulesMap.end()) {
+                continue;
+            }
+            auto matchrule = it->second;
+            if (matchrule.isMatched(signal)) {
+                matchrule.invoke(signal);
             }
         }
     }
-- 
2.43.0


From ee32a447514e36fac3bcf87e88bec260bc22e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 17/49] fix: statistics that agree with the traffic

The counters were incremented by several threads without synchronisation,
bytes_read was never incremented, and bytes_auth was the size of the last
part of the handshake.
---
 src/dbus_native.cpp    |  5 +++--
 src/dbus_native.h      | 21 +++++++++++----------
 src/dbus_transport.cpp |  1 +
 src/dbus_transport.h   | 11 ++++++-----
 4 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 9cfa8fa..581fa63 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -62,8 +62,9 @@ void DBus::Native::onReceiveAuthData(OctetBuffer& buffer)
 {
     try {
         const size_t bufferSize = buffer.size();
-        if (m_AuthenticationProtocol->onReceiveData(buffer)) {
-            m_Stats.bytes_auth = bufferSize - buffer.size();
+        const bool authenticated = m_AuthenticationProtocol->onReceiveData(buffer);
+        m_Stats.bytes_auth += bufferSize - buffer.size();
+        if (authenticated) {
             onReceiveMessageData(buffer);
             m_Transport->setDataHandler(std::bind(&Native::onReceiveMessageData, this,
                 std::placeholders::_1));
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 79a5fe0..0fbbcd5 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -23,6 +23,7 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 #include "dbus_transport.h"
+#include <atomic>
 
 namespace DBus {
 
@@ -140,16 +141,16 @@ private:
     std::unique_ptr<CallbackPair> takeCallbacks(uint32_t serial);
 
     struct Stats {
-        size_t bytes_auth = 0;
-        size_t bytes_message = 0;
-        size_t count_sent_methodcalls = 0;
-        size_t count_sent_methodreturns = 0;
-        size_t count_sent_errors = 0;
-        size_t count_sent_signals = 0;
-        size_t count_receive_methodcalls = 0;
-        size_t count_receive_methodreturns = 0;
-        size_t count_receive_errors = 0;
-        size_t count_receive_signals = 0;
+        std::atomic<size_t> bytes_auth { 0 };
+        std::atomic<size_t> bytes_message { 0 };
+        std::atomic<size_t> count_sent_methodcalls { 0 };
+        std::atomic<size_t> count_sent_methodreturns { 0 };
+        std::atomic<size_t> count_sent_errors { 0 };
+        std::atomic<size_t> count_sent_signals { 0 };
+        std::atomic<size_t> count_receive_methodcalls { 0 };
+        std::atomic<size_t> count_receive_methodreturns { 0 };
+        std::atomic<size_t> count_receive_errors { 0 };
+        std::atomic<size_t> count_receive_signals { 0 };
     } m_Stats;
 
     mutable boost::recursive_mutex m_MessageQueueMutex;
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c5b8334..09be57a 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -52,6 +52,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
 {
     boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
     OctetBuffer buffer(m_DataBuffer, bytes_transferred);
+    m_Stats.bytes_read += bytes_transferred;
     m_ReceiveDataCallback(buffer);
 
     if (error) {
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index 130d75f..c59502e 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -19,6 +19,7 @@
 #define DBUS_TRANSPORT_H
 
 #include "dbus_octetbuffer.h"
+#include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
 
@@ -76,11 +77,11 @@ protected:
 
 private:
     struct Stats {
-        size_t count_messagessent = 0;
-        size_t count_messagesqueued = 0;
-        size_t count_messagespumped = 0;
-        size_t bytes_sent = 0;
-        size_t bytes_read = 0;
+        std::atomic<size_t> count_messagessent { 0 };
+        std::atomic<size_t> count_messagesqueued { 0 };
+        std::atomic<size_t> count_messagespumped { 0 };
+        std::atomic<size_t> bytes_sent { 0 };
+        std::atomic<size_t> bytes_read { 0 };
     } m_Stats;
 };
 } // namespace DBus
-- 
2.43.0


From e33fdf034375179f53bc90e9c304e0b3fe36a0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 18/49] fix: the log level may be set while other threads log

---
 src/dbus_log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 4ad2a31..8543008 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -16,9 +16,10 @@
 // <http://www.gnu.org/licenses/>.
 
 #include "dbus_log.h"
+#include <atomic>
 #include <cstdint>
 
-static size_t g_Level = DBus::Log::WARNING;
+static std::atomic<size_t> g_Level { DBus::Log::WARNING };
 
 bool DBus::Log::isActive(size_t type)
 {
-- 
2.43.0


From 2aa15720fab32490921d497ecec0fdc171f05570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:57 +0000
Subject: [PATCH 19/49] fix: spelling of False

---
 src/dbus_type_boolean.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 4651dc5..0a6e865 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -49,7 +49,7 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
     std::stringstream ss;
 
     ss << prefix << "Boolean ";
-    ss << (m_Value ? "True" : "Talse") << "\n";
+    ss << (m_Value ? "True" : "False") << "\n";
 
     return ss.str();
 }
-- 
2.43.0


From 03e11a3bc93ad33d043418c18595b42f17b7ecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 20/49] fix: write one message at a time

Several asynchronous writes were outstanding on the socket at once. When the
socket did not take a whole message, the octets of the following messages
were written in the middle of it.
---
 src/dbus_transport.cpp | 52 ++++++++++++++++++++++++++++++++----------
 src/dbus_transport.h   |  7 ++++--
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 09be57a..c1c7663 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -32,6 +32,7 @@ DBus::Transport::Transport(const std::string& path)
         std::bind(&Transport::onReceiveData, this, std::placeholders::_1));
 
     m_socket.connect(m_Busname);
+    m_socket.non_blocking(true);
 
     // The "special credentials passing NUL byte" is required, even for protocols
     // that can send credentials without needing one. Otherwise, the server may
@@ -85,6 +86,7 @@ DBus::Transport::~Transport()
         // same time as handle_read_data() is calling async_read_some() on the same
         // object
         boost::recursive_mutex::scoped_lock guard(m_CallbackMutex);
+        boost::recursive_mutex::scoped_lock sendGuard(m_SendMutex);
         boost::system::error_code ec;
         m_socket.shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);
         if (ec) {
@@ -141,11 +143,7 @@ void DBus::Transport::sendString(const std::string& data)
 void DBus::Transport::sendOctetDirect(uint8_t data)
 {
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
-    std::shared_ptr<std::string> buf(new std::string());
-    buf.get()->push_back(static_cast<char>(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    write(std::string(1, static_cast<char>(data)));
 }
 
 void DBus::Transport::sendStringDirect(const std::string& data)
@@ -154,23 +152,53 @@ void DBus::Transport::sendStringDirect(const std::string& data)
     DBus::Log::writeHex(DBus::Log::TRACE, "DBus :: SENDDIRECT: \n", data);
     boost::recursive_mutex::scoped_lock guard(m_SendMutex);
 
-    // We don't know when the write will complete, so we copy the buffer
-    std::shared_ptr<std::string> buf(new std::string(data));
-    boost::asio::async_write(
-        m_socket, boost::asio::buffer(*buf.get()),
-        boost::bind(&Transport::handle_write_output, this, buf, boost::placeholders::_1, boost::placeholders::_2));
+    write(data);
     ++m_Stats.count_messagessent;
     m_Stats.bytes_sent += data.length();
 }
 
+void DBus::Transport::write(const std::string& data)
+{
+    // An asynchronous write may take several operations to complete, and the
+    // octets of two that overlap would be mixed. So only what the socket does
+    // not take at once is written asynchronously, one message after the other.
+    std::size_t written = 0;
+    if (m_WriteQueue.empty()) {
+        boost::system::error_code ec;
+        written = m_socket.write_some(boost::asio::buffer(data), ec);
+        if (written == data.size()) {
+            return;
+        }
+    }
+
+    m_WriteQueue.push_back(data.substr(written));
+    if (m_WriteQueue.size() == 1) {
+        startWrite();
+    }
+}
+
+void DBus::Transport::startWrite()
+{
+    boost::asio::async_write(
+        m_socket, boost::asio::buffer(m_WriteQueue.front()),
+        boost::bind(&Transport::handle_write_output, this, boost::placeholders::_1, boost::placeholders::_2));
+}
+
 void DBus::Transport::handle_write_output(
-    std::shared_ptr<std::string> buf_written,
     const boost::system::error_code& error, std::size_t bytes_transferred)
 {
-    buf_written.reset();
+    boost::recursive_mutex::scoped_lock guard(m_SendMutex);
     if (error) {
         DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in async_write : %s\n",
             error.message().c_str());
+        // What is left of a message can not be followed by another
+        m_WriteQueue.clear();
+        return;
+    }
+
+    m_WriteQueue.pop_front();
+    if (!m_WriteQueue.empty()) {
+        startWrite();
     }
 }
 
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index c59502e..ed77e0b 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -22,6 +22,7 @@
 #include <atomic>
 #include <boost/asio.hpp>
 #include <boost/thread.hpp>
+#include <deque>
 
 #define USE_ASIO_NORMAL 1
 #define USE_ASIO_ACCESSOR 0
@@ -37,8 +38,7 @@ public:
     ~Transport();
 
     void sendString(const std::string& data);
-    void handle_write_output(std::shared_ptr<std::string> buf_written,
-        const boost::system::error_code& error,
+    void handle_write_output(const boost::system::error_code& error,
         std::size_t bytes_transferred);
     void handle_read_data(const boost::system::error_code& error,
         std::size_t bytes_transferred);
@@ -58,6 +58,8 @@ protected:
         // buffering
     void sendOctetDirect(uint8_t data);
     void sendStringDirect(const std::string& data);
+    void write(const std::string& data);
+    void startWrite();
 
     std::string m_Busname;
     bool m_ReadyToSend;
@@ -71,6 +73,7 @@ protected:
     mutable boost::recursive_mutex m_SendMutex;
     mutable boost::recursive_mutex m_CallbackMutex;
     std::vector<std::string> m_BufferedMessages;
+    std::deque<std::string> m_WriteQueue;
     std::atomic<bool> m_ShuttingDown;
 
     boost::thread m_io_context_thread;
-- 
2.43.0


From 1407538a8d04896fda1ddbca8dcc7a48fc91c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 21/49] fix: process each authentication command once

The command was not removed from the data, so the first was processed again
and again, and NEGOTIATE_UNIX_FD never completed.
---
 src/dbus_auth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index 21e9f5a..eb1b186 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -70,8 +70,8 @@ bool DBus::AuthenticationProtocol::processData()
     const size_t pos = m_data.find("\r\n");
     if (pos != std::string::npos) {
         std::string command(m_data.data(), pos + 2);
-        return onCommand(command);
         m_data = m_data.substr(pos + 2);
+        return onCommand(command);
     };
 
     return false;
-- 
2.43.0


From 6c4c14cf7f119ac6fcd088326ee38bbad2c88d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 22/49] fix: begin only when the server has accepted the
 authentication

AGREE_UNIX_FD was answered with BEGIN even before OK, and ERROR in answer to
NEGOTIATE_UNIX_FD was not answered, so the connection never became usable.
The required authentication was also read uninitialised and unlocked.
---
 src/dbus_auth.cpp | 35 ++++++++++++++++++++++++++++++++---
 src/dbus_auth.h   |  3 +++
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index eb1b186..bf0cd1c 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -34,14 +34,22 @@ AGREE   ---->
 
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
-    : m_Transport(transport)
+    : m_AuthType(AUTH_BASIC)
+    , m_State(STATE_WAITING_FOR_OK)
+    , m_Transport(transport)
 {
 }
 
 void DBus::AuthenticationProtocol::reset()
 {
     m_data.clear();
-    sendAuth(m_AuthType);
+
+    AuthenticationProtocol::AuthRequired type;
+    {
+        boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        type = m_AuthType;
+    }
+    sendAuth(type);
 }
 
 void DBus::AuthenticationProtocol::sendAuthListMethods()
@@ -56,6 +64,7 @@ void DBus::AuthenticationProtocol::sendAuth(
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
         m_AuthType = type;
+        m_State = STATE_WAITING_FOR_OK;
     }
 
     std::string auth("AUTH EXTERNAL ");
@@ -105,8 +114,13 @@ bool DBus::AuthenticationProtocol::onOK(
 
     {
         boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+        if (m_State != STATE_WAITING_FOR_OK) {
+            return false;
+        }
         if (m_AuthType == AUTH_BASIC) {
             send_begin = true;
+        } else {
+            m_State = STATE_WAITING_FOR_AGREE_UNIX_FD;
         }
     }
 
@@ -123,7 +137,19 @@ bool DBus::AuthenticationProtocol::onError(const std::string& error_message)
 {
     DBus::Log::write(DBus::Log::ERROR, "DBus :: onError : %s\n",
         error_message.c_str());
-    return false;
+    if (!isNegotiatingUnixFD()) {
+        return false;
+    }
+
+    // Continue without the passing of file descriptors
+    sendBegin();
+    return true;
+}
+
+bool DBus::AuthenticationProtocol::isNegotiatingUnixFD() const
+{
+    boost::recursive_mutex::scoped_lock guard(m_AuthTypeMutex);
+    return m_State == STATE_WAITING_FOR_AGREE_UNIX_FD;
 }
 
 bool DBus::AuthenticationProtocol::onRejected(
@@ -140,6 +166,9 @@ bool DBus::AuthenticationProtocol::onRejected(
 bool DBus::AuthenticationProtocol::onAgreeUnixFD()
 {
     DBus::Log::write(DBus::Log::INFO, "DBus :: onAgreeUnixFD\n");
+    if (!isNegotiatingUnixFD()) {
+        return false;
+    }
     sendBegin();
     return true;
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index ada3b41..b853500 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -49,6 +49,7 @@ protected:
     bool onCancel();
     bool onNegotiateUnixFD(const std::string&);
 
+    bool isNegotiatingUnixFD() const;
     void sendNegotiateUnixFD();
     void sendBegin();
     void sendData(std::string& data);
@@ -61,6 +62,8 @@ protected:
 private:
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
+    enum { STATE_WAITING_FOR_OK,
+        STATE_WAITING_FOR_AGREE_UNIX_FD } m_State;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
 };
-- 
2.43.0


From 1cbbb4ffaa1647711f222de668dd2d501f37eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 23/49] fix: a path namespace contains its own path, and the
 root all paths

The first threw while the signal was dispatched, and so hid it from the
other rules.
---
 src/dbus_matchrule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 38c828e..6c51500 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -113,8 +113,8 @@ bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
         // This handles the 3rd case, by checking the character _after_ the match is
         // found: if it's not the terminator or another path (i.e. a new /) the
         // search fails.
-        auto next_char = signal_path.at(path_namespace.size());
-        if (next_char != '\0' && next_char != '/') {
+        // The root, whose own name ends with the separator, contains every path.
+        if (path_namespace != "/" && signal_path.size() > path_namespace.size() && signal_path.at(path_namespace.size()) != '/') {
             return false;
         }
     }
-- 
2.43.0


From adeeddd706811a49c925ed9274d2e27e1fa379f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 24/49] fix: parse match rules as the message bus does

A comma or an equals sign within quotes split the value, values without
quotes lost their first and last character, blanks before a key hid it, and
a rule without values, or with an empty one, was undefined behaviour.
---
 src/dbus_matchrule.cpp | 59 ++++++++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index 6c51500..b936275 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -16,14 +16,52 @@
 // <http://www.gnu.org/licenses/>.
 
 #include <algorithm>
-#include <boost/algorithm/string.hpp>
 #include <boost/thread/recursive_mutex.hpp>
-#include <boost/tokenizer.hpp>
+#include <stdexcept>
+#include <string>
+#include <vector>
 
 #include "dbus_log.h"
 #include "dbus_matchrule.h"
 #include "dbus_message.h"
 
+namespace {
+
+// Split a rule into its keys and values. Within single quotes every character
+// stands for itself, and outside of them \' is a quote.
+std::vector<std::vector<std::string>> splitRule(const std::string& rule)
+{
+    std::vector<std::vector<std::string>> result;
+    size_t pos = rule.find_first_not_of(" \t\r\n");
+
+    while (pos < rule.size()) {
+        const size_t equals = rule.find('=', pos);
+        if (equals == std::string::npos || equals == pos) {
+            throw std::runtime_error("Match rule has a key without a value.");
+        }
+        const std::string key(rule, pos, equals - pos);
+        std::string value;
+        bool quoted = false;
+        for (pos = equals + 1; pos < rule.size() && (quoted || rule[pos] != ','); ++pos) {
+            if (rule[pos] == '\'') {
+                quoted = !quoted;
+            } else if (!quoted && rule[pos] == '\\' && pos + 1 < rule.size() && rule[pos + 1] == '\'') {
+                value += rule[++pos];
+            } else {
+                value += rule[pos];
+            }
+        }
+        if (quoted) {
+            throw std::runtime_error("Match rule has an unbalanced quote.");
+        }
+        result.push_back({ key, value });
+        pos = rule.find_first_not_of(" \t\r\n", pos + 1);
+    }
+    return result;
+}
+
+} // namespace
+
 // https://dbus.freedesktop.org/doc/dbus-specification.html#message-bus-routing-match-rules
 
 DBus::MatchRule::MatchRule(const std::string& rule,
@@ -31,21 +69,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 {
     // Parse the rule string into something programmatic
 
-    // 1. Split by the comma
-    boost::char_separator<char> separator { "," };
-    boost::tokenizer<boost::char_separator<char>> tokenizer { rule, separator };
-    for (auto&& param : tokenizer) {
-        // 2. Then split each at the equals
-        std::vector<std::string> keyvalue;
-        boost::split(keyvalue, param, boost::is_any_of("="));
-
+    // 1. Split by the comma, and 2. each at the equals
+    for (auto&& keyvalue : splitRule(rule)) {
         // Valid keys are: type, sender, interface, member, path, path_namespace,
-        // destination, arg*, eavesdrop We're happy for [] to throw on malformed
-        // rules, since that's watch we'd do anyway in this case
-
-        // 3. Strip the single quotes from the value
-        keyvalue[1].pop_back();
-        keyvalue[1].erase(0, 1);
+        // destination, arg*, eavesdrop
 
         // We store it somewhere convenient to speed the isMateched checks
         if (keyvalue[0] == "type") {
-- 
2.43.0


From 863aca30f3fae3eba0957c9ebd3d462c583d5170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 25/49] fix: a match rule for another type of message does not
 match signals

---
 src/dbus_matchrule.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dbus_matchrule.cpp b/src/dbus_matchrule.cpp
index b936275..398d069 100644
--- a/src/dbus_matchrule.cpp
+++ b/src/dbus_matchrule.cpp
@@ -108,6 +108,10 @@ DBus::MatchRule::MatchRule(const std::string& rule,
 bool DBus::MatchRule::isMatched(const DBus::Message::Signal& signal)
 {
     // These checks are AND, so all set parameters must agree
+    if (type != "" && type != "signal") {
+        return false;
+    }
+
     if (sender != "" && sender != signal.getHeaderSender()) {
         return false;
     }
-- 
2.43.0


From 4f1cf108dc7df804edbf2432b516964f688d686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 26/49] fix: introspection of signals with arguments of
 container types

There was an argument for every character of the signature.
---
 src/dbus_introspectable.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_introspectable.cpp b/src/dbus_introspectable.cpp
index b48f080..d933e3e 100644
--- a/src/dbus_introspectable.cpp
+++ b/src/dbus_introspectable.cpp
@@ -142,10 +142,11 @@ std::string DBus::Introspectable::Signal::serialize() const
     std::string result;
 
     result += "<signal name='" + m_Name + "'>";
-    for (auto type : m_Type) {
-        result += "<arg type='";
-        result += type;
-        result += "'/>";
+    size_t idx = 0;
+    while (idx < m_Type.size()) {
+        std::string sig(DBus::Type::extractSignature(m_Type, idx));
+        result += "<arg type='" + sig + "'/>";
+        idx += sig.size();
     }
     result += "</signal>";
 
-- 
2.43.0


From 83ea394654a65c5d168a5a3c11f66178ab10b4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 27/49] fix: the path of a bus ends where the next key or
 address begins

The guid that a daemon appends to its address was taken as a part of the
path, and for abstract sockets so was any other key.
---
 src/dbus_platform.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/dbus_platform.cpp b/src/dbus_platform.cpp
index 3f01c58..4c6f1b2 100644
--- a/src/dbus_platform.cpp
+++ b/src/dbus_platform.cpp
@@ -23,17 +23,19 @@ namespace {
 const static std::string UNIX_PATH_PREFIX("unix:path=");
 const static std::string UNIX_ABSTRACT_PATH_PREFIX("unix:abstract=");
 
+// What remains of an address may have other keys (such as guid), and be
+// followed by other addresses.
+std::string getFirstValue(const std::string& value)
+{
+    return value.substr(0, value.find_first_of(",;"));
+}
+
 std::string getAbstractPath(const std::string& path)
 {
     if (path.find(UNIX_ABSTRACT_PATH_PREFIX) == 0) {
         std::string abstract_path;
         abstract_path.push_back('\0');
-        abstract_path += path.substr(UNIX_ABSTRACT_PATH_PREFIX.size());
-
-        const size_t guid_part_pos(abstract_path.find(",guid="));
-        if (guid_part_pos != std::string::npos) {
-            abstract_path = abstract_path.substr(0, guid_part_pos);
-        }
+        abstract_path += getFirstValue(path.substr(UNIX_ABSTRACT_PATH_PREFIX.size()));
         return abstract_path;
     }
     return path;
@@ -43,7 +45,7 @@ std::string getPath(const char* bus)
 {
     std::string path(bus);
     if (path.find(UNIX_PATH_PREFIX) == 0) {
-        return path.substr(UNIX_PATH_PREFIX.size());
+        return getFirstValue(path.substr(UNIX_PATH_PREFIX.size()));
     } else {
         return getAbstractPath(bus);
     }
-- 
2.43.0


From 5b5d4f16b3f59f836b30454f55342430580af70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 28/49] fix: refuse to send a signature that is too long

Its length was truncated to 8 bits, and the message bus disconnects the
sender of such a message.
---
 src/dbus_messageostream.h | 4 ++++
 src/dbus_native.cpp       | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dbus_messageostream.h b/src/dbus_messageostream.h
index d02a70c..ec52dfa 100644
--- a/src/dbus_messageostream.h
+++ b/src/dbus_messageostream.h
@@ -20,6 +20,7 @@
 
 #include "dbus_utils.h"
 #include <cstdint>
+#include <stdexcept>
 
 namespace DBus {
 
@@ -101,6 +102,9 @@ public:
     {
         // The same as STRING except the length is a single byte (thus signatures
         // have a maximum length of 255)
+        if (str.length() > 255) {
+            throw std::length_error("Signature is longer than 255 bytes");
+        }
         writeByte(str.length());
         // and the content must be a valid signature (see above).
         data.append(str);
diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 581fa63..7ab889c 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -137,6 +137,7 @@ void DBus::Native::sendMethodCall(
     const DBus::Message::CallbackFunctionMethodReturn& success,
     const DBus::Message::CallbackFunctionError& failure)
 {
+    const std::string data(method.marshall(destination));
     ++m_Stats.count_sent_methodcalls;
     if (method.isReplyExpected()) {
         boost::recursive_mutex::scoped_lock guard(m_MessageQueueMutex);
@@ -144,7 +145,7 @@ void DBus::Native::sendMethodCall(
         m_MessageQueue.emplace(method.getSerial(),
             Native::CallbackPair(success, failure));
     }
-    m_Transport->sendString(method.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendMethodReturn(const std::string& destination,
-- 
2.43.0


From 71486cdd1dd90979595e0061a8f35aea928a6cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 29/49] fix: leave out the header fields that have no value

An empty destination or interface is not valid, and the peer disconnects.
---
 src/dbus_message_error.cpp        | 4 +++-
 src/dbus_message_methodcall.cpp   | 8 ++++++--
 src/dbus_message_methodreturn.cpp | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message_error.cpp b/src/dbus_message_error.cpp
index 668aeb7..729e0dc 100644
--- a/src/dbus_message_error.cpp
+++ b/src/dbus_message_error.cpp
@@ -68,7 +68,9 @@ DBus::Message::Error::marshall(const std::string& destination) const
     DBus::Type::Struct sDestination;
     sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
     sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sErrorName;
     sErrorName.add(DBus::Type::Byte(DBus::Message::Header::HEADER_ERROR_NAME));
diff --git a/src/dbus_message_methodcall.cpp b/src/dbus_message_methodcall.cpp
index 0919db3..61cfe32 100644
--- a/src/dbus_message_methodcall.cpp
+++ b/src/dbus_message_methodcall.cpp
@@ -74,12 +74,16 @@ DBus::Message::MethodCall::marshall(const std::string& destination) const
     DBus::Type::Struct sDestination;
     sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
     sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sInterface;
     sInterface.add(DBus::Type::Byte(DBus::Message::Header::HEADER_INTERFACE));
     sInterface.add(DBus::Type::Variant(DBus::Type::String(m_Name.m_Interface)));
-    array.add(sInterface);
+    if (m_Name.m_Interface.size()) {
+        array.add(sInterface);
+    }
 
     DBus::Type::Struct sMember;
     sMember.add(DBus::Type::Byte(DBus::Message::Header::HEADER_MEMBER));
diff --git a/src/dbus_message_methodreturn.cpp b/src/dbus_message_methodreturn.cpp
index a30b3af..46287c7 100644
--- a/src/dbus_message_methodreturn.cpp
+++ b/src/dbus_message_methodreturn.cpp
@@ -59,7 +59,9 @@ DBus::Message::MethodReturn::marshall(const std::string& destination) const
     DBus::Type::Struct sDestination;
     sDestination.add(DBus::Type::Byte(DBus::Message::Header::HEADER_DESTINATION));
     sDestination.add(DBus::Type::Variant(DBus::Type::String(destination)));
-    array.add(sDestination);
+    if (destination.size()) {
+        array.add(sDestination);
+    }
 
     DBus::Type::Struct sReplySerial;
     sReplySerial.add(
-- 
2.43.0


From 6fc9fa1520d08d8c8f3bffdcc0d37cbfa75c981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 30/49] fix: show the value of a double, not an approximation

---
 src/dbus_type_double.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_type_double.cpp b/src/dbus_type_double.cpp
index 3fd197d..e32d654 100644
--- a/src/dbus_type_double.cpp
+++ b/src/dbus_type_double.cpp
@@ -52,7 +52,7 @@ std::string DBus::Type::Double::toString(const std::string& prefix) const
     std::stringstream ss;
 
     ss << prefix << "Double ";
-    ss << m_Value << "\n";
+    ss << asString() << "\n";
 
     return ss.str();
 }
-- 
2.43.0


From d3a2f80ab8bf870814ae069e45f3acafbd29cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 31/49] fix: refuse signatures that end within a type

---
 src/dbus_type.cpp        | 6 ++++++
 src/dbus_type_struct.cpp | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 5b7090a..0e85cbd 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -368,6 +368,10 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
 {
     std::string result;
 
+    if (idx >= declaration.size()) {
+        throw std::runtime_error("Unterminated signature: " + declaration);
+    }
+
     // Handle arrays
     if (declaration[idx] == '(') {
         // Find the matching bracket, and skip all internal signatures
@@ -386,6 +390,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched brackets in the array signature.");
+        throw std::runtime_error("Unterminated signature: " + declaration);
     }
     // Handle dictentry
     else if (declaration[idx] == '{') {
@@ -410,6 +415,7 @@ std::string DBus::Type::extractSignature(const std::string& declaration,
         //
         Log::write(Log::ERROR, "DBus :: The declaration is invalid due to "
                                "mis-matched braces in the dictentry signature.");
+        throw std::runtime_error("Unterminated signature: " + declaration);
     }
 
     result += declaration[idx];
diff --git a/src/dbus_type_struct.cpp b/src/dbus_type_struct.cpp
index 56313ed..9be4546 100644
--- a/src/dbus_type_struct.cpp
+++ b/src/dbus_type_struct.cpp
@@ -33,6 +33,7 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 #include <sstream>
+#include <stdexcept>
 
 /*
 Structs and dict entries are marshalled in the same way as their contents, but
@@ -150,6 +151,10 @@ void DBus::Type::Struct::unmarshall(MessageIStream& stream)
         DBus::Type::unmarshallData(m_Value.back(), stream);
         signatureIndex += signature.size();
     } while (signatureIndex < m_Signature.size() - 1);
+
+    // The last type must not have taken in the final ')'
+    if (signatureIndex != m_Signature.size() - 1)
+        throw std::runtime_error("Unterminated signature: " + m_Signature);
 }
 
 std::string DBus::Type::Struct::toString(const std::string& prefix) const
-- 
2.43.0


From 673d9b996b2c00a8d16b0a27cc269993885f116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 32/49] fix: the prefix of a hex dump is not a format

---
 src/dbus_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dbus_log.cpp b/src/dbus_log.cpp
index 8543008..0e0e7c3 100644
--- a/src/dbus_log.cpp
+++ b/src/dbus_log.cpp
@@ -50,7 +50,7 @@ void DBus::Log::writeHex(size_t type, const std::string& prefix,
         return;
     }
 
-    write(type, prefix.c_str());
+    write(type, "%s", prefix.c_str());
 
     size_t column = 0;
     for (auto it : hex) {
-- 
2.43.0


From 9b16e9a0ded9e5bf56134c735619b47b8b9ae63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 33/49] fix: show object paths as such, not as strings

---
 src/dbus_type_objectpath.cpp | 10 ++++++++++
 src/dbus_type_objectpath.h   |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/dbus_type_objectpath.cpp b/src/dbus_type_objectpath.cpp
index 5694f8a..e594416 100644
--- a/src/dbus_type_objectpath.cpp
+++ b/src/dbus_type_objectpath.cpp
@@ -18,6 +18,7 @@
 #include "dbus_type_objectpath.h"
 #include "dbus_messageostream.h"
 #include "dbus_type_string.h"
+#include <sstream>
 
 const std::string DBus::Type::ObjectPath::s_StaticTypeCode("o");
 
@@ -35,3 +36,12 @@ void DBus::Type::ObjectPath::marshall(MessageOStream& stream) const
     // (see above).
     Type::String::marshall(stream);
 }
+
+std::string DBus::Type::ObjectPath::toString(const std::string& prefix) const
+{
+    std::stringstream ss;
+
+    ss << prefix << "ObjectPath (" << m_Value.size() << ") \"" << m_Value << "\"\n";
+
+    return ss.str();
+}
diff --git a/src/dbus_type_objectpath.h b/src/dbus_type_objectpath.h
index aad658a..a280f72 100644
--- a/src/dbus_type_objectpath.h
+++ b/src/dbus_type_objectpath.h
@@ -32,6 +32,9 @@ namespace Type {
 
         std::string getSignature() const { return s_StaticTypeCode; }
         void marshall(MessageOStream& stream) const;
+
+        std::string toString(const std::string& prefix = "") const;
+
         static const std::string s_StaticTypeCode;
     };
 } // namespace Type
-- 
2.43.0


From 10a7447e49e2b5b1e7517612786f3cd7c7bc99c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 34/49] fix: an OK that answers no request to authenticate is
 not accepted

---
 src/dbus_auth.cpp | 2 +-
 src/dbus_auth.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index bf0cd1c..e026e92 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -35,7 +35,7 @@ AGREE   ---->
 DBus::AuthenticationProtocol::AuthenticationProtocol(
     std::shared_ptr<Transport>& transport)
     : m_AuthType(AUTH_BASIC)
-    , m_State(STATE_WAITING_FOR_OK)
+    , m_State(STATE_NOT_STARTED)
     , m_Transport(transport)
 {
 }
diff --git a/src/dbus_auth.h b/src/dbus_auth.h
index b853500..2eef190 100644
--- a/src/dbus_auth.h
+++ b/src/dbus_auth.h
@@ -62,7 +62,8 @@ protected:
 private:
     std::string m_data;
     AuthenticationProtocol::AuthRequired m_AuthType;
-    enum { STATE_WAITING_FOR_OK,
+    enum { STATE_NOT_STARTED,
+        STATE_WAITING_FOR_OK,
         STATE_WAITING_FOR_AGREE_UNIX_FD } m_State;
     mutable boost::recursive_mutex m_AuthTypeMutex;
     std::shared_ptr<Transport> m_Transport;
-- 
2.43.0


From 0fda855ecd64608650d6070c99297e72fbbd9f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 35/49] fix: do not search all of an unfinished line again and
 again

---
 src/dbus_auth.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dbus_auth.cpp b/src/dbus_auth.cpp
index e026e92..2062ee9 100644
--- a/src/dbus_auth.cpp
+++ b/src/dbus_auth.cpp
@@ -76,10 +76,11 @@ void DBus::AuthenticationProtocol::sendAuth(
 
 bool DBus::AuthenticationProtocol::processData()
 {
-    const size_t pos = m_data.find("\r\n");
-    if (pos != std::string::npos) {
-        std::string command(m_data.data(), pos + 2);
-        m_data = m_data.substr(pos + 2);
+    // The data ends where its first line does, or has no complete line yet
+    const size_t size = m_data.size();
+    if (size >= 2 && m_data.compare(size - 2, 2, "\r\n") == 0) {
+        std::string command;
+        command.swap(m_data);
         return onCommand(command);
     };
 
-- 
2.43.0


From a2570d01240d8aeff84c47dba9ccd7ec5c6945be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 36/49] fix: a message that is refused does not count as sent

---
 src/dbus_native.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 7ab889c..c0b267d 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -151,28 +151,32 @@ void DBus::Native::sendMethodCall(
 void DBus::Native::sendMethodReturn(const std::string& destination,
     const DBus::Message::MethodReturn& result)
 {
+    const std::string data(result.marshall(destination));
     ++m_Stats.count_sent_methodreturns;
-    m_Transport->sendString(result.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendError(const std::string& destination,
     const DBus::Message::Error& err)
 {
+    const std::string data(err.marshall(destination));
     ++m_Stats.count_sent_errors;
-    m_Transport->sendString(err.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::sendSignal(const std::string& destination,
     const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(destination));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(destination));
+    m_Transport->sendString(data);
 }
 
 void DBus::Native::broadcastSignal(const DBus::Message::Signal& signal)
 {
+    const std::string data(signal.marshall(""));
     ++m_Stats.count_sent_signals;
-    m_Transport->sendString(signal.marshall(""));
+    m_Transport->sendString(data);
 }
 
 //
-- 
2.43.0


From bbb1ca032be16f6e6e47acd818284f142b90302c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 37/49] fix: do not keep what can not be sent any more

---
 src/dbus_transport.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index c1c7663..2544919 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -169,6 +169,12 @@ void DBus::Transport::write(const std::string& data)
         if (written == data.size()) {
             return;
         }
+        if (ec && ec != boost::asio::error::would_block && ec != boost::asio::error::interrupted) {
+            // Nobody will ever receive it
+            DBus::Log::write(DBus::Log::ERROR, "DBus :: ERROR in write : %s\n",
+                ec.message().c_str());
+            return;
+        }
     }
 
     m_WriteQueue.push_back(data.substr(written));
-- 
2.43.0


From 269c77b8e77d12ee288c9f92e0b1cdc25c02c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 38/49] fix: a signal handler that throws does not keep the
 signal from the others

---
 src/dbus_native.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index c0b267d..5e21511 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -243,13 +243,20 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
     boost::recursive_mutex::scoped_lock guard(m_SignalMapMutex);
     ++m_Stats.count_receive_signals;
 
+    // A handler that fails does not keep the signal from the others
+    std::exception_ptr failed;
+
     std::string fullname = signal.getHeaderInterface() + "." + signal.getHeaderMember();
     auto it = m_SignalMap.find(fullname);
 
     if (it != m_SignalMap.end()) {
         // The handler may unregister itself
         const auto handler = it->second;
-        handler(signal);
+        try {
+            handler(signal);
+        } catch (...) {
+            failed = std::current_exception();
+        }
     }
 
     {
@@ -266,10 +273,18 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
             }
             auto matchrule = it->second;
             if (matchrule.isMatched(signal)) {
-                matchrule.invoke(signal);
+                try {
+                    matchrule.invoke(signal);
+                } catch (...) {
+                    failed = std::current_exception();
+                }
             }
         }
     }
+
+    if (failed) {
+        std::rethrow_exception(failed);
+    }
 }
 
 std::string DBus::Native::getStats() const
-- 
2.43.0


From 1616be77bd9808c2d8034ab3a647e236263be3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 39/49] fix: destroying a connection does not wait until the
 peer pauses

---
 src/dbus_native.cpp    | 1 +
 src/dbus_transport.cpp | 6 +++++-
 src/dbus_transport.h   | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 5e21511..34f3cc9 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -43,6 +43,7 @@ DBus::Native::Native(const std::string& busname)
 
 DBus::Native::~Native()
 {
+    m_Transport->stopReceiving();
     m_Transport->setDataHandler([](DBus::OctetBuffer&) {});
     m_MessageProtocol->setMethodCallHandler(
         [](const DBus::Message::MethodCall& method) {});
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 2544919..161afa9 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -65,7 +65,7 @@ void DBus::Transport::handle_read_data(const boost::system::error_code& error,
         } else
             Log::write(Log::ERROR, "DBus :: Transport error. %s (%d)\n",
                 error.message().c_str(), error.value());
-    } else
+    } else if (!m_ShuttingDown)
         m_socket.async_read_some(
             boost::asio::buffer(m_DataBuffer, BufferSize),
             boost::bind(&Transport::handle_read_data, this, boost::placeholders::_1, boost::placeholders::_2));
@@ -215,6 +215,10 @@ void DBus::Transport::setDataHandler(
     m_ReceiveDataCallback = callback;
 }
 
+// A thread that waits for the callback mutex might never get it while there is
+// always more to read
+void DBus::Transport::stopReceiving() { m_ShuttingDown = true; }
+
 void DBus::Transport::onReceiveData(OctetBuffer&)
 {
     // NOP - This stub gives our initial callback somewhere to go
diff --git a/src/dbus_transport.h b/src/dbus_transport.h
index ed77e0b..71a3be7 100644
--- a/src/dbus_transport.h
+++ b/src/dbus_transport.h
@@ -46,6 +46,7 @@ public:
     void ThreadFunction();
 
     void setDataHandler(const ReceiveDataCallbackFunction& callback);
+    void stopReceiving();
     void onReceiveData(OctetBuffer& buffer);
     void onAuthComplete();
     void addToMessageQueue(const std::string& data);
-- 
2.43.0


From f4cbabb1ca1f2affd023f948f2e87acc4730dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 40/49] fix: give back the memory of the queue once it is sent

---
 src/dbus_transport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 161afa9..9d0222c 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -114,7 +114,8 @@ void DBus::Transport::onAuthComplete()
         sendStringDirect(msg);
         ++m_Stats.count_messagespumped;
     }
-    m_BufferedMessages.clear();
+    // Nothing is queued from now on, so no capacity is kept either
+    std::vector<std::string>().swap(m_BufferedMessages);
     m_ReadyToSend = true;
 }
 
-- 
2.43.0


From e08087e29364617891ddd485574a822d042fed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:54 +0000
Subject: [PATCH 41/49] fix: do not keep the memory of the largest message
 received

---
 src/dbus_messageprotocol.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 635818a..9f39971 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -49,6 +49,7 @@ inline uint32_t CorrectEndianess(uint8_t c, uint32_t value)
 
 static const size_t MAX_ARRAY_SIZE = 67108864;
 static const size_t MAX_MESSAGE_SIZE = 134217728;
+static const size_t MAX_CACHE_KEPT = 65536;
 
 } // namespace
 
@@ -73,6 +74,7 @@ void DBus::MessageProtocol::reset()
 {
     // What is cached belongs to the stream that is being abandoned
     m_octetCache.clear();
+    m_octetCache.shrink_to_fit();
     startMessage();
 }
 
@@ -212,6 +214,10 @@ void DBus::MessageProtocol::onReceiveData(OctetBuffer& buffer)
         OctetBuffer cachedBuffer(m_octetCache.data(), m_octetCache.size());
         processData(cachedBuffer);
         m_octetCache.erase(0, m_octetCache.size() - cachedBuffer.size());
+        // Do not keep the memory of a large message until the next one
+        if (m_octetCache.size() < MAX_CACHE_KEPT / 2 && m_octetCache.capacity() > MAX_CACHE_KEPT) {
+            m_octetCache.shrink_to_fit();
+        }
     }
 }
 
-- 
2.43.0


From 1380185d4956164d03c908266015d50f413aab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:12 +0000
Subject: [PATCH 42/49] fix: a handler that throws something other than a
 std::exception does not end the process

---
 src/dbus_messageprotocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dbus_messageprotocol.cpp b/src/dbus_messageprotocol.cpp
index 9f39971..b51a566 100644
--- a/src/dbus_messageprotocol.cpp
+++ b/src/dbus_messageprotocol.cpp
@@ -259,6 +259,11 @@ void DBus::MessageProtocol::onBodyComplete(const std::string& body)
         // Catch exceptions from std::function such as bad_function_call. No action required.
         Log::write(Log::INFO, "DBus :: Exception caught in onBodyComplete: %s\n", e.what());
     }
+    catch (...)
+    {
+        // A handler may throw anything, and nobody above would catch it
+        Log::write(Log::INFO, "DBus :: Exception of unknown type caught in onBodyComplete\n");
+    }
 
     startMessage();
 }
-- 
2.43.0


From ec21647c5d02de0964fc803da44728598b373fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:14 +0000
Subject: [PATCH 43/49] fix: numbers are read, written and shown the same
 whatever the locale of the process

---
 src/dbus_native.cpp          | 1 +
 src/dbus_transport.cpp       | 1 +
 src/dbus_type_array.cpp      | 1 +
 src/dbus_type_byte.cpp       | 2 ++
 src/dbus_type_double.cpp     | 8 ++++++--
 src/dbus_type_int16.cpp      | 2 ++
 src/dbus_type_int32.cpp      | 2 ++
 src/dbus_type_int64.cpp      | 2 ++
 src/dbus_type_objectpath.cpp | 1 +
 src/dbus_type_string.cpp     | 1 +
 src/dbus_type_uint16.cpp     | 2 ++
 src/dbus_type_uint32.cpp     | 2 ++
 src/dbus_type_uint64.cpp     | 2 ++
 src/dbus_utils.cpp           | 3 +++
 14 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 34f3cc9..8d63ff1 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -291,6 +291,7 @@ void DBus::Native::onReceiveSignal(const DBus::Message::Signal& signal)
 std::string DBus::Native::getStats() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << "Native stats:" << std::endl;
     ss << " count_sent_methodcalls: " << m_Stats.count_sent_methodcalls
diff --git a/src/dbus_transport.cpp b/src/dbus_transport.cpp
index 9d0222c..2110d50 100644
--- a/src/dbus_transport.cpp
+++ b/src/dbus_transport.cpp
@@ -235,6 +235,7 @@ void DBus::Transport::onReceiveData(OctetBuffer&)
 std::string DBus::Transport::getStats() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << "Transport stats:" << std::endl;
     ss << " count_messages_sent: " << m_Stats.count_messagessent << std::endl;
diff --git a/src/dbus_type_array.cpp b/src/dbus_type_array.cpp
index 8b2346e..9e3e7aa 100644
--- a/src/dbus_type_array.cpp
+++ b/src/dbus_type_array.cpp
@@ -184,6 +184,7 @@ std::string DBus::Type::Array::getSignature() const
 std::string DBus::Type::Array::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Array (" << getSignature() << ") [\n";
     for (size_t i = 0; i < contents.size(); ++i) {
diff --git a/src/dbus_type_byte.cpp b/src/dbus_type_byte.cpp
index 528fc63..604fd0c 100644
--- a/src/dbus_type_byte.cpp
+++ b/src/dbus_type_byte.cpp
@@ -50,6 +50,7 @@ void DBus::Type::Byte::unmarshall(MessageIStream& data)
 std::string DBus::Type::Byte::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Byte ";
     ss << (size_t)m_Value << " (0x" << std::hex << std::setfill('0')
@@ -61,6 +62,7 @@ std::string DBus::Type::Byte::toString(const std::string& prefix) const
 std::string DBus::Type::Byte::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << (size_t)m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_double.cpp b/src/dbus_type_double.cpp
index e32d654..de74f88 100644
--- a/src/dbus_type_double.cpp
+++ b/src/dbus_type_double.cpp
@@ -18,7 +18,6 @@
 #include "dbus_type_double.h"
 #include "dbus_messageistream.h"
 #include "dbus_messageostream.h"
-#include <cstdlib>
 #include <iomanip>
 #include <limits>
 #include <sstream>
@@ -50,6 +49,7 @@ void DBus::Type::Double::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Double::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Double ";
     ss << asString() << "\n";
@@ -61,8 +61,12 @@ std::string DBus::Type::Double::asString() const
 {
     // The usual precision unless that would be another number
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
-    if (std::strtod(ss.str().c_str(), nullptr) != m_Value) {
+    std::istringstream back(ss.str());
+    back.imbue(std::locale::classic());
+    double value = 0;
+    if (!(back >> value) || value != m_Value) {
         ss.str("");
         ss << std::setprecision(std::numeric_limits<double>::max_digits10)
            << m_Value;
diff --git a/src/dbus_type_int16.cpp b/src/dbus_type_int16.cpp
index 58dd02b..2a91234 100644
--- a/src/dbus_type_int16.cpp
+++ b/src/dbus_type_int16.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Int16::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Int16::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Int16 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(2)
@@ -59,6 +60,7 @@ std::string DBus::Type::Int16::toString(const std::string& prefix) const
 std::string DBus::Type::Int16::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_int32.cpp b/src/dbus_type_int32.cpp
index 5f3509d..2b57c52 100644
--- a/src/dbus_type_int32.cpp
+++ b/src/dbus_type_int32.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Int32::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Int32::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Int32 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(4)
@@ -59,6 +60,7 @@ std::string DBus::Type::Int32::toString(const std::string& prefix) const
 std::string DBus::Type::Int32::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_int64.cpp b/src/dbus_type_int64.cpp
index 7c8024e..2809d47 100644
--- a/src/dbus_type_int64.cpp
+++ b/src/dbus_type_int64.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Int64::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Int64::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Int64 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(8)
@@ -59,6 +60,7 @@ std::string DBus::Type::Int64::toString(const std::string& prefix) const
 std::string DBus::Type::Int64::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_objectpath.cpp b/src/dbus_type_objectpath.cpp
index e594416..d5509c1 100644
--- a/src/dbus_type_objectpath.cpp
+++ b/src/dbus_type_objectpath.cpp
@@ -40,6 +40,7 @@ void DBus::Type::ObjectPath::marshall(MessageOStream& stream) const
 std::string DBus::Type::ObjectPath::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "ObjectPath (" << m_Value.size() << ") \"" << m_Value << "\"\n";
 
diff --git a/src/dbus_type_string.cpp b/src/dbus_type_string.cpp
index 9fb2db7..6b0dfba 100644
--- a/src/dbus_type_string.cpp
+++ b/src/dbus_type_string.cpp
@@ -50,6 +50,7 @@ void DBus::Type::String::unmarshall(MessageIStream& stream)
 std::string DBus::Type::String::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "String (" << m_Value.size() << ") \"" << m_Value << "\"\n";
 
diff --git a/src/dbus_type_uint16.cpp b/src/dbus_type_uint16.cpp
index e422bd6..cc3a373 100644
--- a/src/dbus_type_uint16.cpp
+++ b/src/dbus_type_uint16.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Uint16::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Uint16::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Uint16 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(2)
@@ -59,6 +60,7 @@ std::string DBus::Type::Uint16::toString(const std::string& prefix) const
 std::string DBus::Type::Uint16::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_uint32.cpp b/src/dbus_type_uint32.cpp
index 9afbbc9..ecc95c3 100644
--- a/src/dbus_type_uint32.cpp
+++ b/src/dbus_type_uint32.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Uint32::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Uint32::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Uint32 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(4)
@@ -59,6 +60,7 @@ std::string DBus::Type::Uint32::toString(const std::string& prefix) const
 std::string DBus::Type::Uint32::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_type_uint64.cpp b/src/dbus_type_uint64.cpp
index 7ec60c1..5bbdeed 100644
--- a/src/dbus_type_uint64.cpp
+++ b/src/dbus_type_uint64.cpp
@@ -48,6 +48,7 @@ void DBus::Type::Uint64::unmarshall(MessageIStream& stream)
 std::string DBus::Type::Uint64::toString(const std::string& prefix) const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << prefix << "Uint64 ";
     ss << m_Value << " (0x" << std::hex << std::setfill('0') << std::setw(8)
@@ -59,6 +60,7 @@ std::string DBus::Type::Uint64::toString(const std::string& prefix) const
 std::string DBus::Type::Uint64::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << m_Value;
     return ss.str();
 }
diff --git a/src/dbus_utils.cpp b/src/dbus_utils.cpp
index d0b6221..ebe87a4 100644
--- a/src/dbus_utils.cpp
+++ b/src/dbus_utils.cpp
@@ -27,9 +27,11 @@ void DBus::Utils::ConvertHexStringToBinary(std::string& result,
     const std::string& input)
 {
     std::istringstream ss(input);
+    ss.imbue(std::locale::classic());
     std::string word;
     while (ss >> std::setw(2) >> word) {
         std::stringstream converter;
+        converter.imbue(std::locale::classic());
         uint16_t temp;
         converter << std::hex << word;
         converter >> temp;
@@ -41,6 +43,7 @@ void DBus::Utils::ConvertBinaryToHexString(std::string& result,
     const std::string& input)
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
 
     ss << std::hex << std::setfill('0');
     for (size_t i = 0; i < input.length(); ++i) {
-- 
2.43.0


From 83d5b909d32f644ee11aa1464d9b79b2a1c86805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 44/49] fix: the text of a boolean is the same whatever the
 locale of the process

---
 src/dbus_type_boolean.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dbus_type_boolean.cpp b/src/dbus_type_boolean.cpp
index 0a6e865..8ccbb8b 100644
--- a/src/dbus_type_boolean.cpp
+++ b/src/dbus_type_boolean.cpp
@@ -57,6 +57,7 @@ std::string DBus::Type::Boolean::toString(const std::string& prefix) const
 std::string DBus::Type::Boolean::asString() const
 {
     std::stringstream ss;
+    ss.imbue(std::locale::classic());
     ss << (size_t)m_Value;
     return ss.str();
 }
-- 
2.43.0


From 58400557eb3c7d4bf52bfd71831f7efc46430bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:07 +0000
Subject: [PATCH 45/49] fix: a parameter or a field of a struct that is not
 there is an exception

A message need not have the parameters that a handler expects, and reading
one that it lacks read memory beyond the others.
---
 src/dbus_message.cpp   | 2 +-
 src/dbus_type_struct.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index bbc1b59..dc2fcf1 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -221,7 +221,7 @@ size_t DBus::Message::MethodCallParameters::getParameterCount() const
 const DBus::Type::Generic&
 DBus::Message::MethodCallParameters::getParameter(size_t idx) const
 {
-    return m_Contents.m_TypeList[idx];
+    return m_Contents.m_TypeList.at(idx);
 }
 
 DBus::Message::MethodCallParametersIn::MethodCallParametersIn(
diff --git a/src/dbus_type_struct.h b/src/dbus_type_struct.h
index 143cca3..f3a76ff 100644
--- a/src/dbus_type_struct.h
+++ b/src/dbus_type_struct.h
@@ -76,7 +76,7 @@ namespace Type {
         std::string asString() const;
 
         size_t getEntries() const { return m_Value.size(); }
-        const Generic& operator[](std::size_t idx) const { return m_Value[idx]; }
+        const Generic& operator[](std::size_t idx) const { return m_Value.at(idx); }
 
         static std::string s_StaticTypeCode;
 
-- 
2.43.0


From 97511fabed812e6ddee08c9e21c77785b846eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:11 +0000
Subject: [PATCH 46/49] fix: a number that does not fit is an exception, and
 not another number

asByte() and asUint32() cut what they could not represent, and took what
begins with a number for that number.
---
 src/dbus_type.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 0e85cbd..3254220 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -37,20 +37,27 @@
 #include "dbus_type_uint64.h"
 #include "dbus_type_variant.h"
 
+#include <limits>
 #include <stdexcept>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
 //
-uint8_t DBus::Type::asByte(const Generic& v)
+template <typename T>
+static T asUnsigned(const DBus::Type::Generic& v)
 {
-    return std::stoi(Type::asString(v));
+    const std::string text = DBus::Type::asString(v);
+    size_t length;
+    const long long value = std::stoll(text, &length);
+    if (length != text.size() || value < 0 || value > std::numeric_limits<T>::max()) {
+        throw std::out_of_range("Value out of range: " + text);
+    }
+    return static_cast<T>(value);
 }
 
-uint32_t DBus::Type::asUint32(const Generic& v)
-{
-    return std::stoul(Type::asString(v));
-}
+uint8_t DBus::Type::asByte(const Generic& v) { return asUnsigned<uint8_t>(v); }
+
+uint32_t DBus::Type::asUint32(const Generic& v) { return asUnsigned<uint32_t>(v); }
 
 // Generate a compact, machine-friendly, version of the data.
 // (compare to toString, which is intended for humans debugging)
-- 
2.43.0


From 9ff35b795c5543a3435d76a5f4ed499453c87a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:34 +0000
Subject: [PATCH 47/49] fix: types are told apart without objects that are
 destroyed when the process ends

The thread of a connection goes on until the connection is destroyed, if it
is, and compared the types of values with those of destroyed objects.
---
 src/dbus_type.cpp | 37 +++++++++++++------------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/dbus_type.cpp b/src/dbus_type.cpp
index 3254220..4878030 100644
--- a/src/dbus_type.cpp
+++ b/src/dbus_type.cpp
@@ -39,6 +39,7 @@
 
 #include <limits>
 #include <stdexcept>
+#include <typeinfo>
 
 //
 // Helper methods to extract navtive types from the opaque 'Generic' type
@@ -68,12 +69,9 @@ std::string DBus::Type::asString(const DBus::Type::Generic& value)
     if (value.empty()) {
         return "";
     }
-#define TYPE_ASSTRING(typename)                                        \
-    {                                                                  \
-        static Type::Generic is_type = typename();                     \
-        if (ti == is_type.type()) {                                    \
-            return boost::any_cast<const typename&>(value).asString(); \
-        }                                                              \
+#define TYPE_ASSTRING(typename)                                    \
+    if (ti == typeid(typename)) {                                  \
+        return boost::any_cast<const typename&>(value).asString(); \
     }
     const std::type_info& ti = value.type();
 
@@ -169,21 +167,15 @@ DBus::Type::getMarshallingSignature(const DBus::Type::Generic& value)
     if (value.empty()) {
         return "";
     }
-#define TYPE_MARSHALL_SIGNATURE(typename)          \
-    {                                              \
-        static Type::Generic is_type = typename(); \
-        if (ti == is_type.type()) {                \
-            return typename ::s_StaticTypeCode;    \
-        }                                          \
+#define TYPE_MARSHALL_SIGNATURE(typename)   \
+    if (ti == typeid(typename)) {           \
+        return typename ::s_StaticTypeCode; \
     }
 //		if (ti == is_type.type()) {	return
 //boost::any_cast<typename>(value).getSignature(); } }
-#define TYPE_MARSHALL_SIGNATURE2(typename)                          \
-    {                                                               \
-        static Type::Generic is_type = typename();                  \
-        if (ti == is_type.type()) {                                 \
-            return boost::any_cast<typename>(value).getSignature(); \
-        }                                                           \
+#define TYPE_MARSHALL_SIGNATURE2(typename)                      \
+    if (ti == typeid(typename)) {                               \
+        return boost::any_cast<typename>(value).getSignature(); \
     }
     const std::type_info& ti = value.type();
 
@@ -303,12 +295,9 @@ void DBus::Type::unmarshallData(DBus::Type::Generic& result,
 std::string DBus::Type::toString(const DBus::Type::Generic& value,
     const std::string& prefix)
 {
-#define TYPE_TOSTRING(typename)                                              \
-    {                                                                        \
-        static Type::Generic is_type = typename();                           \
-        if (ti == is_type.type()) {                                          \
-            return boost::any_cast<const typename&>(value).toString(prefix); \
-        }                                                                    \
+#define TYPE_TOSTRING(typename)                                          \
+    if (ti == typeid(typename)) {                                        \
+        return boost::any_cast<const typename&>(value).toString(prefix); \
     }
     const std::type_info& ti = value.type();
 
-- 
2.43.0


From e0a692a78db0aa22462ae60253894d8cfb3cfb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:59 +0000
Subject: [PATCH 48/49] fix: messages can be created until the process ends

The lock of the serial numbers was destroyed while other threads, and those
of connections, could still create messages.
---
 src/dbus_message.cpp | 5 ++---
 src/dbus_message.h   | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dbus_message.cpp b/src/dbus_message.cpp
index dc2fcf1..695935d 100644
--- a/src/dbus_message.cpp
+++ b/src/dbus_message.cpp
@@ -15,7 +15,6 @@
 // file named COPYING. If you do not have this file see
 // <http://www.gnu.org/licenses/>.
 
-#include <boost/thread/recursive_mutex.hpp>
 
 #include "dbus_type_array.h"
 #include "dbus_type_byte.h"
@@ -33,11 +32,11 @@
 #define DBUS_ASIO_VERIF_SERIAL_START 1
 #endif
 uint32_t DBus::Message::Base::m_SerialCounter = DBUS_ASIO_VERIF_SERIAL_START;
-boost::recursive_mutex DBus::Message::Base::m_SerialCounterMutex;
+std::mutex DBus::Message::Base::m_SerialCounterMutex;
 
 DBus::Message::Base::Base(uint32_t serial)
 {
-    boost::recursive_mutex::scoped_lock guard(m_SerialCounterMutex);
+    std::lock_guard<std::mutex> guard(m_SerialCounterMutex);
     if (!serial) {
         if (m_SerialCounter == 0) {
             // The counter has wrapped, and zero is not a serial
diff --git a/src/dbus_message.h b/src/dbus_message.h
index 5c3c3ea..5dce5e5 100644
--- a/src/dbus_message.h
+++ b/src/dbus_message.h
@@ -21,6 +21,7 @@
 #include "dbus_type.h"
 #include <boost/thread/recursive_mutex.hpp>
 #include <functional>
+#include <mutex>
 
 namespace DBus {
 class MessageOStream;
@@ -171,7 +172,7 @@ namespace Message {
 
     private:
         static uint32_t m_SerialCounter;
-        static boost::recursive_mutex m_SerialCounterMutex;
+        static std::mutex m_SerialCounterMutex;
 
         void parseParameters(bool isLittleEndian, const std::string& bodydata,
             const std::string& signature);
-- 
2.43.0


From d3c95ad0490ed3a2af16ee5dc36ee8f55b1fe727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:20 +0000
Subject: [PATCH 49/49] fix: the name of the bus can be used until the process
 ends

Other threads may still call the bus when objects of static storage are
destroyed.
---
 src/dbus_native.cpp | 3 ++-
 src/dbus_native.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dbus_native.cpp b/src/dbus_native.cpp
index 8d63ff1..61d1f69 100644
--- a/src/dbus_native.cpp
+++ b/src/dbus_native.cpp
@@ -22,7 +22,8 @@
 #include "dbus_message.h"
 #include "dbus_messageprotocol.h"
 
-std::string DBus::Native::DBusDaemon("org.freedesktop.DBus");
+// Never destroyed, as other threads may use it until the process ends
+const std::string& DBus::Native::DBusDaemon = *new std::string("org.freedesktop.DBus");
 
 DBus::Native::Native(const std::string& busname)
     : m_MessageProtocol(new DBus::MessageProtocol())
diff --git a/src/dbus_native.h b/src/dbus_native.h
index 0fbbcd5..d2c4352 100644
--- a/src/dbus_native.h
+++ b/src/dbus_native.h
@@ -170,7 +170,7 @@ private:
     std::shared_ptr<Transport> m_Transport;
 
 public:
-    static std::string DBusDaemon;
+    static const std::string& DBusDaemon;
 };
 } // namespace DBus
 
-- 
2.43.0

