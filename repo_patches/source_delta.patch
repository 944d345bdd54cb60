From 42ba65bad2388e3d4813754a3252359a6876d3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 01/38] fix: rebuild KDB group trees with the right parents

When the tree became shallower and then deeper again, new groups were
appended behind the stale deeper levels and their children attached to the
wrong parent. A level of 0xffff wrapped around and indexed outside the
vector.
---
 src/kdb.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 3a5a7fb..55eacf7 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -599,7 +599,7 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-  uint16_t last_group_level = 0;
+  uint32_t last_group_level = 0;
 
   std::vector<std::shared_ptr<Group>> last_group_by_level;
   last_group_by_level.push_back(group_root);
@@ -609,13 +609,14 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 
     // Level of current group plus one, because we have inserted the root at
     // level zero.
-    uint16_t group_level = std::get<1>(group_data) + 1;
+    uint32_t group_level = std::get<1>(group_data) + 1u;
 
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
 
       last_group_by_level[group_level - 1]->AddGroup(group);
+      last_group_by_level.resize(group_level);
       last_group_by_level.push_back(group);
     } else {
       last_group_by_level[group_level - 1]->AddGroup(group);
-- 
2.43.0


From 5677421331eb2a7e6e8b4d43b87f3ad8741ef317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 02/38] fix: report malformed KDB times and duplicate group ids
 as format errors

They were only guarded by assertions, so a damaged file aborted the process
(or, without assertions, was accepted with wrong data).
---
 src/kdb.cc | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 55eacf7..95851ba 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -115,12 +115,9 @@ struct KdbTime {
     if (packed == kNeverTimeConstant)
       return 0;
 
-    assert(second <= 60);
-    assert(minute <= 59);
-    assert(hour <= 23);
-    assert(day >= 1 && day <= 31);
-    assert(month >= 1 && month <= 12);
-    assert(year >= 1900);
+    if (second > 60 || minute > 59 || hour > 23 || day < 1 || day > 31 ||
+        month < 1 || month > 12 || year < 1900)
+      throw FormatError("Illegal time in KDB.");
 
     std::tm time;
     time.tm_sec = second;
@@ -134,10 +131,8 @@ struct KdbTime {
     time.tm_isdst = -1;
 
     std::time_t res = std::mktime(&time);
-    if (res == -1) {
-      assert(false);
-      return 0;
-    }
+    if (res == -1)
+      throw FormatError("Illegal time in KDB.");
 
     return res;
   }
@@ -585,7 +580,8 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     std::shared_ptr<Group> group = ReadGroup(content, group_id, group_level);
 
     groups.push_back(std::make_tuple(group, group_level));
-    assert(group_map.count(group_id) == 0);
+    if (group_map.count(group_id) != 0)
+      throw FormatError("Duplicate group in KDB.");
     group_map[group_id] = group;
   }
 
-- 
2.43.0


From 3132c069e1e025e2025f2989ad03ff3006ebe235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 03/38] fix: handle KDB attachments without data

An entry with an attachment name but no data was imported with a null binary,
which crashed printing and exporting it.
---
 src/entry.cc | 2 +-
 src/kdb.cc   | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index 3eed372..f5c4e9c 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -68,7 +68,7 @@ std::string Entry::Attachment::ToJson() const {
   json << "{";
   if (!name_.empty())
     json << "\"name\":\"" << name_ << "\"";
-  if (!binary_->Empty()) {
+  if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
         *binary_->data() << "\"";
   }
diff --git a/src/kdb.cc b/src/kdb.cc
index 95851ba..7389f9b 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -375,8 +375,13 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
         }
         break;
       case KdbEntryFieldType::kEnd:
-        if (attachment)
+        if (attachment) {
+          if (!attachment->binary()) {
+            attachment->set_binary(std::make_shared<Binary>(
+                protect<std::string>(std::string(), false)));
+          }
           entry->AddAttachment(attachment);
+        }
         return entry;
       default:
         throw FormatError("Illegal entry field in KDB.");
@@ -457,7 +462,7 @@ void KdbFile::WriteEntry(std::ostream& dst,
       conserve<std::string>(dst, attachment->name());
     }
 
-    if (!attachment->binary()->Empty()) {
+    if (attachment->binary() && !attachment->binary()->Empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
           KdbEntryFieldType::kAttachmentData));
       conserve<uint32_t>(dst, attachment->binary()->Size());
-- 
2.43.0


From 4a26f559404ecc6cd8161ee93d30aa80d48626e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 04/38] fix: export the time 0 to KDB as the "never" value

Import maps the "never" value to 0, but export wrote 0 as a date in 1970 (or
1969, depending on the time zone).
---
 src/kdb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 7389f9b..1fd0db6 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -76,7 +76,7 @@ struct KdbTime {
     static constexpr std::array<uint8_t, 5> kNeverTimeConstant = {
       0x2e, 0xdf, 0x39, 0x7e, 0xfb
     };
-    if (time == -1) {
+    if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
       std::tm* time_ptr = std::localtime(&time);
-- 
2.43.0


From 2e7658d0afae31488454759a22cf2ffb6ad826ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 05/38] fix: convert times without shared static buffers and
 range-check them

localtime() and gmtime() return a buffer shared by all threads, so concurrent
exports could write each other's times. A time outside the range of the file
format crashed or was written as a different, unreadable one.
---
 src/kdb.cc  | 6 +++++-
 src/kdbx.cc | 9 +++++++--
 src/util.cc | 9 ++++++---
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 1fd0db6..9e29936 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -79,7 +79,11 @@ struct KdbTime {
     if (time == 0 || time == -1) {
       packed = kNeverTimeConstant;
     } else {
-      std::tm* time_ptr = std::localtime(&time);
+      std::tm time_buf;
+      std::tm* time_ptr = localtime_r(&time, &time_buf);
+      if (time_ptr == nullptr || time_ptr->tm_year + 1900LL < 1900 ||
+          time_ptr->tm_year + 1900LL > 4095)
+        throw InternalError("Time exceeds KDB range.");
 
       uint32_t year = time_ptr->tm_year + 1900;
       uint32_t month = time_ptr->tm_mon + 1;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 043390e..e32f776 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -159,9 +159,14 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
   if (time == 0)
     return "2999-12-28T22:59:59Z";
 
+  std::tm time_buf;
+  const std::tm* utc_time = gmtime_r(&time, &time_buf);
+  if (utc_time == nullptr || utc_time->tm_year + 1900LL < 0 ||
+      utc_time->tm_year + 1900LL > 9999)
+    throw InternalError("Time exceeds KDBX range.");
+
   char buffer[128];
-  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ",
-                std::gmtime(&time));
+  std::strftime(buffer, sizeof(buffer), "%Y-%m-%dT%H:%M:%SZ", utc_time);
   return buffer;
 }
 
diff --git a/src/util.cc b/src/util.cc
index 99e249f..107a179 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -18,14 +18,17 @@
 
 #include "util.hh"
 
-#include <cassert>
 #include <random>
 
+#include "exception.hh"
+
 namespace keepass {
 
 std::string time_to_str(const std::time_t& time) {
-  const std::tm* local_time = std::localtime(&time);
-  assert(local_time != nullptr);
+  std::tm time_buf;
+  const std::tm* local_time = localtime_r(&time, &time_buf);
+  if (local_time == nullptr)
+    throw InternalError("Time is out of range.");
 
   char buffer[128];
   strftime(buffer, sizeof(buffer), "%Y-%m-%d %H:%M:%S", local_time);
-- 
2.43.0


From 51b0df710ebff47ad714cc6b11a6639d78fc66f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 06/38] fix: stop at the end of the input when a length claims
 more data

A KDB field or hashed block that claimed gigabytes made the reader fill that
much memory with end-of-file markers, and a truncated block header was used
uninitialised.
---
 src/kdb.cc    | 10 ++++------
 src/stream.cc | 11 ++++++++---
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 9e29936..952c02c 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -190,9 +190,8 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(src.get());
     if (!src.good())
       throw IoError("Read error.");
 
@@ -301,9 +300,8 @@ std::shared_ptr<Entry> KdbFile::ReadEntry(std::istream& src,
     // sure to read the complete field regardless of how much of it that we
     // parse.
     std::stringstream field;
-    std::generate_n(std::ostreambuf_iterator<char>(field),
-                    field_size,
-                    [&src]() { return src.get(); });
+    for (uint32_t i = 0; i < field_size && src.good(); ++i)
+      field.put(src.get());
     if (!src.good())
       throw IoError("Read error.");
 
diff --git a/src/stream.cc b/src/stream.cc
index 23ca7c6..882ad20 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -44,15 +44,20 @@ int hashed_istreambuf::underflow() {
   if (gptr() == egptr()) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
+    if (!src_.good())
+      throw IoError("Truncated block header.");
 
     if (header.block_index != block_index_)
       throw IoError("Block index mismatch.");
     block_index_++;
 
     block_.clear();
-    std::generate_n(std::back_inserter(block_),
-                    header.block_size,
-                    [&]() { return src_.get(); });
+    for (uint32_t i = 0; i < header.block_size; ++i) {
+      int c = src_.get();
+      if (c == std::char_traits<char>::eof())
+        throw IoError("Truncated block.");
+      block_.push_back(static_cast<char>(c));
+    }
 
     if (header.block_size == 0) {
       if (header.block_hash != kEmptyHash)
-- 
2.43.0


From fbd223cf646a2f5b4ff3d7d5174611b9c9653bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/38] fix: compare the sizes of child lists before their
 elements

Groups and entries with different numbers of children, attachments or history
entries compared equal when one list was a prefix of the other, and the
comparison read past the end of the shorter list.
---
 src/util.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.hh b/src/util.hh
index 7fb2c4f..1b7c629 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -51,7 +51,8 @@ inline T clamp(T min, T max, T val) {
 template <typename T>
 inline bool indirect_equal(const std::vector<T>& v0,
                            const std::vector<T>& v1) {
-  return std::equal(v0.begin(), v0.end(), v1.begin(),
+  return v0.size() == v1.size() &&
+      std::equal(v0.begin(), v0.end(), v1.begin(),
       [](const T& v0, const T& v1) {
         return *v0 == *v1;
       });
-- 
2.43.0


From d01d4eccfda885452043fb0d4b3b38cfaced76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 08/38] fix: reject CBC input without valid PKCS #7 padding

A padding length of zero and an empty ciphertext were accepted.
---
 src/cipher.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cipher.cc b/src/cipher.cc
index ee0f8bc..ea13372 100644
--- a/src/cipher.cc
+++ b/src/cipher.cc
@@ -175,6 +175,7 @@ void encrypt_cbc(std::istream& src, std::ostream& dst,
 
 void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher) {
   std::array<uint8_t, 16> prv = cipher.InitializationVector();
+  bool unpadded = false;
 
   block_transform<16>(src, dst, [&](const std::array<uint8_t, 16>& src,
                                     std::array<uint8_t, 16>& dst,
@@ -192,7 +193,7 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
     if (last) {
       // Handle PKCS #7 padding for the last block.
       uint32_t pad_len = dst[15];
-      if (pad_len > 16)
+      if (pad_len < 1 || pad_len > 16)
         throw IoError("Decryption error.");
 
       for (std::size_t i = 16 - pad_len; i < 16; ++i) {
@@ -200,12 +201,17 @@ void decrypt_cbc(std::istream& src, std::ostream& dst, const Cipher<16>& cipher)
           throw IoError("Decryption error.");
       }
 
+      unpadded = true;
       return 16 - pad_len;
     }
 
     prv = src;
     return 16;
   });
+
+  // There is always at least one block, and the last one is always padded.
+  if (!unpadded)
+    throw IoError("Decryption error.");
 }
 
 AesCipher::AesCipher(const std::array<uint8_t, 32>& key,
-- 
2.43.0


From 3f5264f0d417d3473b1d00b049304936adb88710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:32 +0000
Subject: [PATCH 09/38] fix: draw identifiers and start bytes from the whole
 random space

They were produced by a Mersenne twister with a 32-bit seed, so only 2^32
different identifiers existed and collisions were likely after some ten
thousand draws.
---
 src/random.hh | 5 ++---
 src/util.cc   | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/random.hh b/src/random.hh
index e8fd1a2..3ef6f9b 100644
--- a/src/random.hh
+++ b/src/random.hh
@@ -49,14 +49,13 @@ class RandomObfuscator {
 template <std::size_t N>
 std::array<uint8_t, N> random_array() {
   std::random_device rd;
-  std::mt19937 engine(rd());
 
-  std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
+  std::uniform_int_distribution<uint16_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, N> array;
   for (std::size_t i = 0; i < N; ++i)
-    array[i] = uniform_dist(engine);
+    array[i] = static_cast<uint8_t>(uniform_dist(rd));
 
   return array;
 }
diff --git a/src/util.cc b/src/util.cc
index 107a179..bef09aa 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -37,14 +37,13 @@ std::string time_to_str(const std::time_t& time) {
 
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
-  std::mt19937 engine(rd());
 
-  std::uniform_int_distribution<uint8_t> uniform_dist(0, 255);
+  std::uniform_int_distribution<uint16_t> uniform_dist(0, 255);
 
   // Fill block with random values.
   std::array<uint8_t, 16> uuid;
   for (std::size_t i = 0; i < 16; ++i)
-    uuid[i] = uniform_dist(engine);
+    uuid[i] = static_cast<uint8_t>(uniform_dist(rd));
 
   return uuid;
 }
-- 
2.43.0


From 1e674233d19553bc94e8eb5f5acd406c6311201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 10/38] fix: refuse KDBX compression method 2

The bound check was off by one: the first unknown method was read as no
compression.
---
 src/kdbx.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index e32f776..cdcf483 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -986,7 +986,7 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
         break;
       case KdbxHeaderField::kCompressionFlags: {
         uint32_t comp_flags = consume<uint32_t>(field);
-        if (comp_flags > static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
+        if (comp_flags >= static_cast<uint32_t>(kKdbxCompressionFlags::kCount))
           throw FormatError("Unknown compression method in KDBX.");
         db->set_compress(comp_flags ==
             static_cast<uint32_t>(kKdbxCompressionFlags::kGzip));
-- 
2.43.0


From 7fdc1234c4db1c89fe9481dafbdf9a86e5f9ed73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 11/38] fix: count key transformation rounds in 64 bits

With 2^32 or more rounds the 32-bit counter wrapped around and the loop never
ended.
---
 src/key.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/key.cc b/src/key.cc
index 2156608..0287861 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -124,7 +124,7 @@ std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
   AesCipher cipher(seed);
 
   std::array<uint8_t, 32> transformed_key = key_.Resolve(resolution);
-  for (uint32_t i = 0; i < rounds; ++i)
+  for (uint64_t i = 0; i < rounds; ++i)
     transformed_key = encrypt_ecb(transformed_key, cipher);
 
   SHA256_CTX sha256;
-- 
2.43.0


From 34159b2a68ad48869bf7c775921933c318d16083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 12/38] fix: keep auto-type obfuscation values above one

The setter took a bool, so every non-zero value became 1.
---
 src/entry.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/entry.hh b/src/entry.hh
index 938adba..f8f6211 100644
--- a/src/entry.hh
+++ b/src/entry.hh
@@ -87,7 +87,9 @@ class Entry final {
     void set_enabled(bool enabled) { enabled_ = enabled; }
 
     uint32_t obfuscation() const { return obfuscation_; }
-    void set_obfuscation(bool obfuscation) { obfuscation_ = obfuscation; }
+    void set_obfuscation(uint32_t obfuscation) {
+      obfuscation_ = obfuscation;
+    }
 
     const std::string& sequence() const { return sequence_; }
     void set_sequence(const std::string& sequence) { sequence_ = sequence; }
-- 
2.43.0


From b44601f95f99ce3ccc46819b88e5ffe552e0b36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:09 +0000
Subject: [PATCH 13/38] fix: use key files that hold an all-zero key, and leave
 the key alone on errors

An all-zero key file key was treated as if no key file had been set, and a
malformed hexadecimal key file overwrote part of the previous key before it
was rejected.
---
 src/key.cc | 20 ++++++++++++--------
 src/key.hh |  2 ++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/key.cc b/src/key.cc
index 0287861..d27c200 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -33,23 +33,21 @@ namespace keepass {
 
 std::array<uint8_t, 32> Key::CompositeKey::Resolve(
     SubKeyResolution resolution) const {
-  static const std::array<uint8_t, 32> kEmptyKey = { { 0 } };
-
   if (resolution == SubKeyResolution::kHashSubKeys) {
       std::array<uint8_t, 32> key;
 
       SHA256_CTX sha256;
       SHA256_Init(&sha256);
-      if (password_key_ != kEmptyKey)
+      if (has_password_)
           SHA256_Update(&sha256, password_key_.data(), password_key_.size());
-      if (keyfile_key_ != kEmptyKey)
+      if (has_keyfile_)
           SHA256_Update(&sha256, keyfile_key_.data(), keyfile_key_.size());
       SHA256_Final(key.data(), &sha256);
 
       return key;
   } else {
-    if (password_key_ != kEmptyKey) {
-      if (keyfile_key_ != kEmptyKey) {
+    if (has_password_) {
+      if (has_keyfile_) {
         std::array<uint8_t, 32> key;
 
         SHA256_CTX sha256;
@@ -78,6 +76,7 @@ void Key::SetPassword(const std::string& password) {
   SHA256_Update(&sha256, reinterpret_cast<const uint8_t*>(password.c_str()),
                 password.size());
   SHA256_Final(key_.password_key_.data(), &sha256);
+  key_.has_password_ = true;
 }
 
 void Key::SetKeyFile(const std::string& path) {
@@ -94,6 +93,7 @@ void Key::SetKeyFile(const std::string& path) {
       throw FormatError("Invalid key size in key file.");
 
     std::copy(key_str.begin(), key_str.end(), key_.keyfile_key_.begin());
+    key_.has_keyfile_ = true;
     return;
   }
 
@@ -107,15 +107,19 @@ void Key::SetKeyFile(const std::string& path) {
   if (data.size() != 64)
     throw FormatError("Unknown key file format.");
 
-  for (std::size_t i = 0; i < key_.keyfile_key_.size(); ++i) {
+  std::array<uint8_t, 32> keyfile_key;
+  for (std::size_t i = 0; i < keyfile_key.size(); ++i) {
     char c[2] = { data[i * 2], data[i * 2 + 1] };
 
     if (!std::isxdigit(c[0]) || !std::isxdigit(c[1]))
       throw FormatError("Unknown key file format.");
 
     uint8_t v = std::stoi(std::string(c, 2), 0, 16);
-    key_.keyfile_key_[i] = v;
+    keyfile_key[i] = v;
   }
+
+  key_.keyfile_key_ = keyfile_key;
+  key_.has_keyfile_ = true;
 }
 
 std::array<uint8_t, 32> Key::Transform(const std::array<uint8_t, 32>& seed,
diff --git a/src/key.hh b/src/key.hh
index f85c2cf..0e8b551 100644
--- a/src/key.hh
+++ b/src/key.hh
@@ -45,6 +45,8 @@ class Key final {
   struct CompositeKey {
     std::array<uint8_t, 32> password_key_ = { { 0 } };
     std::array<uint8_t, 32> keyfile_key_ = { { 0 } };
+    bool has_password_ = false;
+    bool has_keyfile_ = false;
 
     std::array<uint8_t, 32> Resolve(SubKeyResolution resolution) const;
   } key_;
-- 
2.43.0


From 73181c6d92c0f9e0c2a7b841d5e57e45fcbd4931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 14/38] fix: start over at the beginning of a key file after a
 read error

After a read error the seek was silently ignored and the remainder of the file
could be taken for the whole key.
---
 src/key.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/key.cc b/src/key.cc
index d27c200..68cf7b1 100644
--- a/src/key.cc
+++ b/src/key.cc
@@ -98,7 +98,10 @@ void Key::SetKeyFile(const std::string& path) {
   }
 
   // If not XML, reset stream and try to parse as text.
+  src.clear();
   src.seekg(0, std::ios::beg);
+  if (!src.good())
+    throw IoError("Read error.");
 
   std::vector<char> data;
   std::copy(std::istreambuf_iterator<char>(src), 
-- 
2.43.0


From 2bd9566a535a71ccb90cbf77d506aad255ed7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:46 +0000
Subject: [PATCH 15/38] fix: initialise the recycle bin and template change
 times

---
 src/metadata.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.hh b/src/metadata.hh
index 5c8d0f0..778f8be 100644
--- a/src/metadata.hh
+++ b/src/metadata.hh
@@ -101,9 +101,9 @@ class Metadata final {
   int64_t master_key_change_force_ = -1;
   MemoryProtection memory_protection_;
   std::shared_ptr<Group> recycle_bin_;
-  std::time_t recycle_bin_changed_;
+  std::time_t recycle_bin_changed_ = 0;
   std::shared_ptr<Group> entry_templates_;
-  std::time_t entry_templates_changed_;
+  std::time_t entry_templates_changed_ = 0;
   int32_t history_max_items_ = -1;
   int64_t history_max_size_ = -1;
   std::weak_ptr<Group> last_selected_group_;
-- 
2.43.0


From 7069c742d39af6e63f18a0f0195d7007034d5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 16/38] fix: write carriage returns in KDBX text as character
 references

XML parsers turn a raw carriage return into a line feed, so text with Windows
or old Mac line breaks changed when a database was saved and loaded.
---
 src/pugixml.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pugixml.cc b/src/pugixml.cc
index 006bbf2..2a26cf1 100644
--- a/src/pugixml.cc
+++ b/src/pugixml.cc
@@ -1842,7 +1842,7 @@ PUGI__NS_BEGIN
 
 	enum chartypex_t
 	{
-		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \r, \n), &, <, >
+		ctx_special_pcdata = 1,   // Any symbol >= 0 and < 32 (except \t, \n), &, <, >
 		ctx_special_attr = 2,     // Any symbol >= 0 and < 32 (except \t), &, <, >, "
 		ctx_start_symbol = 4,	  // Any symbol > 127, a-z, A-Z, _
 		ctx_digit = 8,			  // 0-9
@@ -1851,7 +1851,7 @@ PUGI__NS_BEGIN
 
 	static const unsigned char chartypex_table[256] =
 	{
-		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  2,  3,  3,     // 0-15
+		3,  3,  3,  3,  3,  3,  3,  3,     3,  0,  2,  3,  3,  3,  3,  3,     // 0-15
 		3,  3,  3,  3,  3,  3,  3,  3,     3,  3,  3,  3,  3,  3,  3,  3,     // 16-31
 		0,  0,  2,  0,  0,  0,  3,  0,     0,  0,  0,  0,  0, 16, 16,  0,     // 32-47
 		24, 24, 24, 24, 24, 24, 24, 24,    24, 24, 0,  0,  3,  0,  3,  0,     // 48-63
-- 
2.43.0


From 8517de7233483eaee718ed5af60db56c5988e6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 17/38] fix: write KDBX booleans as "True" and "False"

The format defines these spellings and other implementations compare them
exactly; "true" and "false" are read as false or rejected.
---
 src/kdbx.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index cdcf483..23683d5 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -112,6 +112,10 @@ static_assert(sizeof(KdbxHeaderField) == 3,
               "bad packing of bitfield header structure.");
 #pragma pack(pop)
 
+static const char* WriteBool(bool val) {
+  return val ? "True" : "False";
+}
+
 void KdbxFile::Reset() {
   binary_pool_.clear();
   icon_pool_.clear();
@@ -368,23 +372,23 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
   pugi::xml_node mp_node = meta_node.append_child("MemoryProtection");
   mp_node.append_child("ProtectTitle").text().set(
-      meta->memory_protection().title());
+      WriteBool(meta->memory_protection().title()));
   mp_node.append_child("ProtectUserName").text().set(
-      meta->memory_protection().username());
+      WriteBool(meta->memory_protection().username()));
   mp_node.append_child("ProtectPassword").text().set(
-      meta->memory_protection().password());
+      WriteBool(meta->memory_protection().password()));
   mp_node.append_child("ProtectURL").text().set(
-      meta->memory_protection().url());
+      WriteBool(meta->memory_protection().url()));
   mp_node.append_child("ProtectNotes").text().set(
-      meta->memory_protection().notes());
+      WriteBool(meta->memory_protection().notes()));
 
   if (meta->recycle_bin()) {
-    meta_node.append_child("RecycleBinEnabled").text().set(true);
+    meta_node.append_child("RecycleBinEnabled").text().set("True");
     meta_node.append_child("RecycleBinUUID").text().set(base64_encode(
         meta->recycle_bin()->uuid().begin(),
         meta->recycle_bin()->uuid().end()).c_str());
   } else {
-    meta_node.append_child("RecycleBinEnabled").text().set(false);
+    meta_node.append_child("RecycleBinEnabled").text().set("False");
   }
   meta_node.append_child("RecycleBinChanged").text().set(WriteDateTime(
       meta->recycle_bin_changed()).c_str());
@@ -644,11 +648,12 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
       entry->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       entry->move_time()).c_str());
-  times_node.append_child("Expires").text().set(entry->expires());
+  times_node.append_child("Expires").text().set(WriteBool(entry->expires()));
   times_node.append_child("UsageCount").text().set(entry->usage_count());
 
   pugi::xml_node autotype_node = entry_node.append_child("AutoType");
-  autotype_node.append_child("Enabled").text().set(entry->auto_type().enabled());
+  autotype_node.append_child("Enabled").text().set(
+      WriteBool(entry->auto_type().enabled()));
   autotype_node.append_child("DataTransferObfuscation").text().set(
       entry->auto_type().obfuscation());
   autotype_node.append_child("DefaultSequence").text().set(
@@ -818,14 +823,15 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
       group->expiry_time()).c_str());
   times_node.append_child("LocationChanged").text().set(WriteDateTime(
       group->move_time()).c_str());
-  times_node.append_child("Expires").text().set(group->expires());
+  times_node.append_child("Expires").text().set(WriteBool(group->expires()));
   times_node.append_child("UsageCount").text().set(group->usage_count());
 
-  group_node.append_child("IsExpanded").text().set(group->expanded());
+  group_node.append_child("IsExpanded").text().set(WriteBool(group->expanded()));
   group_node.append_child("DefaultAutoTypeSequence").text().set(
       group->default_autotype_sequence().c_str());
-  group_node.append_child("EnableAutoType").text().set(group->autotype());
-  group_node.append_child("EnableSearching").text().set(group->search());
+  group_node.append_child("EnableAutoType").text().set(
+      WriteBool(group->autotype()));
+  group_node.append_child("EnableSearching").text().set(WriteBool(group->search()));
 
   if (auto entry = group->last_visible_entry().lock()) {
     group_node.append_child("LastTopVisibleEntry").text().set(
-- 
2.43.0


From 44a4e355b482b16923c5a1cc3d2ba421ccf75f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 18/38] fix: do not end gzip input early

When a part of the compressed input produced no output yet (a long gzip
header, or only the first bits of a symbol left when the output buffer was
full), the rest of the data was silently dropped.
---
 src/stream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index 882ad20..f5a8aad 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -146,7 +146,9 @@ gzip_istreambuf::~gzip_istreambuf() {
 }
 
 int gzip_istreambuf::underflow() {
-  if (gptr() == egptr()) {
+  // A part of the input may not result in any output, so keep going until there
+  // is some or the stream has ended.
+  while (gptr() == egptr()) {
     // Check if we need to feed the z-stream more input data.
     if (z_stream_.avail_in == 0) {
       if (!src_.good())
@@ -172,6 +174,9 @@ int gzip_istreambuf::underflow() {
 
     std::size_t output_bytes = output_.size() - z_stream_.avail_out;
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
+
+    if (res == Z_STREAM_END)
+      break;
   }
 
   return gptr() == egptr() ?
-- 
2.43.0


From 31cc2a38011ccafe26c12ef94a5c3a28670eafe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 19/38] fix: accept gzip output that exactly fills the buffer

The extra call to deflate() then has nothing to do, which was reported as an
error.
---
 src/stream.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index f5a8aad..0e6a07c 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -217,7 +217,8 @@ bool gzip_ostreambuf::WriteOutput(bool flush) {
 
     int res = deflate(&z_stream_, flush ? Z_FINISH : Z_NO_FLUSH);
     assert(res != Z_STREAM_ERROR);
-    if (res < 0)
+    // Z_BUF_ERROR means that the output just fitted and nothing is left to do.
+    if (res < 0 && res != Z_BUF_ERROR)
       return false;
 
     std::size_t output_bytes = out.size() - z_stream_.avail_out;
-- 
2.43.0


From 3b5737d0326ce1105199411d1b02043ad246b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 20/38] fix: stay at the end of a hashed block stream

Reading again after the end took whatever followed for another block.
---
 src/stream.cc | 3 ++-
 src/stream.hh | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream.cc b/src/stream.cc
index 0e6a07c..2ffddaa 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -41,7 +41,7 @@ std::array<uint8_t, 32> hashed_basic_streambuf::GetBlockHash() const {
 int hashed_istreambuf::underflow() {
   static constexpr std::array<uint8_t, 32> kEmptyHash = { { 0 } };
 
-  if (gptr() == egptr()) {
+  if (gptr() == egptr() && !eos_) {
     BlockHeader header;
     src_.read(reinterpret_cast<char*>(&header), sizeof(BlockHeader));
     if (!src_.good())
@@ -63,6 +63,7 @@ int hashed_istreambuf::underflow() {
       if (header.block_hash != kEmptyHash)
         throw IoError("Corrupt EOS block.");
 
+      eos_ = true;
       return std::char_traits<char>::eof();
     }
 
diff --git a/src/stream.hh b/src/stream.hh
index 86496df..0b27a0d 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -115,6 +115,7 @@ class hashed_istreambuf final :
     public std::basic_streambuf<char, std::char_traits<char>> {
  private:
   std::istream& src_;
+  bool eos_ = false;
 
 public:
   hashed_istreambuf(std::istream& src)
-- 
2.43.0


From 53ded3a033a86e034be10b28a3be686c5a859d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 21/38] fix: read and write KDBX attachments stored in their
 entry

Import looked at the wrong element and lost their data, export dropped the
protection and compression flags, and a compressed attachment was cut at its
first NUL byte (or failed if empty). Attachments in entries and in the pool
now share the same code.
---
 src/kdbx.cc | 136 ++++++++++++++++++++++++----------------------------
 src/kdbx.hh |   5 ++
 2 files changed, 68 insertions(+), 73 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 23683d5..9aada23 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -206,6 +206,64 @@ void KdbxFile::WriteProtectedString(pugi::xml_node& node,
   }
 }
 
+std::shared_ptr<Binary> KdbxFile::ParseBinary(
+    const pugi::xml_node& node,
+    RandomObfuscator& obfuscator) const {
+  protect<std::string> data;
+
+  bool compressed = false;
+  if (node.attribute("Protected").as_bool()) {
+    data = protect<std::string>(obfuscator.Process(
+        base64_decode(node.text().as_string())), true);
+  } else {
+    if (node.attribute("Compressed").as_bool()) {
+      compressed = true;
+      std::stringstream raw_stream(base64_decode(node.text().as_string()));
+      gzip_istreambuf gzip_streambuf(raw_stream);
+      std::istream gzip_stream(&gzip_streambuf);
+
+      std::vector<char> raw_data = consume<std::vector<char>>(gzip_stream);
+      data = protect<std::string>(
+          std::string(raw_data.begin(), raw_data.end()),
+          node.attribute("ProtectedInMemory").as_bool());
+    } else {
+      data = protect<std::string>(
+          base64_decode(node.text().as_string()),
+          node.attribute("ProtectedInMemory").as_bool());
+    }
+  }
+
+  std::shared_ptr<Binary> binary = std::make_shared<Binary>(data);
+  binary->set_compress(compressed);
+  return binary;
+}
+
+void KdbxFile::WriteBinary(pugi::xml_node& node, const Binary& binary,
+                           RandomObfuscator& obfuscator) const {
+  if (binary.data().is_protected()) {
+    node.append_attribute("Protected").set_value("True");
+    node.text().set(base64_encode(obfuscator.Process(
+        *binary.data())).c_str());
+  } else {
+    if (binary.compress()) {
+      node.append_attribute("Compressed").set_value("True");
+      std::stringstream compressed_data;
+
+      gzip_ostreambuf gzip_streambuf(compressed_data);
+      std::ostream gzip_stream(&gzip_streambuf);
+      std::copy(binary.data()->begin(), binary.data()->end(),
+                std::ostreambuf_iterator<char>(gzip_stream));
+      gzip_stream.flush();
+
+      node.text().set(base64_encode(
+            std::istreambuf_iterator<char>(compressed_data),
+            std::istreambuf_iterator<char>()).c_str());
+    } else {
+      node.text().set(base64_encode(*binary.data()).c_str());
+    }
+  }
+}
+
 std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
                                               RandomObfuscator& obfuscator) {
   std::shared_ptr<Metadata> meta = std::make_shared<Metadata>();
@@ -292,32 +350,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         bin_node = bin_node.next_sibling("Binary")) {
       std::string id = bin_node.attribute("ID").value();
 
-      protect<std::string> data;
-
-      bool compressed = false;
-      if (bin_node.attribute("Protected").as_bool()) {
-        data = protect<std::string>(obfuscator.Process(
-            base64_decode(bin_node.text().as_string())), true);
-      } else {
-        if (bin_node.attribute("Compressed").as_bool()) {
-          compressed = true;
-          std::stringstream raw_stream(
-              base64_decode(bin_node.text().as_string()));
-          gzip_istreambuf gzip_streambuf(raw_stream);
-          std::istream gzip_stream(&gzip_streambuf);
-
-          data = protect<std::string>(
-              consume<std::string>(gzip_stream),
-              bin_node.attribute("ProtectedInMemory").as_bool());
-        } else {
-          data = protect<std::string>(
-              base64_decode(bin_node.text().as_string()),
-              bin_node.attribute("ProtectedInMemory").as_bool());
-        }
-      }
-
-      std::shared_ptr<Binary> binary = std::make_shared<Binary>(data);
-      binary->set_compress(compressed);
+      std::shared_ptr<Binary> binary = ParseBinary(bin_node, obfuscator);
       meta->AddBinary(binary);
 
       binary_pool_.insert(std::make_pair(id, binary));
@@ -433,28 +466,7 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     pugi::xml_node bin_node = bins_node.append_child("Binary");
     bin_node.append_attribute("ID").set_value(binary_id);
 
-    if (binary->data().is_protected()) {
-      bin_node.append_attribute("Protected").set_value("True");
-      bin_node.text().set(base64_encode(obfuscator.Process(
-          *binary->data())).c_str());
-    } else {
-      if (binary->compress()) {
-        bin_node.append_attribute("Compressed").set_value("True");
-        std::stringstream compressed_data;
-
-        gzip_ostreambuf gzip_streambuf(compressed_data);
-        std::ostream gzip_stream(&gzip_streambuf);
-        std::copy(binary->data()->begin(), binary->data()->end(),
-                  std::ostreambuf_iterator<char>(gzip_stream));
-        gzip_stream.flush();
-
-        bin_node.text().set(base64_encode(
-              std::istreambuf_iterator<char>(compressed_data), 
-              std::istreambuf_iterator<char>()).c_str());
-      } else {
-        bin_node.text().set(base64_encode(*binary->data()).c_str());
-      }
-    }
+    WriteBinary(bin_node, *binary, obfuscator);
 
     binary_pool_.insert(std::make_pair(std::to_string(binary_id), binary));
 
@@ -569,29 +581,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
         binary = it->second;
       } else {
-        protect<std::string> prot_val;
-
-        if (bin_node.attribute("Protected").as_bool()) {
-          prot_val = protect<std::string>(obfuscator.Process(
-              base64_decode(bin_node.text().as_string())), true);
-        } else {
-          if (bin_node.attribute("Compressed").as_bool()) {
-            std::stringstream raw_stream(
-                base64_decode(bin_node.text().as_string()));
-            gzip_istreambuf gzip_streambuf(raw_stream);
-            std::istream gzip_stream(&gzip_streambuf);
-
-            prot_val = protect<std::string>(
-                consume<std::string>(gzip_stream),
-                bin_node.attribute("ProtectedInMemory").as_bool());
-          } else {
-            prot_val = protect<std::string>(
-                base64_decode(bin_node.text().as_string()),
-                bin_node.attribute("ProtectedInMemory").as_bool());
-          }
-        }
-
-        binary = std::make_shared<Binary>(prot_val);
+        binary = ParseBinary(val_node, obfuscator);
       }
     }
 
@@ -715,8 +705,8 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     }
 
     if (!found_in_pool) {
-      bin_node.append_child("Value").text().set(base64_encode(
-          attachment->binary()->data()).c_str());
+      pugi::xml_node val_node = bin_node.append_child("Value");
+      WriteBinary(val_node, *attachment->binary(), obfuscator);
     }
   }
 
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 4d8ebbd..57c69d5 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -73,6 +73,11 @@ class KdbxFile final {
                             const protect<std::string>& str,
                             RandomObfuscator& obfuscator) const;
 
+  std::shared_ptr<Binary> ParseBinary(const pugi::xml_node& node,
+                                      RandomObfuscator& obfuscator) const;
+  void WriteBinary(pugi::xml_node& node, const Binary& binary,
+                   RandomObfuscator& obfuscator) const;
+
   std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node,
                                       RandomObfuscator& obfuscator);
   void WriteMeta(pugi::xml_node& meta_node, RandomObfuscator& obfuscator,
-- 
2.43.0


From ed6063a3aa4068e16cfca4f5bf9a4697356cc115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 22/38] fix: accept KDBX files without optional references and
 times

---
 src/kdbx.cc | 40 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 9aada23..170de2f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -131,7 +131,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   if (it != group_pool_.end())
     return it->second;
 
-  std::array<uint8_t, 16> uuid;
+  std::array<uint8_t, 16> uuid = { { 0 } };
   base64_decode(uuid_str, bounds_checked(uuid));
 
   std::shared_ptr<Group> group = std::make_shared<Group>();
@@ -142,19 +142,22 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
 }
 
 std::time_t KdbxFile::ParseDateTime(const char* text) const {
+  // Missing times are treated as "never".
+  if (*text == '\0')
+    return 0;
+
   // Check for the special KeePass 1x "never" timestamp.
   if (std::string(text) == "2999-12-28T22:59:59Z")
     return 0;
   
-  std::tm tm;
+  std::tm tm = std::tm();
   char* res = strptime(text, "%Y-%m-%dT%H:%M:%S", &tm);
-  if (res == nullptr) {
-    assert(false);
-    return 0;
-  }
+  if (res == nullptr)
+    throw FormatError("Illegal time in KDBX.");
 
   // Format is expected to always be in UTC.
-  assert(*res == 'Z' || *res == '\0');
+  if (*res != 'Z' && *res != '\0')
+    throw FormatError("Illegal time in KDBX.");
 
   return timegm(&tm);
 }
@@ -334,7 +337,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
       if (data.empty())
         continue;
 
-      std::array<uint8_t, 16> uuid;
+      std::array<uint8_t, 16> uuid = { { 0 } };
       base64_decode(icon_node.child_value("UUID"), bounds_checked(uuid));
 
       std::shared_ptr<Icon> icon = std::make_shared<Icon>(uuid, data);
@@ -363,10 +366,8 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         item_node = item_node.next_sibling("Item")) {
       std::string key = item_node.child_value("Key");
       std::string value = item_node.child_value("Value");
-      if (key.empty()) {
-        assert(false);
+      if (key.empty())
         continue;
-      }
 
       meta->AddField(key, value);
     }
@@ -430,8 +431,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
     meta_node.append_child("EntryTemplatesGroup").text().set(base64_encode(
         meta->entry_templates()->uuid().begin(),
         meta->entry_templates()->uuid().end()).c_str());
-  } else {
-    assert(false);
   }
   meta_node.append_child("EntryTemplatesGroupChanged").text().set(
       WriteDateTime(meta->entry_templates_changed()).c_str());
@@ -498,11 +497,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
   if (entry_node.child("CustomIconUUID")) {
     auto it = icon_pool_.find(entry_node.child_value("CustomIconUUID"));
-    if (it != icon_pool_.end()) {
+    if (it != icon_pool_.end())
       entry->set_custom_icon(it->second);
-    } else {
-      assert(false);
-    }
   }
  
   pugi::xml_node times_node = entry_node.child("Times");
@@ -734,11 +730,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   if (group_node.child("CustomIconUUID")) {
     auto icon = icon_pool_.find(group_node.child_value("CustomIconUUID"));
-    if (icon != icon_pool_.end()) {
+    if (icon != icon_pool_.end())
       group->set_custom_icon(icon->second);
-    } else {
-      assert(false);
-    }
   }
 
   pugi::xml_node times_node = group_node.child("Times");
@@ -775,7 +768,6 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     group->AddEntry(entry);
 
     if (entry_uuid == uuid) {
-      assert(group->last_visible_entry().expired());
       group->set_last_visible_entry(entry);
     }
   }
@@ -870,15 +862,11 @@ void KdbxFile::ParseXml(std::istream& src,
   auto it = group_pool_.find(meta_node.child_value("LastSelectedGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_selected_group(it->second);
-  } else {
-    assert(false);
   }
 
   it = group_pool_.find(meta_node.child_value("LastTopVisibleGroup"));
   if (it != group_pool_.end()) {
     meta->set_last_visible_group(it->second);
-  } else {
-    assert(false);
   }
 }
 
-- 
2.43.0


From 0aff8a40bbe2eb52860918cb173be1846fe50402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 23/38] fix: leave an absent last visible entry of a group
 absent

---
 src/kdbx.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 170de2f..4dea237 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -758,8 +758,9 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   group->set_autotype(group_node.child("EnableAutoType").text().as_bool());
   group->set_search(group_node.child("EnableSearching").text().as_bool());
 
-  base64_decode(group_node.child_value("LastTopVisibleEntry"),
-                bounds_checked(uuid));
+  pugi::xml_node visible_node = group_node.child("LastTopVisibleEntry");
+  std::array<uint8_t, 16> visible_uuid = { { 0 } };
+  base64_decode(visible_node.child_value(), bounds_checked(visible_uuid));
 
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
@@ -767,7 +768,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
     std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
     group->AddEntry(entry);
 
-    if (entry_uuid == uuid) {
+    if (visible_node && entry_uuid == visible_uuid) {
       group->set_last_visible_entry(entry);
     }
   }
-- 
2.43.0


From c799ff7e1c3768504284868cb61b852052a8db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 24/38] fix: resolve recycle bin and template references to the
 groups of the tree

---
 src/kdbx.cc | 15 +++++++++++++--
 src/kdbx.hh |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 4dea237..45d6b5a 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -120,6 +120,7 @@ void KdbxFile::Reset() {
   binary_pool_.clear();
   icon_pool_.clear();
   group_pool_.clear();
+  pending_group_pool_.clear();
   header_hash_ = { 0 };
 }
 
@@ -138,6 +139,7 @@ std::shared_ptr<Group> KdbxFile::GetGroup(const std::string& uuid_str) {
   group->set_uuid(uuid);
 
   group_pool_.insert(std::make_pair(uuid_str, group));
+  pending_group_pool_.insert(std::make_pair(uuid_str, group));
   return group;
 }
 
@@ -717,8 +719,17 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 std::shared_ptr<Group> KdbxFile::ParseGroup(
     const pugi::xml_node& group_node,
     RandomObfuscator& obfuscator) {
-  std::shared_ptr<Group> group = std::make_shared<Group>();
-  group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
+  std::shared_ptr<Group> group;
+
+  // Use the group object handed out to earlier references, if any.
+  auto pending = pending_group_pool_.find(group_node.child_value("UUID"));
+  if (pending != pending_group_pool_.end()) {
+    group = pending->second;
+    pending_group_pool_.erase(pending);
+  } else {
+    group = std::make_shared<Group>();
+    group_pool_.insert(std::make_pair(group_node.child_value("UUID"), group));
+  }
 
   std::array<uint8_t, 16> uuid = { 0 };
   base64_decode(group_node.child_value("UUID"), bounds_checked(uuid));
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 57c69d5..c4288e6 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -56,6 +56,8 @@ class KdbxFile final {
   BinaryPool binary_pool_;
   IconPool icon_pool_;
   GroupPool group_pool_;
+  // Groups that have been referred to but not parsed yet.
+  GroupPool pending_group_pool_;
   std::array<uint8_t, 32> header_hash_ = { { 0 } }; 
 
   void Reset();
-- 
2.43.0


From 0605d6897f6ac8996952e037a825bec540be3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 25/38] fix: limit the nesting depth of groups and entries

---
 src/kdb.cc  |  9 +++++++--
 src/kdbx.cc | 45 +++++++++++++++++++++++++++++++++------------
 src/kdbx.hh | 13 +++++++++----
 3 files changed, 49 insertions(+), 18 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 952c02c..a7db154 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -144,6 +144,9 @@ struct KdbTime {
 static_assert(sizeof(KdbTime) == 5, "bad packing of time structure.");
 #pragma pack(pop)
 
+/// Maximum nesting level of groups, guards recursive uses of the group tree.
+constexpr std::size_t kKdbMaxLevel = 1024;
+
 enum class KdbGroupFieldType : uint16_t {
   kEmpty,               ///< 0 bytes.
   kId,                  ///< 4 bytes.
@@ -614,6 +617,9 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
     // level zero.
     uint32_t group_level = std::get<1>(group_data) + 1u;
 
+    if (group_level > kKdbMaxLevel)
+      throw FormatError("Too deeply nested group in KDB.");
+
     if (group_level > last_group_level) {
       if (group_level != last_group_level + 1)
         throw FormatError("Malformed group tree.");
@@ -689,8 +695,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
   dfs<Group, &Group::Groups>(db.root(),
                              [&](const std::shared_ptr<Group>& group,
                                  std::size_t level) {
-    if (level > std::numeric_limits<uint16_t>::max()) {
-      assert(false);
+    if (level >= kKdbMaxLevel) {
       throw InternalError("Group hierarchy exceeds KDB maximum.");
     }
 
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 45d6b5a..1833c05 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -59,6 +59,9 @@ constexpr std::array<uint8_t, 8> kKdbxInnerRandomStreamInitVec = {
   0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a
 };
 
+/// Maximum nesting level of groups and entries, guards the recursive parser.
+constexpr std::size_t kKdbxMaxLevel = 1024;
+
 enum class kKdbxCompressionFlags : uint32_t {
   kNone,
   kGzip,
@@ -485,7 +488,11 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 std::shared_ptr<Entry> KdbxFile::ParseEntry(
     const pugi::xml_node& entry_node,
     std::array<uint8_t, 16>& entry_uuid,
-    RandomObfuscator& obfuscator) {
+    RandomObfuscator& obfuscator,
+    std::size_t level) {
+  if (level > kKdbxMaxLevel)
+    throw FormatError("Too deeply nested entry in KDBX.");
+
   std::shared_ptr<Entry> entry = std::make_shared<Entry>();
 
   base64_decode(entry_node.child_value("UUID"), bounds_checked(entry_uuid));
@@ -599,7 +606,8 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       std::array<uint8_t, 16> subentry_uuid = { 0 };
       entry->AddHistoryEntry(ParseEntry(subentry_node,
                                         subentry_uuid,
-                                        obfuscator));
+                                        obfuscator,
+                                        level + 1));
     }
   }
 
@@ -608,7 +616,11 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
 void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
                           RandomObfuscator& obfuscator,
-                          std::shared_ptr<Entry> entry) {
+                          std::shared_ptr<Entry> entry,
+                          std::size_t level) {
+  if (level > kKdbxMaxLevel)
+    throw InternalError("Entry nesting exceeds KDBX maximum.");
+
   entry_node.append_child("UUID").text().set(base64_encode(
       entry->uuid().begin(), entry->uuid().end()).c_str());
   entry_node.append_child("IconID").text().set(entry->icon());
@@ -712,13 +724,17 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
   pugi::xml_node history_node = entry_node.append_child("History");
   for (auto histentry : entry->history()) {
     pugi::xml_node histentry_node = history_node.append_child("Entry");
-    WriteEntry(histentry_node, obfuscator, histentry);
+    WriteEntry(histentry_node, obfuscator, histentry, level + 1);
   }
 }
 
 std::shared_ptr<Group> KdbxFile::ParseGroup(
     const pugi::xml_node& group_node,
-    RandomObfuscator& obfuscator) {
+    RandomObfuscator& obfuscator,
+    std::size_t level) {
+  if (level > kKdbxMaxLevel)
+    throw FormatError("Too deeply nested group in KDBX.");
+
   std::shared_ptr<Group> group;
 
   // Use the group object handed out to earlier references, if any.
@@ -776,7 +792,8 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
     std::array<uint8_t, 16> entry_uuid = { 0 };
-    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, obfuscator);
+    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid,
+                                              obfuscator, 0);
     group->AddEntry(entry);
 
     if (visible_node && entry_uuid == visible_uuid) {
@@ -786,7 +803,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
-    group->AddGroup(ParseGroup(subgroup_node, obfuscator));
+    group->AddGroup(ParseGroup(subgroup_node, obfuscator, level + 1));
   }
 
   return group;
@@ -794,7 +811,11 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
 void KdbxFile::WriteGroup(pugi::xml_node& group_node,
                           RandomObfuscator& obfuscator,
-                          std::shared_ptr<Group> group) {
+                          std::shared_ptr<Group> group,
+                          std::size_t level) {
+  if (level > kKdbxMaxLevel)
+    throw InternalError("Group nesting exceeds KDBX maximum.");
+
   group_node.append_child("UUID").text().set(base64_encode(
       group->uuid().begin(), group->uuid().end()).c_str());
   group_node.append_child("Name").text().set(group->name().c_str());
@@ -834,12 +855,12 @@ void KdbxFile::WriteGroup(pugi::xml_node& group_node,
 
   for (auto entry : group->Entries()) {
     pugi::xml_node entry_node = group_node.append_child("Entry");
-    WriteEntry(entry_node, obfuscator, entry);
+    WriteEntry(entry_node, obfuscator, entry, 0);
   }
 
   for (auto subgroup : group->Groups()) {
     pugi::xml_node subgroup_node = group_node.append_child("Group");
-    WriteGroup(subgroup_node, obfuscator, subgroup);
+    WriteGroup(subgroup_node, obfuscator, subgroup, level + 1);
   }
 }
 
@@ -863,7 +884,7 @@ void KdbxFile::ParseXml(std::istream& src,
     throw FormatError("No \"Root\" or \"Group\" element in KDBX XML.");
 
   std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
-  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator);
+  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator, 0);
 
   db.set_meta(meta);
   db.set_root(root);
@@ -916,7 +937,7 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
       kpf_node.append_child("Root").append_child("Group");
 
   WriteMeta(meta_node, obfuscator, db.meta());
-  WriteGroup(group_node, obfuscator, db.root());
+  WriteGroup(group_node, obfuscator, db.root(), 0);
 
   doc.save(dst);
 }
diff --git a/src/kdbx.hh b/src/kdbx.hh
index c4288e6..3c09639 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -90,20 +90,25 @@ class KdbxFile final {
    * @param [in] entry_node Entry XML node.
    * @param [out] entry_uuid Entry UUID.
    * @param [in] obfuscator Random stream obfuscator.
+   * @param [in] level Nesting level of the entry.
    * @return Pointer to entry object.
    */
   std::shared_ptr<Entry> ParseEntry(const pugi::xml_node& entry_node,
                                     std::array<uint8_t, 16>& entry_uuid,
-                                    RandomObfuscator& obfuscator);
+                                    RandomObfuscator& obfuscator,
+                                    std::size_t level);
   void WriteEntry(pugi::xml_node& entry_node,
                   RandomObfuscator& obfuscator,
-                  std::shared_ptr<Entry> entry);
+                  std::shared_ptr<Entry> entry,
+                  std::size_t level);
 
   std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node,
-                                    RandomObfuscator& obfuscator);
+                                    RandomObfuscator& obfuscator,
+                                    std::size_t level);
   void WriteGroup(pugi::xml_node& group_node,
                   RandomObfuscator& obfuscator,
-                  std::shared_ptr<Group> group);
+                  std::shared_ptr<Group> group,
+                  std::size_t level);
 
   void ParseXml(std::istream& src, RandomObfuscator& obfuscator, Database& db);
 #ifdef DEBUG
-- 
2.43.0


From a8fb427930fdc57bb773f35ea1aceef64be2a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 26/38] fix: report failed writes when exporting

---
 src/kdb.cc  | 4 ++++
 src/kdbx.cc | 8 +++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index a7db154..806abe5 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -762,6 +762,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
 
   // Encrypt the content.
   encrypt_cbc(content, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 1833c05..11d57f8 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1220,9 +1220,7 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Final(header_hash_.data(), &sha256);
 
   // Write header to file.
-  std::copy(std::istreambuf_iterator<char>(header_stream),
-            std::istreambuf_iterator<char>(),
-            std::ostreambuf_iterator<char>(dst));
+  dst.write(header_data.data(), header_data.size());
 
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
@@ -1255,6 +1253,10 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
+
+  dst.close();
+  if (!dst.good())
+    throw IoError("Write error.");
 }
 
 }   // namespace keepass
-- 
2.43.0


From cd33ddaec1ea0de5b47b74b118430f31ca49d251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 27/38] fix: refuse databases that a format cannot hold instead
 of asserting

---
 src/kdb.cc  | 15 +++++++++------
 src/kdbx.cc | 21 +++++++++++++--------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 806abe5..cf51dd8 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -458,7 +458,9 @@ void KdbFile::WriteEntry(std::ostream& dst,
   conserve<KdbTime>(dst, expiry_time);
 
   if (entry->HasAttachment()) {
-    assert(entry->attachments().size() == 1);
+    if (entry->attachments().size() != 1)
+      throw InternalError("KDB supports one attachment per entry only.");
+
     std::shared_ptr<Entry::Attachment> attachment = entry->attachments()[0];
     if (!attachment->name().empty()) {
       conserve<uint16_t>(dst, static_cast<uint16_t>(
@@ -653,7 +655,11 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
 void KdbFile::Export(const std::string& path, const Database& db,
                      const Key& key) {
   // Extract database values in compatible formats.
-  assert(db.master_seed().size() == 16);
+  if (db.master_seed().size() != 16)
+    throw InternalError("Illegal master seed size for KDB.");
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+
   std::array<uint8_t, 16> master_seed;
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
@@ -683,8 +689,7 @@ void KdbFile::Export(const std::string& path, const Database& db,
       cipher.reset(new TwofishCipher(final_key, db.init_vector()));
       break;
     default:
-      assert(false);
-      break;
+      throw InternalError("Unknown cipher.");
   }
 
   // Write unencrypted content to temporary stream.
@@ -702,7 +707,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
     WriteGroup(content, group, num_groups, static_cast<uint16_t>(level));
 
     if (num_groups == std::numeric_limits<decltype(num_groups)>::max()) {
-      assert(false);
       throw InternalError("Group count exceeds KDB maximum.");
     }
     ++num_groups;
@@ -716,7 +720,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
       WriteEntry(content, entry, num_groups);
 
       if (num_entries == std::numeric_limits<decltype(num_entries)>::max()) {
-        assert(false);
         throw InternalError("Entry count exceeds KDB maximum.");
       }
       ++num_entries;
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 11d57f8..2224993 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -716,7 +716,8 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 
     if (!found_in_pool) {
       pugi::xml_node val_node = bin_node.append_child("Value");
-      WriteBinary(val_node, *attachment->binary(), obfuscator);
+      if (attachment->binary())
+        WriteBinary(val_node, *attachment->binary(), obfuscator);
     }
   }
 
@@ -936,7 +937,8 @@ void KdbxFile::WriteXml(std::ostream& dst, RandomObfuscator& obfuscator,
   pugi::xml_node group_node =
       kpf_node.append_child("Root").append_child("Group");
 
-  WriteMeta(meta_node, obfuscator, db.meta());
+  WriteMeta(meta_node, obfuscator,
+            db.meta() ? db.meta() : std::make_shared<Metadata>());
   WriteGroup(group_node, obfuscator, db.root(), 0);
 
   doc.save(dst);
@@ -1136,6 +1138,15 @@ void KdbxFile::Export(const std::string& path, const Database& db,
                       const Key& key) {
   Reset();
 
+  if (db.cipher() != Database::Cipher::kAes)
+    throw InternalError("Cipher is not supported by KDBX.");
+  if (!db.root())
+    throw InternalError("Database has no root group.");
+  if (db.master_seed().size() >
+      std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
+    throw InternalError("Master seed size exceeds KDBX maximum.");
+  }
+
   std::ofstream dst(path, std::ios::out | std::ios::binary);
   if (!dst.is_open())
     throw IoError("Unable to open database for writing.");
@@ -1152,7 +1163,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, transformed_key.data(), transformed_key.size());
   SHA256_Final(final_key.data(), &sha256);
 
-  assert(db.cipher() == Database::Cipher::kAes);
   std::unique_ptr<Cipher<16>> cipher(
       new AesCipher(final_key, db.init_vector()));
 
@@ -1174,11 +1184,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   conserve<uint32_t>(header_stream, db.compress() ?
       static_cast<uint32_t>(kKdbxCompressionFlags::kGzip) : 0);
 
-  if (db.master_seed().size() >
-      std::numeric_limits<decltype(KdbxHeaderField::size)>::max()) {
-    assert(false);
-    throw InternalError("Master seed size exceeds KDBX maximum.");
-  }
   conserve<KdbxHeaderField>(header_stream, KdbxHeaderField(
       KdbxHeaderField::kMasterSeed, db.master_seed().size()));
   conserve<std::vector<uint8_t>>(header_stream, db.master_seed());
-- 
2.43.0


From 5d2b103abbf535499509c575001b85cb615518b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 28/38] fix: report truncated gzip data

---
 src/stream.cc | 20 +++++++++++---------
 src/stream.hh |  3 +++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 2ffddaa..844b307 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -149,19 +149,21 @@ gzip_istreambuf::~gzip_istreambuf() {
 int gzip_istreambuf::underflow() {
   // A part of the input may not result in any output, so keep going until there
   // is some or the stream has ended.
-  while (gptr() == egptr()) {
+  while (gptr() == egptr() && !end_) {
     // Check if we need to feed the z-stream more input data.
     if (z_stream_.avail_in == 0) {
-      if (!src_.good())
-        return std::char_traits<char>::eof();
-
-      src_.read(input_.data(), input_.size());
+      if (src_.good()) {
+        src_.read(input_.data(), input_.size());
 
-      z_stream_.avail_in = src_.gcount();
-      z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+        z_stream_.avail_in = src_.gcount();
+        z_stream_.next_in = reinterpret_cast<uint8_t*>(input_.data());
+      }
 
-      if (z_stream_.avail_in < 1)
+      if (z_stream_.avail_in < 1) {
+        if (z_stream_.total_in > 0)
+          throw IoError("Truncated gzip data.");
         return std::char_traits<char>::eof();
+      }
     }
 
     z_stream_.avail_out = output_.size();
@@ -177,7 +179,7 @@ int gzip_istreambuf::underflow() {
     setg(output_.data(), output_.data(), output_.data() + output_bytes);
 
     if (res == Z_STREAM_END)
-      break;
+      end_ = true;
   }
 
   return gptr() == egptr() ?
diff --git a/src/stream.hh b/src/stream.hh
index 0b27a0d..0bc9dc9 100644
--- a/src/stream.hh
+++ b/src/stream.hh
@@ -158,6 +158,9 @@ class gzip_istreambuf final :
   /** Output buffer for the decompressor to write to. */
   std::array<char, kBufferSize> output_ = { { 0 } };
 
+  /** Set once the end of the compressed data has been seen. */
+  bool end_ = false;
+
 public:
   gzip_istreambuf(std::istream& src);
   ~gzip_istreambuf();
-- 
2.43.0


From f0d61c192a42a271b2d16cd3a244efdab3265064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 29/38] fix: reject KDB files with more content than the header
 counts

---
 src/kdb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index cf51dd8..16c18dd 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -604,6 +604,10 @@ std::unique_ptr<Database> KdbFile::Import(const std::string& path,
         ReadEntry(content, entry_group_id), entry_group_id));
   }
 
+  // All content must be accounted for, the counts are not part of the hash.
+  if (content.peek() != std::char_traits<char>::eof())
+    throw FormatError("Unexpected trailing data in KDB.");
+
   // Construct the group and entry tree.
   std::shared_ptr<Group> group_root = std::make_shared<Group>();
 
-- 
2.43.0


From 40aeb50f2646937009f6d40304e7f9d54ec43812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 30/38] fix: escape strings in JSON output

---
 src/entry.cc | 14 +++++++-------
 src/group.cc |  4 ++--
 src/util.cc  | 36 ++++++++++++++++++++++++++++++++++++
 src/util.hh  |  7 +++++++
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/entry.cc b/src/entry.cc
index f5c4e9c..c290e9e 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -67,10 +67,10 @@ std::string Entry::Attachment::ToJson() const {
 
   json << "{";
   if (!name_.empty())
-    json << "\"name\":\"" << name_ << "\"";
+    json << "\"name\":\"" << json_escape(name_) << "\"";
   if (binary_ && !binary_->Empty()) {
     json << (name_.empty() ? "" : ",") << "\"data\":\"" <<
-        *binary_->data() << "\"";
+        json_escape(*binary_->data()) << "\"";
   }
   json << "}";
 
@@ -83,15 +83,15 @@ std::string Entry::ToJson() const {
   json << "{";
   json << "\"icon\":" << icon_;
   if (!title_->empty())
-    json << ",\"title\":\"" << *title_ << "\"";
+    json << ",\"title\":\"" << json_escape(*title_) << "\"";
   if (!url_->empty())
-    json << ",\"url\":\"" << *url_ << "\"";
+    json << ",\"url\":\"" << json_escape(*url_) << "\"";
   if (!username_->empty())
-    json << ",\"username\":\"" << *username_ << "\"";
+    json << ",\"username\":\"" << json_escape(*username_) << "\"";
   if (!password_->empty())
-    json << ",\"password\":\"" << *password_ << "\"";
+    json << ",\"password\":\"" << json_escape(*password_) << "\"";
   if (!notes_->empty())
-    json << ",\"notes\":\"" << *notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(*notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/group.cc b/src/group.cc
index fbf811f..8ac8976 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -59,9 +59,9 @@ std::string Group::ToJson() const {
   if (custom_icon_.lock())
     json << ",\"custom_icon\":\"" << true << "\"";
   if (!name_.empty())
-    json << ",\"name\":\"" << name_ << "\"";
+    json << ",\"name\":\"" << json_escape(name_) << "\"";
   if (!notes_.empty())
-    json << ",\"notes\":\"" << notes_ << "\"";
+    json << ",\"notes\":\"" << json_escape(notes_) << "\"";
   if (creation_time_ != 0)
     json << ",\"creation_time\":\"" << time_to_str(creation_time_) << "\"";
   if (modification_time_ != 0) {
diff --git a/src/util.cc b/src/util.cc
index bef09aa..38a2ed7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -35,6 +35,42 @@ std::string time_to_str(const std::time_t& time) {
   return buffer;
 }
 
+std::string json_escape(const std::string& str) {
+  static const char kHex[] = "0123456789abcdef";
+
+  std::string res;
+  res.reserve(str.size());
+  for (char c : str) {
+    switch (c) {
+      case '"':
+      case '\\':
+        res.push_back('\\');
+        res.push_back(c);
+        break;
+      case '\n':
+        res += "\\n";
+        break;
+      case '\r':
+        res += "\\r";
+        break;
+      case '\t':
+        res += "\\t";
+        break;
+      default:
+        if (static_cast<unsigned char>(c) < 0x20) {
+          res += "\\u00";
+          res.push_back(kHex[(c >> 4) & 0xf]);
+          res.push_back(kHex[c & 0xf]);
+        } else {
+          res.push_back(c);
+        }
+        break;
+    }
+  }
+
+  return res;
+}
+
 std::array<uint8_t, 16> generate_uuid() {
   std::random_device rd;
 
diff --git a/src/util.hh b/src/util.hh
index 1b7c629..87c3829 100644
--- a/src/util.hh
+++ b/src/util.hh
@@ -102,6 +102,13 @@ inline void dfs(const std::shared_ptr<T>& current,
  */
 std::string time_to_str(const std::time_t& time);
 
+/**
+ * Escapes a string for use inside a JSON string literal.
+ * @param [in] str String to escape.
+ * @return @a str with quotes, backslashes and control characters escaped.
+ */
+std::string json_escape(const std::string& str);
+
 std::array<uint8_t, 16> generate_uuid();
 
 }   // namespace keepass
-- 
2.43.0


From 39b313749a46f969f5c2b881c5de3b1cbebe3819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 31/38] fix: store KDB group flags as 32-bit values

---
 src/group.hh |  6 +++---
 src/kdb.cc   | 10 ++++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/group.hh b/src/group.hh
index 1a896bf..c78cb22 100644
--- a/src/group.hh
+++ b/src/group.hh
@@ -39,7 +39,7 @@ class Group final {
   std::time_t access_time_ = 0;
   std::time_t expiry_time_ = 0;
   std::time_t move_time_ = 0;
-  uint16_t flags_ = 0;
+  uint32_t flags_ = 0;
   bool expires_ = false;
   bool expanded_ = false;
   uint32_t usage_count_ = 0;
@@ -86,8 +86,8 @@ class Group final {
   std::time_t move_time() const { return move_time_; }
   void set_move_time(const std::time_t& time) { move_time_ = time; }
 
-  uint16_t flags() const { return flags_; }
-  void set_flags(const uint16_t& flags) { flags_ = flags; }
+  uint32_t flags() const { return flags_; }
+  void set_flags(const uint32_t& flags) { flags_ = flags; }
 
   bool expires() const { return expires_; }
   void set_expires(bool expires) { expires_ = expires; }
diff --git a/src/kdb.cc b/src/kdb.cc
index 16c18dd..9fa782a 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -157,7 +157,7 @@ enum class KdbGroupFieldType : uint16_t {
   kExpiryTime,          ///< 5 bytes.
   kIcon,                ///< 4 bytes.
   kLevel,               ///< 2 bytes.
-  kFlags,               ///< 2 bytes.
+  kFlags,               ///< 4 bytes.
   kEnd = 0xffff         ///< 0 bytes.
 };
 
@@ -229,7 +229,9 @@ std::shared_ptr<Group> KdbFile::ReadGroup(std::istream& src, uint32_t& id,
         level = consume<uint16_t>(field);
         break;
       case KdbGroupFieldType::kFlags:
-        group->set_flags(consume<uint16_t>(field));
+        // Older versions of this library wrote two bytes only.
+        group->set_flags(field_size == 2 ?
+            consume<uint16_t>(field) : consume<uint32_t>(field));
         break;
       case KdbGroupFieldType::kEnd:
         return group;
@@ -282,8 +284,8 @@ void KdbFile::WriteGroup(std::ostream& dst, std::shared_ptr<Group> group,
   conserve<uint16_t>(dst, level);
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kFlags));
-  conserve<uint32_t>(dst, 2);
-  conserve<uint16_t>(dst, group->flags());
+  conserve<uint32_t>(dst, 4);
+  conserve<uint32_t>(dst, group->flags());
 
   conserve<uint16_t>(dst, static_cast<uint16_t>(KdbGroupFieldType::kEnd));
   conserve<uint32_t>(dst, 0);
-- 
2.43.0


From 9b069c440824832c87e969db6daf1a6cec2452f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:12 +0000
Subject: [PATCH 32/38] fix: leave an existing file alone when an export is
 refused

The destination was truncated before it was known whether the database can be
stored in the format.
---
 src/kdb.cc  |  9 +++++----
 src/kdbx.cc | 15 ++++++++-------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/kdb.cc b/src/kdb.cc
index 9fa782a..9846a9c 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -670,10 +670,6 @@ void KdbFile::Export(const std::string& path, const Database& db,
   std::copy(db.master_seed().begin(), db.master_seed().end(),
             master_seed.begin());
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -767,6 +763,11 @@ void KdbFile::Export(const std::string& path, const Database& db,
   header.transform_seed = db.transform_seed();
   header.transform_rounds = db.transform_rounds();
 
+  // Don't touch the destination until it's known that the database can be stored.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
   conserve<KdbHeader>(dst, header);
 
   // Encrypt the content.
diff --git a/src/kdbx.cc b/src/kdbx.cc
index 2224993..e1f8d0d 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -1147,10 +1147,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
     throw InternalError("Master seed size exceeds KDBX maximum.");
   }
 
-  std::ofstream dst(path, std::ios::out | std::ios::binary);
-  if (!dst.is_open())
-    throw IoError("Unable to open database for writing.");
-
   // Produce the final key used for encrypting the contents.
   std::array<uint8_t, 32> transformed_key = key.Transform(
       db.transform_seed(), db.transform_rounds(),
@@ -1224,9 +1220,6 @@ void KdbxFile::Export(const std::string& path, const Database& db,
   SHA256_Update(&sha256, header_data.c_str(), header_data.size());
   SHA256_Final(header_hash_.data(), &sha256);
 
-  // Write header to file.
-  dst.write(header_data.data(), header_data.size());
-
   // Prepare deobfuscation stream.
   std::array<uint8_t, 32> final_inner_random_stream_key;
   SHA256_Init(&sha256);
@@ -1256,6 +1249,14 @@ void KdbxFile::Export(const std::string& path, const Database& db,
 
   hashed_stream.flush();
 
+  // Don't touch the destination until it's known that the database can be stored.
+  std::ofstream dst(path, std::ios::out | std::ios::binary);
+  if (!dst.is_open())
+    throw IoError("Unable to open database for writing.");
+
+  // Write header to file.
+  dst.write(header_data.data(), header_data.size());
+
   // Encrypt content.
   encrypt_cbc(content_stream, dst, *cipher);
 
-- 
2.43.0


From a82f298df88da401bd8917b8a7eae73171f89b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 33/38] fix: undo accepting Z_BUF_ERROR in the gzip writer

No output length makes zlib return it here, and when more is written after the
end of the stream it is the only sign that the data is lost.
---
 src/stream.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stream.cc b/src/stream.cc
index 844b307..9a2603a 100644
--- a/src/stream.cc
+++ b/src/stream.cc
@@ -220,8 +220,7 @@ bool gzip_ostreambuf::WriteOutput(bool flush) {
 
     int res = deflate(&z_stream_, flush ? Z_FINISH : Z_NO_FLUSH);
     assert(res != Z_STREAM_ERROR);
-    // Z_BUF_ERROR means that the output just fitted and nothing is left to do.
-    if (res < 0 && res != Z_BUF_ERROR)
+    if (res < 0)
       return false;
 
     std::size_t output_bytes = out.size() - z_stream_.avail_out;
-- 
2.43.0


From b1f51faf45f46bc65e09d61071313e429e1fa620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:38 +0000
Subject: [PATCH 34/38] fix: write JSON numbers independently of the global
 locale

---
 src/entry.cc | 2 ++
 src/group.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/entry.cc b/src/entry.cc
index c290e9e..c4e2d62 100644
--- a/src/entry.cc
+++ b/src/entry.cc
@@ -18,6 +18,7 @@
 
 #include "entry.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -79,6 +80,7 @@ std::string Entry::Attachment::ToJson() const {
 
 std::string Entry::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
diff --git a/src/group.cc b/src/group.cc
index 8ac8976..c19e1fb 100644
--- a/src/group.cc
+++ b/src/group.cc
@@ -18,6 +18,7 @@
 
 #include "group.hh"
 
+#include <locale>
 #include <sstream>
 
 #include "util.hh"
@@ -53,6 +54,7 @@ bool Group::HasNonMetaEntries() const {
 
 std::string Group::ToJson() const {
   std::stringstream json;
+  json.imbue(std::locale::classic());
 
   json << "{";
   json << "\"icon\":" << icon_;
-- 
2.43.0


From 2a43ad2553b36c4b6a0724fab4babafd88d94b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:56 +0000
Subject: [PATCH 35/38] fix: look up pooled attachments by identity when
 writing KDBX

Searching the whole binary pool for every attachment took time quadratic
in the number of attachments (16000 of them: 15 s).
---
 src/kdbx.cc | 20 +++++++-------------
 src/kdbx.hh |  2 ++
 2 files changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index e1f8d0d..5af97b2 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -121,6 +121,7 @@ static const char* WriteBool(bool val) {
 
 void KdbxFile::Reset() {
   binary_pool_.clear();
+  binary_ids_.clear();
   icon_pool_.clear();
   group_pool_.clear();
   pending_group_pool_.clear();
@@ -472,7 +473,7 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 
     WriteBinary(bin_node, *binary, obfuscator);
 
-    binary_pool_.insert(std::make_pair(std::to_string(binary_id), binary));
+    binary_ids_.insert(std::make_pair(binary.get(), std::to_string(binary_id)));
 
     ++binary_id;
   }
@@ -704,18 +705,11 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
     pugi::xml_node bin_node = entry_node.append_child("Binary");
     bin_node.append_child("Key").text().set(attachment->name().c_str());
 
-    bool found_in_pool = false;
-    for (auto it : binary_pool_) {
-      if (it.second == attachment->binary()) {
-        bin_node.append_child("Value").append_attribute("Ref").set_value(
-            it.first.c_str());
-        found_in_pool = true;
-        break;
-      }
-    }
-
-    if (!found_in_pool) {
-      pugi::xml_node val_node = bin_node.append_child("Value");
+    pugi::xml_node val_node = bin_node.append_child("Value");
+    auto it = binary_ids_.find(attachment->binary().get());
+    if (it != binary_ids_.end()) {
+      val_node.append_attribute("Ref").set_value(it->second.c_str());
+    } else {
       if (attachment->binary())
         WriteBinary(val_node, *attachment->binary(), obfuscator);
     }
diff --git a/src/kdbx.hh b/src/kdbx.hh
index 3c09639..a3d5354 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -54,6 +54,8 @@ class KdbxFile final {
 
  private:
   BinaryPool binary_pool_;
+  // Identifiers of the written binaries.
+  std::unordered_map<const Binary*, std::string> binary_ids_;
   IconPool icon_pool_;
   GroupPool group_pool_;
   // Groups that have been referred to but not parsed yet.
-- 
2.43.0


From be7d3d62aa79bf28982665493f9d34977db5a5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:42 +0000
Subject: [PATCH 36/38] fix: unmask protected KDBX values in document order

The values were unmasked in the order they were parsed in. Files whose
elements come in another order (fields behind attachments or the history,
groups before entries, protected values in unknown elements) were read
with garbled passwords.
---
 src/kdbx.cc | 56 +++++++++++++++++++++++++++++++++--------------------
 src/kdbx.hh | 12 +++---------
 2 files changed, 38 insertions(+), 30 deletions(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index 5af97b2..b640333 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -185,15 +185,14 @@ std::string KdbxFile::WriteDateTime(std::time_t time) const {
 
 protect<std::string> KdbxFile::ParseProtectedString(
     const pugi::xml_node& node,
-    const char* name,
-    RandomObfuscator& obfuscator) const {
+    const char* name) const {
   pugi::xml_node val_node = node.child(name);
   if (val_node) {
     bool prot = val_node.attribute("Protected").as_bool();
     if (prot) {
       std::string val = base64_decode(val_node.text().as_string());
       if (!val.empty())
-        return protect<std::string>(obfuscator.Process(val), true);
+        return protect<std::string>(val, true);
     }
 
     return protect<std::string>(
@@ -216,14 +215,13 @@ void KdbxFile::WriteProtectedString(pugi::xml_node& node,
 }
 
 std::shared_ptr<Binary> KdbxFile::ParseBinary(
-    const pugi::xml_node& node,
-    RandomObfuscator& obfuscator) const {
+    const pugi::xml_node& node) const {
   protect<std::string> data;
 
   bool compressed = false;
   if (node.attribute("Protected").as_bool()) {
-    data = protect<std::string>(obfuscator.Process(
-        base64_decode(node.text().as_string())), true);
+    data = protect<std::string>(
+        base64_decode(node.text().as_string()), true);
   } else {
     if (node.attribute("Compressed").as_bool()) {
       compressed = true;
@@ -273,8 +271,8 @@ void KdbxFile::WriteBinary(pugi::xml_node& node, const Binary& binary,
   }
 }
 
-std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
-                                              RandomObfuscator& obfuscator) {
+std::shared_ptr<Metadata> KdbxFile::ParseMeta(
+    const pugi::xml_node& meta_node) {
   std::shared_ptr<Metadata> meta = std::make_shared<Metadata>();
 
   // Parse header hash and store in member for checking later.
@@ -359,7 +357,7 @@ std::shared_ptr<Metadata> KdbxFile::ParseMeta(const pugi::xml_node& meta_node,
         bin_node = bin_node.next_sibling("Binary")) {
       std::string id = bin_node.attribute("ID").value();
 
-      std::shared_ptr<Binary> binary = ParseBinary(bin_node, obfuscator);
+      std::shared_ptr<Binary> binary = ParseBinary(bin_node);
       meta->AddBinary(binary);
 
       binary_pool_.insert(std::make_pair(id, binary));
@@ -489,7 +487,6 @@ void KdbxFile::WriteMeta(pugi::xml_node& meta_node,
 std::shared_ptr<Entry> KdbxFile::ParseEntry(
     const pugi::xml_node& entry_node,
     std::array<uint8_t, 16>& entry_uuid,
-    RandomObfuscator& obfuscator,
     std::size_t level) {
   if (level > kKdbxMaxLevel)
     throw FormatError("Too deeply nested entry in KDBX.");
@@ -551,8 +548,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
   for (pugi::xml_node str_node = entry_node.child("String"); str_node;
       str_node = str_node.next_sibling("String")) {
     std::string key = str_node.child_value("Key");
-    protect<std::string> val = ParseProtectedString(
-        str_node, "Value", obfuscator);
+    protect<std::string> val = ParseProtectedString(str_node, "Value");
 
     if (key == "Title") {
       entry->set_title(val);
@@ -587,7 +583,7 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
 
         binary = it->second;
       } else {
-        binary = ParseBinary(val_node, obfuscator);
+        binary = ParseBinary(val_node);
       }
     }
 
@@ -607,7 +603,6 @@ std::shared_ptr<Entry> KdbxFile::ParseEntry(
       std::array<uint8_t, 16> subentry_uuid = { 0 };
       entry->AddHistoryEntry(ParseEntry(subentry_node,
                                         subentry_uuid,
-                                        obfuscator,
                                         level + 1));
     }
   }
@@ -725,7 +720,6 @@ void KdbxFile::WriteEntry(pugi::xml_node& entry_node,
 
 std::shared_ptr<Group> KdbxFile::ParseGroup(
     const pugi::xml_node& group_node,
-    RandomObfuscator& obfuscator,
     std::size_t level) {
   if (level > kKdbxMaxLevel)
     throw FormatError("Too deeply nested group in KDBX.");
@@ -787,8 +781,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
   for (pugi::xml_node entry_node = group_node.child("Entry"); entry_node;
       entry_node = entry_node.next_sibling("Entry")) {
     std::array<uint8_t, 16> entry_uuid = { 0 };
-    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid,
-                                              obfuscator, 0);
+    std::shared_ptr<Entry> entry = ParseEntry(entry_node, entry_uuid, 0);
     group->AddEntry(entry);
 
     if (visible_node && entry_uuid == visible_uuid) {
@@ -798,7 +791,7 @@ std::shared_ptr<Group> KdbxFile::ParseGroup(
 
   for (pugi::xml_node subgroup_node = group_node.child("Group"); subgroup_node;
       subgroup_node = subgroup_node.next_sibling("Group")) {
-    group->AddGroup(ParseGroup(subgroup_node, obfuscator, level + 1));
+    group->AddGroup(ParseGroup(subgroup_node, level + 1));
   }
 
   return group;
@@ -866,6 +859,27 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!doc.load(src, pugi::parse_default | pugi::parse_trim_pcdata))
     throw FormatError("Malformed XML in KDBX.");
 
+  // Protected values are masked by one stream in the order of the document,
+  // whatever order its elements come in, so unmask them before parsing.
+  struct Unmasker : pugi::xml_tree_walker {
+    RandomObfuscator& obfuscator;
+
+    explicit Unmasker(RandomObfuscator& obfuscator) :
+        obfuscator(obfuscator) {}
+
+    virtual bool for_each(pugi::xml_node& node) override {
+      if (node.attribute("Protected").as_bool()) {
+        std::string val = base64_decode(node.text().as_string());
+        if (!val.empty())
+          node.text().set(base64_encode(obfuscator.Process(val)).c_str());
+      }
+      return true;
+    }
+  };
+
+  Unmasker unmasker(obfuscator);
+  doc.traverse(unmasker);
+
   pugi::xml_node kpf_node = doc.child("KeePassFile");
   if (!kpf_node)
     throw FormatError("No \"KeePassFile\" element in KDBX XML.");
@@ -878,8 +892,8 @@ void KdbxFile::ParseXml(std::istream& src,
   if (!group_node)
     throw FormatError("No \"Root\" or \"Group\" element in KDBX XML.");
 
-  std::shared_ptr<Metadata> meta = ParseMeta(meta_node, obfuscator);
-  std::shared_ptr<Group> root = ParseGroup(group_node, obfuscator, 0);
+  std::shared_ptr<Metadata> meta = ParseMeta(meta_node);
+  std::shared_ptr<Group> root = ParseGroup(group_node, 0);
 
   db.set_meta(meta);
   db.set_root(root);
diff --git a/src/kdbx.hh b/src/kdbx.hh
index a3d5354..a75885d 100644
--- a/src/kdbx.hh
+++ b/src/kdbx.hh
@@ -71,19 +71,16 @@ class KdbxFile final {
 
   protect<std::string> ParseProtectedString(
       const pugi::xml_node& node,
-      const char* name,
-      RandomObfuscator& obfuscator) const;
+      const char* name) const;
   void WriteProtectedString(pugi::xml_node& node,
                             const protect<std::string>& str,
                             RandomObfuscator& obfuscator) const;
 
-  std::shared_ptr<Binary> ParseBinary(const pugi::xml_node& node,
-                                      RandomObfuscator& obfuscator) const;
+  std::shared_ptr<Binary> ParseBinary(const pugi::xml_node& node) const;
   void WriteBinary(pugi::xml_node& node, const Binary& binary,
                    RandomObfuscator& obfuscator) const;
 
-  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node,
-                                      RandomObfuscator& obfuscator);
+  std::shared_ptr<Metadata> ParseMeta(const pugi::xml_node& meta_node);
   void WriteMeta(pugi::xml_node& meta_node, RandomObfuscator& obfuscator,
                  std::shared_ptr<Metadata> meta);
 
@@ -91,13 +88,11 @@ class KdbxFile final {
    * Parses a an entry in the XML tree.
    * @param [in] entry_node Entry XML node.
    * @param [out] entry_uuid Entry UUID.
-   * @param [in] obfuscator Random stream obfuscator.
    * @param [in] level Nesting level of the entry.
    * @return Pointer to entry object.
    */
   std::shared_ptr<Entry> ParseEntry(const pugi::xml_node& entry_node,
                                     std::array<uint8_t, 16>& entry_uuid,
-                                    RandomObfuscator& obfuscator,
                                     std::size_t level);
   void WriteEntry(pugi::xml_node& entry_node,
                   RandomObfuscator& obfuscator,
@@ -105,7 +100,6 @@ class KdbxFile final {
                   std::size_t level);
 
   std::shared_ptr<Group> ParseGroup(const pugi::xml_node& group_node,
-                                    RandomObfuscator& obfuscator,
                                     std::size_t level);
   void WriteGroup(pugi::xml_node& group_node,
                   RandomObfuscator& obfuscator,
-- 
2.43.0


From 412c15b9544ec972942fea46821c85aa18d43318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:33 +0000
Subject: [PATCH 37/38] fix: accept comment fields in the KDBX header

---
 src/kdbx.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kdbx.cc b/src/kdbx.cc
index b640333..f6b901f 100644
--- a/src/kdbx.cc
+++ b/src/kdbx.cc
@@ -89,7 +89,7 @@ static_assert(sizeof(KdbxHeader) == 12,
 struct KdbxHeaderField {
   enum Id : uint8_t {
     kEndOfHeader = 0,
-    //kComment = 1,
+    kComment = 1,
     kCipherId = 2,
     kCompressionFlags = 3,
     kMasterSeed = 4,
@@ -1006,6 +1006,9 @@ std::unique_ptr<Database> KdbxFile::Import(const std::string& path,
       case KdbxHeaderField::kEndOfHeader:
         done = true;
         break;
+      case KdbxHeaderField::kComment:
+        // Comments carry no information needed for reading the database.
+        break;
       case KdbxHeaderField::kCipherId:
         if (consume<std::array<uint8_t, 16>>(field) != kKdbxCipherAes)
           throw FormatError("Unknown cipher in KDBX.");
-- 
2.43.0


From cc657a297239edaed6b9a843167eb960b40ff7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:33 +0000
Subject: [PATCH 38/38] fix: refuse KDB export of round counts beyond 32 bits

---
 src/kdb.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kdb.cc b/src/kdb.cc
index 9846a9c..6a98fc7 100644
--- a/src/kdb.cc
+++ b/src/kdb.cc
@@ -663,6 +663,10 @@ void KdbFile::Export(const std::string& path, const Database& db,
   // Extract database values in compatible formats.
   if (db.master_seed().size() != 16)
     throw InternalError("Illegal master seed size for KDB.");
+  if (db.transform_rounds() >
+      std::numeric_limits<decltype(KdbHeader::transform_rounds)>::max()) {
+    throw InternalError("Transform rounds exceed KDB maximum.");
+  }
   if (!db.root())
     throw InternalError("Database has no root group.");
 
-- 
2.43.0

