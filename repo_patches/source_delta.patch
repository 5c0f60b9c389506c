From a9f7f77d22e5c7f744a83c4fcbc3b04464d85abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 01/59] fix: reject characters that are not hex digits when
 decoding hex

---
 src/maidsafe/common/encode.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 9667dc5..698ca16 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -39,6 +39,13 @@ namespace hex {
 
 namespace {
 
+unsigned char DecodeDigit(char digit) {
+  const auto index(static_cast<unsigned char>(digit));
+  if (index >= sizeof(detail::lookup) || (detail::lookup[index] == 0 && digit != '0'))
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
+  return detail::lookup[index];
+}
+
 template <typename T>
 T Decode(const std::string& hex_input) {
   auto size(hex_input.size());
@@ -47,8 +54,8 @@ T Decode(const std::string& hex_input) {
 
   T non_hex_output(size / 2, 0);
   for (size_t i(0), j(0); i != size / 2; ++i) {
-    non_hex_output[i] = (detail::lookup[static_cast<int>(hex_input[j++])] << 4);
-    non_hex_output[i] |= detail::lookup[static_cast<int>(hex_input[j++])];
+    non_hex_output[i] = (DecodeDigit(hex_input[j++]) << 4);
+    non_hex_output[i] |= DecodeDigit(hex_input[j++]);
   }
   return non_hex_output;
 }
-- 
2.43.0


From 35163ac95f3f56862bc7f4a186ce80f719e1afb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:24 +0000
Subject: [PATCH 02/59] fix: reject base64 input with a pad character followed
 by data

---
 src/maidsafe/common/encode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/encode.cc b/src/maidsafe/common/encode.cc
index 698ca16..3f0d17f 100644
--- a/src/maidsafe/common/encode.cc
+++ b/src/maidsafe/common/encode.cc
@@ -115,6 +115,8 @@ T Decode(const std::string& base64_input) {
             decoded_bytes.push_back((temp >> 8) & 0x000000FF);
             return decoded_bytes;
           case 2:  // Two pad characters
+            if (*(cursor + 1) != detail::pad_character)
+              BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_conversion));
             decoded_bytes.push_back((temp >> 10) & 0x000000FF);
             return decoded_bytes;
           default:
-- 
2.43.0


From 0b3904ee564e3a07b083e61a419a821624f37be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:13 +0000
Subject: [PATCH 03/59] fix: count the remaining bytes once in the SipHash
 length

---
 src/maidsafe/common/hash/algorithms/siphash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/hash/algorithms/siphash.cc b/src/maidsafe/common/hash/algorithms/siphash.cc
index 9bba844..e139092 100644
--- a/src/maidsafe/common/hash/algorithms/siphash.cc
+++ b/src/maidsafe/common/hash/algorithms/siphash.cc
@@ -104,7 +104,7 @@ std::uint64_t FinalizeInternal(std::uint64_t v0, std::uint64_t v1, std::uint64_t
   //
   // Compress remainder bytes
   //
-  std::uint64_t b = (static_cast<std::uint64_t>(b_in + inlen)) << 56;
+  std::uint64_t b = (static_cast<std::uint64_t>(b_in)) << 56;
 
   switch (inlen & 7) {
     case 7:
-- 
2.43.0


From e6ff034a5b2ec801c7eb472a722a7ab46847f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 04/59] fix: reject binary-encoded identities of the wrong size

---
 src/maidsafe/common/identity.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/identity.cc b/src/maidsafe/common/identity.cc
index 5c3d81c..8a82582 100644
--- a/src/maidsafe/common/identity.cc
+++ b/src/maidsafe/common/identity.cc
@@ -96,6 +96,8 @@ std::string Encode(const Identity& id) { return Encode(id.string()); }
 
 Identity MakeIdentity(const binary::String& id) {
   try {
+    if (id->size() != identity_size * 8)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::outside_of_bounds));
     std::vector<byte> raw_id(identity_size, 0);
     for (size_t i = 0; i < identity_size; ++i) {
       std::bitset<8> temp(id->substr(i * 8, 8));
-- 
2.43.0


From a8622b1da5ec0a7a517f2d53a3be4b0b5380c1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:07 +0000
Subject: [PATCH 05/59] fix: leave a moved-from BoundedString uninitialised

---
 include/maidsafe/common/bounded_string.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/bounded_string.h b/include/maidsafe/common/bounded_string.h
index fdd25d0..f29a0bc 100644
--- a/include/maidsafe/common/bounded_string.h
+++ b/include/maidsafe/common/bounded_string.h
@@ -130,13 +130,16 @@ class BoundedString {
 
   BoundedString(BoundedString&& other) MAIDSAFE_NOEXCEPT
       : string_(std::move(other.string_)),
-        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {}
+        valid_(std::move(other.valid_)) INIT_DEBUG_STRING {
+    other.valid_ = false;
+  }
 
   BoundedString& operator=(const BoundedString&) = default;
 
   BoundedString& operator=(BoundedString&& other) MAIDSAFE_NOEXCEPT {
     string_ = std::move(other.string_);
     valid_ = std::move(other.valid_);
+    other.valid_ = false;
 #ifndef NDEBUG
     debug_string_ = std::move(other.debug_string_);
 #endif
-- 
2.43.0


From 7d69979790f0b7aa34809f7a446793eb993ee612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 06/59] fix: adding to an LRU cache of capacity 0 stores
 nothing

---
 include/maidsafe/common/containers/lru_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/containers/lru_cache.h b/include/maidsafe/common/containers/lru_cache.h
index 92fed95..8d166d7 100644
--- a/include/maidsafe/common/containers/lru_cache.h
+++ b/include/maidsafe/common/containers/lru_cache.h
@@ -98,7 +98,7 @@ class LruCacheBase {
   using Storage = typename StorageType<KeyType, T>::type;
 
   typename KeyOrder<KeyType>::iterator PrepareToAdd(const KeyType& key) {
-    if (storage_.find(key) != storage_.end())
+    if (capacity_ == 0 || storage_.find(key) != storage_.end())
       return std::end(key_order_);
     // Check if we should evict any entries because of size
     if (storage_.size() == capacity_)
-- 
2.43.0


From d0a7300227270a4acadc106f6688eb0be1fa815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 07/59] fix: reset the parents of orphans when swapping
 StructuredDataVersions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 4b3c0a2..86e3d3b 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -757,11 +757,11 @@ void swap(StructuredDataVersions& lhs, StructuredDataVersions& rhs) MAIDSAFE_NOE
   swap(lhs.orphans_, rhs.orphans_);
   for (const auto& lhs_orphans : lhs.orphans_) {
     for (auto lhs_orphan : lhs_orphans.second)
-      lhs_orphan->second->parent == std::end(lhs.versions_);
+      lhs_orphan->second->parent = std::end(lhs.versions_);
   }
   for (const auto& rhs_orphans : rhs.orphans_) {
     for (auto rhs_orphan : rhs_orphans.second)
-      rhs_orphan->second->parent == std::end(rhs.versions_);
+      rhs_orphan->second->parent = std::end(rhs.versions_);
   }
 }
 
-- 
2.43.0


From 458f8146a99879d742174f54f36f0131c286140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 08/59] fix: reject circular chains of one and two versions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 86e3d3b..1e4ba4f 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -314,6 +314,10 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   if (NewVersionPreExists(old_version, new_version))
     return boost::none;
 
+  // Check the new version isn't its own parent.
+  if (old_version == new_version)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+
   // Check we've not been asked to store two roots.
   bool is_root(!old_version.id.IsInitialised() || versions_.empty() || new_version.index == 0);
   if (is_root && root_.second != std::end(versions_) && !RootParentName().id.IsInitialised())
@@ -426,6 +430,8 @@ std::future<void> StructuredDataVersions::CheckVersionNotInBranch(
     VersionsItr itr, const VersionName& version) const {
   return std::async([this, itr, &version]() {
     VersionsItr versions_itr(itr);
+    if (versions_itr != std::end(versions_) && versions_itr->first == version)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
     while (versions_itr != std::end(versions_)) {
       auto child_itr(std::begin(versions_itr->second->children));
       if (child_itr == std::end(versions_itr->second->children))
-- 
2.43.0


From a02fe9576ee9204aca74f3f59fdc7f73102e0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 09/59] fix: adding a root when at the limit of branches

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 1e4ba4f..3c5d04e 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -350,7 +350,8 @@ boost::optional<StructuredDataVersions::VersionName> StructuredDataVersions::Put
   }
 
   // Handle case where we're about to exceed 'max_branches_'.
-  CheckBranchCount(version, is_orphan, unorphan_count, erase_existing_root);
+  CheckBranchCount(version, is_orphan, unorphan_count + (unorphans_existing_root ? 1 : 0),
+                   erase_existing_root);
 
   // Finally, safe to now add details
   return Insert(version, is_root, is_orphan, old_version, unorphans_existing_root, unorphan_count,
@@ -452,6 +453,9 @@ void StructuredDataVersions::CheckBranchCount(const Version& version, bool is_or
                                               size_t unorphaned_count,
                                               bool& erase_existing_root) const {
   if (AtBranchesLimit() && unorphaned_count == 0) {
+    // A new root can only be added if it doesn't start a new branch
+    if (!is_orphan && version.second->parent == std::end(versions_))
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
     if (is_orphan || !version.second->parent->second->children.empty()) {
       // We're going to exceed limit - see if deleting 'root_' helps
       bool root_is_tip_of_tree(root_.second != std::end(versions_) &&
-- 
2.43.0


From 81c24e19a1ec7c9f35a03cda5ce80215a5ecb53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 10/59] fix: applying serialised versions to an empty
 StructuredDataVersions

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 3c5d04e..2cdb31c 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -281,7 +281,8 @@ void StructuredDataVersions::BranchToCereal(
 
 void StructuredDataVersions::ApplySerialised(const serialised_type& serialised_data_versions) {
   StructuredDataVersions new_info(serialised_data_versions);
-  ApplyBranch(root_.first, root_.second, new_info);
+  if (root_.second != std::end(versions_))
+    ApplyBranch(root_.first, root_.second, new_info);
   for (const auto& orphan_set : orphans_) {
     for (const auto& orphan : orphan_set.second)
       ApplyBranch(orphan_set.first, orphan, new_info);
-- 
2.43.0


From 72c189ef5bbaf92179cecd253530059834e0f58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 11/59] fix: reject serialised branches without a version

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 2cdb31c..20b848c 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -180,6 +180,8 @@ void StructuredDataVersions::BranchFromCereal(
 
   // Handle first version in branch
   auto& serialised_branch(serialised_versions.branches[serialised_branch_index]);
+  if (serialised_branch.names.empty())
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
   auto forking_child_count(serialised_branch.names.front().forking_child_count);
   auto itr(HandleFirstVersionInBranchFromCereal(parent_itr, serialised_branch));
 
-- 
2.43.0


From f323f63481d338b657272ba97a47d595e77e33ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:25 +0000
Subject: [PATCH 12/59] fix: replace the root by the orphan with the lowest
 version name

---
 src/maidsafe/common/data_types/structured_data_versions.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/maidsafe/common/data_types/structured_data_versions.cc b/src/maidsafe/common/data_types/structured_data_versions.cc
index 20b848c..6dbc104 100644
--- a/src/maidsafe/common/data_types/structured_data_versions.cc
+++ b/src/maidsafe/common/data_types/structured_data_versions.cc
@@ -571,8 +571,13 @@ void StructuredDataVersions::ReplaceRoot() {
 
 void StructuredDataVersions::ReplaceRootFromOrphans() {
   assert(!orphans_.empty());
+  // Choose the orphan with the lowest VersionName
   OrphanItr orphan_itr(
       std::make_pair(std::begin(orphans_), std::begin(std::begin(orphans_)->second)));
+  for (auto itr(std::begin(orphans_)); itr != std::end(orphans_); ++itr) {
+    if ((*std::begin(itr->second))->first < (*orphan_itr.second)->first)
+      orphan_itr = std::make_pair(itr, std::begin(itr->second));
+  }
   versions_.erase(root_.second);
   root_.first = orphan_itr.first->first;
   root_.second = *orphan_itr.second;
-- 
2.43.0


From 8489ab45b75df80c78aeb8c5c2112564a83c443e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:05 +0000
Subject: [PATCH 13/59] fix: hash only the value bytes of long doubles

---
 include/maidsafe/common/hash/hash_numeric.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/maidsafe/common/hash/hash_numeric.h b/include/maidsafe/common/hash/hash_numeric.h
index 882c69c..ac35784 100644
--- a/include/maidsafe/common/hash/hash_numeric.h
+++ b/include/maidsafe/common/hash/hash_numeric.h
@@ -19,6 +19,9 @@
 #ifndef MAIDSAFE_COMMON_HASH_HASH_NUMERIC_H_
 #define MAIDSAFE_COMMON_HASH_HASH_NUMERIC_H_
 
+#include <array>
+#include <cstring>
+#include <limits>
 #include <type_traits>
 
 #include "maidsafe/common/hash/hash_contiguous.h"
@@ -48,7 +51,11 @@ typename std::enable_if<std::is_floating_point<FloatType>::value>::type HashAppe
 #pragma GCC diagnostic pop
 #endif
 
-  hash.Update(reinterpret_cast<const byte*>(&value), sizeof(value));
+  // An x87 extended precision value has 10 bytes, the rest is padding of unspecified value
+  const std::size_t value_size(std::numeric_limits<FloatType>::digits == 64 ? 10 : sizeof(value));
+  std::array<byte, sizeof(value)> bytes = {{}};
+  std::memcpy(bytes.data(), &value, value_size);
+  hash.Update(bytes.data(), bytes.size());
 }
 
 }  // namespace maidsafe
-- 
2.43.0


From 01fb28b7fe6e6c7ca0e0f2b1c4de346786f386b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 14/59] fix: reset data objects when parsing fails

---
 include/maidsafe/common/data_types/immutable_data.h | 1 +
 include/maidsafe/common/data_types/mutable_data.h   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/maidsafe/common/data_types/immutable_data.h b/include/maidsafe/common/data_types/immutable_data.h
index aff9eaa..327e4d6 100644
--- a/include/maidsafe/common/data_types/immutable_data.h
+++ b/include/maidsafe/common/data_types/immutable_data.h
@@ -59,6 +59,7 @@ class ImmutableData : public Data {
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing ImmutableData: " << boost::diagnostic_information(e);
+      *this = ImmutableData();  // never leave a name which doesn't belong to the value
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
     }
     return archive;
diff --git a/include/maidsafe/common/data_types/mutable_data.h b/include/maidsafe/common/data_types/mutable_data.h
index ba1a1dc..e60dd5c 100644
--- a/include/maidsafe/common/data_types/mutable_data.h
+++ b/include/maidsafe/common/data_types/mutable_data.h
@@ -58,6 +58,7 @@ class MutableData : public Data {
         BOOST_THROW_EXCEPTION(MakeError(CommonErrors::uninitialised));
     } catch (const std::exception& e) {
       LOG(kWarning) << "Error parsing MutableData: " << boost::diagnostic_information(e);
+      *this = MutableData();  // never leave a name which doesn't belong to the value
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
     }
     return archive;
-- 
2.43.0


From 8fb47db57649948e44edd84afd493884964eeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:56 +0000
Subject: [PATCH 15/59] fix: reject malformed version strings

---
 src/maidsafe/common/utils.cc | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index dd98c7d..8bcf082 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -212,23 +212,31 @@ asio::ip::address GetLocalIp(asio::ip::udp::endpoint peer_endpoint) {
 }
 
 int VersionToInt(const std::string& version) {
-  boost::tokenizer<boost::char_separator<char>> tokens(version, boost::char_separator<char>("."));
+  boost::char_separator<char> separator(".", "", boost::keep_empty_tokens);
+  boost::tokenizer<boost::char_separator<char>> tokens(version, separator);
   if (std::distance(tokens.begin(), tokens.end()) != 3)
     return kInvalidVersion;
 
+  for (const std::string& token : tokens) {
+    if (token.empty() || token.find_first_not_of("0123456789") != std::string::npos) {
+      LOG(kWarning) << "Invalid version " << version;
+      return kInvalidVersion;
+    }
+  }
+
   auto itr(tokens.begin());
 
-  int16_t major_version(0), minor_version(0), patch_level(0);
+  int major_version(0), minor_version(0), patch_level(0);
   try {
-    major_version = static_cast<int16_t>(std::stoi(*(itr++)));
+    major_version = std::stoi(*(itr++));
 
-    minor_version = static_cast<int16_t>(std::stoi(*itr));
+    minor_version = std::stoi(*itr);
     if ((*itr++).size() != 1U) {
       LOG(kWarning) << "Invalid minor version " << version;
       return kInvalidVersion;
     }
 
-    patch_level = static_cast<int16_t>(std::stoi(*itr));
+    patch_level = std::stoi(*itr);
     if ((*itr++).size() != 3U) {
       LOG(kWarning) << "Invalid patch level " << version;
       return kInvalidVersion;
@@ -238,12 +246,13 @@ int VersionToInt(const std::string& version) {
     return kInvalidVersion;
   }
 
-  if (major_version < 0 || minor_version < 0 || patch_level < 0) {
+  const int minor_and_patch((minor_version * 1000) + patch_level);
+  if (major_version > (std::numeric_limits<int>::max() - minor_and_patch) / 10000) {
     LOG(kWarning) << "Invalid version " << version;
     return kInvalidVersion;
   }
 
-  return (major_version * 10000) + (minor_version * 1000) + patch_level;
+  return (major_version * 10000) + minor_and_patch;
 }
 
 std::string BytesToDecimalSiUnits(uint64_t num) { return BytesToSiUnits<DecimalUnit>(num); }
-- 
2.43.0


From abfc2379e84721b335d4849b7645160f7368118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:38 +0000
Subject: [PATCH 16/59] fix: report incomplete reads and writes of files

---
 src/maidsafe/common/utils.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 8bcf082..b01bc81 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -324,8 +324,11 @@ boost::expected<std::vector<byte>, common_error> ReadFile(const fs::path& file_p
 
     std::ifstream file_in(file_path.c_str(), std::ios::in | std::ios::binary);
     file_in.read(reinterpret_cast<char*>(&file_content[0]), file_size);
-    file_in.close();
-    return file_content;
+    if (file_in.good()) {
+      file_in.close();
+      return file_content;
+    }
+    LOG(kError) << "Failed to read all of file " << file_path;
   }
   catch (const std::exception& e) {
     LOG(kError) << "Failed to read file " << file_path << ": " << e.what();
@@ -347,6 +350,10 @@ bool WriteFile(const boost::filesystem::path& file_path, const std::vector<byte>
     }
     file_out.write(reinterpret_cast<const char*>(content.data()), content.size());
     file_out.close();
+    if (!file_out.good()) {
+      LOG(kError) << "Failed to write all of file " << file_path;
+      return false;
+    }
   } catch (const std::exception& e) {
     LOG(kError) << "Failed to write file " << file_path << ": " << boost::diagnostic_information(e);
     return false;
-- 
2.43.0


From 32cb53b072b60fc204cf000c64bc2857d08ab6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 17/59] fix: reject malformed file names of data

---
 src/maidsafe/common/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index b01bc81..21e0df6 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -186,7 +186,10 @@ Data::NameAndTypeId GetDataNameAndTypeId(const boost::filesystem::path& file_nam
   size_t index(file_name_str.rfind('_'));
   auto type_id(static_cast<DataTypeId>(std::stoul(file_name_str.substr(index + 1))));
   Identity name(hex::DecodeToBytes(file_name_str.substr(0, index)));
-  return Data::NameAndTypeId(std::move(name), type_id);
+  Data::NameAndTypeId name_and_type_id(std::move(name), type_id);
+  if (GetFileName(name_and_type_id).string() != file_name_str)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::parsing_error));
+  return name_and_type_id;
 }
 
 }  // namespace detail
-- 
2.43.0


From dcd408dfac3bd3f88823c34c2341d5fb351f3aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:16 +0000
Subject: [PATCH 18/59] fix: show a menu which has no items

---
 src/maidsafe/common/menu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index c531e8e..d4c37a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -46,7 +46,7 @@ int Menu::Run() {
       if (clear_cli) {
         cli_.Clear();
         clear_cli = false;
-        if (current_item_->HasNoChildren())
+        if (current_item_->HasNoChildren() && current_item_->kParent_)
           current_item_ = current_item_->kParent_;
         ShowOptions();
       }
-- 
2.43.0


From a71802848a4d67feba34a4214d7799916424edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:16 +0000
Subject: [PATCH 19/59] fix: leave the menu at the end of input

---
 src/maidsafe/common/menu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/menu.cc b/src/maidsafe/common/menu.cc
index d4c37a3..2ce10a3 100644
--- a/src/maidsafe/common/menu.cc
+++ b/src/maidsafe/common/menu.cc
@@ -60,6 +60,8 @@ int Menu::Run() {
           current_item_ = current_item_->Child(result - 1);
         }
       } catch (const std::exception&) {
+        if (!std::cin)
+          throw;
         TLOG(kYellow) << "Invalid choice\n";
         continue;
       }
-- 
2.43.0


From 0d801b88477a38e615981c712bf1acb174e336ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:38 +0000
Subject: [PATCH 20/59] fix: keep an executable's name which is already quoted

---
 src/maidsafe/common/process.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/process.cc b/src/maidsafe/common/process.cc
index 5f234f4..35f4bb6 100644
--- a/src/maidsafe/common/process.cc
+++ b/src/maidsafe/common/process.cc
@@ -40,8 +40,10 @@ std::string ConcatenateArgs(const std::vector<std::string>& args) {
   if (!args.empty()) {
     // Wrap the first arg (which is the path to the exe) in quotes if it isn't already, in case it
     // contains spaces.
-    if (args[0].front() != '"')
+    if (args[0].empty() || args[0].front() != '"')
       result = '"' + args[0] + "\" ";
+    else
+      result = args[0] + " ";
 
     result += std::accumulate(std::begin(args) + 1, std::end(args), std::string(""),
                               [](const std::string& lhs, const std::string& rhs) {
-- 
2.43.0


From d5eabbf9be08fafdba6305b42bcd5f9ee1faea08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:18 +0000
Subject: [PATCH 21/59] fix: handle failing and over-long answers for the
 executable's path

---
 src/maidsafe/common/config.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 640d45b..115346c 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -72,8 +72,8 @@ void SetThisExecutablePath(const char* const argv[]) {
 #endif
 #ifdef __linux__
     char buffer[PATH_MAX];
-    size_t len = 0;
-    if ((len = readlink("/proc/self/exe", buffer, sizeof(buffer))) > 0) {
+    ssize_t len = readlink("/proc/self/exe", buffer, sizeof(buffer));
+    if (len > 0 && static_cast<size_t>(len) < sizeof(buffer)) {
       buffer[len] = 0;
       path = buffer;
     }
-- 
2.43.0


From e53d537ac3dc3337d7e9de4db2dd38ef51a4af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 22/59] fix: count and validate every character of secret input

---
 .../authentication/detail/secure_string.h     | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/maidsafe/common/authentication/detail/secure_string.h b/include/maidsafe/common/authentication/detail/secure_string.h
index 0283e19..b8752bd 100644
--- a/include/maidsafe/common/authentication/detail/secure_string.h
+++ b/include/maidsafe/common/authentication/detail/secure_string.h
@@ -210,11 +210,7 @@ template <typename Predicate, SecureString::size_type Size, typename Tag>
 void SecureInputString<Predicate, Size, Tag>::Finalise() {
   if (IsFinalised())
     return;
-  if (!Predicate()(encrypted_chars_.size(), Size)) {
-    LOG(kError) << "SecureInputString::Finalise() outside_of_bounds";
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::outside_of_bounds));
-  }
-  uint32_t index(0);
+  size_type index(0), length(0);
   for (auto& encrypted_char : encrypted_chars_) {
     if (encrypted_char.first != index) {
       secure_string_.Clear();
@@ -222,8 +218,14 @@ void SecureInputString<Predicate, Size, Tag>::Finalise() {
     }
     SafeString decrypted_char(Decrypt(encrypted_char.second));
     secure_string_.Append(decrypted_char);
+    length += decrypted_char.size();
     ++index;
   }
+  if (!Predicate()(length, Size)) {
+    LOG(kError) << "SecureInputString::Finalise() outside_of_bounds";
+    secure_string_.Clear();
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::outside_of_bounds));
+  }
   secure_string_.Finalise();
   encrypted_chars_.clear();
   finalised_ = true;
@@ -313,18 +315,19 @@ SafeString SecureInputString<Predicate, Size, Tag>::Decrypt(
 template <typename Predicate, SecureString::size_type Size, typename Tag>
 bool SecureInputString<Predicate, Size, Tag>::ValidateEncryptedChars(
     const boost::regex& regex) const {
-  if (!Predicate()(encrypted_chars_.size(), Size))
-    return false;
-  uint32_t counter(0);
+  size_type index(0), length(0);
   for (auto& encrypted_char : encrypted_chars_) {
-    if (encrypted_char.first != counter)
-      return false;
-    SafeString decrypted_char(Decrypt(encrypted_char.second));
-    if (!boost::regex_search(decrypted_char, regex))
+    if (encrypted_char.first != index)
       return false;
-    ++counter;
+    SafeString decrypted_chars(Decrypt(encrypted_char.second));
+    for (char decrypted_char : decrypted_chars) {
+      if (!boost::regex_search(SafeString(1, decrypted_char), regex))
+        return false;
+    }
+    length += decrypted_chars.size();
+    ++index;
   }
-  return true;
+  return Predicate()(length, Size);
 }
 
 template <typename Predicate, SecureString::size_type Size, typename Tag>
-- 
2.43.0


From 1585d1a0cac2336f4f9c4e5592ab8d2a885e4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:17 +0000
Subject: [PATCH 23/59] fix: reject missing and incomplete parts of shared data

---
 src/maidsafe/common/crypto.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/maidsafe/common/crypto.cc b/src/maidsafe/common/crypto.cc
index 62475c2..8683e9b 100644
--- a/src/maidsafe/common/crypto.cc
+++ b/src/maidsafe/common/crypto.cc
@@ -53,6 +53,15 @@ void ValidateDispersalArgs(int32_t threshold, int32_t number_of_shares) {
   }
 }
 
+void ValidateParts(const DataParts& parts) {
+  if (parts.empty() || std::any_of(std::begin(parts), std::end(parts), [](const NonEmptyString& part) {
+        return part.size() <= 4;  // each piece is prefixed with a 4 byte piece number
+      })) {
+    LOG(kError) << "Can't recover data from missing or incomplete parts.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
+  }
+}
+
 }  // unnamed namespace
 
 CryptoPP::RandomNumberGenerator& random_number_generator() {
@@ -192,6 +201,7 @@ DataParts SecretShareData(int32_t threshold, int32_t number_of_shares, const Pla
 }
 
 PlainText SecretRecoverData(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * parts.front().size());
@@ -248,6 +258,7 @@ DataParts InfoDisperse(int32_t threshold, int32_t number_of_shares, const PlainT
 }
 
 PlainText InfoRetrieve(const DataParts& parts) {
+  ValidateParts(parts);
   size_t num_to_check = parts.size();
   // Safe to subtract 4 since each piece is prefixed with a byte piece number
   auto data_size(num_to_check * (parts.front().size() - 4));
-- 
2.43.0


From 620baa541714c4607acb1b9746bb5d95302398f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:08 +0000
Subject: [PATCH 24/59] fix: do not read past a signature when checking a file
 with a larger key

---
 src/maidsafe/common/rsa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/rsa.cc b/src/maidsafe/common/rsa.cc
index a414648..d984bca 100644
--- a/src/maidsafe/common/rsa.cc
+++ b/src/maidsafe/common/rsa.cc
@@ -198,9 +198,11 @@ bool CheckFileSignature(const boost::filesystem::path& filename, const Signature
   }
 
   CryptoPP::RSASS<CryptoPP::PSS, CryptoPP::SHA512>::Verifier verifier(public_key);
+  if (signature.size() != verifier.SignatureLength())
+    return false;
   try {
     auto verifier_filter = new CryptoPP::VerifierFilter(verifier);
-    verifier_filter->Put(signature.data(), verifier.SignatureLength());
+    verifier_filter->Put(signature.data(), signature.size());
     CryptoPP::FileSource file_source(filename.c_str(), true, verifier_filter);
     return verifier_filter->GetLastResult();
   } catch (const CryptoPP::Exception& e) {
-- 
2.43.0


From 599f2ffedb8b9e789e5594d33bb4eb0872d04dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:08 +0000
Subject: [PATCH 25/59] fix: release what failing uses of a database leave
 behind

---
 src/maidsafe/common/sqlite3_wrapper.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index 1e34bfd..c6e11a3 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -37,13 +37,13 @@ Database::Database(const boost::filesystem::path& filename, Mode mode)
   auto flags = static_cast<int>(mode);
   if (sqlite3_open_v2(filename.string().c_str(), &database, flags, NULL) != SQLITE_OK) {
     LOG(kError) << "Could not open DB at: " << filename << ".  Error: " << sqlite3_errmsg(database);
+    sqlite3_close(database);
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
   }
   assert(sqlite3_threadsafe());
-  char* error_message = 0;
-  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, &error_message);
-  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, &error_message);
+  sqlite3_exec(database, "PRAGMA synchronous = OFF", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA journal_mode = WAL", NULL, 0, NULL);
+  sqlite3_exec(database, "PRAGMA wal_autocheckpoint = 0", NULL, 0, NULL);
   sqlite3_busy_timeout(database, 250);
   insertlimit = sqlite3_limit(database, SQLITE_LIMIT_VARIABLE_NUMBER, -1);
 }
@@ -120,6 +120,7 @@ void Transaction::Execute(const std::string& query) {
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_busy));
     } else if (result == SQLITE_NOTADB) {
       LOG(kError) << "DB not present";
+      sqlite3_free(error_message);
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::db_not_present));
     } else {
       LOG(kError) << "SQL error: " << error_message << ".  Return value: " << result
-- 
2.43.0


From 0a4c294ecd0c5b94da32349d6b4dfec7acd5f309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:34 +0000
Subject: [PATCH 26/59] fix: roll back transactions which are never committed

---
 src/maidsafe/common/sqlite3_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index c6e11a3..c0173bd 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -61,7 +61,7 @@ void Database::CheckPoint() {
 }
 
 
-Transaction::Transaction(Database& database_in) : kAttempts(200), database(database_in) {
+Transaction::Transaction(Database& database_in) : kAttempts(200), committed(false), database(database_in) {
   std::string query("BEGIN IMMEDIATE TRANSACTION");  // immediate or exclusive transaction
   for (int i(0); i != kAttempts; ++i) {
     try {
-- 
2.43.0


From 5e8bbdbc3fb8eed50aace2bdcef3755a77397db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 27/59] fix: bind an empty blob as a blob, not as NULL

---
 src/maidsafe/common/sqlite3_wrapper.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/sqlite3_wrapper.cc b/src/maidsafe/common/sqlite3_wrapper.cc
index c0173bd..ccb3dee 100644
--- a/src/maidsafe/common/sqlite3_wrapper.cc
+++ b/src/maidsafe/common/sqlite3_wrapper.cc
@@ -169,7 +169,9 @@ void Statement::BindText(int row_index, const std::string& text) {
 
 void Statement::BindBlob(int row_index, const SerialisedData& blob) {
   assert(blob.size() < std::numeric_limits<int>::max());
-  auto return_value = sqlite3_bind_blob(statement, row_index, &blob[0],
+  // A null pointer would be bound as NULL rather than as a blob of no bytes.
+  auto return_value = sqlite3_bind_blob(statement, row_index,
+                                        blob.empty() ? static_cast<const void*>("") : blob.data(),
                                         static_cast<int>(blob.size()),
                                         reinterpret_cast<sqlite3_destructor_type>(-1));
                                         // SQLITE_TRANSIENT macro replaced with C++ cast
-- 
2.43.0


From 1db7ddaa2bf0f5abbefa87ec96b2d8ea3c5eedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:27 +0000
Subject: [PATCH 28/59] fix: fall back to IPv4 when IPv6 is not supported

---
 src/maidsafe/common/tcp/connection.cc | 2 +-
 src/maidsafe/common/tcp/listener.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index 34f195e..e49da9e 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -62,7 +62,7 @@ Connection::Connection(asio::io_service::strand& strand, Port remote_port)
   // Try IPv6 first.
   socket_.connect(ip::tcp::endpoint{ip::address_v6::loopback(), remote_port}, connect_error);
   if (connect_error &&
-      connect_error == std::make_error_code(std::errc::address_family_not_supported)) {
+      connect_error == asio::error::address_family_not_supported) {
     // Try IPv4 now.
     socket_.connect(ip::tcp::endpoint{ip::address_v4::loopback(), remote_port}, connect_error);
   }
diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 4468c5f..9b20b00 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -78,7 +78,7 @@ void Listener::DoStartListening(Port port) {
   try {
     acceptor_.open(endpoint.protocol());
   } catch (const std::system_error& error) {
-    if (error.code() == std::make_error_code(std::errc::address_family_not_supported)) {
+    if (error.code() == asio::error::address_family_not_supported) {
       // Try IPv4 now.
       endpoint = asio::ip::tcp::endpoint{asio::ip::address_v4::loopback(), port};
       acceptor_.open(endpoint.protocol());
-- 
2.43.0


From 2c598c95202b61b06b7571cc00385386d0eaa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 29/59] fix: report each closing of a TCP connection, and
 deliver nothing after it

---
 src/maidsafe/common/tcp/connection.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/maidsafe/common/tcp/connection.cc b/src/maidsafe/common/tcp/connection.cc
index e49da9e..038ea4c 100644
--- a/src/maidsafe/common/tcp/connection.cc
+++ b/src/maidsafe/common/tcp/connection.cc
@@ -85,10 +85,12 @@ ConnectionPtr Connection::MakeShared(asio::io_service::strand& strand, Port remo
 void Connection::Start(MessageReceivedFunctor on_message_received,
                        ConnectionClosedFunctor on_connection_closed) {
   std::call_once(start_flag_, [=] {
-    on_message_received_ = on_message_received;
-    on_connection_closed_ = on_connection_closed;
     ConnectionPtr this_ptr{shared_from_this()};
-    asio::dispatch(strand_, [this_ptr] { this_ptr->ReadSize(); });
+    asio::dispatch(strand_, [=] {
+      this_ptr->on_message_received_ = on_message_received;
+      this_ptr->on_connection_closed_ = on_connection_closed;
+      this_ptr->ReadSize();
+    });
   });
 }
 
@@ -102,15 +104,18 @@ void Connection::DoClose() {
     std::error_code ignored_ec;
     socket_.shutdown(asio::ip::tcp::socket::shutdown_send, ignored_ec);
     socket_.close(ignored_ec);
-    if (on_connection_closed_)
-      on_connection_closed_();
   });
+  // The socket may have been closed before 'Start' was called.
+  ConnectionClosedFunctor on_connection_closed;
+  on_connection_closed.swap(on_connection_closed_);
+  if (on_connection_closed)
+    on_connection_closed();
 }
 
 void Connection::ReadSize() {
   ConnectionPtr this_ptr{shared_from_this()};
   asio::async_read(socket_, asio::buffer(receiving_message_.size_buffer),
-                   [this_ptr](const std::error_code& ec, size_t bytes_transferred) {
+                   strand_.wrap([this_ptr](const std::error_code& ec, size_t bytes_transferred) {
     if (ec) {
       LOG(kInfo) << ec.message();
       return this_ptr->DoClose();
@@ -134,7 +139,7 @@ void Connection::ReadSize() {
 
     this_ptr->receiving_message_.data_buffer.resize(data_size);
     this_ptr->ReadData();
-  });
+  }));
 }
 
 void Connection::ReadData() {
@@ -151,8 +156,10 @@ void Connection::ReadData() {
                      // Dispatch the message outside the strand.
                      Message data{std::begin(this_ptr->receiving_message_.data_buffer),
                                       std::end(this_ptr->receiving_message_.data_buffer)};
-                     asio::post(this_ptr->strand_,
-                                [=] { this_ptr->on_message_received_(std::move(data)); });
+                     asio::post(this_ptr->strand_, [=] {
+                       if (this_ptr->socket_.is_open())
+                         this_ptr->on_message_received_(std::move(data));
+                     });
                      asio::dispatch(this_ptr->strand_, [this_ptr] { this_ptr->ReadSize(); });
                    }));
 }
-- 
2.43.0


From b240dc111a3e1fdbd0847353158a6c868630e7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 30/59] fix: stop listening on the strand and keep the listener
 alive

---
 src/maidsafe/common/tcp/listener.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tcp/listener.cc b/src/maidsafe/common/tcp/listener.cc
index 9b20b00..ffa994f 100644
--- a/src/maidsafe/common/tcp/listener.cc
+++ b/src/maidsafe/common/tcp/listener.cc
@@ -131,7 +131,8 @@ void Listener::HandleAccept(ConnectionPtr accepted_connection, const std::error_
 }
 
 void Listener::StopListening() {
-  asio::post(strand_.context().get_executor(), [this] { DoStopListening(); });
+  ListenerPtr this_ptr{shared_from_this()};
+  asio::post(strand_, [this_ptr] { this_ptr->DoStopListening(); });
 }
 
 void Listener::DoStopListening() {
-- 
2.43.0


From d2c79f0b9b0b627d6d4d6902aee3dbbfabf45391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 31/59] fix: pad the fraction of seconds in log times

---
 src/maidsafe/common/log.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 4567ba9..7fcaac8 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -424,8 +424,10 @@ std::string GetTime() {
   std::time_t now_t(std::chrono::system_clock::to_time_t(
       std::chrono::system_clock::time_point(seconds_since_epoch)));
 
-  return Strftime<time_type>(&now_t) +
-         std::to_string((now.time_since_epoch() - seconds_since_epoch).count());
+  std::string nanoseconds(std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(
+                                             now.time_since_epoch() - seconds_since_epoch).count()));
+  nanoseconds.insert(0, 9 - nanoseconds.size(), '0');
+  return Strftime<time_type>(&now_t) + nanoseconds;
 }
 
 }  // unnamed namespace
-- 
2.43.0


From 2418adf83536962da20cdf06c7f9b1d363d58ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 32/59] fix: send the message of a stopped vault as JSON like
 all others

---
 src/maidsafe/common/visualiser_log.cc | 42 +++++++--------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/src/maidsafe/common/visualiser_log.cc b/src/maidsafe/common/visualiser_log.cc
index c2975d4..3d1c270 100644
--- a/src/maidsafe/common/visualiser_log.cc
+++ b/src/maidsafe/common/visualiser_log.cc
@@ -31,35 +31,6 @@ namespace log {
 
 namespace {
 
-std::string UrlEncode(const std::string& value) {
-  static const std::string kUrlEncodedAlphabet[] = {
-      "%00", "%01", "%02", "%03", "%04", "%05", "%06", "%07", "%08", "%09", "%0a", "%0b", "%0c",
-      "%0d", "%0e", "%0f", "%10", "%11", "%12", "%13", "%14", "%15", "%16", "%17", "%18", "%19",
-      "%1a", "%1b", "%1c", "%1d", "%1e", "%1f", "+",   "%21", "%22", "%23", "%24", "%25", "%26",
-      "%27", "%28", "%29", "%2a", "%2b", "%2c", "-",   ".",   "%2f", "0",   "1",   "2",   "3",
-      "4",   "5",   "6",   "7",   "8",   "9",   "%3a", "%3b", "%3c", "%3d", "%3e", "%3f", "%40",
-      "A",   "B",   "C",   "D",   "E",   "F",   "G",   "H",   "I",   "J",   "K",   "L",   "M",
-      "N",   "O",   "P",   "Q",   "R",   "S",   "T",   "U",   "V",   "W",   "X",   "Y",   "Z",
-      "%5b", "%5c", "%5d", "%5e", "_",   "%60", "a",   "b",   "c",   "d",   "e",   "f",   "g",
-      "h",   "i",   "j",   "k",   "l",   "m",   "n",   "o",   "p",   "q",   "r",   "s",   "t",
-      "u",   "v",   "w",   "x",   "y",   "z",   "%7b", "%7c", "%7d", "~",   "%7f", "%80", "%81",
-      "%82", "%83", "%84", "%85", "%86", "%87", "%88", "%89", "%8a", "%8b", "%8c", "%8d", "%8e",
-      "%8f", "%90", "%91", "%92", "%93", "%94", "%95", "%96", "%97", "%98", "%99", "%9a", "%9b",
-      "%9c", "%9d", "%9e", "%9f", "%a0", "%a1", "%a2", "%a3", "%a4", "%a5", "%a6", "%a7", "%a8",
-      "%a9", "%aa", "%ab", "%ac", "%ad", "%ae", "%af", "%b0", "%b1", "%b2", "%b3", "%b4", "%b5",
-      "%b6", "%b7", "%b8", "%b9", "%ba", "%bb", "%bc", "%bd", "%be", "%bf", "%c0", "%c1", "%c2",
-      "%c3", "%c4", "%c5", "%c6", "%c7", "%c8", "%c9", "%ca", "%cb", "%cc", "%cd", "%ce", "%cf",
-      "%d0", "%d1", "%d2", "%d3", "%d4", "%d5", "%d6", "%d7", "%d8", "%d9", "%da", "%db", "%dc",
-      "%dd", "%de", "%df", "%e0", "%e1", "%e2", "%e3", "%e4", "%e5", "%e6", "%e7", "%e8", "%e9",
-      "%ea", "%eb", "%ec", "%ed", "%ee", "%ef", "%f0", "%f1", "%f2", "%f3", "%f4", "%f5", "%f6",
-      "%f7", "%f8", "%f9", "%fa", "%fb", "%fc", "%fd", "%fe", "%ff"};
-  std::string encoded;
-  encoded.reserve(value.size() * 3);
-  for (const char& c : value)
-    encoded += kUrlEncodedAlphabet[static_cast<unsigned char>(c)];
-  return encoded;
-}
-
 std::string EncodeIdentityOrInt(const std::string& value, bool debug_format) {
   // If the value is 64 chars, assume it's an Identity.
   if (value.size() == crypto::SHA512::DIGESTSIZE)
@@ -79,9 +50,16 @@ VisualiserLogMessage::~VisualiserLogMessage() {
 void VisualiserLogMessage::SendVaultStoppedMessage(const std::string& vault_debug_id,
                                                    const std::string& session_id, int exit_code) {
   try {
-    std::string message{"ts=" + UrlEncode(detail::GetUTCTime()) + "&vaultId=" + vault_debug_id +
-                        "&sessionId=" + session_id + "&actionId=18&valueOne=" +
-                        std::to_string(exit_code)};
+    std::stringstream stringstream;
+    {
+      cereal::JSONOutputArchive archive{stringstream};
+      archive(cereal::make_nvp("ts", detail::GetUTCTime()),
+              cereal::make_nvp("vaultId", vault_debug_id),
+              cereal::make_nvp("sessionId", session_id),
+              cereal::make_nvp("valueOne", std::to_string(exit_code)),
+              cereal::make_nvp("actionId", std::string("18")));
+    }
+    std::string message{stringstream.str()};
     auto post_functor([message] { Logging::Instance().WriteToVisualiserServer(message); });
     Logging::Instance().Send(post_functor);
   } catch (const std::exception& e) {
-- 
2.43.0


From 9966ca5a97ad5d32827165db09cd9c0df5ae4765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 33/59] fix: initialise the visualiser log completely before it
 is used

---
 src/maidsafe/common/log.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 7fcaac8..2575169 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -596,10 +596,9 @@ std::vector<std::vector<wchar_t>> Logging::Initialise(int argc, wchar_t** argv)
 void Logging::InitialiseVlog(const std::string& prefix, const std::string& session_id,
                              const std::string& server_name, uint16_t server_port,
                              const std::string& server_dir) {
-  if (visualiser_.initialised)
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::already_initialised));
+  bool first_call(false);
   std::call_once(visualiser_.initialised_once_flag, [&] {
-    visualiser_.initialised = true;
+    first_call = true;
     visualiser_.prefix = prefix;
     visualiser_.session_id = session_id;
     if (visualiser_.session_id.empty())
@@ -614,7 +613,10 @@ void Logging::InitialiseVlog(const std::string& prefix, const std::string& sessi
       LOG(kError) << "Failed to connect to VLOG server: "
                   << visualiser_.server_stream.error().message();
     }
+    visualiser_.initialised = true;
   });
+  if (!first_call)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::already_initialised));
 }
 
 bool Logging::IsHelpOption(const po::options_description& log_config) const {
-- 
2.43.0


From d275b604972dba01abf5e56c0ff06db2227b254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 34/59] fix: send messages of the visualiser without logging
 being initialised

---
 src/maidsafe/common/log.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 2575169..0df022f 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -673,11 +673,11 @@ void Logging::SetStreams() {
 }
 
 void Logging::Send(std::function<void()> message_functor) {
-#if USE_LOGGING
-  background_->Send(message_functor);
-#else
-  message_functor();
-#endif
+  // There is no background thread unless logging is enabled and has been initialised.
+  if (background_)
+    background_->Send(message_functor);
+  else
+    message_functor();
 }
 
 void Logging::WriteToLogfile(const std::string& message, LogFile& log_file) {
-- 
2.43.0


From 105b81fd48d78e5abd33f26b4ed861047a0134c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:00 +0000
Subject: [PATCH 35/59] fix: use the connection to the visualiser server from
 one thread at a time

---
 include/maidsafe/common/log.h | 2 ++
 src/maidsafe/common/log.cc    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/maidsafe/common/log.h b/include/maidsafe/common/log.h
index e26d2bd..678342e 100644
--- a/include/maidsafe/common/log.h
+++ b/include/maidsafe/common/log.h
@@ -197,6 +197,7 @@ class Logging {
           session_id(),
           logfile(),
           server_stream(),
+          server_mutex(),
           server_name(),
           server_dir(),
           server_port(0),
@@ -205,6 +206,7 @@ class Logging {
     std::string prefix, session_id;
     LogFile logfile;
     asio::ip::tcp::iostream server_stream;
+    std::mutex server_mutex;
     std::string server_name, server_dir;
     uint16_t server_port;
     std::atomic<bool> initialised;
diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 0df022f..7c2a321 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -697,6 +697,7 @@ void Logging::WriteToVisualiserLogfile(const std::string& message) {
 }
 
 void Logging::WriteToVisualiserServer(const std::string& message) {
+  std::lock_guard<std::mutex> lock(visualiser_.server_mutex);
   if (!visualiser_.server_stream) {
     visualiser_.server_stream.clear();
     visualiser_.server_stream.connect(
-- 
2.43.0


From 8385e6f252b6940153356e39811c16059028440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:55 +0000
Subject: [PATCH 36/59] fix: random sizes from the range of all numbers

---
 src/maidsafe/common/utils.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/utils.cc b/src/maidsafe/common/utils.cc
index 21e0df6..4f017b0 100644
--- a/src/maidsafe/common/utils.cc
+++ b/src/maidsafe/common/utils.cc
@@ -269,13 +269,15 @@ uint32_t RandomUint32() { return RandomInt<uint32_t>(); }
 std::string RandomString(size_t size) { return GetRandomString<std::string>(size); }
 
 std::string RandomString(uint32_t min, uint32_t max) {
-  return GetRandomString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::string>(
+      (RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min);
 }
 
 std::vector<byte> RandomBytes(size_t size) { return GetRandomString<std::vector<byte>>(size); }
 
 std::vector<byte> RandomBytes(uint32_t min, uint32_t max) {
-  return GetRandomString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomString<std::vector<byte>>(
+      (RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min);
 }
 
 std::string RandomAlphaNumericString(size_t size) {
@@ -283,7 +285,8 @@ std::string RandomAlphaNumericString(size_t size) {
 }
 
 std::string RandomAlphaNumericString(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::string>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::string>(
+      (RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min);
 }
 
 std::vector<byte> RandomAlphaNumericBytes(size_t size) {
@@ -291,7 +294,8 @@ std::vector<byte> RandomAlphaNumericBytes(size_t size) {
 }
 
 std::vector<byte> RandomAlphaNumericBytes(uint32_t min, uint32_t max) {
-  return GetRandomAlphaNumericString<std::vector<byte>>((RandomUint32() % (max - min + 1)) + min);
+  return GetRandomAlphaNumericString<std::vector<byte>>(
+      (RandomUint32() % (static_cast<uint64_t>(max) - min + 1)) + min);
 }
 
 std::string WstringToString(const std::wstring& input) {
-- 
2.43.0


From b9a1a88203e612ea7775871b073da8a5be6c254a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:08 +0000
Subject: [PATCH 37/59] fix: stop an I/O service from its own thread without
 changing it or deadlocking

---
 include/maidsafe/common/asio_service.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e99028d..e032668 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -46,6 +46,12 @@ class IoService {
   size_t ThreadCount() const { return thread_count_; }
 
  private:
+  // The service to which the calling thread belongs, if any.
+  static const IoService*& ThisThreadsService() {
+    static thread_local const IoService* service(nullptr);
+    return service;
+  }
+
   std::atomic<size_t> thread_count_;
   IoServiceType service_;
   std::unique_ptr<typename IoServiceType::work> work_;
@@ -69,6 +75,7 @@ IoService<IoServiceType>::IoService(size_t thread_count)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
   for (size_t i(0); i != thread_count; ++i)
     threads_.emplace_back([&] {
+      ThisThreadsService() = this;
       try {
         service_.run();
       } catch (...) {
@@ -83,14 +90,14 @@ IoService<IoServiceType>::IoService(size_t thread_count)
 
 template <typename IoServiceType>
 void IoService<IoServiceType>::Stop() {
+  // Checked before locking, since another thread may be holding the lock while joining this one.
+  if (ThisThreadsService() == this)
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
+
   thread_count_ = 0U;
   std::lock_guard<std::mutex> lock{mutex_};
   if (!work_)
     return;
-  for (const auto& asio_thread : threads_) {
-    if (std::this_thread::get_id() == asio_thread.get_id())
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_invoke_from_this_thread));
-  }
 
   work_.reset();
 
-- 
2.43.0


From 0d5e36df40f3e09b6ed3ed5f4fceb47001103644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:40 +0000
Subject: [PATCH 38/59] fix: join the threads of an I/O service which can't
 start all of them

---
 include/maidsafe/common/asio_service.h | 33 ++++++++++++++++----------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/include/maidsafe/common/asio_service.h b/include/maidsafe/common/asio_service.h
index e032668..003ca2b 100644
--- a/include/maidsafe/common/asio_service.h
+++ b/include/maidsafe/common/asio_service.h
@@ -73,19 +73,26 @@ IoService<IoServiceType>::IoService(size_t thread_count)
       mutex_() {
   if (thread_count == 0)
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
-  for (size_t i(0); i != thread_count; ++i)
-    threads_.emplace_back([&] {
-      ThisThreadsService() = this;
-      try {
-        service_.run();
-      } catch (...) {
-        LOG(kError) << boost::current_exception_diagnostic_information();
-        // Rethrowing here will cause the application to terminate - so flush the log message first.
-        log::Logging::Instance().Flush();
-        assert(0);
-        throw;
-      }
-    });
+  try {
+    for (size_t i(0); i != thread_count; ++i)
+      threads_.emplace_back([&] {
+        ThisThreadsService() = this;
+        try {
+          service_.run();
+        } catch (...) {
+          LOG(kError) << boost::current_exception_diagnostic_information();
+          // Rethrowing here will cause the application to terminate - so flush the log message
+          // first.
+          log::Logging::Instance().Flush();
+          assert(0);
+          throw;
+        }
+      });
+  } catch (...) {
+    // A thread couldn't be started: those which have been must be joined before they're destroyed.
+    Stop();
+    throw;
+  }
 }
 
 template <typename IoServiceType>
-- 
2.43.0


From e40ced9c77cc65bb9f804ae37e71be557a441f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:04 +0000
Subject: [PATCH 39/59] fix: let a data buffer's limits be changed while it is
 used

SetMaxMemoryUsage and SetMaxDiskUsage compared with the other maximum
without locking it, a lowered maximum let the free space wrap around, and
a Store waiting for memory was stuck if the maximum fell below its size.
---
 src/maidsafe/common/data_buffer.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5d1ccd1..5304f8e 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -130,11 +130,10 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
   {
     uint64_t required_space(value.string().size());
     std::unique_lock<std::mutex> memory_store_lock(memory_store_.mutex);
+    WaitForSpaceInMemory(required_space, memory_store_lock);
     if (required_space > memory_store_.max)
       return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
 
-    WaitForSpaceInMemory(required_space, memory_store_lock);
-
     if (!running_) {
       {
         std::lock_guard<std::mutex> worker_lock(worker_mutex_);
@@ -153,7 +152,7 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
 
 void DataBuffer::WaitForSpaceInMemory(uint64_t required_space,
                                       std::unique_lock<std::mutex>& memory_store_lock) {
-  while (!HasSpace(memory_store_, required_space)) {
+  while (required_space <= memory_store_.max && !HasSpace(memory_store_, required_space)) {
     auto itr(FindMemoryRemovalCandidate(required_space, memory_store_lock));
     if (!running_)
       return;
@@ -419,7 +418,9 @@ fs::path DataBuffer::GetFilename(const KeyType& key) const {
 
 void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (max_memory_usage > disk_store_.max) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -432,7 +433,9 @@ void DataBuffer::SetMaxMemoryUsage(MemoryUsage max_memory_usage) {
 void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
   bool increased(false);
   {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
     if (memory_store_.max > max_disk_usage) {
       LOG(kError) << "Max memory usage must be <= max disk usage.";
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::invalid_argument));
@@ -446,8 +449,8 @@ void DataBuffer::SetMaxDiskUsage(DiskUsage max_disk_usage) {
 
 template <typename T>
 bool DataBuffer::HasSpace(const T& store, uint64_t required_space) const {
-  assert(store.max >= required_space);
-  return store.current <= store.max - required_space;
+  // The maximum can have been reduced to less than the required space in the meantime.
+  return store.max >= required_space && store.current <= store.max - required_space;
 }
 
 template <typename T>
@@ -472,7 +475,8 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
                        [](const MemoryElement& key_value) {
       return key_value.also_on_disk == StoringState::kCompleted;
     });
-    return itr != memory_store_.index.end() || HasSpace(memory_store_, required_space) || !running_;
+    return itr != memory_store_.index.end() || HasSpace(memory_store_, required_space) ||
+           required_space > memory_store_.max || !running_;
   });
   return itr;
 }
-- 
2.43.0


From 79efdee41ed5d6e8a8da4adc5ba767c4c3185db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:11 +0000
Subject: [PATCH 40/59] fix: free the files and the disk usage of elements
 deleted by predicate

---
 src/maidsafe/common/data_buffer.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 5304f8e..d930d07 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -293,10 +293,15 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   }
   std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
   auto before_size(disk_store_.index.size());
-  disk_store_.index.erase(
-      std::remove_if(std::begin(disk_store_.index), std::end(disk_store_.index),
-                     [&](const DiskElement& item) { return predicate(item.key); }),
-      std::end(disk_store_.index));
+  for (auto itr(disk_store_.index.begin()); itr != disk_store_.index.end();) {
+    if (predicate(itr->key)) {
+      if (itr->state == StoringState::kCompleted)
+        RemoveFile(itr->key, nullptr);
+      itr = disk_store_.index.erase(itr);
+    } else {
+      ++itr;
+    }
+  }
   if (disk_store_.index.size() != before_size)
     disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 75755613e598b8562604150afcc7c8aa76c6b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:16 +0000
Subject: [PATCH 41/59] fix: keep a data buffer's values apart while they are
 moved to disk

A Delete which ran while the same key was stored could remove only one of
the two copies, and an element moved to disk was mistaken for a newer one
with the same key.  Elements now have ids, and both stores are locked while
an element is deleted or added.
---
 include/maidsafe/common/data_buffer.h |  32 +++--
 src/maidsafe/common/data_buffer.cc    | 175 ++++++++++++--------------
 2 files changed, 100 insertions(+), 107 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bcac0bc..bbbed92 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -94,22 +94,27 @@ class DataBuffer {
     explicit Storage(UsageType max_in)
         : max(std::move(max_in)),  // NOLINT
           current(0),
+          last_id(0),
           index(),
           mutex(),
           cond_var() {}
     UsageType max, current;
+    uint64_t last_id;
     IndexType index;
     std::mutex mutex;
     std::condition_variable cond_var;
   };
 
-  enum class StoringState { kNotStarted, kStarted, kCancelled, kCompleted };
+  enum class StoringState { kNotStarted, kStarted, kCompleted };
 
+  // The id distinguishes this element from any other which is or was stored under the same key.
   struct MemoryElement {
-    MemoryElement(KeyType key_in, NonEmptyString value_in)
-        : key(std::move(key_in)),
+    MemoryElement(uint64_t id_in, KeyType key_in, NonEmptyString value_in)
+        : id(id_in),
+          key(std::move(key_in)),
           value(std::move(value_in)),
           also_on_disk(StoringState::kNotStarted) {}
+    uint64_t id;
     KeyType key;
     NonEmptyString value;
     StoringState also_on_disk;
@@ -117,9 +122,16 @@ class DataBuffer {
 
   using MemoryIndex = std::deque<MemoryElement>;
 
+  // The value is valid as long as the state is kStarted.
   struct DiskElement {
-    explicit DiskElement(KeyType key_in) : key(std::move(key_in)), state(StoringState::kStarted) {}
+    DiskElement(uint64_t id_in, KeyType key_in, const NonEmptyString* value_in)
+        : id(id_in),
+          key(std::move(key_in)),
+          value(value_in),
+          state(StoringState::kStarted) {}
+    uint64_t id;
     KeyType key;
+    const NonEmptyString* value;
     StoringState state;
   };
   using DiskIndex = std::deque<DiskElement>;
@@ -131,10 +143,11 @@ class DataBuffer {
                             std::unique_lock<std::mutex>& memory_store_lock);
   void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
-  void WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
+  void WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
                           std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
+  // The following two require the store's mutex to be locked.
   void DeleteFromMemory(const KeyType& key, StoringState& also_on_disk);
-  void DeleteFromDisk(const KeyType& key);
+  bool DeleteFromDisk(const KeyType& key);
   void RemoveFile(const KeyType& key, NonEmptyString* value);
 
   void CopyQueueToDisk();
@@ -148,15 +161,15 @@ class DataBuffer {
   template <typename T>
   typename T::index_type::iterator Find(T& store, const KeyType& key);
 
+  template <typename T>
+  typename T::index_type::iterator FindId(T& store, uint64_t id);
+
   MemoryIndex::iterator FindOldestInMemoryOnly();
   MemoryIndex::iterator FindMemoryRemovalCandidate(
       uint64_t required_space, std::unique_lock<std::mutex>& memory_store_lock);
 
-  DiskIndex::iterator FindStartedToStoreOnDisk(const KeyType& key);
   DiskIndex::iterator FindOldestOnDisk();
 
-  DiskIndex::iterator FindAndThrowIfCancelled(const KeyType& key);
-
   std::string DebugKeyName(const KeyType& key);
 
   Storage<MemoryUsage, MemoryIndex> memory_store_;
@@ -164,7 +177,6 @@ class DataBuffer {
   const PopFunctor kPopFunctor_;
   const boost::filesystem::path kDiskBuffer_;
   const bool kShouldRemoveRoot_;
-  std::map<KeyType, const NonEmptyString*> elements_being_moved_to_disk_{};
   std::atomic<bool> running_{true};
   std::mutex worker_mutex_{};
   std::future<void> worker_{};
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index d930d07..64997b7 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -131,9 +131,6 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     uint64_t required_space(value.string().size());
     std::unique_lock<std::mutex> memory_store_lock(memory_store_.mutex);
     WaitForSpaceInMemory(required_space, memory_store_lock);
-    if (required_space > memory_store_.max)
-      return std::move(std::unique_lock<std::mutex>(disk_store_.mutex));
-
     if (!running_) {
       {
         std::lock_guard<std::mutex> worker_lock(worker_mutex_);
@@ -143,8 +140,18 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
       return std::move(std::unique_lock<std::mutex>());
     }
 
+    // Another value could have been stored under this key while waiting for space.
+    StoringState also_on_disk(StoringState::kNotStarted);
+    DeleteFromMemory(key, also_on_disk);
+    std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
+    if (also_on_disk != StoringState::kNotStarted)
+      DeleteFromDisk(key);
+
+    if (required_space > memory_store_.max)
+      return std::move(disk_store_lock);
+
     memory_store_.current.data += required_space;
-    memory_store_.index.emplace_back(key, value);
+    memory_store_.index.emplace_back(++memory_store_.last_id, key, value);
   }
   memory_store_.cond_var.notify_all();
   return std::move(std::unique_lock<std::mutex>());
@@ -173,10 +180,11 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
-  disk_store_.index.emplace_back(key);
+  const uint64_t id(++disk_store_.last_id);
+  disk_store_.index.emplace_back(id, key, &value);
 
   bool cancelled(false);
-  WaitForSpaceOnDisk(key, &value, disk_store_lock, cancelled);
+  WaitForSpaceOnDisk(id, value.string().size(), disk_store_lock, cancelled);
   if (!running_)
     return;
 
@@ -186,51 +194,35 @@ void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
       StopRunning();
       BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
     }
-    auto itr(FindStartedToStoreOnDisk(key));
-    if (itr != disk_store_.index.end())
-      (*itr).state = StoringState::kCompleted;
-
+    FindId(disk_store_, id)->state = StoringState::kCompleted;
     disk_store_.current.data += value.string().size();
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
 }
 
-void DataBuffer::WaitForSpaceOnDisk(const KeyType& key, const NonEmptyString* const value,
+void DataBuffer::WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
                                     std::unique_lock<std::mutex>& disk_store_lock,
                                     bool& cancelled) {
-  while (!HasSpace(disk_store_, value->string().size()) && running_) {
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
+  while (running_) {
+    if (FindId(disk_store_, id) == disk_store_.index.end()) {
       cancelled = true;
       return;
     }
 
-    if ((*itr).state == StoringState::kCancelled) {
-      disk_store_.index.erase(itr);
-      cancelled = true;
+    if (HasSpace(disk_store_, required_space))
       return;
-    }
 
-    if (kPopFunctor_) {
-      itr = FindOldestOnDisk();
-      assert((*itr).state != StoringState::kStarted);
-      if ((*itr).state == StoringState::kCompleted) {
-        KeyType oldest_key(itr->key);
-        NonEmptyString oldest_value;
-        RemoveFile(oldest_key, &oldest_value);
-        disk_store_.index.erase(itr);
-        kPopFunctor_(oldest_key, oldest_value);
-      }
+    auto itr(FindOldestOnDisk());
+    if (kPopFunctor_ && itr != disk_store_.index.end()) {
+      KeyType oldest_key(itr->key);
+      NonEmptyString oldest_value;
+      RemoveFile(oldest_key, &oldest_value);
+      disk_store_.index.erase(itr);
+      kPopFunctor_(oldest_key, oldest_value);
     } else {
-      // Rely on client of this class to call Delete until enough space becomes available.  Make the
-      // current value available for 'Get' (avoid 'Get' permanent blocking) by adding to
-      // 'elements_being_moved_to_disk_'.
-      if (running_) {
-        elements_being_moved_to_disk_[key] = value;
-        disk_store_.cond_var.wait(disk_store_lock);
-        elements_being_moved_to_disk_.erase(key);
-      }
+      // Rely on client of this class to call Delete until enough space becomes available.
+      disk_store_.cond_var.wait(disk_store_lock);
     }
   }
 }
@@ -243,18 +235,14 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
     if (itr != memory_store_.index.end())
       return (*itr).value;
   }
-  std::unique_lock<std::mutex> disk_store_lock(disk_store_.mutex);
-  auto itr(FindAndThrowIfCancelled(key));
-  if ((*itr).state == StoringState::kStarted) {
-    auto temp_itr(elements_being_moved_to_disk_.find(key));
-    if (temp_itr != std::end(elements_being_moved_to_disk_))
-      return *temp_itr->second;
-    disk_store_.cond_var.wait(disk_store_lock, [this, &key]() -> bool {
-      auto itr(Find(disk_store_, key));
-      return (itr == disk_store_.index.end() || (*itr).state != StoringState::kStarted);
-    });
-    itr = FindAndThrowIfCancelled(key);
+  std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+  auto itr(Find(disk_store_, key));
+  if (itr == disk_store_.index.end()) {
+    LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
   }
+  if ((*itr).state == StoringState::kStarted)
+    return *(*itr).value;
   auto result(ReadFile(GetFilename(key)));
   if (result)
     return NonEmptyString(*result);
@@ -266,16 +254,24 @@ NonEmptyString DataBuffer::Get(const KeyType& key) {
 
 void DataBuffer::Delete(const KeyType& key) {
   CheckWorkerIsStillRunning();
+  // Both stores are locked, so that the value can't be found in one of them after it has been
+  // deleted from the other.
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
   StoringState also_on_disk(StoringState::kNotStarted);
   DeleteFromMemory(key, also_on_disk);
-  if (also_on_disk != StoringState::kNotStarted)
-    DeleteFromDisk(key);
+  if (also_on_disk != StoringState::kNotStarted) {
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
+    if (!DeleteFromDisk(key)) {
+      LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
+    }
+  }
 }
 
 void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
   CheckWorkerIsStillRunning();
+  std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
   {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
     auto before_size(memory_store_.index.size());
     memory_store_.index.erase(std::remove_if(std::begin(memory_store_.index),
                                              std::end(memory_store_.index),
@@ -307,41 +303,29 @@ void DataBuffer::Delete(std::function<bool(const KeyType&)> predicate) {
 }
 
 void DataBuffer::DeleteFromMemory(const KeyType& key, StoringState& also_on_disk) {
-  bool changed(false);
-  {
-    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex);
-    auto itr(Find(memory_store_, key));
-    if (itr != memory_store_.index.end()) {
-      also_on_disk = (*itr).also_on_disk;
-      memory_store_.current.data -= (*itr).value.string().size();
-      memory_store_.index.erase(itr);
-      changed = true;
-    } else {
-      // Assume it's on disk so as to invoke a DeleteFromDisk
-      also_on_disk = StoringState::kCompleted;
-    }
-  }
-  if (changed)
+  auto itr(Find(memory_store_, key));
+  if (itr != memory_store_.index.end()) {
+    also_on_disk = (*itr).also_on_disk;
+    memory_store_.current.data -= (*itr).value.string().size();
+    memory_store_.index.erase(itr);
     memory_store_.cond_var.notify_all();
+  } else {
+    // Assume it's on disk so as to invoke a DeleteFromDisk
+    also_on_disk = StoringState::kCompleted;
+  }
 }
 
-void DataBuffer::DeleteFromDisk(const KeyType& key) {
-  {
-    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex);
-    auto itr(Find(disk_store_, key));
-    if (itr == disk_store_.index.end()) {
-      LOG(kWarning) << DebugKeyName(key) << " is not in the disk index.";
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
-    }
+bool DataBuffer::DeleteFromDisk(const KeyType& key) {
+  auto itr(Find(disk_store_, key));
+  if (itr == disk_store_.index.end())
+    return false;
 
-    if ((*itr).state == StoringState::kStarted) {
-      (*itr).state = StoringState::kCancelled;
-    } else if ((*itr).state == StoringState::kCompleted) {
-      RemoveFile(itr->key, nullptr);
-      disk_store_.index.erase(itr);
-    }
-  }
+  // If the value is still waiting to be stored, that's cancelled by erasing the element.
+  if ((*itr).state == StoringState::kCompleted)
+    RemoveFile(itr->key, nullptr);
+  disk_store_.index.erase(itr);
   disk_store_.cond_var.notify_all();
+  return true;
 }
 
 void DataBuffer::RemoveFile(const KeyType& key, NonEmptyString* value) {
@@ -367,6 +351,7 @@ void DataBuffer::RemoveFile(const KeyType& key, NonEmptyString* value) {
 }
 
 void DataBuffer::CopyQueueToDisk() {
+  uint64_t id(0);
   KeyType key;
   NonEmptyString value;
   for (;;) {
@@ -383,6 +368,7 @@ void DataBuffer::CopyQueueToDisk() {
         return;
 
       assert(itr != memory_store_.index.end());
+      id = (*itr).id;
       key = (*itr).key;
       value = (*itr).value;
       (*itr).also_on_disk = StoringState::kStarted;
@@ -390,7 +376,7 @@ void DataBuffer::CopyQueueToDisk() {
       memory_store_lock.unlock();
       StoreOnDisk(key, value, std::move(disk_store_lock));
       memory_store_lock.lock();
-      itr = Find(memory_store_, key);
+      itr = FindId(memory_store_, id);
       if (itr != memory_store_.index.end())
         (*itr).also_on_disk = StoringState::kCompleted;
     }
@@ -465,6 +451,13 @@ typename T::index_type::iterator DataBuffer::Find(T& store, const KeyType& key)
       [&key](const typename T::index_type::value_type& key_value) { return key_value.key == key; });
 }
 
+template <typename T>
+typename T::index_type::iterator DataBuffer::FindId(T& store, uint64_t id) {
+  return std::find_if(
+      store.index.begin(), store.index.end(),
+      [id](const typename T::index_type::value_type& element) { return element.id == id; });
+}
+
 DataBuffer::MemoryIndex::iterator DataBuffer::FindOldestInMemoryOnly() {
   return std::find_if(memory_store_.index.begin(), memory_store_.index.end(),
                       [](const MemoryElement& key_value) {
@@ -486,22 +479,10 @@ DataBuffer::MemoryIndex::iterator DataBuffer::FindMemoryRemovalCandidate(
   return itr;
 }
 
-DataBuffer::DiskIndex::iterator DataBuffer::FindStartedToStoreOnDisk(const KeyType& key) {
-  return std::find_if(disk_store_.index.begin(), disk_store_.index.end(),
-                      [&key](const DiskElement& entry) {
-    return entry.state == StoringState::kStarted && entry.key == key;
-  });
-}
-
-DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() { return disk_store_.index.begin(); }
-
-DataBuffer::DiskIndex::iterator DataBuffer::FindAndThrowIfCancelled(const KeyType& key) {
-  auto itr(Find(disk_store_, key));
-  if (itr == disk_store_.index.end() || (*itr).state == StoringState::kCancelled) {
-    LOG(kWarning) << DebugKeyName(key) << " is not in the disk index or is cancelled.";
-    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
-  }
-  return itr;
+DataBuffer::DiskIndex::iterator DataBuffer::FindOldestOnDisk() {
+  return std::find_if(
+      disk_store_.index.begin(), disk_store_.index.end(),
+      [](const DiskElement& entry) { return entry.state == StoringState::kCompleted; });
 }
 
 std::string DataBuffer::DebugKeyName(const KeyType& key) { return hex::Encode(key.name); }
-- 
2.43.0


From 58a50e25005cba184baf95a698f7c5110c6f8101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:23 +0000
Subject: [PATCH 42/59] fix: report a data buffer's failures and stop without
 blocking

Stopping took the lock of one store while it was held, or missed threads
about to wait; Stores blocked when the buffer stopped ended as if they had
succeeded, a failed deletion of the old value was ignored by Store, and the
entry of a value which couldn't be written stayed.
---
 include/maidsafe/common/data_buffer.h |  3 +-
 src/maidsafe/common/data_buffer.cc    | 68 ++++++++++++++++++---------
 2 files changed, 49 insertions(+), 22 deletions(-)

diff --git a/include/maidsafe/common/data_buffer.h b/include/maidsafe/common/data_buffer.h
index bbbed92..153d687 100644
--- a/include/maidsafe/common/data_buffer.h
+++ b/include/maidsafe/common/data_buffer.h
@@ -141,7 +141,8 @@ class DataBuffer {
   std::unique_lock<std::mutex> StoreInMemory(const KeyType& key, const NonEmptyString& value);
   void WaitForSpaceInMemory(uint64_t required_space,
                             std::unique_lock<std::mutex>& memory_store_lock);
-  void StoreOnDisk(const KeyType& key, const NonEmptyString& value,
+  // Returns false if the buffer was stopped before the value could be stored.
+  bool StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                    std::unique_lock<std::mutex>&& disk_store_lock);
   void WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
                           std::unique_lock<std::mutex>& disk_store_lock, bool& cancelled);
diff --git a/src/maidsafe/common/data_buffer.cc b/src/maidsafe/common/data_buffer.cc
index 64997b7..910b5ac 100644
--- a/src/maidsafe/common/data_buffer.cc
+++ b/src/maidsafe/common/data_buffer.cc
@@ -73,7 +73,14 @@ void DataBuffer::Init() {
     return;
   }
   fs::remove(test_file);
-  worker_ = std::async(std::launch::async, &DataBuffer::CopyQueueToDisk, this);
+  worker_ = std::async(std::launch::async, [this] {
+    try {
+      CopyQueueToDisk();
+    } catch (...) {
+      StopRunning();
+      throw;
+    }
+  });
 }
 
 DataBuffer::~DataBuffer() {
@@ -115,14 +122,16 @@ DataBuffer::~DataBuffer() {
 void DataBuffer::Store(const KeyType& key, const NonEmptyString& value) {
   try {
     Delete(key);
-  } catch (const std::exception&) {
+  } catch (const common_error& error) {
+    if (error.code() != make_error_code(CommonErrors::no_such_element))
+      throw;
     LOG(kVerbose) << "Storing " << DebugKeyName(key) << " with value " << value;
   }
 
   CheckWorkerIsStillRunning();
   auto disk_store_lock(StoreInMemory(key, value));
-  if (disk_store_lock)
-    StoreOnDisk(key, value, std::move(disk_store_lock));
+  if (disk_store_lock && !StoreOnDisk(key, value, std::move(disk_store_lock)))
+    CheckWorkerIsStillRunning();
 }
 
 std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
@@ -132,11 +141,8 @@ std::unique_lock<std::mutex> DataBuffer::StoreInMemory(const KeyType& key,
     std::unique_lock<std::mutex> memory_store_lock(memory_store_.mutex);
     WaitForSpaceInMemory(required_space, memory_store_lock);
     if (!running_) {
-      {
-        std::lock_guard<std::mutex> worker_lock(worker_mutex_);
-        if (worker_.valid())
-          worker_.get();
-      }
+      memory_store_lock.unlock();
+      CheckWorkerIsStillRunning();
       return std::move(std::unique_lock<std::mutex>());
     }
 
@@ -171,34 +177,48 @@ void DataBuffer::WaitForSpaceInMemory(uint64_t required_space,
   }
 }
 
-void DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
+bool DataBuffer::StoreOnDisk(const KeyType& key, const NonEmptyString& value,
                              std::unique_lock<std::mutex>&& disk_store_lock) {
   assert(disk_store_lock);
   if (value.string().size() > disk_store_.max) {
     LOG(kError) << "Cannot store " << DebugKeyName(key) << " since its " << value.string().size()
                 << " bytes exceeds max of " << disk_store_.max << " bytes.";
+    disk_store_lock.unlock();
     StopRunning();
     BOOST_THROW_EXCEPTION(MakeError(CommonErrors::cannot_exceed_limit));
   }
   const uint64_t id(++disk_store_.last_id);
   disk_store_.index.emplace_back(id, key, &value);
 
-  bool cancelled(false);
-  WaitForSpaceOnDisk(id, value.string().size(), disk_store_lock, cancelled);
-  if (!running_)
-    return;
-
-  if (!cancelled) {
-    if (!WriteFile(GetFilename(key), value.string())) {
-      LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
-      StopRunning();
-      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+  bool cancelled(false), stored(false), failed(false);
+  try {
+    WaitForSpaceOnDisk(id, value.string().size(), disk_store_lock, cancelled);
+    if (!cancelled && running_) {
+      stored = WriteFile(GetFilename(key), value.string());
+      failed = !stored;
     }
+  } catch (...) {
+    disk_store_.index.erase(FindId(disk_store_, id));
+    throw;
+  }
+
+  if (stored) {
     FindId(disk_store_, id)->state = StoringState::kCompleted;
     disk_store_.current.data += value.string().size();
+  } else if (!cancelled) {
+    auto itr(FindId(disk_store_, id));
+    if (itr != disk_store_.index.end())
+      disk_store_.index.erase(itr);
   }
   disk_store_lock.unlock();
   disk_store_.cond_var.notify_all();
+
+  if (failed) {
+    LOG(kError) << "Failed to move " << DebugKeyName(key) << " to disk.";
+    StopRunning();
+    BOOST_THROW_EXCEPTION(MakeError(CommonErrors::filesystem_io_error));
+  }
+  return stored || cancelled;
 }
 
 void DataBuffer::WaitForSpaceOnDisk(uint64_t id, uint64_t required_space,
@@ -398,7 +418,13 @@ void DataBuffer::CheckWorkerIsStillRunning() {
 }
 
 void DataBuffer::StopRunning() {
-  running_ = false;
+  {
+    // Without locking, a thread about to wait could miss the notification.
+    std::lock(memory_store_.mutex, disk_store_.mutex);
+    std::lock_guard<std::mutex> memory_store_lock(memory_store_.mutex, std::adopt_lock);
+    std::lock_guard<std::mutex> disk_store_lock(disk_store_.mutex, std::adopt_lock);
+    running_ = false;
+  }
   memory_store_.cond_var.notify_all();
   disk_store_.cond_var.notify_all();
 }
-- 
2.43.0


From 2eb772681ec22db827cf7409cb05f50be53f26c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:20 +0000
Subject: [PATCH 43/59] fix: reading more items than shared memory holds throws
 instead of dereferencing null

---
 src/maidsafe/common/ipc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maidsafe/common/ipc.cc b/src/maidsafe/common/ipc.cc
index 98a2922..f257ece 100644
--- a/src/maidsafe/common/ipc.cc
+++ b/src/maidsafe/common/ipc.cc
@@ -19,6 +19,7 @@
 #include "maidsafe/common/ipc.h"
 
 #include "maidsafe/common/encode.h"
+#include "maidsafe/common/error.h"
 #include "maidsafe/common/utils.h"
 
 namespace maidsafe {
@@ -53,6 +54,8 @@ std::vector<std::string> ReadSharedMemory(std::string name_in, int number) {
   std::vector<std::string> ret_vec;
   for (int i(0); i < number; ++i) {
     auto res = segment.find<bi_string>(std::to_string(i).c_str());
+    if (!res.first)
+      BOOST_THROW_EXCEPTION(MakeError(CommonErrors::no_such_element));
     ret_vec.push_back(hex::DecodeToString(std::string(res.first->c_str(), res.first->size())));
   }
   return ret_vec;
-- 
2.43.0


From 9b3c4bfa30de10bc2a42448e8a07812408e5e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:27 +0000
Subject: [PATCH 44/59] fix: the profiler's long or negative durations
 overflowed their buffer

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index 1487146..dc358e2 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -46,7 +46,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
 std::string DurationToString(const std::chrono::high_resolution_clock::duration& duration) {
   long long nanos(  // NOLINT
       std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count());
-  std::vector<char> buffer(21, 0);
+  std::vector<char> buffer(32, 0);
   std::sprintf(&buffer[0], "%8lli.%09lli s", nanos / 1000000000, nanos % 1000000000);  // NOLINT
   return std::string(&buffer[0]);
 }
-- 
2.43.0


From 1e7d48eef99a0d1eabd8c3ce37c3a1e2e4f1ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:34 +0000
Subject: [PATCH 45/59] fix: a profiled path ending in "maidsafe" terminated
 the process

---
 src/maidsafe/common/profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/profiler.cc b/src/maidsafe/common/profiler.cc
index dc358e2..1b0011e 100644
--- a/src/maidsafe/common/profiler.cc
+++ b/src/maidsafe/common/profiler.cc
@@ -37,7 +37,7 @@ std::string LocationToString(const ProfileEntry::Location& location) {
   auto result(location.file);
   boost::replace_all(result, "\\", "/");
   size_t position(result.rfind("maidsafe"));
-  if (position != std::string::npos && position != 0)
+  if (position != std::string::npos && position != 0 && position + 9 <= result.size())
     result = result.substr(position + 9);
   result += ":" + std::to_string(location.line) + "] " + location.function;
   return result;
-- 
2.43.0


From bd35472cf261cf932751f9a31bb79ac64fbd697a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:00 +0000
Subject: [PATCH 46/59] fix: asking for the home directory of an unknown user
 or without HOME crashed

---
 include/maidsafe/common/application_support_directories.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maidsafe/common/application_support_directories.h b/include/maidsafe/common/application_support_directories.h
index cc6af9e..5136971 100644
--- a/include/maidsafe/common/application_support_directories.h
+++ b/include/maidsafe/common/application_support_directories.h
@@ -56,11 +56,11 @@ inline boost::filesystem::path GetHomeDir() {
     return boost::filesystem::path(env_home_drive + env_home2);
 #elif defined(MAIDSAFE_APPLE) || defined(MAIDSAFE_LINUX)
   struct passwd* p = getpwuid(getuid());  // NOLINT (dirvine)
-  std::string home(p->pw_dir);
+  std::string home(p && p->pw_dir ? p->pw_dir : "");
   if (!home.empty())
     return boost::filesystem::path(home);
-  std::string env_home(std::getenv("HOME"));
-  if (!env_home.empty())
+  const char* env_home(std::getenv("HOME"));
+  if (env_home && *env_home)
     return boost::filesystem::path(env_home);
 #endif
   LOG(kError) << "Cannot deduce home directory path";
-- 
2.43.0


From d7aeb379c457e70514c3c38ae962f5087985f872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:26 +0000
Subject: [PATCH 47/59] fix: the bootstrap file tool took ports followed by
 anything

"80abc" was taken as a port, and so were ports with a sign or blanks in front.
---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index ba9fa47..52b008f 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -254,6 +254,8 @@ class InputPolicyGetEndpoint {
 
   bool GetPort(const std::string& entered_port,
                std::function<bool(const std::string&)> fail_functor, uint16_t& port) const {
+    if (entered_port.find_first_not_of("0123456789") != std::string::npos)
+      return fail_functor("invalid port " + entered_port + ").");
     try {
       int port_as_int = std::stoi(entered_port);
       if (port_as_int < 1025 || port_as_int > std::numeric_limits<uint16_t>::max())
-- 
2.43.0


From e64a95b2260479693756eb5815a0bf3719f58e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:17 +0000
Subject: [PATCH 48/59] fix: a bad endpoint in a bootstrap file cleared the
 list, and was reported as loaded

Loading assigned endpoint by endpoint and reported success after an exception; ports that are none
were wrapped into range.
---
 .../common/tools/bootstrap_file_tool.cc         | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index 52b008f..31c9780 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -23,7 +23,10 @@
 #include <ios>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <string>
+#include <utility>
+#include <vector>
 
 #include "boost/asio/ip/udp.hpp"
 #include "boost/filesystem/operations.hpp"
@@ -303,15 +306,19 @@ class HandlePolicyLoadBootstrapFile {
         TLOG(kRed) << '\n' << bootstrap_file << " doesn't contain any endpoints.\n\n";
         return;
       }
-      g_bootstrap_endpoints.clear();
-      for (std::size_t i(0); i != parsed_endpoints.bootstrap_contacts_.size(); ++i) {
-        g_bootstrap_endpoints.push_back(boost::asio::ip::udp::endpoint(
-            boost::asio::ip::address_v4::from_string(parsed_endpoints.bootstrap_contacts_[i].ip_),
-            static_cast<uint16_t>(parsed_endpoints.bootstrap_contacts_[i].port_)));
+      std::vector<boost::asio::ip::udp::endpoint> loaded_endpoints;
+      for (const auto& contact : parsed_endpoints.bootstrap_contacts_) {
+        if (contact.port_ < 0 || contact.port_ > std::numeric_limits<uint16_t>::max())
+          throw std::out_of_range("invalid port " + std::to_string(contact.port_));
+        loaded_endpoints.push_back(boost::asio::ip::udp::endpoint(
+            boost::asio::ip::address_v4::from_string(contact.ip_),
+            static_cast<uint16_t>(contact.port_)));
       }
+      g_bootstrap_endpoints = std::move(loaded_endpoints);
       g_out_of_date = false;
     } catch (const std::exception& e) {
       TLOG(kRed) << "\nException while loading " << bootstrap_file << ": " << e.what() << "\n\n";
+      return;
     }
     TLOG(kGreen) << "\nLoaded " << bootstrap_file << "\n\n";
   }
-- 
2.43.0


From c6328902ee64868e529c259461793316dcfb4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:44 +0000
Subject: [PATCH 49/59] fix: the bootstrap file tool never ended once its input
 had

At the end of input it asked for a choice, endpoint or path over and over again.
---
 src/maidsafe/common/tools/bootstrap_file_tool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/bootstrap_file_tool.cc b/src/maidsafe/common/tools/bootstrap_file_tool.cc
index 31c9780..4be15ce 100644
--- a/src/maidsafe/common/tools/bootstrap_file_tool.cc
+++ b/src/maidsafe/common/tools/bootstrap_file_tool.cc
@@ -69,6 +69,8 @@ class Choice : private MessagePolicy, private InputPolicy, private HandlePolicy
       std::string error_info;
       if (InputPolicy::GetInput(input, error_info))
         break;
+      if (!std::cin)
+        return;
       MessagePolicy::PrintErrorMessage(error_info);
     }
     HandlePolicy::HandleInput(input);
@@ -443,7 +445,10 @@ int GetChoice() {
   int choice(-1);
   for (;;) {
     TLOG(kDefaultColour) << ">> ";
-    std::getline(std::cin, input);
+    if (!std::getline(std::cin, input)) {  // There won't be any more choices
+      g_out_of_date = false;
+      return ExitChoice::index;
+    }
     try {
       choice = std::stoi(input);
     } catch (const std::exception&) {
-- 
2.43.0


From 6fa471bb2566407a937fe430092df733862864ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:55 +0000
Subject: [PATCH 50/59] fix: the signing tool did not take notice of keys that
 had been loaded

A loaded key could not be saved, and forming a group replaced it by a new one; keys that are not
valid replaced the one held.
---
 src/maidsafe/common/tools/signing_tool.cc | 25 +++++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index c70d5e7..c86d776 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -140,12 +140,15 @@ void LoadPrivateKey() {
     std::cout << "error reading file\n";
     return;
   }
-  Keys.private_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key));
+  auto key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(*priv_key)));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key))
+  if (maidsafe::asymm::ValidateKey(key)) {
+    Keys.private_key = key;
+    have_private_key = true;
     std::cout << "private key loaded and valid \n";
-  else
+  } else {
     std::cout << "private key invalid !! \n";
+  }
 }
 
 void LoadPublicKey() {
@@ -157,12 +160,15 @@ void LoadPublicKey() {
     return;
   }
   std::cout << maidsafe::hex::Encode(*pub_key) << "\n";
-  Keys.public_key = maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key));
+  auto key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPublicKey(*pub_key)));
 
-  if (maidsafe::asymm::ValidateKey(Keys.public_key))
+  if (maidsafe::asymm::ValidateKey(key)) {
+    Keys.public_key = key;
+    have_public_key = true;
     std::cout << "public key loaded and valid \n";
-  else
+  } else {
     std::cout << "public key invalid !! \n";
+  }
 }
 
 void SignFile() {
@@ -332,10 +338,11 @@ void GroupSignIn() {
     }
   }
   priv_key = maidsafe::crypto::SecretRecoverData(chunks);
-  Keys.private_key =
-      maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string()));
+  auto key(maidsafe::asymm::DecodeKey(maidsafe::asymm::EncodedPrivateKey(priv_key.string())));
 
-  if (maidsafe::asymm::ValidateKey(Keys.private_key)) {
+  if (maidsafe::asymm::ValidateKey(key)) {
+    Keys.private_key = key;
+    have_private_key = true;
     std::cout << "private key loaded and valid \n";
     group_signed_in = true;
   } else {
-- 
2.43.0


From 10a7c5db116e44b1c5d687dd1d53b91c1ed17b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:21 +0000
Subject: [PATCH 51/59] fix: the signing tool ended abruptly at whatever it
 could not do

A wrong password, a damaged or missing file or key raised an exception nothing caught, which lost
the keys held.
---
 src/maidsafe/common/tools/signing_tool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index c86d776..059cd01 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -24,6 +24,7 @@
 #endif
 
 #include <cstdint>
+#include <exception>
 #include <fstream>
 #include <iostream>
 #include <istream>
@@ -449,7 +450,11 @@ int main() {
     Echo(true);
     std::cout << "_________________________________________________________________\n";
     Help();
-    Process(Get<int>("", true));
+    try {
+      Process(Get<int>("", true));
+    } catch (const std::exception& e) {
+      std::cout << "error: " << e.what() << "\n";
+    }
     std::cout << "_________________________________________________________________\n";
   }
 }
-- 
2.43.0


From 7755e4e8db14dd0f1c140cf14f4a172c660bc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:45 +0000
Subject: [PATCH 52/59] fix: the signing tool took only the first word of names
 and passwords

Files encrypted with a password of several words could be decrypted with any that shared the first,
and members whose names have several words could not sign in.
---
 src/maidsafe/common/tools/signing_tool.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 059cd01..a445b16 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -29,6 +29,7 @@
 #include <iostream>
 #include <istream>
 #include <ostream>
+#include <sstream>
 #include <string>
 #include <vector>
 #include "boost/filesystem.hpp"
@@ -421,6 +422,20 @@ void Process(int command) {
 #pragma warning(push)
 #pragma warning(disable : 4701)
 #endif
+template <class T>
+bool Convert(const std::string& input, T& value) {
+  return static_cast<bool>(std::stringstream(input) >> value);
+}
+
+// Names and passwords are whole lines
+template <>
+bool Convert<std::string>(const std::string& input, std::string& value) {
+  if (input.find_first_not_of(" \t") == std::string::npos)
+    return false;
+  value = input;
+  return true;
+}
+
 template <class T>
 T Get(std::string display_message, bool echo_input) {
   Echo(echo_input);
@@ -430,7 +445,7 @@ T Get(std::string display_message, bool echo_input) {
   std::string input;
   while (std::getline(std::cin, input, '\n')) {
     std::cout << prompt << std::flush;
-    if (std::stringstream(input) >> command) {
+    if (Convert(input, command)) {
       Echo(true);
       return command;
     } else {
-- 
2.43.0


From 30368a5deb75ab8999b6f6c80f18e7799bc25286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:13 +0000
Subject: [PATCH 53/59] fix: the signing tool showed passwords on the terminal
 after an empty answer

---
 src/maidsafe/common/tools/signing_tool.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index a445b16..6a14e34 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -449,7 +449,6 @@ T Get(std::string display_message, bool echo_input) {
       Echo(true);
       return command;
     } else {
-      Echo(true);
       std::cout << "invalid option\n";
       std::cout << prompt << std::flush;
     }
-- 
2.43.0


From b94f909f2f036f13eda5b9e0bd3a8298543faadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:17 +0000
Subject: [PATCH 54/59] fix: the signing tool never ended once its input had,
 and encrypted with an empty password

At the end of input every question was answered with nothing, for ever; a file was encrypted though
its password had been entered once only.
---
 src/maidsafe/common/tools/signing_tool.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/signing_tool.cc b/src/maidsafe/common/tools/signing_tool.cc
index 6a14e34..5983d9e 100644
--- a/src/maidsafe/common/tools/signing_tool.cc
+++ b/src/maidsafe/common/tools/signing_tool.cc
@@ -30,6 +30,7 @@
 #include <istream>
 #include <ostream>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 #include "boost/filesystem.hpp"
@@ -453,7 +454,8 @@ T Get(std::string display_message, bool echo_input) {
       std::cout << prompt << std::flush;
     }
   }
-  return command;
+  Echo(true);
+  throw std::runtime_error("end of input");
 }
 #if defined MAIDSAFE_WIN32
 #pragma warning(pop)
@@ -468,6 +470,8 @@ int main() {
       Process(Get<int>("", true));
     } catch (const std::exception& e) {
       std::cout << "error: " << e.what() << "\n";
+      if (!std::cin)
+        return 1;
     }
     std::cout << "_________________________________________________________________\n";
   }
-- 
2.43.0


From e0e6ee2e668bd90550eaef122be56b4ae067981c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:10 +0000
Subject: [PATCH 55/59] fix: types with a version were hashed without it when
 passed as constants

The version was looked up for the const-qualified type, so that equal values hashed differently.
---
 include/maidsafe/common/hash/algorithms/hash_algorithm_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
index 0b11a9a..db284ad 100644
--- a/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
+++ b/include/maidsafe/common/hash/algorithms/hash_algorithm_base.h
@@ -53,7 +53,7 @@ class HashAlgorithmBase {
   Derived* self() { return static_cast<Derived*>(this); }
 
   template <typename Type>
-  using Normalize = typename std::remove_reference<typename std::remove_cv<Type>::type>::type;
+  using Normalize = typename std::remove_cv<typename std::remove_reference<Type>::type>::type;
 
   template <typename Type>
   using IsVersionIntegral =
-- 
2.43.0


From 484cf5b872b24e7e579666c9a4a162dc6e1b3b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:22 +0000
Subject: [PATCH 56/59] fix: the address space tool accepts the path of a
 config file

---
 src/maidsafe/common/tools/address_space_tool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maidsafe/common/tools/address_space_tool.cc b/src/maidsafe/common/tools/address_space_tool.cc
index 44e23c8..67c7612 100644
--- a/src/maidsafe/common/tools/address_space_tool.cc
+++ b/src/maidsafe/common/tools/address_space_tool.cc
@@ -347,7 +347,7 @@ int main(int argc, char* argv[]) {
   // skip the first arg which is the path to this tool
   unused_options.erase(std::begin(unused_options));
 
-  if (unuseds.size() > 1 || maidsafe::tools::IsHelpOption(unused_options)) {
+  if (unused_options.size() > 1 || maidsafe::tools::IsHelpOption(unused_options)) {
     TLOG(kYellow) << "This tool should be invoked with logging arguments, and an optional path to "
                      "a config file.\nIf no config file path is provided, the tool will look for "
                      "one named " << maidsafe::tools::kDefaultConfigFilename
-- 
2.43.0


From b425e24690de55233b6572f7bdd501631d018211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:22 +0000
Subject: [PATCH 57/59] fix: no second closest node in a network of one

---
 src/maidsafe/common/tools/address_space_tool.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maidsafe/common/tools/address_space_tool.cc b/src/maidsafe/common/tools/address_space_tool.cc
index 67c7612..f82dd5c 100644
--- a/src/maidsafe/common/tools/address_space_tool.cc
+++ b/src/maidsafe/common/tools/address_space_tool.cc
@@ -67,10 +67,10 @@ int Test::CommonLeadingBits(int highest, int lowest, int sum, int count) const {
 }
 
 int Test::GroupCommonLeadingBits(size_t group_size) const {
-  if (config_.algorithm == CommonLeadingBitsAlgorithm::kClosest)
-    return maidsafe::CommonLeadingBits(all_nodes_[0].id, all_nodes_[1].id);
   if (all_nodes_.size() == 1)
     return 0;
+  if (config_.algorithm == CommonLeadingBitsAlgorithm::kClosest)
+    return maidsafe::CommonLeadingBits(all_nodes_[0].id, all_nodes_[1].id);
 
   int sum{0}, count{0}, highest{0}, lowest{512};
   auto itr(std::begin(all_nodes_));
-- 
2.43.0


From 89c2ab169fe27f93c3dd99e19743ed3aae74372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:09 +0000
Subject: [PATCH 58/59] fix: set the path of the executable once for narrow and
 wide names together

---
 src/maidsafe/common/config.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/maidsafe/common/config.cc b/src/maidsafe/common/config.cc
index 115346c..fea80fb 100644
--- a/src/maidsafe/common/config.cc
+++ b/src/maidsafe/common/config.cc
@@ -45,6 +45,7 @@ namespace maidsafe {
 namespace {
 
 boost::filesystem::path g_this_executable_path;
+std::once_flag g_this_executable_path_flag;
 
 }  // unnamed namespace
 
@@ -60,8 +61,7 @@ std::string kTargetArchitecture() {
 
 template <>
 void SetThisExecutablePath(const char* const argv[]) {
-  static std::once_flag flag;
-  std::call_once(flag, [argv] {
+  std::call_once(g_this_executable_path_flag, [argv] {
     const char* path = argv[0];
 #ifdef WIN32
     char buffer[32768];
@@ -101,14 +101,21 @@ void SetThisExecutablePath(const char* const argv[]) {
 
 template <>
 void SetThisExecutablePath(const wchar_t* const argv[]) {
-  static std::once_flag flag;
-  std::call_once(flag, [argv] {
+  std::call_once(g_this_executable_path_flag, [argv] {
     const wchar_t* path = argv[0];
 #ifdef WIN32
     wchar_t buffer[32768];
     if (_get_wpgmptr(const_cast<wchar_t**>(&path)))
       if (GetModuleFileNameW(nullptr, buffer, sizeof(buffer)))
         path = buffer;
+#endif
+#ifdef __linux__
+    char buffer[PATH_MAX];
+    ssize_t len = readlink("/proc/self/exe", buffer, sizeof(buffer));
+    if (len > 0 && static_cast<size_t>(len) < sizeof(buffer)) {
+      g_this_executable_path = boost::filesystem::path(buffer, buffer + len);
+      return;
+    }
 #endif
     try {
       g_this_executable_path = boost::filesystem::absolute(path);
-- 
2.43.0


From a96d42849cb7baa8c2a9e3b1edc3cc952fc53c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:46:09 +0000
Subject: [PATCH 59/59] fix: print each log message to the console whole, zero
 bytes included, and in one piece

---
 src/maidsafe/common/log.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/maidsafe/common/log.cc b/src/maidsafe/common/log.cc
index 7c2a321..c265da5 100644
--- a/src/maidsafe/common/log.cc
+++ b/src/maidsafe/common/log.cc
@@ -97,7 +97,8 @@ WORD GetColourAttribute(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+// Prints 'text' in 'colour' followed by 'plain_text' as one piece.
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   CONSOLE_SCREEN_BUFFER_INFO console_info_before;
   const HANDLE kConsoleHandle(GetStdHandle(STD_OUTPUT_HANDLE));
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
@@ -105,13 +106,14 @@ void ColouredPrint(Colour colour, const std::string& text) {
     int got_console_info = GetConsoleScreenBufferInfo(kConsoleHandle, &console_info_before);
     fflush(stdout);
     SetConsoleTextAttribute(kConsoleHandle, GetColourAttribute(colour));
-    printf("%s", text.c_str());
+    std::fwrite(text.data(), 1, text.size(), stdout);
     fflush(stdout);
     if (got_console_info != 0)
       SetConsoleTextAttribute(kConsoleHandle, console_info_before.wAttributes);
   } else {
-    printf("%s", text.c_str());
+    std::fwrite(text.data(), 1, text.size(), stdout);
   }
+  std::fwrite(plain_text.data(), 1, plain_text.size(), stdout);
   fflush(stdout);
 }
 
@@ -132,7 +134,8 @@ const char* GetAnsiColourCode(Colour colour) {
   }
 }
 
-void ColouredPrint(Colour colour, const std::string& text) {
+// Prints 'text' in 'colour' followed by 'plain_text' as one piece.
+void ColouredPrint(Colour colour, const std::string& text, const std::string& plain_text = "") {
   // On non-Windows platforms, we rely on the TERM variable.
   std::lock_guard<maidsafe::detail::Spinlock> lock(g_console_mutex());
   auto env_ptr = std::getenv("TERM");
@@ -144,9 +147,10 @@ void ColouredPrint(Colour colour, const std::string& text) {
   const bool kUseColour = in_colour_mode && (colour != Colour::kDefaultColour);
   if (kUseColour)
     printf("\033[0;3%sm", GetAnsiColourCode(colour));
-  printf("%s", text.c_str());
+  std::fwrite(text.data(), 1, text.size(), stdout);
   if (kUseColour)
     printf("\033[m");
+  std::fwrite(plain_text.data(), 1, plain_text.size(), stdout);
   fflush(stdout);
 }
 
@@ -265,10 +269,9 @@ void SendToConsole(ColourMode colour_mode, Colour colour, int level,
   if (colour_mode == ColourMode::kFullLine) {
     ColouredPrint(colour, coloured_log_entry + plain_log_entry);
   } else if (colour_mode == ColourMode::kPartialLine) {
-    ColouredPrint(colour, coloured_log_entry);
-    printf("%s", plain_log_entry.c_str());
+    ColouredPrint(colour, coloured_log_entry, plain_log_entry);
   } else {
-    printf("%s%s", coloured_log_entry.c_str(), plain_log_entry.c_str());
+    ColouredPrint(Colour::kDefaultColour, coloured_log_entry + plain_log_entry);
   }
   static_cast<void>(level);
 #endif
-- 
2.43.0

