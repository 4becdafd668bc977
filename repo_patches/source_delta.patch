From a387478c199219ce09924a2fa80a08833d47b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:12 +0000
Subject: [PATCH 01/27] fix: clear the output bytes of a bitset before setting
 its bits

Bits were or-ed into whatever the buffer held before, so writing over an
older message produced stale bits.
---
 zpp_bits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 8576f61..0f92175 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2328,6 +2328,9 @@ protected:
         }
 
         auto data = m_data.data() + m_position;
+        for (std::size_t i = 0; i < size_in_bytes; ++i) {
+            data[i] = byte_type{};
+        }
         for (std::size_t i = 0; i < size; ++i) {
             auto & value = data[i / CHAR_BIT];
             value = byte_type(static_cast<unsigned char>(value) |
-- 
2.43.0


From de3695d439a0861287263734317f816b3a1b4fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 02/27] fix: write the message size of a protocol message in
 the archive's byte order

The placeholder was written and the size was read back in the archive's
byte order, but the final size was written in native order.
---
 zpp_bits.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 0f92175..7c6a81b 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2403,10 +2403,13 @@ protected:
                     m_position += move_ahead_count;
                 }
             }
-            return basic_out<std::span<byte_type, sizeof(SizeType)>>{
+            return basic_out<std::span<byte_type, sizeof(SizeType)>,
+                             std::conditional_t<endian_aware,
+                                                endian::swapped,
+                                                endian::native>>{
                 std::span<byte_type, sizeof(SizeType)>{
-                    m_data.data() + size_position, sizeof(SizeType)}}(
-                SizeType(message_size));
+                    m_data.data() + size_position, sizeof(SizeType)},
+                {}}(SizeType(message_size));
         } else {
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
-- 
2.43.0


From 9457d16e44abf17927a2b59a9166499b1de1826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:24 +0000
Subject: [PATCH 03/27] fix: write protocol fields in little endian for byte
 swapping varint sized archives

The message body was written through the archive itself whenever its
default size type was a varint, even if that archive swaps bytes.
---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 7c6a81b..1d3e956 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4705,8 +4705,8 @@ struct pb
         using archive_type = typename std::remove_cvref_t<decltype(archive)>;
         if constexpr (!concepts::varint<
                           typename archive_type::default_size_type> ||
-                      ((std::endian::little != std::endian::native) &&
-                       !archive_type::endian_aware)) {
+                      ((std::endian::little == std::endian::native) ==
+                       archive_type::endian_aware)) {
             out out{archive.data(),
                     size_varint{},
                     no_fit_size{},
-- 
2.43.0


From e30550080d7d3a3ad8d62edd7c90b533b661b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 04/27] fix: honour the field number of repeated message and
 string pb fields

The tag of every element was made from the element type, which dropped the
number given with pb_field.
---
 zpp_bits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 1d3e956..b874341 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4921,7 +4921,8 @@ struct pb
             return {};
         } else {
             constexpr auto tag =
-                make_tag<typename type::value_type, Index>();
+                make_tag_explicit<typename type::value_type>(
+                    field_number<tag_type, Index>());
             for (auto & element : item) {
                 if (auto result = archive(tag, element); failure(result))
                     [[unlikely]] {
-- 
2.43.0


From 4c5a7236cafe00537a9f3ae54e76a4cd8f8a91c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 05/27] fix: skip the contents of unknown and reserved protocol
 fields

Only the tag of a field that has no matching member was consumed, so its
contents were then parsed as tags.
---
 zpp_bits.h | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b874341..10c7ddd 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4989,6 +4989,40 @@ struct pb
         return {};
     }
 
+    constexpr static errc skip_field(auto & archive, wire_type field_type)
+    {
+        std::size_t size{};
+        switch (field_type) {
+        case wire_type::varint: {
+            vuint64_t value;
+            return archive(value);
+        }
+        case wire_type::fixed_64:
+            size = sizeof(std::uint64_t);
+            break;
+        case wire_type::length_delimited: {
+            vsize_t length;
+            if (auto result = archive(length); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            size = length;
+            break;
+        }
+        case wire_type::fixed_32:
+            size = sizeof(std::uint32_t);
+            break;
+        default:
+            return std::errc::protocol_error;
+        }
+
+        if (size > archive.remaining_data().size()) [[unlikely]] {
+            return std::errc::result_out_of_range;
+        }
+        archive.position() += size;
+        return {};
+    }
+
     template <std::size_t Index = 0>
     ZPP_BITS_INLINE constexpr static auto
     deserialize_field(auto & archive,
@@ -5001,7 +5035,7 @@ struct pb
             if (!field_num) [[unlikely]] {
                 return errc{std::errc::protocol_error};
             }
-            return errc{};
+            return skip_field(archive, field_type);
         } else if (field_number_from_struct<type, Index>() != field_num) {
             return deserialize_field<Index + 1>(
                 archive, item, field_num, field_type);
@@ -5045,6 +5079,8 @@ struct pb
             }
             item = value;
             return errc{};
+        } else if constexpr (concepts::empty<type>) {
+            return skip_field(archive, field_type);
         } else if constexpr (is_pb_field<type>()) {
             return deserialize_field(
                 archive,
-- 
2.43.0


From 7b959178d8eccd30e50d10b9efa26e26121961c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 06/27] fix: reject protocol messages that are longer than the
 remaining data

The size was silently clamped to the remaining data, so a truncated message
was accepted.
---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 10c7ddd..2949951 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3109,6 +3109,10 @@ private:
                 return result;
             }
 
+            if (size > m_data.size() - m_position) [[unlikely]] {
+                return std::errc::result_out_of_range;
+            }
+
             if constexpr (requires {typename type::serialize;}) {
                 constexpr auto protocol = type::serialize::value;
                 return protocol(*this, item, size);
-- 
2.43.0


From dcf0de8654590255fb90649e54ca95693bf5daaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 07/27] fix: check the length of packed protocol fields against
 the data

The length of a string or packed field was used to reserve or resize before
looking at the remaining data, packed varints ignored the allocation limit,
and lengths that do not end on an element boundary were accepted.
---
 zpp_bits.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 2949951..cba5343 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5166,16 +5166,23 @@ struct pb
                     return result;
                 }
 
+                if constexpr (archive_type::allocation_limit !=
+                              std::numeric_limits<std::size_t>::max()) {
+                    if (length > archive_type::allocation_limit)
+                        [[unlikely]] {
+                        return errc{std::errc::message_size};
+                    }
+                }
+                if (length > archive.remaining_data().size())
+                    [[unlikely]] {
+                    return errc{std::errc::result_out_of_range};
+                }
+
                 if constexpr (requires { item.resize(1); } &&
                               (std::is_fundamental_v<value_type> ||
                                std::same_as<value_type, std::byte>)) {
-                    if constexpr (archive_type::allocation_limit !=
-                                  std::numeric_limits<
-                                      std::size_t>::max()) {
-                        if (length > archive_type::allocation_limit)
-                            [[unlikely]] {
-                            return errc{std::errc::message_size};
-                        }
+                    if (length % sizeof(value_type)) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
                     }
                     item.resize(length / sizeof(value_type));
                     return archive(unsized(item));
@@ -5192,6 +5199,10 @@ struct pb
                         }
                     }
 
+                    if (archive.position() != end_position) [[unlikely]] {
+                        return errc{std::errc::protocol_error};
+                    }
+
                     return errc{};
                 }
             } else {
-- 
2.43.0


From 5ba213a97ec9c572462b4edbdea91dae51491ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 08/27] fix: append further chunks of a packed fixed width
 protocol field

Each chunk replaced the elements of the previous ones, unlike packed varints.
---
 zpp_bits.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index cba5343..bc307b1 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5184,8 +5184,19 @@ struct pb
                     if (length % sizeof(value_type)) [[unlikely]] {
                         return errc{std::errc::protocol_error};
                     }
-                    item.resize(length / sizeof(value_type));
-                    return archive(unsized(item));
+                    if (sizeof(value_type) == 1 || item.empty()) {
+                        item.resize(length / sizeof(value_type));
+                        return archive(unsized(item));
+                    }
+                    auto end_position = length + archive.position();
+                    while (archive.position() < end_position) {
+                        if (auto result = fetch(); failure(result))
+                            [[unlikely]] {
+                            return result;
+                        }
+                    }
+
+                    return errc{};
                 } else {
                     if constexpr (requires { item.reserve(1); }) {
                         item.reserve(length);
-- 
2.43.0


From f17adbe5037ccefedcffbac57272e6b96b5d2a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 09/27] fix: let the last of several equal protocol map keys
 win

The first value was kept, while the protocol and every other implementation
use the last one.
---
 zpp_bits.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index bc307b1..2ce7eeb 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5125,7 +5125,17 @@ struct pb
                 return result;
             }
 
-            item.emplace(std::move(object->key), std::move(object->value));
+            if constexpr (requires {
+                              item.insert_or_assign(
+                                  std::move(object->key),
+                                  std::move(object->value));
+                          }) {
+                item.insert_or_assign(std::move(object->key),
+                                      std::move(object->value));
+            } else {
+                item.emplace(std::move(object->key),
+                             std::move(object->value));
+            }
             return errc{};
         } else {
             using orig_value_type = typename type::value_type;
-- 
2.43.0


From c8a4c15f12f0f1f23414c8a7e8e463c737ec1f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 10/27] fix: accept sign extended negative values in protocol
 varint fields

The protocol encodes negative int32 and enum values with ten bytes, which
were rejected as too large for the member's type.
---
 zpp_bits.h | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 2ce7eeb..51f4d1d 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5068,6 +5068,25 @@ struct pb
         }
     }
 
+    template <typename Type, varint_encoding Encoding>
+    ZPP_BITS_INLINE constexpr static errc
+    deserialize_varint(auto & archive, varint<Type, Encoding> & item)
+    {
+        if constexpr (varint_encoding::normal == Encoding &&
+                      sizeof(Type) < sizeof(std::uint64_t)) {
+            // Negative values are sign extended to 64 bits on the wire.
+            vuint64_t value;
+            if (auto result = archive(value); failure(result))
+                [[unlikely]] {
+                return result;
+            }
+            item.value = Type(value.value);
+            return {};
+        } else {
+            return archive(item);
+        }
+    }
+
     ZPP_BITS_INLINE constexpr static auto deserialize_field(
         auto & archive, wire_type field_type, auto & item)
     {
@@ -5077,8 +5096,8 @@ struct pb
 
         if constexpr (std::is_enum_v<type>) {
             varint<type> value;
-            if (auto result = archive(value); failure(result))
-                [[unlikely]] {
+            if (auto result = deserialize_varint(archive, value);
+                failure(result)) [[unlikely]] {
                 return result;
             }
             item = value;
@@ -5090,6 +5109,8 @@ struct pb
                 archive,
                 field_type,
                 static_cast<typename type::pb_field_type &>(item));
+        } else if constexpr (concepts::varint<type>) {
+            return deserialize_varint(archive, item);
         } else if constexpr (!concepts::container<type>) {
             return archive(item);
         } else if constexpr (concepts::associative_container<type> &&
@@ -5150,8 +5171,14 @@ struct pb
                           concepts::varint<value_type>) {
                 auto fetch = [&]() ZPP_BITS_CONSTEXPR_INLINE_LAMBDA {
                     value_type value;
-                    if (auto result = archive(value); failure(result))
-                        [[unlikely]] {
+                    if constexpr (concepts::varint<value_type>) {
+                        if (auto result =
+                                deserialize_varint(archive, value);
+                            failure(result)) [[unlikely]] {
+                            return result;
+                        }
+                    } else if (auto result = archive(value);
+                               failure(result)) [[unlikely]] {
                         return result;
                     }
 
-- 
2.43.0


From 203034e5196e1a44c947808cd37fdb58ba70e11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 11/27] fix: grow the output buffer by the actual size of a
 varint

The buffer was grown for the largest varint of the type, which left trailing
bytes behind with an exact enlarger, and failed within the allocation limit.
---
 zpp_bits.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 51f4d1d..44fc101 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1671,20 +1671,17 @@ ZPP_BITS_INLINE constexpr auto serialize(
     }
 
     constexpr auto max_size = varint_max_size<Type>;
-    if constexpr (Archive::resizable) {
-        if (auto result = archive.enlarge_for(max_size); failure(result))
-            [[unlikely]] {
-            return result;
-        }
-    }
-
     auto data = archive.remaining_data();
-    if constexpr (!Archive::resizable) {
-        auto data_size = data.size();
-        if (data_size < max_size) [[unlikely]] {
-            if (data_size < varint_size(value)) [[unlikely]] {
-                return errc{std::errc::result_out_of_range};
+    auto data_size = data.size();
+    if (data_size < max_size) [[unlikely]] {
+        if constexpr (Archive::resizable) {
+            if (auto result = archive.enlarge_for(varint_size(value));
+                failure(result)) [[unlikely]] {
+                return result;
             }
+            data = archive.remaining_data();
+        } else if (data_size < varint_size(value)) [[unlikely]] {
+            return errc{std::errc::result_out_of_range};
         }
     }
 
-- 
2.43.0


From efc10e19de2c3ecd45569200c4fe9258d817d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:40 +0000
Subject: [PATCH 12/27] fix: compute the required output size from the current
 position

The size of the existing contents was added even when they are about to be
overwritten, so exact growth left stale bytes after the data and the
allocation limit was reported as exceeded too early.
---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 44fc101..4ed4c5a 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1968,9 +1968,9 @@ public:
             constexpr auto divisor = std::get<1>(enlarger);
             static_assert(multiplier != 0 && divisor != 0);
 
-            auto required_size = size + additional_size;
+            auto required_size = m_position + additional_size;
             if constexpr (!no_enlarge_overflow) {
-                if (required_size < size) [[unlikely]] {
+                if (required_size < m_position) [[unlikely]] {
                     return std::errc::no_buffer_space;
                 }
             }
-- 
2.43.0


From a4bbb946ab8ab3f3fd405561267fcbe4928e0354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 13/27] fix: pad sha1 and sha256 messages with room for their
 length

Messages of 56 to 63 bytes modulo 64 did not compile, because the length did
not fit in the padding of the last chunk.
---
 zpp_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 4ed4c5a..ffdf850 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5443,7 +5443,8 @@ constexpr auto sha1()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
@@ -5568,7 +5569,8 @@ constexpr auto sha256()
         original_message,
         std::byte{0x80},
         std::array<std::byte,
-                   align(original_message.size() + sizeof(std::byte{0x80}),
+                   align(original_message.size() + sizeof(std::byte{0x80}) +
+                             sizeof(std::uint64_t{original_message.size()}),
                          chunk_size) -
                        original_message.size() - sizeof(std::byte{0x80}) -
                        sizeof(std::uint64_t{original_message.size()})>{},
-- 
2.43.0


From 5f75a40ea4fcc4b53fbfb0af796d87bc973627ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 14/27] fix: serialize no more items than the serialized size
 of a container

Containers with more items than their size type holds are documented to
serialize less items, but the truncated size was followed by all of them.
---
 zpp_bits.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index ffdf850..b3c4809 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2206,14 +2206,16 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result =
-                        serialize_one(static_cast<SizeType>(size));
+                auto serialized_size = static_cast<SizeType>(size);
+                if (auto result = serialize_one(serialized_size);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                size = std::min<std::size_t>(size, serialized_size);
             }
             return serialize_one(bytes(container, size));
         } else {
+            auto count = std::numeric_limits<std::size_t>::max();
             if constexpr (!std::is_void_v<SizeType> &&
                           (concepts::associative_container<
                                decltype(container)> ||
@@ -2230,13 +2232,18 @@ protected:
                                    requires concepts::
                                        has_fixed_nonzero_size<type>;
                                }))) {
-                if (auto result = serialize_one(
-                        static_cast<SizeType>(container.size()));
+                auto serialized_size =
+                    static_cast<SizeType>(container.size());
+                if (auto result = serialize_one(serialized_size);
                     failure(result)) [[unlikely]] {
                     return result;
                 }
+                count = serialized_size;
             }
             for (auto & item : container) {
+                if (!count--) [[unlikely]] {
+                    break;
+                }
                 if (auto result = serialize_one(item); failure(result))
                     [[unlikely]] {
                     return result;
-- 
2.43.0


From d4193997f9591c9f8678689844a98a12a08a9f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 15/27] fix: count the members of aggregates that hold an
 optional

---
 zpp_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index b3c4809..dc3a262 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -168,7 +168,7 @@ struct access
     struct any
     {
         template <typename Type>
-        operator Type();
+        operator Type() const;
     };
 
     template <typename Item>
-- 
2.43.0


From 74f65dc51d3a89fb5df95cfb908072eb18dd9839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 16/27] fix: never copy empty elements of containers as bytes

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index dc3a262..3f03aa7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1300,6 +1300,8 @@ constexpr auto access::byte_serializable()
 
     if constexpr (members_count < 0) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_explicit_serialize<type,
@@ -1362,6 +1364,8 @@ constexpr auto access::endian_independent_byte_serializable()
 
     if constexpr (members_count < 0) {
         return false;
+    } else if constexpr (concepts::empty<type>) {
+        return false;
     } else if constexpr (!std::is_trivially_copyable_v<type>) {
         return false;
     } else if constexpr (has_explicit_serialize<type,
-- 
2.43.0


From d9d69b82666a0f7c6d4e7d6e44045ebbfce3a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:23 +0000
Subject: [PATCH 17/27] fix: reading a variant alternative that is not default
 constructible by a known id fell off the end of the function

---
 zpp_bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3f03aa7..f1f8966 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3012,6 +3012,7 @@ private:
                     return result;
                 }
                 variant = std::move(*object);
+                return {};
             }
         } else {
             typename traits::variant<type>::id_type id;
-- 
2.43.0


From 3b2c5c36f3111b4ccac52b86ce690daac2953bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 18/27] fix: keep references that an applied function returns

---
 zpp_bits.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index f1f8966..dd1fffa 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3499,11 +3499,18 @@ struct [[nodiscard]] value_or_errc
 
     constexpr value_or_errc() = default;
 
-    constexpr explicit value_or_errc(auto && value) :
+    constexpr explicit value_or_errc(auto && value) requires(
+        !std::is_reference_v<Type>) :
         m_return_value(std::forward<decltype(value)>(value))
     {
     }
 
+    constexpr explicit value_or_errc(auto && value) requires
+        std::is_reference_v<Type> :
+        m_return_value(std::addressof(value))
+    {
+    }
+
     constexpr explicit value_or_errc(error_type error) :
         m_error(std::forward<decltype(error)>(error)),
         m_failure(true)
-- 
2.43.0


From 8547d72a8d847c70dd2e8d5ae5aab01943e72828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:45 +0000
Subject: [PATCH 19/27] fix: convert RPC arguments that are not fundamental
 through const references

---
 zpp_bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index dd1fffa..173fec6 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -3931,8 +3931,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
@@ -3988,8 +3988,8 @@ struct rpc_impl
                                     std::declval<parameters_type>()))>>,
                         std::remove_cvref_t<decltype(get<Indices>(
                             std::declval<parameters_type>()))>,
-                        const decltype(get<Indices>(
-                            std::declval<parameters_type>())) &>>(
+                        const std::remove_cvref_t<decltype(get<Indices>(
+                            std::declval<parameters_type>()))> &>>(
                         arguments)...);
             }
         }
-- 
2.43.0


From 14824c5a9b5fc5bb13bfea7d36db945a0058ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 20/27] fix: write negative values of small enums as negative
 protobuf enums

---
 zpp_bits.h | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 173fec6..473ac83 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4715,6 +4715,26 @@ struct pb
         return make_tag_explicit(WireType, field_number<Type, Index>());
     }
 
+    constexpr static auto enum_value(auto value)
+    {
+        // Enumerations are signed integers of at least 32 bits on the wire.
+        using type = std::underlying_type_t<decltype(value)>;
+        return std::conditional_t<sizeof(type) < sizeof(std::int32_t),
+                                  std::int32_t,
+                                  type>(value);
+    }
+
+    constexpr static decltype(auto) wire_value(auto & value)
+    {
+        using type = std::remove_cvref_t<decltype(value)>;
+        if constexpr (std::is_enum_v<type> &&
+                      !std::same_as<type, std::byte>) {
+            return varint{enum_value(value)};
+        } else {
+            return (value);
+        }
+    }
+
     ZPP_BITS_INLINE constexpr auto
     operator()(auto & archive, auto & item) const requires(
         std::remove_cvref_t<decltype(archive)>::kind() == kind::out)
@@ -4827,8 +4847,7 @@ struct pb
         } else if constexpr (std::is_enum_v<type> &&
                              !std::same_as<type, std::byte>) {
             constexpr auto tag = make_tag<tag_type, Index>();
-            if (auto result = archive(
-                    tag, varint{std::underlying_type_t<type>(item)});
+            if (auto result = archive(tag, varint{enum_value(item)});
                 failure(result)) [[unlikely]] {
                 return result;
             }
@@ -4844,17 +4863,11 @@ struct pb
                              requires { typename type::mapped_type; }) {
             constexpr auto tag = make_tag<tag_type, Index>();
 
-            using key_type = std::conditional_t<
-                std::is_enum_v<typename type::key_type> &&
-                    !std::same_as<typename type::key_type, std::byte>,
-                varint<typename type::key_type>,
-                typename type::key_type>;
+            using key_type = std::remove_cvref_t<
+                decltype(wire_value(std::declval<typename type::key_type &>()))>;
 
-            using mapped_type = std::conditional_t<
-                std::is_enum_v<typename type::mapped_type> &&
-                    !std::same_as<typename type::mapped_type, std::byte>,
-                varint<typename type::mapped_type>,
-                typename type::mapped_type>;
+            using mapped_type = std::remove_cvref_t<decltype(
+                wire_value(std::declval<typename type::mapped_type &>()))>;
 
             struct value_type
             {
@@ -4867,7 +4880,9 @@ struct pb
 
             for (auto & [key, value] : item) {
                 if (auto result = archive(
-                        tag, value_type{.key = key, .value = value});
+                        tag,
+                        value_type{.key = wire_value(key),
+                                   .value = wire_value(value)});
                     failure(result)) [[unlikely]] {
                     return result;
                 }
@@ -4922,7 +4937,7 @@ struct pb
             using type = typename type::value_type;
             std::size_t size = {};
             for (auto & element : item) {
-                size += varint_size(std::underlying_type_t<type>(element));
+                size += varint_size(enum_value(element));
             }
             if (!size) [[unlikely]] {
                 return {};
@@ -4932,8 +4947,7 @@ struct pb
                 return result;
             }
             for (auto & element : item) {
-                if (auto result = archive(
-                        varint{std::underlying_type_t<type>(element)});
+                if (auto result = archive(varint{enum_value(element)});
                     failure(result)) [[unlikely]] {
                     return result;
                 }
-- 
2.43.0


From b997d413fa502f6fd69a113fb722757e195d80c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 21/27] fix: refuse protocol messages longer than their size
 prefix can express

---
 zpp_bits.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 473ac83..5345e15 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2410,6 +2410,9 @@ protected:
                     }
                     m_position += move_ahead_count;
                 }
+            } else if (message_size > std::numeric_limits<SizeType>::max())
+                [[unlikely]] {
+                return std::errc::message_size;
             }
             return basic_out<std::span<byte_type, sizeof(SizeType)>,
                              std::conditional_t<endian_aware,
-- 
2.43.0


From b11730ff286219bd6766943d56d6138a0a12c57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 22/27] fix: give the protobuf writer a declared return type
 (sized and unsized self-referencing messages did not compile)

---
 zpp_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 5345e15..27805ef 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4738,7 +4738,7 @@ struct pb
         }
     }
 
-    ZPP_BITS_INLINE constexpr auto
+    ZPP_BITS_INLINE constexpr errc
     operator()(auto & archive, auto & item) const requires(
         std::remove_cvref_t<decltype(archive)>::kind() == kind::out)
     {
-- 
2.43.0


From 8678c1ad48c55287fc418e0458994da91f7d2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 23/27] fix: write trivially copyable protocol messages by
 their protocol inside arrays, containers and structs

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 27805ef..54bbf06 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1307,6 +1307,8 @@ constexpr auto access::byte_serializable()
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
+    } else if constexpr (concepts::by_protocol<type>) {
+        return false;
     } else if constexpr (
         !requires {
             requires std::integral_constant<
@@ -1371,6 +1373,8 @@ constexpr auto access::endian_independent_byte_serializable()
     } else if constexpr (has_explicit_serialize<type,
                                                 traits::visitor<type>>()) {
         return false;
+    } else if constexpr (concepts::by_protocol<type>) {
+        return false;
     } else if constexpr (
         !requires {
             requires std::integral_constant<
-- 
2.43.0


From 2484e91caeef5d9a2f7fd0f2951d59f9cd3e69f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 24/27] fix: declare the return types of the archives and the
 protobuf reader (messages holding self-referencing messages did not compile)

---
 zpp_bits.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 54bbf06..a58a4a2 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -1927,7 +1927,7 @@ public:
         (options(*this), ...);
     }
 
-    ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
+    ZPP_BITS_INLINE constexpr errc operator()(auto &&... items)
     {
         return serialize_many(items...);
     }
@@ -2461,7 +2461,7 @@ public:
         (... ||
          std::same_as<std::remove_cvref_t<Options>, options::no_fit_size>);
 
-    ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
+    ZPP_BITS_INLINE constexpr errc operator()(auto &&... items)
     {
         if constexpr (resizable && !no_fit_size &&
                       enlarger != std::tuple{1, 1}) {
@@ -2550,7 +2550,7 @@ public:
         (options(*this), ...);
     }
 
-    ZPP_BITS_INLINE constexpr auto operator()(auto &&... items)
+    ZPP_BITS_INLINE constexpr errc operator()(auto &&... items)
     {
         return serialize_many(items...);
     }
@@ -5065,7 +5065,7 @@ struct pb
     }
 
     template <std::size_t Index = 0>
-    ZPP_BITS_INLINE constexpr static auto
+    ZPP_BITS_INLINE constexpr static errc
     deserialize_field(auto & archive,
                       auto && item,
                       auto field_num,
@@ -5124,7 +5124,7 @@ struct pb
         }
     }
 
-    ZPP_BITS_INLINE constexpr static auto deserialize_field(
+    ZPP_BITS_INLINE constexpr static errc deserialize_field(
         auto & archive, wire_type field_type, auto & item)
     {
         using type = std::remove_reference_t<decltype(item)>;
-- 
2.43.0


From 0b233d47f61a6731a44d5ff1b4a1522f4dc5ddf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 25/27] fix: append further chunks of packed repeated bools

---
 zpp_bits.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index a58a4a2..18cddd7 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -5258,7 +5258,9 @@ struct pb
                     if (length % sizeof(value_type)) [[unlikely]] {
                         return errc{std::errc::protocol_error};
                     }
-                    if (sizeof(value_type) == 1 || item.empty()) {
+                    if ((sizeof(value_type) == 1 &&
+                         !std::same_as<value_type, bool>) ||
+                        item.empty()) {
                         item.resize(length / sizeof(value_type));
                         return archive(unsized(item));
                     }
-- 
2.43.0


From ddc2840d7b03003758c96dce13077c2b68b030bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 26/27] fix: allow containers of byte arrays in byte swapping
 archives (they did not compile)

---
 zpp_bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zpp_bits.h b/zpp_bits.h
index 18cddd7..3f5e6bb 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -2096,7 +2096,7 @@ protected:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto item_size_in_bytes = item.size_in_bytes();
@@ -2667,7 +2667,7 @@ private:
                              }) {
             static_assert(
                 !endian_aware ||
-                concepts::byte_type<
+                concepts::endian_independent_byte_serializable<
                     std::remove_cvref_t<decltype(*item.data())>>);
 
             auto size = m_data.size();
-- 
2.43.0


From 006ebef99be46378c0efc94496f527c1ad7ece0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:37 +0000
Subject: [PATCH 27/27] fix: await throwing functions without a result in RPC
 servers (their errors were lost)

---
 zpp_bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zpp_bits.h b/zpp_bits.h
index 3f5e6bb..6dde8b5 100644
--- a/zpp_bits.h
+++ b/zpp_bits.h
@@ -4219,6 +4219,8 @@ struct rpc_impl
                                           decltype(result.value()
                                                        .await_resume())>) {
                             co_await out(co_await result.value());
+                        } else {
+                            co_await result.value();
                         }
                         co_return;
                     } else {
@@ -4271,6 +4273,8 @@ struct rpc_impl
                                           decltype(result.value()
                                                        .await_resume())>) {
                             co_await out(co_await result.value());
+                        } else {
+                            co_await result.value();
                         }
                         co_return;
                     } else {
-- 
2.43.0

