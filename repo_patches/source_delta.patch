From 2b66adb49b1f30251521249a43ad249b57b3d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 01/61] fix: mask values written to packed subfields so they
 cannot spill into neighbours

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 8ce0524..279363f 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -87,7 +87,7 @@ public:
         using traits = detail::field_traits<T,Pos,Bits>;
         // Fetch the current value in host order, then mask off the field bits
         value_type old_value = vrtgen::swap::from_be(m_value) & ~traits::mask;
-        value_type field_value = static_cast<value_type>(value) << traits::shift;
+        value_type field_value = (static_cast<value_type>(value) << traits::shift) & traits::mask;
         // Combine the new value with the existing bits, then store back in network order
         m_value = vrtgen::swap::to_be(static_cast<value_type>(old_value | field_value));
     }
-- 
2.43.0


From 0145d32856c2717c6c7068bed1ef1ae02209a070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 02/61] fix: initialise every member of the Spectrum structure

---
 include/vrtgen/packing/cif1.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 3be1c1b..82dc941 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -804,15 +804,15 @@ public:
 private:
     vrtgen::packed<uint32_t> m_spectrum_type;
     vrtgen::packed<uint32_t> m_window_type;
-    uint32_t m_num_transform_points;
-    uint32_t m_num_window_points;
-    uint64_t m_resolution;
-    uint64_t m_span;
-    uint32_t m_num_averages;
-    uint32_t m_weighting_factor;
-    int32_t m_f1_index;
-    int32_t m_f2_index;
-    uint32_t m_window_time_delta;
+    uint32_t m_num_transform_points{ 0 };
+    uint32_t m_num_window_points{ 0 };
+    uint64_t m_resolution{ 0 };
+    uint64_t m_span{ 0 };
+    uint32_t m_num_averages{ 0 };
+    uint32_t m_weighting_factor{ 0 };
+    int32_t m_f1_index{ 0 };
+    int32_t m_f2_index{ 0 };
+    uint32_t m_window_time_delta{ 0 };
 
 }; // class Spectrum
 
-- 
2.43.0


From 18b12505554640e9f0c40574a2af19f0298f1a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:38 +0000
Subject: [PATCH 03/61] fix: read the Spectrum resolution and span as the
 signed values they are written as

---
 include/vrtgen/packing/cif1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 82dc941..762c3d1 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -806,8 +806,8 @@ private:
     vrtgen::packed<uint32_t> m_window_type;
     uint32_t m_num_transform_points{ 0 };
     uint32_t m_num_window_points{ 0 };
-    uint64_t m_resolution{ 0 };
-    uint64_t m_span{ 0 };
+    int64_t m_resolution{ 0 };
+    int64_t m_span{ 0 };
     uint32_t m_num_averages{ 0 };
     uint32_t m_weighting_factor{ 0 };
     int32_t m_f1_index{ 0 };
-- 
2.43.0


From 50fbb7e0eb6b25605a047f7e3a393544b7fd3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 04/61] fix: convert azimuthal angles above 255.99 degrees
 without overflowing

---
 include/vrtgen/packing/cif1.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 762c3d1..b69bca4 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -151,7 +151,8 @@ public:
      */
     void azimuthal_angle(double value) noexcept
     {
-        subfield_15(value);
+        // Unsigned 16-bit range (0 to 511.99 degrees) does not fit a 16-bit signed conversion
+        m_packed.set<15,16>(vrtgen::fixed::to_int<32,7>(value));
     }
 
 }; // end class PointingVector
-- 
2.43.0


From 91d7076791a1ebbc819341ad12683d0dea4ded7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:17 +0000
Subject: [PATCH 05/61] fix: encode the unspecified Eb/No, BER and SNR default
 as 0x7FFF instead of overflowing the conversion

---
 include/vrtgen/packing/cif1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index b69bca4..f1aa6ee 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -234,8 +234,8 @@ public:
      */
     EbNoBER()
     {
-        ebno(0x7FFF);
-        ber(0x7FFF);
+        ebno(vrtgen::fixed::to_fp<16,7>(0x7FFF));
+        ber(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
@@ -430,7 +430,7 @@ public:
      */
     SNRNoise()
     {
-        snr(0x7FFF);
+        snr(vrtgen::fixed::to_fp<16,7>(0x7FFF));
     }
 
     /**
-- 
2.43.0


From aa098f005e542dc97ebb004cb2e9f9a039949a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 06/61] fix: pad the GPS ASCII sentences to whole words and
 count the words actually written

---
 include/vrtgen/packing/cif0.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 18ef03c..d374f2a 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1090,8 +1090,8 @@ public:
     void ascii_sentences(const std::vector<uint8_t>& value) noexcept
     {
         m_ascii_sentences = value;
-        m_ascii_sentences.resize(m_ascii_sentences.size() + (m_ascii_sentences.size() % 4));
-        number_of_words(m_ascii_sentences.size()/4);
+        m_ascii_sentences.resize(num_words()*4);
+        number_of_words(num_words());
     }
 
     /**
@@ -1101,7 +1101,7 @@ public:
     std::size_t size() const noexcept
     {
         return m_packed.size() +
-               m_ascii_sentences.size();
+               num_words()*4;
     }
 
     /**
@@ -1110,9 +1110,13 @@ public:
      */
     void pack_into(uint8_t* buffer_ptr) const
     {
-        m_packed.pack_into(buffer_ptr);
+        auto header = m_packed;
+        header.set<31,32>(num_words());
+        header.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         std::copy(m_ascii_sentences.data(), m_ascii_sentences.data() + m_ascii_sentences.size(), buffer_ptr);
+        // Zero pad up to the last whole word
+        std::fill(buffer_ptr + m_ascii_sentences.size(), buffer_ptr + num_words()*4, uint8_t{ 0 });
     }
 
     /**
@@ -1141,6 +1145,15 @@ private:
         m_packed.set<31,32>(value);
     }
 
+    /**
+     * @brief Returns the number of whole words taken by the ASCII Sentences
+     * @return Number of whole words taken by the ASCII Sentences
+     */
+    std::size_t num_words() const noexcept
+    {
+        return (m_ascii_sentences.size() + 3) / 4;
+    }
+
     vrtgen::packed<uint64_t> m_packed;
     std::vector<uint8_t> m_ascii_sentences;
 
-- 
2.43.0


From 65b9c8ce6728b7df643d61cc438effc58712ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 07/61] fix: put context association and index list entries on
 the wire in network byte order

---
 include/vrtgen/packing/cif0.hpp | 20 +++++++++++++++-----
 include/vrtgen/packing/cif1.hpp |  4 +++-
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index d374f2a..e9f8b6b 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1479,23 +1479,28 @@ public:
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto elem : m_source_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
         for (const auto elem : m_system_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
         for (const auto elem : m_vector_component_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
         for (const auto elem : m_async_channel_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
         for (const auto elem : m_async_channel_tag_list) {
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const auto value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
     }
@@ -1512,26 +1517,31 @@ public:
         m_source_list.resize(source_list_size());
         for (std::size_t i=0; i<m_source_list.size(); ++i) {
             std::memcpy(m_source_list.data() + i, ptr, sizeof(uint32_t));
+            m_source_list[i] = vrtgen::swap::from_be(m_source_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_system_list.resize(system_list_size());
         for (std::size_t i=0; i<m_system_list.size(); ++i) {
             std::memcpy(m_system_list.data() + i, ptr, sizeof(uint32_t));
+            m_system_list[i] = vrtgen::swap::from_be(m_system_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_vector_component_list.resize(vector_component_list_size());
         for (std::size_t i=0; i<m_vector_component_list.size(); ++i) {
             std::memcpy(m_vector_component_list.data() + i, ptr, sizeof(uint32_t));
+            m_vector_component_list[i] = vrtgen::swap::from_be(m_vector_component_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_list.size(); ++i) {
             std::memcpy(m_async_channel_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
         m_async_channel_tag_list.resize(async_channel_list_size());
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
+            m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
             ptr += sizeof(uint32_t);
         }
     }
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index f1aa6ee..05d25e6 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1144,7 +1144,8 @@ public:
         buffer_ptr += m_packed.size();
         for (const auto elem : m_entries) {
             static_assert(std::is_trivially_copyable_v<decltype(elem)>);
-            std::memcpy(buffer_ptr, &elem, sizeof(elem));
+            const T value = vrtgen::swap::to_be(elem);
+            std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
     }
@@ -1159,6 +1160,7 @@ public:
         m_entries.resize(num_entries());
         for (size_t i=0; i<m_entries.size(); ++i) {
             std::memcpy(m_entries.data() + i, ptr, sizeof(m_entries[i]));
+            m_entries[i] = vrtgen::swap::from_be(m_entries[i]);
             ptr += sizeof(m_entries[i]);
         }
     }
-- 
2.43.0


From 9d4358bb97d12ca5885aaf5a3fc41684eb8fa813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 08/61] fix: keep the asynchronous-channel tag list and its
 enable flag in step

---
 include/vrtgen/packing/cif0.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index e9f8b6b..5975bb4 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1476,6 +1476,7 @@ public:
         system_list_size(m_system_list.size());
         vector_component_list_size(m_vector_component_list.size());
         async_channel_list_size(m_async_channel_list.size());
+        async_channel_tag_list_enable(!m_async_channel_tag_list.empty());
         m_packed.pack_into(buffer_ptr);
         buffer_ptr += m_packed.size();
         for (const auto elem : m_source_list) {
@@ -1538,7 +1539,7 @@ public:
             m_async_channel_list[i] = vrtgen::swap::from_be(m_async_channel_list[i]);
             ptr += sizeof(uint32_t);
         }
-        m_async_channel_tag_list.resize(async_channel_list_size());
+        m_async_channel_tag_list.resize(async_channel_tag_list_enable() ? async_channel_list_size() : 0);
         for (std::size_t i=0; i<m_async_channel_tag_list.size(); ++i) {
             std::memcpy(m_async_channel_tag_list.data() + i, ptr, sizeof(uint32_t));
             m_async_channel_tag_list[i] = vrtgen::swap::from_be(m_async_channel_tag_list[i]);
-- 
2.43.0


From 2b8848f4282bae775adb2da7748cc542040ba316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:58 +0000
Subject: [PATCH 09/61] fix: derive the index list size, entry size and count
 on the wire from the entries

---
 include/vrtgen/packing/cif1.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 05d25e6..8f8636f 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1130,24 +1130,30 @@ public:
         std::size_t retval = 0;
         retval += sizeof(m_total_size);
         retval += m_packed.size();
-        if (!m_entries.empty()) {
-            retval += m_entries.size() * sizeof(T);
-        }
+        // Entries are packed into whole words
+        retval += (m_entries.size() * sizeof(T) + 3) / 4 * 4;
         return retval;
     }
 
     void pack_into(uint8_t* buffer_ptr) const
     {
-        std::memcpy(buffer_ptr, &m_total_size, sizeof(m_total_size));
-        buffer_ptr += sizeof(m_total_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        const auto end_ptr = buffer_ptr + size();
+        const auto total_size = vrtgen::swap::to_be(static_cast<uint32_t>(size() / 4));
+        std::memcpy(buffer_ptr, &total_size, sizeof(total_size));
+        buffer_ptr += sizeof(total_size);
+        auto header = m_packed;
+        header.template set<31,4>(sizeof(T));
+        header.template set<19,20>(m_entries.size());
+        header.pack_into(buffer_ptr);
+        buffer_ptr += header.size();
         for (const auto elem : m_entries) {
             static_assert(std::is_trivially_copyable_v<decltype(elem)>);
             const T value = vrtgen::swap::to_be(elem);
             std::memcpy(buffer_ptr, &value, sizeof(value));
             buffer_ptr += sizeof(elem);
         }
+        // Zero pad up to the last whole word
+        std::fill(buffer_ptr, end_ptr, uint8_t{ 0 });
     }
 
     void unpack_from(const uint8_t* buffer_ptr)
-- 
2.43.0


From a11297f018ce2d8aef6a1e5b904fd3dffbfb6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 10/61] fix: derive the sector step/scan size and record counts
 on the wire from the records

---
 include/vrtgen/packing/cif1.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 8f8636f..97e37d0 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1037,10 +1037,14 @@ public:
 
     void pack_into(uint8_t* buffer_ptr) const
     {
-        std::memcpy(buffer_ptr, &m_array_size, sizeof(m_array_size));
-        buffer_ptr += sizeof(m_array_size);
-        m_packed.pack_into(buffer_ptr);
-        buffer_ptr += m_packed.size();
+        const auto array_size = vrtgen::swap::to_be(static_cast<uint32_t>(size() / 4));
+        std::memcpy(buffer_ptr, &array_size, sizeof(array_size));
+        buffer_ptr += sizeof(array_size);
+        auto header = m_packed;
+        header.template set<23,12>(m_records.empty() ? 0 : m_records.front().size() / 4);
+        header.template set<11,12>(m_records.size());
+        header.pack_into(buffer_ptr);
+        buffer_ptr += header.size();
         m_subfield_cif.pack_into(buffer_ptr);
         buffer_ptr += m_subfield_cif.size();
         for (const auto& elem : m_records) {
-- 
2.43.0


From 0593a5ace7668b79cf2fa8dfd6ac9ce5df2e1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 11/61] fix: refuse user-defined trailer fields that do not fit
 their four bits

---
 src/vrtgen/parser/model/data.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 59030c1..56b36df 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -58,7 +58,6 @@ class Trailer(StateEventIndicators):
 
     def _parse_mapping(self, mapping):
         packed_tag_pos = 8
-        greater_than_two = False
         try:
             for key,val in mapping.items():
                 if not key in [f.name for f in self.fields]:
@@ -78,8 +77,6 @@ class Trailer(StateEventIndicators):
                             member_val += 1
                         user_defined_enum = BinaryEnum(key, enum_members)
                         user_defined_enum.bits = bits
-                        if bits > 2:
-                            greater_than_two = True
                         pos = packed_tag_pos + bits - 1
                         self.subfields.append(EnumType(key, enabled=True, required=True, user_defined=True, type_=user_defined_enum, packed_tag=PackedTag(pos,bits,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', bits=bits, enabled=True, required=True, user_defined=True, is_enable=True, is_enum=True, packed_tag=PackedTag(pos+12,bits,0,0)))
@@ -89,9 +86,9 @@ class Trailer(StateEventIndicators):
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
 
-            if len(self.subfields) > 4 and self.sample_frame.enabled:
-                raise ValueError('Cannot have user_defined_higher and sample_frame')
-            if greater_than_two and self.sample_frame.enabled:
+            if packed_tag_pos > 12:
+                raise ValueError('user defined trailer fields can only use 4 bits')
+            if packed_tag_pos > 10 and self.sample_frame.enabled:
                 raise ValueError('Cannot have user_defined_higher and sample_frame')
         except:
             raise
-- 
2.43.0


From b751ec5b5585beb159f3b21240116c2be5243629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:13 +0000
Subject: [PATCH 12/61] fix: list the Spectrum type subfields at their VITA
 49.2 positions in the model

---
 src/vrtgen/parser/model/cif1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 5922ee4..a02285b 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -143,9 +143,9 @@ class SpectrumType(PackedStruct):
     """
     name : str = 'SpectrumType'
     reserved: IntegerType = field(default_factory=lambda: IntegerType('reserved', bits=12, packed_tag=PackedTag(31,12,0)))
-    spectrum_type: IntegerType = field(default_factory=lambda: IntegerType('spectrum_type', bits=8, packed_tag=PackedTag(19,8,0)))
-    averaging_type: IntegerType = field(default_factory=lambda: IntegerType('averaging_type', bits=8, packed_tag=PackedTag(11,8,0)))
-    window_time : IntegerType = field(default_factory=lambda: IntegerType('window_time', bits=4, packed_tag=PackedTag(3,4,0)))
+    spectrum_type: IntegerType = field(default_factory=lambda: IntegerType('spectrum_type', bits=8, packed_tag=PackedTag(7,8,0)))
+    averaging_type: IntegerType = field(default_factory=lambda: IntegerType('averaging_type', bits=8, packed_tag=PackedTag(15,8,0)))
+    window_time : IntegerType = field(default_factory=lambda: IntegerType('window_time', bits=4, packed_tag=PackedTag(19,4,0)))
 
 @dataclass
 class WindowType(PackedStruct):
-- 
2.43.0


From de37292507d0deb716c3c88be86766bc207e5889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:41 +0000
Subject: [PATCH 13/61] fix: give every constituent of a user-defined stream id
 its own definition

---
 src/vrtgen/parser/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 24967b9..a4eb07b 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -116,7 +116,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
             val.packed_tag = packing.PackedTag(position=pos-1, bits=val.bits, field_word=0, packed_int=0)
             val.is_extension_type =  True
             val.user_defined = True
-            fields.append((val.name, type(val), field(default_factory=lambda: val)))
+            fields.append((val.name, type(val), field(default_factory=lambda val=val: val)))
         fields.append(('packed', packing.PackedType, field(default_factory=lambda: packing.PackedType('packed', bits=32, enabled=True, required=True, packed_tag=packing.PackedTag(0,32,0)))))
         packed_stream_id_type = make_dataclass(
             cls_name='StreamIdentifier',
-- 
2.43.0


From 7d92c49f81d262eff19541c5f6a721e7cfa1def8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:35 +0000
Subject: [PATCH 14/61] fix: name and order the subfields of a sector step/scan
 record as they are serialised

---
 src/vrtgen/parser/model/cif1.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index a02285b..5c37af3 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -230,15 +230,15 @@ class SectorStepScanRecord(Record):
     sector_number : Unsigned32 = field(default_factory=lambda: Unsigned32('sector_number', enabled=True, required=True, packed_tag=PackedTag(31,32,0)))
     f1_start_frequency : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20('f1_start_frequency', enabled=True, required=True, packed_tag=PackedTag(31,64,1)))
     f2_stop_frequency : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20('f2_stop_frequency', packed_tag=PackedTag(31,64,3)))
-    resolution_bandwidth : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20(packed_tag=PackedTag(31,64,5)))
-    tune_step_size : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20(packed_tag=PackedTag(31,64,7)))
+    resolution_bandwidth : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20('resolution_bandwidth', packed_tag=PackedTag(31,64,5)))
+    tune_step_size : FixedPoint64r20 = field(default_factory=lambda: FixedPoint64r20('tune_step_size', packed_tag=PackedTag(31,64,7)))
     number_points : Unsigned32 = field(default_factory=lambda: Unsigned32('number_points', packed_tag=PackedTag(31,32,9)))
     default_gain : Gain = field(default_factory=lambda: Gain('default_gain', packed_tag=PackedTag(31,32,10)))
     threshold : Gain = field(default_factory=lambda: Gain('threshold', packed_tag=PackedTag(31,32,11)))
-    dwell_time : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('dwell_time', type_=FractionalTimestamp('DwellTime'), packed_tag=PackedTag(23,1,0)))
-    start_time : Timestamp = field(default_factory=lambda: Timestamp('start_time', type_=Timestamp('StartTime'), packed_tag=PackedTag(22,1,0)))
-    time_3 : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('time_3', type_=FractionalTimestamp('Time3', bits=32), packed_tag=PackedTag(21,1,0)))
-    time_4 : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('time_4', type_=FractionalTimestamp('Time4', bits=32), packed_tag=PackedTag(20,1,0)))
+    dwell_time : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('dwell_time', type_=FractionalTimestamp('DwellTime'), packed_tag=PackedTag(31,64,12)))
+    start_time : Timestamp = field(default_factory=lambda: Timestamp('start_time', type_=Timestamp('StartTime'), packed_tag=PackedTag(31,96,14)))
+    time_3 : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('time_3', type_=FractionalTimestamp('Time3', bits=32), packed_tag=PackedTag(31,32,17)))
+    time_4 : FractionalTimestamp = field(default_factory=lambda: FractionalTimestamp('time_4', type_=FractionalTimestamp('Time4', bits=32), packed_tag=PackedTag(31,32,18)))
 
 @dataclass
 class SectorStepScan(ArrayOfRecords):
-- 
2.43.0


From fd5fedb7a4bb8b0bb92008d68de6e882f44d840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:31 +0000
Subject: [PATCH 15/61] fix: refuse the reserved VITA OUI in either letter case

---
 src/vrtgen/parser/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/parser/value.py b/src/vrtgen/parser/value.py
index 049db64..d35572e 100644
--- a/src/vrtgen/parser/value.py
+++ b/src/vrtgen/parser/value.py
@@ -97,7 +97,7 @@ def parse_oui(value):
     OUIs are specified as hex literals in the form 'XX-XX-XX', where each
     octet is separated by a dash. Case is ignored.
     """
-    if str(value) == '00-12-A2':
+    if str(value).upper() == '00-12-A2':
         raise ValueError('The 00-12-A2 OUI is reserved for VITA49.2-2017 Extension Classes. This is not currently supported')
     match = _OUI_RE.match(str(value))
     if not match:
-- 
2.43.0


From 73f9335269deedadcaa5a237b3ac2735abbbcde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 16/61] fix: refuse packet options that are not sections of the
 packet or hold the wrong kind of section

---
 src/vrtgen/parser/model/base.py    | 20 +++++++++++++++++---
 src/vrtgen/parser/model/command.py | 17 ++++++++++++-----
 src/vrtgen/parser/model/context.py |  9 ++++-----
 src/vrtgen/parser/model/data.py    |  9 ++++-----
 4 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index 3f0df0d..b961f2c 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -93,14 +93,28 @@ class Packet:
         self._parse_mapping(mapping)
         self._update_header()
 
+    @property
+    def options(self):
+        # The header and message ID follow from the rest of the definition
+        return [f.name for f in self.fields if f.name not in ('header', 'message_id')]
+
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
-                raise ValueError('invalid field provided: ' + field)
+            if not field in self.options:
+                raise ValueError('invalid field provided: {}'.format(field))
+
+    def _set_section(self, key, value):
+        if key == 'stream_id':
+            valid = isinstance(value, Field) and value.name == 'stream_id'
+        else:
+            valid = isinstance(value, type(self.__dict__[key]))
+        if not valid:
+            raise TypeError('invalid value for {}: {}'.format(key, value))
+        self.__dict__[key] = value
 
     def _parse_mapping(self, mapping):
         for key,value in mapping.items():
-            self.__dict__[key] = value
+            self._set_section(key, value)
 
     def _update_header(self):
         if self.class_id.enabled:
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 8863686..957dee4 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -172,7 +172,7 @@ class CommandPacket(Packet):
                 elif key == 'controller_id':
                     self.controller_id._parse_mapping(val)
                 else:
-                    self.__dict__[key] = val
+                    self._set_section(key, val)
         except:
             raise
 
@@ -473,10 +473,17 @@ class AcknowledgePacket(CommandPacket):
                         self.wif_2.__dict__[field.name].enabled = True
                         self.eif_2.__dict__[field.name].enabled = True
 
-    def _validate(self, mapping):
-        for field in mapping:
-            if not field in [f.name for f in self.fields] and field != 'responds_to':
-                raise ValueError('invalid field provided: ' + field)
+    @property
+    def options(self):
+        return [f for f in super().options if not f.startswith(('wif_', 'eif_'))] + ['responds_to']
+
+    def _set_section(self, key, value):
+        if key == 'responds_to':
+            if not isinstance(value, str):
+                raise TypeError('invalid value for responds_to: {}'.format(value))
+            self.responds_to = value
+        else:
+            super()._set_section(key, value)
 
     @property
     def is_ack(self):
diff --git a/src/vrtgen/parser/model/context.py b/src/vrtgen/parser/model/context.py
index 6a8ff3d..efeb617 100644
--- a/src/vrtgen/parser/model/context.py
+++ b/src/vrtgen/parser/model/context.py
@@ -35,10 +35,9 @@ class ContextPacket(Packet):
         self.stream_id.enabled = True
         self.stream_id.required = True
 
-    def _validate(self, mapping):
-        for field in mapping:
-            if not field in [f.name for f in (self.fields + self.header.fields)]:
-                raise ValueError('invalid field provided: ' + field)
+    @property
+    def options(self):
+        return super().options + ['tsm']
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
@@ -50,7 +49,7 @@ class ContextPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_section(key, val)
 
     def _update_header(self):
         if self.cif_1.enabled or self.cif_2.enabled or self.cif_7.enabled:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 56b36df..92c4fd0 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -118,10 +118,9 @@ class DataPacket(Packet):
             self.header.not_v49d0.value = True
         super()._update_header()
 
-    def _validate(self, mapping):
-        for field in mapping:
-            if not field in [f.name for f in (self.fields + self.header.fields)]:
-                raise ValueError('invalid field provided: ' + field)
+    @property
+    def options(self):
+        return super().options + ['spectrum_or_time']
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
@@ -133,4 +132,4 @@ class DataPacket(Packet):
                 except:
                     raise
             else:
-                self.__dict__[key] = val
+                self._set_section(key, val)
-- 
2.43.0


From d7dfc73db87464f55f5d1d7b5adca55d07123e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:58 +0000
Subject: [PATCH 17/61] fix: refuse a section of the wrong kind inside CIF0,
 CIF1 and sector step scan

---
 src/vrtgen/parser/model/cif0.py |  4 +++-
 src/vrtgen/parser/model/cif1.py | 17 +++++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/cif0.py b/src/vrtgen/parser/model/cif0.py
index 90651df..1950a9a 100644
--- a/src/vrtgen/parser/model/cif0.py
+++ b/src/vrtgen/parser/model/cif0.py
@@ -237,10 +237,12 @@ class CIF0(CIF):
                     mode = parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
-                else:
+                elif isinstance(val, ReferenceLevel):
                     self.__dict__[key].enabled = val.enabled
                     self.__dict__[key].required = val.required
                     self.__dict__[key].type_ = val
+                else:
+                    raise TypeError('invalid value for {}: {}'.format(key, val))
             elif key == 'change_indicator':
                 mode = parse_enable(val)
                 if mode != Mode.REQUIRED:
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 5c37af3..f10c02a 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -254,6 +254,13 @@ class SectorStepScan(ArrayOfRecords):
         # Association needed for jinja generation
         self.records.linked_size = self.num_records
 
+    def _validate(self, mapping):
+        for key,val in mapping.items():
+            if key != 'subfield_cif':
+                raise ValueError('invalid field provided: {}'.format(key))
+            elif not isinstance(val, SectorStepScanCIF):
+                raise ValueError('Subfield CIF not of the correct type')
+
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
             if key == 'subfield_cif':
@@ -278,8 +285,8 @@ class IndexList(TemplateArrayStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
-                raise ValueError('invalid field provided: ' + field)
+            if field != 'entry_size':
+                raise ValueError('invalid field provided: {}'.format(field))
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
@@ -505,6 +512,12 @@ class CIF1(CIF):
                 raise ValueError('Sector Step Scan not of the correct type')
             elif key == 'index_list' and not isinstance(val, IndexList):
                 raise ValueError('Index list not of the correct type')
+            elif key == 'discrete_io_32' and not isinstance(val, (str, DiscreteIO32)):
+                raise ValueError('Discrete I/O 32 not of the correct type')
+            elif key == 'discrete_io_64' and not isinstance(val, (str, DiscreteIO64)):
+                raise ValueError('Discrete I/O 64 not of the correct type')
+            elif key == 'buffer_size' and not isinstance(val, (str, BufferSize)):
+                raise ValueError('Buffer size not of the correct type')
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
-- 
2.43.0


From 8cb7401618d7830b0e2a71ff2a2ce0c9954c4036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:03 +0000
Subject: [PATCH 18/61] fix: refuse identifiers, codes and widths that do not
 fit their field

---
 src/vrtgen/parser/loader.py              |  2 ++
 src/vrtgen/parser/model/cif1.py          |  2 +-
 src/vrtgen/parser/model/prologue.py      |  9 +++++++--
 src/vrtgen/parser/model/types/packing.py | 10 +++++++++-
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index a4eb07b..74b2c88 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -102,6 +102,8 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
                 raise
             if not isinstance(node_scalar_value, int):
                 raise ValueError('stream_id value must be an int, not',type(node_scalar_value))
+            if not stream_id.range[0] <= node_scalar_value <= stream_id.range[1]:
+                raise ValueError('stream_id value must fit 32 bits: {}'.format(node_scalar_value))
             stream_id.value = node_scalar_value
     else:
         pos = 0
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index f10c02a..4b222c1 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -328,7 +328,7 @@ class DiscreteIO(PackedStruct):
                 continue
             elif val == 'enable_indicator':
                 continue
-            elif isinstance(val, int):
+            elif isinstance(val, int) and val > 0:
                 continue
             elif isinstance(val, list):
                 continue
diff --git a/src/vrtgen/parser/model/prologue.py b/src/vrtgen/parser/model/prologue.py
index d4c570b..2d699bd 100644
--- a/src/vrtgen/parser/model/prologue.py
+++ b/src/vrtgen/parser/model/prologue.py
@@ -19,15 +19,20 @@ class ClassIdentifier(PackedStruct):
         self.type_ = type(self).__name__
         self.bits = 64
 
+    def _parse_code(self, val):
+        if not isinstance(val, int) or isinstance(val, bool) or not 0 <= val <= 0xFFFF:
+            raise ValueError('class codes must be 16-bit unsigned integers: {}'.format(val))
+        return val
+
     def parse_mapping(self, **mapping):
         for key,val in mapping.items():
             try:
                 if key == 'oui':
                     self.oui.value = value.parse_oui(val)
                 elif key == 'packet_code':
-                    self.packet_code.value = val
+                    self.packet_code.value = self._parse_code(val)
                 elif key == 'information_code':
-                    self.information_code.value = val
+                    self.information_code.value = self._parse_code(val)
                 else:
                     raise KeyError(val)
             except:
diff --git a/src/vrtgen/parser/model/types/packing.py b/src/vrtgen/parser/model/types/packing.py
index 54933d5..1113eca 100644
--- a/src/vrtgen/parser/model/types/packing.py
+++ b/src/vrtgen/parser/model/types/packing.py
@@ -96,10 +96,18 @@ class IntegerType(Field):
 
     def parse_mapping(self, **mapping):
         for key,val in mapping.items():
+            if not key in ('bits', 'value'):
+                raise ValueError('invalid field provided: {}'.format(key))
+            if not isinstance(val, int) or isinstance(val, bool):
+                raise TypeError('invalid integer for {}: {}'.format(key, val))
             if key == 'bits':
-                self.bits = int(val)
+                if not 1 <= val <= 32:
+                    raise ValueError('invalid number of bits: {}'.format(val))
+                self.bits = val
             if key == 'value':
                 self.value = val
+        if self.value is not None and not self.range[0] <= self.value <= self.range[1]:
+            raise ValueError('value {} does not fit {} bits'.format(self.value, self.bits))
 
 @dataclass
 class SignedIntegerType(IntegerType):
-- 
2.43.0


From 1838e90284e7903ecee9ee6cd7f0b042ef40f034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 19/61] fix: refuse unknown and ill-typed information class
 entries

---
 src/vrtgen/parser/model/information.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/model/information.py b/src/vrtgen/parser/model/information.py
index 83c2031..509927e 100644
--- a/src/vrtgen/parser/model/information.py
+++ b/src/vrtgen/parser/model/information.py
@@ -9,10 +9,15 @@ class InformationClass:
     packet_classes : ListType = field(default_factory=lambda: ListType('packet_classes', type_=Packet))
 
     def _validate(self, mapping):
-        # for field in mapping:
-        #     if not field in [f.name for f in self.fields]:
-        #         raise ValueError('invalid information class field provided: ' + field)
-        pass
+        for key,val in mapping.items():
+            if key == 'code':
+                if not isinstance(val, int) or isinstance(val, bool) or not 0 <= val <= 0xFFFF:
+                    raise ValueError('invalid information class code: {}'.format(val))
+            elif key == 'packet_classes':
+                if not isinstance(val, list):
+                    raise TypeError('packet_classes must be a list: {}'.format(val))
+            else:
+                raise ValueError('invalid information class field provided: {}'.format(key))
 
     def _parse_mapping(self, mapping):
         for key,val in mapping.items():
-- 
2.43.0


From 42c96e960aa258443e386eeaf36eab0cb13c8025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 20/61] fix: check action mode none whatever the order of the
 keys and accept its modes in any case

---
 src/vrtgen/parser/model/command.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 957dee4..ab6b85c 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -84,7 +84,7 @@ class ControlAcknowledgeMode(PackedStruct):
                 self.__dict__[key].enabled = True
                 self.__dict__[key].required = True
             elif key == 'action_mode':
-                if val == 'required' or val == 'optional':
+                if isinstance(val, str) and val.casefold() in ('required', 'optional'):
                     mode = parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
                     self.__dict__[key].required = True if (mode == Mode.REQUIRED) else False
@@ -94,20 +94,20 @@ class ControlAcknowledgeMode(PackedStruct):
                     self.__dict__[key].value = parse_action_mode(val)
                     self.__dict__[key].enabled = True
                     self.__dict__[key].required = True
-                    # Check for valid combinations of action_mode and acknowledge requests
-                    if self.action_mode.value == enums.ActionMode.NO_ACTION:
-                        if not self.req_s.value:
-                            raise ValueError('When action_mode set to none, req_s must be true')
-                        elif self.req_x.value or self.req_v.value:
-                            raise ValueError('When action_mode set to none, req_x and req_v must be false')
-                        elif self.req_w.value or self.req_er.value:
-                            raise ValueError('When action_mode set to none, req_w and req_er must be false')
-                        
             # elif key == 'timing_control':
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
 
+        # Check for valid combinations of action_mode and acknowledge requests
+        if self.action_mode.required and self.action_mode.value == enums.ActionMode.NO_ACTION:
+            if not self.req_s.value:
+                raise ValueError('When action_mode set to none, req_s must be true')
+            elif self.req_x.value or self.req_v.value:
+                raise ValueError('When action_mode set to none, req_x and req_v must be false')
+            elif self.req_w.value or self.req_er.value:
+                raise ValueError('When action_mode set to none, req_w and req_er must be false')
+
     def validate_and_parse_mapping(self, **mapping):
         self._validate(mapping)
         self._parse_mapping(mapping)
-- 
2.43.0


From e879f718a6f2e58f5ad5b7714951cdc8b4c29b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:51 +0000
Subject: [PATCH 21/61] fix: refuse user-defined trailer fields of an unknown
 type

---
 src/vrtgen/parser/model/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index 92c4fd0..b19d984 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -81,6 +81,8 @@ class Trailer(StateEventIndicators):
                         self.subfields.append(EnumType(key, enabled=True, required=True, user_defined=True, type_=user_defined_enum, packed_tag=PackedTag(pos,bits,0,0)))
                         self.subfields.append(EnableIndicatorType(key+'_enable', bits=bits, enabled=True, required=True, user_defined=True, is_enable=True, is_enum=True, packed_tag=PackedTag(pos+12,bits,0,0)))
                         packed_tag_pos += bits
+                    else:
+                        raise ValueError('invalid user defined trailer type specified: {}'.format(val))
                 else:
                     mode = value.parse_enable(val)
                     self.__dict__[key].enabled = True if (mode == Mode.REQUIRED or mode == Mode.OPTIONAL) else False
-- 
2.43.0


From 4834936476b2a88287d00d3008ae4fcb6d5b11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:07 +0000
Subject: [PATCH 22/61] fix: refuse text in place of the mapping of a section

---
 src/vrtgen/parser/loader.py | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/vrtgen/parser/loader.py b/src/vrtgen/parser/loader.py
index 74b2c88..89a6f68 100644
--- a/src/vrtgen/parser/loader.py
+++ b/src/vrtgen/parser/loader.py
@@ -15,6 +15,7 @@
 # You should have received a copy of the GNU Lesser General Public License
 # along with this program.  If not, see http://www.gnu.org/licenses/. 
 
+import functools
 import yaml
 from dataclasses import make_dataclass, field
 
@@ -23,6 +24,19 @@ from vrtgen.parser.model.types import packing
 from vrtgen.parser.model import prologue, cif0, cif1, cif2, cif7
 from vrtgen.parser.model import information
 
+def section_constructor(constructor):
+    """
+    Decorator for sections described by a mapping: they may be left empty, but
+    text in place of the mapping is an error.
+    """
+    @functools.wraps(constructor)
+    def construct(loader, node):
+        if isinstance(node, yaml.ScalarNode) and node.value:
+            raise ValueError('{} must be a mapping, not: {}'.format(node.tag, node.value))
+        return constructor(loader, node)
+    return construct
+
+@section_constructor
 def data_packet_constructor(loader, node) -> data.DataPacket:
     """
     Construct a DataPacket.
@@ -32,6 +46,7 @@ def data_packet_constructor(loader, node) -> data.DataPacket:
         packet.validate_and_parse_mapping(**loader.construct_mapping(node))
     return packet
 
+@section_constructor
 def context_packet_constructor(loader, node) -> context.ContextPacket:
     """
     Construct a ContextPacket.
@@ -41,6 +56,7 @@ def context_packet_constructor(loader, node) -> context.ContextPacket:
         packet.validate_and_parse_mapping(**loader.construct_mapping(node))
     return packet
 
+@section_constructor
 def ext_context_packet_constructor(loader, node) -> context.ExtensionContextPacket:
     """
     Construct a ContextPacket.
@@ -50,6 +66,7 @@ def ext_context_packet_constructor(loader, node) -> context.ExtensionContextPack
         packet.validate_and_parse_mapping(**loader.construct_mapping(node))
     return packet
 
+@section_constructor
 def control_packet_constructor(loader, node) -> command.ControlPacket:
     """
     Construct a CommandPacket.
@@ -60,6 +77,7 @@ def control_packet_constructor(loader, node) -> command.ControlPacket:
         packet._update_cam()
     return packet
 
+@section_constructor
 def ack_packet_constructor(loader, node) -> command.AcknowledgePacket:
     """
     Construct an AcknowledgePacket.
@@ -69,6 +87,7 @@ def ack_packet_constructor(loader, node) -> command.AcknowledgePacket:
         packet.validate_and_parse_mapping(**loader.construct_mapping(node))
     return packet
 
+@section_constructor
 def ext_control_packet_constructor(loader, node) -> command.ExtensionControlPacket:
     """
     Construct an ExtensionCommandPacket.
@@ -79,6 +98,7 @@ def ext_control_packet_constructor(loader, node) -> command.ExtensionControlPack
         packet._update_cam()
     return packet
 
+@section_constructor
 def ext_ack_packet_constructor(loader, node) -> command.ExtensionAcknowledgePacket:
     """
     Construct an ExtensionAcknowledgePacket.
@@ -130,6 +150,7 @@ def stream_id_constructor(loader, node) -> prologue.StreamIdentifier:
         stream_id.bits = 32
     return stream_id
 
+@section_constructor
 def class_id_constructor(loader, node) -> prologue.ClassIdentifier:
     class_id = prologue.ClassIdentifier(enabled=True, required=True)
     if isinstance(node, yaml.ScalarNode):
@@ -137,96 +158,112 @@ def class_id_constructor(loader, node) -> prologue.ClassIdentifier:
     class_id.parse_mapping(**loader.construct_mapping(node))
     return class_id
 
+@section_constructor
 def timestamp_constructor(loader, node) -> prologue.Timestamp:
     timestamp = prologue.Timestamp(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         timestamp.parse_mapping(**loader.construct_mapping(node))
     return timestamp
 
+@section_constructor
 def cam_constructor(loader, node) -> command.ControlCAM:
     cam = command.ControlCAM(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         cam.validate_and_parse_mapping(**loader.construct_mapping(node))
     return cam
 
+@section_constructor
 def cif0_constructor(loader, node) -> cif0.CIF0:
     cif_0 = cif0.CIF0(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         cif_0.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return cif_0
 
+@section_constructor
 def cif1_constructor(loader, node) -> cif1.CIF1:
     cif_1 = cif1.CIF1(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         cif_1.validate_and_parse_mapping(**loader.construct_mapping(node))
     return cif_1
 
+@section_constructor
 def cif2_constructor(loader, node) -> cif2.CIF2:
     cif_2 = cif2.CIF2(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         cif_2.validate_and_parse_mapping(**loader.construct_mapping(node))
     return cif_2
 
+@section_constructor
 def cif7_constructor(loader, node) -> cif7.CIF7:
     cif_7 = cif7.CIF7(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         cif_7.validate_and_parse_mapping(**loader.construct_mapping(node))
     return cif_7
 
+@section_constructor
 def difi1p2_reference_level_constructor(loader, node) -> cif0.ReferenceLevel:
     reference_level = cif0.ReferenceLevel()
     if not isinstance(node, yaml.ScalarNode):
         reference_level.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return reference_level
 
+@section_constructor
 def sector_step_scan_constructor(loader, node) -> cif1.SectorStepScan:
     sector_step_scan = cif1.SectorStepScan(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         sector_step_scan.validate_and_parse_mapping(**loader.construct_mapping(node))
     return sector_step_scan
 
+@section_constructor
 def sector_step_scan_cif_constructor(loader, node) -> cif1.SectorStepScanCIF:
     sector_step_scan_cif = cif1.SectorStepScanCIF(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         sector_step_scan_cif.validate_and_parse_mapping(**loader.construct_mapping(node))
     return sector_step_scan_cif
 
+@section_constructor
 def index_list_constructor(loader, node) -> cif1.IndexList:
     index_list = cif1.IndexList(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         index_list.validate_and_parse_mapping(**loader.construct_mapping(node))
     return index_list
 
+@section_constructor
 def discrete_io_32_constructor(loader, node) -> cif1.DiscreteIO:
     discrete_io = cif1.DiscreteIO32(enabled=True)
     if not isinstance(node, yaml.ScalarNode):
         discrete_io.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return discrete_io
 
+@section_constructor
 def discrete_io_64_constructor(loader, node) -> cif1.DiscreteIO:
     discrete_io = cif1.DiscreteIO64(enabled=True)
     if not isinstance(node, yaml.ScalarNode):
         discrete_io.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return discrete_io
 
+@section_constructor
 def difi1p2_buffer_size_constructor(loader, node) -> cif1.BufferSize:
     buffer_size = cif1.BufferSize()
     if not isinstance(node, yaml.ScalarNode):
         buffer_size.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return buffer_size
 
+@section_constructor
 def trailer_constructor(loader, node) -> data.Trailer:
     trailer = data.Trailer(enabled=True, required=True)
     if not isinstance(node, yaml.ScalarNode):
         trailer.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return trailer
 
+@section_constructor
 def information_class_contructor(loader, node) -> information.InformationClass:
     info_class = information.InformationClass()
     if not isinstance(node, yaml.ScalarNode):
         info_class.validate_and_parse_mapping(**loader.construct_mapping(node, deep=True))
     return info_class
 
+@section_constructor
 def integer_type_constructor(loader, node) -> packing.IntegerType:
     integer_type = packing.IntegerType(enabled=True, required=True)
 
-- 
2.43.0


From ef0fabed7054a57c76bdd56152a7e3fcb41882cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 23/61] fix: name the warning and error fields of three CIF
 fields like the fields they report on

---
 src/vrtgen/parser/model/command.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index ab6b85c..aa35a96 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -275,7 +275,7 @@ class WEIF0(CIF):
     bandwidth : CIFEnableType = field(default_factory=lambda: CIFEnableType('bandwidth', type_=WarningErrorFields(), packed_tag=PackedTag(29,1,0,0)))
     if_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(28,1,0,0)))
     rf_ref_frequency : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency', type_=WarningErrorFields(), packed_tag=PackedTag(27,1,0,0)))
-    rf_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
+    rf_ref_frequency_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('rf_ref_frequency_offset', type_=WarningErrorFields(), packed_tag=PackedTag(26,1,0,0)))
     if_band_offset : CIFEnableType = field(default_factory=lambda: CIFEnableType('if_band_offset', type_=WarningErrorFields(), packed_tag=PackedTag(25,1,0,0)))
     reference_level : CIFEnableType = field(default_factory=lambda: CIFEnableType('reference_level', type_=WarningErrorFields(), packed_tag=PackedTag(24,1,0,0)))
     gain : CIFEnableType = field(default_factory=lambda: CIFEnableType('gain', type_=WarningErrorFields(), packed_tag=PackedTag(23,1,0,0)))
@@ -291,7 +291,7 @@ class WEIF0(CIF):
     formatted_ins : CIFEnableType = field(default_factory=lambda: CIFEnableType('formatted_ins', type_=WarningErrorFields(), packed_tag=PackedTag(13,1,0,0)))
     ecef_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('ecef_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(12,1,0,0)))
     relative_ephemeris : CIFEnableType = field(default_factory=lambda: CIFEnableType('relative_ephemeris', type_=WarningErrorFields(), packed_tag=PackedTag(11,1,0,0)))
-    ephermis_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephermis_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
+    ephemeris_ref_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('ephemeris_ref_id', type_=WarningErrorFields(), packed_tag=PackedTag(10,1,0,0)))
     gps_ascii : CIFEnableType = field(default_factory=lambda: CIFEnableType('gps_ascii', type_=WarningErrorFields(), packed_tag=PackedTag(9,1,0,0)))
     context_association_lists : CIFEnableType = field(default_factory=lambda: CIFEnableType('context_association_lists', type_=WarningErrorFields(), packed_tag=PackedTag(8,1,0,0)))
     packed_0 : PackedType = field(default_factory=lambda: PackedType('packed_0', bits=32, packed_tag=PackedTag(0,32,0)))
@@ -369,7 +369,7 @@ class WEIF2(CIF):
     information_source : CIFEnableType = field(default_factory=lambda: CIFEnableType('information_source', type_=WarningErrorFields(), packed_tag=PackedTag(21,1,0,0)))
     track_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('track_id', type_=WarningErrorFields(), packed_tag=PackedTag(20,1,0,0)))
     country_code : CIFEnableType = field(default_factory=lambda: CIFEnableType('country_code', type_=WarningErrorFields(), packed_tag=PackedTag(19,1,0,0)))
-    operator_ : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
+    operator_id : CIFEnableType = field(default_factory=lambda: CIFEnableType('operator_id', type_=WarningErrorFields(), packed_tag=PackedTag(18,1,0,0)))
     platform_class : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_class', type_=WarningErrorFields(), packed_tag=PackedTag(17,1,0,0)))
     platform_instance : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_instance', type_=WarningErrorFields(), packed_tag=PackedTag(16,1,0,0)))
     platform_display : CIFEnableType = field(default_factory=lambda: CIFEnableType('platform_display', type_=WarningErrorFields(), packed_tag=PackedTag(15,1,0,0)))
-- 
2.43.0


From 16118431920aad3cfabdb22226825586f2d409f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 24/61] fix: an acknowledgement keeps its own class identifier
 and shares no definition with its control packet

---
 src/vrtgen/parser/model/command.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index aa35a96..03e12ce 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -1,3 +1,4 @@
+import copy
 from dataclasses import dataclass, field
 
 from vrtgen.parser.model.types import *
@@ -407,14 +408,17 @@ class AcknowledgePacket(CommandPacket):
         self.header.acknowledge_packet.value = True
 
     def update_from_control(self, ctrl_packet):
+        # The fields taken over must not be shared with the control packet
+        ctrl_packet = copy.deepcopy(ctrl_packet)
         # Update Header
-        self.header.class_id_enable = ctrl_packet.header.class_id_enable
         self.header.tsi = ctrl_packet.header.tsi
         self.header.tsf = ctrl_packet.header.tsf
         # Update Stream ID
         self.stream_id = ctrl_packet.stream_id
         # Class ID should be set in the YAML
-        self.class_id = ctrl_packet.class_id
+        if not self.class_id.enabled:
+            self.header.class_id_enable = ctrl_packet.header.class_id_enable
+            self.class_id = ctrl_packet.class_id
         # if ctrl_packet.class_id.enabled and not self.class_id.enabled:
         #     raise ValueError('class_id set in control packet but missing from ack YAML definition')
         # Update Timestamps
-- 
2.43.0


From 5663bc1b3455f8bbaaa90cd9f1e6364a257c0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:19 +0000
Subject: [PATCH 25/61] fix: refuse an acknowledgement that responds to
 something other than a control packet

---
 src/vrtgen/parser/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/parser/__init__.py b/src/vrtgen/parser/__init__.py
index 2aa83d4..831a022 100644
--- a/src/vrtgen/parser/__init__.py
+++ b/src/vrtgen/parser/__init__.py
@@ -17,7 +17,7 @@
 
 import yaml, logging
 
-from vrtgen.parser.model.command import AcknowledgePacket
+from vrtgen.parser.model.command import AcknowledgePacket, ControlPacket
 from vrtgen.parser.model.information import InformationClass
 
 __all__ = (
@@ -71,7 +71,7 @@ def parse_stream(stream, loader):
             parsed_packets[name] = value
             if isinstance(value, AcknowledgePacket):
                 ctrl_packet = parsed_packets.get(value.responds_to, None)
-                if not ctrl_packet:
+                if not isinstance(ctrl_packet, ControlPacket):
                     raise ValueError('Unknown control packet provided in responds_to for', name)
                 value.update_from_control(ctrl_packet)
             if not has_information_class:
-- 
2.43.0


From d26dcc15258228a7b55f4fda344885a593e83902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:14 +0000
Subject: [PATCH 26/61] fix: process every specification file given on the
 command line

---
 src/vrtgen/main.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 9ff3fa3..1f84f5e 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -57,12 +57,6 @@ def main():
     )
     arg_parser.add_argument('--version', action='version', version='%(prog)s '+__version__)
     sub_parser = arg_parser.add_subparsers(dest='generator', metavar='GENERATOR')
-    arg_parser.add_argument(
-        'filename',
-        nargs='+',
-        help='VRT YAML definition file',
-        metavar='FILENAME'
-    )
 
     def _add_backend_parser(name, version, generator):
         backend_parser = sub_parser.add_parser(
@@ -74,7 +68,7 @@ def main():
         )
         backend_parser.add_argument(
             'filename',
-            nargs='*',
+            nargs='+',
             help='VRT YAML definition file',
             metavar='FILENAME'
         )
-- 
2.43.0


From 7a513e88156a10f60306bb2f60a3df50a22f9fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:14 +0000
Subject: [PATCH 27/61] fix: name the missing or unknown backend instead of
 failing to build the message

---
 src/vrtgen/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index 1f84f5e..ce4cd41 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -99,7 +99,7 @@ def main():
     try:
         generator = generators[args.generator]()
     except KeyError:
-        raise SystemExit("invalid backend '"+args.backend+"'")
+        raise SystemExit("invalid backend '{}'".format(args.generator))
 
     if args.project:
         if hasattr(generator, 'project'):
-- 
2.43.0


From 7040b4e2e9e0eb7ebb2f0e12b1f92ff643721d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:14 +0000
Subject: [PATCH 28/61] fix: fail when a packet cannot be generated or is
 defined twice

---
 src/vrtgen/backend/cpp/generator.py | 3 +--
 src/vrtgen/main.py                  | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 3dd727d..345f603 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -498,8 +498,7 @@ class CppGenerator(Generator):
             if existing_packet.name == name:
                 logging.info('Duplicate packet name detected: %s', name)
                 if existing_packet.config.class_id.information_code.value == packet.class_id.information_code.value:
-                    logging.error('Attempt to add duplicate packet type %s to Information Class %s', name, packet.class_id.information_code.value)
-                    raise SystemExit()
+                    raise SystemExit('Attempt to add duplicate packet type {} to Information Class {}'.format(name, packet.class_id.information_code.value))
                 else: # Set flag and do not add packet
                     existing_packet.supports_multiple_information_codes = True
                     return
diff --git a/src/vrtgen/main.py b/src/vrtgen/main.py
index ce4cd41..a0771bf 100644
--- a/src/vrtgen/main.py
+++ b/src/vrtgen/main.py
@@ -116,13 +116,13 @@ def main():
         logging.debug('Parsing %s', filename)
         generator.start_file(filename)
         for name,value in parser.parse_file(filename, generator.get_loader()):
-            if name == 'files':
+            if name == 'files' and isinstance(value, list):
                 generator.yamls = value
             else:
                 try:
                     generator.generate(name, value)
                 except RuntimeError as exc:
-                    logging.error('Generator error: %s', exc)
+                    raise SystemExit('Generator error: {}'.format(exc))
         generator.end_file()
 
 # Support running via "python -m vrtgen.main", used for C++ build
-- 
2.43.0


From 50e238a81de2fe68e2eb9aa28815b16435b67902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:14 +0000
Subject: [PATCH 29/61] fix: refuse a command socket type that is not one of
 the choices

---
 src/vrtgen/backend/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/generator.py b/src/vrtgen/backend/generator.py
index 0fe3c05..f34902f 100644
--- a/src/vrtgen/backend/generator.py
+++ b/src/vrtgen/backend/generator.py
@@ -89,7 +89,7 @@ class GeneratorOption:
         self.type = dtype
         self.default = defval
         self.attr = None
-        self.choices = None
+        self.choices = choices
 
     def __set_name__(self, owner, name):
         self.attr = '_' + name
-- 
2.43.0


From 80756142cc5e979198cdc475c4410dbc8737f45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 30/61] fix: refuse two packets whose generated files would
 overwrite each other

---
 src/vrtgen/backend/cpp/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 345f603..0364c6f 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -502,6 +502,8 @@ class CppGenerator(Generator):
                 else: # Set flag and do not add packet
                     existing_packet.supports_multiple_information_codes = True
                     return
+            elif name_to_snake(existing_packet.name) == name_to_snake(name):
+                raise SystemExit('Packets {} and {} would generate the same files'.format(existing_packet.name, name))
         model = CppPacket(name, packet)
         self.packets.append(copy.deepcopy(model))
 
-- 
2.43.0


From c720f57c6087b0e9ef386fb40b967b7e30abd704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 31/61] fix: declare the discrete I/O enumerations of
 acknowledge packets

CppPacket.enums asked for an attribute that does not exist, which Jinja takes
for an empty list, so the enumerations an AckS field refers to were missing.
---
 src/vrtgen/backend/cpp/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/generator.py b/src/vrtgen/backend/cpp/generator.py
index 0364c6f..e42c30d 100644
--- a/src/vrtgen/backend/cpp/generator.py
+++ b/src/vrtgen/backend/cpp/generator.py
@@ -304,7 +304,7 @@ class CppPacket:
     @property
     def enums(self):
         retval = []
-        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_query):
+        if self.cif1 and self.cif1.enabled and (self.is_context or self.is_control or self.is_ack):
             if self.cif1.discrete_io_32.enabled:
                 for field in self.cif1.discrete_io_32.type_.fields:
                     if isinstance(field, EnumType):
-- 
2.43.0


From 37be5f943bcf7a609b70dfb90944e8a103f04c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 32/61] fix: declare the controllee's command socket for every
 control packet

The constructor and the listener use it whether or not a control packet carries
a controller identifier.
---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 0919cb6..5171ac6 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -349,7 +349,7 @@ public:
 {% endif %}
 {% endfor %}
 protected:
-{% for packet in packets if (packet.is_control and packet.controller_id.enabled) %}
+{% for packet in packets if packet.is_control %}
 {%   if loop.first %}
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
-- 
2.43.0


From af81f087460968a8ce57db0334b523b696c52ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:01 +0000
Subject: [PATCH 33/61] fix: generate the state acknowledgement of a control
 with required fields

The size of an AckS packet was computed from an undefined template variable,
so the generator failed for every control packet that requests a state
acknowledgement and has a required field.
---
 .../templates/macros/function_defs/bytes_required.jinja2    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
index cb7dc48..0a06f45 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/bytes_required.jinja2
@@ -163,7 +163,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif0.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif0.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -171,7 +171,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif1.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif1.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
@@ -179,7 +179,7 @@ auto {{ packet_name }}::min_bytes() const -> std::size_t
     bytes += m_{{ packet.cif2.name }}.size();
 {%   if packet.requires_cif_functions %}
 {%     for field in packet.cif2.fields if field.enabled and not field.is_optional and not field.indicator_only %}
-    {{ define_field_bytes_required(field, cif7, type_helper ) | indent(4) | trim }}
+    {{ define_field_bytes_required(field, packet.cif7, type_helper ) | indent(4) | trim }}
 {%     endfor %}
 {%   endif %}
 {% endif %}
-- 
2.43.0


From 5e3bbcf414ef2a89044c43ca4d38ebb7c60427c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 34/61] fix: copy a user-defined stream identifier into the
 acknowledgement

---
 .../cpp/templates/controllee_base.hpp.jinja2   | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 5171ac6..6cd1bd9 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -57,6 +57,16 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 }
 {% endmacro %}
 
+{%- macro copy_stream_id(packet, ack) %}
+{% if packet.stream_id.user_defined %}
+uint32_t stream_id{};
+packet.stream_id().pack_into(reinterpret_cast<uint8_t*>(&stream_id));
+{{ ack }}.stream_id().unpack_from(reinterpret_cast<uint8_t*>(&stream_id));
+{% else %}
+{{ ack }}.stream_id(packet.stream_id());
+{% endif %}
+{% endmacro %}
+
 {%- macro define_cif_configure(packet, cif, wif, eif) %}
 {% for field in cif.fields if field.enabled and not field.indicator_only %}
 {%   if field.is_optional %}
@@ -407,7 +417,7 @@ private:
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
                     ack_v.ack_v(true);
-                    ack_v.stream_id(packet.stream_id());
+                    {{ copy_stream_id(packet, "ack_v") | indent(20) | trim }}
                     ack_v.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_v.controllee_id(packet.controllee_id());
@@ -435,7 +445,7 @@ private:
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
-                    ack_x.stream_id(packet.stream_id());
+                    {{ copy_stream_id(packet, "ack_x") | indent(20) | trim }}
                     ack_x.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_x.controllee_id(packet.controllee_id());
@@ -455,7 +465,7 @@ private:
 {%     endif %}
 {%     if packet.cam.req_s.enabled %}
                     if (packet.cam().req_s()) {
-                        ack_s.stream_id(packet.stream_id());
+                        {{ copy_stream_id(packet, "ack_s") | indent(24) | trim }}
                         ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                         ack_s.controllee_id(packet.controllee_id());
@@ -480,7 +490,7 @@ private:
 {%   if packet.cam.req_s.enabled and not packet.cam.req_x.enabled %}
                 if (packet.cam().req_s()) {
                     auto ack_s = this->execute_{{ packet.name | to_snake }}(packet);
-                    ack_s.stream_id(packet.stream_id());
+                    {{ copy_stream_id(packet, "ack_s") | indent(20) | trim }}
                     ack_s.message_id(packet.message_id());
 {%     if packet.controllee_id.enabled %}
                     ack_s.controllee_id(packet.controllee_id());
-- 
2.43.0


From 5480f2f2bf2ad2dffd67b36f9dee73875869db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:02 +0000
Subject: [PATCH 35/61] fix: compile a one-bit enumerated user indicator of a
 trailer

---
 .../backend/cpp/templates/macros/types/user_class.jinja2      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index c1e3aba..4d3d18a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -77,7 +77,7 @@ private:
 auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type }}>
 {
     if ({{ field.name }}_enable()) {
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
         return {{ value_type }}{ m_packed.get<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>() };
 {%   else %}
         return m_packed.get<{{ field.packed_tag.position }}>();
@@ -89,7 +89,7 @@ auto {{ class.type_ }}::{{ field.name }}() const -> std::optional<{{ value_type
 auto {{ class.type_ }}::{{ field.name }}(const {{ value_type }} value) -> void
 {
     {{ field.name }}_enable(true);
-{%   if field.is_enum and field.packed_tag.bits > 1 %}
+{%   if field.is_enum %}
     m_packed.set<{{ field.packed_tag.position }},{{ field.packed_tag.bits }},int>(static_cast<int>(value));
 {%   else %}
     m_packed.set<{{ field.packed_tag.position }}>(value);
-- 
2.43.0


From 61cfbdd6fbf39eb7039f8dbb61845f01ef14ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 36/61] fix: do not declare an acknowledgement action mode
 setter that is never defined

---
 src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 686ff46..5fd041e 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -24,7 +24,7 @@
 {% if packet.cam.enabled %}
 {{ function_decls.const_ref_getter(packet.cam, type_helper) | trim }}
 
-{{ function_decls.getters_and_setters(packet.cam.action_mode, type_helper) | trim }}
+{{ function_decls.cam_getter(packet.cam.action_mode, type_helper) | trim }}
 
 {{ function_decls.getters_and_setters(packet.cam.timing_control, type_helper) | trim }}
 
-- 
2.43.0


From 1878326373c122c6b3581e71e6e9c7a75a7abec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:07 +0000
Subject: [PATCH 37/61] fix: define the declared setter of a user-defined
 stream identifier

---
 .../cpp/templates/macros/function_defs/stream_id.jinja2  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
index 32ca6a6..10ab039 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/stream_id.jinja2
@@ -34,7 +34,14 @@ auto {{ packet.name }}::{{ packet.stream_id.name }}() const -> {{ type_helper.me
 {% endif %}
 }
 
-{% if not packet.stream_id.user_defined %}
+{% if packet.stream_id.user_defined %}
+auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }}& value) -> void
+{
+    m_{{ packet.stream_id.name }} = value;
+    const auto pos{ m_positions.at("{{ packet.stream_id.name }}") };
+    m_{{ packet.stream_id.name }}.pack_into(m_data.data() + pos);
+}
+{% else %}
 auto {{ packet.name }}::{{ packet.stream_id.name }}(const {{ type_helper.member_type(packet.stream_id) }} value) -> void
 {
     auto swapped{ vrtgen::swap::to_be(value) };
-- 
2.43.0


From 9f32f84e52395350e9914c33ceaeb4ba75376dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 38/61] fix: keep the bytes of a variable-size field in step
 with its value

---
 .../cpp/templates/ack_packet.cpp.jinja2       |  4 +-
 .../cpp/templates/ack_packet.hpp.jinja2       |  4 ++
 .../templates/macros/function_defs/cif.jinja2 | 66 +++++++++++++------
 .../macros/function_defs/constructors.jinja2  |  9 +++
 .../cpp/templates/macros/packet/decls.jinja2  |  1 +
 .../backend/cpp/templates/packet.cpp.jinja2   |  4 +-
 .../backend/cpp/templates/packet.hpp.jinja2   |  3 +
 7 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 5e873a3..1f55130 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -23,7 +23,7 @@
 {%- import "macros/function_defs/bytes_required.jinja2" as bytes_req %}
 {%- from "macros/function_defs/match.jinja2" import match_ack %}
 {%- import "macros/function_defs/constructors.jinja2" as constructors %}
-{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos %}
+{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos, resize_field %}
 
 {%- macro ackvx_update_positions(packet, packet_name, type_helper) %}
 auto {{ packet_name }}::update_positions() -> void
@@ -493,6 +493,8 @@ auto {{ packet.name }}::update_packet_size() -> void
 
 {{ acks_update_positions(packet, packet_name, type_helper) | trim }}
 
+{{ resize_field(packet, packet_name) | trim }}
+
 {{ acks_sync(packet, packet_name, type_helper) | trim }}
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 5fd041e..2b2602d 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -136,6 +136,7 @@ auto reset_{{ func_name }}() -> void;
 {{ members.command(packet, type_helper) | trim }}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+std::map<std::string, std::size_t> m_sizes;
 {% endmacro %}
 
 {%- macro ackvx_members(packet, type_helper) %}
@@ -282,6 +283,9 @@ public:
 private:
     auto min_bytes() const -> std::size_t;
     auto update_positions() -> void override;
+{% if packet.requires_cif_functions %}
+    auto resize_field(const std::string& name, const std::size_t size) -> void;
+{% endif %}
     auto sync() -> void override;
 
     {{ acks_members(packet, type_helper) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
index 272a713..805e22e 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/cif.jinja2
@@ -110,8 +110,6 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
 {%       else %}
         m_data.insert(m_data.begin() + pos, sizeof(swapped), 0);
 {%       endif %}
-{%     else %}
-        m_data.insert(m_data.begin() + pos, m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size(), 0);
 {%     endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(true);
         update_positions();
@@ -125,6 +123,7 @@ auto {{ packet_name }}::{{ field.name }}(const {{ type_helper.value_type(field)
     std::memcpy(m_data.data() + pos, &swapped, sizeof(swapped));
 {%     endif %}
 {%   else %}
+    resize_field("{{ field.name }}", m_{{ field.name }}{{ '->' if field.is_optional else '.' }}size());
     m_{{ field.name }}{{ '->' if field.is_optional else '.' }}pack_into(m_data.data() + pos);
 {%   endif %}
 {% else %}
@@ -143,20 +142,16 @@ auto {{ packet_name }}::reset_{{ field.name }}() -> void
 {%   endif %}
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}{{ field.name }}(false);
         m_{{ cif.name }}{{ '->' if cif.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ cif.name }}"));
-        const auto pos{ m_positions.at("{{ field.name }}") };
 {%   if type_helper.is_scalar(field) %}
+        const auto pos{ m_positions.at("{{ field.name }}") };
 {%     if field.type_.reserved_bits > 0 %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof(int{{ field.type_.reserved_bits }}_t)/*reserved*/ + sizeof({{ type_helper.member_type(field) }}));
 {%     else %}
         m_data.erase(m_data.begin() + pos, m_data.begin() + pos + sizeof({{ type_helper.member_type(field) }}));
 {%     endif %}
 {%   else %}
-{%     if field.is_optional %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}->size());
+        resize_field("{{ field.name }}", 0);
         m_{{ field.name }}.reset();
-{%     else %}
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ field.name }}.size());
-{%     endif %}
 {%   endif %}
         update_positions();
         update_packet_size();
@@ -258,15 +253,18 @@ auto {{ packet_name }}::reset_{{ cif.name }}() -> void
 {%     if field.is_optional %}
 if (m_{{ field.name }}.has_value()) {
     if (!m_{{ packet.cif0.name }}.{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif0.name }}.{{ field.name }}(true);
         m_{{ packet.cif0.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
         update_positions();
         update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
+} else {
+    reset_{{ field.name }}();
 }
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -297,15 +295,18 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif1.name }}{{ '->' if packet.cif1.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
         update_positions();
         update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -332,15 +333,18 @@ if (m_{{ field.name }}.has_value()) {
     }
 {%       endif %}
     if (!m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ field.name }}"), m_{{ field.name }}->size(), 0);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}{{ field.name }}(true);
         m_{{ packet.cif2.name }}{{ '->' if packet.cif2.is_optional else '.' }}pack_into(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
         update_positions();
         update_packet_size();
     }
+    resize_field("{{ field.name }}", m_{{ field.name }}->size());
     m_{{ field.name }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
-    }
+} else {
+    reset_{{ field.name }}();
+}
 {%     else %}
+resize_field("{{ field.name }}", m_{{ field.name }}.size());
 m_{{ field.name }}.pack_into(m_data.data() + m_positions.at("{{ field.name }}"));
 {%     endif %}
 {%   endfor %}
@@ -398,7 +402,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         endif %}
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    curr_pos += m_{{ field.name }}->size();
+    curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 }
 {%     else %}
@@ -408,7 +412,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-curr_pos += m_{{ field.name }}.size();
+curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -427,7 +431,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {{ '    ' if packet.cif1.is_optional }}}
 {%     else %}
@@ -437,7 +441,7 @@ if (m_{{ packet.cif1.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif1.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif1.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif1.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -459,7 +463,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
     {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
-    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}->size();
+    {{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {{ '    ' if packet.cif2.is_optional }}}
 {%     else %}
@@ -469,7 +473,7 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 {%         endif %}
 {{ '    ' if packet.cif2.is_optional }}curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-{{ '    ' if packet.cif2.is_optional }}curr_pos += m_{{ field.name }}.size();
+{{ '    ' if packet.cif2.is_optional }}curr_pos += m_sizes["{{ field.name }}"];
 {%       endif %}
 {%     endif %}
 {%   endfor %}
@@ -477,4 +481,26 @@ if (m_{{ packet.cif2.name }}.has_value()) {
 }
 {%   endif %}
 {% endif %}
-{% endmacro%}
\ No newline at end of file
+{% endmacro%}
+
+{%- macro resize_field(packet, packet_name) %}
+{% if packet.requires_cif_functions %}
+auto {{ packet_name }}::resize_field(const std::string& name, const std::size_t size) -> void
+{
+    auto& current = m_sizes[name];
+    if (size == current) {
+        return;
+    }
+    const auto pos{ m_positions.at(name) };
+    if (size > current) {
+        m_data.insert(m_data.begin() + pos + current, size - current, 0);
+    } else {
+        m_data.erase(m_data.begin() + pos + size, m_data.begin() + pos + current);
+    }
+    current = size;
+    update_positions();
+    update_packet_size();
+}
+
+{% endif %}
+{% endmacro %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 8cc37f1..340a57a 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -143,6 +143,7 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -184,6 +185,7 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -216,6 +218,7 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -369,6 +372,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -391,6 +395,7 @@ curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
@@ -418,6 +423,7 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
@@ -429,6 +435,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
@@ -451,6 +458,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
     m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
@@ -462,6 +470,7 @@ curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
 m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
 curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%     endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2 b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
index b4d0984..df0b33c 100644
--- a/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/packet/decls.jinja2
@@ -112,4 +112,5 @@ std::string m_name{ "{{ packet.name }}" };
 {% endif %}
 std::vector<uint8_t> m_data;
 std::map<std::string, std::size_t> m_positions;
+std::map<std::string, std::size_t> m_sizes;
 {% endmacro %}
\ No newline at end of file
diff --git a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
index 37f5547..1697428 100644
--- a/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.cpp.jinja2
@@ -19,7 +19,7 @@
 {%- import "macros/function_defs.jinja2" as function_defs %}
 {%- from "macros/function_defs/bytes_required.jinja2" import bytes_required %}
 {%- from "macros/function_defs/match.jinja2" import match %}
-{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos %}
+{%- from "macros/function_defs/cif.jinja2" import sync_cifs, update_cif_pos, resize_field %}
 {%- import "macros/function_defs/constructors.jinja2" as constructors %}
 {%- import "ack_packet.cpp.jinja2" as ack %}
 {%- import "macros/types/user_class.jinja2" as user_class %}
@@ -103,6 +103,8 @@ auto {{ packet.name }}::update_packet_size() -> void
 
 {{ update_positions(packet, type_helper) | trim }}
 
+{{ resize_field(packet, packet.name) | trim }}
+
 {{ bytes_required(packet, type_helper) | trim}}
 
 {{ sync(packet, type_helper) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
index 6cb1806..153f711 100644
--- a/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/packet.hpp.jinja2
@@ -41,6 +41,9 @@ private:
     auto min_bytes() const -> std::size_t;
     auto update_packet_size() -> void;
     auto update_positions() -> void;
+{% if packet.requires_cif_functions %}
+    auto resize_field(const std::string& name, const std::size_t size) -> void;
+{% endif %}
     auto sync() -> void;
 
     {{ packet_.class_members(packet, type_helper) | indent(4) | trim }}
-- 
2.43.0


From 7ece74fa08dae6d5ff1f317275f82e8b4d3354d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 39/61] fix: declare the size of a state acknowledgement when
 it is constructed

---
 .../cpp/templates/macros/function_defs/constructors.jinja2       | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 340a57a..d9d3893 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -726,6 +726,7 @@ curr_pos += m_{{ field.name }}.size();
 {% if packet.cif0.enabled %}
     {{ construct_cifs(packet, type_helper) | indent(4) | trim }}
 {% endif %}
+    update_packet_size();
 }
 {% endmacro %}
 
-- 
2.43.0


From bc1345045bae3257160be049c6bc480bbdad573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:33 +0000
Subject: [PATCH 40/61] fix: clear the padding after a payload

---
 .../backend/cpp/templates/macros/function_defs/data.jinja2      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
index 6dc7a57..1f57579 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/data.jinja2
@@ -32,6 +32,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
     m_positions.at("{{ packet.trailer.name }}") = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_trailer.pack_into(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {% else %}
@@ -39,6 +40,7 @@ auto {{ packet.name }}::payload(std::span<const uint8_t> data) -> void
     if (!data.empty()) {
         std::memcpy(m_data.data() + pos, data.data(), data.size_bytes());
     }
+    std::memset(m_data.data() + pos + data.size_bytes(), 0, mod);
 {% endif %}
     update_packet_size();
 }
-- 
2.43.0


From a8737e037e7bfe9db85c4cf3f5a23aee438e81cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:23 +0000
Subject: [PATCH 41/61] fix: a timestamp part declared as none takes no space
 in the packet

---
 src/vrtgen/parser/model/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index b961f2c..f36c3cd 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -120,6 +120,13 @@ class Packet:
         if self.class_id.enabled:
             self.header.class_id_enable.enabled = True
             self.header.class_id_enable.value = True
+        # A timestamp part of type none is not in the packet
+        if self.timestamp.tsi.value == TSI.NONE:
+            self.timestamp.integer.enabled = False
+            self.timestamp.integer.required = False
+        if self.timestamp.tsf.value == TSF.NONE:
+            self.timestamp.fractional.enabled = False
+            self.timestamp.fractional.required = False
         if self.timestamp.integer.enabled:
             self.header.tsi.enabled = True
             self.header.tsi.required = True
-- 
2.43.0


From 7f20aaec02d6ca4e3764fb2ff5dc7997084398bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:46 +0000
Subject: [PATCH 42/61] fix: build the mask of a subfield as wide as its word

---
 include/vrtgen/types/packed.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/types/packed.hpp b/include/vrtgen/types/packed.hpp
index 279363f..d24e734 100644
--- a/include/vrtgen/types/packed.hpp
+++ b/include/vrtgen/types/packed.hpp
@@ -43,7 +43,7 @@ template <typename T, std::size_t pos, std::size_t bits>
 struct field_traits
 {
     static constexpr T shift{ pos - bits + 1 };
-    static constexpr T mask{ ((static_cast<T>(1) << bits) - 1) << shift };
+    static constexpr T mask{ static_cast<T>(static_cast<T>(~T{ 0 }) >> (sizeof(T) * 8 - bits)) << shift };
 }; // end struct field_traits
 
 } // end namespace detail
-- 
2.43.0


From 30327d3361175662d8fce922e90bd5b919a22cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 43/61] fix: match refuses identifiers the packet does not
 carry, accepts every acknowledgement of its kind

---
 .../macros/function_defs/match.jinja2         | 29 ++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index 9123375..a49d420 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -85,6 +85,15 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.cam.enabled %}
     auto {{ packet.cam.name }} = {{ type_helper.value_type(packet.cam) }}{};
     {{ packet.cam.name }}.unpack_from(data.data() + curr_pos);
+{%   for field in packet.cam.fields if (not field.enabled and field.name in ('controllee_enable', 'controller_enable')) %}
+    if ({{ packet.cam.name }}.{{ field.name }}() != false) {
+        std::ostringstream msg;
+        msg << "Failed to match cam field {{ field.name }}."
+            << " Expected " << std::to_string(false)
+            << " but got " << std::to_string({{ packet.cam.name }}.{{ field.name }}());
+        return { msg.str() };
+    }
+{%   endfor %}
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
@@ -132,6 +141,15 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% for field in packet.header.fields %}
 {%   if field.name == 'packet_count' or field.name == 'packet_size' %}
 {%     continue %}
+{%   endif %}
+{%   if field.name == 'tsi' and field.value.value == 0b111 %}
+{%     continue %}
+{%   endif %}
+{%   if field.name == 'tsf' and field.value.value == 0b111 %}
+{%     continue %}
+{%   endif %}
+{%   if field.name == 'tsm' and field.value.value == 0b111 %}
+{%     continue %}
 {%   endif %}
     if (header.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
@@ -152,7 +170,7 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
 {% if packet.class_id.enabled %}
     auto {{ packet.class_id.name }} = {{ type_helper.value_type(packet.class_id) }}{};
     {{ packet.class_id.name }}.unpack_from(data.data() + curr_pos);
-{%     for field in packet.class_id.fields if not field.is_packed_type %}
+{%     for field in packet.class_id.fields if not field.is_packed_type and not field.name == 'pad_bits' and not (field.name == 'information_code' and packet.supports_multiple_information_codes) %}
     if ({{ packet.class_id.name }}.{{ field.name }}() != {{ type_helper.literal_value(field) }}) {
         std::ostringstream msg;
         msg << "Failed to match class_id field {{ field.name }}."
@@ -197,6 +215,15 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {%   endif %}
+{%   for field in packet.cam.fields if (not field.enabled and field.name in ('controllee_enable', 'controller_enable')) %}
+    if ({{ packet.cam.name }}.{{ field.name }}() != false) {
+        std::ostringstream msg;
+        msg << "Failed to match cam field {{ field.name }}."
+            << " Expected " << std::to_string(false)
+            << " but got " << std::to_string({{ packet.cam.name }}.{{ field.name }}());
+        return { msg.str() };
+    }
+{%   endfor %}
 {%   for field in packet.cam.fields if (field.enabled and not field.is_optional) %}
 {%     if (field.name == 'ack_w' or field.name == 'ack_er') %}
 {%       continue %}
-- 
2.43.0


From 31bd2969999eee5bef869b2fe56add1b17121adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:07 +0000
Subject: [PATCH 44/61] fix: check received packets against the length of their
 buffer

---
 include/vrtgen/packing.hpp                    |   1 +
 include/vrtgen/packing/cif0.hpp               |  32 ++++
 include/vrtgen/packing/cif1.hpp               |  24 +++
 include/vrtgen/packing/unpack.hpp             |  51 +++++++
 .../macros/function_defs/constructors.jinja2  | 142 +++++++++++-------
 .../macros/function_defs/match.jinja2         |  14 ++
 .../templates/macros/types/user_class.jinja2  |   6 +-
 7 files changed, 211 insertions(+), 59 deletions(-)
 create mode 100644 include/vrtgen/packing/unpack.hpp

diff --git a/include/vrtgen/packing.hpp b/include/vrtgen/packing.hpp
index 0a03f59..b50d10c 100644
--- a/include/vrtgen/packing.hpp
+++ b/include/vrtgen/packing.hpp
@@ -29,3 +29,4 @@
 #include <vrtgen/packing/indicator_fields.hpp>
 #include <vrtgen/packing/prologue.hpp>
 #include <vrtgen/packing/trailer.hpp>
+#include <vrtgen/packing/unpack.hpp>
diff --git a/include/vrtgen/packing/cif0.hpp b/include/vrtgen/packing/cif0.hpp
index 5975bb4..24d7af3 100644
--- a/include/vrtgen/packing/cif0.hpp
+++ b/include/vrtgen/packing/cif0.hpp
@@ -1119,6 +1119,18 @@ public:
         std::fill(buffer_ptr + m_ascii_sentences.size(), buffer_ptr + num_words()*4, uint8_t{ 0 });
     }
 
+    /**
+     * @brief Returns the number of bytes a packed GPS_ASCII takes
+     * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
+     * @return Number of GPS_ASCII bytes, as declared by the leading bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        GPS_ASCII ascii;
+        ascii.m_packed.unpack_from(buffer_ptr);
+        return ascii.m_packed.size() + std::size_t{ ascii.number_of_words() } * sizeof(uint32_t);
+    }
+
     /**
      * @brief Unpack buffer bytes into GPS_ASCII
      * @param buffer_ptr Pointer to beginning of GPS_ASCII bytes in the buffer
@@ -1506,6 +1518,26 @@ public:
         }
     }
 
+    /**
+     * @brief Returns the number of bytes a packed ContextAssociationLists takes
+     * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
+     * @return Number of ContextAssociationLists bytes, as declared by the leading bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        ContextAssociationLists lists;
+        lists.m_packed.unpack_from(buffer_ptr);
+        auto entries = std::size_t{ 0 };
+        entries += lists.source_list_size();
+        entries += lists.system_list_size();
+        entries += lists.vector_component_list_size();
+        entries += lists.async_channel_list_size();
+        if (lists.async_channel_tag_list_enable()) {
+            entries += lists.async_channel_list_size();
+        }
+        return lists.m_packed.size() + entries * sizeof(uint32_t);
+    }
+
     /**
      * @brief Unpack buffer bytes into ContextAssociationLists
      * @param buffer_ptr Pointer to beginning of ContextAssociationLists bytes in the buffer
diff --git a/include/vrtgen/packing/cif1.hpp b/include/vrtgen/packing/cif1.hpp
index 97e37d0..1cd68cb 100644
--- a/include/vrtgen/packing/cif1.hpp
+++ b/include/vrtgen/packing/cif1.hpp
@@ -1053,6 +1053,18 @@ public:
         }
     }
 
+    /**
+     * @brief Returns the number of bytes a packed SectorStepScan takes
+     * @param buffer_ptr Pointer to beginning of SectorStepScan bytes in the buffer
+     * @return Number of SectorStepScan bytes, as declared by the leading bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        SectorStepScan scan;
+        scan.m_packed.unpack_from(buffer_ptr + sizeof(scan.m_array_size));
+        return scan.size() + scan.num_records() * T{}.size();
+    }
+
     void unpack_from(const uint8_t* buffer_ptr)
     {
         auto* ptr = buffer_ptr;
@@ -1160,6 +1172,18 @@ public:
         std::fill(buffer_ptr, end_ptr, uint8_t{ 0 });
     }
 
+    /**
+     * @brief Returns the number of bytes a packed IndexList takes
+     * @param buffer_ptr Pointer to beginning of IndexList bytes in the buffer
+     * @return Number of IndexList bytes, as declared by the leading bytes
+     */
+    static std::size_t packed_size(const uint8_t* buffer_ptr)
+    {
+        IndexList list;
+        list.m_packed.unpack_from(buffer_ptr + sizeof(list.m_total_size));
+        return list.size() + (list.num_entries() * sizeof(T) + 3) / 4 * 4;
+    }
+
     void unpack_from(const uint8_t* buffer_ptr)
     {
         auto* ptr = buffer_ptr;
diff --git a/include/vrtgen/packing/unpack.hpp b/include/vrtgen/packing/unpack.hpp
new file mode 100644
index 0000000..a56c9b9
--- /dev/null
+++ b/include/vrtgen/packing/unpack.hpp
@@ -0,0 +1,51 @@
+/*
+ * Copyright (C) 2023 Geon Technologies, LLC
+ *
+ * This file is part of vrtgen.
+ *
+ * vrtgen is free software: you can redistribute it and/or modify it under the
+ * terms of the GNU Lesser General Public License as published by the Free
+ * Software Foundation, either version 3 of the License, or (at your option)
+ * any later version.
+ *
+ * vrtgen is distributed in the hope that it will be useful, but WITHOUT ANY
+ * WARRANTY; without even the implied warranty of MERCHANTABILITY or FITNESS
+ * FOR A PARTICULAR PURPOSE.  See the GNU Lesser General Public License for
+ * more details.
+ *
+ * You should have received a copy of the GNU Lesser General Public License
+ * along with this program.  If not, see http://www.gnu.org/licenses/.
+ */
+
+#pragma once
+
+#include <cstddef>
+#include <cstdint>
+#include <span>
+#include <stdexcept>
+
+namespace vrtgen::packing {
+
+/**
+ * @brief Unpack a field from received bytes
+ * @param field Field to unpack into
+ * @param data Received bytes
+ * @param pos Position of the field in the received bytes
+ * @throw std::length_error Received bytes end before the field does
+ */
+template <typename T>
+inline void unpack_field(T& field, std::span<const uint8_t> data, const std::size_t pos)
+{
+    if (data.size() < pos || data.size() - pos < field.size()) {
+        throw std::length_error("received data ends before the field does");
+    }
+    const auto bytes = data.data() + pos;
+    if constexpr (requires { T::packed_size(bytes); }) {
+        if (data.size() - pos < T::packed_size(bytes)) {
+            throw std::length_error("received data ends before the field does");
+        }
+    }
+    field.unpack_from(bytes);
+}
+
+} // end namespace vrtgen::packing
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index d9d3893..38774d3 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -254,14 +254,17 @@ m_{{ packet.cif2.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cif
 {% endmacro %}
 
 {%- macro unpack_prologue(packet, type_helper) %}
-m_{{ packet.header.name }}.unpack_from(data.data());
-m_data.resize(m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t));
-std::memcpy(m_data.data(), data.data(), m_data.size());
+vrtgen::packing::unpack_field(m_{{ packet.header.name }}, data, 0);
+const auto packet_bytes = m_{{ packet.header.name }}.packet_size() * sizeof(uint32_t);
+if (packet_bytes > data.size()) {
+    throw std::length_error("received data does not hold a whole {{ packet.name }}");
+}
+m_data.assign(data.begin(), data.begin() + packet_bytes);
 auto curr_pos = m_{{ packet.header.name }}.size();
 {% if packet.stream_id.enabled %}
 m_positions["{{ packet.stream_id.name }}"] = curr_pos;
 {%   if packet.stream_id.user_defined %}
-m_{{ packet.stream_id.name }}.unpack_from(m_data.data() + curr_pos);
+vrtgen::packing::unpack_field(m_{{ packet.stream_id.name }}, m_data, curr_pos);
 curr_pos += m_{{ packet.stream_id.name }}.size();
 {%   else %}
 curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
@@ -269,7 +272,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.stream_id) }}); // {{ packe
 {% endif %}
 {% if packet.class_id.enabled %}
 m_positions["{{ packet.class_id.name }}"] = curr_pos;
-m_{{ packet.class_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.class_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.class_id.name }}, m_data, m_positions.at("{{ packet.class_id.name }}"));
 curr_pos += m_{{ packet.class_id.name }}.size();
 {% endif %}
 {% if packet.timestamp.enabled %}
@@ -285,7 +288,7 @@ curr_pos += sizeof({{ type_helper.member_type(packet.timestamp.fractional) }});
 {% if packet.cam.enabled %}
 m_positions["{{ packet.cam.name }}"] = curr_pos;
 curr_pos += m_{{ packet.cam.name }}.size();
-m_{{ packet.cam.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cam.name }}, m_data, m_positions.at("{{ packet.cam.name }}"));
 {% endif %}
 {% if packet.message_id.enabled %}
 m_positions["{{ packet.message_id.name }}"] = curr_pos;
@@ -296,7 +299,7 @@ m_positions["{{ packet.controllee_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controllee_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controllee_id) }}); // {{ packet.controllee_id.name }}
 {%   else %}
-m_{{ packet.controllee_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controllee_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controllee_id.name }}, m_data, m_positions.at("{{ packet.controllee_id.name }}"));
 curr_pos += m_{{ packet.controllee_id.name }}.size();
 {%   endif %}
 {% endif %}
@@ -305,16 +308,19 @@ m_positions["{{ packet.controller_id.name }}"] = curr_pos;
 {%   if type_helper.is_scalar(packet.controller_id) %}
 curr_pos += sizeof({{ type_helper.member_type(packet.controller_id) }}); // {{ packet.controller_id.name }}
 {%   else %}
-m_{{ packet.controller_id.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.controller_id.name }}, m_data, m_positions.at("{{ packet.controller_id.name }}"));
 curr_pos += m_{{ packet.controller_id.name }}.size();
 {%   endif %}
 {% endif %}
+if (curr_pos > m_data.size()) {
+    throw std::length_error("received data ends before the prologue does");
+}
 {% endmacro%}
 
 {%- macro unpack_cifs(packet, type_helper) %}
 {% if packet.cif0.enabled %}
 m_positions["{{ packet.cif0.name }}"] = curr_pos;
-m_{{ packet.cif0.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif0.name }}"));
+vrtgen::packing::unpack_field(m_{{ packet.cif0.name }}, m_data, m_positions.at("{{ packet.cif0.name }}"));
 curr_pos += m_{{ packet.cif0.name }}.size();
 {% endif %}
 {% if packet.cif1.enabled %}
@@ -322,12 +328,14 @@ m_positions["{{ packet.cif1.name }}"] = curr_pos;
 {%   if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif1_enable()) {
     m_{{ packet.cif1.name }} = {{ type_helper.member_type(packet.cif1) }}{};
-    m_{{ packet.cif1.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
     curr_pos += m_{{ packet.cif1.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif1.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif1.name }}"));
-curr_pos += m_{{ packet.cif1.name }}.size();
+if (m_{{ packet.cif0.name}}.cif1_enable()) {
+    vrtgen::packing::unpack_field(m_{{ packet.cif1.name }}, m_data, m_positions.at("{{ packet.cif1.name }}"));
+    curr_pos += m_{{ packet.cif1.name }}.size();
+}
 {%   endif %}
 {% endif %}
 {% if packet.cif2.enabled %}
@@ -335,31 +343,35 @@ m_positions["{{ packet.cif2.name }}"] = curr_pos;
 {%   if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif0.name}}.cif2_enable()) {
     m_{{ packet.cif2.name }} = {{ type_helper.member_type(packet.cif2) }}{};
-    m_{{ packet.cif2.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
     curr_pos += m_{{ packet.cif2.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif2.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif2.name }}"));
-curr_pos += m_{{ packet.cif2.name }}.size();
+if (m_{{ packet.cif0.name}}.cif2_enable()) {
+    vrtgen::packing::unpack_field(m_{{ packet.cif2.name }}, m_data, m_positions.at("{{ packet.cif2.name }}"));
+    curr_pos += m_{{ packet.cif2.name }}.size();
+}
 {%   endif %}
 {% endif %}
 {% if packet.cif7.enabled %}
 m_positions["{{ packet.cif7.name }}"] = curr_pos;
 {%   if packet.cif7.all_optional_fields %}
-if (m_{{ packet.cif7.name}}.cif7_enable()) {
+if (m_{{ packet.cif0.name}}.cif7_enable()) {
     m_{{ packet.cif7.name }} = {{ type_helper.member_type(packet.cif7) }}{};
-    m_{{ packet.cif7.name }}->unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
     curr_pos += m_{{ packet.cif7.name }}->size();
 }
 {%   else %}
-m_{{ packet.cif7.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.cif7.name }}"));
-curr_pos += m_{{ packet.cif7.name }}.size();
+if (m_{{ packet.cif0.name}}.cif7_enable()) {
+    vrtgen::packing::unpack_field(m_{{ packet.cif7.name }}, m_data, m_positions.at("{{ packet.cif7.name }}"));
+    curr_pos += m_{{ packet.cif7.name }}.size();
+}
 {%   endif %}
 {% endif %}
 {% if packet.cif0.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif0.fields if field.enabled and not field.indicator_only %}
-m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+m_positions["{{ field.name }}"] = curr_pos;
 {%       if packet.cif7.enabled %}
 m_positions["{{ field.name }}_attributes"] = curr_pos;
 {%       endif %}
@@ -371,7 +383,7 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
@@ -383,33 +395,36 @@ if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
 {%         else %}
     m_{{ field.name }}_attributes = {{ type_helper.member_type(packet.cif7.attributes) }}<{{ ns.member_type }}>{};
 {%         endif %}
-    m_{{ field.name }}_attributes->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}"));
     curr_pos += m_{{ field.name }}_attributes->size();
 {%       endif %}
 }
 {%     else %}
+if (m_{{ packet.cif0.name }}.{{ field.name }}()) {
+    m_positions["{{ field.name }}"] = curr_pos;
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
-curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
+    curr_pos += sizeof(int{{field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
-curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+    curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
-curr_pos += m_{{ field.name }}.size();
+    vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+    curr_pos += m_{{ field.name }}.size();
 {%       endif %}
 {%       if packet.cif7.enabled %}
-m_positions["{{ field.name }}_attributes"] = curr_pos;
-m_{{ field.name }}_attributes.unpack_from(m_data.data() + m_positions.at("{{ field.name }}_attributes"));
-curr_pos += m_{{ field.name }}_attributes.size();
+    m_positions["{{ field.name }}_attributes"] = curr_pos;
+    vrtgen::packing::unpack_field(m_{{ field.name }}_attributes, m_data, m_positions.at("{{ field.name }}_attributes"));
+    curr_pos += m_{{ field.name }}_attributes.size();
 {%       endif %}
+}
 {%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif1.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif1.fields if field.enabled and not field.indicator_only %}
-m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+m_positions["{{ field.name }}"] = curr_pos;
 {%       if packet.cif1.all_optional_fields %}
 if (m_{{ packet.cif1.name }}.has_value() && m_{{ packet.cif1.name }}->{{ field.name }}()) {
 {%       else %}
@@ -422,29 +437,32 @@ if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
+if (m_{{ packet.cif1.name }}.{{ field.name }}()) {
+    m_positions["{{ field.name }}"] = curr_pos;
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
-curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
+    curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
-curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+    curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
-curr_pos += m_{{ field.name }}.size();
+    vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+    curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+}
 {%     endif %}
 {%   endfor %}
 {% endif %}
 {% if packet.cif2.enabled and packet.requires_cif_functions %}
 {%   for field in packet.cif2.fields if field.enabled and not field.indicator_only %}
-m_positions["{{ field.name }}"] = curr_pos;
 {%     if field.is_optional %}
+m_positions["{{ field.name }}"] = curr_pos;
 {%       if packet.cif2.all_optional_fields %}
 if (m_{{ packet.cif2.name }}.has_value() && m_{{ packet.cif2.name }}->{{ field.name }}()) {
 {%       else %}
@@ -457,22 +475,25 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     curr_pos += sizeof({{ type_helper.member_type(field) }});
 {%       else %}
     m_{{ field.name }} = {{ type_helper.member_type(field) }}{};
-    m_{{ field.name }}->unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
+    vrtgen::packing::unpack_field(*m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
     m_sizes["{{ field.name }}"] = m_{{ field.name }}->size();
     curr_pos += m_{{ field.name }}->size();
 {%       endif %}
 }
 {%     else %}
+if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
+    m_positions["{{ field.name }}"] = curr_pos;
 {%       if type_helper.is_scalar(field) %}
 {%         if field.type_.reserved_bits > 0 %}
-curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
+    curr_pos += sizeof(int{{ field.type_.reserved_bits }}_t); // reserved
 {%         endif %}
-curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
+    curr_pos += sizeof({{ type_helper.member_type(field) }}); // {{ field.name }}
 {%       else %}
-m_{{ field.name }}.unpack_from(m_data.data() + m_positions.at("{{ field.name }}"));
-m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
-curr_pos += m_{{ field.name }}.size();
+    vrtgen::packing::unpack_field(m_{{ field.name }}, m_data, m_positions.at("{{ field.name }}"));
+    m_sizes["{{ field.name }}"] = m_{{ field.name }}.size();
+    curr_pos += m_{{ field.name }}.size();
 {%       endif %}
+}
 {%     endif %}
 {%   endfor %}
 {% endif %}
@@ -484,10 +505,16 @@ curr_pos += m_{{ field.name }}.size();
     {{ unpack_prologue(packet, type_helper) | indent(4) | trim }}
 {% if packet.cif0.enabled %}
     {{ unpack_cifs(packet, type_helper) | indent(4) | trim }}
+    if (curr_pos > m_data.size()) {
+        throw std::length_error("received data ends before the last field");
+    }
 {% endif %}
 {% if packet.is_data %}
     m_positions["payload"] = curr_pos;
 {%   if packet.trailer.enabled %}
+    if (m_data.size() - curr_pos < m_{{ packet.trailer.name }}.size()) {
+        throw std::length_error("received data ends before the trailer does");
+    }
     m_positions["{{ packet.trailer.name }}"] = m_data.size() - m_{{ packet.trailer.name }}.size();
     m_{{ packet.trailer.name }}.unpack_from(m_data.data() + m_positions.at("{{ packet.trailer.name }}"));
 {%   endif %}
@@ -590,13 +617,13 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_w()) {
         m_positions["{{ packet.wif0.name }}"] = curr_pos;
         m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-        m_{{ packet.wif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::packing::unpack_field(*m_{{ packet.wif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.wif0.name }}->size();
 {%   if packet.wif1.enabled %}
         if (m_{{ packet.wif0.name }}->wif1_enable()) {
             m_positions["{{ packet.wif1.name }}"] = curr_pos;
             m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_{{ packet.wif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.wif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif1.name }}->size();
         }
 {%   endif %}
@@ -604,7 +631,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->wif2_enable()) {
             m_positions["{{ packet.wif2.name }}"] = curr_pos;
             m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_{{ packet.wif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.wif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.wif2.name }}->size();
         }
 {%   endif %}
@@ -614,13 +641,13 @@ curr_pos += m_{{ field.name }}.size();
     if (m_{{ packet.cam.name }}.ack_er()) {
         m_positions["{{ packet.eif0.name }}"] = curr_pos;
         m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-        m_{{ packet.eif0.name }}->unpack_from(m_data.data() + curr_pos);
+        vrtgen::packing::unpack_field(*m_{{ packet.eif0.name }}, m_data, curr_pos);
         curr_pos += m_{{ packet.eif0.name }}->size();
 {%   if packet.eif1.enabled %}
         if (m_{{ packet.eif0.name }}->eif1_enable()) {
             m_positions["{{ packet.eif1.name }}"] = curr_pos;
             m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_{{ packet.eif1.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.eif1.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif1.name }}->size();
         }
 {%   endif %}
@@ -628,7 +655,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->eif2_enable()) {
             m_positions["{{ packet.eif2.name }}"] = curr_pos;
             m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_{{ packet.eif2.name }}->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ packet.eif2.name }}, m_data, curr_pos);
             curr_pos += m_{{ packet.eif2.name }}->size();
         }
 {%   endif %}
@@ -640,7 +667,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%   endfor %}
@@ -651,7 +678,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -663,7 +690,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.wif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_warnings"] = curr_pos;
             m_{{ field.name }}_warnings = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_warnings->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_warnings, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_warnings->size();
         }
 {%     endfor %}
@@ -676,7 +703,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif0.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%   endfor %}
@@ -687,7 +714,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif1.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
@@ -699,7 +726,7 @@ curr_pos += m_{{ field.name }}.size();
         if (m_{{ packet.eif2.name }}->{{ field.name }}()) {
             m_positions["{{ field.name }}_errors"] = curr_pos;
             m_{{ field.name }}_errors = {{ type_helper.member_type(field) }}{};
-            m_{{ field.name }}_errors->unpack_from(m_data.data() + curr_pos);
+            vrtgen::packing::unpack_field(*m_{{ field.name }}_errors, m_data, curr_pos);
             curr_pos += m_{{ field.name }}_errors->size();
         }
 {%     endfor %}
@@ -744,6 +771,9 @@ curr_pos += m_{{ field.name }}.size();
 {% endif %}
 {% if packet.cif0.enabled %}
     {{ unpack_cifs(packet, type_helper) | indent(4) | trim }}
+    if (curr_pos > m_data.size()) {
+        throw std::length_error("received data ends before the last field");
+    }
 {% endif %}
 }
 {% endmacro %}
\ No newline at end of file
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
index a49d420..a84adb0 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/match.jinja2
@@ -21,6 +21,9 @@
 auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Failed to match packet. Data ends before the header." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -52,6 +55,10 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {% endfor %}
+    const auto packet_bytes = header.packet_size() * sizeof(uint32_t);
+    if (packet_bytes > data.size() || packet_bytes < {{ packet.name }}{}.min_bytes()) {
+        return { "Failed to match packet. Data does not hold a whole packet." };
+    }
 {% if packet.stream_id.enabled and (packet.class_id.enabled or packet.cam.enabled) %}
     curr_pos += sizeof({{ type_helper.value_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
 {% endif %}
@@ -133,6 +140,9 @@ auto {{ packet.name }}::match(std::span<const uint8_t> data) -> std::optional<st
 auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<std::string>
 {
     auto header = {{ type_helper.value_type(packet.header) }}{};
+    if (data.size() < {{ packet.header.name }}.size()) {
+        return { "Failed to match packet. Data ends before the header." };
+    }
     {{ packet.header.name }}.unpack_from(data.data());
 {% if packet.class_id.enabled or packet.timestamp.enabled or packet.cam.enabled or (packet.trailer.enabled and packet.trailer.user_defined) %}
     [[maybe_unused]]
@@ -164,6 +174,10 @@ auto {{ packet_name }}::match(std::span<const uint8_t> data) -> std::optional<st
         return { msg.str() };
     }
 {% endfor %}
+    const auto packet_bytes = header.packet_size() * sizeof(uint32_t);
+    if (packet_bytes > data.size() || packet_bytes < {{ packet_name }}{}.min_bytes()) {
+        return { "Failed to match packet. Data does not hold a whole packet." };
+    }
 {% if packet.stream_id.enabled and (packet.class_id.enabled or packet.cam.enabled) %}
     curr_pos += sizeof({{ type_helper.value_type(packet.stream_id) }}); // {{ packet.stream_id.name }}
 {% endif %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
index 4d3d18a..d7c30cf 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/user_class.jinja2
@@ -215,7 +215,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void
+    auto unpack_from(const uint8_t* buffer_ptr) -> void
     {
         if constexpr (std::is_integral_v<T>) {
 {% for field in class.fields if field.enabled and not field.name == 'current_value' %}
@@ -281,7 +281,7 @@ public:
      * @brief Unpack buffer bytes into {{ class.type_ }}
      * @param buffer_ptr Pointer to beginning of {{ class.type_ }} bytes in the buffer
      */
-    auto unpack_from(uint8_t* buffer_ptr) -> void;
+    auto unpack_from(const uint8_t* buffer_ptr) -> void;
 {% endif %}
 
 private:
@@ -318,7 +318,7 @@ auto {{ class.type_ }}::pack_into(uint8_t* buffer_ptr) const -> void
     m_packed.pack_into(buffer_ptr);
 }
 
-auto {{ class.type_ }}::unpack_from(uint8_t* buffer_ptr) -> void
+auto {{ class.type_ }}::unpack_from(const uint8_t* buffer_ptr) -> void
 {
     m_packed.unpack_from(buffer_ptr);
 }
-- 
2.43.0


From d9382f7aa2b29b7d2c1b555f68b0136925426ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:39 +0000
Subject: [PATCH 45/61] fix: controllers and controllees decode only the bytes
 that arrived

---
 include/vrtgen/packing/unpack.hpp             | 21 +++++++++++++++++++
 .../cpp/templates/controllee_base.hpp.jinja2  |  8 +++----
 .../cpp/templates/controller.hpp.jinja2       |  6 +++---
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/vrtgen/packing/unpack.hpp b/include/vrtgen/packing/unpack.hpp
index a56c9b9..8d8e5f6 100644
--- a/include/vrtgen/packing/unpack.hpp
+++ b/include/vrtgen/packing/unpack.hpp
@@ -21,8 +21,10 @@
 
 #include <cstddef>
 #include <cstdint>
+#include <optional>
 #include <span>
 #include <stdexcept>
+#include <utility>
 
 namespace vrtgen::packing {
 
@@ -48,4 +50,23 @@ inline void unpack_field(T& field, std::span<const uint8_t> data, const std::siz
     field.unpack_from(bytes);
 }
 
+/**
+ * @brief Decode received bytes that match a packet
+ * @tparam PacketT Packet to match and decode
+ * @param data Received bytes
+ * @return The packet, or nullopt if the bytes do not match it or do not hold a whole packet
+ */
+template <typename PacketT>
+inline auto match_packet(std::span<const uint8_t> data) -> std::optional<PacketT>
+{
+    if (PacketT::match(data).has_value()) {
+        return std::nullopt;
+    }
+    try {
+        return std::optional<PacketT>{ std::in_place, data };
+    } catch (const std::length_error&) {
+        return std::nullopt;
+    }
+}
+
 } // end namespace vrtgen::packing
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 6cd1bd9..f17edb5 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -403,16 +403,16 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 {%     endif %}
 
 {%   endif %}
 {%   if cmd_socket == 'nats' %}
-            if (auto err = {{ packet.name }}::match(message->data()); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message->data() };
+            if (auto matched = vrtgen::packing::match_packet<{{ packet.name }}>(message->data())) {
 {%   else %}
-            if (auto err = {{ packet.name }}::match(message); !err.has_value()) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto matched = vrtgen::packing::match_packet<{{ packet.name }}>(received)) {
 {%   endif %}
+                auto& packet = *matched;
 {%   if packet.cam.req_v.enabled %}
                 if (packet.cam().req_v()) {
                     auto ack_v = this->validate_{{ packet.name | to_snake }}(packet);
diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 519865d..44e47df 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -120,12 +120,12 @@ private:
             if (recv_length <= 0) {
                 continue;
             }
+            const auto received = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(recv_length) };
 
 {%   endif %}
-            if (!{{ packet.name }}::match(message)) {
-                auto packet = {{ packet.name }}{ message };
+            if (auto packet = vrtgen::packing::match_packet<{{ packet.name }}>(received)) {
                 if (m_{{ packet.name | to_snake }}_listener) {
-                    m_{{ packet.name | to_snake }}_listener(packet);
+                    m_{{ packet.name | to_snake }}_listener(*packet);
                 }
             }
 {%   if loop.last %}
-- 
2.43.0


From 33e1b4a0e0848f73571b7d97b9a25c58840d90c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:01 +0000
Subject: [PATCH 46/61] fix: acknowledgements keep their warning and error
 fields in order

---
 .../cpp/templates/ack_packet.cpp.jinja2       | 281 +++++-------------
 .../cpp/templates/ack_packet.hpp.jinja2       |   6 +-
 .../macros/function_defs/constructors.jinja2  |   1 +
 .../cpp/templates/macros/types/weif.jinja2    |  56 +---
 4 files changed, 75 insertions(+), 269 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
index 1f55130..e96bc75 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.cpp.jinja2
@@ -36,92 +36,126 @@ auto {{ packet_name }}::update_positions() -> void
     auto curr_pos = m_positions.at("{{ last_field.name }}") + m_{{ last_field.name }}.size();
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif0.name }}") = curr_pos;
+    m_positions["{{ packet.wif0.name }}"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value()) {
         curr_pos += m_{{ packet.wif0.name }}->size();
     }
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif1.name }}") = curr_pos;
+    m_positions["{{ packet.wif1.name }}"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value()) {
         curr_pos += m_{{ packet.wif1.name }}->size();
     }
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
-    m_positions.at("{{ packet.wif2.name }}") = curr_pos;
+    m_positions["{{ packet.wif2.name }}"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value()) {
         curr_pos += m_{{ packet.wif2.name }}->size();
     }
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif0.name }}") = curr_pos;
+    m_positions["{{ packet.eif0.name }}"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value()) {
         curr_pos += m_{{ packet.eif0.name }}->size();
     }
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif1.name }}") = curr_pos;
+    m_positions["{{ packet.eif1.name }}"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value()) {
         curr_pos += m_{{ packet.eif1.name }}->size();
     }
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
-    m_positions.at("{{ packet.eif2.name }}") = curr_pos;
+    m_positions["{{ packet.eif2.name }}"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value()) {
         curr_pos += m_{{ packet.eif2.name }}->size();
     }
 {% endif %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.wif1.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.wif2.enabled and packet.warnings_enabled %}
 {%   for field in packet.wif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_warnings") = curr_pos;
+    m_positions["{{ field.name }}_warnings"] = curr_pos;
     if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_warnings->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
 {% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
-    m_positions.at("{{ field.name }}_errors") = curr_pos;
+    m_positions["{{ field.name }}_errors"] = curr_pos;
     if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->{{ field.name }}()) {
-        curr_pos += m_{{ field.name }}_errors->size();
+        curr_pos += {{ type_helper.member_type(field) }}{}.size();
     }
 {%   endfor %}
 {% endif %}
+    m_data.resize(curr_pos);
 }
 {% endmacro %}
 
+{%- macro sync_weif_indicators(words, suffix, ack_flag, packet, type_helper) %}
+// Indicate the fields which have{{ suffix | replace('_', ' ') }}
+{% for weif in words if weif.enabled %}
+m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
+{%   for field in weif.fields if field.enabled %}
+m_{{ weif.name }}->{{ field.name }}(m_{{ field.name }}{{ suffix }}.has_value());
+{%   endfor %}
+{% endfor %}
+{% for weif in words[1:] if weif.enabled %}
+m_{{ words[0].name }}->{{ weif.name | replace('_', '') }}_enable(!m_{{ weif.name }}->none());
+if (m_{{ weif.name }}->none()) {
+    m_{{ weif.name }}.reset();
+}
+{% endfor %}
+m_{{ packet.cam.name }}.{{ ack_flag.name }}(!m_{{ words[0].name }}->none());
+if (m_{{ words[0].name }}->none()) {
+    m_{{ words[0].name }}.reset();
+}
+{% endmacro %}
+
+{%- macro pack_weif(words, suffix, type_helper) %}
+{% for weif in words if weif.enabled %}
+if (m_{{ weif.name }}.has_value()) {
+    m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
+{%   for field in weif.fields if field.enabled %}
+    if (m_{{ field.name }}{{ suffix }}.has_value()) {
+        m_{{ field.name }}{{ suffix }}->pack_into(m_data.data() + m_positions.at("{{ field.name }}{{ suffix }}"));
+    }
+{%   endfor %}
+}
+{% endfor %}
+{% endmacro %}
+
 {%- macro ackvx_sync(packet, packet_name, type_helper) %}
 auto {{ packet_name }}::sync() -> void
 {
@@ -134,205 +168,24 @@ auto {{ packet_name }}::sync() -> void
 {% if packet.controller_id.enabled and not type_helper.is_scalar(packet.controller_id) %}
     m_{{ packet.controller_id.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.controller_id.name }}"));
 {% endif %}
+{% set wifs = [packet.wif0, packet.wif1, packet.wif2] %}
+{% set eifs = [packet.eif0, packet.eif1, packet.eif2] %}
 {% if packet.wif0.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif0.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->{{ field.name }}(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif1.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}.has_value()) {
-            m_{{ packet.wif1.name }} = {{ type_helper.member_type(packet.wif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif1.name }}"), m_{{ packet.wif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif1_enable(true);
-        m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-        m_{{ packet.wif1.name }}->{{ field.name }}(true);
-        m_{{ packet.wif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-{%   for field in packet.wif2.fields if field.enabled %}
-{%     set field_name = field.name + '_warnings' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.wif0.name }}.has_value()) {
-            m_{{ packet.wif0.name }} = {{ type_helper.member_type(packet.wif0) }}{};
-            m_{{ packet.wif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif0.name }}"));
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}.has_value()) {
-            m_{{ packet.wif2.name }} = {{ type_helper.member_type(packet.wif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif2.name }}"), m_{{ packet.wif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.wif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.wif0.name }}->wif2_enable(true);
-        m_data.insert(m_data.begin() + m_positions.at("{{ packet.wif0.name }}"), m_{{ packet.wif0.name }}->size(), 0);
-        m_{{ packet.wif2.name }}->{{ field.name }}(true);
-        m_{{ packet.wif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.wif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_w(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif0.enabled and packet.errors_enabled %}
-{%   for field in packet.eif0.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif0.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->{{ field.name }}(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-{%   for field in packet.eif1.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}.has_value()) {
-            m_{{ packet.eif1.name }} = {{ type_helper.member_type(packet.eif1) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif1.name }}"), m_{{ packet.eif1.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif1.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif1_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif1.name }}->{{ field.name }}(true);
-        m_{{ packet.eif1.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif1.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-{%   for field in packet.eif2.fields if field.enabled %}
-{%     set field_name = field.name + '_errors' %}
-    if (m_{{ field_name }}.has_value()) {
-        if (!m_{{ packet.eif0.name }}.has_value()) {
-            m_{{ packet.eif0.name }} = {{ type_helper.member_type(packet.eif0) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif0.name }}"), m_{{ packet.eif0.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}.has_value()) {
-            m_{{ packet.eif2.name }} = {{ type_helper.member_type(packet.eif2) }}{};
-            m_data.insert(m_data.begin() + m_positions.at("{{ packet.eif2.name }}"), m_{{ packet.eif2.name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        if (!m_{{ packet.eif2.name }}->{{ field.name }}()) {
-            m_data.insert(m_data.begin() + m_positions.at("{{ field_name }}"), m_{{ field_name }}->size(), 0);
-            update_positions();
-            update_packet_size();
-        }
-        m_{{ packet.eif0.name }}->eif2_enable(true);
-        m_{{ packet.eif0.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif0.name }}"));
-        m_{{ packet.eif2.name }}->{{ field.name }}(true);
-        m_{{ packet.eif2.name }}->pack_into(m_data.data() + m_positions.at("{{ packet.eif2.name }}"));
-        m_{{ field_name }}->pack_into(m_data.data() + m_positions.at("{{ field_name }}"));
-        m_{{ packet.cam.name }}.ack_er(true);
-        m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
-    }
-{%   endfor %}
-{% endif %}
-{% if packet.wif1.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif1.name }}.has_value() && m_{{ packet.wif1.name }}->none()) {
-        reset_{{ packet.wif1.name }}();
-    }
-{% endif %}
-{% if packet.wif2.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif2.name }}.has_value() && m_{{ packet.wif2.name }}->none()) {
-        reset_{{ packet.wif2.name }}();
-    }
-{% endif %}
-{% if packet.wif0.enabled and packet.warnings_enabled %}
-    if (m_{{ packet.wif0.name }}.has_value() && m_{{ packet.wif0.name }}->none()) {
-        reset_{{ packet.wif0.name }}();
-    }
-{% endif %}
-{% if packet.eif1.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif1.name }}.has_value() && m_{{ packet.eif1.name }}->none()) {
-        reset_{{ packet.eif1.name }}();
-    }
-{% endif %}
-{% if packet.eif2.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif2.name }}.has_value() && m_{{ packet.eif2.name }}->none()) {
-        reset_{{ packet.eif2.name }}();
-    }
+    {{ sync_weif_indicators(wifs, '_warnings', packet.cam.ack_w, packet, type_helper) | indent(4) | trim }}
 {% endif %}
 {% if packet.eif0.enabled and packet.errors_enabled %}
-    if (m_{{ packet.eif0.name }}.has_value() && m_{{ packet.eif0.name }}->none()) {
-        reset_{{ packet.eif0.name }}();
-    }
+    {{ sync_weif_indicators(eifs, '_errors', packet.cam.ack_er, packet, type_helper) | indent(4) | trim }}
+{% endif %}
+{% if packet.wif0.enabled and (packet.warnings_enabled or packet.errors_enabled) %}
+    update_positions();
+    update_packet_size();
+    m_{{ packet.cam.name }}.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+{%   if packet.warnings_enabled %}
+    {{ pack_weif(wifs, '_warnings', type_helper) | indent(4) | trim }}
+{%   endif %}
+{%   if packet.errors_enabled %}
+    {{ pack_weif(eifs, '_errors', type_helper) | indent(4) | trim }}
+{%   endif %}
 {% endif %}
 }
 {% endmacro %}
diff --git a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
index 2b2602d..bbf5e25 100644
--- a/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/ack_packet.hpp.jinja2
@@ -173,17 +173,17 @@ std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_warnings;
 {%   endfor %}
 {% endif %}
-{% if packet.eif0.enabled and packet.warnings_enabled %}
+{% if packet.eif0.enabled and packet.errors_enabled %}
 {%   for field in packet.eif0.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif1.enabled and packet.warnings_enabled %}
+{% if packet.eif1.enabled and packet.errors_enabled %}
 {%   for field in packet.eif1.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
 {% endif %}
-{% if packet.eif2.enabled and packet.warnings_enabled %}
+{% if packet.eif2.enabled and packet.errors_enabled %}
 {%   for field in packet.eif2.fields if field.enabled %}
 std::optional<{{ type_helper.member_type(field) }}> m_{{ field.name }}_errors;
 {%   endfor %}
diff --git a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2 b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
index 38774d3..8ad1183 100644
--- a/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/function_defs/constructors.jinja2
@@ -733,6 +733,7 @@ if (m_{{ packet.cif2.name }}.{{ field.name }}()) {
     }
 {%   endif %}
 {% endif %}
+    update_positions();
 }
 {% endmacro %}
 
diff --git a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2 b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
index 2f6a56e..04b5185 100644
--- a/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/types/weif.jinja2
@@ -38,35 +38,10 @@ auto {{ packet_name }}::reset_{{ weif.name }}() -> void
     reset_{{ packet.eif2.name }}();
 {%   endif %}
 {% endif %}
-    if (m_{{ weif.name }}.has_value()) {
 {% for field in weif.fields if field.enabled %}
-        if (m_{{ weif.name }}->{{ field.name }}()) {
-            reset_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}();
-        }
+    m_{{ field.name }}{{ '_warnings' if is_warning else '_errors' }}.reset();
 {% endfor %}
-        const auto pos{ m_positions.at("{{ weif.name }}") };
-        m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ weif.name }}->size());
-        m_{{ weif.name }}.reset();
-{% if not weif.name == packet.wif0.name and is_warning %}
-        if (m_{{ packet.wif0.name }}.has_value()) {
-{%   if weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif1_enable(false);
-{%   elif weif.name == packet.wif1.name %}
-            m_{{ packet.wif0.name }}->wif2_enable(false);
-{%   endif %}
-        }
-{% else %}
-        if (m_{{ packet.eif0.name }}.has_value()) {
-{%   if weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif1_enable(false);
-{%   elif weif.name == packet.eif1.name %}
-            m_{{ packet.eif0.name }}->eif2_enable(false);
-{%   endif %}
-        }
-{% endif %}
-        update_positions();
-        update_packet_size();
-    }
+    sync();
 }
 
 {% for field in weif.fields if field.enabled %}
@@ -87,26 +62,7 @@ auto {{ packet_name }}::{{ func_name }}() -> std::optional<{{ type_helper.member
 auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field) }}& value) -> void
 {
     m_{{ func_name }} = value;
-    if (!m_{{ weif.name }}.has_value()) {
-        m_{{ weif.name }} = {{ type_helper.member_type(weif) }}{};
-        m_data.insert(m_data.begin() + m_positions.at("{{ weif.name }}"), m_{{ weif.name }}->size(), 0);
-        update_positions();
-        update_packet_size();
-    }
-    if (!m_{{ weif.name }}->{{ field.name }}()) {
-        m_data.insert(m_data.begin() + m_positions.at("{{ func_name }}"), m_{{ func_name }}->size(), 0);
-        m_{{ weif.name }}->{{ field.name }}(true);
-        m_{{ weif.name }}->pack_into(m_data.data() + m_positions.at("{{ weif.name }}"));
-        update_positions();
-        update_packet_size();
-    }
-    m_{{ func_name }}->pack_into(m_data.data() + m_positions.at("{{ func_name }}"));
-{% if is_warning %}
-    m_{{ packet.cam.name }}.ack_w(true);
-{% else %}
-    m_{{ packet.cam.name }}.ack_er(true);
-{% endif %}
-    m_cam.pack_into(m_data.data() + m_positions.at("{{ packet.cam.name }}"));
+    sync();
 }
 
 /**
@@ -114,12 +70,8 @@ auto {{ packet_name }}::{{ func_name }}(const {{ type_helper.member_type(field)
  */
 auto {{ packet_name }}::reset_{{ func_name }}() -> void
 {
-    m_{{ weif.name }}->{{ field.name }}(false);
-    const auto pos{ m_positions.at("{{ func_name }}") };
-    m_data.erase(m_data.begin() + pos, m_data.begin() + pos + m_{{ func_name }}->size());
     m_{{ func_name }}.reset();
-    update_positions();
-    update_packet_size();
+    sync();
 }
 
 {% endfor %}
-- 
2.43.0


From cb37cdb30cbb79a605c321bbd1b0fbf0781ebaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:08 +0000
Subject: [PATCH 47/61] fix: sockets close each descriptor exactly once

---
 include/vrtgen/socket/socket_base.hpp | 10 ++++++++--
 include/vrtgen/socket/tcp.hpp         | 26 ++++++++++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 377a228..1385e68 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -54,12 +54,18 @@ public:
         close();
     }
 
+    socket_base(const socket_base&) = delete;
+    socket_base& operator=(const socket_base&) = delete;
+
     /**
      * @brief Close the socket
      */
-    void close()
+    virtual void close()
     {
-        ::close(m_socket);
+        if (m_socket != INVALID_SOCKET) {
+            ::close(m_socket);
+            m_socket = INVALID_SOCKET;
+        }
     }
 
     /**
diff --git a/include/vrtgen/socket/tcp.hpp b/include/vrtgen/socket/tcp.hpp
index 04ea516..147ca20 100644
--- a/include/vrtgen/socket/tcp.hpp
+++ b/include/vrtgen/socket/tcp.hpp
@@ -51,9 +51,22 @@ public:
     }
 
     /**
-     * @brief Destructor
+     * @brief Destructor.
+     *        Closes the accepted connection, if any.
      */
-    virtual ~stream_socket() = default;
+    virtual ~stream_socket()
+    {
+        close_connection();
+    }
+
+    /**
+     * @brief Close the socket and the accepted connection, if any
+     */
+    void close() override
+    {
+        close_connection();
+        base_type::close();
+    }
 
     /**
      * @brief Listen for connections on the socket
@@ -81,6 +94,7 @@ public:
         if (res < 0) {
             return false;
         }
+        close_connection();
         m_connected_socket = res;
         this->m_dst = endpoint;
         return true;
@@ -122,6 +136,14 @@ private:
         return m_connected_socket != this->INVALID_SOCKET;
     }
 
+    void close_connection()
+    {
+        if (m_is_connected()) {
+            ::close(m_connected_socket);
+            m_connected_socket = this->INVALID_SOCKET;
+        }
+    }
+
 }; // end class stream_socket
 
 namespace tcp {
-- 
2.43.0


From dd730f32fbac526b20a98e8434da06d9b544b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:08 +0000
Subject: [PATCH 48/61] fix: report failures to shut down a socket or set its
 timeout

---
 include/vrtgen/socket/socket_base.hpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/socket/socket_base.hpp b/include/vrtgen/socket/socket_base.hpp
index 1385e68..ee6738c 100644
--- a/include/vrtgen/socket/socket_base.hpp
+++ b/include/vrtgen/socket/socket_base.hpp
@@ -127,7 +127,9 @@ public:
      */
     void shutdown(const int what)
     {
-        ::shutdown(m_socket, what);
+        if (::shutdown(m_socket, what) < 0) {
+            throw std::runtime_error(std::string("Failed to shut down socket: ") + strerror(errno));
+        }
     }
 
     /**
@@ -196,13 +198,16 @@ public:
     /**
      * @brief Set receive timeout for socket
      * @param timeout The desired socket receive timeout (in seconds)
+     * @throw std::runtime_error Thrown on failure
      */
     void timeout(const size_t timeout)
     {
         struct timeval tv;
         tv.tv_sec = timeout;
         tv.tv_usec = 0;
-        setsockopt(m_socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv));
+        if (setsockopt(m_socket, SOL_SOCKET, SO_RCVTIMEO, (const char*)&tv, sizeof(tv)) < 0) {
+            throw std::runtime_error(std::string("Failed to set socket timeout: ") + strerror(errno));
+        }
     }
 
 protected:
@@ -225,7 +230,12 @@ protected:
         if ((m_socket = ::socket(m_domain, m_type, m_protocol)) < 0) {
             throw std::runtime_error(std::string("Failed to create socket descriptor: ") + strerror(errno));
         }
-        this->timeout(TIMEOUT);
+        try {
+            this->timeout(TIMEOUT);
+        } catch (...) {
+            ::close(m_socket);
+            throw;
+        }
     }
     
     int m_socket{ INVALID_SOCKET }; /**< Socket file descriptor */
-- 
2.43.0


From 8a401598588a68b10d90c87065400eb0c91829b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:08 +0000
Subject: [PATCH 49/61] fix: IPv6 endpoints use the members of sockaddr_in6

---
 include/vrtgen/socket/socket_endpoint.hpp | 34 ++++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/vrtgen/socket/socket_endpoint.hpp b/include/vrtgen/socket/socket_endpoint.hpp
index f405232..2fd9d9a 100644
--- a/include/vrtgen/socket/socket_endpoint.hpp
+++ b/include/vrtgen/socket/socket_endpoint.hpp
@@ -62,6 +62,18 @@ public:
     {
         return sockaddr.sin_addr;
     }
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_family;
+    }
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 /**
@@ -93,6 +105,18 @@ public:
     {
         return sockaddr.sin6_addr;
     }
+    static sa_family_t& family(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_family;
+    }
+    static in_port_t& port(sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
+    static in_port_t port(const sockaddr_type& sockaddr)
+    {
+        return sockaddr.sin6_port;
+    }
 }; // end class endpoint_traits<AF_INET6>
 
 } // end namespace detail
@@ -105,6 +129,8 @@ public:
 template <int domain_type, int socket_type>
 class socket_endpoint
 {    
+    using traits = endpoint::detail::endpoint_traits<domain_type>;
+
 public:
     using sockaddr_type = typename endpoint::detail::endpoint_traits<domain_type>::sockaddr_type;
     using address_type = typename endpoint::detail::endpoint_traits<domain_type>::address_type;
@@ -138,8 +164,8 @@ public:
     socket_endpoint(const std::string& ip_addr, const in_port_t port_num)
     {
         memset(&m_sockaddr, 0, sizeof(m_sockaddr));
-        m_sockaddr.sin_family = domain_type;
-        m_sockaddr.sin_port = htons(port_num);
+        traits::family(m_sockaddr) = domain_type;
+        traits::port(m_sockaddr) = htons(port_num);
         if (!ip_addr.empty()) {
             if (inet_pton(domain_type, ip_addr.c_str(), &get_address(m_sockaddr)) <= 0) {
                 throw std::runtime_error("Unable to create address " + ip_addr);
@@ -195,7 +221,7 @@ public:
      */
     in_port_t port() const noexcept
     {
-	    return ntohs(m_sockaddr.sin_port);
+	    return ntohs(traits::port(m_sockaddr));
     }
 
     /**
@@ -204,7 +230,7 @@ public:
      */
     void port(const in_port_t port) noexcept
     {
-        m_sockaddr.sin_port = htons(port);
+        traits::port(m_sockaddr) = htons(port);
     }
 
     /**
-- 
2.43.0


From 4788afd416a3cc1a6153ca9d55e2a3d2e9e043b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:27 +0000
Subject: [PATCH 50/61] fix: messaging client releases every handle exactly
 once

---
 include/vrtgen/nats/client.hpp  | 73 ++++++++++++++++++++++++---------
 include/vrtgen/nats/message.hpp |  3 ++
 2 files changed, 56 insertions(+), 20 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index b1eb393..6701da1 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -61,13 +61,7 @@ public:
     ~client()
     {
         m_done = true;
-        stop();
-        if (m_sub != nullptr) {
-            natsSubscription_Destroy(m_sub);
-        }
-        if (m_connection != nullptr) {
-            natsConnection_Destroy(m_connection);
-        }
+        close();
     }
 
     /**
@@ -85,7 +79,13 @@ public:
      */
     auto connect(const std::string& url) -> natsStatus
     {
-        return natsConnection_ConnectTo(&m_connection, url.c_str());
+        natsConnection* connection{ nullptr };
+        auto res = natsConnection_ConnectTo(&connection, url.c_str());
+        if (res == NATS_OK) {
+            close();
+            m_connection = connection;
+        }
+        return res;
     }
 
     /**
@@ -127,22 +127,22 @@ public:
         if (subject.empty()) {
             return NATS_INVALID_SUBJECT;
         }
-        m_is_sync = create_sync;
+        natsSubscription* sub{ nullptr };
         auto res = NATS_OK;
         if (create_sync) {
-            res = natsConnection_SubscribeSync(&m_sub, m_connection, subject.c_str());
-            if (res == NATS_OK) {
-                start();
-            }
+            res = natsConnection_SubscribeSync(&sub, m_connection, subject.c_str());
         } else {
             res = natsConnection_Subscribe(
-                &m_sub,
+                &sub,
                 m_connection,
                 subject.c_str(),
                 &client::on_msg,
                 this
             );
         }
+        if (res == NATS_OK) {
+            subscribed(sub, create_sync);
+        }
         return res;
     }
 
@@ -161,20 +161,17 @@ public:
         if (queue_group.empty()) {
             return NATS_INVALID_QUEUE_NAME;
         }
-        m_is_sync = create_sync;
+        natsSubscription* sub{ nullptr };
         auto res = NATS_OK;
         if (create_sync) {
             res = natsConnection_QueueSubscribeSync(
-                &m_sub, m_connection,
+                &sub, m_connection,
                 subject.c_str(),
                 queue_group.c_str()
             );
-            if (res == NATS_OK) {
-                start();
-            }
         } else {
             res = natsConnection_QueueSubscribe(
-                &m_sub,
+                &sub,
                 m_connection,
                 subject.c_str(),
                 queue_group.c_str(),
@@ -182,6 +179,9 @@ public:
                 this
             );
         }
+        if (res == NATS_OK) {
+            subscribed(sub, create_sync);
+        }
         return res;
     }
 
@@ -243,6 +243,7 @@ public:
     {
         if (m_reply_sub != nullptr) {
             natsSubscription_Destroy(m_reply_sub);
+            m_reply_sub = nullptr;
         }
 
         // Generate a unique subject
@@ -312,6 +313,38 @@ private:
     };
     inline static std::uniform_int_distribution m_random{ std::size_t{ 0 }, DIGITS.size()-1 };
     
+    auto close() -> void
+    {
+        unsubscribe();
+        if (m_reply_sub != nullptr) {
+            natsSubscription_Destroy(m_reply_sub);
+            m_reply_sub = nullptr;
+        }
+        if (m_connection != nullptr) {
+            natsConnection_Destroy(m_connection);
+            m_connection = nullptr;
+        }
+    }
+
+    auto unsubscribe() -> void
+    {
+        stop();
+        if (m_sub != nullptr) {
+            natsSubscription_Destroy(m_sub);
+            m_sub = nullptr;
+        }
+    }
+
+    auto subscribed(natsSubscription* sub, const bool is_sync) -> void
+    {
+        unsubscribe();
+        m_sub = sub;
+        m_is_sync = is_sync;
+        if (is_sync) {
+            start();
+        }
+    }
+
     auto start() -> void
     {
         if (!m_running) {
diff --git a/include/vrtgen/nats/message.hpp b/include/vrtgen/nats/message.hpp
index c780670..3efcf54 100644
--- a/include/vrtgen/nats/message.hpp
+++ b/include/vrtgen/nats/message.hpp
@@ -50,6 +50,9 @@ public:
         }
     }
 
+    message(const message&) = delete;
+    message& operator=(const message&) = delete;
+
     /**
      * @brief Destructor
      */
-- 
2.43.0


From 82617ac5f73af9002c84adbf045762bd769c9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:18 +0000
Subject: [PATCH 51/61] fix: messaging client waits and stops under the locks
 of its queues

---
 include/vrtgen/nats/client.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 6701da1..81ede21 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -60,7 +60,10 @@ public:
      */
     ~client()
     {
-        m_done = true;
+        {
+            const auto lock = std::scoped_lock{ m_msg_mtx, m_inbox_msg_mtx };
+            m_done = true;
+        }
         close();
     }
 
@@ -211,7 +214,7 @@ public:
         if (timeout == BLOCKING) {
             m_msg_cv.wait(lock, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         } else {
-            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_msg_cv.wait_for(lock, timeout, [this]{ return !m_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         }
         if (!m_msg_queue.empty()) {
             auto retval = std::move(m_msg_queue.front());
@@ -269,11 +272,11 @@ public:
     auto next_inbox_msg(std::chrono::milliseconds timeout=BLOCKING) -> message_ptr
     {
         using namespace std::chrono_literals;
-        std::unique_lock<std::mutex> lock(m_msg_mtx);
+        std::unique_lock<std::mutex> lock(m_inbox_msg_mtx);
         if (timeout == BLOCKING) {
             m_inbox_msg_cv.wait(lock, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         } else {
-            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running); });
+            m_inbox_msg_cv.wait_for(lock, timeout, [this]{ return !m_inbox_msg_queue.empty() || (m_is_sync && !m_running) || m_done; });
         }
         if (!m_inbox_msg_queue.empty()) {
             auto retval = std::move(m_inbox_msg_queue.front());
@@ -355,8 +358,12 @@ private:
 
     auto stop() -> void
     {
-        m_running = false;
+        {
+            const auto lock = std::scoped_lock{ m_msg_mtx, m_inbox_msg_mtx };
+            m_running = false;
+        }
         m_msg_cv.notify_all();
+        m_inbox_msg_cv.notify_all();
         if (m_thread.joinable()) {
             m_thread.join();
         }
-- 
2.43.0


From 5d08e49bd5c8d544ee642707991b44b5b11e1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:18 +0000
Subject: [PATCH 52/61] fix: clients share the inbox name generator under a
 lock

---
 include/vrtgen/nats/client.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 81ede21..851083c 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -251,9 +251,12 @@ public:
 
         // Generate a unique subject
         auto inbox_str = std::string{ "INBOX_" };
-        for (auto i=0u; i<INBOX_LEN; ++i) {
-            auto random_index = m_random(m_urbg);
-            inbox_str += DIGITS.at(random_index);
+        {
+            const auto lock = std::lock_guard<std::mutex>{ m_random_mtx };
+            for (auto i=0u; i<INBOX_LEN; ++i) {
+                auto random_index = m_random(m_urbg);
+                inbox_str += DIGITS.at(random_index);
+            }
         }
 
         return natsConnection_Subscribe(
@@ -307,6 +310,7 @@ private:
     inline static const std::string DIGITS{
         "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
     };
+    inline static std::mutex m_random_mtx;
     inline static std::mt19937 m_urbg{ 
         static_cast<unsigned long>(
                 std::chrono::duration_cast<std::chrono::nanoseconds>(
-- 
2.43.0


From 3a4ad71ffa76ed78a29dc6870242bebe4a3ff2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:18 +0000
Subject: [PATCH 53/61] fix: the URL of the messaging server ends where the
 text ends

---
 include/vrtgen/nats/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vrtgen/nats/client.hpp b/include/vrtgen/nats/client.hpp
index 851083c..65d7529 100644
--- a/include/vrtgen/nats/client.hpp
+++ b/include/vrtgen/nats/client.hpp
@@ -101,7 +101,7 @@ public:
         std::array<char, 256> url_str;
         auto res = natsConnection_GetConnectedUrl(m_connection, url_str.data(), sizeof(url_str));
         if (res == NATS_OK) {
-            retval = std::string{ url_str.begin(), url_str.end() };
+            retval = std::string{ url_str.data() };
         }
         return retval;
     }
-- 
2.43.0


From ba04fa38091a0ccc435396d7a0d770e15b5c1b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:16 +0000
Subject: [PATCH 54/61] fix: a controllee answers state requests that do not
 also ask for execution acknowledgement

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index f17edb5..038d24c 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -438,10 +438,12 @@ private:
                 }
 {%   endif %}
 {%   if packet.cam.req_x.enabled %}
-                if (packet.cam().req_x()) {
 {%     if packet.cam.req_s.enabled %}
+                if (packet.cam().req_x() || packet.cam().req_s()) {
                     auto [ack_x, ack_s] = this->execute_{{ packet.name | to_snake }}(packet);
+                    if (packet.cam().req_x()) {
 {%     else %}
+                if (packet.cam().req_x()) {
                     auto ack_x = this->execute_{{ packet.name | to_snake }}(packet);
 {%     endif %}
                     ack_x.ack_x(true);
@@ -464,6 +466,7 @@ private:
                     m_cmd_socket.write_some(packed_data.data(), packed_data.size());
 {%     endif %}
 {%     if packet.cam.req_s.enabled %}
+                    }
                     if (packet.cam().req_s()) {
                         {{ copy_stream_id(packet, "ack_s") | indent(24) | trim }}
                         ack_s.message_id(packet.message_id());
-- 
2.43.0


From 2d02e6d010bc587935f696fa7bcab6304889e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:28 +0000
Subject: [PATCH 55/61] fix: sending a command fails when it is not sent or
 nothing is received, and keeps its destination

---
 include/vrtgen/nats/utility.hpp |  4 +++-
 include/vrtgen/utility.hpp      | 30 +++++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/vrtgen/nats/utility.hpp b/include/vrtgen/nats/utility.hpp
index 93b94cb..7d7ed95 100644
--- a/include/vrtgen/nats/utility.hpp
+++ b/include/vrtgen/nats/utility.hpp
@@ -31,7 +31,9 @@ template <class CtrlT, class ...AckT>
 auto send_packet(vrtgen::nats::client& client, const std::string& subject, CtrlT& packet, AckT&... acks)
 {
     // Send packet
-    client.publish(subject, packet.data(), client.inbox());
+    if (client.publish(subject, packet.data(), client.inbox()) != NATS_OK) {
+        throw std::runtime_error("failed to send packet");
+    }
     // Receive acks on unique reply subject
     const auto recv_ack = [&client](auto& ack)
     {
diff --git a/include/vrtgen/utility.hpp b/include/vrtgen/utility.hpp
index 542c85e..531411b 100644
--- a/include/vrtgen/utility.hpp
+++ b/include/vrtgen/utility.hpp
@@ -63,7 +63,10 @@ requires (std::same_as<SockT, socket::udp::v4>)
 void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
+    const auto sent = socket.send_to(packed_data.data(), packed_data.size(), socket.dst());
+    if (sent < 0 || static_cast<std::size_t>(sent) != packed_data.size()) {
+        throw std::runtime_error("failed to send packet");
+    }
     const auto recv_ack = [&socket](auto& ack)
     {
         if (!ack.has_value()) { return; }
@@ -71,17 +74,23 @@ void send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
         std::array<uint8_t, 65536> message{ 0 };
         std::future<ssize_t> recv_from_fut = std::async(std::launch::async, [&socket, &message]
         {
-            return socket.receive_from(message.data(), message.size(), socket.dst());
+            // The sender of the reply is not where later packets go
+            typename SockT::endpoint_type source;
+            return socket.receive_from(message.data(), message.size(), source);
         });
         auto status = recv_from_fut.wait_for(std::chrono::seconds(2));
         if (status == std::future_status::timeout) {
             throw std::runtime_error("timed out waiting for acknowledgement");
         }
         auto reply_length = recv_from_fut.get();
-        if (auto match_err = ack_t::match(message)) {
+        if (reply_length <= 0) {
+            throw std::runtime_error("failed to receive acknowledgement");
+        }
+        auto span = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(reply_length) };
+        if (auto match_err = ack_t::match(span)) {
             throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
+        ack = std::move(ack_t{ span });
     };
     (recv_ack(acks), ...);
 }
@@ -91,7 +100,10 @@ requires (std::same_as<SockT, socket::tcp::v4>)
 auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
 {
     auto packed_data = packet.data();
-    socket.write_some(packed_data.data(), packed_data.size());
+    const auto sent = socket.write_some(packed_data.data(), packed_data.size());
+    if (sent < 0 || static_cast<std::size_t>(sent) != packed_data.size()) {
+        throw std::runtime_error("failed to send packet");
+    }
     auto message = std::array<uint8_t, 65536>{ 0 };
     auto reply_length = 0;
     auto read_idx = std::size_t{};
@@ -118,10 +130,14 @@ auto send_packet(SockT& socket, CtrlT& packet, AckT&... acks)
             throw std::runtime_error("timed out waiting for acknowledgement packet");
         }
         reply_length = read_fut.get();
-        if (auto match_err = ack_t::match(message)) {
+        if (reply_length <= 0) {
+            throw std::runtime_error("failed to receive acknowledgement");
+        }
+        auto span = std::span<const uint8_t>{ message.data(), static_cast<std::size_t>(reply_length) };
+        if (auto match_err = ack_t::match(span)) {
             throw std::runtime_error("incorrect acknowledgement type: " + match_err.value());
         }
-        ack = std::move(ack_t{ { message.data(), static_cast<std::size_t>(reply_length) } });
+        ack = std::move(ack_t{ span });
         reply_length -= ack->size();
         read_idx = ack->size();
     };
-- 
2.43.0


From 592e9223e67eb0ebbc1bec8c26cfae5bf791bd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:27 +0000
Subject: [PATCH 56/61] fix: a controllee without control packets includes its
 packets

---
 src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index 038d24c..a4961bb 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -169,7 +169,7 @@ if ({{ packet.name }}::helper::match(m_message.data(), recv_length)) {
 #include <vrtgen/socket.hpp>
 {% endif %}
 
-{% for packet in packets if packet.is_command %}
+{% for packet in packets %}
 #include <{{ packet.name | to_snake }}.hpp>
 {% endfor %}
 {% if namespace_ %}
-- 
2.43.0


From 8f390ceca1ec1c25a0e3c531ebea4d2ccded618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 57/61] fix: the receive thread of a controller ends before the
 controller does

---
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 44e47df..4167e4c 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -92,6 +92,16 @@ public:
      */
     {{ controller_name }}() = default;
 {% endif %}
+{% if ns.has_datactxt %}
+
+    /**
+     * @brief Destructor
+     */
+    ~{{ controller_name }}()
+    {
+        disable_receive();
+    }
+{% endif %}
 
     {{ controller.socket_functions(packets, cmd_socket) | indent(4) | trim }}
 
-- 
2.43.0


From 8601d7fd3995b20c7651efe819237435245eb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 58/61] fix: a controller without an inbox for replies is not
 constructed

---
 src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
index 4167e4c..9777d43 100644
--- a/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controller.hpp.jinja2
@@ -72,7 +72,9 @@ public:
         if (auto res = m_client.connect(nats_url); res != NATS_OK) {
             throw std::runtime_error("Failed to connect to NATS url during {{ controller_name }} construction");
         }
-        m_client.new_inbox();
+        if (auto res = m_client.new_inbox(); res != NATS_OK) {
+            throw std::runtime_error("Failed to create NATS inbox during {{ controller_name }} construction");
+        }
     }
 {%   else %}
     /**
-- 
2.43.0


From c7c60edc08ac23c1543a19aa2cfa5955ed29073a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 59/61] fix: a controller reports a data or context packet it
 could not send

---
 .../cpp/templates/macros/controller/controller.jinja2        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2 b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
index b28b60d..5adf5e3 100644
--- a/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
+++ b/src/vrtgen/backend/cpp/templates/macros/controller/controller.jinja2
@@ -130,7 +130,10 @@ void register_{{ packet.name | to_snake }}_listener(const std::function<void({{
 void send_{{ packet.name | to_snake }}({{ packet.name }}& packet)
 {
     auto packed_data = packet.data();
-    m_data_ctxt_send_socket.send_to(packed_data.data(), packed_data.size(), m_data_ctxt_send_socket.dst());
+    const auto sent = m_data_ctxt_send_socket.send_to(packed_data.data(), packed_data.size(), m_data_ctxt_send_socket.dst());
+    if (sent < 0 || static_cast<std::size_t>(sent) != packed_data.size()) {
+        throw std::runtime_error("Failed to send {{ packet.name }} packet");
+    }
 }
 {% endmacro %}
 
-- 
2.43.0


From 52ca788d4fb43f6f2ebf15922ad0f75594fc58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 60/61] fix: the listener thread of a controllee ends before
 its handlers are destroyed

---
 .../backend/cpp/templates/controllee.hpp.jinja2  |  7 +++++++
 .../cpp/templates/controllee_base.hpp.jinja2     | 16 ++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
index ca47a3f..8c33368 100644
--- a/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee.hpp.jinja2
@@ -122,7 +122,14 @@ public:
     /**
      * @brief Destructor
      */
+{% if ns.has_control %}
+    ~{{ class_name }}() override
+    {
+        vrt_stop();
+    }
+{% else %}
     ~{{ class_name }}() override = default;
+{% endif %}
 
 {% for packet in packets if packet.is_control %}
     {{ handle_packet_callback(packet) | indent(4) | trim }}
diff --git a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2 b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
index a4961bb..921e674 100644
--- a/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
+++ b/src/vrtgen/backend/cpp/templates/controllee_base.hpp.jinja2
@@ -248,10 +248,7 @@ public:
     virtual ~{{ class_name }}()
     {
 {% if ns.has_control %}
-        m_listening = false;
-        if (m_recv_thread.joinable()) {
-            m_recv_thread.join();
-        }
+        vrt_stop();
 {% endif %}
     }
 {% if ns.has_datactxt %}
@@ -361,6 +358,17 @@ public:
 protected:
 {% for packet in packets if packet.is_control %}
 {%   if loop.first %}
+    /**
+     * @brief Stop the listener thread; called before the members its handlers use are destroyed
+     */
+    auto vrt_stop() -> void
+    {
+        m_listening = false;
+        if (m_recv_thread.joinable()) {
+            m_recv_thread.join();
+        }
+    }
+
 {%     if cmd_socket != 'nats' %}
     cmd_socket_type m_cmd_socket;
 {%     else %}
-- 
2.43.0


From 61bce4043c33e39534673073f9e6c6a6ae95b60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:33 +0000
Subject: [PATCH 61/61] fix: refuse the internal packed word and the timing
 control as options of a section

---
 src/vrtgen/parser/model/base.py    | 2 +-
 src/vrtgen/parser/model/cif1.py    | 4 ++--
 src/vrtgen/parser/model/command.py | 2 ++
 src/vrtgen/parser/model/data.py    | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vrtgen/parser/model/base.py b/src/vrtgen/parser/model/base.py
index f36c3cd..9b4288c 100644
--- a/src/vrtgen/parser/model/base.py
+++ b/src/vrtgen/parser/model/base.py
@@ -58,7 +58,7 @@ class CIF(PackedStruct):
 
     def _validate(self, mapping):
         for field in mapping:
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + field)
 
     def _parse_mapping(self, mapping):
diff --git a/src/vrtgen/parser/model/cif1.py b/src/vrtgen/parser/model/cif1.py
index 4b222c1..b347f20 100644
--- a/src/vrtgen/parser/model/cif1.py
+++ b/src/vrtgen/parser/model/cif1.py
@@ -216,7 +216,7 @@ class SectorStepScanCIF(CIF):
 
     def _validate(self, mapping):
         for key, val in mapping.items():
-            if not key in [f.name for f in self.fields]:
+            if not key in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: {}'.format(key))
             elif key == 'sector_number' or key == 'f1_start_frequency':
                 raise ValueError('invalid field provided: {} already required by default'.format(key))
@@ -506,7 +506,7 @@ class CIF1(CIF):
 
     def _validate(self, mapping):
         for key, val in mapping.items():
-            if not key in [f.name for f in self.fields]:
+            if not key in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + key)
             elif key == 'sector_step_scan' and not isinstance(val, SectorStepScan):
                 raise ValueError('Sector Step Scan not of the correct type')
diff --git a/src/vrtgen/parser/model/command.py b/src/vrtgen/parser/model/command.py
index 03e12ce..5a16683 100644
--- a/src/vrtgen/parser/model/command.py
+++ b/src/vrtgen/parser/model/command.py
@@ -99,6 +99,8 @@ class ControlAcknowledgeMode(PackedStruct):
             #     self.__dict__[key].value = parse_timing_control(val)
             #     self.__dict__[key].enabled = True
             #     self.__dict__[key].required = True
+            else:
+                raise ValueError('invalid cam field provided: ' + key)
 
         # Check for valid combinations of action_mode and acknowledge requests
         if self.action_mode.required and self.action_mode.value == enums.ActionMode.NO_ACTION:
diff --git a/src/vrtgen/parser/model/data.py b/src/vrtgen/parser/model/data.py
index b19d984..2b22525 100644
--- a/src/vrtgen/parser/model/data.py
+++ b/src/vrtgen/parser/model/data.py
@@ -41,7 +41,7 @@ class Trailer(StateEventIndicators):
         for field in mapping:
             if 'user_defined' in field:
                 continue
-            if not field in [f.name for f in self.fields]:
+            if not field in [f.name for f in self.fields if not isinstance(f, PackedType)]:
                 raise ValueError('invalid field provided: ' + field)
 
     @property
-- 
2.43.0

