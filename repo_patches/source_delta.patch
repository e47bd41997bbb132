From 61e543aa1659d422ba15a7a9d7531e591891599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 01/31] fix: fill the whole FNT header when serializing
 properties

The last word was left unwritten, and when the markers filled the header
exactly the fill ran past its end.
---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index 2fc6a56..aa146fa 100644
--- a/src/property.h
+++ b/src/property.h
@@ -112,7 +112,7 @@ class Properties {
             dwords[i++] = htonl(narrow_cast<uint32_t>(item.first));
         }
         dwords[1] = htonl(i - 2);
-        std::fill(dwords + i, dwords + n_dwords - 1, htonl(0));
+        std::fill(dwords + i, dwords + n_dwords, htonl(0));
 
         return 0;
     }
-- 
2.43.0


From 74c41b33fd001ea3793a08d874031c8f3395c119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 02/31] fix: reject FNT headers whose marker count overflows 32
 bits

---
 src/property.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property.h b/src/property.h
index aa146fa..fe86d99 100644
--- a/src/property.h
+++ b/src/property.h
@@ -132,7 +132,7 @@ class Properties {
             return -1;
         }
         uint32_t _n_dwords = ntohl(dwords[1]);
-        if ((2 + _n_dwords) > n_dwords) {
+        if (_n_dwords > n_dwords - 2) {
             return -1;
         }
         for (unsigned i = 0; i < _n_dwords; i++) {
-- 
2.43.0


From 5183b3a685d34574c4d61e861b461f820cb0a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 03/31] fix: do not index parity properties by data in the C
 decode

There are only n_parities of them with a systematic code, possibly fewer
than n_data.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 3400eeb..e3490bb 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -216,10 +216,10 @@ int quadiron_fnt32_decode(
         return -1;
 
     // reset metadata of data
+    quadiron::Properties null_prop;
     for (unsigned i = 0; i < fec->n_data; i++) {
-        parities_props[i].clear();
         uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
-        int ret = parities_props[i].fnt_serialize(metadata, metadata_size / 4);
+        int ret = null_prop.fnt_serialize(metadata, metadata_size / 4);
         if (ret == -1) {
             return -1;
         }
-- 
2.43.0


From 9ad274079ac9fb7c4bfd2a36910718471f32c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 04/31] fix: size the wanted blocks by n_data in the C
 reconstruct

The vector of wanted outputs was passed instead, which has n_parities
entries with a systematic code.
---
 src/quadiron_c.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index e3490bb..2e5a31c 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -292,13 +292,13 @@ int quadiron_fnt32_reconstruct(
          * Easy case where the target is a data then simply decode
          */
         if (destination_idx < fec->n_data) {
-            wanted_idxs_vec[destination_idx] = true;
+            wanted_data_vec[destination_idx] = true;
             res = fec->decode_blocks_vertical(
                 data_vec,
                 parities_vec,
                 parities_props,
                 missing_idxs_vec,
-                wanted_idxs_vec,
+                wanted_data_vec,
                 block_size);
             if (!res) {
                 return -1;
-- 
2.43.0


From ad340b8b86d7a01b0b2f0c21814a9edbdfa5e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 05/31] fix: leave unwanted fragments alone in the C encode

Entries of unwanted parities may be NULL, but headers were written for
every fragment.
---
 src/quadiron_c.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 2e5a31c..78a01a7 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -120,6 +120,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -129,6 +132,9 @@ int quadiron_fnt32_encode(
         }
     } else {
         for (unsigned i = 0; i < fec->n_data; i++) {
+            if (!wanted_idxs_vec[i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(data[i]);
             int ret =
                 parities_props[i].fnt_serialize(metadata, metadata_size / 4);
@@ -137,6 +143,9 @@ int quadiron_fnt32_encode(
             }
         }
         for (unsigned i = 0; i < fec->n_parities; i++) {
+            if (!wanted_idxs_vec[fec->n_data + i]) {
+                continue;
+            }
             uint32_t* metadata = reinterpret_cast<uint32_t*>(parity[i]);
             int ret = parities_props[fec->n_data + i].fnt_serialize(
                 metadata, metadata_size / 4);
-- 
2.43.0


From a29cc5cbced4dd4976ab47fc6a8e9dbfbc540022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 06/31] fix: skip unwanted outputs when encoding streams

They may be set to nullptr when not wanted, but were written to.
---
 src/fec_base.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fec_base.h b/src/fec_base.h
index 4dcf7f0..eccd58e 100644
--- a/src/fec_base.h
+++ b/src/fec_base.h
@@ -452,6 +452,9 @@ void FecCode<T>::encode_streams_horizontal(
         n_encode_ops++;
 
         for (unsigned i = 0; i < n_outputs; i++) {
+            if (output_parities_bufs[i] == nullptr) {
+                continue;
+            }
             T tmp = output.get(i);
             writew(tmp, output_parities_bufs[i]);
         }
@@ -534,6 +537,9 @@ void FecCode<T>::encode_streams_vertical(
             output_mem_T, output_mem_char, output_len, pkt_size, word_size);
 
         for (unsigned i = 0; i < n_outputs; i++) {
+            if (output_parities_bufs[i] == nullptr) {
+                continue;
+            }
             write_pkt(
                 output_mem_char.at(i), *(output_parities_bufs[i]), read_bytes);
         }
-- 
2.43.0


From a99aad2db14ae05cd03c927337fb0882e7e91fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:32 +0000
Subject: [PATCH 07/31] fix: throw instead of exiting on unsupported word sizes
 in RsGfpFft

---
 src/fec_rs_gfp_fft.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fec_rs_gfp_fft.h b/src/fec_rs_gfp_fft.h
index 42b11c3..131709a 100644
--- a/src/fec_rs_gfp_fft.h
+++ b/src/fec_rs_gfp_fft.h
@@ -32,6 +32,7 @@
 #define __QUAD_FEC_RS_GFP_FFT_H__
 
 #include "arith.h"
+#include "exceptions.h"
 #include "fec_base.h"
 #include "fft_2n.h"
 #include "fft_base.h"
@@ -96,8 +97,7 @@ class RsGfpFft : public FecCode<T> {
             gf_p = static_cast<T>(4294991873ULL); // p-1=2^13 29^1 101^1 179^1
             this->limit_value = static_cast<T>(4294967296ULL); // 2^32
         } else {
-            assert(false); // not support yet
-            exit(1);
+            throw InvalidArgument("RsGfpFft: word size not supported");
         }
 
         assert(gf_p >= this->limit_value);
-- 
2.43.0


From 990409f01697054ea255bfd03b8a7698fa9eb37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 08/31] fix: use vectorized modular operations only for the
 moduli they support

They hard-code 257 for 16-bit and 65537 for 32-bit elements, and gave
wrong results for other fields, e.g. GF(257) over 32-bit elements as the
C interface uses for a word size of 1.
---
 src/fft_2n.h    |  3 +++
 src/simd/simd.h | 11 +++++++++++
 src/simd_ring.h | 10 +++++-----
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/fft_2n.h b/src/fft_2n.h
index 559df84..dd1d45f 100644
--- a/src/fft_2n.h
+++ b/src/fft_2n.h
@@ -203,6 +203,9 @@ Radix2<T>::Radix2(const gf::Field<T>& gf, int n, int data_len, size_t pkt_size)
     // Indices used for accelerated functions
     const unsigned ratio = simd::countof<T>();
     simd_vec_len = this->pkt_size / ratio;
+    if (!simd::is_modulus_supported(card)) {
+        simd_vec_len = 0;
+    }
     simd_trailing_len = this->pkt_size - simd_vec_len * ratio;
     simd_offset = simd_vec_len * ratio;
 }
diff --git a/src/simd/simd.h b/src/simd/simd.h
index f4d1cdf..8d7612d 100644
--- a/src/simd/simd.h
+++ b/src/simd/simd.h
@@ -54,6 +54,17 @@ static constexpr std::size_t countof()
     return REG_BITSZ / (sizeof(T) * CHAR_BIT);
 }
 
+/** Tell if the vectorized modular operations on type T support a modulus.
+ *
+ * They work modulo 257 on 16-bit elements, and modulo 65537 on 32-bit elements.
+ */
+template <typename T>
+static constexpr bool is_modulus_supported(T card)
+{
+    return (sizeof(T) == 2 && card == static_cast<T>(257))
+           || (sizeof(T) == 4 && card == static_cast<T>(65537));
+}
+
 } // namespace simd
 } // namespace quadiron
 
diff --git a/src/simd_ring.h b/src/simd_ring.h
index a25176a..eba702a 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -50,7 +50,7 @@ inline void mul_coef_to_buf(const T a, T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_modulus_supported(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i = 0;
@@ -79,7 +79,7 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_modulus_supported(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -101,7 +101,7 @@ inline void sub_two_bufs(T* bufa, T* bufb, T* res, size_t len, T card)
     VecType* _bufb = reinterpret_cast<VecType*>(bufb);
     VecType* _res = reinterpret_cast<VecType*>(res);
     const unsigned ratio = sizeof(*_bufa) / sizeof(*bufa);
-    const size_t _len = len / ratio;
+    const size_t _len = is_modulus_supported(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -127,7 +127,7 @@ inline void mul_two_bufs(T* src, T* dest, size_t len, T card)
     VecType* _src = reinterpret_cast<VecType*>(src);
     VecType* _dest = reinterpret_cast<VecType*>(dest);
     const unsigned ratio = sizeof(*_src) / sizeof(*src);
-    const size_t _len = len / ratio;
+    const size_t _len = is_modulus_supported(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
@@ -150,7 +150,7 @@ inline void neg(size_t len, T* buf, T card)
 {
     VecType* _buf = reinterpret_cast<VecType*>(buf);
     const unsigned ratio = sizeof(*_buf) / sizeof(*buf);
-    const size_t _len = len / ratio;
+    const size_t _len = is_modulus_supported(card) ? len / ratio : 0;
     const size_t _last_len = len - _len * ratio;
 
     size_t i;
-- 
2.43.0


From afdfb0635b2d3bd3c3c830ae29b3f164c68ce50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:41 +0000
Subject: [PATCH 09/31] fix: do not let exceptions cross the C interface

---
 src/quadiron_c.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/quadiron_c.cpp b/src/quadiron_c.cpp
index 78a01a7..92891e1 100644
--- a/src/quadiron_c.cpp
+++ b/src/quadiron_c.cpp
@@ -36,7 +36,7 @@ extern "C" {
 
 struct QuadironFnt32*
 quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic)
-{
+try {
     const size_t pkt_size = 1024;
 
     if (word_size == 1 || word_size == 2) {
@@ -50,6 +50,8 @@ quadiron_fnt32_new(int word_size, int n_data, int n_parities, int systematic)
                 pkt_size));
     }
 
+    return nullptr;
+} catch (...) {
     return nullptr;
 }
 
@@ -76,7 +78,7 @@ int quadiron_fnt32_encode(
     uint8_t** parity,
     int* wanted_idxs,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
@@ -156,6 +158,8 @@ int quadiron_fnt32_encode(
     }
 
     return 0;
+} catch (...) {
+    return -1;
 }
 
 int quadiron_fnt32_decode(
@@ -164,7 +168,7 @@ int quadiron_fnt32_decode(
     uint8_t** parity,
     int* missing_idxs,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data, nullptr);
@@ -235,6 +239,8 @@ int quadiron_fnt32_decode(
     }
 
     return 0;
+} catch (...) {
+    return -1;
 }
 
 int quadiron_fnt32_reconstruct(
@@ -244,7 +250,7 @@ int quadiron_fnt32_reconstruct(
     int* missing_idxs,
     unsigned int destination_idx,
     size_t block_size)
-{
+try {
     quadiron::fec::RsFnt<uint32_t>* fec =
         reinterpret_cast<quadiron::fec::RsFnt<uint32_t>*>(fecp);
     std::vector<uint8_t*> data_vec(fec->n_data);
@@ -412,10 +418,13 @@ int quadiron_fnt32_reconstruct(
     }
 
     return 0;
+} catch (...) {
+    return -1;
 }
 
 void quadiron_hex_dump(uint8_t* buf, size_t size)
-{
+try {
     quadiron::hex_dump(std::cerr, buf, size, true);
+} catch (...) {
 }
 }
-- 
2.43.0


From 5579f498d49c9e7e77cdd5774f0aefd25fe1c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:50 +0000
Subject: [PATCH 10/31] fix: refuse to serialize marker locations above 32 bits

---
 src/property.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/property.h b/src/property.h
index fe86d99..ddc57d5 100644
--- a/src/property.h
+++ b/src/property.h
@@ -106,6 +106,12 @@ class Properties {
         if ((2 + props.size()) > n_dwords) {
             return -1;
         }
+        for (auto const& item : props) {
+            // locations are stored on 32 bits
+            if (item.first > UINT32_MAX) {
+                return -1;
+            }
+        }
         dwords[0] = htonl(FNT1);
         unsigned i = 2;
         for (auto const& item : props) {
-- 
2.43.0


From 42e63e28225bcb5aa0e96211b4aba7887b0d5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:31 +0000
Subject: [PATCH 11/31] fix: refuse code lengths the FNT field does not support

---
 src/fec_rs_fnt.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/fec_rs_fnt.h b/src/fec_rs_fnt.h
index f06c790..69e169f 100644
--- a/src/fec_rs_fnt.h
+++ b/src/fec_rs_fnt.h
@@ -32,6 +32,7 @@
 #define __QUAD_FEC_RS_FNT_H__
 
 #include "arith.h"
+#include "exceptions.h"
 #include "fec_base.h"
 #include "fft_2n.h"
 #include "gf_prime.h"
@@ -86,6 +87,15 @@ class RsFnt : public FecCode<T> {
     inline void check_params() override
     {
         assert(this->word_size < 4);
+
+        // there are no more evaluation points than non-zero field elements
+        const uint64_t max_len = 1ULL << (8 * this->word_size);
+        const uint64_t len = static_cast<uint64_t>(this->n_data)
+                             + static_cast<uint64_t>(this->n_parities);
+        if (this->n_data == 0 || len < 2 || len > max_len
+            || this->n_data > max_len / 2) {
+            throw InvalidArgument("unsupported code length");
+        }
     }
 
     inline void init_gf() override
-- 
2.43.0


From bc34cefb28f67a2ad0dc0d83d5ee88d87f929e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 12/31] fix: make vectors assignable

Both assignment operators of Vector failed to compile when used: the copy
one found the member swap(i, j), the move one set the length from the
field pointer.
---
 src/vec_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index a0ddc0e..03b8cff 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -185,7 +185,7 @@ template <typename T>
 Vector<T>& Vector<T>::operator=(const Vector<T>& other)
 {
     Vector<T> tmp(other);
-    swap(*this, tmp);
+    *this = std::move(tmp);
     return *this;
 }
 
@@ -194,7 +194,7 @@ Vector<T>& Vector<T>::operator=(Vector<T>&& other) noexcept
 {
     this->destroy();
     this->rn = other.rn;
-    this->n = other.rn;
+    this->n = other.n;
     this->mem = std::exchange(other.mem, nullptr);
     this->mem_len = other.mem_len;
     this->new_mem = other.new_mem;
-- 
2.43.0


From c46d2d094173291506cb10e36950be7550d7e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 13/31] fix: keep the coefficients pointer of an assigned Poly
 on its own memory

The implicit copy assignment left buf on the memory of the source.
---
 src/vec_poly.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index b6234e8..e035396 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -49,6 +49,7 @@ class Poly : public Vector<T> {
   public:
     Poly(const gf::Field<T>& field, int n);
     Poly(const Poly<T>& a);
+    Poly<T>& operator=(const Poly<T>& a);
     int get_deg() const;
     void set_deg(int exponent);
     const T& get(int exponent) const override;
@@ -89,6 +90,17 @@ Poly<T>::Poly(const Poly<T>& a) : Vector<T>(a.get_gf(), a.get_n())
     this->degree = a.get_deg();
 }
 
+template <typename T>
+Poly<T>& Poly<T>::operator=(const Poly<T>& a)
+{
+    Vector<T>::operator=(a);
+    this->field = a.field;
+    this->field_characteristic = a.field_characteristic;
+    this->buf = this->get_mem();
+    this->degree = a.degree;
+    return *this;
+}
+
 template <typename T>
 int Poly<T>::get_deg() const
 {
-- 
2.43.0


From d88f209adebac4557f39665dd776ad410d948805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 14/31] fix: ownership in Buffers

The implicit copy assignment gave two owners to the same buffers, set()
released buffers that are only borrowed (and leaked those that are owned),
and a permuted view of a sub-set had an empty list of pointers.
---
 src/vec_buffers.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index d31c69d..330b7f9 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -106,6 +106,7 @@ class Buffers final {
     Buffers(const Buffers<T>& vec, int begin, int end);
     Buffers(const Buffers<T>& vec1, const Buffers<T>& vec2);
     Buffers(const Buffers<T>& vec, const Vector<T>& map, unsigned n);
+    Buffers<T>& operator=(const Buffers<T>& vec) = delete;
     ~Buffers();
     int get_n(void) const;
     size_t get_size(void) const;
@@ -311,6 +312,7 @@ Buffers<T>::Buffers(
     mem.reserve(this->n);
     if (vec_n >= n) {
         this->mem_alloc_case = BufMemAlloc::SLICE;
+        mem.resize(n, nullptr);
     } else { // output is zero-extended & shuffled from `vec`
         this->mem_alloc_case = BufMemAlloc::ZERO_EXTEND;
 
@@ -376,7 +378,7 @@ inline void Buffers<T>::set(int i, T* buf)
 {
     assert(i >= 0 && i < n);
 
-    if ((mem_alloc_case == BufMemAlloc::NONE) && (mem[i] != nullptr))
+    if ((mem_alloc_case == BufMemAlloc::FULL) && (mem[i] != nullptr))
         this->allocator.deallocate(mem[i], size);
 
     mem[i] = buf;
-- 
2.43.0


From 109fc153b36b5564635176a9bcda0a9b3053b48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 15/31] fix: forbid implicit copies of Matrix and
 FourierTransform

Both own memory through plain pointers.
---
 src/fft_base.h   | 2 ++
 src/vec_matrix.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/fft_base.h b/src/fft_base.h
index 6c5189c..94a345e 100644
--- a/src/fft_base.h
+++ b/src/fft_base.h
@@ -56,6 +56,8 @@ typedef struct OpCounter {
 template <typename T>
 class FourierTransform {
   public:
+    FourierTransform(const FourierTransform& other) = delete;
+    FourierTransform& operator=(const FourierTransform& other) = delete;
     virtual ~FourierTransform();
     int get_n();
     const gf::Field<T>& get_gf();
diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index f3a7e5c..fc9a40c 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -57,6 +57,8 @@ template <typename T>
 class Matrix {
   public:
     Matrix(const gf::RingModN<T>& rn, int n_rows, int n_cols);
+    Matrix(const Matrix& other) = delete;
+    Matrix& operator=(const Matrix& other) = delete;
     virtual ~Matrix();
     virtual int get_n_rows();
     virtual int get_n_cols();
-- 
2.43.0


From 231d52a96ce9776603807c056310c756ba25a5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 16/31] fix: moving a binary field hands its tables over

The defaulted move constructor left two owners of the tables.
---
 src/gf_bin_ext.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index faf0f2a..4814a90 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -32,6 +32,7 @@
 #define __QUAD_GF_BIN_EXT_H__
 
 #include <limits>
+#include <utility>
 
 #include "exceptions.h"
 #include "gf_base.h"
@@ -57,12 +58,12 @@ class BinExtension : public gf::Field<T> {
     T log(T a, T b) const override;
     void hadamard_mul(int n, T* x, T* y) const override;
 
-    BinExtension(BinExtension&&) = default;
+    BinExtension(BinExtension&& other);
 
   private:
     T n;
     T my_card;
-    T sgroup_nb;
+    T sgroup_nb = 0;
     T primitive_poly;
     T first_bit;
     T tab_nb;
@@ -172,6 +173,21 @@ BinExtension<T>::BinExtension(T n) : gf::Field<T>(2, n)
     }
 }
 
+/** Move constructor: the tables change hands. */
+template <typename T>
+BinExtension<T>::BinExtension(BinExtension<T>&& other)
+    : gf::Field<T>(std::move(other)), n(other.n), my_card(other.my_card),
+      sgroup_nb(other.sgroup_nb), primitive_poly(other.primitive_poly),
+      first_bit(other.first_bit), tab_nb(other.tab_nb),
+      gflog(std::exchange(other.gflog, nullptr)),
+      gfilog(std::exchange(other.gfilog, nullptr)),
+      gfsplit(std::exchange(other.gfsplit, nullptr)),
+      mask(std::exchange(other.mask, nullptr)), restricted(other.restricted),
+      mul_type(other.mul_type), div_type(other.div_type),
+      inv_type(other.inv_type)
+{
+}
+
 template <typename T>
 BinExtension<T>::~BinExtension()
 {
-- 
2.43.0


From 8762864c0f1c3e05e56cef05cc95bdf9b188deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 17/31] fix: moving an NF4 field keeps the scratch space

The target had no room in scratch16 and scratch32 and wrote out of bounds.
---
 src/gf_nf4.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gf_nf4.h b/src/gf_nf4.h
index ab6025c..fb65de9 100644
--- a/src/gf_nf4.h
+++ b/src/gf_nf4.h
@@ -56,7 +56,9 @@ class NF4 : public gf::Field<T> {
     NF4(NF4&& other)
     noexcept
         : Field<T>(std::move(other)), unit(other.unit), q(other.q), h(other.h),
-          sub_field(std::move(other.sub_field))
+          sub_field(std::move(other.sub_field)),
+          scratch16(std::move(other.scratch16)),
+          scratch32(std::move(other.scratch32))
     {
     }
 
-- 
2.43.0


From 2b60e87f0e8e8c7ab18fa9422aa31c019aab5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 18/31] fix: polynomials keep track of their degree

---
 src/vec_poly.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/vec_poly.h b/src/vec_poly.h
index e035396..b99af34 100644
--- a/src/vec_poly.h
+++ b/src/vec_poly.h
@@ -152,6 +152,9 @@ void Poly<T>::set(int exponent, T coef)
 template <typename T>
 void Poly<T>::derivative()
 {
+    if (degree < 0) {
+        return;
+    }
     for (int deg = 1; deg <= degree; ++deg) {
         buf[deg - 1] = field->mul(deg % field_characteristic, buf[deg]);
     }
@@ -163,6 +166,9 @@ void Poly<T>::derivative()
 template <typename T>
 void Poly<T>::derivative_nf4()
 {
+    if (degree < 0) {
+        return;
+    }
     for (int deg = 1; deg <= degree; ++deg) {
         const T _deg = field->replicate(deg % field_characteristic);
         buf[deg - 1] = field->mul(_deg, buf[deg]);
@@ -175,6 +181,9 @@ template <typename T>
 T Poly<T>::eval(T x)
 {
     int i = degree;
+    if (i < 0) {
+        return 0;
+    }
     T result = buf[i];
 
     while (i >= 1) {
@@ -204,6 +213,9 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
             const T val_a = buf[deg_a];
             if (val_a > 0) {
                 const int deg_b = deg - deg_a;
+                if (deg_b > b->degree) {
+                    continue;
+                }
                 const T val_b = b->get(deg_b);
                 if (val_b > 0)
                     val = field->add(val, field->mul(val_a, val_b));
@@ -211,6 +223,14 @@ void Poly<T>::mul(Poly<T>* b, int deg_out)
         }
         buf[deg] = val;
     }
+    // terms of degree greater than `deg_out` are dropped
+    for (int deg = deg_out + 1; deg <= degree; deg++) {
+        buf[deg] = 0;
+    }
+    degree = deg_out;
+    while (degree >= 0 && buf[degree] == 0) {
+        degree--;
+    }
 }
 
 /** Multiply to polynomial \f$(X + coef)\f$
@@ -231,6 +251,9 @@ void Poly<T>::mul_to_x_plus_coef(T coef)
 {
     assert(field->check(coef));
 
+    if (degree < 0) {
+        return;
+    }
     const T val = buf[degree];
     for (int deg = degree; deg > 0; deg--) {
         buf[deg] = field->add(buf[deg - 1], field->mul(buf[deg], coef));
@@ -250,6 +273,7 @@ template <typename T>
 void Poly<T>::zero_fill()
 {
     std::memset(buf, 0, this->n * sizeof(*buf));
+    degree = -1;
 }
 
 template <typename T>
-- 
2.43.0


From 58bc66af71e14fcd4759bdd6197396f02e2b46df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 19/31] fix: ranges of buffers that begin beyond the last
 buffer

---
 src/vec_buffers.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index 330b7f9..ae38cb3 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -244,8 +244,9 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int begin, int end)
         this->zeros = this->allocator.allocate(size);
         std::memset(this->zeros, 0, this->size * sizeof(T));
 
-        mem.insert(mem.end(), vec_mem.begin() + begin, vec_mem.end());
-        mem.insert(mem.end(), end - vec.get_n(), zeros);
+        const int from = std::min(begin, vec.get_n());
+        mem.insert(mem.end(), vec_mem.begin() + from, vec_mem.end());
+        mem.resize(this->n, zeros);
     }
 }
 
-- 
2.43.0


From 58b903f53c5b6e8717b26911ba39f8eba861933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 20/31] fix: release buffers when an allocation fails halfway

---
 src/vec_buffers.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index ae38cb3..a2dbb3c 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -133,11 +133,31 @@ class Buffers final {
     int n;
 
   private:
+    void allocate_buffers();
+
     simd::AlignedAllocator<T> allocator;
     BufMemAlloc mem_alloc_case = BufMemAlloc::FULL;
     T* zeros = nullptr;
 };
 
+/** Allocate all `n` buffers, or none if an allocation fails */
+template <typename T>
+void Buffers<T>::allocate_buffers()
+{
+    mem.reserve(n);
+    try {
+        for (int i = 0; i < n; i++) {
+            mem.push_back(this->allocator.allocate(size));
+        }
+    } catch (...) {
+        // the destructor is not called when a constructor throws
+        for (T* buf : mem) {
+            this->allocator.deallocate(buf, size);
+        }
+        throw;
+    }
+}
+
 /**
  * Constructor of Buffers
  *
@@ -152,10 +172,7 @@ Buffers<T>::Buffers(int n, size_t size)
     this->mem_len = n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
-    mem.reserve(n);
-    for (int i = 0; i < n; i++) {
-        mem.push_back(this->allocator.allocate(size));
-    }
+    allocate_buffers();
 }
 
 /**
@@ -194,10 +211,7 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-    mem.reserve(n);
-    for (i = 0; i < this->n; i++) {
-        mem.push_back(this->allocator.allocate(size));
-    }
+    allocate_buffers();
 
     int copy_len = (this->n <= vec_n) ? this->n : vec_n;
     for (i = 0; i < copy_len; i++) {
-- 
2.43.0


From 273345d2e0a11e746251862c993361c2211012d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:26 +0000
Subject: [PATCH 21/31] fix: scale whole rows and columns of Cauchy matrices

---
 src/vec_matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec_matrix.h b/src/vec_matrix.h
index fc9a40c..0c89a32 100644
--- a/src/vec_matrix.h
+++ b/src/vec_matrix.h
@@ -419,14 +419,16 @@ void Matrix<T>::cauchy()
     /* do optimise */
     // convert 1st row to all 1s
     for (j = 0; j < n_cols; j++) {
+        const T first = get(0, j);
         for (i = 0; i < n_rows; i++) {
-            set(i, j, rn->div(get(i, j), get(0, j)));
+            set(i, j, rn->div(get(i, j), first));
         }
     }
     // convert 1st element of each row to 1
     for (i = 1; i < n_rows; i++) {
+        const T first = get(i, 0);
         for (j = 0; j < n_cols; j++) {
-            set(i, j, rn->div(get(i, j), get(i, 0)));
+            set(i, j, rn->div(get(i, j), first));
         }
     }
 }
-- 
2.43.0


From dbc9e552a6e4f446054f53e05768eee8458c72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:32 +0000
Subject: [PATCH 22/31] fix: include <utility> for std::exchange

---
 src/vec_vector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vec_vector.h b/src/vec_vector.h
index 03b8cff..4193dd6 100644
--- a/src/vec_vector.h
+++ b/src/vec_vector.h
@@ -36,6 +36,7 @@
 #include <cstdint>
 #include <cstring>
 #include <iostream>
+#include <utility>
 #include <vector>
 
 #include "core.h"
-- 
2.43.0


From 1ef87f0bfde937ebe3bddd7588e4450e974cd5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 23/31] fix: addition wraps when the cardinal exceeds half of
 the range of the type

a + b was computed in the type of the elements, so for a prime such as
4294967291 on 32 bits (or 65521 on 16 bits) the sum could wrap before the
reduction.
---
 src/gf_ring.h   | 7 +++----
 src/simd_ring.h | 4 ++--
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index 935edce..a94f888 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -216,10 +216,9 @@ inline T RingModN<T>::add(T a, T b) const
     assert(check(a));
     assert(check(b));
 
-    T c = a + b;
-    if (c >= this->_card)
-        c -= this->_card;
-    return c;
+    // `a + b` may not fit in T when the cardinal takes more than half its range
+    const T c = this->_card - b;
+    return (a >= c) ? (a - c) : (a + b);
 }
 
 template <typename T>
diff --git a/src/simd_ring.h b/src/simd_ring.h
index eba702a..42869ac 100644
--- a/src/simd_ring.h
+++ b/src/simd_ring.h
@@ -88,8 +88,8 @@ inline void add_two_bufs(T* src, T* dest, size_t len, T card)
     }
     if (_last_len > 0) {
         for (i = _len * ratio; i < len; i++) {
-            const T tmp = src[i] + dest[i];
-            dest[i] = (tmp >= card) ? (tmp - card) : tmp;
+            const T tmp = card - dest[i];
+            dest[i] = (src[i] >= tmp) ? (src[i] - tmp) : (src[i] + dest[i]);
         }
     }
 }
-- 
2.43.0


From b9f9221ec5fa6c79372959dadac7dfcb6328eb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:05 +0000
Subject: [PATCH 24/31] fix: tables of GF(2^n) one entry short when the field
 fills the type

For a field of 2^16 elements on 16 bits, the carry of the doubling was lost
when the tables were built, the sum of two logarithms was truncated and the
table of exponentials was one entry too short.
---
 src/gf_bin_ext.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/gf_bin_ext.h b/src/gf_bin_ext.h
index 4814a90..d8f7bb4 100644
--- a/src/gf_bin_ext.h
+++ b/src/gf_bin_ext.h
@@ -268,15 +268,18 @@ template <typename T>
 void BinExtension<T>::setup_tables(void)
 {
     T b, log;
+    // `my_card` is the highest element in the restricted case
+    const T order = BinExtension<T>::card_minus_one();
 
-    gflog = new T[my_card];
-    gfilog = new T[my_card];
+    gflog = new T[static_cast<size_t>(order) + 1];
+    gfilog = new T[static_cast<size_t>(order) + 1];
     b = 1;
-    for (log = 0; log < my_card - 1; log++) {
+    for (log = 0; log < order; log++) {
         gflog[b] = log;
         gfilog[log] = b;
+        const bool carry = (b & first_bit) != 0;
         b = b << 1;
-        if (b & my_card)
+        if (carry)
             b = b ^ primitive_poly;
     }
 }
@@ -424,13 +427,14 @@ inline T BinExtension<T>::_mul_log(T a, T b) const
     assert(check(a));
     assert(check(b));
 
-    T sum_log;
+    unsigned sum_log;
+    const unsigned order = BinExtension<T>::card_minus_one();
 
     if (a == 0 || b == 0)
         return 0;
-    sum_log = gflog[a] + gflog[b];
-    if (sum_log >= my_card - 1)
-        sum_log -= my_card - 1;
+    sum_log = static_cast<unsigned>(gflog[a]) + gflog[b];
+    if (sum_log >= order)
+        sum_log -= order;
 
     return gfilog[sum_log];
 }
@@ -497,7 +501,7 @@ inline T BinExtension<T>::_div_log(T a, T b) const
         return -1;
     diff_log = gflog[a] - gflog[b];
     if (diff_log < 0)
-        diff_log += my_card - 1;
+        diff_log += BinExtension<T>::card_minus_one();
 
     return gfilog[diff_log];
 }
-- 
2.43.0


From 9cabe6382c5dfaaa3a70ec5295457260394301f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 25/31] fix: exp_mod wraps when the modulus exceeds half of the
 bits of the type

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index fab8c64..a6c1327 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -183,10 +183,10 @@ T exp_mod(T base, T exponent, T modulus)
     base = base % modulus;
     while (exponent > 0) {
         if (exponent % 2 == 1) {
-            result = (result * base) % modulus;
+            result = T((DoubleSizeVal<T>(result) * base) % modulus);
         }
         exponent = exponent >> 1;
-        base = (base * base) % modulus;
+        base = T((DoubleSizeVal<T>(base) * base) % modulus);
     }
 
     return result;
-- 
2.43.0


From 9390a227157f5553da72b6faefacfeaa70818864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 26/31] fix: is_prime accepts 0 and 1

---
 src/arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index a6c1327..93677b5 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -470,8 +470,8 @@ bool solovay_strassen(T n, T (*rand_func)(T n))
 template <typename T>
 bool is_prime(T n)
 {
-    if (n == 2)
-        return true;
+    if (n < 2)
+        return false;
 
     T root = sqrt<T>(n);
     for (T i = 2; i <= root; i++) {
-- 
2.43.0


From 955e755e5776c74f9c929ab0df9badbd10758a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 27/31] fix: get_all_divisors lists the root of a square twice

---
 src/arith.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arith.h b/src/arith.h
index 93677b5..1fe5a7a 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -625,7 +625,9 @@ std::vector<T> get_all_divisors(T n)
         // While `i` divides `nb`, get `i` and divide `nb/i`.
         if (n % i == 0) {
             divisors.push_back(i);
-            n_div_i.push_back(n / i);
+            if (i != n / i) {
+                n_div_i.push_back(n / i);
+            }
         }
     }
     divisors.insert(divisors.end(), n_div_i.rbegin(), n_div_i.rend());
-- 
2.43.0


From b23db2511758d753820ae94273c45d960029e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 28/31] fix: get_code_len misses divisors above the square root
 of the order

---
 src/arith.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arith.h b/src/arith.h
index 1fe5a7a..32b98f0 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -667,6 +667,13 @@ T get_code_len(T order, T n)
             return i;
         }
     }
+    // no divisor of `order` in [n, nb_sqrt] => the divisors that are greater
+    // than `nb_sqrt` remain, from the smallest one.
+    for (i = nb_sqrt; i > 1; i--) {
+        if (order % i == 0) {
+            return order / i;
+        }
+    }
     // order is prime
     return order;
 }
-- 
2.43.0


From 623d8125fdea96e36b637e060e021d9cb82c1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 29/31] fix: get_code_len_high_compo returns 0 for a lower
 bound of 1

---
 src/arith.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/arith.h b/src/arith.h
index 32b98f0..23153b3 100644
--- a/src/arith.h
+++ b/src/arith.h
@@ -709,11 +709,12 @@ T get_code_len_high_compo(const std::vector<T>& factors, T n)
         if (x >= n) {
             // backward to get smaller number
             for (j = 0; j != i + 1 && j != factors.size(); j++) {
-                x /= factors[j];
-                if (x < n) {
-                    return x * factors[j];
+                if (x / factors[j] < n) {
+                    return x;
                 }
+                x /= factors[j];
             }
+            return x;
         }
     }
     assert(false);
-- 
2.43.0


From 2a47de624591c1f61222f440214ff045a4280822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:27 +0000
Subject: [PATCH 30/31] fix: is_primitive_root and check_order_naive accept 0
 or 1 wrongly

---
 src/gf_ring.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/gf_ring.h b/src/gf_ring.h
index a94f888..c20a5ef 100644
--- a/src/gf_ring.h
+++ b/src/gf_ring.h
@@ -603,6 +603,12 @@ bool RingModN<T>::is_primitive_root(T nb) const
     bool ok = true;
     typename std::vector<T>::size_type i;
     T h = this->card_minus_one();
+    if (nb == 0) {
+        return false;
+    }
+    if (nb == 1) {
+        return h == 1;
+    }
     // Check nb^divisor == 1.
     for (i = 0; i != this->proper_divisors.size(); ++i) {
         if (this->exp(nb, this->proper_divisors[i]) == 1) {
@@ -759,7 +765,7 @@ bool RingModN<T>::check_order_naive(T nb, T order) const
 
     T i = 1;
     T tmp = nb;
-    while (i < order - 1) {
+    while (i < order) {
         // std::cout << i << ":" << tmp << std::endl;
         if (tmp == 1)
             return false;
-- 
2.43.0


From c5bfcb83e16dd987c3680bbedfb3e5528812f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:23 +0000
Subject: [PATCH 31/31] fix: number of elements of copied Buffers

---
 src/vec_buffers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec_buffers.h b/src/vec_buffers.h
index a2dbb3c..cfb863f 100644
--- a/src/vec_buffers.h
+++ b/src/vec_buffers.h
@@ -207,7 +207,7 @@ Buffers<T>::Buffers(const Buffers<T>& vec, int n)
 
     this->size = vec.get_size();
     this->n = (n == 0) ? vec_n : n;
-    this->mem_len = n * size;
+    this->mem_len = this->n * size;
 
     this->mem_alloc_case = BufMemAlloc::FULL;
 
-- 
2.43.0

