From e98bad0899747f2973317c6237537fa9a075da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 01/40] fix: buffer capacity check wraps for large offsets and
 lengths

The check added offset and length before comparing, so a length or a seek
near SIZE_MAX passed it and bytes outside the buffer were accessed. It also
returned size_t, so the '< 0' test of the LEB128 writers was never true.
---
 include/crefl/buf.h | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..6a9a347 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,10 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+            len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
@@ -101,7 +102,7 @@ static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     *(T*)(buf->data + buf->data_offset) = t;                                   \
     buf->data_offset += sizeof(T);                                             \
@@ -118,7 +119,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = *(T*)(buf->data + buf->data_offset);                                 \
     *val = swap(t);                                                            \
     buf->data_offset += sizeof(T);                                             \
@@ -137,7 +138,7 @@ static inline size_t CREFL_FN(buf_read_unchecked,suffix)(crefl_buf *buf, T* val)
 #define CREFL_BUF_WRITE_IMPL(suffix,T,swap)                                    \
 static inline size_t CREFL_FN(buf_write,suffix)(crefl_buf *buf, T val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t = swap(val);                                                           \
     memcpy(buf->data + buf->data_offset, &t, sizeof(T));                       \
     buf->data_offset += sizeof(T);                                             \
@@ -154,7 +155,7 @@ static inline size_t CREFL_FN(buf_write_unchecked,suffix)(crefl_buf *buf, T val)
 #define CREFL_BUF_READ_IMPL(suffix,T,swap)                                     \
 static inline size_t CREFL_FN(buf_read,suffix)(crefl_buf *buf, T* val)           \
 {                                                                              \
-    if (buf->data_offset + sizeof(T) > buf->data_size) return 0;               \
+    if (crefl_buf_check_capacity(buf, sizeof(T)) < 0) return 0;                \
     T t;                                                                       \
     memcpy(&t, buf->data + buf->data_offset, sizeof(T));                       \
     *val = swap(t);                                                            \
@@ -182,7 +183,7 @@ CREFL_BUF_READ_IMPL(i64,int64_t,le64)
 
 static inline size_t crefl_buf_read_i8(crefl_buf *buf, int8_t* val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *val = *(int8_t*)(buf->data + buf->data_offset);
     buf->data_offset++;
     return 1;
@@ -197,7 +198,7 @@ static inline size_t crefl_buf_read_unchecked_i8(crefl_buf *buf, int8_t* val)
 
 static inline size_t crefl_buf_write_i8(crefl_buf *buf, int8_t val)
 {
-    if (buf->data_offset + 1 > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, 1) < 0) return 0;
     *(int8_t*)(buf->data + buf->data_offset) = val;
     buf->data_offset++;
     return 1;
@@ -211,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -225,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From f56423ccda241147d7657058c59f7328b44293f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 02/40] fix: crefl_buf_remaining underflows when the cursor is
 past the end

---
 include/crefl/buf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index 6a9a347..2624a30 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -286,9 +286,9 @@ static inline size_t crefl_buf_offset(crefl_buf* buf)
 
 static inline crefl_span crefl_buf_remaining(crefl_buf* buf)
 {
-    crefl_span s = {
-        &buf->data[buf->data_offset], buf->data_size - buf->data_offset
-    };
+    size_t offset = buf->data_offset < buf->data_size ?
+        buf->data_offset : buf->data_size;
+    crefl_span s = { &buf->data[offset], buf->data_size - offset };
     return s;
 }
 
-- 
2.43.0


From ae94a2a08dfa9b32ffb18eda1c305f6f3f98f1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 03/40] fix: ASN.1 identifier class loses its low bit

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From af4e386dcc6ccc09898e82fc70cc5ced44b18180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 04/40] fix: ASN.1 tag numbers with more than eight octets are
 accepted truncated

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..7f4ebc5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
-- 
2.43.0


From fcdd3d07c4e0654909231f0d121ee148a938e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 05/40] fix: LEB128 values with more than eight bytes are
 accepted truncated

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7f4ebc5..2e166b4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From be8015cd0fee68f15051cb589d9b479a14873d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:50 +0000
Subject: [PATCH 06/40] fix: two by-value signed integer functions are declared
 with a signature nothing defines

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 2e166b4..62e63ca 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -703,7 +703,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From d04fea38cfe601a878624bfe65c035dcf71525d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 07/40] fix: reading an integer of zero octets shifts by the
 full width

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 62e63ca..6bfb53d 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 7b1ea422a5e85a6264a3dae06cc1fbfb85370a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 08/40] fix: ASN.1 REAL special octets for NaN and minus zero
 are swapped

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 6bfb53d..216fb5b 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -913,8 +913,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From 6d570041b4d14973116dae84f681d92d25914cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 09/40] fix: ASN.1 REAL subnormals, zero and out of range
 exponents

---
 src/asn1.cc | 99 ++++++++++++++++++++++++++---------------------------
 1 file changed, 48 insertions(+), 51 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 216fb5b..34dfd6e 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -960,16 +960,16 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
 
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac != 0) {
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        /* subnormals have the exponent of the smallest normal */
+        sexp += (s64)(sexp == 0) + frac_tz - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
@@ -981,6 +981,43 @@ static f64_asn1_data f64_asn1_data_get(double value)
     };
 }
 
+/*
+ * IEEE 754 exponent is relative to the msb of the mantissa
+ * ASN.1 exponent is relative to the lsb of the mantissa
+ *
+ * left-justify the fraction with the most significant set bit in bit 51
+ * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
+ *
+ * returns -1 if the exponent is out of range for the type.
+ */
+static int f64_asn1_data_put(bool sign, s64 sexp, u64 frac, double *value)
+{
+    u64 fexp = 0;
+
+    if (frac != 0) {
+        size_t frac_lz = clz(frac);
+        frac <<= frac_lz;
+        sexp += 63 - (s64)frac_lz;
+        if (sexp > (s64)f64_exp_bias) {
+            return -1;
+        }
+        if (sexp > -(s64)f64_exp_bias) {
+            fexp = sexp + f64_exp_bias;
+            frac = (frac << 1) >> (64 - f64_mant_size);
+        } else {
+            /* subnormal - keep the leading one and shift by the deficit */
+            s64 sh = (s64)f64_exp_size + 1 - (s64)f64_exp_bias - sexp;
+            if (sh > 63) {
+                return -1;
+            }
+            frac >>= sh;
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac, fexp, sign});
+    return 0;
+}
+
 size_t crefl_asn1_ber_real_f64_length(const double *value)
 {
     f64_asn1_data d = f64_asn1_data_get(*value);
@@ -1017,9 +1054,7 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
@@ -1051,28 +1086,10 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+
+    if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1091,9 +1108,7 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
@@ -1131,28 +1146,10 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+
+    if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From 08f7e5db1cf61da46fc19fb252ce201165cca922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 10/40] fix: ASN.1 REAL reader ignores the base, the scale
 factor and the contents length

---
 src/asn1.cc | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 34dfd6e..8c473fd 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1054,12 +1054,21 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
+    s64 exp_mul;
     bool sign;
 
+    if (len == 0) {
+        /* 8.5.2 plus zero has no contents octets */
+        *value = 0;
+        return 0;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1072,12 +1081,21 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
+    switch ((b >> _real_base_shift) & _real_base_mask) {
+    case _real_base_2: exp_mul = 1; break;
+    case _real_base_8: exp_mul = 3; break;
+    case _real_base_16: exp_mul = 4; break;
+    default: goto err;
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
     case _real_exp_2: exp_len = 2; break;
     default: goto err;
     }
+    if (len < exp_len + 2) {
+        goto err;
+    }
     frac_len = len - exp_len - 1;
 
     if (crefl_asn1_ber_integer_s64_read(buf, exp_len, &sexp) < 0) {
@@ -1087,6 +1105,8 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
         goto err;
     }
 
+    /* 8.5.7 value is S x N x 2^F x base^E */
+    sexp = sexp * exp_mul + ((b >> _real_scale_shift) & _real_scale_mask);
     if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
         goto err;
     }
@@ -1108,14 +1128,22 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
+    s64 exp_mul;
     bool sign;
     s64_result rexp;
     u64_result rfrac;
 
+    if (len == 0) {
+        /* 8.5.2 plus zero has no contents octets */
+        return f64_result { 0, 0 };
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
@@ -1128,12 +1156,21 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_fmt_binary_neg: sign = true; break;
     default: return f64_result { 0, -1 };
     }
+    switch ((b >> _real_base_shift) & _real_base_mask) {
+    case _real_base_2: exp_mul = 1; break;
+    case _real_base_8: exp_mul = 3; break;
+    case _real_base_16: exp_mul = 4; break;
+    default: return f64_result { 0, -1 };
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
     case _real_exp_2: exp_len = 2; break;
     default: return f64_result { 0, -1 };
     }
+    if (len < exp_len + 2) {
+        return f64_result { 0, -1 };
+    }
     frac_len = len - exp_len - 1;
 
     rexp = crefl_asn1_ber_integer_s64_read_byval(buf, exp_len);
@@ -1147,6 +1184,8 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     }
     frac = rfrac.value;
 
+    /* 8.5.7 value is S x N x 2^F x base^E */
+    sexp = sexp * exp_mul + ((b >> _real_scale_shift) & _real_scale_mask);
     if (f64_asn1_data_put(sign, sexp, frac, &v) < 0) {
         return f64_result { 0, -1 };
     }
-- 
2.43.0


From d1ba403064a7ff34e098bdb8332cc4a5ea5bec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:01 +0000
Subject: [PATCH 11/40] fix: vf128 subnormals, powers of two, unary exponents
 and out of range exponents

The exponent of an encoded subnormal was one too small, so that a float read
as a double (and a double as a float) was off by a factor of two. The readers
shifted by the full width for an implicit mantissa, computed the unary exponent
of a double from a mantissa already truncated to 32 bits, wrapped exponents
outside the range of the type and accepted the reserved header.
---
 src/asn1.cc | 171 +++++++++++++++++++++++-----------------------------
 1 file changed, 75 insertions(+), 96 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 8c473fd..a47dc75 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1367,6 +1367,47 @@ static void _crefl_vf_f64_debug(double v, u8 pre, s64 vp_exp, u64 vp_man, s64 vd
 }
 #endif
 
+/*
+ * unpack out-of-line exponent and mantissa
+ *
+ * the value is the left-justified mantissa with the point to the right of the
+ * leading one, times two to the power of the exponent. excess precision is
+ * truncated and values too large for the type are translated to infinity.
+ *
+ * returns -1 for the reserved header and for a mantissa without leading one.
+ */
+static int _vf_unpack(int vf_exp, int vf_man, s64 vr_exp, u64 vr_man,
+    s64 exp_bias, s64 mant_size, s64 *vp_exp, u64 *vp_man)
+{
+    if ((vf_exp == 0 && vf_man == 0) || (vf_man != 0 && vr_man == 0)) {
+        return -1;
+    }
+
+    /* powers of two have an implicit mantissa */
+    if (vf_man == 0) vr_man = 1;
+
+    /* if no exponent, mantissa is a fraction in the range
+     * +/-0.9900.. with a unary prefix containing the exponent. */
+    if (vf_exp == 0) vr_exp = -(s64)ctz(vr_man) - 1;
+
+    vr_man <<= clz(vr_man);
+    if (vr_exp > exp_bias) {
+        /* infinity */
+        *vp_exp = exp_bias * 2 + 1;
+        *vp_man = 0;
+    } else if (vr_exp <= -exp_bias) {
+        /* normal to subnormal - calculate shift using exponent delta
+         * then right-justify the mantissa preserving the leading 1. */
+        s64 sh = 64 - mant_size - exp_bias - vr_exp;
+        *vp_exp = 0;
+        *vp_man = sh < 64 ? vr_man >> sh : 0;
+    } else {
+        *vp_exp = exp_bias + vr_exp;
+        *vp_man = (vr_man << 1) >> (64 - mant_size);
+    }
+    return 0;
+}
+
 int crefl_vf_f64_read(crefl_buf *buf, double *value)
 {
     s8 pre;
@@ -1408,7 +1449,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1429,22 +1470,9 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
         }
     }
     /* out-of-line little-endian exponent and mantissa */
-    else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
-            vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
-        }
+    else if (_vf_unpack(vf_exp, vf_man, vr_exp, vr_man,
+                        f64_exp_bias, f64_mant_size, &vp_exp, &vp_man) < 0) {
+        goto err;
     }
 
     v = f64_pack_float(f64_struct{vp_man, (u64)vp_exp, vf_sgn});
@@ -1510,7 +1538,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1531,22 +1559,9 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
         }
     }
     /* out-of-line little-endian exponent and mantissa */
-    else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s64)f64_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
-            size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
-            vp_exp = 0;
-            vp_man = (u64)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -tz - 1;
-            vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
-        }
+    else if (_vf_unpack(vf_exp, vf_man, vr_exp, vr_man,
+                        f64_exp_bias, f64_mant_size, &vp_exp, &vp_man) < 0) {
+        return f64_result { 0, -1 };
     }
 
     v = f64_pack_float(f64_struct{vp_man, (u64)vp_exp, vf_sgn});
@@ -1599,7 +1614,7 @@ int crefl_vf_f64_write(crefl_buf *buf, const double *value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1706,7 +1721,7 @@ int crefl_vf_f64_write_byval(crefl_buf *buf, const double value)
          */
         if (d.sexp == -(s64)f64_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - lz - 1;
+            vw_exp = d.sexp - lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -1838,10 +1853,10 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
-    s32 vr_exp = 0;
-    u32 vp_man = 0;
-    s32 vp_exp = 0;
+    u64 vr_man = 0;
+    s64 vr_exp = 0;
+    u64 vp_man = 0;
+    s64 vp_exp = 0;
 
     if (crefl_buf_read_i8(buf, &pre) != 1) {
         goto err;
@@ -1856,17 +1871,12 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         if (vf_exp) {
             s64_result r = crefl_le_ber_integer_s64_read_byval(buf, vf_exp);
             if (r.error < 0) goto err;
-            vr_exp = (s32)r.value;
+            vr_exp = r.value;
         }
         if (vf_man) {
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) goto err;
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -1880,7 +1890,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1901,25 +1911,12 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         }
     }
     /* out-of-line little-endian exponent and mantissa */
-    else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
-            vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
-        }
+    else if (_vf_unpack(vf_exp, vf_man, vr_exp, vr_man,
+                        f32_exp_bias, f32_mant_size, &vp_exp, &vp_man) < 0) {
+        goto err;
     }
 
-    v = f32_pack_float(f32_struct{vp_man, (u32)vp_exp, vf_sgn});
+    v = f32_pack_float(f32_struct{(u32)vp_man, (u32)vp_exp, vf_sgn});
     *value = v;
 
 #if DEBUG_ENCODING
@@ -1945,10 +1942,10 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
     bool vf_sgn;
     int vf_exp;
     int vf_man;
-    u32 vr_man = 0;
-    s32 vr_exp = 0;
-    u32 vp_man = 0;
-    s32 vp_exp = 0;
+    u64 vr_man = 0;
+    s64 vr_exp = 0;
+    u64 vp_man = 0;
+    s64 vp_exp = 0;
 
     if (crefl_buf_read_i8(buf, &pre) != 1) {
         return f32_result { 0, -1 };
@@ -1963,17 +1960,12 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         if (vf_exp) {
             s64_result r = crefl_le_ber_integer_s64_read_byval(buf, vf_exp);
             if (r.error < 0) return f32_result { 0, (s32)r.error };
-            vr_exp = (s32)r.value;
+            vr_exp = r.value;
         }
         if (vf_man) {
             u64_result r = crefl_le_ber_integer_u64_read_byval(buf, vf_man);
             if (r.error < 0) return f32_result { 0, (s32)r.error };
-
-            /* if there are less than 32 leading zeros, then we must
-             * truncate some precision from the right-most bits. */
-            size_t lz = clz(r.value);
-            size_t sh = lz < 32 ? 32 - lz : 0;
-            vr_man = (u32)(r.value >> sh);
+            vr_man = r.value;
         }
     }
 
@@ -1987,7 +1979,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -2008,25 +2000,12 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         }
     }
     /* out-of-line little-endian exponent and mantissa */
-    else {
-        size_t lz = clz(vr_man), tz = ctz(vr_man);
-        if (vr_exp <= -(s32)f32_exp_bias) {
-            /* normal to subnormal - calculate shift using exponent delta
-             * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
-            size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
-            vp_exp = 0;
-            vp_man = (u32)vr_man << sh;
-        } else {
-            /* normal - if no exponent, mantissa is a fraction in the range
-             * +/-0.9900.. with a unary prefix containing the exponent. */
-            if (vf_exp == 0) vr_exp = -(s32)tz - 1;
-            vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
-        }
+    else if (_vf_unpack(vf_exp, vf_man, vr_exp, vr_man,
+                        f32_exp_bias, f32_mant_size, &vp_exp, &vp_man) < 0) {
+        return f32_result { 0, -1 };
     }
 
-    v = f32_pack_float(f32_struct{vp_man, (u32)vp_exp, vf_sgn});
+    v = f32_pack_float(f32_struct{(u32)vp_man, (u32)vp_exp, vf_sgn});
 
 #if DEBUG_ENCODING
     _crefl_vf_f32_debug(v, pre, vp_exp - f32_exp_bias, vp_man << 9, vr_exp, vr_man);
@@ -2076,7 +2055,7 @@ int crefl_vf_f32_write(crefl_buf *buf, const float *value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
@@ -2183,7 +2162,7 @@ int crefl_vf_f32_write_byval(crefl_buf *buf, const float value)
          */
         if (d.sexp == -(s32)f32_exp_bias) {
             vw_man = d.frac >> tz;
-            vw_exp = d.sexp - (u32)lz - 1;
+            vw_exp = d.sexp - (u32)lz;
             vf_exp = (u8)crefl_le_ber_integer_s64_length_byval(vw_exp);
             vf_man = (u8)crefl_le_ber_integer_u64_length_byval(vw_man);
             pre = 0x80 | (d.sign << 6) | (vf_exp << 4) | vf_man;
-- 
2.43.0


From 64d0f3dfa6e41979c035b02764957df0662f88bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 12/40] fix: object identifier reader misreads the first two
 components and overruns the contents

---
 src/asn1.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index a47dc75..85e9996 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2460,12 +2460,12 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         if (crefl_asn1_ber_tag_read(buf, &comp) < 0) goto err;
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
+         * where X is 0, 1 or 2 and Y is less than 40 unless X is 2.
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 first = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = first;
+            obj->oid[n++] = comp - first * 40;
         }
         else {
             if (n < limit) obj->oid[n] = comp;
@@ -2473,6 +2473,8 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         }
         offset = crefl_buf_offset(buf);
     }
+    /* the last subidentifier extends beyond the contents octets */
+    if ((offset - start) > len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From 19fefb6dc626207ae8f9ded4f363c9717f6a8247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 13/40] fix: object identifiers with more components than the
 capacity read out of bounds

---
 src/asn1.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 85e9996..ce05e66 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2436,7 +2436,9 @@ int crefl_vlu_u64_write_byval(crefl_buf *buf, const u64 value)
 size_t crefl_asn1_ber_oid_length(const asn1_oid *obj)
 {
     size_t length = 0;
-    for (size_t i = 0; i < obj->count; i++) {
+    size_t count = obj->count > asn1_oid_comp_max ?
+        asn1_oid_comp_max : obj->count;
+    for (size_t i = 0; i < count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
@@ -2484,6 +2486,9 @@ err:
 
 int crefl_asn1_ber_oid_write(crefl_buf *buf, size_t len, const asn1_oid *obj)
 {
+    /* components beyond the capacity are not present in the object */
+    if (obj->count > asn1_oid_comp_max) goto err;
+
     for (size_t i = 0; i < obj->count; i++) {
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
-- 
2.43.0


From 203e175614b199304f0178080025ae3917774081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 14/40] fix: crefl_asn1_oid_to_string writes beyond a short
 buffer

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index ce05e66..e7245fe 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2536,8 +2536,8 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
+            (offset < limit ? str + offset : NULL),
+            (offset < limit ? limit - offset : 0),
             (i == 0 ? "%lld" : ".%lld"),
             obj->oid[i]
         );
-- 
2.43.0


From 6f11e501252e8989e692c8135241703f7add845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 15/40] fix: crefl_asn1_oid_from_string rejects zero components
 and reads beyond the text

---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index e7245fe..f9587a2 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2560,15 +2560,15 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i == buflen) {
+            //
+        } else if (isdigit((unsigned char)str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if ((i == last || comp_num > 0) && num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
         } else {
             goto err;
         }
-- 
2.43.0


From 540bd990e25fa97c9f8d550a13a1f1bf69d1f8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 16/40] fix: boolean reader ignores the contents length

---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index f9587a2..1ab29bd 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,7 +313,7 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
-    if (crefl_buf_read_i8(buf, &b) != 1) {
+    if (len != 1 || crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
 
-- 
2.43.0


From a68ece45e5ecdaef80719753e7c729ae6d81020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 17/40] fix: octet strings longer than the buffer move the
 cursor past its end

---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1ab29bd..a6f8903 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2609,7 +2609,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2627,7 +2627,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From db654a8c930cb8c39f6f7b00ccc6f5517d96f053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 18/40] fix: database reader trusts the table sizes and
 unterminated names

---
 src/db.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..0713497 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -70,6 +70,16 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
     size_t name_sz = hdr->name_table_size;
     size_t root_idx = hdr->root_element;
 
+    /* check the tables are contained in the input and names are terminated */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: input too short\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != 0) {
+        fprintf(stderr, "crefl: *** error: name table not terminated\n");
+        return -1;
+    }
+
     /* return early if header indicates db is entry */
     if (decl_cnt == 0) {
         return 0;
-- 
2.43.0


From 3d0a0d54defeef2991bd6243c9c44d0e320f511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 19/40] fix: write errors on close are ignored

---
 include/crefl/util.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index bf74a24..2a3a454 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -114,7 +114,8 @@ static size_t crefl_write_file(std::vector<uint8_t> &buf, const char* filename)
         return -1;
     }
     size_t len = fwrite(buf.data(), 1, buf.size(), f);
-    fclose(f);
+    /* buffered data is written on close, which is where write errors show */
+    int ret = fclose(f);
 
-    return buf.size() == len ? 0 : -1;
+    return buf.size() == len && ret == 0 ? 0 : -1;
 }
-- 
2.43.0


From 5ce04042279cf72dbd3064c709a2bd2aabd8620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:41 +0000
Subject: [PATCH 20/40] fix: population count of zero and of unsigned integers
 in C

---
 include/crefl/bits.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From 5e73452f03bc06f4127595678742e12185d347fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 21/40] fix: layout of enumerations, typedefs, booleans,
 complex types, wide types and unions

---
 src/model.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..6d7f3d3 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,15 +248,17 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const size_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3; /* 8 bits */
     }
-    else if ((props & _decl_pad_pow2)) {
+    else if ((props & _decl_pad_pow2) && width > 0) {
         n = 63 - clz(width);
+        /* complex types are aligned like their components */
+        if ((props & _decl_complex) && n > 0) n--;
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
@@ -340,12 +342,17 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
 {
     switch (crefl_decl_tag(d)) {
+    case _decl_typedef:
+    case _decl_qualifier:
+    case _decl_alias: return _type_pad(crefl_decl_link(d));
+    case _decl_set:
+    case _decl_enum: return _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2);
     case _decl_intrinsic: return _intrinsic_pad(d);
     case _decl_struct: return _struct_pad(d);
     case _decl_union: return _union_pad(d);
-- 
2.43.0


From 04ac22df127995aa9d13bf91079516bb5eb77743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 22/40] fix: hashmap bitmaps of less than 32 slots are accessed
 beyond their allocation

---
 include/crefl/hashmap.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..028b351 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -185,6 +185,7 @@ struct hashmap
     enum bitmap_state {
         available = 0, occupied = 1, deleted = 2, recycled = 3
     };
+    static inline size_t bitmap_bytes(size_t n) { return ((n + 31) >> 5) << 3; }
     static inline size_t bitmap_idx(size_t i) { return i >> 5; }
     static inline size_t bitmap_shift(size_t i) { return ((i << 1) & 63); }
     static inline bitmap_state bitmap_get(uint64_t *bitmap, size_t i)
@@ -209,7 +210,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = bitmap_bytes(new_size);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +239,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = bitmap_bytes(limit);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From 54559e9d3b6dc6250c972d5801afabde8804f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 23/40] fix: hashmap stores a key twice when a deleted slot
 precedes it

---
 include/crefl/hashmap.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 028b351..3cfc5d5 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -250,6 +250,12 @@ struct hashmap
 
     iterator insert(const value_type& v)
     {
+        /* the key may be present behind deleted slots */
+        iterator e = find(v.first);
+        if (e != end()) {
+            e->second = v.second;
+            return e;
+        }
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
@@ -279,6 +285,10 @@ struct hashmap
 
     Value& operator[](const Key &key)
     {
+        /* the key may be present behind deleted slots */
+        iterator e = find(key);
+        if (e != end()) return e->second;
+
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
             if ((state & occupied) != occupied) {
-- 
2.43.0


From d82a3f7c3f8dfe4c7127f56381d3bff8fddc08f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 24/40] fix: hashmap iteration over empty maps, self assignment
 and move assignment

---
 include/crefl/hashmap.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 3cfc5d5..24771d8 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -133,6 +133,8 @@ struct hashmap
 
     inline hashmap& operator=(const hashmap &o)
     {
+        if (this == &o) return *this;
+
         free(data);
 
         used = o.used;
@@ -152,6 +154,10 @@ struct hashmap
 
     inline hashmap& operator=(hashmap &&o)
     {
+        if (this == &o) return *this;
+
+        free(data);
+
         data = o.data;
         bitmap = o.bitmap;
         used = o.used;
@@ -175,7 +181,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 9767a46cf4e306448532955c6c97b822c9718827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:28 +0000
Subject: [PATCH 25/40] fix: portable ctz overflows for the value with only the
 top bit set

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index a4cf58d..29c1d68 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -122,7 +122,7 @@ static inline unsigned clz_u64(__bits_u64 x)
 static inline unsigned ctz_u32(__bits_u32 v)
 {
     unsigned c = 32;
-    v &= -(__bits_s32)v;
+    v &= ~v + 1;
     if (v) c--;
     if (v & 0x0000FFFF) c -= 16;
     if (v & 0x00FF00FF) c -= 8;
@@ -135,7 +135,7 @@ static inline unsigned ctz_u32(__bits_u32 v)
 static inline unsigned ctz_u64(__bits_u64 v)
 {
     unsigned c = 64;
-    v &= -(__bits_s64)v;
+    v &= ~v + 1;
     if (v) c--;
     if (v & 0x00000000FFFFFFFFULL) c -= 32;
     if (v & 0x0000FFFF0000FFFFULL) c -= 16;
-- 
2.43.0


From 38934d642082e85f8c5e0bc4c725476413062823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:57 +0000
Subject: [PATCH 26/40] fix: formatted strings of 255 and 256 octets lose their
 end

---
 include/crefl/util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index 2a3a454..a94a630 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -43,8 +43,8 @@ static std::string string_vprintf(const char* fmt, va_list args)
 
     va_list args2;
     va_copy(args2, args);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
-    if ((size_t)len > buf.size()) {
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         len = vsnprintf(&buf[0], buf.size(), fmt, args2);
     }
@@ -59,9 +59,9 @@ static std::string string_printf(const char* fmt, ...)
 
     va_list args;
     va_start(args, fmt);
-    int len = vsnprintf(&buf[0], buf.size()-1, fmt, args);
+    int len = vsnprintf(&buf[0], buf.size(), fmt, args);
     va_end(args);
-    if ((size_t)len > buf.size()) {
+    if ((size_t)len >= buf.size()) {
         buf.resize(len+1);
         va_list args;
         va_start(args, fmt);
-- 
2.43.0


From 3f93c378b42bb6c12361c86396179a8ef87f647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:23 +0000
Subject: [PATCH 27/40] fix: asn1tool trusts lengths and misplaces what follows
 nested sequences

---
 tool/asn1tool.cc | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 90f6b9b..faebf68 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -50,16 +50,21 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
 {
     asn1_hdr hdr;
     std::string indent, undent, oid, desc;
-    size_t current;
+    size_t current, end;
 
     crefl_buf_seek(buf, offset);
 
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) goto err;
     if (crefl_asn1_ber_length_read(buf, &hdr._length) < 0) goto err;
 
+    /* header and contents must lie within the enclosing element */
+    current = crefl_buf_offset(buf);
+    if (current > limit || hdr._length > limit - current) goto err;
+    end = current + hdr._length;
+
     indent = std::string(depth, ' ');
     indent += indent;
-    undent = std::string(15-depth, ' ');
+    undent = std::string(depth < 15 ? 15-depth : 0, ' ');
     undent += undent;
 
     printf("[%5zu;%-5llu]%s|-%c%-20s",
@@ -71,40 +76,35 @@ static int read_asn1(crefl_buf *buf, size_t offset, size_t limit, int depth)
     case asn1_tag_set:
     case asn1_tag_sequence:
         printf("\n");
-        do {
-            current = crefl_buf_offset(buf);
-            int ret = read_asn1(buf, current, current + hdr._length, depth+1);
+        while (current < end) {
+            int ret = read_asn1(buf, current, end, depth+1);
             if (ret < 0) return ret;
-            offset = crefl_buf_offset(buf);
-        } while (offset < limit);
+            current = crefl_buf_offset(buf);
+        }
         break;
     case asn1_tag_object_identifier:
-        current = crefl_buf_offset(buf);
         oid = oid_str(buf->data + current, hdr._length);
         desc = crefl_asn1_oid_desc(buf->data + current, hdr._length);
         printf("%s%s (%s)\n", undent.c_str(), desc.c_str(), oid.c_str());
-        crefl_buf_seek(buf, current + hdr._length);
+        crefl_buf_seek(buf, end);
         break;
     case asn1_tag_real:
     case asn1_tag_integer:
     case asn1_tag_bit_string:
-        current = crefl_buf_offset(buf);
         printf("%s{%s}\n", undent.c_str(),
             hex_str((const uint8_t*)buf->data + current, hdr._length).c_str());
-        crefl_buf_seek(buf, current + hdr._length);
+        crefl_buf_seek(buf, end);
         break;
     case asn1_tag_utc_time:
     case asn1_tag_printable_string:
-        current = crefl_buf_offset(buf);
         printf("%s\"%s\"\n", undent.c_str(),
             std::string(buf->data + current, hdr._length).c_str());
-        crefl_buf_seek(buf, current + hdr._length);
+        crefl_buf_seek(buf, end);
         break;
     default:
         printf("\n");
         /* skip past entries we don't understand */
-        current = crefl_buf_offset(buf);
-        crefl_buf_seek(buf, current + hdr._length);
+        crefl_buf_seek(buf, end);
         break;
     }
 
@@ -119,9 +119,13 @@ static void dump_asn1(const char *filename)
     if (crefl_read_file(v, filename) != 0) return;
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
-    if (read_asn1(buf, 0, v.size(), 0) < 0) {
-        fprintf(stderr, "error: recurse_asn1 returned an error\n");
-    }
+    do {
+        if (read_asn1(buf, crefl_buf_offset(buf), v.size(), 0) < 0) {
+            fprintf(stderr, "error: recurse_asn1 returned an error\n");
+            break;
+        }
+    } while (crefl_buf_offset(buf) < v.size());
+    crefl_buf_destroy(buf);
 }
 
 int main(int argc, const char **argv)
-- 
2.43.0


From 3dd5b1b7d2e01087cf4e9a7a0a9d7b2b59871c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:57 +0000
Subject: [PATCH 28/40] fix: crefltool ignores unreadable inputs and failed
 writes

---
 tool/crefltool.cc | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/tool/crefltool.cc b/tool/crefltool.cc
index 9eef574..80d4298 100644
--- a/tool/crefltool.cc
+++ b/tool/crefltool.cc
@@ -27,19 +27,31 @@
 
 #define array_size(arr) ((sizeof(arr)/sizeof(arr[0])))
 
+static decl_db* read_db(const char *input)
+{
+    decl_db *db = crefl_db_new();
+    if (crefl_db_read_file(db, input) < 0) {
+        fprintf(stderr, "error: reading db: %s\n", input);
+        exit(1);
+    }
+    return db;
+}
+
 void do_merge(const char *output, const char **input, size_t n)
 {
     decl_db *db_out = crefl_db_new();
     decl_db **db_in = (decl_db**)malloc(sizeof(decl_db*) * n);
     for (size_t i = 0; i < n; i++) {
-        db_in[i] = crefl_db_new();
-        crefl_db_read_file(db_in[i], input[i]);
+        db_in[i] = read_db(input[i]);
     }
     if (crefl_link_merge(db_out, output, db_in, n) < 0) {
         fprintf(stderr, "error: merging input files\n");
         exit(1);
     }
-    crefl_db_write_file(db_out, output);
+    if (crefl_db_write_file(db_out, output) < 0) {
+        fprintf(stderr, "error: writing db: %s\n", output);
+        exit(1);
+    }
     for (size_t i = 0; i < n; i++) {
         crefl_db_destroy(db_in[i]);
     }
@@ -54,8 +66,7 @@ void do_emit(const char *output, const char *input, const char *name)
     size_t sz;
     const size_t w = 16;
 
-    db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    db = read_db(input);
     sz = crefl_db_size(db);
     buf = (uint8_t*)malloc(sz);
     if (crefl_db_write_mem(db, buf, sz) < 0 || !(f = fopen(output, "wb"))) {
@@ -73,16 +84,18 @@ void do_emit(const char *output, const char *input, const char *name)
     fprintf(f, "};\n");
     fprintf(f, "const size_t __crefl_%s_size = sizeof(__crefl_%s_data);\n",
         name, name);
-    fflush(f);
-    fclose(f);
+    int err = ferror(f);
+    if (fclose(f) != 0 || err != 0) {
+        fprintf(stderr, "error: writing db\n");
+        exit(1);
+    }
     free(buf);
     crefl_db_destroy(db);
 }
 
 void do_dump(crefl_db_dump_fmt fmt, const char *input)
 {
-    decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    decl_db *db = read_db(input);
     crefl_db_set_dump_fmt(fmt);
     crefl_db_dump(db);
     crefl_db_destroy(db);
@@ -90,8 +103,7 @@ void do_dump(crefl_db_dump_fmt fmt, const char *input)
 
 void do_stats(const char *input)
 {
-    decl_db *db = crefl_db_new();
-    crefl_db_read_file(db, input);
+    decl_db *db = read_db(input);
     crefl_db_dump_stats(db);
     crefl_db_destroy(db);
 }
-- 
2.43.0


From 0484ca5af6a060aa39b96eb93027c2fe0586943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 29/40] fix: asn1tool drops the last digit of object
 identifiers

---
 tool/asn1tool.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index faebf68..612dac1 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -24,6 +24,7 @@ static std::string oid_str(const char *data, size_t sz)
     len = 0;
     crefl_asn1_oid_to_string(NULL, &len, &obj);
     s.resize(len+1);
+    len = s.size(); /* room for the terminator, too */
     crefl_asn1_oid_to_string(s.data(), &len,  &obj);
     s.resize(len);
 
-- 
2.43.0


From 4a6abf4e55e3a5824687962c8dc2fb75e9548e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 30/40] fix: asn1tool says nothing about files it cannot read

---
 tool/asn1tool.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tool/asn1tool.cc b/tool/asn1tool.cc
index 612dac1..9b790f1 100644
--- a/tool/asn1tool.cc
+++ b/tool/asn1tool.cc
@@ -117,7 +117,10 @@ err:
 static void dump_asn1(const char *filename)
 {
     std::vector<uint8_t> v;
-    if (crefl_read_file(v, filename) != 0) return;
+    if (crefl_read_file(v, filename) != 0) {
+        fprintf(stderr, "error: reading file: %s\n", filename);
+        exit(1);
+    }
     crefl_buf *buf = crefl_buf_new(v.size());
     memcpy(buf->data, v.data(), v.size());
     do {
-- 
2.43.0


From 18fe0e2665e67490783ae43df0fb1ec3a55349d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:05 +0000
Subject: [PATCH 31/40] fix: files that cannot be examined stay open

---
 include/crefl/util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/crefl/util.h b/include/crefl/util.h
index a94a630..89d8918 100644
--- a/include/crefl/util.h
+++ b/include/crefl/util.h
@@ -97,6 +97,7 @@ static size_t crefl_read_file(std::vector<uint8_t> &buf, const char* filename)
     }
     if (fstat(fileno(f), &statbuf) < 0) {
         fprintf(stderr, "fstat: %s\n", strerror(errno));
+        fclose(f);
         return -1;
     }
     buf.resize(statbuf.st_size);
-- 
2.43.0


From 99d0937c2b369c68a7b8c4c2b3e8074fa4d0f1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 32/40] fix: all but one of the attributes of a declaration are
 ignored by hashing and merging

---
 src/link.cc | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/link.cc b/src/link.cc
index 06cc0b0..9412366 100644
--- a/src/link.cc
+++ b/src/link.cc
@@ -44,7 +44,7 @@
  * substituted with the node property of the same name and H(id) refers to
  * the bytes of the hash of the node with that id:
  *
- * - (T=$(tag);N=$(name);P=$(props);Q=$(quantity)[;A=<H($(attr))>][;L=H($(link))...])
+ * - (T=$(tag);N=$(name);P=$(props);Q=$(quantity)[;A=<H($(attr))>...][;L=H($(link))...])
  *
  * e.g. the integral signed intrinsic 'i64'
  *
@@ -120,12 +120,13 @@ static void crefl_hash_node_sum(decl_sum *sum, decl_index *index,
     crefl_hash_absorb(sum, quantity_delimeter);
     crefl_hash_update(sum, &node->_quantity, sizeof(node->_quantity));
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         crefl_hash_absorb(sum, attr_delimeter);
         hash = crefl_node_hash(index, next, d, prefix);
         crefl_hash_absorb(sum, hash_delimeter);
         crefl_hash_update(sum, (const char*)hash->sum, sizeof(decl_hash));
+        next = crefl_decl_next(next);
     }
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
@@ -384,11 +385,15 @@ decl_ref crefl_copy_node(crefl_link_state *state, decl_ref d, decl_ref p,
         return r;
     }
 
-    if (node->_attr) {
-        next = crefl_lookup(d.db, node->_attr);
+    next = crefl_lookup(d.db, node->_attr);
+    while (crefl_decl_idx(next)) {
         c = crefl_copy_node(state, next, d);
-        crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        if (crefl_decl_idx(last)) crefl_decl_ptr(last)->_next = crefl_decl_idx(c);
+        else crefl_decl_ptr(r)->_attr = crefl_decl_idx(c);
+        last = c;
+        next = crefl_decl_next(next);
     }
+    last = decl_ref { db, 0 };
     if (node->_link) {
         switch (crefl_decl_tag(d)) {
         /*
-- 
2.43.0


From 8aa2d097f842e380bb97baa82b5ae294dc3c86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 33/40] fix: declarations refer to the last of their attributes
 instead of the first

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 6dc47a5..1a81322 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -228,7 +228,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
                 std::string annotation = cast<AnnotateAttr>(*at).getAnnotation().str();
                 last = create_attribute_string(last, "annotate", annotation.c_str());
             }
-            if (crefl_decl_idx(last)) result = crefl_decl_idx(last);
+            if (!result) result = crefl_decl_idx(last);
         }
         return result;
     }
-- 
2.43.0


From a35166e1811ea211e5ac9987b096932af9abbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:27 +0000
Subject: [PATCH 34/40] fix: dumping an alias may read a table entry that has
 moved

---
 src/dump.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 9c0e112..a64d107 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -218,7 +218,8 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
 {
     decl_id tag = crefl_decl_tag(r);
     decl_entry_ref er = crefl_entry_ref(ld, r);
-    decl_entry *ent = crefl_entry_ptr(er);
+    /* copied because looking up other entries may move the table */
+    decl_hash hash = crefl_entry_ptr(er)->hash;
     decl_node *d = crefl_decl_ptr(r);
 
     std::string fqn;
@@ -257,7 +258,7 @@ crefl_db_row crefl_db_get_row(decl_db *db, decl_ref r)
     return crefl_db_row {
         crefl_decl_idx(r), d->_attr, d->_next, d->_link, crefl_tag_name(tag),
         crefl_decl_has_name(r) ? crefl_decl_name(r) : "(anonymous)", props,
-        _link(r), _hex_str(ent->hash.sum, sizeof(ent->hash.sum)), fqn
+        _link(r), _hex_str(hash.sum, sizeof(hash.sum)), fqn
     };
 }
 
-- 
2.43.0


From 7ad9e30efed42b6a92685a7512eea0db2ecae03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 35/40] fix: declarations local to functions crash the plug-in

---
 src/reflect.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/reflect.cc b/src/reflect.cc
index 1a81322..98aca3b 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -420,6 +420,12 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return r;
     }
 
+    /* declarations within statements and expressions are not reflected */
+    bool TraverseStmt(Stmt *s)
+    {
+        return true;
+    }
+
     decl_set get_cvr_props(QualType q)
     {
         int props = 0;
-- 
2.43.0


From 8d195ed26c9e58eb93936bb9d138a62193136640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 36/40] fix: enumerations that are only declared crash the
 plug-in

---
 src/reflect.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 98aca3b..c78459f 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -504,13 +504,11 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
             d->getNumNegativeBits(),
             d->getNumPositiveBits());
 
-        const QualType q = d->getIntegerType();
-        TypeInfo t = context.getTypeInfo(q);
-
-        /* create enum */
+        /* create enum; one that is only declared has no integer type yet */
         decl_ref r = create_named_node(d, _decl_enum);
         crefl_decl_ptr(r)->_attr = create_attributes(d, r);
-        crefl_decl_ptr(r)->_width = t.Width;
+        const QualType q = d->getIntegerType();
+        crefl_decl_ptr(r)->_width = q.isNull() ? 0 : context.getTypeInfo(q).Width;
 
         stack.push_back(r);
         last = decl_ref { db, 0 };
-- 
2.43.0


From 9c2b23f8283acc10d4ffb4f61de21b0953b9be18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 37/40] fix: types used before their definition are recorded as
 none

---
 src/reflect.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index c78459f..fa5e5a9 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -233,6 +233,19 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         return result;
     }
 
+    /* node for a clang declaration, which may be referred to before it is visited */
+    decl_ref get_named_node(const NamedDecl *d, decl_tag tag)
+    {
+        decl_id &id = idmap[d->Decl::getID()];
+        if (!id) {
+            decl_ref r = crefl_decl_new(db, tag);
+            crefl_decl_ptr(r)->_name = crefl_name_new(db,
+                d->NamedDecl::getNameAsString().c_str());
+            id = crefl_decl_idx(r);
+        }
+        return decl_ref { db, id };
+    }
+
     decl_ref get_intrinsic_type(const QualType q)
     {
         decl_ref tr = crefl_intrinsic(db, _decl_void, 0);
@@ -267,17 +280,17 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         else if (_is_enum) {
             const EnumType *et = q->getAs<EnumType>();
             const EnumDecl *ed = et->getDecl();
-            tr = decl_ref { db, idmap[ed->getID()] };
+            tr = get_named_node(ed, _decl_enum);
         }
         else if (_is_struct) {
             const RecordType *rt = q->getAsStructureType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_named_node(rd, _decl_struct);
         }
         else if (_is_union) {
             const RecordType *rt = q->getAsUnionType();
             const RecordDecl *rd = rt->getDecl();
-            tr = decl_ref { db, idmap[rd->getID()] };
+            tr = get_named_node(rd, _decl_union);
         }
         else if (_is_complex) {
             tr = crefl_intrinsic(db, _decl_cfloat, t.Width);
@@ -382,13 +395,8 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
     decl_ref create_named_node(NamedDecl *d, decl_tag tag)
     {
-        /* create node */
-        decl_ref r = crefl_decl_new(db, tag);
-        crefl_decl_ptr(r)->_name = crefl_name_new(db,
-            d->NamedDecl::getNameAsString().c_str());
-
-        /* record clang -> crefl id */
-        idmap[d->Decl::getID()] = crefl_decl_idx(r);
+        /* create node and record clang -> crefl id */
+        decl_ref r = get_named_node(d, tag);
 
         /* find parent id */
         const auto& parents = context.getParents(*d);
-- 
2.43.0


From 8d1f1d40c7e4f43c19a81d187e9454fd691d643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 38/40] fix: qualifiers of void and incomplete types are lost

---
 src/reflect.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index fa5e5a9..4af76c5 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -262,11 +262,14 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
         bool _is_restrict = (q.getLocalFastQualifiers() & Qualifiers::Restrict);
         bool _is_volatile = (q.getLocalFastQualifiers() & Qualifiers::Volatile);
 
-        if (!_is_array && q->isIncompleteType()) return tr;
+        bool _is_incomplete = !_is_array && q->isIncompleteType();
 
-        TypeInfo t = context.getTypeInfo(q);
+        TypeInfo t = _is_incomplete ? TypeInfo() : context.getTypeInfo(q);
 
-        if (_is_pointer) {
+        if (_is_incomplete) {
+            /* void, with its qualifiers */
+        }
+        else if (_is_pointer) {
             const QualType pq = q->getPointeeType();
             decl_ref ti = get_intrinsic_type(pq);
 
-- 
2.43.0


From 5774d34f445bb5c899378c23fe3eea432ae870d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 39/40] fix: arrays sized by their initialisers lose their size

---
 src/reflect.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 4af76c5..3b48377 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -685,7 +685,7 @@ struct ReflectVisitor : public RecursiveASTVisitor<ReflectVisitor>
 
         /* create field */
         decl_ref r = create_named_node(d, _decl_field);
-        const QualType q = d->getTypeSourceInfo()->getType();
+        const QualType q = d->getType();
         bool is_static = d->getStorageDuration() == StorageDuration::SD_Static;
         crefl_decl_ptr(r)->_link = crefl_decl_idx(get_intrinsic_type(q));
         crefl_decl_ptr(r)->_props |=
-- 
2.43.0


From 6b2a76f23a8323fd10c333b3b1e666c206ba954d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:58 +0000
Subject: [PATCH 40/40] fix: the plug-in ignores failures to write its output

---
 src/reflect.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reflect.cc b/src/reflect.cc
index 3b48377..19c84d4 100644
--- a/src/reflect.cc
+++ b/src/reflect.cc
@@ -747,7 +747,10 @@ void ReflectAction::EndSourceFileAction()
         crefl_db_dump(db);
     }
     if (outputFile.size()) {
-        crefl_db_write_file(db, outputFile.c_str());
+        if (crefl_db_write_file(db, outputFile.c_str()) < 0) {
+            fprintf(stderr, "error: writing file: %s\n", outputFile.c_str());
+            exit(1);
+        }
     }
     crefl_db_destroy(db);
 
-- 
2.43.0

