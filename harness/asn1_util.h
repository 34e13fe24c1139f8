// Shared pieces of the codec harnesses: exact-size buffers and reference encoders written from X.690 / docs/vf128.md.
#pragma once
#include "sym.h"
#include <crefl/model.h>
#include <crefl/buf.h>
#include <crefl/asn1.h>
#include <stdio.h>

static inline crefl_buf *newbuf(size_t n) { return crefl_buf_new(n); }
// base-128 length of v < 2^56
static inline size_t ref_b128_len(uint64_t v) { size_t n = 1; for (int i = 1; i < 8; i++) n += (v >> (7 * i)) != 0; return n; }
// number of bytes to hold v unsigned, minimum 1
static inline size_t ref_ulen(uint64_t v) { size_t n = 1; for (int i = 1; i < 8; i++) n += (v >> (8 * i)) != 0; return n; }
// shortest two's complement length
static inline size_t ref_slen(int64_t v) { size_t n = 1; for (int i = 1; i < 8; i++) { int sh = 8 * i - 1; int64_t top = v >> sh; n += !((top == 0) | (top == -1)); } return n; }
// definite-form length octets
static inline size_t ref_lenlen(uint64_t v) { return v < 0x80 ? 1 : 1 + ref_ulen(v); }
static inline int ref_len_bytes(uint64_t v, size_t n, const unsigned char *p)
{
    if (n == 1) return p[0] == v;
    int ok = p[0] == (0x80 | (n - 1));
    for (size_t i = 1; i < n; i++) ok &= p[i] == (unsigned char)(v >> (8 * (n - 1 - i)));
    return ok;
}
static inline int ref_b128_bytes(uint64_t v, size_t n, const unsigned char *p)
{
    int ok = 1;
    for (size_t i = 0; i < n; i++) ok &= p[i] == (unsigned char)(((v >> (7 * (n - 1 - i))) & 0x7f) | (i + 1 != n ? 0x80 : 0));
    return ok;
}
#define U8P(b) ((const unsigned char *)(b)->data)
// Earlier operations with extreme values, so that state kept from one call to the next would show in what follows.
static __attribute__((noinline)) void warm_up()
{
    crefl_buf *b = crefl_buf_new(256); u64 u = ~0ull >> 8, w; s64 s; double d = -1e300, e; float f = 3e-30f, g; asn1_id id; asn1_oid o, q; char t[24]; bool bo;
    for (int pass = 0; pass < 2; pass++) {
        for (int i = 0; i < 256; i++) b->data[i] = pass ? 0x7f : (char)0xff;
        crefl_buf_reset(b); crefl_asn1_ber_integer_u64_read(b, 8, &w); crefl_asn1_ber_integer_u64_read_byval(b, 8); crefl_le_ber_integer_u64_read(b, 8, &w); crefl_le_ber_integer_u64_read_byval(b, 8);
        crefl_asn1_ber_integer_s64_read(b, 8, &s); crefl_asn1_ber_integer_s64_read_byval(b, 8); crefl_le_ber_integer_s64_read(b, 8, &s); crefl_le_ber_integer_s64_read_byval(b, 8);
        crefl_asn1_ber_boolean_read(b, 1, &bo); crefl_asn1_ber_tag_read(b, &w); crefl_asn1_ber_ident_read(b, &id); crefl_asn1_ber_length_read(b, &w);
        crefl_leb_u64_read(b, &w); crefl_leb_u64_read_byval(b); crefl_vlu_u64_read(b, &w); crefl_vlu_u64_read_byval(b);
        asn1_string z = { 20, (u8 *)t }; crefl_asn1_ber_octets_read(b, 20, &z);
        crefl_buf_reset(b);
        crefl_asn1_ber_real_f64_write(b, crefl_asn1_ber_real_f64_length(&d), &d); crefl_asn1_ber_real_f64_write_byval(b, crefl_asn1_ber_real_f64_length_byval(d), d);
        crefl_vf_f64_write(b, &d); crefl_vf_f64_write_byval(b, d); crefl_vf_f32_write(b, &f); crefl_vf_f32_write_byval(b, f);
        size_t n = crefl_asn1_ber_real_f64_length(&d); crefl_buf_reset(b);
        crefl_asn1_ber_real_f64_read(b, n, &e); crefl_asn1_ber_real_f64_read_byval(b, n); crefl_vf_f64_read(b, &e); crefl_vf_f64_read_byval(b); crefl_vf_f32_read(b, &g); crefl_vf_f32_read_byval(b);
        crefl_buf_reset(b); crefl_leb_u64_write(b, &u); crefl_leb_u64_write_byval(b, u); crefl_vlu_u64_write(b, &u); crefl_vlu_u64_write_byval(b, u);
        for (size_t i = 0; i < 12; i++) o.oid[i] = i == 1 ? 39 : i ? u : 1; o.count = 12; crefl_buf_reset(b); n = crefl_asn1_ber_oid_length(&o); crefl_asn1_ber_oid_write(b, n, &o); crefl_buf_reset(b); crefl_asn1_ber_oid_read(b, n, &q);
        crefl_asn1_oid_from_string(&o, "2.999.72057594037927935", 23); n = sizeof t; crefl_asn1_oid_to_string(t, &n, &o);
        memset(b->data, 0xff, 256); crefl_buf_reset(b); crefl_asn1_ber_integer_u64_read(b, 8, &w); crefl_asn1_ber_integer_u64_read_byval(b, 8); crefl_le_ber_integer_u64_read(b, 8, &w); crefl_le_ber_integer_u64_read_byval(b, 8);
        d = 4.9e-324; f = -0.0f; u = 0;
    }
    crefl_buf_destroy(b);
}
