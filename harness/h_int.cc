// Integer contents: shortest encodings, round trip, arbitrary contents, DER wrappers; pointer and by-value forms agree.
#include "asn1_util.h"

struct Codec { int le, sgn; };
static size_t xlen(int le, int sgn, int byval, uint64_t v)
{
    u64 u = v; s64 s = (s64)v;
    if (!le) return sgn ? (byval ? crefl_asn1_ber_integer_s64_length_byval(s) : crefl_asn1_ber_integer_s64_length(&s)) : (byval ? crefl_asn1_ber_integer_u64_length_byval(u) : crefl_asn1_ber_integer_u64_length(&u));
    return sgn ? (byval ? crefl_le_ber_integer_s64_length_byval(s) : crefl_le_ber_integer_s64_length(&s)) : (byval ? crefl_le_ber_integer_u64_length_byval(u) : crefl_le_ber_integer_u64_length(&u));
}
static int xwrite(int le, int sgn, int byval, crefl_buf *b, size_t n, uint64_t v)
{
    u64 u = v; s64 s = (s64)v;
    if (!le) return sgn ? (byval ? crefl_asn1_ber_integer_s64_write_byval(b, n, s) : crefl_asn1_ber_integer_s64_write(b, n, &s)) : (byval ? crefl_asn1_ber_integer_u64_write_byval(b, n, u) : crefl_asn1_ber_integer_u64_write(b, n, &u));
    return sgn ? (byval ? crefl_le_ber_integer_s64_write_byval(b, n, s) : crefl_le_ber_integer_s64_write(b, n, &s)) : (byval ? crefl_le_ber_integer_u64_write_byval(b, n, u) : crefl_le_ber_integer_u64_write(b, n, &u));
}
static int xread(int le, int sgn, int byval, crefl_buf *b, size_t n, uint64_t *v)
{
    if (byval) {
        if (sgn) { s64_result r = le ? crefl_le_ber_integer_s64_read_byval(b, n) : crefl_asn1_ber_integer_s64_read_byval(b, n); *v = (uint64_t)r.value; return (int)r.error; }
        u64_result r = le ? crefl_le_ber_integer_u64_read_byval(b, n) : crefl_asn1_ber_integer_u64_read_byval(b, n); *v = r.value; return (int)r.error;
    }
    if (sgn) { s64 s = -7; int r = le ? crefl_le_ber_integer_s64_read(b, n, &s) : crefl_asn1_ber_integer_s64_read(b, n, &s); *v = (uint64_t)s; return r; }
    u64 u = 7; int r = le ? crefl_le_ber_integer_u64_read(b, n, &u) : crefl_asn1_ber_integer_u64_read(b, n, &u); *v = u; return r;
}
static uint64_t ref_value(const unsigned char *p, size_t n, int le, int sgn)
{
    uint64_t v = 0;
    for (size_t i = 0; i < n; i++) v = v << 8 | p[le ? n - 1 - i : i];
    if (sgn && n && n < 8) { unsigned sh = 64 - 8 * (unsigned)n; v = (uint64_t)((int64_t)(v << sh) >> sh); }
    return v;
}

HARNESS int_rt()
{
    warm_up();
    int le = (int)sym_choose(0, 1, "le"), sgn = (int)sym_choose(0, 1, "signed"), bw = (int)sym_choose(0, 1, "byval");
    uint64_t v = sym_u64("value"); size_t cap = sym_choose(0, 9, "cap");
    size_t n = sgn ? ref_slen((int64_t)v) : ref_ulen(v);
    sym_assert(xlen(le, sgn, bw, v) == n, "the length function gives the shortest contents");
    n = sym_concretize(n);
    crefl_buf *b = newbuf(cap);
    int r = xwrite(le, sgn, bw, b, n, v);
    if (n > cap) { sym_cover("no room"); sym_assert((r == -1) & (crefl_buf_offset(b) == 0), "an integer that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_assert((r == 0) & (crefl_buf_offset(b) == n), "an integer occupies its declared length");
    int ok = 1; for (size_t i = 0; i < n; i++) ok &= U8P(b)[i] == (unsigned char)(v >> (8 * (le ? i : n - 1 - i)));
    sym_assert(ok, "contents are the value's octets in the stated byte order");
    for (int br = 0; br < 2; br++) {
        crefl_buf_reset(b); uint64_t w = ~v;
        r = xread(le, sgn, br, b, n, &w);
        sym_assert((r == 0) & (w == v), "an integer reads back");
        sym_assert(crefl_buf_offset(b) == n, "reading an integer consumes its length");
    }
    sym_cover("round trip");
    crefl_buf_destroy(b);
}
// any length argument, any contents
HARNESS int_any()
{
    warm_up();
    int le = (int)sym_choose(0, 1, "le"), sgn = (int)sym_choose(0, 1, "signed"), bv = (int)sym_choose(0, 1, "byval"), wr = (int)sym_choose(0, 1, "write");
    size_t cap = sym_choose(0, 9, "cap"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    unsigned char keep[9]; memcpy(keep, b->data, cap);
    size_t n = sym_u64("len"); uint64_t v = sym_u64("value");
    if (n > 8) {
        uint64_t w = 3; int r = wr ? xwrite(le, sgn, bv, b, n, v) : xread(le, sgn, bv, b, n, &w);
        sym_cover("too long"); sym_assert((r == -1) & (crefl_buf_offset(b) == 0), "contents above eight octets are refused"); crefl_buf_destroy(b); return;
    }
    n = sym_concretize(n);
    if (wr) {
        int r = xwrite(le, sgn, bv, b, n, v);
        if (n < 1 || n > cap) { sym_assert((r == -1) & (crefl_buf_offset(b) == 0), "empty or over-long contents are refused"); }
        else {
            sym_assert((r == 0) & (crefl_buf_offset(b) == n), "exactly the stated number of octets is written");
            int ok = 1; for (size_t i = 0; i < cap; i++) ok &= U8P(b)[i] == (i < n ? (unsigned char)(v >> (8 * (le ? i : n - 1 - i))) : keep[i]);
            sym_assert(ok, "the low octets are written, and nothing after them");
        }
    } else {
        uint64_t w = 3; int r = xread(le, sgn, bv, b, n, &w);
        if (n == 0) { sym_assert((r == -1) & (crefl_buf_offset(b) == 0), "empty contents are refused"); }
        else if (n > cap) { sym_assert((r == -1) & (crefl_buf_offset(b) == 0), "truncated contents are refused"); }
        else { sym_cover("read"); sym_assert((r == 0) & (crefl_buf_offset(b) == n), "exactly the stated number of octets is consumed"); sym_assert(w == ref_value(keep, n, le, sgn), "contents read their value"); }
    }
    crefl_buf_destroy(b);
}
// tag, length and contents together
HARNESS int_der()
{
    warm_up();
    int sgn = (int)sym_choose(0, 1, "signed"), bv = (int)sym_choose(0, 1, "byval");
    uint64_t v = sym_u64("value"); size_t cap = sym_choose(0, 11, "cap");
    asn1_tag tag = (asn1_tag)(sym_u8("tag") & 31); sym_assume(tag != 31);
    size_t n = sgn ? ref_slen((int64_t)v) : ref_ulen(v);
    crefl_buf *b = newbuf(cap); u64 u = v; s64 s = (s64)v;
    int r = sgn ? (bv ? crefl_asn1_der_integer_s64_write_byval(b, tag, s) : crefl_asn1_der_integer_s64_write(b, tag, &s)) : (bv ? crefl_asn1_der_integer_u64_write_byval(b, tag, u) : crefl_asn1_der_integer_u64_write(b, tag, &u));
    n = sym_concretize(n);
    if (n + 2 > cap) { sym_cover("no room"); sym_assert(r == -1, "a DER integer that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_assert((r == 0) & (crefl_buf_offset(b) == n + 2), "a DER integer is tag, length and contents");
    sym_assert((U8P(b)[0] == tag) & (U8P(b)[1] == n), "a DER integer carries its tag and length");
    sym_assert(ref_value(U8P(b) + 2, n, 0, sgn) == v, "a DER integer carries its value");
    for (int br = 0; br < 2; br++) {
        crefl_buf_reset(b); uint64_t w = ~v; int64_t e;
        if (sgn) { if (br) { s64_result q = crefl_asn1_der_integer_s64_read_byval(b, tag); w = (uint64_t)q.value; e = q.error; } else { s64 x = 0; e = crefl_asn1_der_integer_s64_read(b, tag, &x); w = (uint64_t)x; } }
        else { if (br) { u64_result q = crefl_asn1_der_integer_u64_read_byval(b, tag); w = q.value; e = q.error; } else { u64 x = 0; e = crefl_asn1_der_integer_u64_read(b, tag, &x); w = x; } }
        sym_assert((e == 0) & (w == v) & (crefl_buf_offset(b) == n + 2), "a DER integer reads back and is consumed exactly");
    }
    sym_cover("round trip");
    crefl_buf_destroy(b);
}
