// BER/DER REAL for every double; decoding of arbitrary contents against X.690 8.5.
#include "asn1_util.h"

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static const uint64_t EXPM = 0x7ffull << 52, MANT = (1ull << 52) - 1;
static int isnan_(uint64_t u) { return ((u & EXPM) == EXPM) & ((u & MANT) != 0); }
static int isinf_(uint64_t u) { return ((u & EXPM) == EXPM) & ((u & MANT) == 0); }

// sign * n * 2^e as a double, truncated toward zero; returns 0 when the magnitude is out of range
static int ref_scale(int neg, uint64_t n, int64_t e, uint64_t *out)
{
    uint64_t s = (uint64_t)neg << 63;
    if (!n) { *out = s; return 1; }
    for (int k = 32; k; k >>= 1) { uint64_t top = n >> (64 - k); int z = top == 0; n = z ? n << k : n; e = z ? e - k : e; } // leading one to bit 63
    e += 63;
    if (e > 1023 || e < -1074) return 0;
    if (e >= -1022) { *out = s | (uint64_t)(e + 1023) << 52 | ((n >> 11) & MANT); return 1; }
    *out = s | (n >> (-1011 - e)); return 1;
}
// X.690 8.5 contents: 1 value, 0 not representable here or malformed
static int ref_real(const unsigned char *p, size_t len, uint64_t *out)
{
    if (len == 0) { *out = 0; return 1; }
    if (!(p[0] & 0x80)) {
        if (len != 1) return 0;
        if (p[0] == 0x40) { *out = EXPM; return 1; }
        if (p[0] == 0x41) { *out = EXPM | 1ull << 63; return 1; }
        if (p[0] == 0x42) { *out = 0x7ff8ull << 48; return 1; }
        if (p[0] == 0x43) { *out = 1ull << 63; return 1; }
        return 0;
    }
    unsigned base = (p[0] >> 4) & 3, f = (p[0] >> 2) & 3, em = p[0] & 3;
    if (base == 3 || em >= 2) return 0;                  // reserved base; exponents above two octets are not supported
    size_t el = em + 1; if (len < 1 + el + 1 || len - 1 - el > 8) return 0;
    int64_t e = em ? (int16_t)(p[1] << 8 | p[2]) : (int8_t)p[1];
    uint64_t n = 0; for (size_t i = 1 + el; i < len; i++) n = n << 8 | p[i];
    e = e * (base == 0 ? 1 : base == 1 ? 3 : 4) + f;
    return ref_scale((p[0] >> 6) & 1, n, e, out);
}

// every double; the positions of the lowest one of the mantissa (and, when subnormal, of the highest) are case splits
static uint64_t any_double()
{
    uint64_t u = sym_u64("double"), m; int sub = sym_param("subnormal");
    size_t k = sym_choose(sym_param("lo"), sym_param("hi"), "trailing");            // lowest one at bit k, 52: no bit set
    if (sub) {
        size_t h = k == 52 ? 52 : sym_choose(k, 51, "leading");
        m = k == 52 ? 0 : h == k ? 1ull << k : (1ull << h) | (1ull << k) | (u & ((1ull << h) - 1) & ~((2ull << k) - 1));
        return (u & 1ull << 63) | m;
    }
    m = k == 52 ? 0 : (1ull << k) | (u & MANT & ~((2ull << k) - 1));
    sym_assume((u & EXPM) != 0);
    return (u & (EXPM | 1ull << 63)) | m;
}
HARNESS real_rt()
{
    warm_up();
    uint64_t u = any_double(); int bw = (int)sym_choose(0, 1, "byval"); double d = dbl(u);
    crefl_buf *b = newbuf(12);
    size_t n = bw ? crefl_asn1_ber_real_f64_length_byval(d) : crefl_asn1_ber_real_f64_length(&d);
    int r = bw ? crefl_asn1_ber_real_f64_write_byval(b, n, d) : crefl_asn1_ber_real_f64_write(b, n, &d);
    sym_assert(r == 0, "every double encodes as a REAL");
    sym_assert(crefl_buf_offset(b) == n, "REAL contents have exactly the declared length");
    n = sym_concretize(n);
    const unsigned char *p = U8P(b); uint64_t ref = 0x1234;
    int ok = ref_real(p, n, &ref); uint64_t want = isnan_(u) ? 0x7ff8ull << 48 : u;
    sym_assert(ok, "REAL contents are well formed");
    sym_assert(isnan_(u) ? isnan_(ref) : ref == want, "REAL contents denote the value that was written");
    if (n > 1) { // DER 11.3.1: base 2, no scale, odd mantissa, shortest exponent and mantissa
        sym_assert((p[0] & 0x3c) == 0, "REALs are written in base 2 without a scale factor");
        size_t el = 1 + (p[0] & 3), fl = n - 1 - el;
        if ((u << 1) != 0) { sym_assert(p[n - 1] & 1, "the mantissa is odd"); sym_assert((fl == 1) | (p[1 + el] != 0), "the mantissa has no leading zero octet"); }
        if (el == 2) sym_assert(!((p[1] == 0) & !(p[2] & 0x80)) & !((p[1] == 0xff) & (p[2] >> 7)), "the exponent has no redundant octet");
        sym_cover("finite");
    } else sym_cover("special");
    for (int br = 0; br < 2; br++) {
        crefl_buf_reset(b); double o = dbl(0x5555); int64_t e;
        if (br) { f64_result q = crefl_asn1_ber_real_f64_read_byval(b, n); o = q.value; e = q.error; } else e = crefl_asn1_ber_real_f64_read(b, n, &o);
        sym_assert(e == 0, "a written REAL reads");
        sym_assert(isnan_(u) ? isnan_(bits(o)) : bits(o) == u, "a REAL reads back bit for bit");
        sym_assert(crefl_buf_offset(b) == n, "reading a REAL consumes its contents");
    }
    crefl_buf_destroy(b);
}
HARNESS real_len_args()
{
    warm_up();
    // both spellings of the length and of the writer agree, and every capacity below the length is refused
    uint64_t u = any_double(); double d = dbl(u); size_t cap = sym_choose(0, 10, "cap"); int bw = (int)sym_choose(0, 1, "byval");
    size_t n = crefl_asn1_ber_real_f64_length(&d);
    sym_assert(n == crefl_asn1_ber_real_f64_length_byval(d), "both length functions agree");
    crefl_buf *b = newbuf(cap);
    int r = bw ? crefl_asn1_ber_real_f64_write_byval(b, n, d) : crefl_asn1_ber_real_f64_write(b, n, &d);
    if (cap < n) { sym_cover("no room"); sym_assert(r == -1, "a REAL that does not fit is refused"); }
    else { sym_cover("fits"); sym_assert(r == 0, "a REAL that fits is written"); }
    crefl_buf_destroy(b);
}
// the contents octets are arbitrary; the position of the mantissa's leading one is a case split so that the shifts become constant
HARNESS real_read()
{
    warm_up();
    size_t len = sym_param("len"), el = sym_param("el"), byval = sym_choose(0, 1, "byval");
    crefl_buf *b = newbuf(len); unsigned char *p = (unsigned char *)b->data; sym_bytes(p, len, "octets");
    if (el) {                                            // binary REAL with an el octet exponent
        p[0] = 0x80 | (p[0] & 0x40) | sym_param("base") << 4 | sym_choose(0, 3, "scale") << 2 | (el - 1);
        size_t m0 = 1 + el, fb = 8 * (len - m0), k = sym_choose(0, fb, "leading"); // leading one at bit k-1, or no bit set
        for (size_t i = m0; i < len; i++) {
            size_t lo = 8 * (len - 1 - i);
            if (k <= lo) p[i] = 0; else if (k - 1 < lo + 8) { unsigned j = (unsigned)(k - 1 - lo); p[i] = (1u << j) | (p[i] & ((1u << j) - 1)); }
        }
    } else if (len) sym_assume(!(p[0] & 0x80) | ((p[0] & 3) >= 2) | (len < 3u + (p[0] & 3)) | (len > 10u + (p[0] & 3)));
    uint64_t ref = 0; int ok = ref_real(p, len, &ref);
    double o = dbl(0x1234); int64_t e;
    if (byval) { f64_result q = crefl_asn1_ber_real_f64_read_byval(b, len); o = q.value; e = q.error; } else e = crefl_asn1_ber_real_f64_read(b, len, &o);
    if (ok) {
        sym_assert(e == 0, "well formed REAL contents in range are accepted");
        sym_assert(isnan_(ref) ? isnan_(bits(o)) : bits(o) == ref, "REAL contents decode to the value they denote");
        sym_assert(crefl_buf_offset(b) == len, "a decoded REAL consumes exactly its contents");
    } else { sym_assert(e == -1, "malformed or out of range REAL contents are refused"); sym_assert(bits(o) == 0, "a refused REAL leaves zero"); }
    crefl_buf_destroy(b);
}
HARNESS real_short()
{
    warm_up();
    // contents that extend past the end of the input
    size_t len = sym_choose(1, 12, "len"), cap = sym_choose(0, len - 1, "cap"), byval = sym_choose(0, 1, "byval");
    crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    double o = dbl(0x1234); int64_t e;
    if (byval) { f64_result q = crefl_asn1_ber_real_f64_read_byval(b, len); o = q.value; e = q.error; } else e = crefl_asn1_ber_real_f64_read(b, len, &o);
    sym_assert((e == -1) & (bits(o) == 0), "REAL contents that extend past the end of the input are refused");
    crefl_buf_destroy(b);
}
HARNESS real_der()
{
    warm_up();
    uint64_t u = any_double(); double d = dbl(u); int bw = (int)sym_choose(0, 1, "bywrite"), br = (int)sym_choose(0, 1, "byread");
    crefl_buf *b = newbuf(14);
    int r = bw ? crefl_asn1_der_real_f64_write_byval(b, asn1_tag_real, d) : crefl_asn1_der_real_f64_write(b, asn1_tag_real, &d);
    size_t n = crefl_buf_offset(b);
    sym_assert((r == 0) & (U8P(b)[0] == 9) & (n == 2u + U8P(b)[1]), "a DER REAL is tag, length and contents");
    crefl_buf_reset(b); double o = dbl(77); int64_t e;
    if (br) { f64_result q = crefl_asn1_der_real_f64_read_byval(b, asn1_tag_real); o = q.value; e = q.error; } else e = crefl_asn1_der_real_f64_read(b, asn1_tag_real, &o);
    sym_assert((e == 0) & (crefl_buf_offset(b) == n), "a DER REAL is consumed exactly");
    sym_assert(isnan_(u) ? isnan_(bits(o)) : bits(o) == u, "a DER REAL reads back bit for bit");
    crefl_buf_destroy(b);
}
