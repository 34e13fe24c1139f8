// vf128: every double and float against a decoder written from docs/vf128.md; decoding of arbitrary octets.
#include "asn1_util.h"

static uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static double dbl(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
static uint32_t bitsf(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }
static float flt(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
static const uint64_t EXPM = 0x7ffull << 52, MANT = (1ull << 52) - 1;
static const uint32_t EXPF = 0xffu << 23, MANTF = (1u << 23) - 1;

// a value in between: special 0 finite (left justified mantissa m, exponent e), 1 zero, 2 infinity, 3 not a number with 4 bit payload m
struct val { int ok, special, neg; uint64_t m; int64_t e; };
// float7: 2 bit exponent with bias 1, 4 bit mantissa
static val float7(unsigned h)
{
    val v = { 1, 0, (int)(h >> 6 & 1), 0, 0 }; unsigned x = h >> 4 & 3, f = h & 15;
    if (x == 3) { v.special = f ? 3 : 2; v.m = f; return v; }
    if (x == 0 && f == 0) { v.special = 1; return v; }
    unsigned n = x ? 16 + f : f; int e = x ? (int)x - 1 : 0;       // n * 2^(e-4)
    while (!(n & 16)) { n <<= 1; e--; }
    v.m = (uint64_t)n << 59; v.e = e; return v;
}
// out of line: signed little endian exponent, unsigned little endian mantissa
static val ext(const unsigned char *p, unsigned xl, unsigned ml)
{
    val v = { 0, 0, p[0] >> 6 & 1, 0, 0 };
    if (xl == 0 && ml == 0) return v;
    int64_t e = 0; if (xl) { e = (int8_t)p[xl]; for (unsigned i = xl - 1; i > 0; i--) e = e * 256 + p[i]; }
    uint64_t m = 0; for (unsigned i = 0; i < ml; i++) m |= (uint64_t)p[1 + xl + i] << (8 * i);
    if (ml && !m) return v;                                        // no leading one
    if (!ml) m = 1;
    if (!xl) { e = -1; for (int k = 32; k; k >>= 1) { int z = (m & ((1ull << k) - 1)) == 0; m = z ? m >> k : m; e = z ? e - k : e; } }
    for (int k = 32; k; k >>= 1) { int z = (m >> (64 - k)) == 0; m = z ? m << k : m; }
    v.ok = 1; v.m = m; v.e = e; return v;
}
static uint64_t to64(val v)
{
    uint64_t s = (uint64_t)v.neg << 63;
    if (v.special == 1) return s;
    if (v.special == 2) return s | EXPM;
    if (v.special == 3) return s | EXPM | v.m << 48;
    if (v.e > 1023) return s | EXPM;
    if (v.e >= -1022) return s | (uint64_t)(v.e + 1023) << 52 | ((v.m >> 11) & MANT);
    return v.e < -1074 ? s : s | (v.m >> (-1011 - v.e));
}
static uint32_t to32(val v)
{
    uint32_t s = (uint32_t)v.neg << 31;
    if (v.special == 1) return s;
    if (v.special == 2) return s | EXPF;
    if (v.special == 3) return s | EXPF | (uint32_t)v.m << 19;
    if (v.e > 127) return s | EXPF;
    if (v.e >= -126) return s | (uint32_t)(v.e + 127) << 23 | ((uint32_t)(v.m >> 40) & MANTF);
    return v.e < -149 ? s : s | (uint32_t)(v.m >> (-86 - v.e));
}
static uint64_t narrow_trunc(uint64_t u)                            // double to float, excess precision truncated, too large to infinity
{
    val v = { 1, 0, (int)(u >> 63), 0, 0 }; uint64_t m = u & MANT; int e = (int)(u >> 52 & 0x7ff);
    if (e == 0x7ff) { v.special = m ? 3 : 2; v.m = 8; }
    else if (!e) v.special = 1;                                     // a subnormal double is far below the floats
    else { v.m = (1ull << 63) | m << 11; v.e = e - 1023; }
    return to32(v);
}
static uint64_t widen(uint32_t u)
{
    val v = { 1, 0, (int)(u >> 31), 0, 0 }; uint32_t m = u & MANTF; int e = (int)(u >> 23 & 0xff);
    if (e == 0xff) { v.special = m ? 3 : 2; v.m = 8; }
    else if (e) { v.m = (1ull << 63) | (uint64_t)m << 40; v.e = e - 127; }
    else if (!m) v.special = 1;
    else { uint64_t n = m; e = -86; while (!(n >> 63)) { n <<= 1; e--; } v.m = n; v.e = e; }
    return to64(v);
}

// every double / float; the positions of the lowest one of the mantissa (and, when subnormal, of the highest) are case splits
static uint64_t any64()
{
    uint64_t u = sym_u64("double"), m; int sub = sym_param("subnormal"); size_t k = sym_choose(sym_param("lo"), sym_param("hi"), "trailing");
    if (sub) {
        size_t h = k == 52 ? 52 : sym_choose(k, 51, "leading");
        m = k == 52 ? 0 : h == k ? 1ull << k : (1ull << h) | (1ull << k) | (u & ((1ull << h) - 1) & ~((2ull << k) - 1));
        return (u & 1ull << 63) | m;
    }
    m = k == 52 ? 0 : (1ull << k) | (u & MANT & ~((2ull << k) - 1));
    sym_assume((u & EXPM) != 0);
    return (u & (EXPM | 1ull << 63)) | m;
}
static uint32_t any32()
{
    uint32_t u = sym_u32("float"), m; int sub = sym_param("subnormal"); size_t k = sym_choose(sym_param("lo"), sym_param("hi"), "trailing");
    if (sub) {
        size_t h = k == 23 ? 23 : sym_choose(k, 22, "leading");
        m = k == 23 ? 0 : h == k ? 1u << k : (1u << h) | (1u << k) | (u & ((1u << h) - 1) & ~((2u << k) - 1));
        return (u & 1u << 31) | m;
    }
    m = k == 23 ? 0 : (1u << k) | (u & MANTF & ~((2u << k) - 1));
    sym_assume((u & EXPF) != 0);
    return (u & (EXPF | 1u << 31)) | m;
}
static int isnan64(uint64_t u) { return ((u & EXPM) == EXPM) & ((u & MANT) != 0); }
static int isnan32(uint32_t u) { return ((u & EXPF) == EXPF) & ((u & MANTF) != 0); }

// the encoding in b is n octets: one of the documented forms, minimal; returns its value
static val canonical(crefl_buf *b, size_t n, int f7, int pow2)
{
    const unsigned char *p = U8P(b); unsigned h = (unsigned)sym_concretize(p[0] & 0xbf) | (p[0] & 0x40); unsigned xl = h >> 4 & 3, ml = h & 15;
    sym_assert((h >> 7 ^ 1) == (unsigned)f7, "exactly the float7 values are inlined in the header");
    if (!(h & 0x80)) { sym_assert(n == 1, "inline values take one octet"); return float7(h); }
    sym_assert(n == 1u + xl + ml, "the encoding is header, exponent and mantissa");
    sym_assert((xl | ml) != 0, "the reserved header is not written");
    if (pow2) sym_assert(ml == 0, "powers of two omit the mantissa");
    if (xl > 1) sym_assert(!((p[xl] == 0) & !(p[xl - 1] >> 7)) & !((p[xl] == 0xff) & (p[xl - 1] >> 7)), "the exponent has no redundant octet");
    if (ml) sym_assert(p[xl + ml] != 0, "the mantissa has no redundant octet");
    if (xl && ml) sym_assert(p[1 + xl] & 1, "the mantissa has no trailing zeros");
    return ext(p, xl, ml);
}
static int is_f7_64(uint64_t u)
{
    int r = 0; for (unsigned h = 0; h < 128; h++) r |= to64(float7(h)) == u;
    return r | isnan64(u);
}
static int is_f7_32(uint32_t u)
{
    int r = 0; for (unsigned h = 0; h < 128; h++) r |= to32(float7(h)) == u;
    return r | isnan32(u);
}

HARNESS vf64_rt()
{
    warm_up();
    uint64_t u = any64(); int bw = (int)sym_choose(0, 1, "byval"); double d = dbl(u); crefl_buf *b = newbuf(16);
    int r = bw ? crefl_vf_f64_write_byval(b, d) : crefl_vf_f64_write(b, &d);
    sym_assert(r == 0, "every double encodes");
    size_t n = crefl_buf_offset(b); sym_assert(n <= 10, "a double takes at most ten octets");
    val v = canonical(b, n, is_f7_64(u), !sym_param("subnormal") & ((u & MANT) == 0));
    sym_assert(v.ok, "encodings are well formed");
    sym_assert(isnan64(u) ? (v.special == 3) & (v.m == 8) & (v.neg == (int)(u >> 63)) : to64(v) == u, "the encoding denotes the value that was written");
    for (int br = 0; br < 2; br++) {
        crefl_buf_reset(b); double o = dbl(0x5555); int64_t e;
        if (br) { f64_result q = crefl_vf_f64_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f64_read(b, &o);
        sym_assert((e == 0) & (crefl_buf_offset(b) == n), "reading consumes the encoding");
        sym_assert(isnan64(u) ? bits(o) == ((u & 1ull << 63) | EXPM | 1ull << 51) : bits(o) == u, "a double reads back bit for bit");
        crefl_buf_reset(b); float of = flt(0x5555);
        if (br) { f32_result q = crefl_vf_f32_read_byval(b); of = q.value; e = q.error; } else e = crefl_vf_f32_read(b, &of);
        sym_assert((e == 0) & (crefl_buf_offset(b) == n), "reading as float consumes the encoding");
        sym_assert(bitsf(of) == (uint32_t)narrow_trunc(u), "a double reads as a float with excess precision truncated");
    }
    crefl_buf_destroy(b);
}
HARNESS vf32_rt()
{
    warm_up();
    uint32_t u = any32(); int bw = (int)sym_choose(0, 1, "byval"); float d = flt(u); crefl_buf *b = newbuf(16);
    int r = bw ? crefl_vf_f32_write_byval(b, d) : crefl_vf_f32_write(b, &d);
    sym_assert(r == 0, "every float encodes");
    size_t n = crefl_buf_offset(b); sym_assert(n <= 6, "a float takes at most six octets");
    val v = canonical(b, n, is_f7_32(u), !sym_param("subnormal") & ((u & MANTF) == 0));
    sym_assert(v.ok, "encodings are well formed");
    sym_assert(isnan32(u) ? (v.special == 3) & (v.m == 8) & (v.neg == (int)(u >> 31)) : to32(v) == u, "the encoding denotes the value that was written");
    for (int br = 0; br < 2; br++) {
        crefl_buf_reset(b); float of = flt(0x5555); int64_t e;
        if (br) { f32_result q = crefl_vf_f32_read_byval(b); of = q.value; e = q.error; } else e = crefl_vf_f32_read(b, &of);
        sym_assert((e == 0) & (crefl_buf_offset(b) == n), "reading consumes the encoding");
        sym_assert(isnan32(u) ? bitsf(of) == ((u & 1u << 31) | EXPF | 1u << 22) : bitsf(of) == u, "a float reads back bit for bit");
        crefl_buf_reset(b); double o = dbl(0x5555);
        if (br) { f64_result q = crefl_vf_f64_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f64_read(b, &o);
        sym_assert((e == 0) & (crefl_buf_offset(b) == n), "reading as double consumes the encoding");
        sym_assert(bits(o) == widen(u), "a float reads as the double of the same value");
    }
    crefl_buf_destroy(b);
}
// the unary form of the exponent is only used when it is not longer than the explicit form, and the explicit form only when it is shorter
HARNESS vf_minimal()
{
    warm_up();
    int f32 = sym_param("f32"); crefl_buf *b = newbuf(16); int e; unsigned mb; // mb: significant mantissa bits
    if (f32) { uint32_t u = any32(); e = (int)(u >> 23 & 0xff) - 127; size_t k = sym_param("lo"); mb = 24 - k; sym_assume((e < 0) & (e >= -8)); crefl_vf_f32_write_byval(b, flt(u)); }
    else { uint64_t u = any64(); e = (int)(u >> 52 & 0x7ff) - 1023; size_t k = sym_param("lo"); mb = 53 - k; sym_assume((e < 0) & (e >= -8)); crefl_vf_f64_write_byval(b, dbl(u)); }
    size_t n = crefl_buf_offset(b); const unsigned char *p = U8P(b);
    if (p[0] & 0x80) {
        unsigned expl = 1 + 1 + (mb + 7) / 8, unary = 1 + (mb + (-e - 1) + 7) / 8;
        if (mb == 1) { expl = 2; unary = 99; }
        sym_assert(n == (unary <= expl ? unary : expl), "the shorter of the two forms is written, the unary one on a tie");
        sym_cover("extern");
    }
    crefl_buf_destroy(b);
}
HARNESS vf_room() // the sign plays no part here
{
    warm_up();
    size_t cap = sym_choose(0, 9, "cap"); int w = (int)sym_choose(0, 3, "writer"); uint64_t u = 0; uint32_t v = 0;
    if (w < 2) { u = any64(); sym_assume(!(u >> 63)); } else { v = any32(); sym_assume(!(v >> 31)); }
    double d = dbl(u); float f = flt(v);
    crefl_buf *big = newbuf(16), *b = newbuf(cap);
    int r0, r;
    switch (w) {
    case 0: r0 = crefl_vf_f64_write(big, &d); r = crefl_vf_f64_write(b, &d); break;
    case 1: r0 = crefl_vf_f64_write_byval(big, d); r = crefl_vf_f64_write_byval(b, d); break;
    case 2: r0 = crefl_vf_f32_write(big, &f); r = crefl_vf_f32_write(b, &f); break;
    default: r0 = crefl_vf_f32_write_byval(big, f); r = crefl_vf_f32_write_byval(b, f); break;
    }
    sym_assert(r0 == 0, "a value with room encodes");
    size_t n = crefl_buf_offset(big);
    sym_assert((r == 0) == (n <= cap), "a value that does not fit is refused");
    crefl_buf_destroy(b); crefl_buf_destroy(big);
}
// arbitrary octets; the position of the mantissa's leading (and for unary exponents trailing) one is a case split
HARNESS vf_read()
{
    warm_up();
    unsigned xl = sym_param("xl"), ml = sym_param("ml"), f32 = sym_param("f32"), byval = (unsigned)sym_choose(0, 1, "byval"), cap = 1 + xl + ml;
    crefl_buf *b = newbuf(cap); unsigned char *p = (unsigned char *)b->data; sym_bytes(p, cap, "octets");
    p[0] = 0x80 | (p[0] & 0x40) | xl << 4 | ml;
    if (ml <= 8) {
        unsigned fb = 8 * ml; size_t k = sym_choose(0, fb, "leading"), t = 0; // leading one at bit k-1
        if (!xl && k) t = sym_choose(0, k - 1, "trailing");
        for (unsigned i = 0; i < fb; i++) {
            unsigned char bit = 1u << (i & 7), *q = p + 1 + xl + (i >> 3);
            if (i >= k) *q &= ~bit; else if (i == k - 1) *q |= bit;
            else if (!xl && i < t) *q &= ~bit; else if (!xl && i == t) *q |= bit;
        }
    }
    val v = { 0, 0, 0, 0, 0 }; if (ml <= 8) v = ext(p, xl, ml);
    int64_t e; uint64_t got, want;
    if (f32) { float o = flt(77); if (byval) { f32_result q = crefl_vf_f32_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f32_read(b, &o); got = bitsf(o); want = v.ok ? to32(v) : 0; }
    else { double o = dbl(77); if (byval) { f64_result q = crefl_vf_f64_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f64_read(b, &o); got = bits(o); want = v.ok ? to64(v) : 0; }
    sym_assert(e == (v.ok ? 0 : -1), "well formed encodings are accepted and malformed ones refused");
    sym_assert(got == want, "an encoding decodes to the value it denotes, truncated, or infinity when too large");
    if (v.ok) sym_assert(crefl_buf_offset(b) == cap, "decoding consumes the encoding");
    crefl_buf_destroy(b);
}
HARNESS vf_inline()
{
    warm_up();
    unsigned h = sym_u8("header") & 0x7f, byval = (unsigned)sym_choose(0, 1, "byval"), f32 = (unsigned)sym_choose(0, 1, "f32");
    h = (unsigned)sym_concretize(h); crefl_buf *b = newbuf(1); b->data[0] = (char)h; int64_t e; uint64_t got, want; val v = float7(h);
    if (f32) { float o = flt(77); if (byval) { f32_result q = crefl_vf_f32_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f32_read(b, &o); got = bitsf(o); want = to32(v); }
    else { double o = dbl(77); if (byval) { f64_result q = crefl_vf_f64_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f64_read(b, &o); got = bits(o); want = to64(v); }
    sym_assert((e == 0) & (got == want) & (crefl_buf_offset(b) == 1), "a float7 header decodes to its value");
    crefl_buf_destroy(b);
}
HARNESS vf_short()
{
    warm_up();
    unsigned f32 = (unsigned)sym_choose(0, 1, "f32"), byval = (unsigned)sym_choose(0, 1, "byval"), cap = (unsigned)sym_choose(0, 9, "cap");
    crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    if (cap) { unsigned h = U8P(b)[0]; sym_assume((h & 0x80) && cap < 1 + (h >> 4 & 3) + (h & 15)); }
    int64_t e; uint64_t got;
    if (f32) { float o = flt(77); if (byval) { f32_result q = crefl_vf_f32_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f32_read(b, &o); got = bitsf(o); }
    else { double o = dbl(77); if (byval) { f64_result q = crefl_vf_f64_read_byval(b); o = q.value; e = q.error; } else e = crefl_vf_f64_read(b, &o); got = bits(o); }
    sym_assert((e == -1) & (got == 0), "an encoding that extends past the end of the input is refused");
    crefl_buf_destroy(b);
}
