// Bit counting and octet order helpers, as C++ and C programs and other compilers see them.
#include "sym.h"
#include <crefl/endian.h>
#include <crefl/bits.h>
extern "C" {
#define F(op) unsigned c_##op##_u32(unsigned x); unsigned c_##op##_s32(int x); unsigned c_##op##_u64(unsigned long long x); unsigned c_##op##_s64(long long x); unsigned f_##op##_u32(unsigned x); unsigned f_##op##_u64(unsigned long long x);
F(clz) F(ctz) F(popcnt)
#undef F
#define ENDS(X) X(bswap16, uint16_t, 0) X(bswap32, uint32_t, 0) X(bswap64, uint64_t, 0) \
    X(be8, uint8_t, 1) X(be16, uint16_t, 1) X(be32, uint32_t, 1) X(be64, uint64_t, 1) X(le8, uint8_t, 2) X(le16, uint16_t, 2) X(le32, uint32_t, 2) X(le64, uint64_t, 2) \
    X(htobe16, uint16_t, 1) X(htobe32, uint32_t, 1) X(htobe64, uint64_t, 1) X(htole16, uint16_t, 2) X(htole32, uint32_t, 2) X(htole64, uint64_t, 2) \
    X(be16toh, uint16_t, 1) X(be32toh, uint32_t, 1) X(be64toh, uint64_t, 1) X(le16toh, uint16_t, 2) X(le32toh, uint32_t, 2) X(le64toh, uint64_t, 2)
#define D(f, T, k) T c_##f(T x); T f_##f(T x);
ENDS(D)
#define GEN(X) X(htobe, 1) X(betoh, 1) X(htole, 2) X(letoh, 2)
#define D2(f, p) short p##_##f##_s16(short); unsigned short p##_##f##_u16(unsigned short); int p##_##f##_s32(int); unsigned p##_##f##_u32(unsigned); long p##_##f##_sl(long); unsigned long p##_##f##_ul(unsigned long); long long p##_##f##_sll(long long); unsigned long long p##_##f##_ull(unsigned long long);
#define D3(g, k) D2(g, f)
GEN(D3)
}
// the counts, defined bit by bit
static unsigned lead(uint64_t x, int w) { unsigned n = 0, live = 1; for (int i = w - 1; i >= 0; i--) { live &= !(x >> i & 1); n += live; } return n; }
static unsigned trail(uint64_t x, int w) { unsigned n = 0, live = 1; for (int i = 0; i < w; i++) { live &= !(x >> i & 1); n += live; } return n; }
static unsigned ones(uint64_t x, int w) { unsigned n = 0; for (int i = 0; i < w; i++) n += x >> i & 1; return n; }
HARNESS bits_count()
{
    int op = (int)sym_param("op"), wide = (int)sym_param("wide"); uint64_t x = wide ? sym_u64("x") : sym_u32("x"); int w = wide ? 64 : 32;
    unsigned want = op == 0 ? lead(x, w) : op == 1 ? trail(x, w) : ones(x, w);
    const char *msg = op == 0 ? "leading zeros, all of them for zero" : op == 1 ? "trailing zeros, all of them for zero" : "set bits";
#define ALL(f) if (!wide) { sym_assert(f##_u32((unsigned)x) == want, msg); sym_assert(f((unsigned)x) == want, msg); sym_assert(f((int)x) == want, msg); sym_assert(c_##f##_u32((unsigned)x) == want, msg); sym_assert(c_##f##_s32((int)x) == want, msg); sym_assert(f_##f##_u32((unsigned)x) == want, msg); } \
    else { sym_assert(f##_u64(x) == want, msg); sym_assert(f((unsigned long)x) == want, msg); sym_assert(f((long)x) == want, msg); sym_assert(f((unsigned long long)x) == want, msg); sym_assert(f((long long)x) == want, msg); sym_assert(c_##f##_u64(x) == want, msg); sym_assert(c_##f##_s64((long long)x) == want, msg); sym_assert(f_##f##_u64(x) == want, msg); }
    if (op == 0) { ALL(clz) } else if (op == 1) { ALL(ctz) } else { ALL(popcnt) }
}
template <typename T> static T swapped(T x) { T r = 0; for (unsigned i = 0; i < sizeof(T); i++) r = (T)(r << 8 | (x >> 8 * i & 0xff)); return r; }
template <typename T> static void order(T x, T y, int kind)
{
    if (kind == 0) { sym_assert(y == swapped(x), "the octets are reversed"); return; }
    const uint8_t *p = (const uint8_t *)&y;
    for (unsigned i = 0; i < sizeof(T); i++) sym_assert(p[i] == (uint8_t)(x >> 8 * (kind == 1 ? sizeof(T) - 1 - i : i)), kind == 1 ? "the most significant octet is first in memory" : "the least significant octet is first in memory");
}
HARNESS bits_endian()
{
    uint64_t x = sym_u64("x");
#define D(f, T, k) order<T>((T)x, f((T)x), k); order<T>((T)x, c_##f((T)x), k); order<T>((T)x, f_##f((T)x), k);
    ENDS(D)
#define E2(f, p, k) order<unsigned short>((unsigned short)x, (unsigned short)p##_##f##_s16((short)x), k); order<unsigned short>((unsigned short)x, p##_##f##_u16((unsigned short)x), k); order<unsigned>((unsigned)x, (unsigned)p##_##f##_s32((int)x), k); order<unsigned>((unsigned)x, p##_##f##_u32((unsigned)x), k); \
    order<uint64_t>(x, (uint64_t)p##_##f##_sl((long)x), k); order<uint64_t>(x, p##_##f##_ul(x), k); order<uint64_t>(x, (uint64_t)p##_##f##_sll((long long)x), k); order<uint64_t>(x, p##_##f##_ull(x), k);
#define E3(g, k) E2(g, f, k) order<unsigned short>((unsigned short)x, (unsigned short)g((short)x), k); order<unsigned short>((unsigned short)x, g((unsigned short)x), k); order<unsigned>((unsigned)x, (unsigned)g((int)x), k); order<unsigned>((unsigned)x, g((unsigned)x), k); \
    order<uint64_t>(x, (uint64_t)g((long)x), k); order<uint64_t>(x, g((unsigned long)x), k); order<uint64_t>(x, (uint64_t)g((long long)x), k); order<uint64_t>(x, g((unsigned long long)x), k);
    GEN(E3)
}
