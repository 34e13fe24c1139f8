/* the portable versions of bits.h and endian.h, as a compiler other than GCC and MSVC on another system sees them */
#include <stdint.h>
#undef __GNUC__
#undef __GLIBC__
#undef __linux__
#undef BYTE_ORDER
#undef LITTLE_ENDIAN
#undef BIG_ENDIAN
#undef __BYTE_ORDER
#undef __LITTLE_ENDIAN
#undef __BIG_ENDIAN
#define bswap16 fb_bswap16
#define bswap32 fb_bswap32
#define bswap64 fb_bswap64
#include <crefl/endian.h>
#include <crefl/bits.h>
#define F(op) unsigned f_##op##_u32(unsigned x) { return op##_u32(x); } unsigned f_##op##_u64(unsigned long long x) { return op##_u64(x); }
F(clz) F(ctz) F(popcnt)
#define G(f, T) T f_##f(T x) { return f(x); }
uint16_t f_bswap16(uint16_t x) { return fb_bswap16(x); } uint32_t f_bswap32(uint32_t x) { return fb_bswap32(x); } uint64_t f_bswap64(uint64_t x) { return fb_bswap64(x); }
G(be8, uint8_t) G(be16, uint16_t) G(be32, uint32_t) G(be64, uint64_t) G(le8, uint8_t) G(le16, uint16_t) G(le32, uint32_t) G(le64, uint64_t)
G(htobe16, uint16_t) G(htobe32, uint32_t) G(htobe64, uint64_t) G(htole16, uint16_t) G(htole32, uint32_t) G(htole64, uint64_t)
G(be16toh, uint16_t) G(be32toh, uint32_t) G(be64toh, uint64_t) G(le16toh, uint16_t) G(le32toh, uint32_t) G(le64toh, uint64_t)
#define H(f) short f_##f##_s16(short x) { return f(x); } unsigned short f_##f##_u16(unsigned short x) { return f(x); } int f_##f##_s32(int x) { return f(x); } unsigned f_##f##_u32(unsigned x) { return f(x); } long f_##f##_sl(long x) { return f(x); } unsigned long f_##f##_ul(unsigned long x) { return f(x); } long long f_##f##_sll(long long x) { return f(x); } unsigned long long f_##f##_ull(unsigned long long x) { return f(x); }
H(htobe) H(htole) H(betoh) H(letoh)
