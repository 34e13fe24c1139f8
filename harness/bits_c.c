/* the C11 selections of bits.h and endian.h */
#include <stdint.h>
#include <crefl/endian.h>
#include <crefl/bits.h>
#define F(op) unsigned c_##op##_u32(unsigned x) { return op(x); } unsigned c_##op##_s32(int x) { return op(x); } unsigned c_##op##_u64(unsigned long long x) { return op(x); } unsigned c_##op##_s64(long long x) { return op(x); }
F(clz) F(ctz) F(popcnt)
#define G(f, T) T c_##f(T x) { return f(x); }
G(bswap16, uint16_t) G(bswap32, uint32_t) G(bswap64, uint64_t)
G(be8, uint8_t) G(be16, uint16_t) G(be32, uint32_t) G(be64, uint64_t) G(le8, uint8_t) G(le16, uint16_t) G(le32, uint32_t) G(le64, uint64_t)
G(htobe16, uint16_t) G(htobe32, uint32_t) G(htobe64, uint64_t) G(htole16, uint16_t) G(htole32, uint32_t) G(htole64, uint64_t)
G(be16toh, uint16_t) G(be32toh, uint32_t) G(be64toh, uint64_t) G(le16toh, uint16_t) G(le32toh, uint32_t) G(le64toh, uint64_t)
/* htobe and friends cannot be used from C on Linux, where the functions they select are macros */
