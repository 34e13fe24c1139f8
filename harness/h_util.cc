// Text helpers: formatted strings, base names, octets and buffers drawn as text.
#include "sym.h"
#define VOUT 1400000
#include "vf_tool.inc"
#include <crefl/buf.h>
#include <crefl/util.h>
static std::string by_list(const char *fmt, ...) { va_list ap; va_start(ap, fmt); std::string r = string_vprintf(fmt, ap); va_end(ap); return r; }
static const int ROOM = 1400;
static char T[ROOM], U[8];
// a text of any length in the bounds, between others
HARNESS util_printf()
{
    int lo = (int)sym_param("from"), hi = (int)sym_param("to"), n = (int)sym_choose((uint64_t)lo, (uint64_t)hi, "length"), how = (int)sym_choose(0, 1, "how"), k = n < 6 ? n : 6;
    memset(T, 'x', (size_t)n); T[n] = 0; sym_bytes(T, (size_t)k, "start"); if (n > 6) sym_bytes(T + n - 1, 1, "end"); for (int i = 0; i < k; i++) sym_assume(T[i] != 0); if (n > 6) sym_assume(T[n - 1] != 0);
    size_t m = sym_choose(0, 2, "second length"); sym_bytes(U, m, "second"); for (size_t i = 0; i < m; i++) sym_assume(U[i] != 0); uint8_t h = sym_u8("octet");
    std::string s = how ? by_list("%s<%s>%02x", T, U, h) : string_printf("%s<%s>%02x", T, U, h);
    sym_assert(s.size() == (size_t)n + m + 4, "the text has its whole length"); int e = 1;
    for (int i = 0; i < n; i++) e &= s[(size_t)i] == T[i]; for (size_t i = 0; i < m; i++) e &= s[(size_t)n + 1 + i] == U[i];
    e &= s[(size_t)n] == '<' && s[(size_t)n + 1 + m] == '>'; const char *X = "0123456789abcdef"; e &= s[(size_t)n + m + 2] == X[h >> 4]; e &= s[(size_t)n + m + 3] == X[h & 15];
    sym_assert(e, "the text is what was formatted"); sym_assert(s.c_str()[s.size()] == 0, "the text is terminated"); if (s.size() > 255) sym_cover("longer than the first attempt");
    if (n == lo) { std::string z = how ? by_list("") : string_printf(""); sym_assert(z.empty(), "nothing formatted is the empty text"); }
}
HARNESS util_basename()
{
    size_t n = sym_choose(0, 7, "length"), o = 0; sym_bytes(U, n, "path"); std::string s(U, n), b = crefl_basename(s);
    for (size_t i = 0; i < n; i++) if (U[i] == '/' || U[i] == '\\') { o = i + 1; sym_cover("directory"); }
    sym_assert(b.size() == n - o, "the base name is what follows the last separator"); int e = 1; for (size_t i = o; i < n; i++) e &= b[i - o] == U[i]; sym_assert(e, "the base name is what follows the last separator");
}
// two bits at a time, most significant first, drawn as block characters of three octets
static const unsigned char GLYPH[4] = { 0x84, 0x9f, 0x99, 0x88 };
static int drawn(const char *p, uint8_t c) { int e = 1; for (int i = 0; i < 4; i++) { e &= (unsigned char)p[3 * i] == 0xe2; e &= (unsigned char)p[3 * i + 1] == 0x96; e &= (unsigned char)p[3 * i + 2] == GLYPH[c >> (6 - 2 * i) & 3]; } return e; }
HARNESS util_byte()
{
    size_t room = sym_choose(0, 20, "room"); uint8_t c = sym_u8("octet"); char *b = (char *)malloc(room); memset(b, 0x11, room); int n = crefl_format_byte(b, room, c);
    if (room >= 13) { sym_assert(n == 12 && b[12] == 0, "four characters"); sym_assert(drawn(b, c), "each character shows two bits"); for (size_t i = 13; i < room; i++) sym_assert(b[i] == 0x11, "nothing else is written"); sym_cover("room"); }
    else if (room) { sym_assert((size_t)n >= room, "a text cut short is reported by its length"); int z = 0; for (size_t i = 0; i < room; i++) z |= b[i] == 0; sym_assert(z, "a text cut short is terminated"); sym_cover("no room"); }
    free(b);
}
HARNESS util_dump()
{
    size_t n = sym_param("len"), pos = 0; crefl_buf *b = crefl_buf_new(n); for (size_t i = 0; i < n; i++) b->data[i] = (char)(i * 37 + 11); size_t at = 0; if (n > 64) { static const size_t off[] = { 1, 16, 17, 31 }; at = sym_choose(0, 1, "end") ? n - off[sym_choose(0, 3, "where")] : off[sym_choose(0, 3, "where")] - 1; } else if (n) at = sym_choose(0, n - 1, "where"); if (n) sym_bytes(b->data + at, 1, "octet"); b->data_offset = n; crefl_buf_dump(b); const char *o = vout[0], *X = "0123456789ABCDEF"; int e = 1;
    for (size_t r = 0; r < n; r += 16) {
        for (int i = 0; i < 6; i++) e &= o[pos++] == ' ';
        for (size_t j = r + 16; j-- > r;) if (j >= n) for (int i = 0; i < 5; i++) e &= o[pos++] == ' '; else { e &= !memcmp(o + pos, " 0x", 3); e &= o[pos + 3] == X[(uint8_t)b->data[j] >> 4]; e &= o[pos + 4] == X[b->data[j] & 15]; pos += 5; }
        e &= o[pos++] == '\n'; for (int i = 12; i >= 0; i -= 4) e &= o[pos++] == X[r >> i & 15]; e &= o[pos++] == ':' && o[pos++] == ' ';
        for (size_t j = r + 16; j-- > r;) { e &= o[pos++] == ' '; if (j < n) e &= drawn(o + pos, (uint8_t)b->data[j]); else e &= !memcmp(o + pos, "\xe2\x96\xa2\xe2\x96\xa2\xe2\x96\xa2\xe2\x96\xa2", 12); pos += 12; }
        e &= o[pos++] == '\n';
    }
    sym_assert(vlen[0] == pos, "sixteen octets to a row"); sym_assert(e, "each octet is shown in hex and as bits, the first of a row rightmost"); crefl_buf_destroy(b);
}
