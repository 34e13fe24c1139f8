// asn1tool --dump on arbitrary files.
#include "sym.h"
#include "vf_tool.inc"
#define main tool_main
#include <tool/asn1tool.cc>
#undef main
extern "C" const char *crefl_asn1_oid_desc(const char *oid, size_t len) { unsigned char x = 0; for (size_t i = 0; i < len; i++) x ^= (unsigned char)oid[i]; sym_assume(x >= 0); return "desc"; }

static uint8_t F[700]; static size_t N; static char want[6000]; static size_t wlen; static int bad;
static void w(const char *fmt, ...) { va_list ap; va_start(ap, fmt); wlen += (size_t)vsnprintf(want + wlen, sizeof want - wlen, fmt, ap); va_end(ap); }
static void wraw(const uint8_t *p, size_t n) { memcpy(want + wlen, p, n); wlen += n; }
static void pad(int n) { while (n-- > 0) want[wlen++] = ' '; }
static const char *TAGS[32] = { "reserved", "boolean", "integer", "bit_string", "octet_string", "null", "object_identifier", "object_descriptor", "external", "real", "enumerated", "embedded_pdv", "utf8_string", "relative_oid", "reserved_14", "reserved_15", "sequence", "set", "numeric_string", "printable_string", "t61_string", "reserved_21", "ia5_string", "utc_time", "generalized_time", "graphic_string", "iso646_string", "general_string", "utf32_string", "reserved_29", "utf16_string", "reserved_31" };
// the element at off, which has to end by limit; -> its end, with its line (and those of its children) in want
static size_t element(size_t off, size_t limit, int depth, int all)
{
    if (off >= N) { bad = 1; return off; }
    uint8_t id = F[off++]; uint64_t tag = id & 31;
    if (tag == 31) { tag = 0; int k = 0; for (;;) { if (k == 8 || off >= N) { bad = 1; return off; } uint8_t b = F[off++]; tag = tag << 7 | (b & 127); k++; if (!(b & 128)) break; } if (tag < 31) { bad = 1; return off; } }
    if (off >= N) { bad = 1; return off; }
    uint64_t len = F[off++];
    if (len & 128) { int k = (int)sym_concretize(len & 127); len = 0; if (!k || k > 8) { bad = 1; return off; } while (k--) { if (off >= N) { bad = 1; return off; } len = len << 8 | F[off++]; } }
    if (off > limit || len > limit - off) { bad = 1; return off; }
    len = sym_concretize(len);
    if (tag < 32) tag = sym_concretize(tag);
    if (!all) sym_assume(tag == 0 || tag == 2 || tag == 6 || tag == 16 || tag == 19 || tag >= 32);
    w("[%5zu;%-5llu]", off, (unsigned long long)len); pad(2 * depth); w("|-%c%-20s", id & 32 ? '*' : ' ', tag < 32 ? TAGS[tag] : "<unknown>");
    size_t end = off + len; int un = depth < 15 ? 30 - 2 * depth : 0;
    if (tag == 16 || tag == 17) { w("\n"); while (off < end && !bad) off = element(off, end, depth + 1, all); if (bad) return off; sym_cover("sequence"); }
    else if (tag == 6) {
        static char o[600]; asn1_oid obj; memset(&obj, 0, sizeof obj); crefl_buf *b = crefl_buf_new(len); memcpy(b->data, F + off, len); crefl_asn1_ber_oid_read(b, len, &obj); crefl_buf_destroy(b);
        size_t n = sizeof o; crefl_asn1_oid_to_string(o, &n, &obj); pad(un); w("desc (%s)\n", o); sym_cover("object identifier");
    }
    else if (tag == 9 || tag == 2 || tag == 3) { pad(un); w("{"); for (size_t i = 0; i < len; i++) w(i ? ",%02x" : "%02x", F[off + i]); w("}\n"); }
    else if (tag == 23 || tag == 19) { pad(un); w("\""); size_t z = 0; while (z < len && F[off + z]) z++; wraw(F + off, z); w("\"\n"); sym_cover("text"); }
    else w("\n");
    return end;
}
static void judge(int code)
{
    sym_assert(vopened == 0, "the file is closed");
    if (bad) { sym_cover("malformed"); sym_assert(vlen[1] > 0, "malformed input is reported"); }
    else { sym_cover("well formed"); sym_assert(vlen[1] == 0, "well formed input is not reported as malformed"); sym_assert(code == 0, "success"); }
    sym_assert(vlen[0] == wlen, "one line for each element"); int e = 1; for (size_t i = 0; i < wlen; i++) e &= vout[0][i] == want[i];
    sym_assert(e, "each line has the offset, length, nesting, name and contents of its element");
}
static void run() { vput(&vfiles[0], "in", F, N, N); const char *argv[] = { "asn1tool", "--dump", "in", 0 }; vrun((int (*)(int, const char **))tool_main, 3, argv, judge); }
static void walk(int all) { size_t o = 0; do o = element(o, N, 0, all); while (!bad && o < N); }
HARNESS asn1_dump()
{
    N = sym_param("len"); sym_bytes(F, N, "file"); if (sym_param("kind") < 32) sym_assume((F[0] & 31) == sym_param("kind")); walk((int)sym_param("all")); run();
}
// nesting to any depth the file has room for
HARNESS asn1_nest()
{
    int depth = (int)sym_param("depth"); N = 2 * (size_t)depth + 3; for (int i = 0; i < depth; i++) { F[2 * i] = (sym_u8("class") & 0xc0) | 0x30; F[2 * i + 1] = (uint8_t)(N - 2 * i - 2); }
    if (depth < 3) sym_bytes(F + 2 * depth, 3, "inner"); else { F[2 * depth] = 2; F[2 * depth + 1] = 1; F[2 * depth + 2] = sym_u8("inner"); } if (sym_choose(0, 1, "shorter")) { int at = (int)sym_choose(0, (uint64_t)depth - 1, "at"); F[2 * at + 1] = sym_u8("length"); sym_assume(F[2 * at + 1] < 128); } walk(0); run();
}
HARNESS asn1_missing()
{
    N = 3; F[0] = 2; F[1] = 1; F[2] = sym_u8("octet"); int how = (int)sym_choose(0, 4, "how"); vfiles[0].name = "in"; const char *argv[] = { "asn1tool", "--dump", "in", 0 };
    if (how) { vput(&vfiles[0], "in", F, N, N); fault = how - 1; }
    if (how == 1) { w("[%5zu;%-5llu]|- %-20s", (size_t)2, 1ull, "integer"); pad(30); w("{%02x}\n", F[2]); } else bad = 1;
    vrun((int (*)(int, const char **))tool_main, 3, argv, judge);
}
// one long element in a sequence, followed by a short one; two of its octets are arbitrary
HARNESS asn1_long()
{
    size_t n = sym_param("len"), o = 0, m, form = sym_param("form"); static const uint8_t IDS[] = { 9, 2, 3, 6, 19, 23, 4, 12, 0x5f }; size_t k = sym_choose(0, 8, "kind");
    size_t lo = form == 0 ? (n < 128 ? 1 : n < 256 ? 2 : 3) : form == 1 ? 4 : 9, body = (k == 8 ? 3 : 1) + lo + n + 3, cut = sym_choose(0, 5, "cut"); if (cut == 1) body -= 4; if (cut == 2) body -= 3 + n; // the sequence ends within the element
    F[o++] = 0x30; F[o++] = 0x82; F[o++] = (uint8_t)(body >> 8); F[o++] = (uint8_t)body; if (k == 8) { F[o++] = 0x5f; F[o++] = 0x88; F[o++] = 0x37; } else F[o++] = IDS[k];
    if (lo == 1) F[o++] = (uint8_t)n; else { F[o++] = (uint8_t)(0x80 | (lo - 1)); for (size_t i = lo - 1; i-- > 0;) F[o++] = i < 8 ? (uint8_t)((uint64_t)n >> (8 * i)) : 0; }
    m = o; for (size_t i = 0; i < n; i++) F[o++] = k == 3 ? (uint8_t)(i % 6 == 5 ? 1 + i % 100 : i % 3 == 2 ? 0x10 + i % 7 : 0x81 + i % 50) : (uint8_t)(33 + i % 90); if (k == 3 && n) F[o - 1] = 7;
    if (n && k != 3) { sym_bytes(F + m, 1, "first"); sym_bytes(F + o - 1, 1, "last"); } F[o++] = 2; F[o++] = 1; F[o++] = sym_u8("next"); N = cut == 3 ? o - 4 : cut == 4 ? o - 1 : cut == 5 ? m : o; walk(1); run();
}
