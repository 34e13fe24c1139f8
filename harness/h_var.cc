// LEB128 and VLU variable length integers.
#include "asn1_util.h"

static int w_leb(crefl_buf *b, uint64_t v, int byval) { u64 t = v; return byval ? crefl_leb_u64_write_byval(b, v) : crefl_leb_u64_write(b, &t); }
static int w_vlu(crefl_buf *b, uint64_t v, int byval) { u64 t = v; return byval ? crefl_vlu_u64_write_byval(b, v) : crefl_vlu_u64_write(b, &t); }
static int64_t r_leb(crefl_buf *b, uint64_t *v, int byval) { if (!byval) { u64 t = *v; int r = crefl_leb_u64_read(b, &t); *v = t; return r; } u64_result r = crefl_leb_u64_read_byval(b); *v = r.value; return r.error; }
static int64_t r_vlu(crefl_buf *b, uint64_t *v, int byval) { if (!byval) { u64 t = *v; int r = crefl_vlu_u64_read(b, &t); *v = t; return r; } u64_result r = crefl_vlu_u64_read_byval(b); *v = r.value; return r.error; }

static size_t septets(uint64_t v) { size_t n = 1; for (size_t i = 1; i < 10; i++) n += (v >> (7 * i)) != 0; return n; }

HARNESS var_rt()
{
    warm_up();
    uint64_t v = sym_u64("value"); int vlu = (int)sym_choose(0, 1, "vlu"), bw = (int)sym_choose(0, 1, "bywrite"); size_t cap = sym_choose(0, 9, "cap"), at = sym_choose(0, 1, "offset");
    crefl_buf *b = newbuf(cap + at); memset(b->data, 0x5a, cap + at); crefl_buf_seek(b, at);
    int r = vlu ? w_vlu(b, v, bw) : w_leb(b, v, bw);
    size_t n = septets(v);
    if (v >> 56) { sym_cover("too large"); sym_assert(r == -1, "values of 2^56 and more are refused"); sym_assert(crefl_buf_offset(b) == at, "a refused value moves nothing"); }
    else if (n > cap) { sym_cover("no room"); sym_assert(r == -1, "a value that does not fit is refused"); sym_assert(crefl_buf_offset(b) == at, "a refused value moves nothing"); }
    else {
        sym_cover("written"); sym_assert(r == 0, "a value that fits is written");
        sym_assert(crefl_buf_offset(b) == at + n, "seven bits per octet");
        n = sym_concretize(n);
        const unsigned char *p = U8P(b) + at; int ok = 1;
        if (vlu) { uint64_t x = v << n | ((1ull << (n - 1)) - 1); for (size_t i = 0; i < n; i++) ok &= p[i] == (unsigned char)(x >> (8 * i)); }
        else for (size_t i = 0; i < n; i++) ok &= p[i] == (unsigned char)(((v >> (7 * i)) & 0x7f) | (i + 1 < n ? 0x80 : 0));
        sym_assert(ok, "the octets are those of the format");
        for (size_t i = n; i < cap; i++) sym_assert(p[i] == 0x5a, "octets after the value are left alone");
        for (int br = 0; br < 2; br++) {
            uint64_t o = ~v; crefl_buf_seek(b, at); int64_t e = vlu ? r_vlu(b, &o, br) : r_leb(b, &o, br);
            sym_assert((e == 0) & (o == v) & (crefl_buf_offset(b) == at + n), "a value reads back exactly");
        }
    }
    crefl_buf_destroy(b);
}
HARNESS var_read()
{
    warm_up();
    int vlu = (int)sym_choose(0, 1, "vlu"), br = (int)sym_choose(0, 1, "byread"); size_t cap = sym_choose(0, 10, "cap");
    crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets"); const unsigned char *p = U8P(b);
    size_t n = 0; uint64_t want = 0; int ok = 0;
    if (vlu) { if (cap) { for (n = 1; n <= 8 && (p[0] >> (n - 1) & 1); n++) ; ok = n <= 8 && n <= cap;
            if (ok) { uint64_t x = 0; for (size_t i = 0; i < n; i++) x |= (uint64_t)p[i] << (8 * i); want = x >> n; } } }
    else for (size_t i = 0; i < cap && i < 8; i++) { want |= (uint64_t)(p[i] & 0x7f) << (7 * i); n = i + 1; if (!(p[i] & 0x80)) { ok = 1; break; } }
    uint64_t o = 0x1234; int64_t e = vlu ? r_vlu(b, &o, br) : r_leb(b, &o, br);
    if (ok) { sym_cover("accepted"); sym_assert((e == 0) & (o == want), "octets decode to the value they denote"); sym_assert(crefl_buf_offset(b) == n, "decoding consumes exactly the value"); }
    else { sym_cover("refused"); sym_assert((e == -1) & (o == 0), "truncated values and values of more than eight octets are refused"); }
    crefl_buf_destroy(b);
}
