// Identifier and length octets: canonical encoding, exact length functions, round trip, exact acceptance.
#include "asn1_util.h"

HARNESS tag_rt()
{
    warm_up();
    uint64_t v = sym_u64("tag"); size_t cap = sym_choose(0, 9, "cap");
    crefl_buf *b = newbuf(cap);
    int r = crefl_asn1_ber_tag_write(b, v);
    if (v >> 56) { sym_cover("too large"); sym_assert(r == -1 && crefl_buf_offset(b) == 0, "a tag number above 56 bits is refused"); crefl_buf_destroy(b); return; }
    size_t n = ref_b128_len(v);
    sym_assert(crefl_asn1_ber_tag_length(v) == n, "the tag length function gives the shortest base-128 length");
    if (n > cap) { sym_cover("no room"); sym_assert(r == -1, "a tag that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_cover("written");
    sym_assert(r == 0, "a tag that fits is written");
    sym_assert(crefl_buf_offset(b) == n, "the tag occupies its declared length");
    n = sym_concretize(n);
    sym_assert(ref_b128_bytes(v, n, U8P(b)), "tag octets are big endian base 128");
    crefl_buf_reset(b);
    uint64_t w = ~v; r = crefl_asn1_ber_tag_read(b, (u64*)&w);
    sym_assert((r == 0) & (w == v), "a tag reads back");
    sym_assert(crefl_buf_offset(b) == n, "reading a tag consumes what was written");
    crefl_buf_destroy(b);
}

HARNESS ident_rt()
{
    warm_up();
    uint64_t v = sym_u64("identifier"); sym_assume((v >> 56) == 0);
    uint8_t cls = sym_u8("class") & 3, cons = sym_u8("constructed") & 1; size_t cap = sym_choose(0, 9, "cap");
    asn1_id id; memset(&id, 0, sizeof id); id._identifier = v; id._constructed = cons; id._class = cls;
    size_t n = 1 + (v >= 31 ? ref_b128_len(v) : 0);
    sym_assert(crefl_asn1_ber_ident_length(id) == n, "the identifier length function is exact");
    crefl_buf *b = newbuf(cap);
    int r = crefl_asn1_ber_ident_write(b, id);
    if (n > cap) { sym_cover("no room"); sym_assert(r == -1, "an identifier that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_assert(r == 0, "an identifier that fits is written");
    sym_assert(crefl_buf_offset(b) == n, "the identifier occupies its declared length");
    n = sym_concretize(n);
    sym_assert(U8P(b)[0] == (unsigned char)((cls << 6) | (cons << 5) | (v < 31 ? v : 31)), "the leading octet holds class, form and low tag number");
    if (v >= 31) { sym_cover("high"); sym_assert(ref_b128_bytes(v, n - 1, U8P(b) + 1), "high tag numbers follow in base 128"); } else sym_cover("low");
    crefl_buf_reset(b);
    asn1_id o; memset(&o, 0x5a, sizeof o);
    sym_assert(crefl_asn1_ber_ident_read(b, &o) == 0, "a written identifier reads");
    sym_assert((o._identifier == v) & (o._constructed == cons) & (o._class == cls), "an identifier reads back with its class, form and number");
    sym_assert(crefl_buf_offset(b) == n, "reading an identifier consumes what was written");
    crefl_buf_destroy(b);
}

HARNESS length_rt()
{
    warm_up();
    uint64_t v = sym_u64("length"); size_t cap = sym_choose(0, 10, "cap");
    size_t n = ref_lenlen(v);
    sym_assert(crefl_asn1_ber_length_length(v) == n, "the length-of-length function is exact");
    crefl_buf *b = newbuf(cap);
    int r = crefl_asn1_ber_length_write(b, v);
    if (n > cap) { sym_cover("no room"); sym_assert(r == -1, "a length that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_assert(r == 0, "a length that fits is written");
    sym_assert(crefl_buf_offset(b) == n, "length octets occupy their declared length");
    n = sym_concretize(n);
    sym_assert(ref_len_bytes(v, n, U8P(b)), "length octets are the shortest definite form");
    if (n > 1) sym_cover("long"); else sym_cover("short");
    crefl_buf_reset(b);
    uint64_t w = ~v;
    sym_assert(crefl_asn1_ber_length_read(b, (u64*)&w) == 0, "a written length reads");
    sym_assert(w == v, "a length reads back");
    sym_assert(crefl_buf_offset(b) == n, "reading a length consumes what was written");
    crefl_buf_destroy(b);
}

// arbitrary octets: accepted exactly when well formed, with the reference value and consumption
HARNESS tag_read()
{
    warm_up();
    size_t cap = sym_choose(0, 10, "cap"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    const unsigned char *p = U8P(b); size_t n = 0; uint64_t v = 0; int ok = 0;
    while (n < cap && n < 8) { v = v << 7 | (p[n] & 0x7f); if (!(p[n++] & 0x80)) { ok = 1; break; } }
    uint64_t w = 0x1234; int r = crefl_asn1_ber_tag_read(b, (u64*)&w);
    if (ok) { sym_cover("accepted"); sym_assert((r == 0) & (w == v), "a terminated tag number of at most 56 bits reads its value"); sym_assert(crefl_buf_offset(b) == n, "a tag number consumes up to its last octet"); }
    else { sym_cover("refused"); sym_assert(r == -1, "an unterminated or over-long tag number is refused"); }
    crefl_buf_destroy(b);
}
HARNESS ident_read()
{
    warm_up();
    size_t cap = sym_choose(0, 10, "cap"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    const unsigned char *p = U8P(b); size_t n = 1; uint64_t v = 0; int ok = cap > 0;
    if (ok) { v = p[0] & 31; if (v == 31) { v = 0; ok = 0; while (n < cap && n < 9) { v = v << 7 | (p[n] & 0x7f); if (!(p[n++] & 0x80)) { ok = v >= 31; break; } } } }
    asn1_id o; memset(&o, 0, sizeof o); int r = crefl_asn1_ber_ident_read(b, &o);
    if (ok) {
        sym_cover("accepted"); sym_assert(r == 0, "a well formed identifier is accepted");
        sym_assert((o._identifier == v) & (o._class == (p[0] >> 6)) & (o._constructed == ((p[0] >> 5) & 1)), "identifier fields are those of the octets");
        sym_assert(crefl_buf_offset(b) == n, "an identifier consumes up to its last octet");
    } else { sym_cover("refused"); sym_assert(r == -1, "a malformed identifier is refused"); }
    crefl_buf_destroy(b);
}
HARNESS length_read()
{
    warm_up();
    size_t cap = sym_choose(0, 11, "cap"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    const unsigned char *p = U8P(b); size_t n = 1; uint64_t v = 0; int ok = cap > 0;
    if (ok) { if (p[0] < 0x80) v = p[0]; else { size_t k = sym_concretize(p[0] & 0x7f); ok = k >= 1 && k <= 8 && k < cap; if (ok) for (size_t i = 0; i < k; i++) v = v << 8 | p[n++]; } }
    uint64_t w = 77; int r = crefl_asn1_ber_length_read(b, (u64*)&w);
    if (ok) { sym_cover("accepted"); sym_assert((r == 0) & (w == v), "a definite length of at most 64 bits reads its value"); sym_assert(crefl_buf_offset(b) == n, "a length consumes its octets"); }
    else { sym_cover("refused"); sym_assert(r == -1, "an indefinite, over-long or truncated length is refused"); }
    crefl_buf_destroy(b);
}
