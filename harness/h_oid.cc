// Object identifiers: BER contents, DER, dotted text.
#include "asn1_util.h"
#include <stdio.h>

static size_t sub_bytes(unsigned char *o, uint64_t v) { size_t n = sym_concretize(ref_b128_len(v)); sym_assert(crefl_asn1_ber_tag_length(v) == n, "seven bits per octet"); for (size_t i = 0; i < n; i++) o[i] = (unsigned char)(((v >> (7 * (n - 1 - i))) & 0x7f) | (i + 1 != n ? 0x80 : 0)); return n; }
// a valid object identifier: the first two arcs and one other arc of any width up to maxbits, the remaining arcs one octet
static void any_oid(asn1_oid *o, size_t count, unsigned maxbits)
{
    memset(o, 0, sizeof *o); o->count = count;
    size_t wide = count > 3 ? sym_choose(1, count - 1, "wide") : 2;
    for (size_t i = 0; i < count; i++) { o->oid[i] = sym_u64("arc"); if (i == wide || i == 1 && wide == 2) sym_assume(!(o->oid[i] >> maxbits)); else sym_assume(o->oid[i] - 1 < (i == 1 ? 39 : 127)); }
    if (count) { o->oid[0] = sym_choose(0, 2, "first"); }
    if (count > 1) { if (o->oid[0] < 2) sym_assume(o->oid[1] < 40); else sym_assume(o->oid[1] + 80 < 1ull << 56); }
    for (size_t i = 2; i < count; i++) if (i != wide && o->oid[i] == 0) abort();
}
static int same(const asn1_oid *a, const asn1_oid *b) { int r = a->count == b->count; for (size_t i = 0; i < asn1_oid_comp_max; i++) r &= (i >= a->count) | (a->oid[i] == b->oid[i]); return r; }

HARNESS oid_rt()
{
    warm_up();
    size_t count = sym_param("count"); asn1_oid o, q; any_oid(&o, count, (unsigned)sym_param("bits"));
    unsigned char ref[160]; size_t rn = 0;
    for (size_t i = 1; i < count; i++) rn += sub_bytes(ref + rn, i == 1 ? o.oid[0] * 40 + o.oid[1] : o.oid[i]);
    crefl_buf *b = newbuf(rn + 4);
    size_t n = crefl_asn1_ber_oid_length(&o);
    sym_assert(n == rn, "the length is the sum of the subidentifier lengths");
    sym_assert(crefl_asn1_ber_oid_write(b, n, &o) == 0, "an object identifier is written");
    sym_assert(crefl_buf_offset(b) == rn, "contents have exactly the declared length");
    int ok = 1; for (size_t i = 0; i < rn; i++) ok &= U8P(b)[i] == ref[i];
    sym_assert(ok, "contents are base 128 subidentifiers, the first two arcs combined");
    crefl_buf_reset(b); memset(&q, 0x77, sizeof q);
    sym_assert(crefl_asn1_ber_oid_read(b, rn, &q) == 0, "written contents read");
    sym_assert(same(&o, &q), "an object identifier reads back arc for arc");
    sym_assert(crefl_buf_offset(b) == rn, "reading consumes the contents");
    crefl_buf_destroy(b);
}
HARNESS oid_der()
{
    warm_up();
    size_t count = sym_param("count"); asn1_oid o, q; any_oid(&o, count, (unsigned)sym_param("bits"));
    unsigned char ref[160]; size_t rn = 0;
    for (size_t i = 1; i < count; i++) rn += sub_bytes(ref + rn, i == 1 ? o.oid[0] * 40 + o.oid[1] : o.oid[i]);
    crefl_buf *b = newbuf(200);
    sym_assert(crefl_asn1_der_oid_write(b, asn1_tag_object_identifier, &o) == 0, "a DER object identifier is written");
    size_t n = crefl_buf_offset(b), c = crefl_asn1_ber_oid_length(&o), h = c < 128 ? 2 : 3;
    sym_assert((U8P(b)[0] == 6) & (n == h + c) & (h == 2 ? U8P(b)[1] == c : (U8P(b)[1] == 0x81) & (U8P(b)[2] == c)), "tag, length, contents");
    crefl_buf_reset(b); memset(&q, 0x77, sizeof q);
    sym_assert((crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &q) == 0) & (crefl_buf_offset(b) == n), "a DER object identifier is consumed exactly");
    sym_assert(same(&o, &q), "an object identifier reads back arc for arc");
    crefl_buf_destroy(b);
}
// arbitrary contents
HARNESS oid_read()
{
    warm_up();
    size_t len = sym_param("len"), cap = len + sym_choose(0, 1, "more"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets"); const unsigned char *p = U8P(b);
    uint64_t sub[20]; size_t ns = 0; int ok = 1; size_t i = 0;
    while (i < len && ok) {
        uint64_t v = 0; size_t k = 0; int end = 0;
        while (i < len && k < 8 && !end) { v = v << 7 | (p[i] & 0x7f); end = !(p[i] & 0x80); i++; k++; }
        if (!end) ok = 0; else sub[ns++] = v;
    }
    asn1_oid q; memset(&q, 0x77, sizeof q);
    int r = crefl_asn1_ber_oid_read(b, len, &q);
    sym_assert(r == (ok ? 0 : -1), "well formed contents are accepted, truncated and oversized subidentifiers refused");
    if (ok && ns) {
        sym_cover("accepted");
        uint64_t a = sub[0] < 40 ? 0 : sub[0] < 80 ? 1 : 2;
        sym_assert(q.count == ns + 1, "one arc per subidentifier, two for the first");
        sym_assert((q.oid[0] == a) & (q.oid[1] == sub[0] - 40 * a), "the first subidentifier holds the first two arcs");
        for (size_t j = 1; j < ns && j + 1 < asn1_oid_comp_max; j++) sym_assert(q.oid[j + 1] == sub[j], "arcs decode to their subidentifiers");
        sym_assert(crefl_buf_offset(b) == len, "decoding consumes exactly the contents");
    }
    if (!ok) { sym_cover("refused"); sym_assert(q.count == 0, "refused contents leave no arcs"); }
    crefl_buf_destroy(b);
}
// more arcs than an asn1_oid holds
HARNESS oid_many()
{
    warm_up();
    size_t len = sym_choose(15, 18, "len"); crefl_buf *b = newbuf(len); sym_bytes(b->data, len, "octets");
    for (size_t i = 0; i < len; i++) if (i > 1 && i + 2 < len) ((unsigned char *)b->data)[i] = (unsigned char)(i * 7); else sym_assume(!(U8P(b)[i] & 0x80));
    struct { asn1_oid q; unsigned char after[32]; } s; memset(&s, 0x77, sizeof s);
    int r = crefl_asn1_ber_oid_read(b, len, &s.q);
    int ok = 1; for (size_t i = 0; i < sizeof s.after; i++) ok &= s.after[i] == 0x77;
    sym_assert(ok, "arcs beyond the capacity are not stored");
    sym_assert((r == 0) & (s.q.count == len + 1), "the count tells how many arcs there were");
    crefl_buf *c = newbuf(64); size_t n = crefl_asn1_ber_oid_length(&s.q); sym_assert(n <= 64, "bounded length");
    if (s.q.count > asn1_oid_comp_max) sym_assert(crefl_asn1_ber_oid_write(c, n, &s.q) == -1, "an object identifier whose arcs are not all held cannot be written");
    crefl_buf_destroy(b); crefl_buf_destroy(c);
}
// text -> arcs, every string of the given length; each prefix in turn, so that the solver sees one character at a time
static int ref_parse(const char *s, size_t n, uint64_t *arc, size_t *count)
{
    size_t cnt = 0; int ok = 1; uint64_t v = 0; size_t nd = 0;
    for (size_t i = 0; i < n && ok; i++) {
        if (s[i] == '.') { if (!nd) ok = 0; else { arc[cnt++] = v; v = 0; nd = 0; } }
        else if (s[i] >= '0' && s[i] <= '9') { if (nd && !v) { ok = 0; break; } uint64_t w = v * 10 + (s[i] - '0'); if (w >> 56) ok = 0; else { v = w; nd++; } }
        else ok = 0;
    }
    if (ok && nd) arc[cnt++] = v;
    *count = cnt; return ok;
}
static int check_parse(const char *s, size_t n, asn1_oid *o)
{
    uint64_t arc[40]; size_t cnt; int ok = ref_parse(s, n, arc, &cnt);
    memset(o, 0x77, sizeof *o);
    int r = crefl_asn1_oid_from_string(o, s, n);
    sym_assert(r == (ok ? 0 : -1), "exactly dot separated decimal arcs below 2^56 without leading zeros are accepted");
    sym_assert(o->count == cnt, "one arc per number");
    for (size_t i = 0; i < cnt && i < asn1_oid_comp_max; i++) sym_assert(o->oid[i] == arc[i], "arcs have the values written");
    return ok;
}
HARNESS oid_parse()
{
    warm_up();
    size_t n = sym_param("len"); char *s = (char *)malloc(n); sym_bytes(s, n, "text"); asn1_oid o; int ok = 1; // not terminated
    for (size_t k = 0; k <= n && ok; k++) { char *t = (char *)malloc(k); memcpy(t, s, k); ok = check_parse(t, k, &o); free(t); }
    if (ok) sym_cover("accepted"); else sym_cover("refused");
    free(s);
}
// long numbers: one arc of n digits; each prefix first, so that the solver sees one digit at a time
HARNESS oid_parse_long()
{
    warm_up();
    size_t n = sym_param("len"), pre = sym_choose(0, 1, "second"); char s[32]; size_t k = 0; if (pre) { s[k++] = '2'; s[k++] = '.'; }
    uint64_t v = 0; int big = 0;
    for (size_t i = 0; i < n; i++) {
        unsigned char d = sym_u8("digit") & 15; sym_assume(d <= 9); if (!i) sym_assume(d != 0); s[k++] = (char)('0' + d);
        if (!big) { uint64_t w = v * 10 + d; if (w >> 56) big = 1; else v = w; }
        asn1_oid o; memset(&o, 0x77, sizeof o);
        int r = crefl_asn1_oid_from_string(&o, s, k);
        if (big) sym_assert((r == -1) & (o.count == pre), "arcs of 2^56 and more are refused");
        else { sym_assert((r == 0) & (o.count == pre + 1), "arcs below 2^56 are accepted"); sym_assert(o.oid[pre] == v, "a long arc has the value written"); }
    }
}
// texts of more arcs than an asn1_oid holds, one of them long or malformed, the next of two arbitrary characters
HARNESS oid_parse_many()
{
    warm_up();
    static const char *const KIND[] = { "0", "72057594037927935", "72057594037927936", "00", "9", "" };
    size_t count = sym_param("count"), p = sym_choose(10, count - 1, "which"), k = sym_choose(0, 5, "kind"), n = 0; char s[160];
    for (size_t i = 0; i < count; i++) {
        if (i) s[n++] = '.';
        if (i == p) { for (const char *t = KIND[k]; *t; t++) s[n++] = *t; } else if (i == p + 1) { sym_bytes(s + n, 2, "next"); n += 2; } else s[n++] = '2';
    }
    char *t = (char *)malloc(n); memcpy(t, s, n); asn1_oid o; if (check_parse(t, n, &o)) { if (o.count > asn1_oid_comp_max) sym_cover("beyond the capacity"); } free(t);
}
// arcs -> text -> arcs
HARNESS oid_text()
{
    warm_up();
    size_t count = sym_param("count"), from = sym_param("wide"); asn1_oid o, q; memset(&o, 0, sizeof o); o.count = count;
    for (size_t i = 0; i < count; i++) { o.oid[i] = i == from ? sym_u64("arc") : i == 3 ? 0 : 999 * i + 1; if (i == from) sym_assume(!(o.oid[i] >> 56)); }
    char s[300]; size_t n = sizeof s;
    sym_assert(crefl_asn1_oid_to_string(s, &n, &o) == 0, "an object identifier prints");
    n = sym_concretize(n); sym_assert(n < sizeof s, "bounded text"); sym_assert(strlen(s) == n, "the length is that of the text");
    for (size_t k = 1; k <= n; k++) sym_assert(check_parse(s, k, &q), "printed text parses");
    sym_assert(same(&o, &q), "printed text denotes the same object identifier");
    size_t n0 = 0; sym_assert((crefl_asn1_oid_to_string(NULL, &n0, &o) == 0) & (n0 == n), "without a buffer the length is returned");
}
HARNESS oid_text_bound()
{
    warm_up();
    static const uint64_t arcs[] = { 2, 999, 0, 72057594037927935ull, 7, 1, 12, 113549, 840, 5, 6, 7, 8, 9, 10, 11, 12, 13 };
    size_t count = sym_choose(0, 17, "count"), cap = sym_choose(0, 70, "cap"); asn1_oid o; memset(&o, 0, sizeof o); o.count = count;
    for (size_t i = 0; i < count && i < asn1_oid_comp_max; i++) o.oid[i] = arcs[i];
    char full[200]; size_t fn = sizeof full; crefl_asn1_oid_to_string(full, &fn, &o);
    char *t = (char *)malloc(cap); size_t n = cap; int r = crefl_asn1_oid_to_string(t, &n, &o);
    sym_assert((r == 0) & (n == fn), "the length of the whole text is returned");
    for (size_t i = 0; i < cap && i <= fn; i++) sym_assert(t[i] == (i + 1 == cap ? 0 : full[i]), "a short buffer holds the beginning of the text, terminated");
    free(t);
}
