// Octet strings, booleans and null: BER contents and DER values.
#include "asn1_util.h"

// any length argument, any user buffer size, any contents
HARNESS octets_read()
{
    warm_up();
    size_t cap = sym_choose(0, 6, "cap"), at = sym_choose(0, 2, "offset"), size = sym_choose(0, 5, "size"); int null = (int)sym_choose(0, 1, "null");
    crefl_buf *b = newbuf(cap + at); sym_bytes(b->data, cap + at, "octets"); crefl_buf_seek(b, at);
    uint64_t len = sym_u64("len");
    unsigned char *s = null ? NULL : (unsigned char *)malloc(size); if (s) memset(s, 0x5a, size);
    asn1_string o; memset(&o, 0, sizeof o); o.count = null ? sym_u64("count") : size; o.str = s;
    int r = crefl_asn1_ber_octets_read(b, len, &o);
    if (len > cap) { sym_cover("truncated"); sym_assert((r == -1) & (crefl_buf_offset(b) == at), "contents beyond the buffer are refused and nothing moves"); }
    else {
        sym_cover("read"); size_t n = sym_concretize(len);
        sym_assert((r == 0) & (crefl_buf_offset(b) == at + n), "the cursor moves over the whole contents");
        sym_assert(o.count == n, "the length of the contents is reported");
        if (s) for (size_t i = 0; i < size; i++) sym_assert(s[i] == (i < n ? U8P(b)[at + i] : 0x5a), "the octets that fit are copied, and nothing else is written");
    }
    if (s) free(s);
    crefl_buf_destroy(b);
}
HARNESS octets_write()
{
    warm_up();
    size_t cap = sym_choose(0, 6, "cap"), at = sym_choose(0, 2, "offset"), size = sym_choose(0, 5, "size");
    crefl_buf *b = newbuf(cap + at); memset(b->data, 0x5a, cap + at); crefl_buf_seek(b, at);
    uint64_t len = sym_u64("len");
    unsigned char *s = (unsigned char *)malloc(size); sym_bytes(s, size, "string");
    asn1_string o; memset(&o, 0, sizeof o); o.count = size; o.str = s;
    int r = crefl_asn1_ber_octets_write(b, len, &o);
    if (len > cap) { sym_cover("no room"); sym_assert((r == -1) & (crefl_buf_offset(b) == at), "a string that does not fit is refused and nothing moves"); for (size_t i = 0; i < cap + at; i++) sym_assert(U8P(b)[i] == 0x5a, "a refused string writes nothing"); }
    else {
        sym_cover("written"); size_t n = sym_concretize(len);
        sym_assert((r == 0) & (crefl_buf_offset(b) == at + n), "the contents take the stated length");
        for (size_t i = 0; i < cap + at; i++) sym_assert(U8P(b)[i] == (i >= at && i < at + n && i - at < size ? s[i - at] : 0x5a), "the contents are the string's octets, and nothing else is written");
    }
    free(s);
    crefl_buf_destroy(b);
}
HARNESS octets_der()
{
    warm_up();
    static const size_t sizes[] = { 0, 1, 2, 17, 126, 127, 128, 129, 254, 255, 256, 257, 300 };
    size_t n = sizes[sym_choose(0, sizeof sizes / sizeof *sizes - 1, "size")], hl = n < 128 ? 2 : n < 256 ? 3 : 4; int shrt = (int)sym_choose(0, 1, "short");
    unsigned char *s = (unsigned char *)malloc(n), *t = (unsigned char *)malloc(n); sym_bytes(s, n, "string"); memset(t, 0, n);
    crefl_buf *b = newbuf(hl + n - shrt);
    asn1_string o; memset(&o, 0, sizeof o); o.count = n; o.str = s;
    sym_assert(crefl_asn1_ber_octets_length(&o) == n, "the length of an octet string is its count");
    int r = crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &o);
    if (shrt) { sym_cover("no room"); sym_assert(r == -1, "a DER string that does not fit is refused"); }
    else {
        sym_cover("written"); sym_assert((r == 0) & (crefl_buf_offset(b) == hl + n), "a DER string is tag, length and contents");
        sym_assert(U8P(b)[0] == 4, "a DER string carries its tag"); sym_assert(ref_len_bytes(n, hl - 1, U8P(b) + 1), "a DER string carries its length");
        crefl_buf_reset(b); asn1_string q; memset(&q, 0, sizeof q); q.str = NULL; q.count = 0;
        sym_assert((crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &q) == 0) & (q.count == n) & (crefl_buf_offset(b) == hl + n), "without a user buffer the length is returned");
        crefl_buf_reset(b); q.str = t; q.count = n;
        sym_assert((crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &q) == 0) & (q.count == n) & (crefl_buf_offset(b) == hl + n), "a DER string is consumed exactly");
        int ok = 1; for (size_t i = 0; i < n; i++) ok &= t[i] == s[i];
        sym_assert(ok, "a DER string reads back octet for octet");
    }
    free(s); free(t); crefl_buf_destroy(b);
}
HARNESS boolean_any()
{
    warm_up();
    size_t cap = sym_choose(0, 2, "cap"), at = sym_choose(0, 1, "offset"); uint64_t len = sym_u64("len");
    crefl_buf *b = newbuf(cap + at); sym_bytes(b->data, cap + at, "octets"); crefl_buf_seek(b, at);
    bool v = true; int r = crefl_asn1_ber_boolean_read(b, len, &v);
    if (len == 1 && cap >= 1) { sym_cover("read"); sym_assert((r == 0) & (v == (U8P(b)[at] != 0)) & (crefl_buf_offset(b) == at + 1), "one octet, true when any bit is set"); }
    else { sym_cover("refused"); sym_assert((r == -1) & (v == false) & (crefl_buf_offset(b) == at), "contents of any other length are refused"); }
    crefl_buf_destroy(b);
}
HARNESS boolean_rt()
{
    warm_up();
    bool v = sym_u8("value") & 1, w = !v; size_t cap = sym_choose(0, 4, "cap"); int der = (int)sym_choose(0, 1, "der"); size_t n = der ? 3 : 1;
    crefl_buf *b = newbuf(cap); memset(b->data, 0x5a, cap);
    sym_assert(crefl_asn1_ber_boolean_length(&v) == 1, "a boolean is one octet");
    int r = der ? crefl_asn1_der_boolean_write(b, asn1_tag_boolean, &v) : crefl_asn1_ber_boolean_write(b, 1, &v);
    if (cap < n) { sym_cover("no room"); sym_assert(r == -1, "a boolean that does not fit is refused"); crefl_buf_destroy(b); return; }
    sym_assert((r == 0) & (crefl_buf_offset(b) == n), "a boolean is written");
    if (der) sym_assert((U8P(b)[0] == 1) & (U8P(b)[1] == 1), "a DER boolean carries its tag and length");
    sym_assert((U8P(b)[n - 1] != 0) == v, "false is the zero octet, true is not");
    for (size_t i = n; i < cap; i++) sym_assert(U8P(b)[i] == 0x5a, "nothing is written after the value");
    crefl_buf_reset(b);
    r = der ? crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &w) : crefl_asn1_ber_boolean_read(b, 1, &w);
    sym_assert((r == 0) & (w == v) & (crefl_buf_offset(b) == n), "a boolean reads back and is consumed exactly");
    sym_cover("round trip");
    crefl_buf_destroy(b);
}
HARNESS null_any()
{
    warm_up();
    uint64_t len = sym_u64("len"); size_t cap = sym_choose(0, 3, "cap"); crefl_buf *b = newbuf(cap); sym_bytes(b->data, cap, "octets");
    sym_assert((crefl_asn1_ber_null_read(b, len) == (len ? -1 : 0)) & (crefl_asn1_ber_null_write(b, len) == (len ? -1 : 0)) & (crefl_buf_offset(b) == 0), "null has no contents");
    sym_assert(crefl_asn1_ber_null_length() == 0, "null has no contents");
    int r = crefl_asn1_der_null_write(b, asn1_tag_null);
    if (cap < 2) { sym_cover("no room"); sym_assert(r == -1, "a DER null that does not fit is refused"); }
    else {
        sym_cover("written"); sym_assert((r == 0) & (crefl_buf_offset(b) == 2) & (U8P(b)[0] == 5) & (U8P(b)[1] == 0), "a DER null is tag and zero length");
        crefl_buf_reset(b); sym_assert((crefl_asn1_der_null_read(b, asn1_tag_null) == 0) & (crefl_buf_offset(b) == 2), "a DER null reads back");
    }
    crefl_buf_destroy(b);
}
