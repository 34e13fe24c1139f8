// Every DER reader on arbitrary octets: memory safe, malformed headers refused, a success consumes exactly the value the header declares.
#include "asn1_util.h"

static int ref_header(const unsigned char *p, size_t cap, size_t *hl, uint64_t *len)
{
    size_t n = 1; uint64_t v = 0;
    if (!cap) return 0;
    if ((p[0] & 31) == 31) { int ok = 0; while (n < cap && n < 9) { v = v << 7 | (p[n] & 0x7f); if (!(p[n++] & 0x80)) { ok = v >= 31; break; } } if (!ok) return 0; }
    if (n >= cap) return 0;
    uint64_t l = 0; unsigned char c = p[n++];
    if (c < 0x80) l = c;
    else { size_t k = sym_concretize(c & 0x7f); if (k < 1 || k > 8 || k > cap - n) return 0; for (size_t i = 0; i < k; i++) l = l << 8 | p[n++]; }
    *hl = n; *len = l; return 1;
}
HARNESS der_any()
{
    warm_up();
    int kind = (int)sym_param("kind"); size_t cap = sym_param("len"), at = sym_choose(0, 1, "offset");
    crefl_buf *b = newbuf(cap + at); sym_bytes(b->data, cap + at, "octets"); crefl_buf_seek(b, at);
    unsigned char *p = (unsigned char *)malloc(cap); memcpy(p, b->data + at, cap);
    size_t hl = 0; uint64_t len = 0; int ok = ref_header(p, cap, &hl, &len);
    size_t room = ok ? cap - hl : 0, size = 4; int64_t r; int sized = 0, want = 0; // want: what the contents length alone decides
    unsigned char *t = NULL; asn1_string o; asn1_oid oid; u64 u = 0; s64 s = 0; double d = 0; bool bo = 0;
    switch (kind) {
    case 0: r = crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &bo); sized = 1; want = len == 1 && room >= 1; if (r == 0 && want && ok) sym_assert(bo == (p[hl] != 0), "a boolean reads its contents"); break;
    case 1: r = crefl_asn1_der_null_read(b, asn1_tag_null); sized = 1; want = len == 0; break;
    case 2: r = crefl_asn1_der_integer_u64_read(b, asn1_tag_integer, &u); sized = 1; want = len >= 1 && len <= 8 && len <= room; break;
    case 3: r = crefl_asn1_der_integer_s64_read(b, asn1_tag_integer, &s); sized = 1; want = len >= 1 && len <= 8 && len <= room; break;
    case 4: { u64_result q = crefl_asn1_der_integer_u64_read_byval(b, asn1_tag_integer); r = q.error; u = q.value; sized = 1; want = len >= 1 && len <= 8 && len <= room; break; }
    case 5: { s64_result q = crefl_asn1_der_integer_s64_read_byval(b, asn1_tag_integer); r = q.error; s = q.value; sized = 1; want = len >= 1 && len <= 8 && len <= room; break; }
    case 6: t = (unsigned char *)malloc(size); memset(&o, 0, sizeof o); o.str = t; o.count = size; r = crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &o); sized = 1; want = len <= room;
        if (r == 0 && ok && want) { sym_assert(o.count == len, "an octet string reports its length"); size_t n = sym_concretize(len); for (size_t i = 0; i < n && i < size; i++) sym_assert(t[i] == p[hl + i], "an octet string reads its contents"); }
        free(t); break;
    case 7: r = crefl_asn1_der_oid_read(b, asn1_tag_object_identifier, &oid); if (r == 0) sym_assert((oid.count > 1) | (len == 0), "an object identifier has at least two arcs"); break;
    case 8: r = crefl_asn1_der_real_f64_read(b, asn1_tag_real, &d); break;
    default: { f64_result q = crefl_asn1_der_real_f64_read_byval(b, asn1_tag_real); r = q.error; d = q.value; break; }
    }
    sym_assert((r == 0) | (r == -1), "a reader succeeds or reports failure");
    if (!ok) { sym_cover("bad header"); sym_assert(r == -1, "a malformed or truncated header is refused"); }
    else {
        if (len > room) { sym_cover("truncated"); sym_assert(r == -1, "contents that run past the buffer are refused"); }
        if (sized) sym_assert(r == (want ? 0 : -1), "contents of a length the type allows are accepted, all others refused");
        if (r == 0) { sym_cover("accepted"); sym_assert(crefl_buf_offset(b) == at + hl + len, "a success consumes the header and exactly the declared contents"); }
    }
    sym_assert(crefl_buf_offset(b) <= at + cap, "the cursor never leaves the buffer");
    free(p); crefl_buf_destroy(b);
}
// two values one after the other: the reader is aligned on the second
HARNESS der_seq()
{
    warm_up();
    u64 a = sym_u16("first"), x = 0; s64 c = (int16_t)sym_u16("second"), y = 0; bool v = sym_u8("third") & 1, w = !v;
    crefl_buf *b = newbuf(40); unsigned char str[3], str2[3]; sym_bytes(str, 3, "string"); asn1_string o, q; memset(&o, 0, sizeof o); memset(&q, 0, sizeof q); o.str = str; o.count = 3; q.str = str2; q.count = 3;
    int r = crefl_asn1_der_integer_u64_write(b, asn1_tag_integer, &a) | crefl_asn1_der_octets_write(b, asn1_tag_octet_string, &o) | crefl_asn1_der_integer_s64_write(b, asn1_tag_integer, &c) | crefl_asn1_der_null_write(b, asn1_tag_null) | crefl_asn1_der_boolean_write(b, asn1_tag_boolean, &v);
    sym_assert(r == 0, "a sequence of values is written");
    size_t end = crefl_buf_offset(b); crefl_buf_reset(b);
    sym_assert(crefl_asn1_der_integer_u64_read(b, asn1_tag_integer, &x) == 0 && x == a, "the first value reads back");
    sym_assert(crefl_asn1_der_octets_read(b, asn1_tag_octet_string, &q) == 0 && q.count == 3 && !memcmp(str, str2, 3), "the second value reads back");
    sym_assert(crefl_asn1_der_integer_s64_read(b, asn1_tag_integer, &y) == 0 && y == c, "the third value reads back");
    sym_assert(crefl_asn1_der_null_read(b, asn1_tag_null) == 0, "the fourth value reads back");
    sym_assert(crefl_asn1_der_boolean_read(b, asn1_tag_boolean, &w) == 0 && w == v, "the fifth value reads back");
    sym_assert(crefl_buf_offset(b) == end, "reading ends where writing ended"); sym_cover("read back");
    crefl_buf_destroy(b);
}
