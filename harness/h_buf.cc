// Buffer cursor operations: confinement, refusal without effect, exact advance, little-endian contents, read-back.
#include "sym.h"
#include <crefl/buf.h>

static const int MAXB = 12;
struct Snap { char *data; size_t off, size; unsigned char b[MAXB + 1]; };
static void snap(Snap *s, crefl_buf *b) { s->data = b->data; s->off = b->data_offset; s->size = b->data_size; memcpy(s->b, b->data, b->data_size); }

static crefl_buf *mkbuf(size_t *off)
{
    size_t n = sym_choose(0, MAXB, "size");
    crefl_buf *b = crefl_buf_new(n);
    sym_assert((b->data_size == n) & (crefl_buf_offset(b) == 0), "a new buffer has the requested size and offset zero");
    for (size_t i = 0; i < n; i++) sym_assert(b->data[i] == 0, "a new buffer is zero filled");
    sym_bytes(b->data, n, "content");
    // any cursor position, inside or outside the buffer
    size_t o = sym_u64("offset");
    crefl_buf_seek(b, o);
    sym_assert(crefl_buf_offset(b) == o, "seek sets the offset");
    *off = o;
    return b;
}
static int unchanged(Snap *s, crefl_buf *b, size_t lo, size_t hi)
{
    // bytes outside [lo,hi) keep their value, and the buffer identity is kept
    int ok = (b->data == s->data) & (b->data_size == s->size);
    for (size_t i = 0; i < s->size; i++) ok &= ((i >= lo) & (i < hi)) | ((unsigned char)b->data[i] == s->b[i]);
    return ok;
}

// fixed-width integers
HARNESS buf_int()
{
    size_t off; crefl_buf *b = mkbuf(&off); Snap s; snap(&s, b);
    unsigned k = (unsigned)sym_choose(0, 3, "width"); size_t w = (size_t)1 << k;
    uint64_t v = sym_u64("value"); int wr = (int)sym_choose(0, 1, "write");
    size_t r; int64_t got = 0; int8_t g8 = 11; int16_t g16 = 11; int32_t g32 = 11; int64_t g64 = 11;
    if (wr) r = k == 0 ? crefl_buf_write_i8(b, (int8_t)v) : k == 1 ? crefl_buf_write_i16(b, (int16_t)v) : k == 2 ? crefl_buf_write_i32(b, (int32_t)v) : crefl_buf_write_i64(b, (int64_t)v);
    else { r = k == 0 ? crefl_buf_read_i8(b, &g8) : k == 1 ? crefl_buf_read_i16(b, &g16) : k == 2 ? crefl_buf_read_i32(b, &g32) : crefl_buf_read_i64(b, &g64);
        got = k == 0 ? g8 : k == 1 ? g16 : k == 2 ? g32 : g64; }
    int fits = (off <= s.size) && (w <= s.size - off);
    if (fits) {
        sym_cover("fits");
        sym_assert(r == w, "an integer that fits is transferred in full");
        sym_assert(crefl_buf_offset(b) == off + w, "the cursor advances by the integer width");
        size_t o = sym_concretize(off);
        if (wr) {
            int ok = 1; for (size_t i = 0; i < w; i++) ok &= ((unsigned char)b->data[o + i] == (unsigned char)(v >> (8 * i)));
            sym_assert(ok, "integers are stored little endian");
            sym_assert(unchanged(&s, b, o, o + w), "a write touches only its own bytes");
            crefl_buf_seek(b, o);
            int8_t a8; int16_t a16; int32_t a32; int64_t a64;
            if (k == 0) { sym_assert(crefl_buf_read_i8(b, &a8) == 1 && a8 == (int8_t)v, "reading back gives the value written"); }
            else if (k == 1) { sym_assert(crefl_buf_read_i16(b, &a16) == 2 && a16 == (int16_t)v, "reading back gives the value written"); }
            else if (k == 2) { sym_assert(crefl_buf_read_i32(b, &a32) == 4 && a32 == (int32_t)v, "reading back gives the value written"); }
            else { sym_assert(crefl_buf_read_i64(b, &a64) == 8 && a64 == (int64_t)v, "reading back gives the value written"); }
        } else {
            uint64_t e = 0; for (size_t i = 0; i < w; i++) e |= (uint64_t)s.b[o + i] << (8 * i);
            int sh = 64 - 8 * (int)w;
            sym_assert(((uint64_t)got << sh) == (e << sh), "integers are loaded little endian");
            sym_assert(unchanged(&s, b, 0, 0), "a read changes no byte");
        }
    } else {
        sym_cover("refused");
        sym_assert(r == 0, "an integer that does not fit is refused");
        sym_assert(crefl_buf_offset(b) == off, "a refused operation leaves the cursor");
        sym_assert(unchanged(&s, b, 0, 0), "a refused operation changes no byte");
        if (!wr) sym_assert(k == 0 ? g8 == 11 : k == 1 ? g16 == 11 : k == 2 ? g32 == 11 : g64 == 11, "a refused read leaves the destination");
    }
    sym_observe("r", r);
    crefl_buf_destroy(b);
}

// byte strings, any length
HARNESS buf_bytes()
{
    size_t off; crefl_buf *b = mkbuf(&off); Snap s; snap(&s, b);
    size_t len = sym_u64("len"); int wr = (int)sym_choose(0, 1, "write");
    char ext[MAXB + 2]; sym_bytes(ext, sizeof ext, "ext"); char keep[MAXB + 2]; memcpy(keep, ext, sizeof ext);
    int fits = (off <= s.size) && (len <= s.size - off);
    size_t r = wr ? crefl_buf_write_bytes(b, ext, len) : crefl_buf_read_bytes(b, ext, len);
    if (fits) {
        sym_cover("fits");
        size_t o = sym_concretize(off), n = sym_concretize(len);
        sym_assert(r == n, "a byte string that fits is transferred in full");
        sym_assert(crefl_buf_offset(b) == o + n, "the cursor advances by the length");
        int ok = 1;
        if (wr) { for (size_t i = 0; i < n; i++) ok &= b->data[o + i] == keep[i]; sym_assert(ok, "bytes are copied in order"); sym_assert(unchanged(&s, b, o, o + n), "a write touches only its own bytes"); }
        else { for (size_t i = 0; i < n; i++) ok &= (unsigned char)ext[i] == s.b[o + i]; for (size_t i = n; i < sizeof ext; i++) ok &= ext[i] == keep[i]; sym_assert(ok, "bytes are copied in order and nothing else is"); sym_assert(unchanged(&s, b, 0, 0), "a read changes no byte"); }
    } else {
        sym_cover("refused");
        sym_assert(r == 0, "a byte string that does not fit is refused");
        sym_assert(crefl_buf_offset(b) == off, "a refused operation leaves the cursor");
        sym_assert(unchanged(&s, b, 0, 0), "a refused operation changes no byte");
        int ok = 1; for (size_t i = 0; i < sizeof ext; i++) ok &= ext[i] == keep[i];
        sym_assert(ok, "a refused operation leaves the caller's bytes");
    }
    sym_observe("r", r);
    crefl_buf_destroy(b);
}

// what is left, and reset
HARNESS buf_rest()
{
    size_t off; crefl_buf *b = mkbuf(&off); Snap s; snap(&s, b);
    crefl_span sp = crefl_buf_remaining(b);
    size_t want = off <= s.size ? s.size - off : 0;
    sym_assert(sp.length == want, "the remaining span is exactly the unread part");
    if (off <= s.size) { sym_cover("inside"); sym_assert(sp.data == b->data + off, "the remaining span starts at the cursor"); }
    else sym_cover("outside");
    sym_assert(crefl_buf_data(b) == s.data, "data is stable");
    crefl_buf_reset(b);
    sym_assert(crefl_buf_offset(b) == 0, "reset rewinds");
    sym_assert(unchanged(&s, b, 0, 0), "reset keeps the bytes");
    sym_leak_begin();
    crefl_buf *c = crefl_buf_new(s.size);
    crefl_buf_destroy(c);
    sym_assert_no_leaks("destroy releases the buffer");
    crefl_buf_destroy(b);
}
