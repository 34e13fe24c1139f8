// crefltool: emitting, merging, statistics, dumping, errors.
#define VOUT 20000
#include "sym.h"
#include "vf_tool.inc"
#define main tool_main
#include <tool/crefltool.cc>
#undef main
static int vf_sha_fork = 1;
#include "vf_sha.inc"
static decl_node *nd(decl_db *db, decl_id i) { return &db->decl[i]; }
static decl_id mk(decl_db *db, decl_tag t, const char *name) { decl_ref r = crefl_decl_new(db, t); decl_id i = crefl_decl_idx(r); if (name) { decl_id s = crefl_name_new(db, name); nd(db, i)->_name = s; } return i; }
static decl_db *fresh(void) { decl_db *db = crefl_db_new(); crefl_db_defaults(db); return db; }
static void arb(decl_db *db, decl_id i) { nd(db, i)->_props = sym_u32("props"); nd(db, i)->_quantity = sym_u64("quantity"); }
// a source of one structure with a name of n octets and k fields
static decl_db *unit(size_t n, int k)
{
    decl_db *db = fresh(); char name[40]; memset(name, 's', sizeof name); name[n] = 0; if (n) { name[0] = (char)sym_u8("name"); sym_assume(name[0] != 0 && name[0] != ';'); }
    decl_id root = mk(db, _decl_source, "u.c"), d, last = 0; db->root_element = root; d = mk(db, _decl_struct, name); nd(db, root)->_link = d; arb(db, d);
    for (int i = 0; i < k; i++) { decl_id f = mk(db, _decl_field, i ? 0 : "f"); arb(db, f); nd(db, f)->_link = 3; if (last) nd(db, last)->_next = f; else nd(db, d)->_link = f; last = f; }
    return db;
}
static uint8_t *image(decl_db *db, size_t *n) { *n = crefl_db_size(db); uint8_t *p = (uint8_t *)malloc(*n); sym_assert(crefl_db_write_mem(db, p, *n) == 0, "images are written"); return p; }
static int expect_fail; static uint8_t *want; static size_t wantn; static int mode;
static size_t at; static int good; static const uint8_t *E; static size_t EN;
static void lit(const char *s) { size_t n = strlen(s); for (size_t i = 0; i < n; i++) { if (at >= EN) { good = 0; return; } good &= E[at++] == s[i]; } }
static unsigned hexval(uint8_t c) { unsigned d = (unsigned)(c - '0'), l = (unsigned)(c - 'a'); good &= (d < 10) | (l < 6); return (d < 10) * d + (1 - (d < 10)) * (l + 10); }
// the emitted text, read as the C declaration it is
static void emitted()
{
    E = vfiles[1].data; EN = vfiles[1].size; at = 0; good = 1; size_t n = 0; int same = 1;
    lit("#include <stdlib.h>\nconst unsigned char __crefl_main_data[] = {\n"); sym_assert(good, "the text declares an array");
    for (;;) {
        while (at < EN && (E[at] == '\n' || E[at] == ' ')) at++;
        if (at >= EN || E[at] != '0') break;
        lit("0x"); sym_assert(good && at + 2 <= EN, "octets are in hex"); unsigned v = hexval(E[at]) << 4; v |= hexval(E[at + 1]); at += 2; sym_assert(good, "octets are in hex");
        if (n < wantn) same &= v == want[n]; n++; if (n < wantn) lit(","); else break; sym_assert(good, "octets are separated");
    }
    sym_assert(n == wantn, "every octet of the image is emitted"); sym_assert(same, "the emitted octets are those of the image"); while (at < EN && E[at] == '\n') at++;
    lit("};\nconst size_t __crefl_main_size = sizeof(__crefl_main_data);\n"); sym_assert(good && at == EN, "the text declares the size of the array");
}
static void merged()
{
    sym_assert(vfiles[2].exists && vfiles[2].size == wantn, "the output is the merged database"); int e = 1; for (size_t i = 0; i < wantn; i++) e &= vfiles[2].data[i] == want[i]; sym_assert(e, "the output is the merged database");
}
static void failed(int code)
{
    sym_assert(vopened == 0, "files are closed"); sym_cover("failure"); sym_assert(code == 1, "failures give status 1"); sym_assert(vlen[1] > 0, "failures are reported");
}
static void judge(int code)
{
    if (expect_fail) { failed(code); return; }
    sym_assert(vopened == 0, "files are closed");     sym_cover("success"); sym_assert(code == 0, "success gives status 0"); sym_assert(vlen[1] == 0, "success is silent on the error output");
    if (mode == 0) emitted(); else if (mode == 1) merged();
}
static void go(int argc, const char **argv, void (*fn)(int)) { vrun((int (*)(int, const char **))tool_main, argc, argv, fn); }
HARNESS tool_emit()
{
    decl_db *db = unit(sym_param("name"), (int)sym_param("fields")); want = image(db, &wantn); vput(&vfiles[0], "in", want, wantn, wantn); vput(&vfiles[1], "out", "", 0, 6000); vfiles[1].exists = 0;
    const char *argv[] = { "crefltool", "--emit", "out", "in", 0 }; mode = 0; int how = (int)sym_choose(0, sym_param("faults") ? 7 : 0, "how");
    if (how >= 1 && how <= 3) { fault = how == 1 ? F_OPEN : how == 2 ? F_STAT : F_SHORT; fault_write = 0; } else if (how >= 4 && how <= 6) { fault = how == 4 ? F_OPEN : how == 5 ? F_SHORT : F_CLOSE; fault_write = 1; }
    else if (how == 7) { vfiles[0].data[sym_choose(0, 7, "where")] ^= 1 + (sym_u8("damage") & 0x7f); }
    expect_fail = how != 0; go(4, argv, judge);
}
HARNESS tool_merge()
{
    int n = (int)sym_param("inputs"); decl_db *db[2]; for (int i = 0; i < n; i++) { db[i] = unit(1 + (size_t)i, 1); size_t k; uint8_t *p = image(db[i], &k); vput(&vfiles[i], i ? "b" : "d/a", p, k, k); }
    decl_db *o = crefl_db_new(); sym_assert(crefl_link_merge(o, "d/out", db, (size_t)n) == 0, "merging succeeds"); want = image(o, &wantn); vput(&vfiles[2], "d/out", "", 0, 3000); vfiles[2].exists = 0;
    const char *argv[] = { "crefltool", "--merge", "d/out", "d/a", "b", 0 }; mode = 1; int how = (int)sym_choose(0, 7, "how");
    if (how >= 1 && how <= 3) { fault = how == 1 ? F_OPEN : how == 2 ? F_STAT : F_SHORT; fault_write = 0; } else if (how >= 4 && how <= 6) { fault = how == 4 ? F_OPEN : how == 5 ? F_SHORT : F_CLOSE; fault_write = 1; }
    else if (how == 7) { vfiles[n - 1].data[sym_choose(0, 7, "where")] ^= 1 + (sym_u8("damage") & 0x7f); }
    expect_fail = how != 0; go(3 + n, argv, judge);
}
static size_t filen, userd, usern, blt, bltn;
static void judge_stats(int code)
{
    if (expect_fail) { failed(code); return; }
    sym_cover("statistics"); sym_assert(vopened == 0 && code == 0 && vlen[1] == 0, "success"); char t[400];
    int k = snprintf(t, sizeof t, "decl.builtin %zu bytes (%zu records)\ndecl.user    %zu bytes (%zu records)\nname.builtin %zu bytes\nname.user    %zu bytes\nfile.size    %zu bytes\n", blt * 32, blt, userd * 32, userd, bltn, usern, filen);
    sym_assert(vlen[0] == (size_t)k && !memcmp(vout[0], t, (size_t)k), "the statistics are those of the file");
}
HARNESS tool_stats()
{
    size_t nl = sym_choose(0, 30, "name length"); int nf = (int)sym_choose(0, 9, "fields"); decl_db *db = unit(nl, nf); size_t k; uint8_t *p = image(db, &k); vput(&vfiles[0], "in", p, k, k); filen = k; userd = db->decl_offset - db->decl_builtin; usern = db->name_offset - db->name_builtin; blt = db->decl_builtin; bltn = db->name_builtin;
    int how = (int)sym_choose(0, 3, "how"); fault = how == 0 ? F_NONE : how == 1 ? F_OPEN : how == 2 ? F_STAT : F_SHORT; expect_fail = how != 0; mode = 2; const char *argv[] = { "crefltool", "--stats", "in", 0 }; go(3, argv, judge_stats);
}
// command lines that are not understood
static const char *OPTS[] = { "--merge", "--emit", "--stats", "--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all" };
static void judge_usage(int code) { sym_cover("usage"); sym_assert(code == 1 && vlen[0] == 0 && vlen[1] > 0, "a command line that is not understood is refused with the usage"); sym_assert(vtried == 0, "no file is touched"); vout[1][vlen[1]] = 0; sym_assert(strstr(vout[1], "usage") != 0, "the usage is shown"); }
HARNESS tool_usage()
{
    static char arg[20]; int known = (int)sym_choose(0, 11, "option"), argc; const char *argv[7] = { "crefltool", arg, "x", "y", "z", 0, 0 };
    if (known < 11) { strcpy(arg, OPTS[known]); argc = (int)sym_choose(1, 5, "arguments"); sym_assume(argc < 3 || (known == 0 ? argc < 4 : known == 1 ? argc != 4 : argc != 3)); }
    else { argc = (int)sym_choose(2, 5, "arguments"); size_t k = sym_choose(0, 11, "like"), n = k < 11 ? strlen(OPTS[k]) : sym_choose(0, 3, "length"); if (k < 11) { memcpy(arg, OPTS[k], n); n += sym_choose(0, 1, "longer"); size_t w = sym_choose(2, n - 1, "where"); arg[w] = (char)sym_u8("octet"); }
        else sym_bytes(arg, n, "word");
        for (int i = 0; i < 11; i++) sym_assume(strcmp(arg, OPTS[i]) != 0); }
    argv[argc] = 0; go(argc, argv, judge_usage);
}
// ---- dumping
struct col { const char *name; int width; };
static const struct { decl_set p; const char *name; } PROPS[] = { { _decl_const, "const" }, { _decl_volatile, "volatile" }, { _decl_restrict, "restrict" }, { _decl_static, "static" }, { _decl_extern_c, "extern_c" }, { _decl_inline, "inline" }, { _decl_noreturn, "noreturn" }, { _decl_local, "local" }, { _decl_global, "global" }, { _decl_weak, "weak" }, { _decl_default, "default" }, { _decl_hidden, "hidden" }, { _decl_in, "in" }, { _decl_out, "out" }, { _decl_vla, "vla" } };
static char W[VOUT]; static size_t wn; static char cellbuf[400];
static void wput(const char *s, size_t n) { memcpy(W + wn, s, n); wn += n; }
// a column: padded with blanks, or cut with an ellipsis in its last place
static void cell(const char *s, int width) { size_t n = strlen(s), w = (size_t)width; if (n < w) { wput(s, n); while (n++ < w) W[wn++] = ' '; } else { wput(s, w - 1); wput("\xe2\x80\xa6", 3); } }
static const char *TAGN[] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
static const char *tagn(decl_tag t) { return t < 19 ? TAGN[t] : "<unknown>"; }
static void id_cell(decl_id i) { snprintf(cellbuf, sizeof cellbuf, "%u", (unsigned)i); cell(cellbuf, 5); }
static void row(decl_db *db, decl_index *ix, decl_id i, int ext, int sum, int fqn)
{
    decl_node *d = nd(db, i); const char *name = db->name + d->_name; id_cell(i); id_cell(d->_attr); id_cell(d->_next); id_cell(d->_link); cell(tagn(d->_tag), 10); cell(*name ? name : "(anonymous)", ext ? 28 : 15);
    char p[300]; p[0] = 0; decl_tag t = d->_tag;
    if (t != _decl_none && t < 19) for (auto &x : PROPS) if (d->_props & x.p) { if (*p) strcat(p, ","); strcat(p, x.name); }
    const char *fmt = t == _decl_set || t == _decl_enum || t == _decl_pointer || t == _decl_intrinsic || (t == _decl_field && (d->_props & _decl_bitfield)) ? "width=%llu" : t == _decl_array ? "size=%llu" : t == _decl_constant || t == _decl_value ? "value=%llu" : t == _decl_function ? "addr=0x%llx" : 0;
    if (fmt) { char q[60]; snprintf(q, sizeof q, fmt, (unsigned long long)d->_quantity); if (*p) strcat(p, ","); strcat(p, q); }
    cell(p, ext ? 25 : 15); const char *ln = db->name + nd(db, d->_link)->_name; snprintf(cellbuf, sizeof cellbuf, "%s(\"%s\")", tagn(nd(db, d->_link)->_tag), *ln ? ln : "anonymous"); cell(cellbuf, ext ? 30 : 20);
    decl_entry *e = crefl_entry_ptr(crefl_entry_ref(ix, decl_ref { db, i })); if (sum) { for (int k = 0; k < 28; k++) snprintf(cellbuf + 2 * k, 3, "%02hhx", e->hash.sum[k]); cell(cellbuf, 57); }
    if (fqn) { decl_id a = t == _decl_alias ? d->_link : i; snprintf(cellbuf, sizeof cellbuf, "%s %s", tagn(nd(db, a)->_tag), crefl_entry_fqn(crefl_entry_ref(ix, decl_ref { db, a }))); cell(cellbuf, ext ? 30 : 23); }
    W[wn++] = '\n';
}
static void rule(int ext, int sum, int fqn) { int n = 30 + (ext ? 83 : 50) + (sum ? 57 : 0) + (fqn ? (ext ? 30 : 23) : 0); memset(W + wn, '-', (size_t)n); wn += (size_t)n; W[wn++] = '\n'; }
static void expect_dump(decl_db *db, int f)
{
    int ext = f >= 4, fqn = f & 1, sum = f >> 1 & 1; decl_index *ix = crefl_index_new(); crefl_index_scan(ix, db); wn = 0;
    cell("id", 5); cell("attr", 5); cell("next", 5); cell("link", 5); cell("type", 10); cell("name", ext ? 28 : 15); cell("props", ext ? 25 : 15); cell("detail", ext ? 30 : 20); if (sum) cell("hash", 57); if (fqn) cell("fqn", ext ? 30 : 23); W[wn++] = '\n';
    rule(ext, sum, fqn); for (decl_id i = db->decl_builtin; i < db->decl_offset; i++) row(db, ix, i, ext, sum, fqn); rule(ext, sum, fqn); crefl_index_destroy(ix);
}
static void judge_dump(int code) { sym_assert(vopened == 0 && code == 0 && vlen[1] == 0, "success"); sym_assert(vlen[0] == wn, "the dump has one line for each declaration"); int e = 1; for (size_t i = 0; i < wn; i++) e &= W[i] == vout[0][i]; sym_assert(e, "each line shows the declaration in columns"); sym_cover("dumped"); }
// any node x below a source, with y below it, and an alias no link leads to
HARNESS tool_dump()
{
    static const size_t LEN[] = { 0, 1, 14, 15, 27, 28, 40 }; int f = (int)sym_param("format"); decl_db *db = fresh(); decl_id root = mk(db, _decl_source, "s.c"), x, y, z; db->root_element = root; char name[44];
    decl_tag t = (decl_tag)sym_choose(0, 19, "tag"); int part = (int)sym_param("part"); size_t n = LEN[part == 1 ? 1 : sym_choose(0, 6, "name length")]; memset(name, 'n', sizeof name); name[n] = 0; if (n) { name[0] = (char)sym_u8("name"); sym_assume(name[0] != 0 && name[0] != ';'); }
    x = mk(db, t, name); y = mk(db, _decl_field, "inner"); z = mk(db, _decl_alias, "other"); nd(db, root)->_link = x;
    static const uint64_t Q[] = { 0, 64, 0x123456789abcdef0ull, ~0ull }; uint64_t qi = part == 1 ? 1 : sym_choose(0, 3, "quantity"); nd(db, x)->_quantity = Q[qi];
    int bit = part == 0 ? (int)(qi * 5) : (int)sym_choose(0, 15, "bit"); nd(db, x)->_props = bit < 15 ? (1u << (10 + bit)) | (1u << (10 + (bit * 7 + 3) % 15)) : (sym_u32("other") & 0x3ff) | 0xfe000000u; nd(db, x)->_link = part == 0 || sym_choose(0, 1, "inside") ? y : 3; nd(db, z)->_link = x; nd(db, y)->_next = 0;
    if (nd(db, x)->_link == y) { nd(db, y)->_attr = mk(db, _decl_attribute, "used"); nd(db, y)->_props = 1u << (10 + bit); }
    expect_dump(db, f); size_t k; uint8_t *p = image(db, &k); vput(&vfiles[0], "in", p, k, k); const char *argv[] = { "crefltool", 0, "in", 0 }; static const char *O[] = { "--dump", "--dump-fqn", "--dump-sum", "--dump-all", "--dump-ext", "--dump-ext-fqn", "--dump-ext-sum", "--dump-ext-all" }; argv[1] = O[f]; go(3, argv, judge_dump);
}
// many declarations, some out of reach of the root, among them an alias of one far away
HARNESS tool_dump_far()
{
    int f = (int)sym_param("format"), ni = (int)sym_choose(0, 5, "nodes"), n = ((const int[]) { 1, 8, 10, 12, 20, 45 })[ni], al = (int)sym_choose(0, n < 8 ? 0 : 7, "alias"), to = (int)sym_choose(0, 2, "to"); decl_db *db = fresh(); decl_id root = mk(db, _decl_source, "s.c"); db->root_element = root;
    for (int i = 0; i < n; i++) { decl_id d = mk(db, i == al ? _decl_alias : _decl_struct, i % 5 ? "a" : 0); nd(db, d)->_props = (decl_set)i << 10; } nd(db, root + 1 + (decl_id)al)->_link = to == 0 ? root + (decl_id)n : to == 1 ? root + 1 + (decl_id)(n / 2) : 3; if (nd(db, nd(db, root + 1 + (decl_id)al)->_link)->_tag == _decl_alias) nd(db, root + 1 + (decl_id)al)->_link = root;
    expect_dump(db, f); size_t k; uint8_t *p = image(db, &k); vput(&vfiles[0], "in", p, k, k); const char *argv[] = { "crefltool", f ? "--dump-all" : "--dump", "in", 0 }; if (f) { expect_dump(db, 3); } go(3, argv, judge_dump);
}
