// The reflection model: list queries, accessors, lookup, allocation, layout.
#include "sym.h"
#include <crefl/model.h>
#include <crefl/types.h>

static decl_db *fresh(void) { decl_db *db = crefl_db_new(); crefl_db_defaults(db); return db; }
static decl_ref node(decl_db *db, decl_tag t, const char *name) { decl_ref r = crefl_decl_new(db, t); if (name) { decl_id i = crefl_name_new(db, name); crefl_decl_ptr(r)->_name = i; } return r; }

// ---- list queries
typedef int (*list_fn)(decl_ref, decl_ref *, size_t *);
enum { K_ANY, K_TYPE, K_TAG };
static const struct { list_fn fn; decl_tag parent; int kind; decl_tag child; } LISTS[] = {
    { crefl_enum_constants, _decl_enum, K_TAG, _decl_constant }, { crefl_set_constants, _decl_set, K_TAG, _decl_constant },
    { crefl_struct_fields, _decl_struct, K_TAG, _decl_field }, { crefl_union_fields, _decl_union, K_TAG, _decl_field },
    { crefl_function_params, _decl_function, K_TAG, _decl_param }, { crefl_source_decls, _decl_source, K_ANY, 0 },
    { crefl_source_types, _decl_source, K_TYPE, 0 }, { crefl_source_fields, _decl_source, K_TAG, _decl_field },
    { crefl_source_functions, _decl_source, K_TAG, _decl_function }, { crefl_archive_sources, _decl_archive, K_TAG, _decl_source } };
static int wanted(unsigned k, decl_tag t)
{
    if (LISTS[k].kind == K_ANY) return 1;
    if (LISTS[k].kind == K_TAG) return t == LISTS[k].child;
    return t == _decl_typedef || t == _decl_intrinsic || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_array || t == _decl_pointer || t == _decl_qualifier;
}
HARNESS model_lists()
{
    unsigned k = (unsigned)sym_param("list"); size_t n = sym_param("children"); decl_db *db = fresh();
    { // an earlier query of the same kind on another list
        decl_ref q = node(db, LISTS[k].parent, "q"), x = node(db, LISTS[k].child ? LISTS[k].child : _decl_typedef, "x"), y[2]; crefl_decl_ptr(q)->_link = crefl_decl_idx(x); size_t one = 2;
        sym_assert(LISTS[k].fn(q, y, &one) == 0 && one == 1 && y[0].decl_idx == crefl_decl_idx(x), "a list of one");
    }
    decl_ref p = node(db, 0, "p"), c[8]; int rev = (int)sym_choose(0, 1, "reversed");
    decl_tag pt = sym_u32("parent"); crefl_decl_ptr(p)->_tag = pt;
    for (size_t i = 0; i < n; i++) c[i] = node(db, 0, 0);
    if (rev) for (size_t i = 0; i < n / 2; i++) { decl_ref t = c[i]; c[i] = c[n - 1 - i]; c[n - 1 - i] = t; }
    decl_tag t[8]; for (size_t i = 0; i < n; i++) { t[i] = sym_u32("tag"); decl_node *x = crefl_decl_ptr(c[i]); x->_tag = t[i]; x->_next = i + 1 < n ? crefl_decl_idx(c[i + 1]) : 0; x->_link = (decl_id)sym_choose(0, 1, "has link") * crefl_decl_idx(p); }
    crefl_decl_ptr(p)->_link = n ? crefl_decl_idx(c[0]) : 0;
    decl_node before[8]; for (size_t i = 0; i < n; i++) before[i] = *crefl_decl_ptr(c[i]);
    decl_ref r[10]; for (int i = 0; i < 10; i++) { r[i].db = 0; r[i].decl_idx = 77; }
    size_t limit = sym_choose(0, n + 1, "limit"), s = limit; int mode = (int)sym_choose(0, 2, "mode"); // all, count only, without a count
    int ret = LISTS[k].fn(p, mode == 1 ? 0 : r, mode == 2 ? 0 : &s);
    if (pt != LISTS[k].parent) { sym_cover("wrong kind"); sym_assert(ret == -1 && s == limit && r[0].decl_idx == 77, "a query of another kind of node is refused"); }
    else {
        sym_cover("list"); sym_assert(ret == 0, "a query of the right kind of node succeeds");
        size_t cnt = 0, lim = mode == 0 ? limit : 0;
        for (size_t i = 0; i < n; i++) if (wanted(k, t[i])) { if (cnt < lim) sym_assert(r[cnt].db == db && r[cnt].decl_idx == crefl_decl_idx(c[i]), "the matching nodes are given in order"); cnt++; }
        if (mode != 2) sym_assert(s == cnt, "the count is that of all matching nodes");
        for (size_t i = cnt < lim ? cnt : lim; i < 10; i++) sym_assert(r[i].db == 0 && r[i].decl_idx == 77, "no more than asked for is given");
    }
    for (size_t i = 0; i < n; i++) sym_assert(!memcmp(&before[i], crefl_decl_ptr(c[i]), sizeof(decl_node)), "a query changes nothing");
    crefl_db_destroy(db);
}
// ---- predicates and accessors of one arbitrary node
HARNESS model_access()
{
    decl_db *db = fresh(); size_t first = db->decl_offset; decl_ref d = node(db, 0, "node"), e = node(db, 0, "other");
    decl_node n; n._tag = sym_u32("tag"); n._props = sym_u32("props"); n._name = crefl_decl_ptr(sym_choose(0, 1, "named") ? d : crefl_decl_void(d))->_name; n._next = sym_u32("next"); n._link = sym_u32("link"); n._attr = sym_u32("attr"); n._quantity = sym_u64("qty");
    *crefl_decl_ptr(d) = n;
    sym_assert(crefl_decl_idx(d) == first && crefl_decl_idx(e) == first + 1, "nodes are numbered one after another");
    decl_tag t = n._tag;
    const struct { int (*fn)(decl_ref); decl_tag tag; } IS[] = { { crefl_is_none, _decl_none }, { crefl_is_intrinsic, _decl_intrinsic }, { crefl_is_typedef, _decl_typedef }, { crefl_is_set, _decl_set }, { crefl_is_enum, _decl_enum }, { crefl_is_struct, _decl_struct },
        { crefl_is_union, _decl_union }, { crefl_is_field, _decl_field }, { crefl_is_array, _decl_array }, { crefl_is_pointer, _decl_pointer }, { crefl_is_constant, _decl_constant }, { crefl_is_function, _decl_function }, { crefl_is_param, _decl_param },
        { crefl_is_attribute, _decl_attribute }, { crefl_is_value, _decl_value }, { crefl_is_archive, _decl_archive }, { crefl_is_source, _decl_source }, { crefl_is_alias, _decl_alias } };
    for (auto &i : IS) sym_assert(!!i.fn(d) == (t == i.tag), "a predicate holds exactly for its kind");
    sym_assert(crefl_is_any(d), "any holds for every node");
    int ty = (t == _decl_typedef) | (t == _decl_intrinsic) | (t == _decl_set) | (t == _decl_enum) | (t == _decl_struct) | (t == _decl_union) | (t == _decl_array) | (t == _decl_pointer) | (t == _decl_qualifier);
    sym_assert(!!crefl_is_type(d) == ty, "types are the kinds a declaration can have");
    sym_assert((crefl_decl_tag(d) == t) & (crefl_decl_props(d) == n._props) & (crefl_decl_qty(d) == n._quantity), "properties read back");
    decl_ref x = crefl_decl_next(d), l = crefl_decl_link(d), a = crefl_decl_attr(d), v = crefl_decl_void(d), k = crefl_lookup(db, first);
    sym_assert((x.db == db) & (l.db == db) & (a.db == db) & (v.db == db) & (k.db == db), "references stay in their database");
    sym_assert((x.decl_idx == n._next) & (l.decl_idx == n._link) & (a.decl_idx == n._attr) & (v.decl_idx == 0) & (k.decl_idx == first), "links are those stored");
    const struct { decl_ref (*fn)(decl_ref); decl_tag tag; } TY[] = { { crefl_typedef_type, _decl_typedef }, { crefl_field_type, _decl_field }, { crefl_array_type, _decl_array }, { crefl_pointer_type, _decl_pointer }, { crefl_constant_type, _decl_constant }, { crefl_param_type, _decl_param } };
    for (auto &i : TY) { decl_ref y = i.fn(d); sym_assert((y.db == db) & (y.decl_idx == (t == i.tag ? n._link : 0)), "the type of a node is its link, and void for other kinds"); }
    sym_assert(crefl_array_count(d) == (t == _decl_array ? n._quantity : 0), "the count of an array");
    sym_assert(crefl_constant_value(d).ux == (t == _decl_constant ? n._quantity : 0), "the value of a constant");
    sym_assert((uint64_t)crefl_function_addr(d) == (t == _decl_function ? n._quantity : 0), "the address of a function");
    sym_assert(!!crefl_decl_has_name(d) == (n._name != 0), "has a name"); sym_assert(!strcmp(crefl_decl_name(d), n._name ? "node" : ""), "the name");
    static const char *NAMES[] = { "none", "intrinsic", "typedef", "set", "enum", "struct", "union", "field", "array", "pointer", "constant", "function", "param", "qualifier", "attribute", "value", "archive", "source", "alias" };
    const char *tn = crefl_tag_name(t); if (t <= _decl_alias) { sym_cover("tag"); uint64_t tt = sym_concretize(t); sym_assert(!strcmp(tn, NAMES[tt]), "kinds have their names"); } else { sym_cover("no tag"); sym_assert(!strcmp(tn, "<unknown>"), "no kind has no name"); }
    db->root_element = n._attr; sym_assert((crefl_root(db).decl_idx == n._attr) & (crefl_root(db).db == db), "the root");
    crefl_db_destroy(db);
}
// ---- builtin types and their lookup
static const struct { const char *name; unsigned width, props, align; } BT[] = { // name, size and alignment in bits as the C ABI has them
    { "void", 0, _decl_void, 1 }, { "bool", 1, _decl_sint, 8 }, { "bit", 1, _decl_uint, 1 }, { "sign", 1, _decl_sint, 1 }, { "ubyte", 8, _decl_uint, 8 }, { "byte", 8, _decl_sint, 8 }, { "ushort", 16, _decl_uint, 16 }, { "short", 16, _decl_sint, 16 },
    { "uint", 32, _decl_uint, 32 }, { "int", 32, _decl_sint, 32 }, { "ulong", 64, _decl_uint, 64 }, { "long", 64, _decl_sint, 64 }, { "ucent", 128, _decl_uint, 128 }, { "cent", 128, _decl_sint, 128 },
    { "half", 16, _decl_float, 16 }, { "float", 32, _decl_float, 32 }, { "double", 64, _decl_float, 64 }, { "quad", 128, _decl_float, 128 },
    { "chalf", 32, _decl_cfloat, 16 }, { "cfloat", 64, _decl_cfloat, 32 }, { "cdouble", 128, _decl_cfloat, 64 }, { "cquad", 256, _decl_cfloat, 128 } };
enum { NBT = sizeof BT / sizeof BT[0] };
static const unsigned TYPEPROPS = _decl_integral | _decl_real | _decl_complex | _decl_signed | _decl_unsigned | _decl_ieee754;
static size_t builtin(decl_db *db, const char *name) { for (size_t i = 1; i < db->decl_builtin; i++) if (!strcmp(crefl_decl_name(crefl_lookup(db, i)), name)) return i; sym_assert(0, "a builtin type is missing"); return 0; }
HARNESS model_builtin()
{
    decl_db *db = fresh(); unsigned b = (unsigned)sym_choose(0, NBT - 1, "type"); size_t i = builtin(db, BT[b].name); decl_ref d = crefl_lookup(db, i);
    sym_assert(db->decl_builtin == db->decl_offset && db->name_builtin == db->name_offset, "everything in a fresh database is builtin");
    sym_assert(crefl_is_intrinsic(d) && crefl_decl_qty(d) == BT[b].width && (crefl_decl_props(d) & TYPEPROPS) == BT[b].props, "the builtin types have their widths and properties");
    size_t w = BT[b].width == 1 && BT[b].align == 8 ? 8 : BT[b].width; unsigned al = 0; while ((1u << al) < BT[b].align) al++;
    sym_assert(crefl_type_width(d) == w && crefl_intrinsic_width(d) == w, "the builtin types have their storage widths");
    // what a compiler front end asks for: kind and width, with padding left open
    decl_ref q = crefl_intrinsic(db, BT[b].props, BT[b].width); sym_assert(q.db == db, "in the same database");
    if (BT[b].width != 1 && BT[b].width) sym_assert(q.decl_idx == i, "each builtin type is found by kind and width");
    if (BT[b].width == 1) sym_assert(!strcmp(crefl_decl_name(q), BT[b].props == _decl_sint ? "bool" : "bit"), "the one bit types");
    for (size_t j = 1; j < db->decl_offset; j++) for (size_t k = j + 1; k < db->decl_offset; k++) sym_assert(strcmp(crefl_decl_name(crefl_lookup(db, j)), crefl_decl_name(crefl_lookup(db, k))), "no builtin type is listed twice");
    crefl_db_destroy(db);
}
HARNESS model_intrinsic()
{
    decl_db *db = fresh(); size_t nb = db->decl_offset, n = sym_param("more"); decl_set props = sym_u32("props"); uint64_t width = sym_u64("width");
    for (size_t i = 0; i < n; i++) { decl_ref d = node(db, 0, 0); crefl_decl_ptr(d)->_tag = sym_u32("tag"); crefl_decl_ptr(d)->_props = sym_u32("own props"); crefl_decl_ptr(d)->_quantity = sym_u64("own width"); }
    decl_ref q = crefl_intrinsic(db, props, width);
    size_t want = 0; for (size_t i = 1; i < nb + n; i++) { decl_node *x = db->decl + i; int m = (x->_tag == _decl_intrinsic) & (x->_quantity == width) & ((x->_props & props) == props); want = (want == 0) & m ? i : want; }
    sym_assert(q.decl_idx == want && q.db == db, "the first type of that width with all the properties is found, and none if there is none");
    if (want) sym_cover("found"); else sym_cover("none");
    crefl_db_destroy(db);
}
// ---- allocation
HARNESS model_alloc()
{
    int defaults = (int)sym_param("defaults"); decl_db *db = crefl_db_new();
    sym_assert(db->decl_offset == 1 && db->name_offset == 1 && crefl_root(db).decl_idx == 0 && crefl_decl_name(crefl_lookup(db, 0))[0] == 0 && crefl_is_none(crefl_lookup(db, 0)), "a new database has only the empty node");
    if (defaults) crefl_db_defaults(db);
    size_t n = sym_param("nodes"), first = db->decl_offset; decl_node keep[80];
    for (size_t i = 0; i < n; i++) {
        decl_tag t = sym_u32("tag"); decl_ref d = crefl_decl_new(db, t); decl_node *p = crefl_decl_ptr(d);
        sym_assert(d.db == db && d.decl_idx == first + i && db->decl_offset == first + i + 1 && db->decl_size >= db->decl_offset, "nodes are numbered one after another");
        sym_assert((p->_tag == t) & !p->_props & !p->_name & !p->_next & !p->_link & !p->_attr & !p->_quantity, "a new node is empty");
        p->_props = sym_u32("props"); p->_quantity = sym_u64("qty"); p->_link = sym_u32("link"); keep[i] = *p;
    }
    for (size_t i = 0; i < n; i++) { decl_node *p = db->decl + first + i; sym_assert((p->_tag == keep[i]._tag) & (p->_props == keep[i]._props) & (p->_quantity == keep[i]._quantity) & (p->_link == keep[i]._link), "earlier nodes stay as they were"); }
    crefl_db_destroy(db); sym_assert_no_leaks("destroying a database frees all of it");
}
HARNESS model_names()
{
    decl_db *db = crefl_db_new(); size_t n = sym_param("count"), total = 0, len[6], off[6]; static char names[6][140];
    static const size_t LENS[] = { 0, 1, 5, 14, 15, 16, 29, 30, 31, 32, 62, 63, 64, 130 };
    for (size_t i = 0; i < n; i++) {
        len[i] = LENS[i == 0 ? sym_param("first") : sym_choose(0, sizeof LENS / sizeof LENS[0] - 1, "length")]; sym_bytes(names[i], len[i], "name"); for (size_t j = 0; j < len[i]; j++) sym_assume(names[i][j] != 0); names[i][len[i]] = 0;
        size_t o = db->name_offset; off[i] = crefl_name_new(db, names[i]);
        sym_assert(off[i] == (len[i] ? o : 0), "a name is stored behind the others, and the empty name is 0"); total += len[i] ? len[i] + 1 : 0;
        sym_assert(db->name_offset == 1 + total && db->name_size >= db->name_offset, "names fit");
    }
    for (size_t i = 0; i < n; i++) { int e = 1; for (size_t j = 0; j <= len[i]; j++) e &= db->name[off[i] + j] == names[i][j]; sym_assert(e, "names stay as they were given"); }
    sym_assert(db->name[0] == 0, "name 0 stays empty");
    crefl_db_destroy(db); sym_assert_no_leaks("destroying a database frees all of it");
}
// ---- layout: the reference computes sizes and alignments from the description of the type, not from the nodes
struct lay { decl_id id; uint64_t size, align; }; // bits
static uint64_t up(uint64_t x, uint64_t a) { return (x + a - 1) & ~(a - 1); } // alignments are powers of two
static lay basic(decl_db *db, const char *name) { for (unsigned b = 0; b < NBT; b++) if (!strcmp(BT[b].name, name)) return { (decl_id)builtin(db, name), up(BT[b].width, BT[b].align), BT[b].align }; sym_assert(0, "no such type"); return { 0, 0, 0 }; }
static lay wrap(decl_db *db, decl_tag t, lay x) { decl_ref r = node(db, t, "w"); crefl_decl_ptr(r)->_link = x.id; x.id = (decl_id)crefl_decl_idx(r); return x; }
static lay array(decl_db *db, lay x, uint64_t n) { lay r = wrap(db, _decl_array, x); crefl_decl_ptr(crefl_lookup(db, r.id))->_count = n; r.size = x.size * n; return r; }
static lay sized(decl_db *db, decl_tag t, uint64_t w) { decl_ref r = node(db, t, "e"); crefl_decl_ptr(r)->_width = w; return { (decl_id)crefl_decl_idx(r), w, w }; }
static decl_id field(decl_db *db, lay x) { decl_ref r = node(db, _decl_field, "f"); crefl_decl_ptr(r)->_link = x.id; return (decl_id)crefl_decl_idx(r); }
static lay record(decl_db *db, int is_union, const lay *m, int n, int noise = 0)
{
    lay z = { 0, 0, 1 }; decl_ref r = node(db, is_union ? _decl_union : _decl_struct, "s"); decl_id last = 0;
    for (int i = 0; i < n; i++) {
        if (noise) { decl_ref t = node(db, _decl_struct, "nested"); crefl_decl_ptr(t)->_width = 512; crefl_decl_ptr(t)->_link = crefl_decl_ptr(r)->_link; if (last) crefl_decl_ptr(crefl_lookup(db, last))->_next = crefl_decl_idx(t); else crefl_decl_ptr(r)->_link = crefl_decl_idx(t), crefl_decl_ptr(t)->_link = 0; last = (decl_id)crefl_decl_idx(t); }
        decl_id f = field(db, m[i]); if (last) crefl_decl_ptr(crefl_lookup(db, last))->_next = f; else crefl_decl_ptr(r)->_link = f; last = f;
        if (m[i].align > z.align) z.align = m[i].align;
        if (is_union) z.size = m[i].size > z.size ? m[i].size : z.size; else z.size = up(z.size, m[i].align) + m[i].size;
    }
    z.size = up(z.size, z.align); z.id = (decl_id)crefl_decl_idx(r); return z;
}
static unsigned KINDS;
static uint64_t count(void) { uint64_t n = sym_u32("count"); return n; }
static uint64_t few(void) { static const uint64_t N[] = { 0, 1, 5, 4096 }; return N[sym_choose(0, 3, "few")]; } // one factor of a product is a constant
static lay any_type(decl_db *db, unsigned k)
{
    switch (k) {
    case 0: return basic(db, "byte"); case 1: return basic(db, "ushort"); case 2: return basic(db, "float"); case 3: return basic(db, "long"); case 4: return basic(db, "quad"); case 5: return basic(db, "bool"); case 6: return basic(db, "cdouble"); case 7: return basic(db, "cquad");
    case 8: { lay p = wrap(db, _decl_pointer, basic(db, "byte")); crefl_decl_ptr(crefl_lookup(db, p.id))->_width = 64; p.size = p.align = 64; return p; }
    case 9: return array(db, basic(db, "byte"), count());
    case 10: { uint64_t a = sym_param("outer") ? few() : count(), b = sym_param("outer") ? count() : few(); return array(db, array(db, basic(db, "int"), a), b); }
    case 11: { lay m[2] = { basic(db, "byte"), basic(db, "int") }; return record(db, 0, m, 2); }
    case 12: { lay m[2] = { basic(db, "short"), array(db, basic(db, "ubyte"), count()) }; return record(db, 1, m, 2); }
    case 13: return sized(db, _decl_enum, 32); case 14: return sized(db, _decl_set, 8ull << sym_choose(0, 3, "set width"));
    case 15: return wrap(db, _decl_typedef, basic(db, "double")); case 16: return wrap(db, _decl_qualifier, wrap(db, _decl_typedef, basic(db, "short")));
    case 17: { uint64_t a = few(); lay m[2] = { basic(db, "byte"), array(db, wrap(db, _decl_typedef, sized(db, _decl_enum, 16)), count()) }; return array(db, wrap(db, _decl_alias, record(db, 0, m, 2, 1)), a); }
    case 18: { lay m[1] = { basic(db, "int") }; return record(db, (int)sym_choose(0, 1, "union"), m, 0); }
    default: { lay in[2] = { basic(db, "short"), basic(db, "byte") }; lay m[2] = { record(db, 0, in, 2), wrap(db, _decl_pointer, basic(db, "int")) }; crefl_decl_ptr(crefl_lookup(db, m[1].id))->_width = 64; m[1].size = m[1].align = 64; return record(db, 1, m, 2); }
    }
}
enum { NK = 20 };
static unsigned lg(uint64_t a) { unsigned n = 0; while ((1ull << n) < a) n++; return n; }
extern size_t crefl_type_align(decl_ref d), crefl_struct_align(decl_ref d), crefl_union_align(decl_ref d);
HARNESS layout_types()
{
    decl_db *db = fresh(); unsigned k = (unsigned)sym_choose(0, NK - 1, "kind"); lay x = any_type(db, k); decl_ref d = crefl_lookup(db, x.id);
    sym_assert(crefl_type_width(d) == x.size, "the size of a type is that of the C ABI");
    decl_tag t = crefl_decl_tag(d);
    sym_assert(crefl_struct_width(d) == (t == _decl_struct ? x.size : 0) && crefl_union_width(d) == (t == _decl_union ? x.size : 0) && crefl_pointer_width(d) == (t == _decl_pointer ? x.size : 0) && crefl_intrinsic_width(d) == (t == _decl_intrinsic ? x.size : 0), "sizes by kind");
    lay pair[2] = { basic(db, "byte"), x }; lay s = record(db, 0, pair, 2); sym_assert(crefl_struct_width(crefl_lookup(db, s.id)) == s.size, "alignment shows behind an octet");
    crefl_db_destroy(db);
}
HARNESS layout_struct()
{
    decl_db *db = fresh(); int n = (int)sym_param("fields"), un = (int)sym_param("union"), noise = (int)sym_choose(0, 1, "nested types"); lay m[4];
    unsigned k0 = (unsigned)sym_param("first"); for (int i = 0; i < n; i++) m[i] = any_type(db, i == 0 ? k0 : (unsigned)sym_choose(0, NK - 1, "kind"));
    lay s = record(db, un, m, n, noise); decl_ref d = crefl_lookup(db, s.id);
    sym_assert(crefl_type_width(d) == s.size, "the size of a record is that of the C ABI");
    decl_ref r[6]; size_t o[6], lim = sym_choose(0, 5, "limit"), c = lim; for (int i = 0; i < 6; i++) { r[i].db = 0; r[i].decl_idx = 77; o[i] = 77; }
    int ret = crefl_struct_fields_offsets(d, r, o, &c);
    if (un) { sym_assert(ret == -1 && c == lim, "only structures have offsets"); sym_cover("union"); }
    else {
        sym_cover("struct"); sym_assert(ret == 0 && c == (size_t)n + 1, "every field and the end is counted");
        uint64_t off = 0; for (int i = 0; i < n; i++) { off = up(off, m[i].align); if ((size_t)i < lim) sym_assert((o[i] == off) & (crefl_field_type(r[i]).decl_idx == m[i].id) & (r[i].db == db), "fields are in order at the offsets of the C ABI"); off += m[i].size; }
        if ((size_t)n < lim) sym_assert((o[n] == s.size) & (r[n].decl_idx == 0), "the end is the size of the structure");
        for (size_t i = lim < (size_t)n + 1 ? lim : n + 1; i < 6; i++) sym_assert(r[i].decl_idx == 77 && o[i] == 77, "no more than asked for is given");
    }
    crefl_db_destroy(db);
}
