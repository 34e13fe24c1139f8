// Type hashes and qualified names of declarations; merging of databases.
#include "sym.h"
#include <crefl/model.h>
#include <crefl/link.h>
#include <string>
static int vf_sha_fork;
#include "vf_sha.inc"
static decl_node *nd(decl_db *db, decl_id i) { return &db->decl[i]; }
static const char *nm(decl_db *db, decl_id i) { return db->name + db->decl[i]._name; }
static int is_list(decl_tag t) { return t == _decl_archive || t == _decl_source || t == _decl_set || t == _decl_enum || t == _decl_struct || t == _decl_union || t == _decl_function; }
static decl_db *fresh(void) { decl_db *db = crefl_db_new(); crefl_db_defaults(db); return db; }
static decl_id mk(decl_db *db, decl_tag t, const char *name) { decl_ref r = crefl_decl_new(db, t); decl_id i = crefl_decl_idx(r); if (name) { decl_id s = crefl_name_new(db, name); nd(db, i)->_name = s; } return i; }
// ---- what is specified: one walk in the order of the links; a single link to a declaration being walked is a reference by name
struct walk { decl_db *db; uint8_t state[160], byname[160]; std::string fqn[160]; };
static void visit(walk *w, decl_id d, decl_id parent, std::string prefix)
{
    decl_node *n = nd(w->db, d); decl_tag pt = nd(w->db, parent)->_tag; const char *name = nm(w->db, d);
    if (w->state[d] == 2) return;
    if (pt == _decl_source || pt == _decl_archive) prefix = name;
    else if (n->_tag != _decl_array && n->_tag != _decl_pointer && *name) prefix = prefix.size() ? prefix + "::" + name : std::string(name);
    w->state[d] = 1;
    for (decl_id a = n->_attr; a; a = nd(w->db, a)->_next) visit(w, a, d, prefix);
    if (n->_link) {
        if (is_list(n->_tag)) for (decl_id c = n->_link; c; c = nd(w->db, c)->_next) visit(w, c, d, prefix);
        else if (w->state[n->_link] == 1) w->byname[d] = 1;
        else visit(w, n->_link, d, prefix);
    }
    w->state[d] = 2; w->fqn[d] = prefix;
}
static int same_name(const char *a, const char *b) { size_t n = strlen(a); if (n != strlen(b)) return 0; int e = 1; for (size_t i = 0; i < n; i++) e &= a[i] == b[i]; return e; }
static int iso(walk *x, decl_id a, walk *y, decl_id b)
{
    decl_node *m = nd(x->db, a), *n = nd(y->db, b);
    if (m->_tag != n->_tag) return 0;
    int e = same_name(nm(x->db, a), nm(y->db, b)); e &= m->_props == n->_props; e &= m->_quantity == n->_quantity;
    decl_id i = m->_attr, j = n->_attr; for (; i && j; i = nd(x->db, i)->_next, j = nd(y->db, j)->_next) e &= iso(x, i, y, j);
    if (i || j || !m->_link != !n->_link) return 0;
    if (!m->_link) return e;
    i = m->_link; j = n->_link;
    if (is_list(m->_tag)) { for (; i && j; i = nd(x->db, i)->_next, j = nd(y->db, j)->_next) e &= iso(x, i, y, j); return i || j ? 0 : e; }
    if (x->byname[a] != y->byname[b]) return 0;
    if (x->byname[a]) return e & (nd(x->db, i)->_tag == nd(y->db, j)->_tag ? same_name(nm(x->db, i), nm(y->db, j)) : 0);
    return e & iso(x, i, y, j);
}
static void judge_index(walk *w, decl_index *ix)
{
    for (decl_id i = 1; i < w->db->decl_offset; i++) {
        decl_entry_ref er = crefl_entry_ref(ix, decl_ref { w->db, i });
        if (w->state[i] == 2) {
            sym_assert(crefl_entry_is_valid(er) && crefl_entry_is_marked(er), "every declaration within reach of the root has a hash");
            const char *f = crefl_entry_fqn(er); sym_assert(strlen(f) == w->fqn[i].size(), "the qualified name has the names of the enclosing declarations");
            for (size_t k = 0; k < w->fqn[i].size(); k++) sym_assert(f[k] == w->fqn[i][k], "the qualified name has the names of the enclosing declarations");
        } else sym_assert(!crefl_entry_is_valid(er) && !*crefl_entry_fqn(er), "a declaration out of reach has no hash and no qualified name");
    }
}
static int same_hash(decl_index *x, decl_db *a, decl_id i, decl_index *y, decl_db *b, decl_id j) { decl_entry *p = crefl_entry_ptr(crefl_entry_ref(x, decl_ref { a, i })), *q = crefl_entry_ptr(crefl_entry_ref(y, decl_ref { b, j })); int e = 1; for (int k = 0; k < 28; k++) e &= p->hash.sum[k] == q->hash.sum[k]; return e; }
static decl_id arb_name(decl_db *db, int lim)
{
    char t[4] = { 0 }; size_t n = lim > 0 ? sym_choose(0, (uint64_t)lim, "name length") : (size_t)-lim; sym_bytes(t, n, "name"); for (size_t i = 0; i < n; i++) sym_assume(t[i] != 0 && t[i] != ';');
    return crefl_name_new(db, t);
}
static void content(decl_db *db, decl_id i, int lim) { decl_id s = lim ? arb_name(db, lim) : 0; decl_node *n = nd(db, i); n->_name = s; n->_props = sym_u32("props"); n->_quantity = sym_u64("quantity"); }
// a source with x, which has y and z below it in every way within the bounds; second: numbered the other way round with more nodes in front
static decl_id tree(decl_db *db, int second, int cyc, decl_tag xt, int shape, int names)
{
    decl_id id[4], junk = second ? 3 : 0; for (decl_id i = 0; i < junk; i++) mk(db, _decl_field, "junk");
    for (int i = 0; i < 4; i++) id[second ? 3 - i : i] = mk(db, 0, 0);
    decl_id root = id[0], x = id[1], y = id[2], z = id[3], intr = 3;
    decl_node *n = nd(db, root); n->_tag = _decl_source; n->_link = x; db->root_element = root;
    content(db, x, names); content(db, y, names ? -1 : 0); content(db, z, names ? -1 : 0);
    nd(db, x)->_tag = xt;
    if (cyc) { // x is a structure of a field y, whose type z leads back to x (or not)
        nd(db, x)->_link = y; nd(db, y)->_tag = _decl_field; static const decl_tag T[] = { _decl_pointer, _decl_struct }; 
        decl_id yl[] = { z, x, 0 }; nd(db, y)->_link = yl[sym_choose(0, 2, "y link")]; nd(db, z)->_tag = T[sym_choose(0, 1, "z tag")];
        decl_id zl[] = { 0, x, intr }; nd(db, z)->_link = nd(db, z)->_tag == _decl_struct ? 0 : zl[sym_choose(0, 2, "z link")];
        if (sym_choose(0, 1, "y next z")) nd(db, y)->_next = z;
        return x;
    }
    static const struct { uint8_t xl, xa, yn, yl, ya; } S[] = { // 1: y, 2: z, 3: an intrinsic
        { 0, 0, 0, 0, 0 }, { 3, 0, 0, 0, 0 }, { 1, 0, 0, 0, 0 }, { 1, 0, 2, 0, 0 }, { 1, 0, 0, 2, 0 }, { 1, 0, 2, 2, 0 }, { 1, 0, 0, 3, 0 }, { 1, 0, 2, 3, 0 },
        { 0, 1, 0, 0, 0 }, { 0, 1, 2, 0, 0 }, { 2, 1, 0, 0, 0 }, { 2, 1, 2, 0, 0 }, { 1, 2, 0, 0, 0 }, { 1, 2, 2, 0, 0 }, { 0, 1, 0, 2, 0 }, { 1, 0, 0, 0, 2 }, { 1, 2, 0, 2, 0 }, { 3, 1, 2, 0, 0 } };
    decl_id at[] = { 0, y, z, intr };
    static const decl_tag YT[] = { _decl_field, _decl_pointer, _decl_enum };
    nd(db, x)->_link = at[S[shape].xl]; nd(db, x)->_attr = at[S[shape].xa]; nd(db, y)->_next = at[S[shape].yn]; nd(db, y)->_link = at[S[shape].yl]; nd(db, y)->_attr = at[S[shape].ya];
    nd(db, y)->_tag = S[shape].xa == 1 ? _decl_attribute : YT[sym_choose(0, 1, "y tag")]; nd(db, z)->_tag = _decl_array;
    return x;
}
enum { SHAPES = 18 };
static void compare(int cyc)
{
    decl_db *a = fresh(), *b = fresh(); static const decl_tag XT[] = { _decl_struct, _decl_pointer, _decl_union };
    int s1 = cyc ? 0 : (int)sym_param("shape"), s2 = cyc ? 0 : (int)sym_choose(0, SHAPES - 1, "other shape"), names = (int)sym_param("names");
    decl_tag t1 = XT[cyc ? 0 : sym_param("tag")], t2 = XT[cyc ? 0 : sym_choose(0, 1, "other tag")];
    decl_id x = tree(a, 0, cyc, t1, s1, names), y = tree(b, 1, cyc, t2, s2, names);
    if (sym_choose(0, 1, "followed")) { decl_id m = mk(b, _decl_typedef, "more"); nd(b, y)->_next = m; }
    static walk v, w; v.db = a; w.db = b; visit(&v, a->root_element, 0, ""); visit(&w, b->root_element, 0, "");
    decl_index *i = crefl_index_new(), *j = crefl_index_new(); crefl_index_scan(i, a); crefl_index_scan(j, b);
    int eq = iso(&v, x, &w, y), h = same_hash(i, a, x, j, b, y);
    sym_assert(h | !eq, "equal declarations have equal hashes"); sym_assert(!h | eq, "different declarations have different hashes");
    if (eq) sym_cover("equal"); else sym_cover("different");
    judge_index(&v, i); judge_index(&w, j);
    crefl_index_destroy(i); crefl_index_destroy(j); crefl_db_destroy(a); crefl_db_destroy(b);
}
HARNESS hash_trees() { compare(0); }
HARNESS hash_cycles() { compare(1); }
// every pair of kinds of declarations
HARNESS hash_tags()
{
    decl_db *a = fresh(), *b = fresh(); decl_tag s = (decl_tag)sym_choose(0, 18, "tag"), t = (decl_tag)sym_choose(0, 18, "other tag"); int sh = sym_param("attr") ? 13 : 7;
    decl_id x = tree(a, 0, 0, s, sh, 0), y = tree(b, 1, 0, t, sh, 0); static walk v, w; v.db = a; w.db = b; visit(&v, a->root_element, 0, ""); visit(&w, b->root_element, 0, "");
    decl_index *i = crefl_index_new(), *j = crefl_index_new(); crefl_index_scan(i, a); crefl_index_scan(j, b); int eq = iso(&v, x, &w, y), h = same_hash(i, a, x, j, b, y);
    sym_assert(h | !eq, "equal declarations have equal hashes"); sym_assert(!h | eq, "different declarations have different hashes"); if (s == t) sym_cover("same kind"); judge_index(&v, i); judge_index(&w, j);
    crefl_index_destroy(i); crefl_index_destroy(j); crefl_db_destroy(a); crefl_db_destroy(b);
}
// many declarations with long names, nested and side by side
static decl_id many(decl_db *db, int n, int depth, const char *name, uint64_t q)
{
    decl_id root = mk(db, _decl_source, "s.c"), last = 0, up; db->root_element = root;
    for (int i = 0; i < n; i++) { decl_id d = mk(db, _decl_field, name); nd(db, d)->_quantity = q + (uint64_t)i; if (last) nd(db, last)->_next = d; else nd(db, root)->_link = d; last = d; }
    up = mk(db, _decl_struct, name); if (last) nd(db, last)->_next = up; else nd(db, root)->_link = up;
    for (int i = 0; i < depth; i++) { decl_id d = mk(db, i % 3 == 2 ? _decl_pointer : _decl_struct, i % 4 ? name : 0); nd(db, d)->_props = (decl_set)i; nd(db, up)->_link = d; up = d; }
    return root;
}
HARNESS hash_grow()
{
    static const int LEN[] = { 1, 2, 13, 14, 29, 30, 31, 32, 61, 62, 63, 64, 130 }; int n = (int)sym_param("wide"), depth = (int)sym_param("deep"), len = LEN[sym_choose(0, 12, "length")];
    char name[140]; memset(name, 'n', sizeof name); name[len] = 0; char c[2]; sym_bytes(c, 2, "ends"); sym_assume(c[0] && c[0] != ';' && c[1] && c[1] != ';'); name[0] = c[0]; name[len - 1] = c[1]; uint64_t q = sym_u64("quantity");
    decl_db *a = fresh(), *b = fresh(); int junk = (int)sym_param("junk"); for (int i = 0; i < junk; i++) mk(b, _decl_field, "junk"); decl_id x = many(a, n, depth, name, q), y = many(b, n, depth, name, q);
    static walk v, w; v.db = a; w.db = b; visit(&v, x, 0, ""); visit(&w, y, 0, "");
    decl_index *i = crefl_index_new(), *j = crefl_index_new(); crefl_index_scan(i, a); crefl_index_scan(j, b); judge_index(&v, i); judge_index(&w, j);
    for (decl_id k = 0; x + k < a->decl_offset; k++) sym_assert(same_hash(i, a, x + k, j, b, y + k), "equal declarations have equal hashes");
    for (decl_id k = 1; k < (decl_id)n; k++) sym_assert(!same_hash(i, a, x + k, i, a, x + k + 1), "different declarations have different hashes");
    sym_cover("many"); crefl_index_destroy(i); crefl_index_destroy(j); crefl_db_destroy(a); crefl_db_destroy(b);
}
// ---- merging
static decl_id earlier(decl_db *db, decl_id list) { for (decl_id i = list; i; i = nd(db, i)->_next) if (is_list(nd(db, i)->_tag) && nd(db, i)->_tag != _decl_function) return i; return 3; }
static decl_id sub(decl_db *db, decl_id up, decl_tag t, const char *name, decl_id link) { decl_id d = mk(db, t, name); nd(db, d)->_link = link; if (!nd(db, up)->_link) nd(db, up)->_link = d; else { decl_id k = nd(db, up)->_link; while (nd(db, k)->_next) k = nd(db, k)->_next; nd(db, k)->_next = d; } return d; }
static decl_id pointer(decl_db *db, decl_id to) { decl_id p = mk(db, _decl_pointer, 0); nd(db, p)->_link = to; nd(db, p)->_quantity = 64; return p; }
enum { KINDS = 10 };
// a declaration of the kinds the compiler plugin makes, with arbitrary name, properties and sizes
static decl_id decl(decl_db *db, int kind, decl_id first)
{
    char name[2] = { (char)sym_u8("name"), 0 }; sym_assume(name[0] && name[0] != ';'); decl_id e = earlier(db, first), d, f; uint32_t props = sym_u32("props"); uint64_t q = sym_u64("quantity");
    switch (kind) {
    case 0: d = mk(db, _decl_struct, name); f = sub(db, d, _decl_field, "f", 3); nd(db, f)->_props = props; nd(db, f)->_quantity = q; sub(db, d, _decl_field, "g", 4); break;
    case 1: d = mk(db, _decl_struct, name); f = sub(db, d, _decl_field, "next", 0); nd(db, f)->_link = pointer(db, d); nd(db, f)->_quantity = q; break;
    case 2: d = mk(db, _decl_typedef, name); nd(db, d)->_link = e; nd(db, d)->_props = props; break;
    case 3: d = mk(db, _decl_function, name); f = sub(db, d, _decl_param, "", 3); nd(db, d)->_quantity = q; f = sub(db, d, _decl_param, "p", 0); nd(db, f)->_link = pointer(db, e); nd(db, f)->_props = props; break;
    case 4: d = mk(db, _decl_enum, name); nd(db, d)->_quantity = 32; f = sub(db, d, _decl_constant, "A", 0); nd(db, f)->_quantity = q; sub(db, d, _decl_constant, "B", 0); break;
    case 5: d = mk(db, _decl_struct, name); nd(db, d)->_props = props; f = mk(db, _decl_attribute, "packed"); nd(db, d)->_attr = f; { decl_id g = mk(db, _decl_attribute, "aligned"), v = mk(db, _decl_value, 0); nd(db, f)->_next = g; nd(db, g)->_link = v; nd(db, v)->_quantity = q; } break;
    case 6: { d = mk(db, _decl_struct, name); decl_id s = sub(db, d, _decl_struct, 0, 0); f = sub(db, s, _decl_field, "u", 3); nd(db, f)->_quantity = q; sub(db, d, _decl_field, "in", s); break; }
    case 7: d = mk(db, _decl_field, name); nd(db, d)->_props = props; f = mk(db, _decl_array, 0); nd(db, f)->_quantity = q; nd(db, d)->_link = f; nd(db, f)->_link = e; break;
    case 8: d = mk(db, _decl_union, name); sub(db, d, _decl_field, "a", e); f = sub(db, d, _decl_field, "b", e); nd(db, f)->_quantity = q; break;
    default: d = mk(db, _decl_set, name); nd(db, d)->_props = props; break;
    }
    return d;
}
static decl_db *unit(const char *file, int decls, const int *kind)
{
    decl_db *db = fresh(); decl_id root = mk(db, _decl_source, file), last = 0; db->root_element = root;
    for (int i = 0; i < decls; i++) { decl_id d = decl(db, kind[i], nd(db, root)->_link); if (last) nd(db, last)->_next = d; else nd(db, root)->_link = d; last = d; }
    return db;
}
static decl_id resolve(decl_db *db, decl_id i) { int n = 0; while (nd(db, i)->_tag == _decl_alias) { sym_assert(n++ < 100, "aliases lead to a declaration"); i = nd(db, i)->_link; } return i; }
static decl_db *out; static decl_id image[3][160]; static uint8_t reached[400];
static void merged(int k, decl_db *s, decl_id i, decl_id j)
{
    sym_assert(j < out->decl_offset, "links lead to declarations of the output");
    if (nd(s, i)->_tag == _decl_intrinsic) { sym_assert(j == i, "builtin types are referred to as such"); return; }
    while (nd(out, j)->_tag == _decl_alias) { reached[j] = 1; sym_assert(nd(out, j)->_link < out->decl_offset, "links lead to declarations of the output"); if (nd(s, i)->_tag == _decl_alias) break; sym_assert(same_name(nm(out, j), nm(s, i)), "an alias has the name of the declaration"); sym_assert(nd(out, nd(out, j)->_link)->_tag != _decl_alias, "an alias stands for the declaration itself"); j = nd(out, j)->_link; }
    reached[j] = 1; decl_node *a = nd(s, i), *b = nd(out, j); int coll = is_list(a->_tag) && a->_tag != _decl_archive && a->_tag != _decl_source;
    if (a->_tag == _decl_alias) { merged(k, s, resolve(s, i), resolve(out, j)); return; }
    if (coll) { if (image[k][i]) { sym_assert(image[k][i] == j, "a declaration is stored once"); return; } image[k][i] = j; }
    sym_assert(a->_tag == b->_tag, "kinds are kept"); sym_assert(a->_props == b->_props, "properties are kept"); sym_assert(a->_quantity == b->_quantity, "quantities are kept"); sym_assert(same_name(nm(s, i), nm(out, j)), "names are kept");
    decl_id x = a->_attr, y = b->_attr; for (; x && y; x = nd(s, x)->_next, y = nd(out, y)->_next) merged(k, s, x, y); sym_assert(!x && !y, "all attributes are kept, in order");
    x = a->_link; y = b->_link;
    if (is_list(a->_tag)) { for (; x && y; x = nd(s, x)->_next, y = nd(out, y)->_next) merged(k, s, x, y); sym_assert(!x && !y, "all children are kept, in order"); }
    else { sym_assert(!x == !y, "links are kept"); if (x) merged(k, s, x, y); }
}
static int was_shared;
static void once(decl_db **src, int n)
{
    static walk w[3];
    for (int i = 0; i < n; i++) { memset(&w[i], 0, sizeof w[i].state + sizeof(decl_db *)); memset(w[i].byname, 0, sizeof w[i].byname); w[i].db = src[i]; visit(&w[i], src[i]->root_element, 0, ""); }
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) for (decl_id x = 1; x < src[i]->decl_offset; x++) for (decl_id y = 1; y < src[j]->decl_offset; y++)
        if (image[i][x] && image[j][y] && (i != j || x < y) && sym_concretize((uint64_t)iso(&w[i], x, &w[j], y))) { was_shared = 1; sym_assert(image[i][x] == image[j][y], "equal declarations are stored once"); }
}
static void judge_merge(decl_db *o, const char *name, decl_db **src, int n, int hashes)
{
    out = o; memset(image, 0, sizeof image); memset(reached, 0, sizeof reached); decl_id r = o->root_element;
    sym_assert(nd(o, r)->_tag == _decl_archive && !strcmp(nm(o, r), name) && !nd(o, r)->_next && !nd(o, r)->_attr, "the root is an archive with the name of the output"); reached[r] = 1;
    decl_id c = nd(o, r)->_link; for (int i = 0; i < n; i++) { sym_assert(c != 0, "one child for each input, in order"); merged(i, src[i], src[i]->root_element, c); c = nd(o, c)->_next; } sym_assert(c == 0, "one child for each input, in order");
    for (decl_id i = o->decl_builtin; i < o->decl_offset; i++) sym_assert(reached[i], "nothing else is stored");
    decl_db *f = fresh(); sym_assert(o->decl_builtin == f->decl_builtin, "the builtin types are stored first"); for (decl_id i = 1; i < f->decl_offset; i++) sym_assert(!memcmp(nd(f, i), nd(o, i), sizeof(decl_node)) && !strcmp(nm(f, i), nm(o, i)), "the builtin types are stored first"); crefl_db_destroy(f);
    if (hashes) once(src, n);
}
static void merge(decl_db **src, int n, int hashes)
{
    decl_db *o = crefl_db_new(); decl_node *keep[3]; for (int i = 0; i < n; i++) { keep[i] = (decl_node *)malloc(sizeof(decl_node) * src[i]->decl_offset); memcpy(keep[i], src[i]->decl, sizeof(decl_node) * src[i]->decl_offset); }
    sym_assert(crefl_link_merge(o, "d/m", src, (size_t)n) == 0, "merging succeeds"); judge_merge(o, "m", src, n, hashes);
    for (int i = 0; i < n; i++) { sym_assert(!memcmp(keep[i], src[i]->decl, sizeof(decl_node) * src[i]->decl_offset), "the inputs are left alone"); free(keep[i]); }
    if (n == 1 && hashes) { decl_db *again = crefl_db_new(), *one[] = { o }; sym_assert(crefl_link_merge(again, "again", one, 1) == 0, "merging succeeds"); judge_merge(again, "again", one, 1, 0); crefl_db_destroy(again); }
    crefl_db_destroy(o); for (int i = 0; i < n; i++) crefl_db_destroy(src[i]);
}
HARNESS merge_one()
{
    vf_sha_fork = 1; int n = (int)sym_param("decls"), k[3]; k[0] = (int)sym_param("first"); for (int i = 1; i < n; i++) k[i] = (int)sym_choose(0, KINDS - 1, "kind");
    decl_db *s[1] = { unit("a.c", n, k) }; merge(s, 1, 1); if (was_shared) sym_cover("shared");
}
HARNESS merge_two()
{
    vf_sha_fork = 1; int k[4]; k[0] = (int)sym_param("first"); k[1] = (int)sym_param("second"); int m = k[1] < KINDS ? 2 : 1, n = m; k[2] = (int)sym_choose(0, KINDS - 1, "kind"); if (n > 1) k[3] = (int)sym_choose(0, KINDS - 1, "kind");
    decl_db *s[2] = { unit("a.c", m, k), unit("b.c", n, k + 2) }; merge(s, 2, 1); if (was_shared) sym_cover("shared");
}
HARNESS merge_count() { vf_sha_fork = 1; int n = (int)sym_choose(0, 3, "inputs"), k[1] = { (int)sym_choose(0, KINDS - 1, "kind") }; decl_db *s[3]; for (int i = 0; i < n; i++) s[i] = unit("u.c", (int)sym_choose(0, 1, "declarations"), k); merge(s, n, 1); sym_cover("merged"); }
// every kind of declaration with attributes and members
static decl_id decorated(decl_db *db, decl_tag t)
{
    char name[2] = { (char)sym_u8("name"), 0 }; sym_assume(name[0] && name[0] != ';'); decl_id d = mk(db, t, name), f, l = 0; nd(db, d)->_props = sym_u32("props"); int na = (int)sym_choose(0, 3, "attributes"), nc = is_list(t) ? (int)sym_choose(0, 2, "members") : 0;
    for (int i = 0; i < na; i++) { decl_id a = mk(db, _decl_attribute, i ? "aligned" : "packed"); if (i) { decl_id v = mk(db, _decl_value, 0); nd(db, v)->_quantity = sym_u64("quantity"); nd(db, a)->_link = v; } if (l) nd(db, l)->_next = a; else nd(db, d)->_attr = a; l = a; }
    if (!is_list(t)) nd(db, d)->_link = 3;
    for (int i = 0; i < nc; i++) { f = sub(db, d, t == _decl_function ? _decl_param : t == _decl_enum || t == _decl_set ? _decl_constant : _decl_field, i ? "b" : "a", 4); if (!i && sym_choose(0, 1, "attribute of a member")) nd(db, f)->_attr = mk(db, _decl_attribute, "unused"); }
    return d;
}
HARNESS merge_attrs()
{
    vf_sha_fork = 1; static const decl_tag T[] = { _decl_typedef, _decl_set, _decl_enum, _decl_struct, _decl_union, _decl_field, _decl_array, _decl_pointer, _decl_constant, _decl_function, _decl_param, _decl_qualifier, _decl_source, _decl_archive }; decl_tag t = T[sym_param("kind")]; int n = (int)sym_param("sources"); decl_db *s[2];
    for (int i = 0; i < n; i++) { decl_db *db = s[i] = fresh(); decl_id root = mk(db, _decl_source, i ? "b.c" : "a.c"), d; db->root_element = root; if (sym_param("inside")) { decl_id up = sub(db, root, _decl_struct, "s", 0); d = decorated(db, t); nd(db, up)->_link = d; } else { d = decorated(db, t); nd(db, root)->_link = d; } decl_id f = mk(db, _decl_field, "after"); nd(db, f)->_link = 3; nd(db, d)->_next = f; }
    merge(s, n, 1); sym_cover("merged");
}
// outputs of merging merged
HARNESS merge_nested()
{
    vf_sha_fork = 1; int k[4]; k[0] = (int)sym_param("first"); k[1] = (int)sym_choose(0, KINDS - 1, "kind"); k[2] = k[0]; k[3] = k[1];
    decl_db *s[2] = { unit("a.c", 2, k), unit("b.c", 2, k + 2) }, *m[2] = { crefl_db_new(), crefl_db_new() }; crefl_link_merge(m[0], "m", s, 2); crefl_link_merge(m[1], "n", s + 1, 1);
    merge(m, 2, 0); for (int i = 0; i < 2; i++) crefl_db_destroy(s[i]); sym_cover("nested");
}
// two units with structures of the same name but different contents, each with a part that refers back to it
HARNESS merge_mutual()
{
    vf_sha_fork = 1; decl_db *s[2]; for (int i = 0; i < 2; i++) {
        decl_db *db = s[i] = fresh(); decl_id root = mk(db, _decl_source, "u.c"), a = sub(db, root, _decl_struct, "A", 0), b = sub(db, a, _decl_struct, "B", 0), f = sub(db, b, _decl_field, "a", 0); db->root_element = root;
        nd(db, f)->_link = pointer(db, a); f = sub(db, a, _decl_field, "b", b); f = sub(db, a, _decl_field, "x", 3); nd(db, f)->_quantity = sym_u64("quantity");
    }
    merge(s, 2, 0); sym_cover("merged");
}
