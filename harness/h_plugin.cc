// The compiler plug-in on arbitrary declarations, through a stand-in for the clang interface (clang_standin/standin.h).
#define VOUT 30000
#include "sym.h"
#include "vf_tool.inc"
#include <standin.h>
#include <crefl/model.h>
#include <crefl/db.h>
#include <crefl/dump.h>
using namespace clang;
// ---- building a translation unit
static ASTContext CTX; static TranslationUnitDecl *TU; static CompilerInstance *CI; static int64_t next_id;
struct Scope { DeclContext *c; const Decl *d; Stmt *s; };
static Type *mkt(Type::TypeClass c, QualType inner = QualType()) { Type *t = new Type(); t->m_class = c; t->m_prim = Type::Void; t->m_width = c == Type::Pointer ? 64 : 0; t->m_count = 0; t->m_align = 8; t->m_static = false; t->m_inner = inner; t->m_decl = 0; return t; }
static Type *prim(Type::Prim p, uint64_t w) { Type *t = mkt(Type::Builtin); t->m_prim = p; t->m_width = w; return t; }
static void put(Scope s, Decl *d) { d->m_id = next_id += 24; d->m_context = s.c; d->m_parent = s.s ? 0 : s.d; d->m_parent_stmt = s.s; if (s.s) { s.s->m_decls.push_back(d); return; } auto &l = s.c->m_decls; if (!l.empty()) l.back()->m_next = d; l.push_back(d); }
static Scope top() { return Scope { TU, TU, 0 }; }
template <class T> static T *named(T *d, Scope s, const char *n) { d->m_name = n; if (n[0] >= 'a' && n[0] <= 'z') { uint8_t c = sym_u8("name"); sym_assume(c != 0); d->m_name[0] = (char)c; } put(s, d); return d; }
static RecordDecl *record(Scope s, const char *n, bool un, RecordDecl *first = 0) { RecordDecl *r = named(new RecordDecl(un ? TTK_Union : TTK_Struct), s, n); r->m_lexical = s.c; r->m_definition = r; if (first) first->m_definition = r; return r; }
static EnumDecl *enumeration(Scope s, const char *n, QualType q, EnumDecl *first = 0) { EnumDecl *e = named(new EnumDecl(), s, n); e->m_lexical = s.c; e->m_definition = e; e->m_int = q; if (first) first->m_definition = e; return e; }
template <class T> static Scope in(T *d) { return Scope { d, d, 0 }; }
static EnumConstantDecl *constant(EnumDecl *e, const char *n, uint64_t v, unsigned bits = 32, bool u = true) { EnumConstantDecl *c = named(new EnumConstantDecl(), in(e), n); c->m_value = llvm::APSInt(llvm::APInt(bits, v), u); return c; }
static FieldDecl *field(Scope s, const char *n, QualType q) { FieldDecl *f = named(new FieldDecl(), s, n); f->m_type = q; f->m_written.m_type = q; return f; }
static VarDecl *var(Scope s, const char *n, QualType q) { VarDecl *v = named(new VarDecl(), s, n); v->m_type = q; v->m_written.m_type = q; v->m_local = s.s != 0; return v; }
static TypedefDecl *type_name(Scope s, const char *n, QualType q) { TypedefDecl *t = named(new TypedefDecl(), s, n); t->m_type = q; return t; }
static FunctionDecl *function(Scope s, const char *n, QualType r) { FunctionDecl *f = named(new FunctionDecl(), s, n); f->m_lexical = s.c; f->m_return = r; f->m_global = true; f->m_extern_c = true; return f; }
static ParmVarDecl *parm(FunctionDecl *f, const char *n, QualType q) { ParmVarDecl *p = new ParmVarDecl(); p->m_name = n; p->m_id = next_id += 24; p->m_context = f; p->m_parent = f; p->m_type = q->isArrayType() ? QualType(mkt(Type::Pointer, q->getAsArrayTypeUnsafe()->getElementType())) : q; p->m_original = q; p->m_written.m_type = q; f->m_parms.push_back(p); return p; }
static QualType tagged(TagDecl *d) { Type *t = mkt(d->isEnum() ? Type::Enum : Type::Record); t->m_decl = d; return mkt(Type::Elaborated, t); }
static void begin() { TU = new TranslationUnitDecl(); TU->m_id = next_id = 1000; CI = new CompilerInstance(); CI->m_context.m_tu = TU; vput(&vfiles[0], "out", "", 0, 40000); vfiles[0].exists = 0; }
static unsigned seen; // what was met: 1 qualified, 2 pointer, 4 array, 8 tagged, 16 attribute, 32 typedef, 64 constant, 128 field, 256 variable, 512 parameter, 1024 function
// ---- what the database has to say about it
static decl_db *D; static decl_id where_id[64]; static const Decl *where_decl[64]; static int nwhere;
static decl_node *at(decl_id n) { sym_assert(n < D->decl_offset, "links lead to declarations"); return &D->decl[n]; }
static void same(decl_id n, const char *want, size_t len, const char *msg) { const char *s = D->name + at(n)->_name; sym_assert(at(n)->_name + len < D->name_offset, msg); int e = 1; for (size_t i = 0; i < len; i++) e &= s[i] == want[i]; e &= s[len] == 0; sym_assert(e, msg); }
static void node_is(decl_id n, decl_tag tag, const std::string &name, decl_set props, decl_sz qty)
{
    decl_node *x = at(n); sym_assert(n > 0 && x->_tag == tag, "declarations have their kind"); same(n, name.data(), name.size(), "declarations have their name"); sym_assert(x->_props == props, "declarations have their properties"); sym_assert(x->_quantity == qty, "declarations have their value or width");
}
static decl_id builtin(const char *name) { decl_id r = 0; for (decl_id i = 1; i < D->decl_builtin && !r; i++) if (D->decl[i]._tag == _decl_intrinsic && !strcmp(D->name + D->decl[i]._name, name)) r = i; return r; }
static const char *prim_name(const Type *t)
{
    int w = t->m_width == 8 ? 0 : t->m_width == 16 ? 1 : t->m_width == 32 ? 2 : t->m_width == 64 ? 3 : t->m_width == 128 ? 4 : 5;
    static const char *U[] = { "ubyte", "ushort", "uint", "ulong", "ucent" }, *S[] = { "byte", "short", "int", "long", "cent" }, *F[] = { "", "half", "float", "double", "quad" }, *C[] = { "", "", "chalf", "cfloat", "cdouble", "cquad" };
    return t->m_class == Type::Complex ? C[w] : t->m_prim == Type::Void ? "void" : t->m_prim == Type::Bool ? "bool" : t->m_prim == Type::Signed ? S[w] : t->m_prim == Type::Unsigned ? U[w] : F[w];
}
static bool voidish(const Type *t) { return t->m_class == Type::FunctionProto || ((t->m_class == Type::Record || t->m_class == Type::Enum) && t->isIncompleteType()) || (t->m_class == Type::Builtin && t->m_prim == Type::Void); }
static std::string cvr(unsigned q) { return std::string(q & 1 ? "const_" : "") + (q & 4 ? "volatile_" : "") + (q & 2 ? "restrict_" : ""); }
static std::string decimal(uint64_t v) { char t[24]; int n = 0; do t[n++] = (char)('0' + v % 10); while (v /= 10); std::string s; while (n) s.push_back(t[--n]); return s; }
static std::string text(QualType q) // the name of a type
{
    const Type *t = q->canon(); std::string s = cvr(q.m_q);
    if (voidish(t)) return s + "void";
    switch (t->m_class) {
    case Type::Pointer: return s + "*" + text(t->m_inner); case Type::ConstantArray: return s + "[" + decimal(t->m_count) + "]" + text(t->m_inner); case Type::IncompleteArray: return s + "[]" + text(t->m_inner); case Type::VariableArray: return s + "[*]" + text(t->m_inner);
    case Type::Record: case Type::Enum: return s + ((const TagType *)t)->getDecl()->m_name; default: return s + prim_name(t);
    }
}
static void type_is(decl_id n, QualType q)
{
    const Type *t = q->canon();
    if (q.m_q) { node_is(n, _decl_qualifier, text(q), (q.m_q & 1 ? _decl_const : 0) | (q.m_q & 4 ? _decl_volatile : 0) | (q.m_q & 2 ? _decl_restrict : 0), 0); sym_assert(at(n)->_attr == 0, "types have no attributes"); n = at(n)->_link; seen |= 1; }
    if (voidish(t)) { sym_assert(n == builtin("void"), "incomplete types and functions are void"); return; }
    QualType u(t);
    switch (t->m_class) {
    case Type::Pointer: node_is(n, _decl_pointer, text(u), 0, t->m_width); type_is(at(n)->_link, t->m_inner); seen |= 2; break;
    case Type::ConstantArray: case Type::IncompleteArray: case Type::VariableArray: node_is(n, _decl_array, text(u), (t->m_class == Type::VariableArray ? _decl_vla : 0) | (t->m_static ? _decl_static : 0), t->m_class == Type::ConstantArray ? t->m_count : 0); type_is(at(n)->_link, t->m_inner); seen |= 4; break;
    case Type::Record: case Type::Enum: { const Decl *d = ((const TagType *)t)->getDecl(); decl_id w = 0; for (int i = 0; i < nwhere; i++) if (where_decl[i] == d) w = where_id[i]; if (w) { sym_assert(n == w, "a type is the declaration that defines it"); seen |= 8; } else sym_assert(n == 0 || at(n)->_tag == (t->m_class == Type::Enum ? _decl_enum : ((const TagType *)t)->getDecl()->isUnion() ? _decl_union : _decl_struct), "a type declared elsewhere has its kind"); break; }
    default: sym_assert(n == builtin(prim_name(t)), "basic types are the builtin ones"); break;
    }
}
static void attrs_are(decl_id n, const Decl *d)
{
    decl_id a = at(n)->_attr; static const char *const N[] = { "always_inline", "deprecated", "pure", "packed", "used", "unused", "warn_unused_result", "alias", "aligned", "annotate" };
    for (const Attr *x : d->m_attrs) {
        if (x->m_kind == attr::Other) continue;
        node_is(a, _decl_attribute, N[x->m_kind], 0, 0); decl_id v = at(a)->_link; seen |= 16;
        if (x->m_kind == attr::Aligned) { node_is(v, _decl_value, "", 0, x->m_value); sym_assert(at(v)->_link == 0 && at(v)->_next == 0, "a value is alone"); } else if (x->m_kind >= attr::Alias) { node_is(v, _decl_value, x->m_text, 0, 0); sym_assert(at(v)->_link == 0 && at(v)->_next == 0, "a value is alone"); } else sym_assert(v == 0, "attributes without a value");
        a = at(a)->_next;
    }
    sym_assert(a == 0, "no more attributes than written");
}
static bool reflected(const Decl *d) { return !d->m_implicit && d->m_kind != Decl::PragmaComment && d->m_kind != Decl::Empty; }
static void children(decl_id first, const DeclContext *c, int pass);
static void declared(decl_id n, const Decl *d, int pass)
{
    const NamedDecl *x = (const NamedDecl *)d; const std::string &s = x->m_name;
    if (pass == 0) { sym_assert(n > 0 && n < D->decl_offset, "every declaration is recorded"); sym_assert(nwhere < 64, "the harness has room"); for (int i = 0; i < nwhere; i++) sym_assert(where_id[i] != n, "every declaration is recorded once"); where_decl[nwhere] = d; where_id[nwhere++] = n; } else attrs_are(n, d);
    switch (d->m_kind) {
    case Decl::Typedef: if (pass) { node_is(n, _decl_typedef, s, 0, 0); type_is(at(n)->_link, static_cast<const TypedefDecl *>(d)->m_type); seen |= 32; } break;
    case Decl::Enum: { const EnumDecl *e = static_cast<const EnumDecl *>(d); if (pass) node_is(n, _decl_enum, s, 0, e->m_int.isNull() ? 0 : e->m_int->canon()->m_width); children(at(n)->_link, e, pass); break; }
    case Decl::Record: { const RecordDecl *r = static_cast<const RecordDecl *>(d); if (pass) node_is(n, r->isUnion() ? _decl_union : _decl_struct, s, 0, 0); children(at(n)->_link, r, pass); break; }
    case Decl::EnumConstant: if (pass) { const EnumConstantDecl *c = static_cast<const EnumConstantDecl *>(d); node_is(n, _decl_constant, s, 0, (decl_sz)c->m_value.getExtValue()); type_is(at(n)->_link, static_cast<const EnumDecl *>(d->m_parent)->m_int); seen |= 64; } break;
    case Decl::Field: if (pass) { const FieldDecl *f = static_cast<const FieldDecl *>(d); node_is(n, _decl_field, s, f->m_bits ? _decl_bitfield : 0, f->m_bits ? f->m_width : 0); type_is(at(n)->_link, f->m_type); seen |= 128; } break;
    case Decl::Var: if (pass) { const VarDecl *v = static_cast<const VarDecl *>(d); node_is(n, _decl_field, s, (v->m_extern_c ? _decl_extern_c : 0) | (v->m_duration == SD_Static ? _decl_static : 0), 0); type_is(at(n)->_link, v->m_type); seen |= 256; } break;
    case Decl::Function: if (pass) {
        const FunctionDecl *f = static_cast<const FunctionDecl *>(d); node_is(n, _decl_function, s, (f->m_global ? _decl_global : 0) | (f->m_extern_c ? _decl_extern_c : 0) | (f->m_static ? _decl_static : 0) | (f->m_inline ? _decl_inline : 0) | (f->m_noreturn ? _decl_noreturn : 0), 0);
        decl_id p = at(n)->_link; node_is(p, _decl_param, "", _decl_out, 0); sym_assert(at(p)->_attr == 0, "parameters have no attributes"); type_is(at(p)->_link, f->m_return); p = at(p)->_next;
        for (const ParmVarDecl *a : f->m_parms) { node_is(p, _decl_param, a->m_name, 0, 0); sym_assert(at(p)->_attr == 0, "parameters have no attributes"); type_is(at(p)->_link, a->m_original); p = at(p)->_next; seen |= 512; }
        sym_assert(p == 0, "a function has no more parameters"); seen |= 1024; } break;
    default: break;
    }
}
static void children(decl_id n, const DeclContext *c, int pass)
{
    for (const Decl *d : c->m_decls) if (reflected(d)) { sym_assert(n > 0 && n < D->decl_offset, "every declaration is recorded"); declared(n, d, pass); n = at(n)->_next; }
    sym_assert(n == 0, "nothing else is recorded");
}
static void recorded(decl_db *db, const char *source)
{
    D = db; nwhere = 0; decl_id r = db->root_element; node_is(r, _decl_source, source, 0, 0); sym_assert(at(r)->_next == 0 && at(r)->_attr == 0, "one source"); children(at(r)->_link, TU, 0); children(at(r)->_link, TU, 1);
}
// ---- running the plug-in
static void act(const char *input, const char *a0, const char *a1 = 0, const char *a2 = 0, const char *a3 = 0)
{
    PluginASTAction *p = FrontendPluginRegistry::maker()(); p->m_ci = CI; p->m_input.m_file = input; std::vector<std::string> v; if (a0) v.push_back(a0); if (a1) v.push_back(a1); if (a2) v.push_back(a2); if (a3) v.push_back(a3);
    sym_assert(!strcmp(FrontendPluginRegistry::name(), "crefl"), "the plug-in is known as crefl"); sym_assert(p->ParseArgs(*CI, v), "the options are understood"); sym_assert(p->getActionType() == PluginASTAction::ReplaceAction, "the plug-in takes the place of the compiler's action"); { std::unique_ptr<ASTConsumer> c = p->CreateASTConsumer(*CI, input); }
    p->EndSourceFileAction(); sym_assert(p->m_ended == 1, "the action is ended"); delete p;
}
static decl_db *output() { sym_assert(vopened == 0 && vfiles[0].exists, "the output is written"); decl_db *db = crefl_db_new(); sym_assert(crefl_db_read_mem(db, vfiles[0].data, vfiles[0].size) == 0, "the output is a database"); return db; }
static void run_and_check() { act("dir/in.h", "-o", "out"); sym_assert(vlen[0] == 0 && vlen[1] == 0, "success is silent"); recorded(output(), "in.h"); }
// ---- what is declared
static QualType qualify(QualType q) { return q->isArrayType() || q->isFunctionType() || q.m_q ? q : QualType(q.m_t, sym_u8("qualifiers") & 7); }
static RecordDecl *S1, *S2, *U1; static EnumDecl *E1; static RecordDecl *OP;
static QualType basic()
{
    static const struct { Type::Prim p; unsigned w; } B[] = { { Type::Bool, 8 }, { Type::Signed, 8 }, { Type::Unsigned, 8 }, { Type::Signed, 16 }, { Type::Unsigned, 16 }, { Type::Signed, 32 }, { Type::Unsigned, 32 }, { Type::Signed, 64 }, { Type::Unsigned, 64 }, { Type::Signed, 128 }, { Type::Unsigned, 128 }, { Type::Floating, 16 }, { Type::Floating, 32 }, { Type::Floating, 64 }, { Type::Floating, 128 } };
    uint64_t k = sym_choose(0, 18, "basic"); if (k < 15) return prim(B[k].p, B[k].w); Type *t = mkt(Type::Complex); t->m_prim = Type::Floating; t->m_width = 32ull << (k - 15); return t;
}
static QualType some(int depth, int object)
{
    // 0 int, 1..4 tagged, 5 opaque, 6 void, 7 function, 8 pointer, 9..11 arrays, 12 typedef
    uint64_t k = sym_choose(0, depth ? 12 : 6, "type"); if (object) sym_assume(k != 5 && k != 6 && k != 7);
    switch (k) {
    case 0: return prim(Type::Signed, 32); case 1: return tagged(S1); case 2: return tagged(S2); case 3: return tagged(U1); case 4: return tagged(E1); case 5: return tagged(OP); case 6: return prim(Type::Void, 0); case 7: return mkt(Type::FunctionProto);
    case 8: return mkt(Type::Pointer, qualify(some(depth - 1, 0)));
    case 9: case 10: case 11: { Type *t = mkt(k == 9 ? Type::ConstantArray : k == 10 ? Type::IncompleteArray : Type::VariableArray, qualify(some(depth - 1, 1))); if (k == 9) { t->m_count = sym_u64("elements"); sym_assume(t->m_count < 10 || (depth > 1 && t->m_count == ~0ull)); t->m_static = sym_u8("static") & 1; } return t; }
    default: return mkt(Type::Typedef, some(depth - 1, object));
    }
}
HARNESS plug_basic()
{
    begin(); int n = (int)sym_choose(0, 1, "qualified"); QualType q = basic(); if (n) q = qualify(q);
    switch (sym_choose(0, 4, "where")) { case 0: var(top(), "v", q); break; case 1: type_name(top(), "t", q); break; case 2: { RecordDecl *r = record(top(), "s", false); field(in(r), "f", q); break; } case 3: function(top(), "f", q); break; case 4: { FunctionDecl *f = function(top(), "f", prim(Type::Void, 0)); parm(f, "p", q); break; } }
    run_and_check(); if (seen & 1) sym_cover("qualified"); if (seen & 32) sym_cover("typedef"); if (seen & 128) sym_cover("field"); if (seen & 256) sym_cover("variable"); if (seen & 512) sym_cover("parameter"); if (seen & 1024) sym_cover("function");
}
HARNESS plug_types()
{
    begin(); int place = (int)sym_param("where"), depth = (int)sym_param("depth"); bool later = sym_param("later"); RecordDecl *fwd = record(top(), "late", false), *s = 0; fwd->m_definition = 0; OP = record(top(), "op", false); OP->m_definition = 0;
    S1 = record(top(), "s1", false); field(in(S1), "a", prim(Type::Signed, 32)); U1 = record(top(), "u1", true); E1 = enumeration(top(), "e1", prim(Type::Unsigned, 32)); constant(E1, "k", 1); S2 = fwd; if (!later) { S2 = record(top(), "late", false, fwd); }
    if (place == 2) s = record(top(), "s", false); QualType q = some(depth, place == 0 || place == 2); if (place != 3 || !q->isArrayType()) q = qualify(q);
    switch (place) { case 0: var(top(), "v", q); break; case 1: type_name(top(), "t", q); break; case 2: field(in(s), "f", q); field(in(s), "self", mkt(Type::Pointer, tagged(s))); break; case 3: sym_assume(!q->isArrayType() && !q->isFunctionType()); function(top(), "f", q); break; case 4: { FunctionDecl *f = function(top(), "f", prim(Type::Void, 0)); parm(f, "p", q); parm(f, "", prim(Type::Signed, 8)); break; } }
    if (later) { S2 = record(top(), "late", false, fwd); field(in(S2), "z", mkt(Type::Pointer, tagged(fwd))); } run_and_check(); if (seen & 1) sym_cover("qualified"); if (seen & 2) sym_cover("pointer"); if (seen & 4) sym_cover("array"); if (seen & 8) sym_cover("tagged");
}
// nesting and order
static void members(Scope s, int depth, int most)
{
    int n = (int)sym_choose(0, (uint64_t)most, "members"); QualType i32 = prim(Type::Signed, 32);
    for (int i = 0; i < n; i++) switch (sym_choose(0, depth ? 3 : 0, "member")) {
        case 0: field(s, "m", i32); break; case 1: { RecordDecl *r = record(s, "", false); members(in(r), depth - 1, 1); field(s, "r", tagged(r)); break; } case 2: { RecordDecl *r = record(s, "n", true); members(in(r), depth - 1, 1); break; } case 3: { EnumDecl *e = enumeration(s, "", prim(Type::Unsigned, 32)); if (sym_choose(0, 1, "constants")) constant(e, "c", 5); break; } }
}
static void item(uint64_t k, int depth, int most)
{
    QualType i32 = prim(Type::Signed, 32);
    switch (k) {
    case 0: var(top(), "v", i32); break; case 1: { FunctionDecl *f = function(top(), "f", i32); for (uint64_t n = sym_choose(0, 2, "parameters"); n > 0; n--) parm(f, n == 2 ? "a" : "", i32); break; } case 2: type_name(top(), "t", i32); break;
    case 3: { EnumDecl *e = enumeration(top(), "e", prim(Type::Unsigned, 32)); uint64_t n = sym_choose(0, 2, "constants"); for (uint64_t i = 0; i < n; i++) constant(e, "c", i); break; }
    case 4: case 5: { RecordDecl *r = record(top(), "s", k == 5); members(in(r), depth, most); break; }
    case 6: { RecordDecl *r = record(top(), "fwd", false); r->m_definition = 0; break; } case 7: { EnumDecl *e = enumeration(top(), "fe", QualType()); e->m_definition = 0; break; }
    case 8: { // a function with declarations of its own
        FunctionDecl *f = function(top(), "g", prim(Type::Void, 0)); parm(f, "p", i32); Stmt *b = new Stmt(); f->m_body = b; Scope s = { f, f, b }; uint64_t w = sym_choose(0, 4, "local");
        if (w == 0) var(s, "l", i32); else if (w == 1) { RecordDecl *r = record(s, "ls", false); field(in(r), "lf", i32); var(s, "l", tagged(r)); } else if (w == 2) { EnumDecl *e = enumeration(s, "le", prim(Type::Unsigned, 32)); constant(e, "lc", 1); } else if (w == 3) type_name(s, "lt", i32); else function(s, "lg", i32); sym_cover("local declarations"); break; }
    case 9: { TypedefDecl *t = type_name(top(), "__builtin", i32); t->m_implicit = true; break; } case 10: put(top(), new PragmaCommentDecl()); break; case 11: put(top(), new Decl(Decl::Empty)); break;
    }
}
HARNESS plug_shapes() { begin(); int n = (int)sym_param("items"); item(sym_param("first"), (int)sym_param("depth"), (int)sym_param("most")); for (int i = 1; i < n; i++) item(sym_choose(0, 11, "item"), n == 2 ? 1 : 0, 1); run_and_check(); if (seen & 64) sym_cover("constant"); if (seen & 128) sym_cover("field"); if (seen & 256) sym_cover("variable"); if (seen & 512) sym_cover("parameter"); if (seen & 1024) sym_cover("function"); if (seen & 8) sym_cover("tagged"); if (seen & 32) sym_cover("typedef"); }
// values, widths, names and properties
static const char *arbitrary(const char *what) { size_t n = sym_choose(0, 3, what); char *b = (char *)malloc(n + 1); sym_bytes(b, n, "name"); for (size_t i = 0; i < n; i++) sym_assume(b[i] != 0); b[n] = 0; return b; }
HARNESS plug_values()
{
    begin(); int k = (int)sym_param("kind"); const char *a = arbitrary("name length"); QualType i32 = prim(Type::Signed, 32);
    if (k == 0) { bool u = sym_choose(0, 1, "unsigned"); unsigned w = 8u << sym_choose(0, 3, "width"); EnumDecl *e = enumeration(top(), a, prim(u ? Type::Unsigned : Type::Signed, w)); const char *cn = arbitrary("constant length"); uint64_t cv = sym_u64("value"); constant(e, cn, cv, w, u); constant(e, "last", sym_u64("value"), w, u); }
    else if (k == 1) { RecordDecl *r = record(top(), "s", sym_choose(0, 1, "union")); for (int i = 0; i < 2; i++) { FieldDecl *f = field(in(r), i ? "g" : a, prim(Type::Unsigned, 64)); f->m_bits = sym_choose(0, 1, "bit field"); f->m_width = sym_u32("width"); f->m_index = i; } }
    else if (k == 2) { FunctionDecl *f = function(top(), a, i32); uint8_t b = sym_u8("how"); f->m_global = b & 1; f->m_extern_c = b >> 1 & 1; f->m_static = b >> 2 & 1; f->m_inline = b >> 3 & 1; f->m_noreturn = b >> 4 & 1; parm(f, arbitrary("parameter length"), i32); parm(f, "second", i32); }
    else if (k == 3) { for (int i = 0; i < 2; i++) { VarDecl *v = var(top(), i ? "w" : a, i32); v->m_extern_c = sym_u8("how") & 1; v->m_duration = sym_choose(0, 1, "thread") ? SD_Thread : SD_Static; } }
    else if (k == 4) { RecordDecl *r = record(top(), a, false); field(in(r), "f", i32); type_name(top(), arbitrary("typedef length"), mkt(Type::Pointer, QualType(tagged(r).m_t, 1))); }
    else { Type *t = mkt(Type::ConstantArray, i32), *o = mkt(Type::IncompleteArray, i32); t->m_count = 7; VarDecl *v = var(top(), a, t); v->m_written.m_type = o; } // sized by its initialiser
    run_and_check(); if (seen & 64) sym_cover("constant"); if (seen & 128) sym_cover("field"); if (seen & 256) sym_cover("variable"); if (seen & 512) sym_cover("parameter"); if (seen & 1024) sym_cover("function");
}
HARNESS plug_names()
{
    begin(); size_t n = sym_param("len"); std::string s(n, 'n'); sym_bytes(&s[0], 1, "first"); sym_bytes(&s[n - 1], 1, "last"); sym_assume(s[0] != 0 && s[n - 1] != 0); RecordDecl *r = record(top(), s.c_str(), false); field(in(r), s.c_str(), mkt(Type::Pointer, QualType(tagged(r).m_t, 5))); Type *t = mkt(Type::ConstantArray, tagged(r)); t->m_count = ~0ull >> sym_choose(0, 3, "shift"); var(top(), "v", t); run_and_check();
}
HARNESS plug_many()
{
    begin(); size_t n = sym_param("count"), at_ = sym_choose(0, n - 1, "where"); QualType i32 = prim(Type::Signed, 32); RecordDecl *r = record(top(), "s", false); sym_assume(at_ == 0 || at_ == n / 2 || at_ == n - 1);
    for (size_t i = 0; i < n; i++) { FieldDecl *f = field(in(r), i == at_ ? "x" : "y", i % 3 ? i32 : QualType(mkt(Type::Pointer, i % 2 ? tagged(r) : i32))); f->m_bits = i == at_; f->m_width = 9; } var(top(), "v", tagged(r)); run_and_check();
}
HARNESS plug_attrs()
{
    begin(); int k = (int)sym_param("where"), n = (int)sym_param("count"); Decl *d; QualType i32 = prim(Type::Signed, 32); static IdentifierInfo id = { "identifier" };
    switch (k) { case 0: d = var(top(), "v", i32); break; case 1: d = type_name(top(), "t", i32); break; case 2: d = enumeration(top(), "e", i32); break; case 3: d = record(top(), "s", false); break; case 4: d = function(top(), "f", i32); break; case 5: { RecordDecl *r = record(top(), "s", true); d = field(in(r), "f", i32); break; } default: d = constant(enumeration(top(), "e", i32), "c", 1); break; }
    for (int i = 0; i < n; i++) { Attr *a = new Attr(); uint8_t ak = sym_u8("attribute"); sym_assume(ak <= 10); a->m_kind = (attr::Kind)ak; a->m_ident = sym_choose(0, 1, "named") ? &id : 0; a->m_text = a->m_kind == attr::Alias || a->m_kind == attr::Annotate ? arbitrary("text length") : 0; a->m_value = sym_u32("alignment"); d->m_attrs.push_back(a); }
    var(top(), "after", i32); run_and_check(); if (seen & 16) sym_cover("attribute");
}
// ---- options and failures
static int bad_options, wants_out;
static void gave_up(int code)
{
    sym_assert(vopened == 0, "files are closed"); sym_assert(vlen[1] > 0, "what is wrong is reported");
    if (fault) sym_assert(code != 0, "a failure to write gives a status other than 0"); else { sym_assert(bad_options, "options that are understood are not refused"); sym_assert(!vfiles[0].exists && vlen[0] == 0, "refused options have no effect"); }
}
static void sample() { begin(); RecordDecl *r = record(top(), "S", false); field(in(r), "F", mkt(Type::Pointer, QualType(tagged(r).m_t, 1))); function(top(), "G", prim(Type::Signed, 32)); Attr *a = new Attr(); static IdentifierInfo id = { "packed" }; a->m_kind = attr::Packed; a->m_ident = &id; r->m_attrs.push_back(a); EnumDecl *e = enumeration(top(), "E", prim(Type::Unsigned, 32)); constant(e, "C", 3); put(top(), new PragmaCommentDecl()); }
HARNESS plug_options()
{
    sample(); size_t n = sym_param("words"); const char *w[6] = { 0, 0, 0, 0, 0, 0 }; static char odd[6][8]; int dump = 0, debug = 0; const char *out = 0; bad_options = 0;
    for (size_t i = 0; i < n; i++) switch (i ? sym_choose(0, sym_param("plain") ? 3 : 5, "word") : sym_param("first")) {
        case 0: w[i] = "-o"; break; case 1: w[i] = "-debug"; break; case 2: w[i] = "-dump"; break; case 3: w[i] = "out"; break; case 4: w[i] = ""; break;
        default: { static const char *const L[] = { "-o", "-debug", "-dump" }; const char *l = L[sym_choose(0, 2, "like")]; size_t k = strlen(l), p = sym_choose(0, k, "position"); memcpy(odd[i], l, k + 1); odd[i][p] = (char)sym_u8("octet"); sym_assume(odd[i][p] != l[p]); if (p == k) odd[i][k + 1] = 0; w[i] = odd[i]; } }
    for (size_t i = 0; i < n && !bad_options; i++) if (!strcmp(w[i], "-o")) { if (++i == n) bad_options = 1; else out = w[i]; } else if (!strcmp(w[i], "-debug")) debug = 1; else if (!strcmp(w[i], "-dump")) dump = 1; else bad_options = 1;
    if (!bad_options && !dump && !debug && (!out || !*out)) bad_options = 1;
    if (out && *out) sym_assume(!strcmp(out, "out") || bad_options);
    PluginASTAction *p = FrontendPluginRegistry::maker()(); p->m_ci = CI; static const char path[] = "a%s\\b/%%n.h"; p->m_input.m_file = path; std::vector<std::string> v; for (size_t i = 0; i < n; i++) v.push_back(w[i]);
    vf_at_exit = gave_up; bool ok = p->ParseArgs(*CI, v); if (!ok) { gave_up(1); return; } sym_assert(!bad_options, "options that are not understood are refused");
    p->EndSourceFileAction(); sym_assert(p->m_ended == 1, "the action is ended"); delete p; sym_assert(vopened == 0, "files are closed");
    size_t shown = vlen[0]; sym_assert((vlen[1] > 0) == debug, "messages are written when asked for"); sym_assert((shown > 0) == dump, "a dump is written when asked for");
    if (out && *out) { recorded(output(), path + 6); sym_cover("written"); } else sym_assert(!vfiles[0].exists, "nothing is written unless asked for");
    vfiles[0].exists = 0; size_t m1 = vlen[1]; act(path, "-o", "out"); sym_assert(vlen[1] == m1 && vlen[0] == shown, "success is silent"); decl_db *db = output(); recorded(db, path + 6);
    if (dump) { crefl_db_dump(db); sym_assert(vlen[0] == 2 * shown && !memcmp(vout[0], vout[0] + shown, shown), "the dump is that of the database"); sym_cover("dumped"); }
}
HARNESS plug_paths()
{
    begin(); var(top(), "V", prim(Type::Signed, 32)); static char path[10]; size_t n = sym_param("len"), at_ = 0; sym_bytes(path, n, "path"); for (size_t i = 0; i < n; i++) sym_assume(path[i] != 0); for (size_t i = 0; i < n; i++) if (path[i] == '/' || path[i] == '\\') at_ = i + 1;
    act(path, "-o", "out", sym_param("debug") ? "-debug" : 0); recorded(output(), path + at_); if (sym_param("debug")) { vout[1][vlen[1]] = 0; sym_assert(vlen[1] > 0 && !strncmp(vout[1], "Input file  : ", 14) && !memcmp(vout[1] + 14, path, n), "the log shows the input"); }
}
HARNESS plug_faults() { sample(); fault = (int)sym_choose(0, 2, "fault"); static const int F[] = { F_OPEN, F_SHORT, F_CLOSE }; fault = F[fault]; fault_write = 1; vf_at_exit = gave_up; const char *more = sym_choose(0, 1, "dump") ? "-dump" : 0; act("in.h", "-o", "out", more); sym_assert(0, "failures to write are reported"); }
