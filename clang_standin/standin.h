// A stand-in for the parts of the clang 14 interface a plug-in written against src/reflect.cc's includes can use: declarations and types are
// plain objects that a harness fills in (fields m_*), and the visitor walks them in the order clang's RecursiveASTVisitor does.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <utility>
namespace llvm {
class StringRef {
    const char *p; size_t n;
public:
    StringRef() : p(""), n(0) {} StringRef(const char *s) : p(s), n(strlen(s)) {} StringRef(const char *s, size_t l) : p(s), n(l) {} StringRef(const std::string &s) : p(s.data()), n(s.size()) {}
    std::string str() const { return std::string(p, n); } size_t size() const { return n; } bool empty() const { return !n; } const char *data() const { return p; } const char *begin() const { return p; } const char *end() const { return p + n; }
    char operator[](size_t i) const { return p[i]; } bool equals(StringRef o) const { return n == o.n && !memcmp(p, o.p, n); } operator std::string() const { return str(); }
    bool startswith(StringRef o) const { return n >= o.n && !memcmp(p, o.p, o.n); }
};
inline bool operator==(StringRef a, StringRef b) { return a.equals(b); } inline bool operator!=(StringRef a, StringRef b) { return !a.equals(b); }
template <class T> class SmallVectorImpl : public std::vector<T> { typedef std::vector<T> V; public: using std::vector<T>::vector; typedef T *iterator; typedef const T *const_iterator; typedef std::reverse_iterator<T *> reverse_iterator; typedef std::reverse_iterator<const T *> const_reverse_iterator;
    T *begin() { return this->data(); } const T *begin() const { return this->data(); } T *end() { return this->data() + this->size(); } const T *end() const { return this->data() + this->size(); } reverse_iterator rbegin() { return reverse_iterator(end()); } const_reverse_iterator rbegin() const { return const_reverse_iterator(end()); } reverse_iterator rend() { return reverse_iterator(begin()); } const_reverse_iterator rend() const { return const_reverse_iterator(begin()); }
    T *erase(const T *q) { size_t i = q - begin(); V::erase(V::begin() + i); return begin() + i; } T *insert(T *q, const T &t) { size_t i = q - begin(); V::insert(V::begin() + i, t); return begin() + i; } void truncate(size_t n) { V::resize(n); }
    T pop_back_val() { T t = this->back(); this->pop_back(); return t; } };
template <class T, unsigned N = 4> class SmallVector : public SmallVectorImpl<T> { public: using SmallVectorImpl<T>::SmallVectorImpl; };
template <class K, class V> class MapBase {
public:
    typedef std::pair<K, V> value_type; typedef value_type *iterator; typedef const value_type *const_iterator; std::vector<value_type> v;
    iterator begin() { return v.data(); } iterator end() { return v.data() + v.size(); } const_iterator begin() const { return v.data(); } const_iterator end() const { return v.data() + v.size(); }
    iterator find(const K &k) { for (auto &e : v) if (e.first == k) return &e; return end(); } const_iterator find(const K &k) const { for (auto &e : v) if (e.first == k) return &e; return end(); }
    V &operator[](const K &k) { iterator i = find(k); if (i != end()) return i->second; v.push_back(value_type(k, V())); return v.back().second; }
    size_t count(const K &k) const { return find(k) != end(); } V lookup(const K &k) const { const_iterator i = find(k); return i == end() ? V() : i->second; } size_t size() const { return v.size(); } bool empty() const { return v.empty(); } void clear() { v.clear(); }
    std::pair<iterator, bool> insert(const value_type &e) { iterator i = find(e.first); if (i != end()) return { i, false }; v.push_back(e); return { end() - 1, true }; }
    std::pair<iterator, bool> try_emplace(const K &k, V x = V()) { return insert(value_type(k, x)); } bool erase(const K &k) { iterator i = find(k); if (i == end()) return false; v.erase(v.begin() + (i - begin())); return true; }
};
template <class K, class V, unsigned N = 4> class SmallMapVector : public MapBase<K, V> {}; template <class K, class V> class MapVector : public MapBase<K, V> {}; template <class K, class V> class DenseMap : public MapBase<K, V> {}; template <class K, class V, unsigned N = 4> class SmallDenseMap : public MapBase<K, V> {};
template <class T> class ArrayRef {
    const T *p; size_t n;
public:
    ArrayRef() : p(0), n(0) {} ArrayRef(const T *q, size_t l) : p(q), n(l) {} ArrayRef(const std::vector<T> &v) : p(v.data()), n(v.size()) {}
    size_t size() const { return n; } bool empty() const { return !n; } const T &operator[](size_t i) const { return p[i]; } const T *begin() const { return p; } const T *end() const { return p + n; } const T &front() const { return p[0]; } const T &back() const { return p[n - 1]; }
};
enum class NoneType { None = 1 }; const NoneType None = NoneType::None;
class APInt {
public:
    uint64_t m_v; unsigned m_bits;
    APInt(unsigned bits = 64, uint64_t v = 0) : m_v(bits < 64 ? v & ((1ull << bits) - 1) : v), m_bits(bits) {}
    unsigned getBitWidth() const { return m_bits; } uint64_t getZExtValue() const { return m_v; } int64_t getSExtValue() const { return m_bits < 64 ? (int64_t)(m_v << (64 - m_bits)) >> (64 - m_bits) : (int64_t)m_v; }
    uint64_t getLimitedValue(uint64_t limit = ~0ull) const { return m_v > limit ? limit : m_v; } const uint64_t *getRawData() const { return &m_v; }
    APInt zextOrTrunc(unsigned b) const { return APInt(b, m_v); } APInt sextOrTrunc(unsigned b) const { return APInt(b, (uint64_t)getSExtValue()); } bool isNegative() const { return m_bits && m_v >> (m_bits - 1) & 1; }
};
class APSInt : public APInt {
public:
    bool m_unsigned;
    APSInt(unsigned bits = 64, bool u = true) : APInt(bits, 0), m_unsigned(u) {} APSInt(APInt i, bool u = true) : APInt(i), m_unsigned(u) {}
    bool isUnsigned() const { return m_unsigned; } bool isSigned() const { return !m_unsigned; } bool isNegative() const { return !m_unsigned && APInt::isNegative(); }
    APSInt extOrTrunc(unsigned b) const { return APSInt(m_unsigned ? zextOrTrunc(b) : sextOrTrunc(b), m_unsigned); } APSInt extend(unsigned b) const { return extOrTrunc(b); } APSInt trunc(unsigned b) const { return extOrTrunc(b); } int64_t getExtValue() const { return m_unsigned ? (int64_t)getZExtValue() : getSExtValue(); }
};
template <class T, class U> bool isa(const U &u) { return T::classof(&u); } template <class T, class U> bool isa(U *u) { return T::classof(u); } template <class T, class U> bool isa(const U *u) { return T::classof(u); }
template <class T, class U> const T &cast(const U &u) { return static_cast<const T &>(u); } template <class T, class U> T &cast(U &u) { return static_cast<T &>(u); } template <class T, class U> T *cast(U *u) { return static_cast<T *>(u); } template <class T, class U> const T *cast(const U *u) { return static_cast<const T *>(u); }
template <class T, class U> T *dyn_cast(U *u) { return T::classof(u) ? static_cast<T *>(u) : 0; } template <class T, class U> const T *dyn_cast(const U *u) { return T::classof(u) ? static_cast<const T *>(u) : 0; } template <class T, class U> T *dyn_cast_or_null(U *u) { return u ? dyn_cast<T>(u) : 0; } template <class T, class U> const T *dyn_cast_or_null(const U *u) { return u ? dyn_cast<T>(u) : 0; }
}
namespace clang {
using llvm::StringRef; using llvm::isa; using llvm::cast; using llvm::dyn_cast; using llvm::dyn_cast_or_null; using llvm::ArrayRef; using llvm::SmallVector; using llvm::SmallVectorImpl; using llvm::None;
class ASTContext; class Decl; class DeclContext; class NamedDecl; class TranslationUnitDecl; class TypedefNameDecl; class TypedefDecl; class TagDecl; class EnumDecl; class RecordDecl; class EnumConstantDecl; class FieldDecl; class FunctionDecl; class VarDecl; class ParmVarDecl; class Stmt; class Type; class ArrayType; class TypedefType;
// ---- types
struct Qualifiers { enum TQ { Const = 1, Restrict = 2, Volatile = 4, CVRMask = 7 }; };
class QualType {
public:
    const Type *m_t; unsigned m_q; QualType(const Type *t = 0, unsigned q = 0) : m_t(t), m_q(q) {}
    const Type *operator->() const { return m_t; } const Type &operator*() const { return *m_t; } const Type *getTypePtr() const { return m_t; } const Type *getTypePtrOrNull() const { return m_t; } bool isNull() const { return !m_t; }
    unsigned getLocalFastQualifiers() const { return m_q; } unsigned getLocalCVRQualifiers() const { return m_q; } inline unsigned getCVRQualifiers() const; bool hasLocalQualifiers() const { return m_q != 0; }
    bool isLocalConstQualified() const { return m_q & 1; } bool isLocalRestrictQualified() const { return m_q & 2; } bool isLocalVolatileQualified() const { return m_q & 4; } bool isConstQualified() const { return getCVRQualifiers() & 1; } bool isRestrictQualified() const { return getCVRQualifiers() & 2; } bool isVolatileQualified() const { return getCVRQualifiers() & 4; }
    inline QualType getCanonicalType() const; QualType getUnqualifiedType() const { return QualType(getCanonicalType().m_t); } QualType getLocalUnqualifiedType() const { return QualType(m_t); } inline QualType getDesugaredType(const ASTContext &) const; std::string getAsString() const { return "type"; }
    bool operator==(const QualType &o) const { return m_t == o.m_t && m_q == o.m_q; } bool operator!=(const QualType &o) const { return !(*this == o); }
};
class Type {
public:
    enum TypeClass { Builtin, Complex, Pointer, ConstantArray, IncompleteArray, VariableArray, Record, Enum, FunctionProto, Vector, Typedef, Elaborated };
    enum ScalarTypeKind { STK_CPointer, STK_BlockPointer, STK_ObjCObjectPointer, STK_MemberPointer, STK_Bool, STK_Integral, STK_Floating, STK_IntegralComplex, STK_FloatingComplex, STK_FixedPoint };
    enum Prim { Void, Bool, Signed, Unsigned, Floating };
    TypeClass m_class; Prim m_prim; uint64_t m_width, m_count; unsigned m_align; bool m_static; QualType m_inner; Decl *m_decl;
    const Type *canon() const { const Type *t = this; while (t->m_class == Typedef || t->m_class == Elaborated) t = t->m_inner.m_t; return t; }
    TypeClass getTypeClass() const { return m_class; } bool is(TypeClass c) const { return canon()->m_class == c; } bool prim(Prim p) const { const Type *t = canon(); return t->m_class == Builtin && t->m_prim == p; }
    bool isVoidType() const { return prim(Void); } bool isBooleanType() const { return prim(Bool); } bool isFloatingType() const { return prim(Floating) || isComplexType(); } bool isRealFloatingType() const { return prim(Floating); } bool isBuiltinType() const { return is(Builtin); }
    bool isPointerType() const { return is(Pointer); } bool isAnyPointerType() const { return is(Pointer); } bool isComplexType() const { return is(Complex) && canon()->m_prim == Floating; } bool isAnyComplexType() const { return is(Complex); } bool isComplexIntegerType() const { return is(Complex) && canon()->m_prim != Floating; } bool isVectorType() const { return is(Vector); } bool isFunctionType() const { return is(FunctionProto); } bool isFunctionPointerType() const { return isPointerType() && getPointeeType()->isFunctionType(); }
    bool isConstantArrayType() const { return is(ConstantArray); } bool isIncompleteArrayType() const { return is(IncompleteArray); } bool isVariableArrayType() const { return is(VariableArray); } bool isArrayType() const { return isConstantArrayType() || isIncompleteArrayType() || isVariableArrayType(); }
    bool isRecordType() const { return is(Record); } inline bool isUnionType() const; inline bool isStructureType() const; bool isClassType() const { return false; } bool isStructureOrClassType() const { return isStructureType(); } bool isEnumeralType() const { return is(Enum); } inline bool isIncompleteType() const; bool isScalarType() const { const Type *t = canon(); return t->m_class == Pointer || (t->m_class == Enum && !t->isIncompleteType()) || (t->m_class == Builtin && t->m_prim != Void); }
    bool isBlockPointerType() const { return false; } bool isReferenceType() const { return false; } bool isObjCObjectPointerType() const { return false; } bool isMemberPointerType() const { return false; } bool isFixedPointType() const { return false; } bool isNullPtrType() const { return false; } bool isDependentType() const { return false; } bool isAggregateType() const { return isRecordType() || isArrayType(); }
    inline QualType enum_int() const; bool isUnsignedIntegerType() const { const Type *t = canon(); return t->m_class == Enum ? !isIncompleteType() && enum_int()->isUnsignedIntegerType() : prim(Unsigned) || prim(Bool); } bool isSignedIntegerType() const { const Type *t = canon(); return t->m_class == Enum ? !isIncompleteType() && enum_int()->isSignedIntegerType() : prim(Signed); } bool isIntegerType() const { return isUnsignedIntegerType() || isSignedIntegerType(); } bool isIntegralType(const ASTContext &) const { return isIntegerType(); } bool isArithmeticType() const { return isIntegerType() || isFloatingType(); }
    ScalarTypeKind getScalarTypeKind() const { const Type *t = canon(); return t->m_class == Pointer ? STK_CPointer : t->m_class == Complex ? (t->m_prim == Floating ? STK_FloatingComplex : STK_IntegralComplex) : t->m_class == Enum ? STK_Integral : t->m_prim == Bool ? STK_Bool : t->m_prim == Floating ? STK_Floating : STK_Integral; }
    QualType getPointeeType() const { const Type *t = canon(); return t->m_class == Pointer ? t->m_inner : QualType(); } template <class T> const T *getAs() const { const Type *t = T::sugar(this); return t && T::classof(t) ? static_cast<const T *>(t) : 0; } template <class T> const T *castAs() const { return getAs<T>(); }
    static const Type *sugar(const Type *t) { return t->canon(); } static bool classof(const Type *) { return true; }
    inline const class RecordType *getAsStructureType() const; inline const class RecordType *getAsUnionType() const; inline RecordDecl *getAsRecordDecl() const; inline TagDecl *getAsTagDecl() const; const ArrayType *getAsArrayTypeUnsafe() const { return isArrayType() ? (const ArrayType *)canon() : 0; }
};
#define STANDIN_TYPE(N, C) class N : public Type { public: static bool classof(const Type *t) { return C; } 
STANDIN_TYPE(BuiltinType, t->m_class == Builtin) };
STANDIN_TYPE(ComplexType, t->m_class == Complex) QualType getElementType() const { return m_inner; } };
STANDIN_TYPE(PointerType, t->m_class == Pointer) QualType getPointeeType() const { return m_inner; } };
STANDIN_TYPE(VectorType, t->m_class == Vector) QualType getElementType() const { return m_inner; } unsigned getNumElements() const { return (unsigned)m_count; } };
STANDIN_TYPE(FunctionType, t->m_class == FunctionProto) };
STANDIN_TYPE(ArrayType, t->isArrayType()) enum ArraySizeModifier { Normal, Static, Star }; ArraySizeModifier getSizeModifier() const { return m_static ? Static : Normal; } QualType getElementType() const { return m_inner; } };
class ConstantArrayType : public ArrayType { public: static bool classof(const Type *t) { return t->m_class == ConstantArray; } llvm::APInt getSize() const { return llvm::APInt(64, m_count); } };
class IncompleteArrayType : public ArrayType { public: static bool classof(const Type *t) { return t->m_class == IncompleteArray; } };
class VariableArrayType : public ArrayType { public: static bool classof(const Type *t) { return t->m_class == VariableArray; } };
class TagType : public Type { public: static bool classof(const Type *t) { return t->m_class == Record || t->m_class == Enum; } inline TagDecl *getDecl() const; };
class RecordType : public TagType { public: static bool classof(const Type *t) { return t->m_class == Record; } inline RecordDecl *getDecl() const; };
class EnumType : public TagType { public: static bool classof(const Type *t) { return t->m_class == Enum; } inline EnumDecl *getDecl() const; };
class TypedefType : public Type { public: static const Type *sugar(const Type *t) { while (t->m_class == Elaborated) t = t->m_inner.m_t; return t; } static bool classof(const Type *t) { return t->m_class == Typedef; } inline TypedefNameDecl *getDecl() const; QualType desugar() const { return m_inner; } };
inline unsigned QualType::getCVRQualifiers() const { return getCanonicalType().m_q; }
inline QualType QualType::getCanonicalType() const { QualType r = *this; while (r.m_t->m_class == Type::Typedef || r.m_t->m_class == Type::Elaborated) r = QualType(r.m_t->m_inner.m_t, r.m_q | r.m_t->m_inner.m_q); return r; }
inline QualType QualType::getDesugaredType(const ASTContext &) const { return getCanonicalType(); }
struct TypeInfo { uint64_t Width; unsigned Align; unsigned AlignRequirement; TypeInfo() : Width(0), Align(0), AlignRequirement(0) {} TypeInfo(uint64_t w, unsigned a) : Width(w), Align(a), AlignRequirement(0) {} };
struct TypeSourceInfo { QualType m_type; QualType getType() const { return m_type; } };
// ---- attributes
struct IdentifierInfo { const char *m_name; const char *getNameStart() const { return m_name; } StringRef getName() const { return m_name; } };
namespace attr { enum Kind { AlwaysInline, Deprecated, Pure, Packed, Used, Unused, WarnUnusedResult, Alias, Aligned, Annotate, Other }; }
class Attr { public: attr::Kind m_kind; IdentifierInfo *m_ident; const char *m_text; unsigned m_value; attr::Kind getKind() const { return m_kind; } const IdentifierInfo *getAttrName() const { return m_ident; } const char *getSpelling() const { return m_ident ? m_ident->m_name : ""; } bool isImplicit() const { return false; } bool isInherited() const { return false; } };
#define STANDIN_ATTR(N, X) class N##Attr : public Attr { public: static bool classof(const Attr *a) { return a->m_kind == attr::N; } X };
STANDIN_ATTR(AlwaysInline,) STANDIN_ATTR(Deprecated, StringRef getMessage() const { return m_text ? m_text : ""; }) STANDIN_ATTR(Pure,) STANDIN_ATTR(Packed,) STANDIN_ATTR(Used,) STANDIN_ATTR(Unused,) STANDIN_ATTR(WarnUnusedResult,) STANDIN_ATTR(Alias, StringRef getAliasee() const { return m_text; }) STANDIN_ATTR(Aligned, unsigned getAlignment(ASTContext &) const { return m_value; }) STANDIN_ATTR(Annotate, StringRef getAnnotation() const { return m_text; })
typedef SmallVector<Attr *, 4> AttrVec;
// ---- declarations
struct SourceManager {}; struct SourceLocation { bool isValid() const { return true; } std::string printToString(const SourceManager &) const { return "file:1:1"; } }; struct Module { std::string getFullModuleName(bool = false) const { return "module"; } };
class DeclContext { public: const char *m_kind_name; DeclContext *m_lexical; SmallVector<Decl *, 8> m_decls; DeclContext(const char *k) : m_kind_name(k), m_lexical(0) {} const char *getDeclKindName() const { return m_kind_name; } DeclContext *getLexicalParent() { return m_lexical; } const DeclContext *getLexicalParent() const { return m_lexical; } DeclContext *getParent() { return m_lexical; } const DeclContext *getParent() const { return m_lexical; } SmallVector<Decl *, 8> &decls() { return m_decls; } const SmallVector<Decl *, 8> &decls() const { return m_decls; } inline bool isTranslationUnit() const; inline bool isFunctionOrMethod() const; inline bool isRecord() const; inline bool isFileContext() const; };
class Decl {
public:
    enum Kind { TranslationUnit, PragmaComment, Typedef, Enum, Record, EnumConstant, Field, Function, Var, ParmVar, Empty }; Kind m_kind; int64_t m_id; bool m_invalid, m_implicit; DeclContext *m_context; Decl *m_next; const Decl *m_parent; const Stmt *m_parent_stmt; AttrVec m_attrs;
    Decl(Kind k) : m_kind(k), m_id(0), m_invalid(false), m_implicit(false), m_context(0), m_next(0), m_parent(0), m_parent_stmt(0) {}
    Kind getKind() const { return m_kind; } int64_t getID() const { return m_id; } bool isInvalidDecl() const { return m_invalid; } bool isImplicit() const { return m_implicit; } SourceLocation getLocation() const { return SourceLocation(); } SourceLocation getBeginLoc() const { return SourceLocation(); }
    const char *getDeclKindName() const { static const char *const N[] = { "TranslationUnit", "PragmaComment", "Typedef", "Enum", "Record", "EnumConstant", "Field", "Function", "Var", "ParmVar", "Empty" }; return N[m_kind]; }
    DeclContext *getLexicalDeclContext() { return m_context; } const DeclContext *getLexicalDeclContext() const { return m_context; } DeclContext *getDeclContext() { return m_context; } const DeclContext *getDeclContext() const { return m_context; } Decl *getNextDeclInContext() { return m_next; } const Decl *getNextDeclInContext() const { return m_next; } Module *getLocalOwningModule() const { return 0; } Module *getOwningModule() const { return 0; }
    bool hasAttrs() const { return !m_attrs.empty(); } AttrVec &getAttrs() { return m_attrs; } const AttrVec &getAttrs() const { return m_attrs; } AttrVec &attrs() { return m_attrs; } const AttrVec &attrs() const { return m_attrs; } template <class T> T *getAttr() const { for (auto *a : m_attrs) if (T::classof(a)) return static_cast<T *>(a); return 0; } template <class T> bool hasAttr() const { return getAttr<T>() != 0; } const Decl *getCanonicalDecl() const { return this; } Decl *getCanonicalDecl() { return this; }
    static bool classof(const Decl *) { return true; }
};
struct DeclarationName { std::string m_s; std::string getAsString() const { return m_s; } bool isEmpty() const { return m_s.empty(); } }; struct DeclarationNameInfo { DeclarationName m_n; DeclarationName getName() const { return m_n; } std::string getAsString() const { return m_n.m_s; } };
class NamedDecl : public Decl { public: std::string m_name; NamedDecl(Kind k) : Decl(k) {} std::string getNameAsString() const { return m_name; } StringRef getName() const { return m_name; } std::string getQualifiedNameAsString() const { return m_name; } DeclarationName getDeclName() const { return DeclarationName { m_name }; } static bool classof(const Decl *d) { return d->m_kind >= Typedef && d->m_kind <= ParmVar; } };
class TranslationUnitDecl : public Decl, public DeclContext { public: TranslationUnitDecl() : Decl(TranslationUnit), DeclContext("TranslationUnit") {} using Decl::getDeclKindName; static bool classof(const Decl *d) { return d->m_kind == TranslationUnit; } };
class PragmaCommentDecl : public Decl { public: PragmaCommentDecl() : Decl(PragmaComment) {} static bool classof(const Decl *d) { return d->m_kind == PragmaComment; } };
class TypeDecl : public NamedDecl { public: TypeDecl(Kind k) : NamedDecl(k) {} static bool classof(const Decl *d) { return d->m_kind >= Typedef && d->m_kind <= Record; } };
class TypedefNameDecl : public TypeDecl { public: QualType m_type; TypedefNameDecl() : TypeDecl(Typedef) {} QualType getUnderlyingType() const { return m_type; } static bool classof(const Decl *d) { return d->m_kind == Typedef; } };
class TypedefDecl : public TypedefNameDecl {};
enum TagTypeKind { TTK_Struct, TTK_Interface, TTK_Union, TTK_Class, TTK_Enum };
class TagDecl : public TypeDecl, public DeclContext { public: TagTypeKind m_tag; TagDecl *m_definition; TagDecl(Kind k, TagTypeKind t) : TypeDecl(k), DeclContext(k == Enum ? "Enum" : "Record"), m_tag(t), m_definition(0) {} using Decl::getDeclKindName; TagTypeKind getTagKind() const { return m_tag; } bool isStruct() const { return m_tag == TTK_Struct; } bool isUnion() const { return m_tag == TTK_Union; } bool isEnum() const { return m_tag == TTK_Enum; } bool isClass() const { return false; } bool isCompleteDefinition() const { return m_definition == this; } bool isThisDeclarationADefinition() const { return m_definition == this; } TagDecl *getDefinition() const { return m_definition; } static bool classof(const Decl *d) { return d->m_kind == Enum || d->m_kind == Record; } };
class EnumDecl : public TagDecl { public: QualType m_int; EnumDecl() : TagDecl(Enum, TTK_Enum) {} QualType getIntegerType() const { return m_int; } unsigned getNumNegativeBits() const { return 0; } unsigned getNumPositiveBits() const { return 0; } bool isComplete() const { return m_definition != 0; } EnumDecl *getDefinition() const { return (EnumDecl *)m_definition; } static bool classof(const Decl *d) { return d->m_kind == Enum; } };
class RecordDecl : public TagDecl { public: RecordDecl(TagTypeKind t) : TagDecl(Record, t) {} RecordDecl *getDefinition() const { return (RecordDecl *)m_definition; } bool isAnonymousStructOrUnion() const { return m_name.empty(); } static bool classof(const Decl *d) { return d->m_kind == Record; } };
class ValueDecl : public NamedDecl { public: QualType m_type; ValueDecl(Kind k) : NamedDecl(k) {} QualType getType() const { return m_type; } static bool classof(const Decl *d) { return d->m_kind >= EnumConstant && d->m_kind <= ParmVar; } };
class EnumConstantDecl : public ValueDecl { public: llvm::APSInt m_value; EnumConstantDecl() : ValueDecl(EnumConstant) {} const llvm::APSInt &getInitVal() const { return m_value; } static bool classof(const Decl *d) { return d->m_kind == EnumConstant; } };
class DeclaratorDecl : public ValueDecl { public: TypeSourceInfo m_written; DeclaratorDecl(Kind k) : ValueDecl(k) {} TypeSourceInfo *getTypeSourceInfo() const { return const_cast<TypeSourceInfo *>(&m_written); } static bool classof(const Decl *d) { return d->m_kind >= Field && d->m_kind <= ParmVar; } };
class FieldDecl : public DeclaratorDecl { public: bool m_bits; unsigned m_width, m_index; FieldDecl() : DeclaratorDecl(Field), m_bits(false), m_width(0), m_index(0) {} bool isBitField() const { return m_bits; } unsigned getBitWidthValue(const ASTContext &) const { return m_width; } unsigned getFieldIndex() const { return m_index; } bool isUnnamedBitfield() const { return m_bits && m_name.empty(); } bool isAnonymousStructOrUnion() const { return m_name.empty() && !m_bits; } RecordDecl *getParent() const { return (RecordDecl *)m_parent; } static bool classof(const Decl *d) { return d->m_kind == Field; } };
enum StorageDuration { SD_FullExpression, SD_Automatic, SD_Thread, SD_Static, SD_Dynamic }; enum StorageClass { SC_None, SC_Extern, SC_Static, SC_PrivateExtern, SC_Auto, SC_Register };
class FunctionDecl : public DeclaratorDecl, public DeclContext { public: bool m_global, m_extern_c, m_static, m_inline, m_noreturn; QualType m_return; SmallVector<ParmVarDecl *, 4> m_parms; Stmt *m_body; FunctionDecl() : DeclaratorDecl(Function), DeclContext("Function"), m_global(false), m_extern_c(false), m_static(false), m_inline(false), m_noreturn(false), m_body(0) {} using Decl::getDeclKindName; DeclarationNameInfo getNameInfo() const { return DeclarationNameInfo { DeclarationName { m_name } }; } bool hasBody() const { return m_body != 0; } Stmt *getBody() const { return m_body; } bool isThisDeclarationADefinition() const { return m_body != 0; } bool isGlobal() const { return m_global; } bool isExternC() const { return m_extern_c; } bool isStatic() const { return m_static; } bool isInlined() const { return m_inline; } bool isInlineSpecified() const { return m_inline; } bool isNoReturn() const { return m_noreturn; } bool isVariadic() const { return false; } QualType getReturnType() const { return m_return; } ArrayRef<ParmVarDecl *> parameters() const { return m_parms; } unsigned getNumParams() const { return (unsigned)m_parms.size(); } ParmVarDecl *getParamDecl(unsigned i) const { return m_parms[i]; } static bool classof(const Decl *d) { return d->m_kind == Function; } };
class VarDecl : public DeclaratorDecl { public: bool m_local, m_extern_c; StorageDuration m_duration; StorageClass m_storage; VarDecl(Kind k = Var) : DeclaratorDecl(k), m_local(false), m_extern_c(false), m_duration(SD_Static), m_storage(SC_None) {} bool isLocalVarDecl() const { return m_kind == Var && m_local; } bool isLocalVarDeclOrParm() const { return m_kind == ParmVar || m_local; } bool isFileVarDecl() const { return m_kind == Var && !m_local; } bool isExternC() const { return m_extern_c; } StorageDuration getStorageDuration() const { return m_duration; } StorageClass getStorageClass() const { return m_storage; } bool hasGlobalStorage() const { return m_duration == SD_Static || m_duration == SD_Thread; } bool isStaticLocal() const { return m_local && m_duration == SD_Static; } static bool classof(const Decl *d) { return d->m_kind == Var || d->m_kind == ParmVar; } };
class ParmVarDecl : public VarDecl { public: QualType m_original; ParmVarDecl() : VarDecl(ParmVar) { m_local = true; m_duration = SD_Automatic; } QualType getOriginalType() const { return m_original; } static bool classof(const Decl *d) { return d->m_kind == ParmVar; } };
inline bool DeclContext::isTranslationUnit() const { return m_kind_name[0] == 'T'; } inline bool DeclContext::isFunctionOrMethod() const { return m_kind_name[0] == 'F'; } inline bool DeclContext::isRecord() const { return m_kind_name[0] == 'R'; } inline bool DeclContext::isFileContext() const { return isTranslationUnit(); }
class Stmt { public: SmallVector<Decl *, 4> m_decls; }; class Expr : public Stmt {}; class DeclStmt : public Stmt { public: SmallVector<Decl *, 4> &decls() { return m_decls; } };
// a record or enumeration is known by its definition once there is one
inline TagDecl *TagType::getDecl() const { TagDecl *d = (TagDecl *)(NamedDecl *)m_decl; return d->m_definition ? d->m_definition : d; } inline RecordDecl *RecordType::getDecl() const { return static_cast<RecordDecl *>(TagType::getDecl()); } inline EnumDecl *EnumType::getDecl() const { return static_cast<EnumDecl *>(TagType::getDecl()); }
inline TypedefNameDecl *TypedefType::getDecl() const { return static_cast<TypedefNameDecl *>(m_decl); }
inline bool Type::isUnionType() const { return is(Record) && ((const RecordType *)canon())->getDecl()->isUnion(); } inline bool Type::isStructureType() const { return is(Record) && ((const RecordType *)canon())->getDecl()->isStruct(); }
inline bool Type::isIncompleteType() const { const Type *t = canon(); return t->m_class == Record || t->m_class == Enum ? !((const TagType *)t)->getDecl()->m_definition : t->m_class == IncompleteArray || (t->m_class == Builtin && t->m_prim == Void); }
inline QualType Type::enum_int() const { return ((const EnumType *)canon())->getDecl()->m_int; }
inline const RecordType *Type::getAsStructureType() const { return isStructureType() ? (const RecordType *)canon() : 0; } inline const RecordType *Type::getAsUnionType() const { return isUnionType() ? (const RecordType *)canon() : 0; } inline RecordDecl *Type::getAsRecordDecl() const { return is(Record) ? ((const RecordType *)canon())->getDecl() : 0; } inline TagDecl *Type::getAsTagDecl() const { return is(Record) || is(Enum) ? ((const TagType *)canon())->getDecl() : 0; }
// ---- context
class DynTypedNode { public: const Decl *m_decl; const Stmt *m_stmt; template <class T> const T *get() const { return pick((const T *)0); } private: template <class T> const T *pick(const T *) const { return m_decl && T::classof(m_decl) ? static_cast<const T *>(m_decl) : 0; } const Stmt *pick(const Stmt *) const { return m_stmt; } };
class DynTypedNodeList { public: DynTypedNode m_n[1]; size_t m_size; size_t size() const { return m_size; } bool empty() const { return !m_size; } const DynTypedNode &operator[](size_t i) const { return m_n[i]; } const DynTypedNode *begin() const { return m_n; } const DynTypedNode *end() const { return m_n + m_size; } };
class ASTContext {
public:
    TranslationUnitDecl *m_tu; SourceManager m_sm; TranslationUnitDecl *getTranslationUnitDecl() const { return m_tu; } SourceManager &getSourceManager() { return m_sm; } const SourceManager &getSourceManager() const { return m_sm; }
    // like clang, not to be asked about an incomplete type; clang gives arrays of unknown size a width of 0
    TypeInfo getTypeInfo(QualType q) const { const Type *t = q->canon(); if (t->m_class == Type::Record || t->m_class == Type::Enum) { if (q->isIncompleteType()) abort(); return t->m_class == Type::Enum ? getTypeInfo(q->enum_int()) : TypeInfo(t->m_width, 8); } return t->m_class == Type::ConstantArray ? TypeInfo(getTypeInfo(t->m_inner).Width * t->m_count, 8) : t->m_class == Type::IncompleteArray || t->m_class == Type::VariableArray ? TypeInfo(0, 8) : TypeInfo(t->m_width, 8); } TypeInfo getTypeInfo(const Type *t) const { return getTypeInfo(QualType(t)); } uint64_t getTypeSize(QualType q) const { return getTypeInfo(q).Width; } unsigned getTypeAlign(QualType q) const { return getTypeInfo(q).Align; }
    template <class T> DynTypedNodeList getParents(const T &d) const { DynTypedNodeList l; l.m_n[0].m_decl = d.m_parent; l.m_n[0].m_stmt = d.m_parent_stmt; l.m_size = d.m_parent || d.m_parent_stmt; return l; }
    const ArrayType *getAsArrayType(QualType q) const { return q->isArrayType() ? (const ArrayType *)q->canon() : 0; } const ConstantArrayType *getAsConstantArrayType(QualType q) const { return q->isConstantArrayType() ? (const ConstantArrayType *)q->canon() : 0; } const VariableArrayType *getAsVariableArrayType(QualType q) const { return q->isVariableArrayType() ? (const VariableArrayType *)q->canon() : 0; } const IncompleteArrayType *getAsIncompleteArrayType(QualType q) const { return q->isIncompleteArrayType() ? (const IncompleteArrayType *)q->canon() : 0; }
};
// ---- visitor
template <class Derived> class RecursiveASTVisitor {
public:
    Derived &getDerived() { return *static_cast<Derived *>(this); } bool shouldVisitImplicitCode() const { return false; } bool shouldTraversePostOrder() const { return false; }
#define STANDIN_VISIT(N) bool Visit##N(N *) { return true; }
    STANDIN_VISIT(Decl) STANDIN_VISIT(NamedDecl) STANDIN_VISIT(TranslationUnitDecl) STANDIN_VISIT(PragmaCommentDecl) STANDIN_VISIT(TypeDecl) STANDIN_VISIT(TypedefNameDecl) STANDIN_VISIT(TypedefDecl) STANDIN_VISIT(TagDecl) STANDIN_VISIT(EnumDecl) STANDIN_VISIT(RecordDecl) STANDIN_VISIT(ValueDecl) STANDIN_VISIT(EnumConstantDecl) STANDIN_VISIT(DeclaratorDecl) STANDIN_VISIT(FieldDecl) STANDIN_VISIT(FunctionDecl) STANDIN_VISIT(VarDecl) STANDIN_VISIT(ParmVarDecl)
#define STANDIN_WALK(N, P) bool WalkUpFrom##N(N *d) { return getDerived().WalkUpFrom##P(d) && getDerived().Visit##N(d); }
    bool WalkUpFromDecl(Decl *d) { return getDerived().VisitDecl(d); } STANDIN_WALK(NamedDecl, Decl) STANDIN_WALK(TranslationUnitDecl, Decl) STANDIN_WALK(PragmaCommentDecl, Decl) STANDIN_WALK(TypeDecl, NamedDecl) STANDIN_WALK(TypedefNameDecl, TypeDecl) STANDIN_WALK(TypedefDecl, TypedefNameDecl) STANDIN_WALK(TagDecl, TypeDecl) STANDIN_WALK(EnumDecl, TagDecl) STANDIN_WALK(RecordDecl, TagDecl) STANDIN_WALK(ValueDecl, NamedDecl) STANDIN_WALK(EnumConstantDecl, ValueDecl) STANDIN_WALK(DeclaratorDecl, ValueDecl) STANDIN_WALK(FieldDecl, DeclaratorDecl) STANDIN_WALK(FunctionDecl, DeclaratorDecl) STANDIN_WALK(VarDecl, DeclaratorDecl) STANDIN_WALK(ParmVarDecl, VarDecl)
    bool children(DeclContext *c) { for (Decl *d : c->m_decls) if (!getDerived().TraverseDecl(d)) return false; return true; }
#define STANDIN_TRAVERSE(N, X) bool Traverse##N(N *d) { if (!getDerived().shouldTraversePostOrder() && !getDerived().WalkUpFrom##N(d)) return false; X; return !getDerived().shouldTraversePostOrder() || getDerived().WalkUpFrom##N(d); }
    STANDIN_TRAVERSE(TranslationUnitDecl, if (!children(d)) return false) STANDIN_TRAVERSE(PragmaCommentDecl, ) STANDIN_TRAVERSE(TypedefDecl, ) STANDIN_TRAVERSE(EnumDecl, if (!children(d)) return false) STANDIN_TRAVERSE(RecordDecl, if (!children(d)) return false) STANDIN_TRAVERSE(EnumConstantDecl, ) STANDIN_TRAVERSE(FieldDecl, ) STANDIN_TRAVERSE(VarDecl, ) STANDIN_TRAVERSE(ParmVarDecl, )
    STANDIN_TRAVERSE(FunctionDecl, for (ParmVarDecl *p : d->m_parms) if (!getDerived().TraverseDecl(p)) return false; if (d->m_body && !getDerived().TraverseStmt(d->m_body)) return false)
    bool TraverseStmt(Stmt *s) { if (s) for (Decl *d : s->m_decls) if (!getDerived().TraverseDecl(d)) return false; return true; }
    bool TraverseDecl(Decl *d)
    {
        if (!d || (!getDerived().shouldVisitImplicitCode() && d->isImplicit())) return true;
        switch (d->m_kind) {
        case Decl::TranslationUnit: return getDerived().TraverseTranslationUnitDecl(static_cast<TranslationUnitDecl *>(d)); case Decl::PragmaComment: return getDerived().TraversePragmaCommentDecl(static_cast<PragmaCommentDecl *>(d)); case Decl::Typedef: return getDerived().TraverseTypedefDecl(static_cast<TypedefDecl *>(d));
        case Decl::Enum: return getDerived().TraverseEnumDecl(static_cast<EnumDecl *>(d)); case Decl::Record: return getDerived().TraverseRecordDecl(static_cast<RecordDecl *>(d)); case Decl::EnumConstant: return getDerived().TraverseEnumConstantDecl(static_cast<EnumConstantDecl *>(d)); case Decl::Field: return getDerived().TraverseFieldDecl(static_cast<FieldDecl *>(d));
        case Decl::Function: return getDerived().TraverseFunctionDecl(static_cast<FunctionDecl *>(d)); case Decl::Var: return getDerived().TraverseVarDecl(static_cast<VarDecl *>(d)); case Decl::ParmVar: return getDerived().TraverseParmVarDecl(static_cast<ParmVarDecl *>(d)); default: return getDerived().WalkUpFromDecl(d);
        }
    }
};
// ---- front end
class DiagnosticConsumer { public: virtual ~DiagnosticConsumer() {} }; class IgnoringDiagConsumer : public DiagnosticConsumer {}; class DiagnosticsEngine { public: void setClient(DiagnosticConsumer *c, bool = true) { delete c; } }; class ASTConsumer { public: virtual ~ASTConsumer() {} };
class CompilerInstance { public: ASTContext m_context; DiagnosticsEngine m_diagnostics; DiagnosticsEngine &getDiagnostics() const { return const_cast<DiagnosticsEngine &>(m_diagnostics); } ASTContext &getASTContext() const { return const_cast<ASTContext &>(m_context); } };
class FrontendInputFile { public: std::string m_file; StringRef getFile() const { return m_file; } };
class FrontendAction { public: CompilerInstance *m_ci; FrontendInputFile m_input; unsigned m_ended; FrontendAction() : m_ci(0), m_ended(0) {} virtual ~FrontendAction() {} CompilerInstance &getCompilerInstance() const { return *m_ci; } const FrontendInputFile &getCurrentInput() const { return m_input; } StringRef getCurrentFile() const { return m_input.m_file; } virtual void EndSourceFileAction() { m_ended++; } };
class ASTFrontendAction : public FrontendAction { public: virtual std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) = 0; };
class PluginASTAction : public ASTFrontendAction { public: enum ActionType { CmdlineBeforeMainAction, CmdlineAfterMainAction, ReplaceAction, AddBeforeMainAction, AddAfterMainAction }; virtual bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &) = 0; virtual ActionType getActionType() { return CmdlineAfterMainAction; } };
struct FrontendPluginRegistry { static PluginASTAction *(*&maker())() { static PluginASTAction *(*m)(); return m; } static const char *&name() { static const char *n; return n; } template <class T> struct Add { static PluginASTAction *make() { return new T; } Add(StringRef n, StringRef) { maker() = make; name() = n.data(); } }; };
}
