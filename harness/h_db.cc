// Serialisation of the reflection database: memory image, arbitrary images, files with faults.
#include "sym.h"
#include <crefl/model.h>
#include <crefl/db.h>
#include <stdio.h>
#include <sys/stat.h>
#include <errno.h>

static void any_node(decl_node *n) { n->_tag = sym_u32("tag"); n->_props = sym_u32("props"); n->_name = sym_u32("name"); n->_next = sym_u32("next"); n->_link = sym_u32("link"); n->_attr = sym_u32("attr"); n->_quantity = sym_u64("qty"); }
static int same_node(const decl_node *a, const decl_node *b) { return (a->_tag == b->_tag) & (a->_props == b->_props) & (a->_name == b->_name) & (a->_next == b->_next) & (a->_link == b->_link) & (a->_attr == b->_attr) & (a->_quantity == b->_quantity); }

// a database of n arbitrary nodes beyond the builtin types and of m octets of names, made with the library's own allocator
static decl_db *any_db(size_t n, size_t m, size_t *first, size_t *nfirst)
{
    decl_db *db = crefl_db_new(); crefl_db_defaults(db); *first = db->decl_offset; *nfirst = db->name_offset;
    char nm[40]; for (size_t i = 0; i < m; ) { size_t k = m - i > 20 ? 20 : m - i; for (size_t j = 0; j + 1 < k; j++) { nm[j] = (char)sym_u8("char"); sym_assume(nm[j] != 0); } nm[k - 1] = 0; if (k == 1) break; sym_assert(crefl_name_new(db, nm) == *nfirst + i, "names are stored one after another"); i += k; }
    for (size_t i = 0; i < n; i++) any_node(crefl_decl_ptr(crefl_decl_new(db, _decl_none)));
    db->root_element = (decl_id)*first;
    return db;
}
static int inbounds(const decl_db *db, size_t first) { int ok = 1; for (size_t i = first; i < db->decl_offset; i++) { const decl_node *d = db->decl + i; ok &= (d->_link < db->decl_offset) & (d->_next < db->decl_offset) & (d->_attr < db->decl_offset) & (d->_name < db->name_offset); } return ok; }

HARNESS db_rt()
{
    size_t n = sym_param("nodes"), m = sym_param("names"), first, nf; decl_db *db = any_db(n, m, &first, &nf);
    size_t ns = db->name_offset - nf, size = 20 + 32 * n + ns;
    sym_assert(crefl_db_size(db) == size, "the size is that of header, nodes and names");
    size_t more = sym_choose(0, 1, "more"); uint8_t *b = (uint8_t *)malloc(size + more); memset(b, 0x5a, size + more);
    sym_assert(crefl_db_write_mem(db, b, size + more) == 0, "an image with room is written");
    if (more) sym_assert(b[size] == 0x5a, "nothing is written beyond the size");
    sym_assert(!crefl_db_magic(b) & !memcmp(b, "crefl000", 8), "the image starts with the magic");
    u32 h[3]; memcpy(h, b + 8, 12); sym_assert((h[0] == n) & (h[1] == ns) & (h[2] == first), "the header counts nodes and names");
    decl_db *q = crefl_db_new(); int ok = inbounds(db, first), r = crefl_db_read_mem(q, b, size + more);
    if (n) {
        sym_assert(r == (ok ? 0 : -1), "exactly images whose links and names are in range are accepted");
        if (ok) {
            sym_cover("read");
            sym_assert((q->decl_offset == db->decl_offset) & (q->name_offset == db->name_offset) & (q->decl_builtin == first) & (q->name_builtin == nf), "as many nodes and names are read as were written");
            sym_assert((q->root_element == first) & (crefl_root(q).decl_idx == first), "the root is kept");
            int e = 1; for (size_t i = 0; i < n; i++) e &= same_node(db->decl + first + i, q->decl + first + i); sym_assert(e, "nodes read back field for field");
            for (size_t i = 0; i < first; i++) e &= same_node(db->decl + i, q->decl + i); sym_assert(e, "builtin types are the same");
            for (size_t i = 0; i < db->name_offset; i++) e &= db->name[i] == q->name[i]; sym_assert(e, "names read back octet for octet");
            uint8_t *c = (uint8_t *)malloc(size); sym_assert(crefl_db_size(q) == size && crefl_db_write_mem(q, c, size) == 0, "what was read can be written");
            for (size_t i = 0; i < size; i++) e &= c[i] == b[i]; sym_assert(e, "writing what was read gives the same image"); free(c);
        } else sym_cover("refused");
    }
    free(b); crefl_db_destroy(q); crefl_db_destroy(db); sym_assert_no_leaks("destroying a database frees all of it");
}
// databases of many declarations or long names: sizes beyond the tables as allocated and beyond 16 bits
HARNESS db_big()
{
    size_t lo = sym_param("nodes"), m = sym_param("names"), n = lo + (sym_param("span") ? sym_choose(0, sym_param("span"), "nodes") : 0); decl_db *db = crefl_db_new(); crefl_db_defaults(db); size_t first = db->decl_offset, nf = db->name_offset;
    char *nm = (char *)malloc(m + 1); for (size_t i = 0; i < m; i++) nm[i] = (char)('a' + i % 23); nm[m] = 0; if (m) { nm[m - 1] = (char)sym_u8("last character"); sym_assume(nm[m - 1] != 0); } size_t at = crefl_name_new(db, nm); sym_assert(at == (m ? nf : 0), "the name is stored after the others");
    for (size_t i = 0; i < n; i++) { decl_node *d = crefl_decl_ptr(crefl_decl_new(db, _decl_field)); d->_name = (decl_id)(i & 1 ? at : 0); d->_next = (decl_id)(first + (i + 1 < n ? i + 1 : 0)); d->_quantity = i; }
    if (n) { decl_node *d = db->decl + first + n - 1; d->_props = sym_u32("props"); d->_quantity = sym_u64("qty"); } db->root_element = (decl_id)first;
    size_t size = 20 + 32 * n + (m ? m + 1 : 0); sym_assert(crefl_db_size(db) == size, "the size is that of header, nodes and names");
    uint8_t *b = (uint8_t *)malloc(size); sym_assert(crefl_db_write_mem(db, b, size) == 0, "an image with room is written"); decl_db *q = crefl_db_new(); sym_assert(crefl_db_read_mem(q, b, size) == 0, "what was written is read");
    if (n) { int e = 1; sym_assert((q->decl_offset == first + n) & (q->name_offset == db->name_offset), "as many nodes and names are read as were written"); for (size_t i = 0; i < n; i++) e &= same_node(db->decl + first + i, q->decl + first + i); sym_assert(e, "nodes read back field for field"); for (size_t i = 0; i < db->name_offset; i++) e &= db->name[i] == q->name[i]; sym_assert(e, "names read back octet for octet"); sym_cover("read"); }
    free(nm); free(b); crefl_db_destroy(q); crefl_db_destroy(db);
}
HARNESS db_short()
{
    size_t n = sym_choose(0, 2, "nodes"), m = sym_choose(0, 1, "names") * 5, first, nf; decl_db *db = any_db(n, m, &first, &nf);
    size_t size = crefl_db_size(db), cap = sym_u64("capacity"); sym_assume(cap < size); cap = sym_concretize(cap);
    uint8_t *b = (uint8_t *)malloc(cap); memset(b, 0x5a, cap);
    sym_assert(crefl_db_write_mem(db, b, cap) == -1, "an image that does not fit is refused");
    for (size_t i = 0; i < cap; i++) sym_assert(b[i] == 0x5a, "a refused image writes nothing");
    free(b); crefl_db_destroy(db);
}
// arbitrary octets; what the header says about sizes is arbitrary, too
HARNESS db_any()
{
    size_t len = sym_param("len"); uint8_t *b = (uint8_t *)malloc(len); sym_bytes(b, len, "image"); u32 h[3] = { 0, 0, 0 }; int magic = 0;
    if (len >= 20) { memcpy(h, b + 8, 12); magic = !memcmp(b, "crefl000", 8); }
    if (sym_param("valid") && len >= 20) memcpy(b, "crefl000", 8), magic = 1;
    decl_db *db = crefl_db_new();
    int r = crefl_db_read_mem(db, b, len);
    sym_assert((r == 0) | (r == -1), "an image is accepted or refused");
    if (len < 20 || !magic) sym_assert(r == -1, "an image without header or magic is refused");
    else {
        uint64_t dn = h[0], nn = h[1]; uint64_t need = 20 + 32 * dn + nn;
        if (need > len) { sym_cover("truncated"); sym_assert(r == -1, "an image shorter than its header says is refused"); }
        if (r == 0) {
            sym_cover("accepted"); sym_assert(need <= len, "accepted images are complete");
            size_t first = db->decl_builtin;
            if (dn) {
                sym_assert((db->decl_offset == first + dn) & (db->root_element == first) & (h[2] == first), "nodes follow the builtin types, the first of them being the root");
                sym_assert(inbounds(db, 0), "links and names of accepted databases are in range");
                size_t cnt = db->decl_offset; sym_assert(db->decl_size >= cnt, "nodes fit");
                size_t last = 0; for (size_t i = 0; i < db->name_offset; i++) last = db->name[i] ? last : i; // selects, no branches
                int e = 1; for (size_t i = 0; i < cnt; i++) e &= db->decl[i]._name <= last; sym_assert(e, "names of accepted databases are terminated");
                e = 1; for (size_t i = 0; i < dn; i++) { decl_node nd; memcpy(&nd, b + 20 + 32 * i, 32); e &= same_node(&nd, db->decl + first + i); } sym_assert(e, "nodes are those of the image");
                e = 1; for (size_t i = 0; i < nn; i++) e &= db->name[db->name_builtin + i] == (char)b[20 + 32 * dn + i]; sym_assert(e, "names are those of the image");
            }
        }
    }
    free(b); crefl_db_destroy(db); sym_assert_no_leaks("destroying a database frees all of it");
}
HARNESS db_magic() { uint8_t m[8]; sym_bytes(m, 8, "magic"); int e = 1; for (int i = 0; i < 8; i++) e &= m[i] == (uint8_t)"crefl000"[i]; sym_assert((crefl_db_magic(m) == 0) == e, "exactly the magic is recognised"); }

// ---- files: the library's stdio calls are renamed to these (flags of the unit), which may fail at any point
static unsigned char disk[4096]; static size_t disk_size, pos; static int opened, fault, mode_w, closed_err;
enum { F_NONE, F_OPEN, F_STAT, F_SHORT, F_CLOSE };
extern "C" {
FILE *vf_fopen(const char *n, const char *m) { if (fault == F_OPEN) { errno = 2; return 0; } mode_w = m[0] == 'w'; pos = 0; opened++; if (mode_w) disk_size = 0; return (FILE *)disk; }
int vf_fclose(FILE *f) { opened--; return fault == F_CLOSE && mode_w ? -1 : 0; }
int vf_fileno(FILE *f) { return 3; }
int vf_fstat(int fd, struct stat *st) { memset(st, 0, sizeof *st); st->st_size = (off_t)disk_size; return fault == F_STAT ? -1 : 0; }
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f) { size_t k = s * n; if (fault == F_SHORT) k = sym_choose(0, k - 1, "written"); memcpy(disk + pos, p, k); pos += k; disk_size = pos; return k / s; }
size_t vf_fread(void *p, size_t s, size_t n, FILE *f) { size_t k = s * n; if (k > disk_size - pos) k = disk_size - pos; if (fault == F_SHORT) k = sym_choose(0, k - 1, "read"); memcpy(p, disk + pos, k); pos += k; return k / s; }
}
HARNESS db_file()
{
    size_t n = sym_choose(0, 2, "nodes"), m = sym_choose(0, 1, "names") * 6, first, nf; decl_db *db = any_db(n, m, &first, &nf);
    size_t size = crefl_db_size(db); sym_assume(inbounds(db, first));
    int wf = (int)sym_choose(F_NONE, F_CLOSE, "write fault"); fault = wf;
    int r = crefl_db_write_file(db, "a.refl"); sym_assert(opened == 0, "the file is closed");
    sym_assert((r == 0) == (wf == F_NONE || wf == F_STAT), "writing succeeds exactly when everything reached the file");
    if (r == 0) {
        uint8_t *b = (uint8_t *)malloc(size); crefl_db_write_mem(db, b, size); int e = disk_size == size; for (size_t i = 0; i < size; i++) e &= disk[i] == b[i]; sym_assert(e, "the file holds the image"); free(b);
        int rf = (int)sym_choose(F_NONE, F_SHORT, "read fault"); fault = rf; decl_db *q = crefl_db_new(); r = crefl_db_read_file(q, "a.refl");
        if (rf == F_NONE) {
            sym_cover("read"); sym_assert(r == 0, "a written file reads"); e = 1; if (n) { e = (q->decl_offset == db->decl_offset) & (q->name_offset == db->name_offset); for (size_t i = 0; i < n; i++) e &= same_node(db->decl + first + i, q->decl + first + i); }
            sym_assert(e, "a file reads back the database"); sym_assert(opened == 0, "the file is closed");
        } else { sym_cover("read fault"); sym_assert(r == -1, "a file that cannot be read in full is refused"); sym_assert(opened == 0, "the file is closed"); sym_assert((q->decl_offset == 1) & (q->name_offset == 1), "nothing is taken from a file that cannot be read"); }
        crefl_db_destroy(q);
    } else sym_cover("write fault");
    crefl_db_destroy(db); sym_assert_no_leaks("destroying a database frees all of it");
}
