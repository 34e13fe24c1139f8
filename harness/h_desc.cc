// Names of object identifiers, against data/oids.txt (turned into oids.inc when the check is built).
#include "sym.h"
#include <crefl/oid.h>
struct row { unsigned len; const char *oid, *name; };
static const row ROWS[] = {
#include "../build/oids.inc"
};
static const size_t N = sizeof ROWS / sizeof *ROWS;
static int same(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
// any octets of this length
HARNESS oid_desc()
{
    size_t n = sym_param("len"); char *o = (char *)malloc(n ? n : 1); const char *z = crefl_asn1_oid_desc("", 0); sym_assert(z && !*z, "the empty object identifier has no name");
    sym_bytes(o, n, "octets"); const char *d = crefl_asn1_oid_desc(o, n); sym_assert(d != 0, "there is always a text"); int known = 0, right = 1;
    for (size_t i = 0; i < N; i++) if (ROWS[i].len == n) { int e = 1; for (size_t j = 0; j < n; j++) e &= o[j] == ROWS[i].oid[j]; known |= e; int s = same(d, ROWS[i].name); right &= !e | s; }
    sym_assert(right, "a known object identifier has the name given in data/oids.txt"); sym_assert(known | !*d, "an unknown object identifier has the empty name");
    const char *a = crefl_asn1_oid_desc(o, n); sym_assert(same(d, a), "asked again, the name is the same"); if (*d) sym_cover("known"); else sym_cover("unknown");
    free(o);
}
