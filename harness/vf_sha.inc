// An ideal digest in the place of SHA-224 (which has its own property): equal transcripts get equal digests, different ones different digests.
struct tr { uint8_t *p; size_t n, cap; int done, live; };
static tr TR[400]; static int trs;
extern "C" {
void sha224_init(sha256_ctx *c) { sym_assert(trs < 400, "the harness has room for the digests"); memset(c, 0, sizeof *c); tr *t = &TR[trs]; t->cap = 128; t->p = (uint8_t *)malloc(t->cap); t->n = 0; t->done = 0; t->live = 1; memcpy(c, &trs, sizeof trs); trs++; }
static tr *tr_of(sha256_ctx *c) { int i; memcpy(&i, c, sizeof i); sym_assert(i >= 0 && i < trs && TR[i].live, "a digest is begun before it is used"); return &TR[i]; }
void sha256_update(sha256_ctx *c, const void *d, size_t n) { tr *t = tr_of(c); if (t->n + n > t->cap) { t->cap = (t->n + n) * 2; t->p = (uint8_t *)realloc(t->p, t->cap); } memcpy(t->p + t->n, d, n); t->n += n; }
void sha256_final(sha256_ctx *c, unsigned char *r)
{
    tr *t = tr_of(c); t->live = 0; unsigned id = (unsigned)(t - TR) + 1, found = 0;   // the first finished transcript equal to this one
    for (int i = 0; i < trs; i++) if (TR[i].done && TR[i].n == t->n && &TR[i] != t) {
        unsigned x = 0; for (size_t k = 0; k < t->n; k++) x |= TR[i].p[k] ^ t->p[k];
        unsigned same = (x == 0); if (vf_sha_fork) same = (unsigned)sym_concretize(same);
        unsigned use = same & (found ^ 1); id = use * (unsigned)(i + 1) + (1 - use) * id; found |= same;
    }
    t->done = 1; memset(r, 0xa5, 28); r[0] = (uint8_t)id; r[9] = (uint8_t)(id >> 8);
}
}
