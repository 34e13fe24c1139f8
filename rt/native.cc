// Native side of the harness interface: runs harness entries on recorded input values against the really compiled code.
#include "sym.h"
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
struct Case { std::map<std::string, uint64_t> params; std::vector<std::pair<std::string, std::string>> in; };
static Case *C; static size_t pos; static FILE *O; static size_t leakBase;
static std::string unhex(const std::string &h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static void done(int code) { fflush(O); fflush(stdout); _exit(code); }
static void skip() { while (pos < C->in.size() && C->in[pos].first[0] == '~') pos++; } // values internal to the libc models
static std::string next(const char *name, size_t n)
{
    skip(); if (pos >= C->in.size()) { fprintf(O, "DIVERGE no input for %s\n", name); done(78); }
    auto &p = C->in[pos++];
    std::string v = unhex(p.second);
    if (v.size() != n && n != 8) { fprintf(O, "DIVERGE input %s has %zu bytes, %s wants %zu\n", p.first.c_str(), v.size(), name, n); done(78); }
    if (p.first != name) { fprintf(O, "DIVERGE input %s where %s is wanted\n", p.first.c_str(), name); done(78); }
    return v;
}
static uint64_t num(const std::string &s) { uint64_t v = 0; for (size_t i = 0; i < s.size() && i < 8; i++) v |= (uint64_t)(uint8_t)s[i] << (8 * i); return v; }
extern "C" {
void sym_bytes(void *p, size_t n, const char *name) { std::string v = next(name, n); if (v.size() != n) { fprintf(O, "DIVERGE size of %s\n", name); done(78); } memcpy(p, v.data(), n); }
uint64_t sym_u64(const char *n) { return num(next(n, 8)); }
uint32_t sym_u32(const char *n) { return (uint32_t)num(next(n, 4)); }
uint16_t sym_u16(const char *n) { return (uint16_t)num(next(n, 2)); }
uint8_t sym_u8(const char *n) { return (uint8_t)num(next(n, 1)); }
uint64_t sym_choose(uint64_t lo, uint64_t hi, const char *n) { uint64_t v = num(next(n, 8)); if (v < lo || v > hi) { fprintf(O, "DIVERGE choice %s\n", n); done(78); } return v; }
void sym_assume(int c) { if (!c) { fprintf(O, "DIVERGE assumption fails\n"); done(77); } }
void sym_assert(int c, const char *msg) { if (!c) { fprintf(O, "ASSERT %s\n", msg); done(79); } }
void sym_assert_equiv(const void *a, const void *b, size_t n, const char *msg) { if (memcmp(a, b, n)) { fprintf(O, "ASSERT %s\n", msg); done(79); } }
void sym_cover(const char *) {}
static void obs(const char *name, const void *p, size_t n) { fprintf(O, "obs %s ", name); for (size_t i = 0; i < n; i++) fprintf(O, "%02x", ((const uint8_t *)p)[i]); fprintf(O, "\n"); }
void sym_observe(const char *name, uint64_t v) { obs(name, &v, 8); }
void sym_observe_bytes(const char *name, const void *p, size_t n) { for (size_t i = 0; i < n; i++) obs(name, (const char *)p + i, 1); }
uint64_t sym_param(const char *name) { auto it = C->params.find(name); if (it == C->params.end()) { fprintf(O, "DIVERGE parameter %s\n", name); done(78); } return it->second; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_leak_begin(void) {
#if defined(__SANITIZE_ADDRESS__)
    leakBase = __sanitizer_get_current_allocated_bytes();
#endif
}
void sym_assert_no_leaks(const char *msg) {
#if defined(__SANITIZE_ADDRESS__)
    if (__sanitizer_get_current_allocated_bytes() > leakBase) { fprintf(O, "ASSERT %s\n", msg); done(79); }
#endif
}
int sym_is_native(void) { return 1; }
void sym_end(void) { skip(); if (pos != C->in.size()) { fprintf(O, "DIVERGE %zu inputs unused\n", C->in.size() - pos); done(78); } done(0); }
}
int main(int argc, char **argv)
{
    // native CASEFILE ENTRY [timeout]
    std::ifstream f(argv[1]); std::string line; std::vector<Case> cases;
    while (std::getline(f, line)) {
        std::istringstream is(line); std::string k, a, b; is >> k;
        if (k == "case") cases.emplace_back();
        else if (k == "param") { is >> a >> b; cases.back().params[a] = strtoull(b.c_str(), 0, 0); }
        else if (k == "in") { std::string rest; size_t t = line.find('\t'), u = line.rfind('\t'); cases.back().in.push_back({line.substr(t + 1, u - t - 1), line.substr(u + 1)}); }
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[2]);
    if (!fn) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
    int to = argc > 3 ? atoi(argv[3]) : 10;
    O = stdout;
    for (size_t i = 0; i < cases.size(); i++) {
        printf("begin %zu\n", i); fflush(stdout);
        pid_t p = fork();
        if (!p) {
            if (!getenv("SYM_NOALARM")) alarm(to);
            struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            // the code under test may print: keep its stdout apart from ours
            int fd = dup(1); O = fdopen(fd, "w"); freopen("/dev/null", "w", stdout); if (!getenv("SYM_STDERR")) freopen("/dev/null", "w", stderr);
            static char ob[2][65536]; setvbuf(O, ob[0], _IOFBF, sizeof ob[0]); setvbuf(stdout, ob[1], _IOFBF, sizeof ob[1]);
            C = &cases[i]; pos = 0; setvbuf(stderr, 0, _IONBF, 0); sym_leak_begin(); fn();
            skip(); if (pos != C->in.size()) { fprintf(O, "DIVERGE %zu inputs unused\n", C->in.size() - pos); done(78); }
            done(0);
        }
        int st; waitpid(p, &st, 0);
        if (WIFEXITED(st)) printf("end %zu exit %d\n", i, WEXITSTATUS(st)); else printf("end %zu signal %d\n", i, WTERMSIG(st));
        fflush(stdout);
    }
    return 0;
}
