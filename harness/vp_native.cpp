// Native executor of a harness: replays an assignment (VP_INPUTS) or draws one (VP_RANDOM=seed).
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <random>
#include <string>
#include <typeinfo>
#include <vector>
#include <unistd.h>
struct In { std::string n, k, v; };
static std::vector<In> ins; static size_t pos; static bool rnd; static std::mt19937_64 rng; static FILE* lg; static FILE* rec;
static void finish(int c) { if (lg) { fprintf(lg, "END\n"); fclose(lg); } if (rec) fclose(rec); fflush(stdout); _exit(c); }
static const In& next(const char* name) {
    if (pos >= ins.size()) { fprintf(stderr, "vp: inputs exhausted at %s\n", name); if (lg) fprintf(lg, "OUT-OF-INPUTS\n"); finish(78); }
    const In& i = ins[pos++];
    if (i.n != name) { fprintf(stderr, "vp: input mismatch: want %s got %s\n", name, i.n.c_str()); finish(79); }
    return i;
}
static void record(const char* n, const char* k, const std::string& v) { if (rec) fprintf(rec, "%s %s %s\n", n, k, v.c_str()); }
extern "C" {
uint64_t vp_sym_bits(const char* name, unsigned bits) {
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1);
    if (!rnd) return strtoull(next(name).v.c_str(), nullptr, 10) & m;
    uint64_t v = rng() & m;
    if (bits > 4) switch (rng() % 4) { case 0: v &= 0xf; break; case 1: v &= 0xff; break; default: break; } // favour small values
    record(name, "u", std::to_string(v)); return v;
}
double vp_sym_real(const char* name) {
    if (!rnd) { const std::string& s = next(name).v; size_t p = s.find('/'); if (p == std::string::npos) return strtod(s.c_str(), nullptr); return (double)(strtold(s.c_str(), nullptr) / strtold(s.c_str() + p + 1, nullptr)); }
    long a = (long)(rng() % 4000) + 1, b = 1l << (rng() % 6); record(name, "r", std::to_string(a) + "/" + std::to_string(b)); return (double)a / (double)b;
}
uint64_t vp_choice(const char* name, uint64_t n) {
    if (!rnd) { uint64_t v = strtoull(next(name).v.c_str(), nullptr, 10); if (v >= (n ? n : 1)) finish(77); return v; }
    uint64_t v = n ? rng() % n : 0; record(name, "u", std::to_string(v)); return v;
}
void vp_assume(bool c) { if (!c) { if (lg) fprintf(lg, "ASSUME-FALSE\n"); finish(77); } }
void vp_assert(bool c, const char* msg) { if (!c) { if (lg) fprintf(lg, "ASSERT-FAILED %s\n", msg); printf("ASSERT-FAILED %s\n", msg); finish(1); } }
void vp_assert_req(double a, double b, const char* msg) {
    double d = std::fabs(a - b), m = std::fmax(std::fabs(a), std::fabs(b));
    if (!(d <= 1e-9 * m + 1e-30)) { if (lg) fprintf(lg, "ASSERT-FAILED %s\n", msg); printf("ASSERT-FAILED %s (%.17g vs %.17g)\n", msg, a, b); finish(1); }
}
void vp_cover(const char*) {}
void vp_log(const char* n, uint64_t v) { if (lg) fprintf(lg, "%s %llu\n", n, (unsigned long long)v); }
void vp_log_real(const char* n, double v) { if (lg) fprintf(lg, "%s %.9g\n", n, v); }
uint64_t vp_symbolic() { return 0; }
bool vp_fork(bool c) { return c; }
void vp_memcpy(void* d, const void* s, uint64_t n) { memcpy(d, s, n); }
}
int main(int argc, char** argv) {
    if (const char* l = getenv("VP_LOG")) lg = fopen(l, "w");
    if (const char* r = getenv("VP_RECORD")) rec = fopen(r, "w");
    if (const char* r = getenv("VP_RANDOM")) { rnd = true; rng.seed(strtoull(r, nullptr, 10)); }
    else {
        const char* f = getenv("VP_INPUTS"); if (!f && argc > 1) f = argv[1];
        FILE* fp = f ? fopen(f, "r") : nullptr; if (!fp) { fprintf(stderr, "no inputs\n"); return 80; }
        char line[4096];
        while (fgets(line, sizeof line, fp)) { if (!strncmp(line, "MSG ", 4) || !strncmp(line, "AT ", 3)) continue; char a[2048], k[16], v[1024]; if (sscanf(line, "%2047s %15s %1023s", a, k, v) == 3) ins.push_back({a, k, v}); }
        fclose(fp);
    }
    try { vp_main(); }
    catch (const std::exception& e) { printf("ASSERT-FAILED uncaught exception %s: %s\n", typeid(e).name(), e.what()); if (lg) fprintf(lg, "UNCAUGHT\n"); finish(1); }
    catch (...) { printf("ASSERT-FAILED uncaught exception\n"); finish(1); }
    finish(0);
}
