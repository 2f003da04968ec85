// symex: a forking symbolic executor for LLVM IR.
// Every fork point is decided by z3; process-level fork() gives the copy of the state.
#include "expr.h"
#include <llvm/ADT/StringExtras.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <atomic>
#include <cmath>
#include <chrono>
#include <csignal>
#include <cstring>
#include <fstream>
#include <iostream>
#include <semaphore.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using namespace sx;
using sx::u64;
using sx::i64;

// ---------------------------------------------------------------------------------------------
// shared results
// ---------------------------------------------------------------------------------------------
static const int MAXVIOL = 16, VIOLSZ = 1 << 16, MAXCOVER = 512, MAXFN = 1 << 16, MAXLINE = 1 << 17, MAXSAMPLE = 24;
struct Shared {
    std::atomic<u64> paths, assumed_out, queries, q_sat, q_unsat, q_unknown, solver_us, insts, forks, a_concrete, a_simplified, a_solver, maxdepth, symbranches, rq, maxq_us;
    std::atomic<int> stop;
    std::atomic<int> nviol;
    std::atomic<int> haserr;
    std::atomic<int> nsample;
    sem_t tokens;
    sem_t lock;
    char err[4096];
    char viol[MAXVIOL][VIOLSZ];
    char sample[MAXSAMPLE][VIOLSZ];
    std::atomic<u64> cover[MAXCOVER];
    char coverName[MAXCOVER][96];
    std::atomic<int> ncover;
    uint8_t fn[MAXFN];
    uint8_t line[MAXLINE];
};
static Shared* S;
static bool g_parent = true;
static bool g_ownToken = true;
static long g_rlimit = 60000000;
static u64 g_pathLimit = 2000000;
static std::chrono::steady_clock::time_point g_t0;
static double g_deadline = 800;
static bool g_concrete = false;   // inputs are constants
static bool g_concolic = false;   // inputs are symbolic, the path of one given assignment is followed
static bool g_logging = false;
static std::string g_logfile;
static std::string g_log;
static std::map<std::string, std::string> g_opts;
static void finishProcess(int code);

namespace sx {
[[noreturn]] void engineError(const std::string& msg) {
    if (S) {
        int z = 0;
        if (S->haserr.compare_exchange_strong(z, 1)) { strncpy(S->err, msg.c_str(), sizeof(S->err) - 1); }
        S->stop = 1;
        finishProcess(2);
    }
    fprintf(stderr, "engine: %s\n", msg.c_str());
    _exit(2);
}
} // namespace sx

static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

// ---------------------------------------------------------------------------------------------
// values and memory
// ---------------------------------------------------------------------------------------------
struct Val;
struct Agg;
struct Val {
    u64 c = 0;
    Expr* e = nullptr;
    Agg* agg = nullptr;
    Val() = default;
    Val(u64 v) : c(v) {}
    static Val of(Expr* x) { Val v; if (x->k == K_CONST) v.c = x->c; else v.e = x; return v; }
    bool conc() const { return !e; }
};
struct Agg { std::vector<Val> v; };

struct Cell { Expr* e; uint8_t off; };
struct Object {
    u64 size = 0;
    uint8_t* data = nullptr;
    Cell* sym = nullptr;
    bool alive = true;
    bool ro = false;
    uint8_t kind = 0; // 0 global, 1 stack, 2 heap
    const char* name = "";
};
static const u64 OBJ_OFF = 0x10000;
static const u64 FN_BASE = 0x7000000000000000ull;

static Builder B;
static z3::context* Z;

// ---------------------------------------------------------------------------------------------
// solver
// ---------------------------------------------------------------------------------------------
static unsigned bitsFor(u64 v) { return v ? 64 - __builtin_clzll(v) : 1; }

static std::string where();
struct Solver {
    z3::solver* s = nullptr;
    std::unordered_map<u64, z3::expr> cache; // (id<<7|w)
    std::unordered_map<uint32_t, z3::expr> bcache;
    std::unordered_map<uint32_t, z3::expr> rcache;
    std::vector<z3::expr> rside;
    std::vector<Expr*> pc;        // bit-vector conditions
    std::vector<Expr*> pcReal;    // conditions over reals
    void init() {
        s = new z3::solver(*Z, "QF_BV");
        z3::params p(*Z);
        p.set("rlimit", (unsigned)g_rlimit);
        s->set(p);
        sl = new z3::solver(*Z, "QF_LIA");
        z3::params pl(*Z); pl.set("rlimit", (unsigned)2000000); sl->set(pl);
    }
    static bool hasReal(Expr* e) { return e->k == R_LT || e->k == R_EQ || anyReal(e, 0); }
    static bool anyReal(Expr* e, int d) {
        if (e->isReal() || e->k == R_LT || e->k == R_EQ) return true;
        if (e->w != 1 || d > 12) return false;
        if (e->k == K_AND || e->k == K_OR || e->k == K_XOR || e->k == K_ITE) { for (auto* o : e->ops) if (anyReal(o, d + 1)) return true; }
        return false;
    }
    z3::expr num(u64 v, unsigned w) { return Z->bv_val((uint64_t)(v & maskw(w)), w); }
    z3::expr boolOf(Expr* e) {
        auto it = bcache.find(e->id);
        if (it != bcache.end()) return it->second;
        z3::expr r = boolOf0(e);
        bcache.emplace(e->id, r);
        return r;
    }
    z3::expr boolOf0(Expr* e) {
        switch (e->k) {
        case K_CONST: return Z->bool_val(e->c != 0);
        case K_VAR: return Z->bool_const(("b" + std::to_string(e->c)).c_str());
        case K_AND: return boolOf(e->ops[0]) && boolOf(e->ops[1]);
        case K_OR: return boolOf(e->ops[0]) || boolOf(e->ops[1]);
        case K_XOR: {
            if (Builder::isC(e->ops[0], 1)) return !boolOf(e->ops[1]);
            return boolOf(e->ops[0]) != boolOf(e->ops[1]);
        }
        case K_ITE: return z3::ite(boolOf(e->ops[0]), boolOf(e->ops[1]), boolOf(e->ops[2]));
        case K_EQ0: {
            Expr* d = e->ops[0];
            if (d->k == K_LIN) {
                unsigned w = d->w;
                if (d->noovf) { u64 m = std::max<u64>((u64)std::llabs(d->smin), (u64)std::llabs(d->smax)); w = std::min(w, bitsFor(m) + 1); }
                // split into positive and negative part: sum+ == sum-
                z3::expr l(*Z), r(*Z); bool hl = false, hr = false; i64 c0 = sextw(d->c, d->w);
                for (size_t i = 0; i < d->ops.size(); i++) {
                    i64 cc = sextw(d->coef[i], d->w);
                    z3::expr t = bv(d->ops[i], w);
                    u64 ab = cc < 0 ? (u64)-cc : (u64)cc;
                    if (ab != 1) t = num(ab, w) * t;
                    if (cc > 0) { l = hl ? l + t : t; hl = true; } else { r = hr ? r + t : t; hr = true; }
                }
                if (c0 > 0) { z3::expr t = num((u64)c0, w); l = hl ? l + t : t; hl = true; }
                if (c0 < 0) { z3::expr t = num((u64)-c0, w); r = hr ? r + t : t; hr = true; }
                if (!hl) l = num(0, w);
                if (!hr) r = num(0, w);
                return l == r;
            }
            unsigned w = std::min<unsigned>(d->w, bitsFor(d->umax));
            return bv(d, w) == num(0, w);
        }
        case K_POS: {
            Expr* d = e->ops[0];
            unsigned w = d->w;
            if (d->k == K_LIN) { u64 m = std::max<u64>((u64)std::llabs(d->smin), (u64)std::llabs(d->smax)); w = std::min(w, bitsFor(m) + 1); }
            return z3::sge(bv(d, w), num(1, w));
        }
        case K_ULT: { unsigned w = std::max(bitsFor(e->ops[0]->umax), bitsFor(e->ops[1]->umax)); return z3::ult(bv(e->ops[0], w), bv(e->ops[1], w)); }
        case K_SLT: return z3::slt(bv(e->ops[0], e->ops[0]->w), bv(e->ops[1], e->ops[1]->w));
        case K_EXTRACT: return bv(e->ops[0], e->lo + 1).extract(e->lo, e->lo) == num(1, 1);
        case R_LT: { auto a = frac(e->ops[0]), b = frac(e->ops[1]); return real(e->ops[0]) < real(e->ops[1]); }
        case R_EQ: return real(e->ops[0]) == real(e->ops[1]);
        default: {
            if (e->w != 1) engineError("boolOf width");
            return bv1(e) == num(1, 1);
        }
        }
    }
    std::pair<int, int> frac(Expr*) { return {0, 0}; }
    z3::expr bv1(Expr* e) { return bvRaw(e); }
    z3::expr resize(z3::expr x, unsigned from, unsigned to) {
        if (from == to) return x;
        if (from > to) return x.extract(to - 1, 0);
        return z3::zext(x, to - from);
    }
    z3::expr bv(Expr* e, unsigned w) { // low w bits of e, w <= e->w
        if (w > e->w) return z3::zext(bv(e, e->w), w - e->w);
        u64 key = ((u64)e->id << 7) | w;
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        z3::expr r = bv0(e, w);
        cache.emplace(key, r);
        return r;
    }
    z3::expr bv0(Expr* e, unsigned w) {
        if (e->w == 1 && e->k != K_CONST) return z3::ite(boolOf(e), num(1, 1), num(0, 1));
        // value known to need fewer bits
        unsigned need = bitsFor(e->umax);
        if (need < w && e->k != K_CONST) return z3::zext(bv(e, need), w - need);
        switch (e->k) {
        case K_CONST: return num(e->c, w);
        case K_VAR: { z3::expr v = Z->bv_const(("v" + std::to_string(e->c)).c_str(), e->w); return resize(v, e->w, w); }
        case K_LIN: {
            z3::expr r(*Z); bool h = false;
            for (size_t i = 0; i < e->ops.size(); i++) {
                u64 cc = e->coef[i] & maskw(w);
                if (!cc) continue;
                z3::expr t = e->ops[i]->w >= w ? bv(e->ops[i], w) : z3::zext(bv(e->ops[i], e->ops[i]->w), w - e->ops[i]->w);
                i64 sc = sextw(cc, w);
                if (sc < 0) { u64 ab = (u64)-sc & maskw(w); if (ab != 1) t = num(ab, w) * t; r = h ? r - t : -t; h = true; }
                else { if (cc != 1) t = num(cc, w) * t; r = h ? r + t : t; h = true; }
            }
            if ((e->c & maskw(w)) || !h) { z3::expr t = num(e->c, w); r = h ? r + t : t; }
            return r;
        }
        case K_MUL: return bv(e->ops[0], w) * bv(e->ops[1], w);
        case K_AND: return bv(e->ops[0], w) & bv(e->ops[1], w);
        case K_OR: return bv(e->ops[0], w) | bv(e->ops[1], w);
        case K_XOR: return bv(e->ops[0], w) ^ bv(e->ops[1], w);
        case K_ITE: return z3::ite(boolOf(e->ops[0]), bv(e->ops[1], w), bv(e->ops[2], w));
        case K_ZEXT: return e->ops[0]->w >= w ? bv(e->ops[0], w) : z3::zext(bv(e->ops[0], e->ops[0]->w), w - e->ops[0]->w);
        case K_SHL: if (e->ops[1]->umax < w) return z3::shl(bv(e->ops[0], w), bv(e->ops[1], w)); break;
        case K_UDIV: case K_UREM: {
            unsigned m = std::max(bitsFor(e->ops[0]->umax), bitsFor(e->ops[1]->umax));
            if (m < w) m = w;
            z3::expr a = bv(e->ops[0], m), b = bv(e->ops[1], m);
            return resize(e->k == K_UDIV ? z3::udiv(a, b) : z3::urem(a, b), m, w);
        }
        case K_EXTRACT: return bv(e->ops[0], e->lo + w).extract(e->lo + w - 1, e->lo);
        default: break;
        }
        return resize(bvRaw(e), e->w, w);
    }
    z3::expr bvRaw(Expr* e) {
        unsigned W = e->w;
        switch (e->k) {
        case K_SDIV: return bv(e->ops[0], W) / bv(e->ops[1], W);
        case K_SREM: return z3::srem(bv(e->ops[0], W), bv(e->ops[1], W));
        case K_SHL: return z3::shl(bv(e->ops[0], W), bv(e->ops[1], W));
        case K_LSHR: return z3::lshr(bv(e->ops[0], W), bv(e->ops[1], W));
        case K_ASHR: return z3::ashr(bv(e->ops[0], W), bv(e->ops[1], W));
        case K_CONCAT: return z3::concat(bv(e->ops[0], e->ops[0]->w), bv(e->ops[1], e->ops[1]->w));
        case K_SEXT: return z3::sext(bv(e->ops[0], e->ops[0]->w), W - e->ops[0]->w);
        case K_UDIV: return z3::udiv(bv(e->ops[0], W), bv(e->ops[1], W));
        case K_UREM: return z3::urem(bv(e->ops[0], W), bv(e->ops[1], W));
        default: engineError("bvRaw kind " + std::to_string(e->k));
        }
    }
    z3::expr real(Expr* e) {
        auto it = rcache.find(e->id);
        if (it != rcache.end()) return it->second;
        z3::expr r(*Z);
        switch (e->k) {
        case R_CONST: r = Z->real_val(e->q->get_str().c_str()); break;
        case R_VAR: r = Z->real_const(("r" + std::to_string(e->c)).c_str()); break;
        case R_ADD: r = real(e->ops[0]) + real(e->ops[1]); break;
        case R_MUL: r = real(e->ops[0]) * real(e->ops[1]); break;
        case R_DIV: {
            z3::expr d = real(e->ops[1]);
            z3::expr q = Z->real_const(("q" + std::to_string(e->id)).c_str());
            rside.push_back(q * d == real(e->ops[0]));
            r = q; break;
        }
        case R_U2R: {
            r = Z->real_const(("u" + std::to_string(e->ops[0]->id)).c_str());
            rside.push_back(r >= 0);
            rside.push_back(r <= Z->real_val(std::to_string(e->ops[0]->umax).c_str()));
            break;
        }
        default: engineError("real kind");
        }
        rcache.emplace(e->id, r);
        return r;
    }
    // rational function: (numerator, denominator)
    std::unordered_map<uint32_t, std::pair<z3::expr, z3::expr>> fcache;
    std::pair<z3::expr, z3::expr> rat(Expr* e) {
        auto it = fcache.find(e->id);
        if (it != fcache.end()) return it->second;
        z3::expr one = Z->real_val(1);
        std::pair<z3::expr, z3::expr> r(one, one);
        auto isOne = [&](const z3::expr& x) { return z3::eq(x, one); };
        auto mul = [&](const z3::expr& a, const z3::expr& b) { return isOne(a) ? b : isOne(b) ? a : a * b; };
        switch (e->k) {
        case R_CONST: case R_VAR: case R_U2R: r = {real(e), one}; break;
        case R_ADD: { auto a = rat(e->ops[0]), b = rat(e->ops[1]);
            if (z3::eq(a.second, b.second)) r = {a.first + b.first, a.second};
            else r = {mul(a.first, b.second) + mul(b.first, a.second), mul(a.second, b.second)}; break; }
        case R_MUL: { auto a = rat(e->ops[0]), b = rat(e->ops[1]); r = {mul(a.first, b.first), mul(a.second, b.second)}; break; }
        case R_DIV: { auto a = rat(e->ops[0]), b = rat(e->ops[1]); r = {mul(a.first, b.second), mul(a.second, b.first)}; break; }
        default: engineError("rat kind");
        }
        fcache.emplace(e->id, r);
        return r;
    }
    // ---- linear integer arithmetic view: conditions whose terms provably stay in range are decided over the integers ----
    z3::solver* sl = nullptr; bool liaAll = true;
    std::unordered_map<uint32_t, z3::expr> icache, ibcache; std::set<u64> ivars; std::unordered_map<uint32_t, bool> ibad, ibbad;
    z3::expr inum(i64 v) { return Z->int_val((int64_t)v); }
    bool intOf(Expr* e, z3::expr& out) { // the unsigned value of e as an integer term
        auto it = icache.find(e->id); if (it != icache.end()) { out = it->second; return true; }
        if (ibad.count(e->id)) return false;
        bool ok = intOf0(e, out);
        if (ok) icache.emplace(e->id, out); else ibad[e->id] = true;
        return ok;
    }
    bool lin(Expr* e, z3::expr& out) { // integer value of the signed sum
        z3::expr r = inum(sextw(e->c, e->w));
        for (size_t i = 0; i < e->ops.size(); i++) { z3::expr t(*Z); if (!intOf(e->ops[i], t)) return false; i64 cc = sextw(e->coef[i], e->w); r = r + (cc == 1 ? t : inum(cc) * t); }
        out = r; return true;
    }
    bool intOf0(Expr* e, z3::expr& out) {
        switch (e->k) {
        case K_CONST: if ((i64)e->c < 0) return false; out = inum((i64)e->c); return true;
        case K_VAR: {
            if (e->w > 40) return false;
            if (e->w == 1) { out = z3::ite(Z->bool_const(("b" + std::to_string(e->c)).c_str()), inum(1), inum(0)); return true; }
            out = Z->int_const(("i" + std::to_string(e->c)).c_str());
            if (ivars.insert(e->c).second) { sl->add(out >= 0); sl->add(out <= inum((i64)maskw(e->w))); }
            return true; }
        case K_ZEXT: return intOf(e->ops[0], out);
        case K_LIN: if (!e->noovf || !lin(e, out)) return false;
            if (e->smin < 0) { z3::expr two = e->w >= 64 ? Z->int_val("18446744073709551616") : Z->int_val((uint64_t)(1ull << e->w)); out = z3::ite(out < inum(0), out + two, out); }
            return true;
        case K_ITE: { z3::expr c(*Z), a(*Z), b(*Z); if (!ibool(e->ops[0], c) || !intOf(e->ops[1], a) || !intOf(e->ops[2], b)) return false; out = z3::ite(c, a, b); return true; }
        case K_AND: case K_OR: case K_XOR: if (e->w != 1 && e->ops.size() == 2 && e->ops[0]->umax <= 1 && e->ops[1]->umax <= 1) {
            z3::expr a(*Z), b(*Z); if (!intOf(e->ops[0], a) || !intOf(e->ops[1], b)) return false;
            z3::expr x = a == inum(1), y = b == inum(1);
            out = z3::ite(e->k == K_AND ? (x && y) : e->k == K_OR ? (x || y) : (x != y), inum(1), inum(0)); return true; }
            [[fallthrough]];
        default: { if (e->w != 1) return false; z3::expr c(*Z); if (!ibool(e, c)) return false; out = z3::ite(c, inum(1), inum(0)); return true; }
        }
    }
    bool sintOf(Expr* e, z3::expr& out) { // signed value
        if (e->k == K_CONST) { out = inum(sextw(e->c, e->w)); return true; }
        if (e->k == K_LIN) return e->noovf && lin(e, out);
        if (e->umax >= (1ull << (e->w - 1))) return false;
        return intOf(e, out);
    }
    bool ibool(Expr* e, z3::expr& out) {
        auto it = ibcache.find(e->id); if (it != ibcache.end()) { out = it->second; return true; }
        if (ibbad.count(e->id)) return false;
        bool ok = ibool0(e, out);
        if (ok) ibcache.emplace(e->id, out); else ibbad[e->id] = true;
        return ok;
    }
    bool ibool0(Expr* e, z3::expr& out) {
        if (e->w != 1) return false;
        z3::expr a(*Z), b(*Z), c(*Z);
        switch (e->k) {
        case K_CONST: out = Z->bool_val(e->c != 0); return true;
        case K_VAR: out = Z->bool_const(("b" + std::to_string(e->c)).c_str()); return true;
        case K_AND: if (!ibool(e->ops[0], a) || !ibool(e->ops[1], b)) return false; out = a && b; return true;
        case K_OR: if (!ibool(e->ops[0], a) || !ibool(e->ops[1], b)) return false; out = a || b; return true;
        case K_XOR: if (Builder::isC(e->ops[0], 1)) { if (!ibool(e->ops[1], a)) return false; out = !a; return true; }
            if (!ibool(e->ops[0], a) || !ibool(e->ops[1], b)) return false; out = a != b; return true;
        case K_ITE: if (!ibool(e->ops[0], a) || !ibool(e->ops[1], b) || !ibool(e->ops[2], c)) return false; out = z3::ite(a, b, c); return true;
        case K_EQ0: case K_POS: {
            Expr* d = e->ops[0];
            if (d->k == K_LIN && !d->noovf && e->k == K_EQ0) { // zero modulo 2^w: a few multiples are possible
                if (d->w > 40) return false;
                __int128 lo = sextw(d->c, d->w), hi = lo;
                for (size_t i = 0; i < d->ops.size(); i++) { __int128 v = (__int128)sextw(d->coef[i], d->w) * (__int128)d->ops[i]->umax; (v > 0 ? hi : lo) += v; }
                __int128 m = (__int128)1 << d->w;
                __int128 k0 = lo >= 0 ? (lo + m - 1) / m : -(-lo / m), k1 = hi >= 0 ? hi / m : -((-hi + m - 1) / m);
                if (k1 - k0 > 8 || !lin(d, a)) return false;
                out = Z->bool_val(false);
                for (__int128 k = k0; k <= k1; k++) out = out || a == inum((i64)(k * m));
                return true;
            }
            if (d->k == K_LIN) { if (!d->noovf || !lin(d, a)) return false; }
            else if (e->k == K_POS && d->umax >= (1ull << (d->w - 1))) return false;
            else if (!intOf(d, a)) return false;
            out = e->k == K_EQ0 ? a == inum(0) : a >= inum(1); return true; }
        case K_SLT: if (!sintOf(e->ops[0], a) || !sintOf(e->ops[1], b)) return false; out = a < b; return true;
        case K_ULT: if (!intOf(e->ops[0], a) || !intOf(e->ops[1], b)) return false; out = a < b; return true;
        default: return false;
        }
    }
    int checkLia(Expr* extra, std::vector<std::pair<size_t, u64>>* out) { // 0 unsat, 1 sat, 2 undecided here
        z3::expr q(*Z);
        bool ok = ibool(extra, q);
        if (!ok && g_opts.count("slow")) { std::ostringstream o; o << "NOINT " << where() << "\n"; std::function<void(Expr*, int)> dump = [&](Expr* e, int d) { z3::expr t(*Z); bool bad = e->w == 1 ? !ibool(e, t) : !intOf(e, t); if (!bad && d > 1 && d < 12) return; o << std::string(d, 32) << (int)e->k << " w" << e->w << " c" << e->c << " bad " << bad << " noovf " << e->noovf << " umax " << e->umax << " coef"; for (auto x : e->coef) o << " " << (int64_t)x; o << "\n"; if (d < 30) for (auto* q : e->ops) dump(q, d + 1); }; dump(extra, 0); std::cerr << o.str(); }
        if (!ok) { if (liaAll) return 2; q = Z->bool_val(true); }
        auto t = std::chrono::steady_clock::now();
        sl->push(); sl->add(q);
        z3::check_result r = sl->check();
        bool full = ok && liaAll;
        if (r == z3::sat && full && out) {
            z3::model m = sl->get_model();
            for (size_t i = 0; i < B.vars.size(); i++) {
                auto& v = B.vars[i]; if (v.real) continue;
                if (v.w == 1) { z3::expr x = m.eval(Z->bool_const(("b" + std::to_string(i)).c_str()), false); if (x.is_true()) out->push_back({i, 1}); else if (x.is_false()) out->push_back({i, 0}); }
                else if (ivars.count(i)) { z3::expr x = m.eval(Z->int_const(("i" + std::to_string(i)).c_str()), false); if (x.is_numeral()) out->push_back({i, x.get_numeral_uint64()}); }
            }
        }
        sl->pop();
        if (r == z3::sat && !full) return 2;
        if (r == z3::unknown) return 2;
        u64 us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t).count();
        S->queries++; S->solver_us += us;
        u64 mx = S->maxq_us; while (us > mx && !S->maxq_us.compare_exchange_weak(mx, us)) {}
        if (r == z3::sat) { S->q_sat++; return 1; }
        S->q_unsat++; return 0;
    }
    void assume(Expr* c) {
        if (hasReal(c)) { pcReal.push_back(c); return; }
        pc.push_back(c);
        z3::expr q(*Z);
        if (ibool(c, q)) sl->add(q); else { liaAll = false; if (g_opts.count("slow")) std::cerr << "NOLIA " << (int)c->k << " w" << c->w << " op0 " << (c->ops.empty() ? -1 : (int)c->ops[0]->k) << " noovf " << (c->ops.empty() ? 0 : (int)c->ops[0]->noovf) << " " << boolOf(c) << "\n"; }
    }
    size_t pcDone = 0;
    // 0 unsat, 1 sat (model loaded into out), 2 unknown
    int check(Expr* extra, std::vector<std::pair<size_t, u64>>* out) {
        int li = checkLia(extra, out);
        if (li != 2) return li;
        for (; pcDone < pc.size(); pcDone++) s->add(boolOf(pc[pcDone]));
        auto t = std::chrono::steady_clock::now();
        z3::check_result r;
        s->push();
        s->add(boolOf(extra));
        r = s->check();
        if (r == z3::sat && out) {
            z3::model m = s->get_model();
            for (size_t i = 0; i < B.vars.size(); i++) {
                auto& v = B.vars[i];
                if (v.real) continue;
                if (v.w == 1) {
                    z3::expr x = m.eval(Z->bool_const(("b" + std::to_string(i)).c_str()), false);
                    if (x.is_true()) out->push_back({i, 1}); else if (x.is_false()) out->push_back({i, 0});
                } else {
                    z3::expr x = m.eval(Z->bv_const(("v" + std::to_string(i)).c_str(), v.w), false);
                    if (x.is_numeral()) { uint64_t q = x.get_numeral_uint64(); out->push_back({i, q}); }
                }
            }
        }
        s->pop();
        u64 us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t).count();
        if (g_opts.count("slow") && us > 10000) std::cerr << "SLOWQ " << us << " " << where() << "\n";
        S->queries++; S->solver_us += us;
        u64 mx = S->maxq_us; while (us > mx && !S->maxq_us.compare_exchange_weak(mx, us)) {}
        if (r == z3::sat) { S->q_sat++; return 1; }
        if (r == z3::unsat) { S->q_unsat++; return 0; }
        // a fresh solver with the tactic pipeline
        z3::solver f = (z3::tactic(*Z, "simplify") & z3::tactic(*Z, "propagate-values") & z3::tactic(*Z, "solve-eqs") & z3::tactic(*Z, "bit-blast") & z3::tactic(*Z, "sat")).mk_solver();
        for (auto* c : pc) f.add(boolOf(c));
        f.add(boolOf(extra));
        t = std::chrono::steady_clock::now();
        r = f.check();
        S->queries++; S->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t).count();
        if (r == z3::unsat) { S->q_unsat++; return 0; }
        if (r == z3::sat && out) {
            z3::model m = f.get_model();
            for (size_t i = 0; i < B.vars.size(); i++) {
                auto& v = B.vars[i];
                if (v.real) continue;
                if (v.w == 1) { z3::expr x = m.eval(Z->bool_const(("b" + std::to_string(i)).c_str()), false); if (x.is_true()) out->push_back({i, 1}); else if (x.is_false()) out->push_back({i, 0}); }
                else { z3::expr x = m.eval(Z->bv_const(("v" + std::to_string(i)).c_str(), v.w), false); if (x.is_numeral()) out->push_back({i, x.get_numeral_uint64()}); }
            }
            S->q_sat++;
            return 1;
        }
        S->q_unknown++;
        return 2;
    }
    // real-valued conditions: is (pcReal and not c) satisfiable?  equality of rational functions is cross-multiplied
    int checkReal(Expr* c, bool negate, std::vector<std::pair<size_t, mpq_class>>* out) {
        auto t = std::chrono::steady_clock::now();
        z3::solver f(*Z, "QF_NRA");
        z3::params p(*Z); p.set("rlimit", (unsigned)400000000u); f.set(p);
        auto tr = [&](Expr* x) -> z3::expr { return boolReal(x); };
        for (auto* x : pcReal) f.add(tr(x));
        z3::expr q = tr(c);
        f.add(negate ? !q : q);
        for (auto& e : rside) f.add(e);
        if (g_opts.count("dump")) std::cerr << f << "\n";
        z3::check_result r = f.check();
        u64 us = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t).count();
        S->queries++; S->rq++; S->solver_us += us;
        u64 mx = S->maxq_us; while (us > mx && !S->maxq_us.compare_exchange_weak(mx, us)) {}
        if (r == z3::unsat) { S->q_unsat++; return 0; }
        if (r == z3::sat) {
            S->q_sat++;
            if (out) {
                z3::model m = f.get_model();
                for (size_t i = 0; i < B.vars.size(); i++) if (B.vars[i].real) {
                    z3::expr x = m.eval(Z->real_const(("r" + std::to_string(i)).c_str()), true);
                    if (x.is_algebraic() && !x.is_numeral()) x = x.algebraic_lower(20);
                    std::string sv;
                    if (x.is_numeral()) sv = x.get_decimal_string(60);
                    z3::expr nn = x.is_numeral() ? x.numerator() : x;
                    if (x.is_numeral()) { mpq_class qv(x.numerator().get_decimal_string(0) + "/" + x.denominator().get_decimal_string(0)); qv.canonicalize(); out->push_back({i, qv}); }
                }
            }
            return 1;
        }
        S->q_unknown++;
        return 2;
    }
    z3::expr boolReal(Expr* e) {
        switch (e->k) {
        case R_EQ: {
            auto a = rat(e->ops[0]), b = rat(e->ops[1]);
            z3::expr d = a.first * b.second - b.first * a.second;
            z3::params p(*Z); p.set("som", true); p.set("som_blowup", 1000000u); 
            d = d.simplify(p);
            return d == Z->real_val(0);
        }
        case R_LT: return real(e->ops[0]) < real(e->ops[1]);
        case K_AND: return boolReal(e->ops[0]) && boolReal(e->ops[1]);
        case K_XOR: if (Builder::isC(e->ops[0], 1)) return !boolReal(e->ops[1]); return boolReal(e->ops[0]) != boolReal(e->ops[1]);
        default: return boolOf(e);
        }
    }
};
static Solver* SOL;

// ---------------------------------------------------------------------------------------------
// decoded program
// ---------------------------------------------------------------------------------------------
enum Op : uint8_t {
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG,
    O_ICMP, O_FCMP, O_TRUNC, O_ZEXT, O_SEXT, O_UITOFP, O_SITOFP, O_FPTOUI, O_FPTOSI, O_FPEXT, O_FPTRUNC, O_COPY,
    O_SELECT, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_EXTRACTV, O_INSERTV,
    O_LANDING, O_RESUME, O_ATOMICRMW, O_CMPXCHG, O_FENCE
};
struct DFn;
struct TyInfo { uint8_t kind; uint16_t w; uint32_t size; Type* ty; }; // kind 0 int/ptr, 1 double, 2 float, 3 aggregate, 4 void
struct GepStep { int ref; i64 scale; unsigned w; };
struct CallInfo {
    int calleeRef = 0; DFn* fn = nullptr; std::vector<int> args; std::vector<TyInfo> argTy; int normal = -1, unwind = -1; std::string name; const CallBase* cb = nullptr;
    int builtin = -1; int intrinsic = 0; bool resolved = false;
};
struct DInst {
    Op op; uint8_t pred = 0; uint16_t w = 0; int dst = -1; int a = 0, b = 0, c = 0; uint32_t aux = 0; uint32_t line = 0; TyInfo ty{}; const Instruction* I = nullptr;
};
struct DBlock { std::vector<DInst> insts; std::vector<std::pair<int, std::vector<std::pair<int, int>>>> phis; /* dst, (pred, ref) */ std::vector<unsigned> phiW; /* 0: not an integer */ };
struct SwitchInfo { std::vector<std::pair<u64, int>> cases; int def; };
struct LandInfo { bool cleanup; std::vector<std::pair<bool, Val>> clauses; };
struct DFn {
    Function* F = nullptr; std::string name; int idx = 0; bool decoded = false; int nslots = 0;
    std::vector<DBlock> blocks; std::vector<Val> consts; std::vector<CallInfo> calls; std::vector<std::vector<GepStep>> geps; std::vector<SwitchInfo> switches; std::vector<LandInfo> lands;
    std::vector<std::vector<unsigned>> idxs; std::vector<u64> gepConst;
    DFn* model = nullptr;
};

static Module* M;
static const DataLayout* DL;
static std::vector<Object> objs;
static std::map<const GlobalValue*, u64> gaddr;
static std::map<std::string, u64> extAddr;
static std::vector<DFn*> fns;
static std::map<const Function*, DFn*> fnOf;
static std::map<std::string, u64> typeInfoAddr;
static std::map<u64, std::string> tiName;
static std::map<std::string, std::vector<std::string>> tiBases;
static std::map<std::pair<std::string, unsigned>, uint32_t> lineIdx;
static std::vector<std::pair<std::string, unsigned>> lineTab{{"", 0}};

static u64 newObject(u64 size, uint8_t kind, const char* name, int fill = 0xCD) {
    Object o; o.size = size; o.kind = kind; o.name = name;
    o.data = (uint8_t*)malloc(size ? size : 1);
    if (!o.data) engineError("out of memory");
    memset(o.data, fill, size ? size : 1);
    objs.push_back(o);
    return ((u64)(objs.size() - 1) << 32) + OBJ_OFF;
}
static TyInfo tyOf(Type* t) {
    TyInfo r{}; r.ty = t;
    if (t->isVoidTy()) { r.kind = 4; return r; }
    if (t->isIntegerTy()) { r.kind = 0; r.w = t->getIntegerBitWidth(); r.size = (r.w + 7) / 8; if (r.w > 64) r.kind = 9; return r; }
    if (t->isPointerTy()) { r.kind = 0; r.w = 64; r.size = 8; return r; }
    if (t->isDoubleTy()) { r.kind = 1; r.w = 64; r.size = 8; return r; }
    if (t->isFloatTy()) { r.kind = 2; r.w = 32; r.size = 4; return r; }
    if (t->isStructTy() || t->isArrayTy()) { r.kind = 3; r.size = DL->getTypeAllocSize(t); return r; }
    if (t->isVectorTy()) { r.kind = 9; return r; }
    if (t->isX86_FP80Ty()) { r.kind = 9; return r; }
    r.kind = 9;
    return r;
}

static u64 fnAddr(const Function* F);
static Val constVal(Constant* c);
static void storeConst(uint8_t* p, Constant* c);

static DFn* getFn(Function* F) {
    auto it = fnOf.find(F);
    if (it != fnOf.end()) return it->second;
    DFn* d = new DFn; d->F = F; d->name = F->getName().str(); d->idx = fns.size(); fns.push_back(d); fnOf[F] = d;
    return d;
}
static u64 fnAddr(const Function* F) { return FN_BASE + 16ull * getFn(const_cast<Function*>(F))->idx; }

static u64 globalAddr(const GlobalValue* g) {
    if (auto* F = dyn_cast<Function>(g)) return fnAddr(F);
    if (auto* A = dyn_cast<GlobalAlias>(g)) { return globalAddr(cast<GlobalValue>(A->getAliasee()->stripPointerCasts())); }
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    auto* v = cast<GlobalVariable>(g);
    if (v->isDeclaration()) if (auto* m = g->getParent()->getNamedGlobal(("vp_model_" + v->getName()).str())) return gaddr[g] = globalAddr(m);
    u64 size = v->getValueType()->isSized() ? (u64)DL->getTypeAllocSize(v->getValueType()) : 8;
    if (v->isDeclaration() && size < 256) size = 256;
    u64 a = newObject(size, 0, strdup(v->getName().str().c_str()), 0);
    gaddr[g] = a;
    if (v->getName() == "__libc_single_threaded") objs.back().data[0] = 1;
    return a;
}

static Val constVal(Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { if (ci->getValue().getActiveBits() > 64) engineError("wide constant"); } return Val(ci->getValue().getLoBits(std::min(64u, ci->getBitWidth())).getRawData()[0]); }
    if (isa<ConstantPointerNull>(c)) return Val(0);
    if (auto* cf = dyn_cast<ConstantFP>(c)) return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue());
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val(globalAddr(g));
    if (isa<UndefValue>(c)) { // includes poison
        if (c->getType()->isAggregateType()) {
            Val v; v.agg = new Agg;
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) v.agg->v.push_back(constVal(cast<UndefValue>(c)->getElementValue(i)));
            return v;
        }
        return Val(0);
    }
    if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        if (c->getType()->isVectorTy()) { return Val(0); }
        Val v; v.agg = new Agg;
        unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.agg->v.push_back(constVal(c->getAggregateElement(i)));
        return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            auto* gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) engineError("constant gep");
            return Val(constVal(cast<Constant>(gep->getPointerOperand())).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: {
            Val v = constVal(ce->getOperand(0)); v.c &= maskw(DL->getTypeSizeInBits(ce->getType())); return v; }
        case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= maskw(ce->getType()->getIntegerBitWidth()); return v; }
        case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
        case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
        default: engineError(std::string("constant expression ") + ce->getOpcodeName());
        }
    }
    engineError("constant kind");
}
static void storeConst(uint8_t* p, Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { memset(p, 0, DL->getTypeAllocSize(t)); return; }
    if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); i++) storeConst(p + sl->getElementOffset(i), c->getAggregateElement(i)); return; }
    if (t->isArrayTy()) { u64 es = DL->getTypeAllocSize(t->getArrayElementType()); for (u64 i = 0; i < t->getArrayNumElements(); i++) storeConst(p + i * es, c->getAggregateElement(i)); return; }
    if (t->isVectorTy()) { auto* vt = cast<FixedVectorType>(t); u64 es = DL->getTypeAllocSize(vt->getElementType()); for (u64 i = 0; i < vt->getNumElements(); i++) storeConst(p + i * es, c->getAggregateElement(i)); return; }
    if (t->isIntegerTy() && t->getIntegerBitWidth() > 64) { auto* ci = cast<ConstantInt>(c); memcpy(p, ci->getValue().getRawData(), (t->getIntegerBitWidth() + 7) / 8); return; }
    Val v = constVal(c);
    memcpy(p, &v.c, DL->getTypeStoreSize(t));
}

// ---------------------------------------------------------------------------------------------
// decoding
// ---------------------------------------------------------------------------------------------
struct Decoder {
    DFn* d;
    std::map<const Value*, int> slot;
    std::map<const BasicBlock*, int> bbi;
    std::map<Constant*, int> cpool;
    int ref(Value* v) {
        if (auto* c = dyn_cast<Constant>(v)) {
            auto it = cpool.find(c);
            if (it != cpool.end()) return it->second;
            if (c->getType()->isVectorTy()) engineError("vector constant in " + d->name);
            d->consts.push_back(constVal(c));
            int r = ~(int)(d->consts.size() - 1);
            cpool[c] = r;
            return r;
        }
        auto it = slot.find(v);
        if (it == slot.end()) engineError("undefined operand");
        return it->second;
    }
    void run(DFn* fn) {
        d = fn;
        Function* F = fn->F;
        for (auto& a : F->args()) slot[&a] = d->nslots++;
        int nb = 0;
        for (auto& bb : *F) { bbi[&bb] = nb++; for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = d->nslots++; }
        d->blocks.resize(nb);
        nb = 0;
        for (auto& bb : *F) {
            DBlock& ob = d->blocks[nb++];
            for (auto& I : bb) {
                if (auto* p = dyn_cast<PHINode>(&I)) {
                    std::vector<std::pair<int, int>> in;
                    for (unsigned i = 0; i < p->getNumIncomingValues(); i++) in.push_back({bbi[p->getIncomingBlock(i)], ref(p->getIncomingValue(i))});
                    ob.phis.push_back({slot[p], in}); { TyInfo pt = tyOf(p->getType()); ob.phiW.push_back(pt.kind == 0 && p->getType()->isIntegerTy() ? pt.w : 0); }
                    continue;
                }
                decode(I, ob);
            }
        }
        d->decoded = true;
    }
    void decode(Instruction& I, DBlock& ob) {
        DInst x; x.I = &I;
        if (!I.getType()->isVoidTy()) x.dst = slot[&I];
        if (auto& dl = I.getDebugLoc()) {
            auto* sc = cast<DIScope>(dl.getScope());
            std::string fnm = sc->getFilename().str();
            size_t p = fnm.find("/src/");
            if (fnm.find("DRAMPower") != std::string::npos && p != std::string::npos && fnm.find("/verif/") == std::string::npos) {
                auto key = std::make_pair(fnm.substr(p + 1), dl.getLine());
                auto it = lineIdx.find(key);
                if (it == lineIdx.end()) { it = lineIdx.emplace(key, (uint32_t)lineTab.size()).first; lineTab.push_back(key); if (lineTab.size() >= (size_t)MAXLINE) engineError("too many lines"); }
                x.line = it->second;
            }
        }
        x.ty = tyOf(I.getType());
        x.w = x.ty.w;
        auto bad = [&](const std::string& why) { std::string s; raw_string_ostream os(s); I.print(os); engineError("unsupported (" + why + "): " + s + " in " + d->name); };
        for (auto& o : I.operands()) if (o->getType()->isVectorTy()) bad("vector");
        if (I.getType()->isVectorTy()) bad("vector");
        switch (I.getOpcode()) {
#define BIN(N, O) case Instruction::N: x.op = O; x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); break;
        BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM)
        BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR) BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR)
        BIN(FAdd, O_FADD) BIN(FSub, O_FSUB) BIN(FMul, O_FMUL) BIN(FDiv, O_FDIV)
        case Instruction::FNeg: x.op = O_FNEG; x.a = ref(I.getOperand(0)); break;
        case Instruction::ICmp: x.op = O_ICMP; x.pred = cast<CmpInst>(I).getPredicate(); x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); x.w = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::FCmp: x.op = O_FCMP; x.pred = cast<CmpInst>(I).getPredicate(); x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); x.aux = I.getOperand(0)->getType()->isFloatTy(); break;
        case Instruction::Trunc: x.op = O_TRUNC; x.a = ref(I.getOperand(0)); break;
        case Instruction::ZExt: x.op = O_ZEXT; x.a = ref(I.getOperand(0)); x.aux = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::SExt: x.op = O_SEXT; x.a = ref(I.getOperand(0)); x.aux = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::UIToFP: x.op = O_UITOFP; x.a = ref(I.getOperand(0)); x.aux = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::SIToFP: x.op = O_SITOFP; x.a = ref(I.getOperand(0)); x.aux = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::FPToUI: x.op = O_FPTOUI; x.a = ref(I.getOperand(0)); break;
        case Instruction::FPToSI: x.op = O_FPTOSI; x.a = ref(I.getOperand(0)); break;
        case Instruction::FPExt: x.op = O_FPEXT; x.a = ref(I.getOperand(0)); break;
        case Instruction::FPTrunc: x.op = O_FPTRUNC; x.a = ref(I.getOperand(0)); break;
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::Freeze: case Instruction::AddrSpaceCast:
            x.op = O_COPY; x.a = ref(I.getOperand(0)); x.aux = tyOf(I.getOperand(0)->getType()).w; break;
        case Instruction::Select: x.op = O_SELECT; x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); x.c = ref(I.getOperand(2)); break;
        case Instruction::Load: x.op = O_LOAD; x.a = ref(I.getOperand(0)); break;
        case Instruction::Store: x.op = O_STORE; x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); x.ty = tyOf(I.getOperand(0)->getType()); break;
        case Instruction::Alloca: {
            auto& A = cast<AllocaInst>(I); x.op = O_ALLOCA; x.a = ref(A.getArraySize()); x.aux = DL->getTypeAllocSize(A.getAllocatedType()); break; }
        case Instruction::GetElementPtr: {
            x.op = O_GEP; x.a = ref(I.getOperand(0)); x.aux = d->geps.size();
            std::vector<GepStep> st; i64 cst = 0;
            for (gep_type_iterator gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
                Value* op = gi.getOperand();
                if (StructType* stt = gi.getStructTypeOrNull()) cst += DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(op)->getZExtValue());
                else { i64 sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(op)) cst += sz * ci->getSExtValue(); else st.push_back({ref(op), sz, (unsigned)op->getType()->getIntegerBitWidth()}); }
            }
            d->geps.push_back(st); d->gepConst.push_back((u64)cst);
            break; }
        case Instruction::Br: {
            auto& br = cast<BranchInst>(I);
            if (br.isUnconditional()) { x.op = O_BR; x.a = bbi[br.getSuccessor(0)]; }
            else { x.op = O_CBR; x.a = ref(br.getCondition()); x.b = bbi[br.getSuccessor(0)]; x.c = bbi[br.getSuccessor(1)]; }
            break; }
        case Instruction::Switch: {
            auto& sw = cast<SwitchInst>(I); x.op = O_SWITCH; x.a = ref(sw.getCondition()); x.w = sw.getCondition()->getType()->getIntegerBitWidth();
            SwitchInfo si; si.def = bbi[sw.getDefaultDest()];
            for (auto& c : sw.cases()) si.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
            x.aux = d->switches.size(); d->switches.push_back(si); break; }
        case Instruction::Ret: x.op = O_RET; x.a = I.getNumOperands() ? ref(I.getOperand(0)) : 0; x.aux = I.getNumOperands(); break;
        case Instruction::Unreachable: x.op = O_UNREACH; break;
        case Instruction::ExtractValue: { x.op = O_EXTRACTV; x.a = ref(I.getOperand(0)); auto ii = cast<ExtractValueInst>(I).getIndices(); x.aux = d->idxs.size(); d->idxs.push_back({ii.begin(), ii.end()}); break; }
        case Instruction::InsertValue: { x.op = O_INSERTV; x.a = ref(I.getOperand(0)); x.b = ref(I.getOperand(1)); auto ii = cast<InsertValueInst>(I).getIndices(); x.aux = d->idxs.size(); d->idxs.push_back({ii.begin(), ii.end()}); break; }
        case Instruction::LandingPad: {
            auto& lp = cast<LandingPadInst>(I); x.op = O_LANDING; LandInfo li; li.cleanup = lp.isCleanup();
            for (unsigned i = 0; i < lp.getNumClauses(); i++) { if (lp.isCatch(i)) li.clauses.push_back({true, constVal(lp.getClause(i))}); else li.clauses.push_back({false, Val(0)}); }
            x.aux = d->lands.size(); d->lands.push_back(li); break; }
        case Instruction::Resume: x.op = O_RESUME; x.a = ref(I.getOperand(0)); break;
        case Instruction::AtomicRMW: { auto& r = cast<AtomicRMWInst>(I); x.op = O_ATOMICRMW; x.pred = r.getOperation(); x.a = ref(r.getPointerOperand()); x.b = ref(r.getValOperand()); break; }
        case Instruction::AtomicCmpXchg: { auto& r = cast<AtomicCmpXchgInst>(I); x.op = O_CMPXCHG; x.a = ref(r.getPointerOperand()); x.b = ref(r.getCompareOperand()); x.c = ref(r.getNewValOperand()); x.ty = tyOf(r.getCompareOperand()->getType()); break; }
        case Instruction::Fence: x.op = O_FENCE; break;
        case Instruction::Call: case Instruction::Invoke: {
            auto& cb = cast<CallBase>(I);
            x.op = O_CALL; x.aux = d->calls.size();
            CallInfo ci; ci.cb = &cb;
            if (cb.isInlineAsm()) { bad("inline asm"); }
            Value* cv = cb.getCalledOperand()->stripPointerCasts();
            if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
            if (auto* F = dyn_cast<Function>(cv)) {
                ci.name = F->getName().str(); ci.fn = getFn(F);
                if (F->isIntrinsic()) {
                    ci.intrinsic = F->getIntrinsicID();
                    switch (F->getIntrinsicID()) {
                    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
                    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::donothing:
                        return;
                    default: break;
                    }
                }
            } else ci.calleeRef = ref(cb.getCalledOperand());
            for (auto& a : cb.args()) {
                if (a->getType()->isMetadataTy()) { ci.args.push_back(0); ci.argTy.push_back({}); continue; }
                ci.args.push_back(ref(a)); ci.argTy.push_back(tyOf(a->getType()));
            }
            if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci.normal = bbi[inv->getNormalDest()]; ci.unwind = bbi[inv->getUnwindDest()]; }
            d->calls.push_back(ci);
            break; }
        default: bad("opcode");
        }
        ob.insts.push_back(x);
    }
};

// ---------------------------------------------------------------------------------------------
// execution
// ---------------------------------------------------------------------------------------------
struct Frame {
    DFn* f; std::vector<Val> regs; int bb = 0, ip = 0; std::vector<u64> allocas; int retDst = -1; int normal = -1, unwind = -1; // how to return into the caller
    TyInfo retTy{};
};
static std::vector<Frame> stack;
struct InRec { std::string name; char kind; Expr* e; u64 cv; };
static std::vector<InRec> inputs;
static std::vector<std::pair<std::string, std::string>> concInputs; static size_t concPos = 0;
static u64 pendingExc = 0; static u64 pendingTi = 0;
struct ExcHdr { u64 ti; };
static std::map<u64, u64> excTi;            // object address -> typeinfo
static std::vector<u64> caught;
static std::unordered_map<uint32_t, bool> known; // conditions on the path
static u64 nundef = 0;
static u64 localInsts = 0;
static u64 depthForks = 0;
static std::vector<std::string> notes;

static void finishProcess(int code) {
    if (g_logging && !g_logfile.empty()) { std::ofstream lf(g_logfile); lf << g_log << "END\n"; lf.close(); g_logging = false; }
    if (S) S->insts += localInsts;
    localInsts = 0;
    if (g_parent) { if (S) { /* root handled in main */ } }
    if (g_ownToken && S) sem_post(&S->tokens);
    fflush(stdout); fflush(stderr);
    _exit(code);
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static std::string inputsText() {
    std::string o;
    for (auto& r : inputs) {
        if (r.kind == 'r') { mpq_class q = r.e ? B.evalq(r.e) : mpq_class(0); o += r.name + " r " + q.get_str() + "\n"; }
        else { u64 v = r.e ? B.eval(r.e) : r.cv; o += r.name + " u " + std::to_string(v) + "\n"; }
        if (o.size() > VIOLSZ - 4096) { o += "...\n"; break; }
    }
    return o;
}
static std::string where() {
    std::string o;
    int n = 0;
    for (auto it = stack.rbegin(); it != stack.rend() && n < 12; ++it, ++n) {
        auto& fr = *it;
        std::string ln;
        if (fr.bb < (int)fr.f->blocks.size() && fr.ip > 0 && fr.ip <= (int)fr.f->blocks[fr.bb].insts.size()) {
            auto* I = fr.f->blocks[fr.bb].insts[fr.ip - 1].I;
            if (I) if (auto& dl = I->getDebugLoc()) ln = ":" + std::to_string(dl.getLine());
        }
        std::string nm = llvm::demangle(fr.f->name); if (nm.size() > 120) nm = nm.substr(0, 120);
        o += (n ? " <- " : "") + nm + ln;
    }
    return o;
}
static void endPath(bool assumedOut) {
    if (assumedOut) S->assumed_out++;
    else {
        u64 p = ++S->paths;
        if (p > g_pathLimit) engineError("path budget exceeded");
        // keep a few samples of complete inputs
        if (!g_concrete) {
            int want = S->nsample;
            if (want < MAXSAMPLE && (p & (p - 1)) == 0) {
                int i = S->nsample++;
                if (i < MAXSAMPLE) { B.newEpoch(); std::string t = inputsText(); strncpy(S->sample[i], t.c_str(), VIOLSZ - 1); }
            }
        }
    }
    finishProcess(0);
}
static void violation(const std::string& msg) {
    if (g_logging) g_log += "VIOLATION " + msg + "\n";
    B.newEpoch();
    std::string t = "MSG " + msg + "\nAT " + where() + "\n" + inputsText();
    sem_wait(&S->lock);
    // one record per message
    bool dup = false;
    for (int i = 0; i < S->nviol && i < MAXVIOL; i++) { const char* p = S->viol[i] + 4; const char* e = strchr(p, '\n'); if (e && std::string(p, e) == msg) dup = true; }
    if (!dup && S->nviol < MAXVIOL) { strncpy(S->viol[S->nviol], t.c_str(), VIOLSZ - 1); S->nviol++; }
    bool full = S->nviol >= atoi(g_opts.count("max-viol") ? g_opts["max-viol"].c_str() : "4");
    sem_post(&S->lock);
    if (full) S->stop = 1;
    finishProcess(0);
}

static void applyModel(const std::vector<std::pair<size_t, u64>>& m) { for (auto& p : m) B.vars[p.first].val = p.second; B.newEpoch(); }

static void checkStop() {
    if (S->stop) finishProcess(0);
    if (elapsed() > g_deadline) engineError("deadline exceeded");
}

// split: returns true in the process that continues with `first`
static bool forkProcess() { // returns true in the child
    S->forks++;
    if (g_opts.count("slow")) std::cerr << "FORK " + where() + "\n";
    depthForks++;
    u64 md = S->maxdepth; while (depthForks > md && !S->maxdepth.compare_exchange_weak(md, depthForks)) {}
    fflush(stdout); fflush(stderr);
    bool async = sem_trywait(&S->tokens) == 0;
    pid_t p = fork();
    if (p < 0) engineError("fork failed");
    if (p == 0) {
        g_parent = false; g_ownToken = async;
        S->insts += 0; localInsts = 0;
        prctl(PR_SET_PDEATHSIG, 0);
        return true;
    }
    if (!async) {
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (!(WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 2))) { if (WIFSIGNALED(st)) engineError("worker died with signal " + std::to_string(WTERMSIG(st))); engineError("worker failed"); }
    }
    checkStop();
    return false;
}
static std::vector<std::pair<size_t, mpq_class>> realModel;
// is cond (width 1) satisfiable on this path in the polarity `val`? returns 0/1/2 and a model
static bool branchOn(Expr* c) {
    if (c->k == K_CONST) return c->c;
    checkStop();
    Expr* base = c; bool neg = false;
    if (Builder::isNot(c)) { base = c->ops[1]; neg = true; }
    auto it = known.find(base->id);
    if (it != known.end()) return it->second != neg;
    S->symbranches++;
    if (g_concolic) { bool v = B.eval(c); known[base->id] = v != neg; SOL->assume(v ? c : B.bnot(c)); return v; }
    if (Solver::hasReal(c)) {
        // real-valued branch: decide by the solver over the real conditions
        std::vector<std::pair<size_t, mpq_class>> m1;
        int rt = SOL->checkReal(c, false, nullptr), rf = SOL->checkReal(c, true, &m1);
        if (rt == 2 || rf == 2) engineError("unknown from solver on a real-valued branch at " + where());
        if (!rf) { known[base->id] = !neg; return true; }
        if (!rt) { known[base->id] = neg; return false; }
        bool v = B.eval(c);
        std::vector<std::pair<size_t, mpq_class>> m2;
        SOL->checkReal(c, v, &m2);
        bool child = forkProcess();
        bool res = child ? !v : v;
        if (child) { for (auto& p : m2) B.vars[p.first].qval = p.second; B.newEpoch(); }
        known[base->id] = res != neg;
        SOL->assume(res ? c : B.bnot(c));
        return res;
    }
    bool v = B.eval(c);
    std::vector<std::pair<size_t, u64>> m;
    int r = SOL->check(v ? B.bnot(c) : c, &m);
    if (r == 2) engineError("unknown from solver on a branch at " + where());
    if (r == 0) { known[base->id] = v != neg; return v; }
    bool child = forkProcess();
    bool res = child ? !v : v;
    if (child) applyModel(m);
    known[base->id] = res != neg;
    SOL->assume(res ? c : B.bnot(c));
    return res;
}
// must cond hold? 1 yes, 0 no (model in m), 2 unknown
// select between two integer values: one expression, or (--split) one path per polarity, which keeps every value linear
static bool g_split = false;
static Expr* sel(Expr* c, Expr* p, Expr* q) {
    if (p == q) return p;
    if (c->k == K_CONST) return c->c ? p : q;
    if (g_split && p->w > 8) {
        if (Expr* r = B.iteLin(c, p, q)) return r;
        if (g_opts.count("slow")) { std::function<void(Expr*, int)> dump = [&](Expr* e, int d) { std::cerr << std::string(d, ' ') << "k" << (int)e->k << " w" << e->w << " c" << e->c << " umax " << e->umax; for (auto x : e->coef) std::cerr << " " << x; std::cerr << "\n"; if (d < 4) for (auto* o : e->ops) dump(o, d + 1); }; std::cerr << "SEL\n"; dump(c, 0); dump(p, 0); dump(q, 0); }
        return branchOn(c) ? p : q; }
    return B.ite(c, p, q);
}
static int mustHold(Expr* c, std::vector<std::pair<size_t, u64>>* m) {
    if (c->k == K_CONST) return c->c;
    if (!B.eval(c)) return 0;
    if (g_concolic) return 1;
    auto it = known.find(c->id);
    if (it != known.end() && it->second) return 1;
    int r = SOL->check(B.bnot(c), m);
    return r == 0 ? 1 : r == 1 ? 0 : 2;
}

static Expr* ex(const Val& v, unsigned w) {
    if (v.e) {
        if (v.e->isReal() && w != 0) engineError("integer use of a symbolic real at " + where());
        return v.e;
    }
    return B.constant(w, v.c);
}
static Expr* realOf(const Val& v) {
    if (v.e) { if (!v.e->isReal()) engineError("symbolic integer bits used as a double at " + where()); return v.e; }
    double d; memcpy(&d, &v.c, 8);
    if (!std::isfinite(d)) engineError("non-finite double at " + where());
    return B.rconst(mpq_class(d));
}
static Val ofReal(Expr* e) {
    if (e->k == R_CONST) {
        double d = e->q->get_d();
        if (std::isfinite(d) && mpq_class(d) == *e->q) { Val v; memcpy(&v.c, &d, 8); return v; }
    }
    Val v; v.e = e; return v;
}
static u64 concretize(const Val& v, unsigned w, const char* why) {
    if (v.conc()) return v.c;
    Expr* e = v.e;
    if (e->isReal()) engineError(std::string("concretize real: ") + why);
    for (int n = 0; n < 4096; n++) {
        u64 x = B.eval(e);
        if (branchOn(B.eq(e, B.constant(w, x)))) return x;
    }
    engineError(std::string("too many values for ") + why);
}

static Object& objAt(u64 a, u64 size, const char* what, bool write) {
    u64 id = a >> 32; u64 off = (a & 0xffffffffull) - OBJ_OFF;
    if (a >= FN_BASE || id == 0 || id >= objs.size()) violation(std::string("invalid memory access (") + what + "): wild or null pointer");
    Object& o = objs[id];
    if (!o.alive) violation(std::string("invalid memory access (") + what + "): use after free/scope");
    if ((a & 0xffffffffull) < OBJ_OFF || off > o.size || size > o.size - off) violation(std::string("invalid memory access (") + what + "): out of bounds");
    if (write && o.ro) violation("write to constant memory");
    return o;
}
static bool accessible(u64 a, u64 size, bool write) {
    u64 id = a >> 32, off = (a & 0xffffffffull) - OBJ_OFF; if (a >= FN_BASE || id == 0 || id >= objs.size()) return false;
    Object& o = objs[id]; return o.alive && (a & 0xffffffffull) >= OBJ_OFF && off <= o.size && size <= o.size - off && !(write && o.ro);
}
static Val loadAt(u64 a, unsigned w, unsigned size, bool isDouble) {
    Object& o = objAt(a, size, "read", false);
    u64 off = (a & 0xffffffffull) - OBJ_OFF;
    if (o.sym) {
        bool any = false;
        for (unsigned i = 0; i < size; i++) if (o.sym[off + i].e) { any = true; break; }
        if (any) {
            Cell c0 = o.sym[off];
            // whole expression
            if (c0.e && c0.off == 0) {
                unsigned es = c0.e->isReal() ? 8 : (c0.e->w + 7) / 8;
                if (es == size) {
                    bool same = true;
                    for (unsigned i = 0; i < size; i++) if (o.sym[off + i].e != c0.e || o.sym[off + i].off != i) { same = false; break; }
                    if (same) {
                        if (c0.e->isReal()) { Val v; v.e = c0.e; return v; }
                        Expr* e = c0.e;
                        if (e->w > w) e = B.extract(e, 0, w);
                        else if (e->w < w) e = B.zext(e, w);
                        return Val::of(e);
                    }
                }
            }
            Expr* r = nullptr;
            for (unsigned i = 0; i < size; i++) {
                Cell c = o.sym[off + i];
                Expr* byte;
                if (!c.e) byte = B.constant(8, o.data[off + i]);
                else {
                    if (c.e->isReal()) engineError("partial read of a symbolic real at " + where());
                    unsigned lo = c.off * 8;
                    unsigned n = std::min(8u, c.e->w - lo);
                    byte = B.zextOr(B.extract(c.e, lo, n), 8);
                }
                r = r ? B.concat(byte, r) : byte;
            }
            if (r->w > w) r = B.extract(r, 0, w);
            return Val::of(r);
        }
    }
    u64 v = 0; memcpy(&v, o.data + off, size);
    return Val(v & maskw(w));
}
static void storeAt(u64 a, const Val& v, unsigned w, unsigned size) {
    Object& o = objAt(a, size, "write", true);
    u64 off = (a & 0xffffffffull) - OBJ_OFF;
    if (v.e) {
        if (!o.sym) { o.sym = (Cell*)calloc(o.size, sizeof(Cell)); }
        for (unsigned i = 0; i < size; i++) o.sym[off + i] = {v.e, (uint8_t)i};
        if (!v.e->isReal() && v.e->w < size * 8 && (v.e->w + 7) / 8 < size) {
            unsigned n = (v.e->w + 7) / 8;
            for (unsigned i = n; i < size; i++) { o.sym[off + i] = {nullptr, 0}; o.data[off + i] = 0; }
        }
    } else {
        if (o.sym) for (unsigned i = 0; i < size; i++) o.sym[off + i].e = nullptr;
        u64 x = v.c & maskw(w); memcpy(o.data + off, &x, size);
    }
}
// feasible addresses of a symbolic pointer
static std::vector<u64> addresses(Expr* a, unsigned size, const char* what) {
    std::vector<u64> out;
    u64 first = B.eval(a);
    // out of bounds possible?
    u64 id = first >> 32;
    if (first >= FN_BASE || id == 0 || id >= objs.size() || !objs[id].alive) violation(std::string("invalid memory access (") + what + "): wild symbolic pointer");
    Object& o = objs[id];
    u64 base = (id << 32) + OBJ_OFF;
    if (size > o.size) violation("invalid memory access: out of bounds");
    Expr* rel = B.sub(a, B.constant(64, base));
    Expr* inb = B.bnot(B.ult(B.constant(64, o.size - size), rel));
    std::vector<std::pair<size_t, u64>> m;
    int r = mustHold(inb, &m);
    if (r == 2) engineError("unknown from solver on a pointer");
    if (r == 0) {
        if (!m.empty()) applyModel(m);
        violation(std::string("invalid memory access (") + what + "): out of bounds (symbolic index)");
    }
    Expr* excl = B.constant(1, 1);
    std::vector<std::pair<size_t, u64>> save;
    for (size_t i = 0; i < B.vars.size(); i++) if (!B.vars[i].real) save.push_back({i, B.vars[i].val});
    u64 x = first;
    for (;;) {
        out.push_back(x);
        if (out.size() > 300) engineError("too many addresses for a symbolic pointer at " + where());
        excl = B.band(excl, B.bnot(B.eq(a, B.constant(64, x))));
        if (excl->k == K_CONST && !excl->c) break;
        m.clear();
        r = SOL->check(excl, &m);
        if (r == 0) break;
        if (r == 2) engineError("unknown from solver on a pointer");
        applyModel(m);
        x = B.eval(a);
    }
    applyModel(save);
    std::sort(out.begin(), out.end());
    return out;
}
static Val loadVal(const Val& p, const TyInfo& t);
static void storeVal(const Val& p, const Val& v, const TyInfo& t);
static Val loadVal(const Val& p, const TyInfo& t) {
    if (t.kind == 9) engineError("load of unsupported type at " + where());
    if (t.kind == 3) {
        u64 base = concretize(p, 64, "aggregate load");
        Val r; r.agg = new Agg;
        if (auto* st = dyn_cast<StructType>(t.ty)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->v.push_back(loadVal(Val(base + sl->getElementOffset(i)), tyOf(st->getElementType(i)))); }
        else { auto* at = cast<ArrayType>(t.ty); u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) r.agg->v.push_back(loadVal(Val(base + i * es), tyOf(at->getElementType()))); }
        return r;
    }
    if (p.conc()) return loadAt(p.c, t.w, t.size, t.kind == 1);
    auto as = addresses(p.e, t.size, "read");
    if (t.kind == 1 || as.size() == 1) { u64 a = as.size() == 1 ? as[0] : concretize(p, 64, "double read"); return loadAt(a, t.w, t.size, t.kind == 1); }
    Expr* r = nullptr;
    for (size_t i = 0; i < as.size(); i++) {
        Val v = loadAt(as[i], t.w, t.size, false);
        if (v.e && v.e->isReal()) { u64 a = concretize(p, 64, "real read"); return loadAt(a, t.w, t.size, true); }
        Expr* e = ex(v, t.w);
        r = r ? B.ite(B.eq(p.e, B.constant(64, as[i])), e, r) : e;
    }
    return Val::of(r);
}
static void storeVal(const Val& p, const Val& v, const TyInfo& t) {
    if (t.kind == 9) engineError("store of unsupported type at " + where());
    if (t.kind == 3) {
        u64 base = concretize(p, 64, "aggregate store");
        if (auto* st = dyn_cast<StructType>(t.ty)) { auto* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(Val(base + sl->getElementOffset(i)), v.agg->v[i], tyOf(st->getElementType(i))); }
        else { auto* at = cast<ArrayType>(t.ty); u64 es = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storeVal(Val(base + i * es), v.agg->v[i], tyOf(at->getElementType())); }
        return;
    }
    if (p.conc()) { storeAt(p.c, v, t.w, t.size); return; }
    auto as = addresses(p.e, t.size, "write");
    if (as.size() == 1 || (v.e && v.e->isReal())) { u64 a = as.size() == 1 ? as[0] : concretize(p, 64, "real write"); storeAt(a, v, t.w, t.size); return; }
    for (u64 a : as) {
        Val old = loadAt(a, t.w, t.size, false);
        if (old.e && old.e->isReal()) engineError("symbolic store over reals");
        storeAt(a, Val::of(B.ite(B.eq(p.e, B.constant(64, a)), ex(v, t.w), ex(old, t.w))), t.w, t.size);
    }
}
static void copyMem(u64 d, u64 s, u64 n, const char* what) {
    if (!n) return;
    Object& so = objAt(s, n, what, false);
    Object& dobj = objAt(d, n, what, true);
    u64 sof = (s & 0xffffffffull) - OBJ_OFF, dof = (d & 0xffffffffull) - OBJ_OFF;
    memmove(dobj.data + dof, so.data + sof, n);
    if (so.sym) { if (!dobj.sym) dobj.sym = (Cell*)calloc(dobj.size, sizeof(Cell)); memmove(dobj.sym + dof, so.sym + sof, n * sizeof(Cell)); }
    else if (dobj.sym) memset((void*)(dobj.sym + dof), 0, n * sizeof(Cell));
}
static Expr* byteAt(u64 a) { Val v = loadAt(a, 8, 1, false); return ex(v, 8); }
static std::string cstr(u64 a) {
    std::string s;
    for (;; a++) { Val v = loadAt(a, 8, 1, false); if (!v.conc()) engineError("symbolic string constant"); if (!(v.c & 255)) return s; s += (char)v.c; }
}

// RTTI -----------------------------------------------------------------------------------------
static std::string typeName(u64 ti) {
    auto it = tiName.find(ti);
    return it == tiName.end() ? "?" : it->second;
}
static bool derives(const std::string& a, const std::string& b) {
    if (a == b) return true;
    static const std::map<std::string, std::string> ext = {
        {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
        {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
        {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
        {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
        {"_ZTISt18bad_variant_access", "_ZTISt9exception"}, {"_ZTISt19bad_optional_access", "_ZTISt9exception"}};
    auto b1 = tiBases.find(a);
    if (b1 != tiBases.end()) { for (auto& x : b1->second) if (derives(x, b)) return true; }
    auto e = ext.find(a);
    return e != ext.end() && derives(e->second, b);
}
static u64 tiAddr(const std::string& sym) {
    if (auto* g = M->getNamedValue(sym)) { u64 a = globalAddr(g); tiName[a] = sym; return a; }
    auto it = typeInfoAddr.find(sym);
    if (it != typeInfoAddr.end()) return it->second;
    u64 a = newObject(64, 0, strdup(sym.c_str()), 0);
    typeInfoAddr[sym] = a; tiName[a] = sym;
    return a;
}

static void enterBlock(Frame& fr, int target) {
    DBlock& b = fr.f->blocks[target];
    if (!b.phis.empty()) {
        Val tmp[64]; size_t n = b.phis.size();
        std::vector<Val> big; Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) {
            bool ok = false;
            for (auto& p : b.phis[i].second) if (p.first == fr.bb) { t[i] = p.second >= 0 ? fr.regs[p.second] : fr.f->consts[~p.second]; ok = true; break; }
            if (!ok) engineError("phi without predecessor");
        }
        for (size_t i = 0; i < n; i++) fr.regs[b.phis[i].first] = t[i];
    }
    fr.bb = target; fr.ip = 0;
}
static void popFrame() {
    for (u64 a : stack.back().allocas) { Object& o = objs[a >> 32]; o.alive = false; free(o.data); o.data = nullptr; free(o.sym); o.sym = nullptr; }
    stack.pop_back();
}
// unwinding: returns when a landing pad has been entered
static int selectorFor(const LandInfo& li, u64 ti) {
    for (auto& c : li.clauses) {
        if (!c.first) engineError("filter clause");
        u64 t = c.second.c;
        if (t == 0) return 0x7fffffff;
        if (tiName.find(t) == tiName.end()) engineError("unknown catch type");
        if (derives(typeName(ti), typeName(t))) return (int)(t >> 32);
    }
    return 0;
}
static int pendingSel = 0;
static void unwind(u64 exc, u64 ti) {
    // the current top frame is executing a call with unwind target (or not)
    for (;;) {
        if (stack.empty()) violation("uncaught exception of type " + llvm::demangle(typeName(ti).substr(0, 4) == "_ZTI" ? "_Z" + typeName(ti).substr(4) : typeName(ti)) + " " + typeName(ti));
        Frame& fr = stack.back();
        int uw = fr.unwind; fr.unwind = -1;
        if (uw >= 0) {
            DBlock& b = fr.f->blocks[uw];
            const DInst* lp = nullptr;
            for (auto& x : b.insts) if (x.op == O_LANDING) { lp = &x; break; }
            const LandInfo& li = fr.f->lands[lp->aux];
            int sel = selectorFor(li, ti);
            if (sel || li.cleanup) {
                pendingExc = exc; pendingTi = ti; pendingSel = sel;
                enterBlock(fr, uw);
                return;
            }
        }
        if (stack.size() == 1) { violation("uncaught exception of type " + typeName(ti)); }
        popFrame();
    }
}
static void throwStd(const char* sym) {
    u64 ti = tiAddr(sym);
    u64 o = newObject(64, 2, "exception", 0);
    excTi[o] = ti;
    unwind(o, ti);
}

// ---------------------------------------------------------------------------------------------
// built-ins
// ---------------------------------------------------------------------------------------------
struct Ctx { CallInfo& ci; std::vector<Val>& a; Val ret; bool jumped = false; };
using BFn = std::function<void(Ctx&)>;
static std::vector<std::pair<std::string, BFn>> builtins;
static std::map<std::string, int> builtinIdx;
static void def(const std::string& n, BFn f) { builtinIdx[n] = builtins.size(); builtins.push_back({n, f}); }

static Val symInput(const std::string& name, char kind, unsigned bits) {
    if (g_concrete) {
        if (concPos >= concInputs.size()) { fprintf(stderr, "ran out of inputs at %s\n", name.c_str()); g_log += "OUT-OF-INPUTS\n"; S->stop = 1; finishProcess(0); }
        auto& p = concInputs[concPos++];
        if (kind == 'r') { mpq_class q(p.second); q.canonicalize(); return ofReal(B.rconst(q)); }
        return Val(strtoull(p.second.c_str(), nullptr, 10) & maskw(bits));
    }
    // deterministic pseudo-random initial value
    u64 h = 1469598103934665603ull; for (char c : name) h = (h ^ (unsigned char)c) * 1099511628211ull; h ^= inputs.size() * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
    Expr* e;
    if (kind == 'r') { e = B.rvar(name, mpq_class((long)(h % 97 + 3), (long)(h / 97 % 13 + 2))); B.vars.back().qval.canonicalize(); }
    else e = B.var(name, bits, h >> 7);
    if (g_concolic) {
        if (concPos >= concInputs.size()) { g_log += "OUT-OF-INPUTS\n"; S->stop = 1; finishProcess(0); }
        auto& p = concInputs[concPos++]; auto& bv = B.vars.back();
        if (kind == 'r') { mpq_class q(p.second); q.canonicalize(); bv.qval = q; } else bv.val = strtoull(p.second.c_str(), nullptr, 10) & maskw(bits);
    }
    B.newEpoch();
    Val v; v.e = e;
    return v;
}

static void doAssert(Ctx& c, Expr* cond, const std::string& msg) {
    if (cond->k == K_CONST) { if (cond->c) S->a_simplified++; else { g_log += "ASSERT-FAILED " + msg + "\n"; violation(msg); } return; }
    if (g_concolic) { if (!B.eval(cond)) { g_log += "ASSERT-FAILED " + msg + "\n"; violation(msg); } S->a_solver++; return; }
    if (Solver::hasReal(cond)) {
        B.divByZero = false;
        bool v = B.eval(cond);
        if (!v && !B.divByZero) violation(msg);
        std::vector<std::pair<size_t, mpq_class>> m;
        int r = SOL->checkReal(cond, true, &m);
        if (r == 0) { S->a_solver++; return; }
        if (r == 1) {
            auto save = B.vars;
            for (auto& p : m) B.vars[p.first].qval = p.second;
            B.newEpoch();
            bool ok = true; for (auto* x : SOL->pcReal) if (!B.eval(x)) ok = false;
            if (ok && !B.eval(cond)) violation(msg);
            B.vars = save; B.newEpoch();
            // try small perturbations of the path's own model
            for (int t = 1; t <= 64; t++) {
                size_t k = 0;
                for (auto& x : B.vars) if (x.real) { x.qval = save[&x - &B.vars[0]].qval + mpq_class((long)((t * 7 + k * 13) % 31), 8); k++; }
                B.newEpoch();
                bool ok2 = true; for (auto* x : SOL->pcReal) if (!B.eval(x)) ok2 = false;
                B.divByZero = false;
                if (ok2 && !B.eval(cond) && !B.divByZero) violation(msg);
            }
            B.vars = save; B.newEpoch();
        }
        engineError("real-valued assertion undecided: " + msg);
    }
    if (!B.eval(cond)) violation(msg);
    auto it = known.find(cond->id);
    if (it != known.end() && it->second) { S->a_simplified++; return; }
    std::vector<std::pair<size_t, u64>> m;
    int r = SOL->check(B.bnot(cond), &m);
    if (r == 2) engineError("unknown from solver on assertion: " + msg);
    if (r == 1) { applyModel(m); violation(msg); }
    S->a_solver++;
    known[cond->id] = true;
}

static Val fpToInt(const Val& v, unsigned w, bool sgn) {
    Expr* e = realOf(v);
    if (e->k == R_CONST) {
        mpz_class z; mpz_tdiv_q(z.get_mpz_t(), e->q->get_num_mpz_t(), e->q->get_den_mpz_t());
        if (!sgn && z < 0) { violation("conversion of a negative value to unsigned"); }
        if (mpz_sizeinbase(z.get_mpz_t(), 2) > 64) violation("floating-point value out of integer range");
        u64 r = 0; mpz_class az = abs(z); r = mpz_get_ui(az.get_mpz_t()); if (z < 0) r = (u64)-(i64)r;
        return Val(r & maskw(w));
    }
    Expr* N; unsigned m;
    if (!B.toDyadic(e, N, m)) engineError("fptoui of a non-dyadic symbolic real at " + where());
    if (m == 0) return Val::of(B.extract(N, 0, w));
    // trunc == floor for nonnegative values
    Expr* nonneg = B.constant(1, 1);
    if (N->k == K_LIN && N->smin < 0) nonneg = B.pos(B.add(N, B.constant(64, 1)));
    if (!branchOn(nonneg)) { if (!sgn) violation("conversion of a negative value to unsigned"); engineError("fptosi of negative symbolic"); }
    Expr* q = (N->k == K_LIN && N->smin < 0) ? B.lshr(N, B.constant(64, m)) : B.lshr(N, B.constant(64, m));
    return Val::of(B.extract(q, 0, w));
}
static Expr* realFloor(Expr* e, bool ceil) {
    if (e->k == R_CONST) { mpz_class z; if (ceil) mpz_cdiv_q(z.get_mpz_t(), e->q->get_num_mpz_t(), e->q->get_den_mpz_t()); else mpz_fdiv_q(z.get_mpz_t(), e->q->get_num_mpz_t(), e->q->get_den_mpz_t()); return B.rconst(mpq_class(z)); }
    Expr* N; unsigned m;
    if (!B.toDyadic(e, N, m)) engineError("floor of a non-dyadic symbolic real at " + where());
    if (m == 0) return e;
    Expr* nonneg = B.constant(1, 1);
    if (N->k == K_LIN && N->smin < 0) nonneg = B.pos(B.add(N, B.constant(64, 1)));
    if (!branchOn(nonneg)) engineError("floor of a negative symbolic value");
    if (ceil) N = B.add(N, B.constant(64, (1ull << m) - 1));
    return B.u2rRaw(B.lshr(N, B.constant(64, m)));
}
// the unsigned value of e as an exact real, with an upper bound; sums with negative terms need a proof that they do not wrap
static Expr* exactU(Expr* e, __int128& mx) {
    if (e->k == K_ZEXT) return exactU(e->ops[0], mx);
    if (e->k == K_LIN) {
        bool neg = sextw(e->c, e->w) < 0; for (u64 cc : e->coef) if (sextw(cc, e->w) < 0) neg = true;
        if (neg && e->noovf && mustHold(B.pos(B.add(e, B.constant(e->w, 1))), nullptr) == 1) {
            Expr* r = B.rconst(mpq_class(mpz_class((long)sextw(e->c, e->w))));
            for (size_t i = 0; i < e->ops.size(); i++) { __int128 m; r = B.radd(r, B.rmul(B.rconst(mpq_class(mpz_class((long)sextw(e->coef[i], e->w)))), exactU(e->ops[i], m))); }
            mx = e->smax; return r;
        }
        if (!neg) {
            __int128 tot = e->c; std::vector<Expr*> rs;
            for (size_t i = 0; i < e->ops.size(); i++) { __int128 m; rs.push_back(exactU(e->ops[i], m)); tot += (__int128)e->coef[i] * m; }
            if (tot <= (__int128)maskw(e->w)) {
                Expr* r = B.rconst(mpq_class(mpz_class((unsigned long)e->c)));
                for (size_t i = 0; i < rs.size(); i++) r = B.radd(r, B.rmul(B.rconst(mpq_class(mpz_class((unsigned long)e->coef[i]))), rs[i]));
                mx = tot; return r;
            }
        }
    }
    if (e->k == K_MUL) {
        __int128 a, b; Expr* ra = exactU(e->ops[0], a); Expr* rb = exactU(e->ops[1], b);
        if (a * b <= (__int128)maskw(e->w)) { mx = a * b; return B.rmul(ra, rb); }
    }
    mx = e->umax; return B.u2rRaw(e);
}
static Val intToFp(const Val& v, unsigned w, bool sgn) {
    if (v.conc()) {
        mpz_class z; if (sgn) { i64 x = sextw(v.c, w); mpz_set_si(z.get_mpz_t(), (long)x); } else mpz_set_ui(z.get_mpz_t(), (unsigned long)(v.c & maskw(w)));
        return ofReal(B.rconst(mpq_class(z)));
    }
    Expr* e = v.e;
    if (e->isReal()) engineError("int to fp of real");
    if (e->k == K_ITE) { // split
        bool t = branchOn(e->ops[0]);
        return intToFp(Val::of(t ? e->ops[1] : e->ops[2]), w, sgn);
    }
    if (e->k == K_ZEXT && e->ops[0]->w == 1) { bool t = branchOn(e->ops[0]); return intToFp(Val(t), w, sgn); }
    if (e->k == K_LIN) {
        bool nonneg = true;
        for (u64 cc : e->coef) if (sextw(cc, e->w) < 0) nonneg = false;
        if (sextw(e->c, e->w) < 0) nonneg = false;
        if (!nonneg && e->noovf) {
            Expr* pr = B.pos(B.add(e, B.constant(e->w, 1)));
            if (sgn) return ofReal(B.u2rSignedLin(e));
            std::vector<std::pair<size_t, u64>> m;
            int r = mustHold(pr, &m);
            if (r == 1) return ofReal(B.u2rSignedLin(e));
        }
    }
    if (sgn && e->umax > (maskw(w) >> 1)) engineError("sitofp of possibly negative symbolic");
    __int128 mx; return ofReal(exactU(e, mx));
}

static Val g(Frame& fr, int r) { return r >= 0 ? fr.regs[r] : fr.f->consts[~r]; }

static u64 allocHeap(Ctx& c, Val n) {
    u64 sz = concretize(n, 64, "allocation size");
    if (sz > (1ull << 28)) { throwStd("_ZTISt9bad_alloc"); c.jumped = true; return 0; }
    return newObject(sz, 2, "heap");
}
static void freeHeap(const Val& p) {
    u64 a = concretize(p, 64, "free");
    if (!a) return;
    u64 id = a >> 32;
    if (id == 0 || id >= objs.size() || objs[id].kind != 2 || (a & 0xffffffff) != OBJ_OFF) violation("invalid free");
    if (!objs[id].alive) violation("double free");
    Object& o = objs[id]; o.alive = false; free(o.data); o.data = nullptr; free(o.sym); o.sym = nullptr;
}

static void setupBuiltins() {
    for (const char* n : {"_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) def(n, [](Ctx& c) { c.ret = Val(allocHeap(c, c.a[0])); });
    def("_ZnwmSt11align_val_t", [](Ctx& c) { c.ret = Val(allocHeap(c, c.a[0])); });
    def("calloc", [](Ctx& c) { u64 n = concretize(c.a[0], 64, "calloc") * concretize(c.a[1], 64, "calloc"); c.ret = Val(newObject(n, 2, "heap", 0)); });
    for (const char* n : {"_ZdlPv", "_ZdaPv", "free", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) def(n, [](Ctx& c) { freeHeap(c.a[0]); });
    for (const char* n : {"__cxa_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "__cxa_guard_release", "__cxa_guard_abort", "__cxa_free_exception", "llvm.stackrestore", "pthread_mutex_lock", "pthread_mutex_unlock"}) def(n, [](Ctx& c) { c.ret = Val(0); });
    def("__cxa_guard_acquire", [](Ctx& c) { Val v = loadAt(c.a[0].c, 8, 1, false); if (v.c) c.ret = Val(0); else { storeAt(c.a[0].c, Val(1), 8, 1); c.ret = Val(1); } });
    def("__cxa_allocate_exception", [](Ctx& c) { c.ret = Val(newObject(concretize(c.a[0], 64, "exc") + 16, 2, "exception", 0)); });
    def("__cxa_throw", [](Ctx& c) { excTi[c.a[0].c] = c.a[1].c; if (!tiName.count(c.a[1].c)) engineError("throw of unknown type"); c.jumped = true; unwind(c.a[0].c, c.a[1].c); });
    def("__cxa_begin_catch", [](Ctx& c) { caught.push_back(c.a[0].c); c.ret = c.a[0]; });
    def("__cxa_get_exception_ptr", [](Ctx& c) { c.ret = c.a[0]; });
    def("__cxa_end_catch", [](Ctx& c) { if (!caught.empty()) caught.pop_back(); });
    def("__cxa_rethrow", [](Ctx& c) { u64 e = caught.back(); c.jumped = true; unwind(e, excTi[e]); });
    def("__cxa_pure_virtual", [](Ctx&) { violation("pure virtual call"); });
    def("__cxa_call_unexpected", [](Ctx&) { violation("unexpected exception"); });
    for (const char* n : {"_ZSt9terminatev", "abort", "exit", "_Exit"}) def(n, [n](Ctx&) { violation(std::string("program aborted: ") + n); });
    def("_ZSt21__glibcxx_assert_failPKciS0_S0_", [](Ctx& c) { violation("library precondition violated: " + (c.a[3].c ? cstr(c.a[3].c) : std::string("?")) + " in " + (c.a[2].c ? cstr(c.a[2].c) : std::string("?"))); });
    def("__assert_fail", [](Ctx& c) { violation("assertion failed in the code: " + cstr(c.a[0].c)); });
    const std::pair<const char*, const char*> thr[] = {
        {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"},
        {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"},
        {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}};
    for (auto& t : thr) { const char* ti = t.second; def(t.first, [ti](Ctx& c) { c.jumped = true; throwStd(ti); }); }
    // symbolic interface
    def("vp_sym_bits", [](Ctx& c) {
        std::string n = cstr(c.a[0].c); unsigned bits = (unsigned)c.a[1].c;
        Val v = symInput(n, 'u', bits);
        inputs.push_back({n, 'u', v.e, v.c});
        c.ret = v.e ? Val::of(B.zextOr(v.e, 64)) : v;
    });
    def("vp_sym_real", [](Ctx& c) {
        std::string n = cstr(c.a[0].c);
        Val v = symInput(n, 'r', 0);
        inputs.push_back({n, 'r', v.e ? v.e : realOf(v), 0});
        c.ret = v;
    });
    def("vp_choice", [](Ctx& c) {
        std::string n = cstr(c.a[0].c); u64 k = c.a[1].c;
        if (k <= 1) { c.ret = Val(0); inputs.push_back({n, 'u', nullptr, 0}); if (g_logging) concPos++; return; }
        unsigned bits = bitsFor(k - 1);
        Val v = symInput(n, 'u', bits);
        inputs.push_back({n, 'u', v.e, v.c});
        if (!v.e) { if (v.c >= k) { g_log += "ASSUME-FALSE\n"; endPath(true); } c.ret = v; return; }
        // fork over the values
        Expr* e = v.e;
        if (g_concolic) { u64 x = B.eval(e); if (x >= k) { g_log += "ASSUME-FALSE\n"; endPath(true); } inputs.back().e = nullptr; inputs.back().cv = x; c.ret = Val(x); return; }
        B.vars[e->c].val %= k; B.newEpoch();
        for (u64 i = 0; i + 1 < k; i++) {
            if (i == 0) { /* the range restriction */ if ((k & (k - 1)) != 0) SOL->assume(B.ult(e, B.constant(bits, k))); }
            Expr* is = B.eq(e, B.constant(bits, i));
            checkStop();
            if (forkProcess()) { // child takes i
                B.vars[e->c].val = i; B.newEpoch();
                SOL->assume(is); 
                c.ret = Val(i); 
                inputs.back().e = nullptr; inputs.back().cv = i;
                return;
            }
        }
        SOL->assume(B.eq(e, B.constant(bits, k - 1)));
        B.vars[e->c].val = k - 1; B.newEpoch();
        inputs.back().e = nullptr; inputs.back().cv = k - 1;
        c.ret = Val(k - 1);
    });
    def("vp_assume", [](Ctx& c) {
        Expr* e = ex(c.a[0], 1);
        if (e->w != 1) e = B.extract(e, 0, 1);
        if (e->k == K_CONST) { if (!e->c) { g_log += "ASSUME-FALSE\n"; endPath(true); } return; }
        if (g_concolic) { if (!B.eval(e)) { g_log += "ASSUME-FALSE\n"; endPath(true); } SOL->assume(e); known[e->id] = true; return; }
        if (Solver::hasReal(e)) {
            if (!B.eval(e)) { std::vector<std::pair<size_t, mpq_class>> m; int r = SOL->checkReal(e, false, &m); if (r == 0) endPath(true); if (r == 2) engineError("unknown on real assume"); for (auto& p : m) B.vars[p.first].qval = p.second; B.newEpoch(); }
            SOL->assume(e); known[e->id] = true;
            return;
        }
        if (!B.eval(e)) {
            std::vector<std::pair<size_t, u64>> m;
            int r = SOL->check(e, &m);
            if (r == 0) endPath(true);
            if (r == 2) engineError("unknown on assume");
            applyModel(m);
        }
        SOL->assume(e);
        known[e->id] = true;
        if (Builder::isNot(e)) known[e->ops[1]->id] = false;
    });
    def("vp_assert", [](Ctx& c) {
        Expr* e = c.a[0].e ? c.a[0].e : nullptr;
        std::string msg = cstr(c.a[1].c);
        if (!e) { if (!(c.a[0].c & 1)) { g_log += "ASSERT-FAILED " + msg + "\n"; violation(msg); } S->a_concrete++; return; }
        if (e->w != 1) e = B.extract(e, 0, 1);
        doAssert(c, e, msg);
    });
    def("vp_assert_req", [](Ctx& c) {
        std::string msg = cstr(c.a[2].c);
        Expr* a = realOf(c.a[0]); Expr* b = realOf(c.a[1]);
        doAssert(c, B.req(a, b), msg);
    });
    def("vp_cover", [](Ctx& c) {
        std::string n = cstr(c.a[0].c);
        sem_wait(&S->lock);
        int i; for (i = 0; i < S->ncover; i++) if (n == S->coverName[i]) break;
        if (i == S->ncover && i < MAXCOVER) { strncpy(S->coverName[i], n.c_str(), 95); S->ncover++; }
        sem_post(&S->lock);
        if (i < MAXCOVER) S->cover[i]++;
    });
    def("vp_log", [](Ctx& c) { if (g_logging) { g_log += cstr(c.a[0].c) + " " + std::to_string(c.a[1].e ? B.eval(c.a[1].e) : c.a[1].c) + "\n"; } });
    def("vp_log_real", [](Ctx& c) { if (g_logging) { char b[64]; mpq_class q = B.evalq(realOf(c.a[1])); snprintf(b, 64, "%.9g", q.get_d()); g_log += cstr(c.a[0].c) + " " + b + "\n"; } });
    def("vp_symbolic", [](Ctx& c) { c.ret = Val(1); });
    def("vp_is_concrete_run", [](Ctx& c) { c.ret = Val(g_logging); });
    def("vp_fork", [](Ctx& c) { // decide a boolean by forking
        if (!c.a[0].e) { c.ret = Val(c.a[0].c & 1); return; }
        Expr* e = c.a[0].e; if (e->w != 1) e = B.extract(e, 0, 1);
        c.ret = Val(branchOn(e));
    });
    // memory helpers
    def("memcmp", [](Ctx& c) {
        u64 n = concretize(c.a[2], 64, "memcmp length"); u64 p = concretize(c.a[0], 64, "memcmp"), q = concretize(c.a[1], 64, "memcmp");
        Expr* r = B.constant(32, 0);
        for (u64 i = n; i-- > 0;) { Expr *x = byteAt(p + i), *y = byteAt(q + i); r = B.ite(B.eq(x, y), r, B.ite(B.ult(x, y), B.constant(32, ~0ull), B.constant(32, 1))); }
        c.ret = Val::of(r);
    });
    def("bcmp", [](Ctx& c) {
        u64 n = concretize(c.a[2], 64, "bcmp length"); u64 p = concretize(c.a[0], 64, "bcmp"), q = concretize(c.a[1], 64, "bcmp");
        Expr* same = B.constant(1, 1);
        for (u64 i = 0; i < n; i++) same = B.band(same, B.eq(byteAt(p + i), byteAt(q + i)));
        c.ret = Val::of(B.zext(B.bnot(same), 32));
    });
    def("strlen", [](Ctx& c) { u64 p = concretize(c.a[0], 64, "strlen"); u64 n = 0; for (;; n++) { Expr* x = byteAt(p + n); if (branchOn(B.eq0(x))) break; } c.ret = Val(n); });
    def("memchr", [](Ctx& c) {
        u64 p = concretize(c.a[0], 64, "memchr"), n = concretize(c.a[2], 64, "memchr"); Expr* ch = B.extract(ex(c.a[1], 32), 0, 8);
        for (u64 i = 0; i < n; i++) if (branchOn(B.eq(byteAt(p + i), ch))) { c.ret = Val(p + i); return; }
        c.ret = Val(0);
    });
    def("vp_memcpy", [](Ctx& c) { copyMem(concretize(c.a[0], 64, "memcpy"), concretize(c.a[1], 64, "memcpy"), concretize(c.a[2], 64, "memcpy length"), "memcpy"); });
}

static bool ignorable(const std::string& n) {
    // constructors, destructors and messages of the standard exceptions
    static const char* pre[] = {"_ZNSt13runtime_error", "_ZNSt11logic_error", "_ZNSt16invalid_argument", "_ZNSt12out_of_range", "_ZNSt12length_error", "_ZNSt9exception", "_ZNKSt9exception", "_ZNKSt13runtime_error", "_ZNSt12domain_error", "_ZNSt11range_error", "_ZNSt9bad_alloc", "_ZNKSt11logic_error", "_ZNSt14overflow_error", "_ZNSt15underflow_error", "_ZNSt17bad_function_call", "_ZNSt8bad_cast"};
    for (auto* p : pre) if (n.rfind(p, 0) == 0) return true;
    return false;
}
static bool streamNoop(const std::string& n) {
    // text output to std::ostream: no effect on the properties; returns the stream
    static const char* pre[] = {"_ZSt16__ostream_insert", "_ZNSolsE", "_ZStlsISt11char_traitsIcEE", "_ZNSo9_M_insert", "_ZSt4endlIc", "_ZSt5flushI", "_ZNKSt9basic_ios", "_ZNSt9basic_ios", "_ZNSo3put", "_ZNSo5flush"};
    for (auto* p : pre) if (n.rfind(p, 0) == 0) return true;
    return false;
}

static void doIntrinsic(Frame& fr, const DInst& x, CallInfo& ci) {
    auto A = [&](int i) { return g(fr, ci.args[i]); };
    auto set = [&](Val v) { if (x.dst >= 0) fr.regs[x.dst] = v; };
    unsigned w = x.w;
    switch (ci.intrinsic) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
        u64 n = concretize(A(2), 64, "memcpy length"); copyMem(concretize(A(0), 64, "memcpy dst"), concretize(A(1), 64, "memcpy src"), n, "memcpy"); return; }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
        u64 n = concretize(A(2), 64, "memset length"); u64 d = concretize(A(0), 64, "memset dst"); Val v = A(1);
        if (!n) return;
        if (v.conc()) { Object& o = objAt(d, n, "memset", true); u64 of = (d & 0xffffffffull) - OBJ_OFF; memset(o.data + of, (int)(v.c & 255), n); if (o.sym) memset((void*)(o.sym + of), 0, n * sizeof(Cell)); }
        else for (u64 i = 0; i < n; i++) storeAt(d + i, v, 8, 1);
        return; }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        Val a = A(0), b = A(1);
        Expr *p = ex(a, w), *q = ex(b, w);
        bool sg = ci.intrinsic == Intrinsic::smin || ci.intrinsic == Intrinsic::smax, mx = ci.intrinsic == Intrinsic::umax || ci.intrinsic == Intrinsic::smax;
        Expr* lt = sg ? B.slt(p, q) : B.ult(p, q);
        set(Val::of(mx ? sel(lt, q, p) : sel(lt, p, q))); return; }
    case Intrinsic::abs: { Expr* p = ex(A(0), w); set(Val::of(B.ite(B.slt(p, B.constant(w, 0)), B.sub(B.constant(w, 0), p), p))); return; }
    case Intrinsic::ctpop: set(Val::of(B.ctpop(ex(A(0), w)))); return;
    case Intrinsic::ctlz: case Intrinsic::cttz: {
        Val a = A(0);
        if (a.conc()) { u64 v = a.c & maskw(w); u64 r = v == 0 ? w : ci.intrinsic == Intrinsic::ctlz ? (u64)__builtin_clzll(v) - (64 - w) : (u64)__builtin_ctzll(v); set(Val(r)); return; }
        Expr* r = B.constant(w, w); Expr* e = a.e;
        if (ci.intrinsic == Intrinsic::cttz) { for (int i = (int)w - 1; i >= 0; i--) r = B.ite(B.extract(e, i, 1), B.constant(w, i), r); }
        else for (unsigned i = 0; i < w; i++) r = B.ite(B.extract(e, i, 1), B.constant(w, w - 1 - i), r);
        set(Val::of(r)); return; }
    case Intrinsic::bswap: { Expr* e = ex(A(0), w); Expr* r = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr* b = B.extract(e, i * 8, 8); r = r ? B.concat(r, b) : b; } set(Val::of(r)); return; }
    case Intrinsic::bitreverse: { Expr* e = ex(A(0), w); Expr* r = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = B.extract(e, i, 1); r = r ? B.concat(r, b) : b; } set(Val::of(r)); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        Expr *a = ex(A(0), w), *b = ex(A(1), w); u64 s = concretize(A(2), w, "funnel shift") % w;
        if (ci.intrinsic == Intrinsic::fshr) { if (s == 0) { set(Val::of(b)); return; } s = w - s; }
        if (s == 0) { set(Val::of(a)); return; }
        set(Val::of(B.bor(B.shl(a, B.constant(w, s)), B.lshr(b, B.constant(w, w - s))))); return; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        unsigned ww = ci.argTy[0].w; Val a = A(0), b = A(1); Expr *p = ex(a, ww), *q = ex(b, ww); Expr *r, *o;
        switch (ci.intrinsic) {
        case Intrinsic::uadd_with_overflow: r = B.add(p, q); o = ((__int128)p->umax + q->umax <= (__int128)maskw(ww)) ? B.constant(1, 0) : B.ult(r, p); break;
        case Intrinsic::usub_with_overflow: r = B.sub(p, q); o = B.ult(p, q); break;
        case Intrinsic::umul_with_overflow: {
            r = B.mul(p, q);
            if ((__int128)p->umax * q->umax <= (__int128)maskw(ww)) o = B.constant(1, 0);
            else if (Builder::isC(q) && q->c) o = B.ult(B.constant(ww, maskw(ww) / q->c), p);
            else if (Builder::isC(p) && p->c) o = B.ult(B.constant(ww, maskw(ww) / p->c), q);
            else { if (Builder::isC(p) || Builder::isC(q)) o = B.constant(1, 0); else { u64 qv = concretize(b, ww, "umul.with.overflow"); r = B.mul(p, B.constant(ww, qv)); o = qv ? B.ult(B.constant(ww, maskw(ww) / qv), p) : B.constant(1, 0); } }
            break; }
        default: {
            if (!a.conc() || !b.conc()) engineError("signed overflow intrinsic on symbolic values");
            __int128 s1 = sextw(a.c, ww), s2 = sextw(b.c, ww), t = ci.intrinsic == Intrinsic::sadd_with_overflow ? s1 + s2 : ci.intrinsic == Intrinsic::ssub_with_overflow ? s1 - s2 : s1 * s2;
            r = B.constant(ww, (u64)t); o = B.constant(1, t != (__int128)sextw((u64)t, ww)); } }
        Val v; v.agg = new Agg; v.agg->v = {Val::of(r), Val::of(o)}; set(v); return; }
    case Intrinsic::usub_sat: { Expr *p = ex(A(0), w), *q = ex(A(1), w); set(Val::of(sel(B.ult(p, q), B.constant(w, 0), B.sub(p, q)))); return; }
    case Intrinsic::uadd_sat: { Expr *p = ex(A(0), w), *q = ex(A(1), w); Expr* r = B.add(p, q); set(Val::of(B.ite(B.ult(r, p), B.constant(w, ~0ull), r))); return; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: set(A(0)); return;
    case Intrinsic::is_constant: set(Val(0)); return;
    case Intrinsic::objectsize: set(Val(~0ull)); return;
    case Intrinsic::eh_typeid_for: set(Val((u64)(A(0).c >> 32))); return;
    case Intrinsic::stacksave: set(Val(0)); return;
    case Intrinsic::stackrestore: return;
    case Intrinsic::trap: violation("trap");
    case Intrinsic::fabs: { Expr* e = realOf(A(0)); if (e->k == R_CONST) { set(ofReal(B.rconst(abs(*e->q)))); return; } set(branchOn(B.rlt(e, B.rconst(0))) ? ofReal(B.rneg(e)) : A(0)); return; }
    case Intrinsic::floor: set(ofReal(realFloor(realOf(A(0)), false))); return;
    case Intrinsic::ceil: set(ofReal(realFloor(realOf(A(0)), true))); return;
    case Intrinsic::trunc: set(ofReal(realFloor(realOf(A(0)), false))); return;
    case Intrinsic::round: { Expr* e = B.radd(realOf(A(0)), B.rconst(mpq_class(1, 2))); set(ofReal(realFloor(e, false))); return; }
    case Intrinsic::fmuladd: case Intrinsic::fma: set(ofReal(B.radd(B.rmul(realOf(A(0)), realOf(A(1))), realOf(A(2))))); return;
    case Intrinsic::maxnum: { Expr *p = realOf(A(0)), *q = realOf(A(1)); set(branchOn(B.rlt(p, q)) ? A(1) : A(0)); return; }
    case Intrinsic::minnum: { Expr *p = realOf(A(0)), *q = realOf(A(1)); set(branchOn(B.rlt(q, p)) ? A(1) : A(0)); return; }
    default: engineError("intrinsic " + ci.name);
    }
}
static double fval(u64 bits) { float f; uint32_t b = (uint32_t)bits; memcpy(&f, &b, 4); return f; }
static u64 fbits(double d) { float f = (float)d; uint32_t b; memcpy(&b, &f, 4); return b; }

static std::map<std::string, DFn*> modelOf;

static void resolve(CallInfo& ci, DFn* target) {
    ci.resolved = true;
}
static void callFn(DFn* fn, std::vector<Val>& args, int retDst, int normal, int unwindBB, CallInfo& ci) {
    // engine built-in, model, body, or ignorable
    auto bi = builtinIdx.find(fn->name);
    Frame& fr = stack.back();
    fr.unwind = unwindBB;
    auto fin = [&](const Val& v) { Frame& f2 = stack.back(); f2.unwind = -1; if (retDst >= 0) f2.regs[retDst] = v; if (normal >= 0) enterBlock(f2, normal); };
    if (bi != builtinIdx.end()) {
        Ctx c{ci, args, Val(), false};
        builtins[bi->second].second(c);
        if (!c.jumped) fin(c.ret);
        return;
    }
    if (fn->model == nullptr) {
        auto it = modelOf.find(fn->name);
        fn->model = it != modelOf.end() ? it->second : fn;
    }
    DFn* body = fn->model;
    if (body->F->isDeclaration()) {
        if (ignorable(fn->name)) { fin(Val(0)); return; }
        if (streamNoop(fn->name)) { fin(args.empty() ? Val(0) : args[0]); return; }
        engineError("unmodelled external function: " + fn->name + " (" + llvm::demangle(fn->name) + ") called from " + where());
    }
    if (streamNoop(fn->name) && body == fn) { fin(args.empty() ? Val(0) : args[0]); return; }
    if (!body->decoded) { Decoder dec; dec.run(body); }
    S->fn[body->idx] = 1;
    if (stack.size() > 2000) violation("stack overflow");
    Frame nf; nf.f = body; nf.regs.resize(body->nslots);
    size_t na = body->F->arg_size();
    for (size_t i = 0; i < na && i < args.size(); i++) {
        nf.regs[i] = args[i];
        if (ci.cb && i < ci.cb->arg_size() && ci.cb->isByValArgument(i)) {
            u64 sz = DL->getTypeAllocSize(ci.cb->getParamByValType(i)); u64 o = newObject(sz, 1, "byval"); copyMem(o, concretize(args[i], 64, "byval"), sz, "byval"); nf.regs[i] = Val(o); nf.allocas.push_back(o);
        }
    }
    nf.retDst = retDst; nf.normal = normal;
    stack.push_back(std::move(nf));
}

// does e depend on one-bit variables only (data bits, as opposed to times and counts)?
static bool bitOnly(Expr* e) {
    static std::unordered_map<Expr*, bool> memo;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = !e->isReal();
    if (r && e->k == K_VAR) r = e->w == 1;
    if (r) for (auto* o : e->ops) if (!bitOnly(o)) { r = false; break; }
    return memo[e] = r;
}
// a branch on a data bit whose arms only compute values that meet again in phi nodes: evaluate both arms and merge the values
// c ? a : b bit by bit, when the two differ in a few bits only
static Expr* iteBits(Expr* c, Expr* a, Expr* b, unsigned limit) {
    unsigned w = a->w; Expr* r = nullptr; unsigned diff = 0;
    if (w == 1) return B.ite(c, a, b);
    if (w > 64) return nullptr;
    for (unsigned i = 0; i < w;) {
        Expr *x = B.extract(a, i, 1), *y = B.extract(b, i, 1), *e; unsigned n = 1;
        if (x == y) { while (i + n < w && B.extract(a, i + n, 1) == B.extract(b, i + n, 1)) n++; e = B.extract(a, i, n); }
        else { if (++diff > limit) return nullptr; e = B.ite(c, x, y); }
        r = r ? B.concat(e, r) : e; i += n;
    }
    return r;
}
static bool mergeBranch(Frame& fr, const DInst& x, Expr* c) {
    if (known.count((Builder::isNot(c) ? c->ops[1] : c)->id) || !bitOnly(c)) return false;
    DFn* f = fr.f; int from = fr.bb, join[2]; int arm[2] = {x.b, x.c}; bool direct[2];
    auto pure = [&](int b) -> int { // successor of a value-only block, or -1
        DBlock& bl = f->blocks[b];
        if (!bl.phis.empty() || bl.insts.size() > 12) return -1;
        for (auto& i : bl.insts) { if (i.op == O_BR) return i.a; if (!(i.op == O_ADD || i.op == O_SUB || i.op == O_SHL || i.op == O_LSHR || i.op == O_AND || i.op == O_OR || i.op == O_XOR || i.op == O_ICMP || i.op == O_ZEXT || i.op == O_TRUNC || i.op == O_SEXT ||
                ((i.op == O_LOAD || i.op == O_STORE) && i.ty.kind == 0) || i.op == O_GEP)) return -1; }
        return -1;
    };
    int s0 = pure(arm[0]), s1 = pure(arm[1]), J;
    if (s0 >= 0 && s0 == s1) { J = s0; direct[0] = direct[1] = false; }
    else if (s0 >= 0 && s0 == arm[1]) { J = s0; direct[0] = false; direct[1] = true; }
    else if (s1 >= 0 && s1 == arm[0]) { J = s1; direct[0] = true; direct[1] = false; }
    else return false;
    (void)join;
    std::vector<Val> saved = fr.regs; std::vector<Val> in[2];
    auto get = [&](int r) -> Val { return r >= 0 ? fr.regs[r] : f->consts[~r]; };
    DBlock& jb = f->blocks[J];
    struct PSt { u64 a; TyInfo t; Val v; }; std::vector<PSt> st[2]; // predicated stores of each arm
    auto overlay = [&](int k, u64 a, const TyInfo& t, Val& v) -> int { // 1: found, 0: memory, -1: partial overlap
        for (size_t j = st[k].size(); j--;) { auto& q = st[k][j]; if (q.a == a && q.t.size == t.size && q.t.w == t.w) { v = q.v; return 1; } if (a < q.a + q.t.size && q.a < a + t.size) return -1; }
        return 0;
    };
    auto peek = [&](int k, u64 a, const TyInfo& t, Val& v) -> bool {
        int o = overlay(k, a, t, v); if (o) return o > 0;
        if (!accessible(a, t.size, false)) return false;
        if (Object& ob = objAt(a, t.size, "read", false); ob.sym) for (unsigned j = 0; j < t.size; j++) { Expr* e = ob.sym[(a & 0xffffffffull) - OBJ_OFF + j].e; if (e && e->isReal()) return false; }
        v = loadAt(a, t.w, t.size, false); return true;
    };
    for (int k = 0; k < 2; k++) {
        int pred = from;
        if (!direct[k]) {
            pred = arm[k];
            for (auto& i : f->blocks[arm[k]].insts) {
                if (i.op == O_BR) break;
                if (i.op == O_LOAD) { Val p = get(i.a), v; if (!p.conc() || p.agg || !peek(k, p.c, i.ty, v) || v.agg) { fr.regs = saved; return false; } fr.regs[i.dst] = v; continue; }
                if (i.op == O_STORE) {
                    Val v = get(i.a), p = get(i.b), old; if (!p.conc() || p.agg || v.agg || (v.e && v.e->isReal()) || !accessible(p.c, i.ty.size, true) || overlay(k, p.c, i.ty, old) < 0) { fr.regs = saved; return false; }
                    bool hit = false; for (auto& q : st[k]) if (q.a == p.c) { q.v = v; hit = true; } if (!hit) st[k].push_back({p.c, i.ty, v}); continue;
                }
                if (i.op == O_GEP) {
                    Val p = get(i.a); u64 acc = f->gepConst[i.aux]; bool ok = p.conc() && !p.agg;
                    for (auto& q : f->geps[i.aux]) { Val v = get(q.ref); if (!v.conc()) { ok = false; break; } acc += (u64)sextw(v.c, q.w) * q.scale; }
                    if (!ok) { fr.regs = saved; return false; } fr.regs[i.dst] = Val(p.c + acc); continue;
                }
                Val a = get(i.a), b = i.op == O_TRUNC || i.op == O_ZEXT || i.op == O_SEXT ? Val(0) : get(i.b);
                if (a.agg || b.agg || (a.e && a.e->isReal()) || (b.e && b.e->isReal())) { fr.regs = saved; return false; }
                Expr* r;
                if (i.op == O_TRUNC) r = B.extract(a.e ? a.e : B.constant(i.aux ? i.aux : 64, a.c), 0, i.w);
                else if (i.op == O_ZEXT) r = B.zext(ex(a, i.aux), i.w);
                else if (i.op == O_SEXT) r = B.sext(ex(a, i.aux), i.w);
                else {
                    Expr *p = ex(a, i.w), *q = ex(b, i.w);
                    switch (i.op) { case O_ADD: r = B.add(p, q); break; case O_SUB: r = B.sub(p, q); break; case O_SHL: r = B.shl(p, q); break; case O_LSHR: r = B.lshr(p, q); break; case O_AND: r = B.band(p, q); break; case O_OR: r = B.bor(p, q); break; case O_XOR: r = B.bxor(p, q); break;
                    default: switch (i.pred) { case CmpInst::ICMP_EQ: r = B.eq(p, q); break; case CmpInst::ICMP_NE: r = B.bnot(B.eq(p, q)); break; case CmpInst::ICMP_UGT: r = B.ult(q, p); break; case CmpInst::ICMP_UGE: r = B.bnot(B.ult(p, q)); break; case CmpInst::ICMP_ULT: r = B.ult(p, q); break; case CmpInst::ICMP_ULE: r = B.bnot(B.ult(q, p)); break; case CmpInst::ICMP_SGT: r = B.slt(q, p); break; case CmpInst::ICMP_SGE: r = B.bnot(B.slt(p, q)); break; case CmpInst::ICMP_SLT: r = B.slt(p, q); break; default: r = B.bnot(B.slt(q, p)); } }
                }
                fr.regs[i.dst] = Val::of(r);
            }
        }
        for (auto& ph : jb.phis) for (auto& pr : ph.second) if (pr.first == pred) { in[k].push_back(get(pr.second)); break; }
    }
    std::vector<Val> res;
    for (size_t i = 0; i < jb.phis.size(); i++) {
        Val p = in[0][i], q = in[1][i];
        if (p.agg || q.agg || (p.e && p.e->isReal()) || (q.e && q.e->isReal())) { fr.regs = saved; return false; }
        if (p.conc() && q.conc() && p.c == q.c) { res.push_back(p); continue; }
        unsigned w = jb.phiW[i]; Expr* r = nullptr;
        if (w) { Expr *a = ex(p, w), *b = ex(q, w); r = a == b ? a : w == 1 ? B.ite(c, a, b) : B.iteLin(c, a, b); }
        if (!r) { fr.regs = saved; return false; }
        res.push_back(Val::of(r));
    }
    std::vector<PSt> out;
    for (int k = 0; k < 2; k++) for (auto& q : st[k]) {
        bool done = false; for (auto& o : out) if (o.a == q.a) done = true; if (done) continue;
        Val v[2]; if (!peek(0, q.a, q.t, v[0]) || !peek(1, q.a, q.t, v[1])) { fr.regs = saved; return false; }
        if (v[0].conc() && v[1].conc() && v[0].c == v[1].c) { out.push_back({q.a, q.t, v[0]}); continue; }
        Expr *a = ex(v[0], q.t.w), *b = ex(v[1], q.t.w), *r = a == b ? a : iteBits(c, a, b, 1);
        if (!r) r = B.iteLin(c, a, b);
        if (!r) r = iteBits(c, a, b, 8);
        if (!r) { fr.regs = saved; return false; }
        out.push_back({q.a, q.t, Val::of(r)});
    }
    for (auto& q : out) storeAt(q.a, q.v, q.t.w, q.t.size);
    for (size_t i = 0; i < jb.phis.size(); i++) fr.regs[jb.phis[i].first] = res[i];
    fr.bb = J; fr.ip = 0;
    return true;
}
static void run() {
    while (!stack.empty()) {
        Frame& fr = stack.back();
        DBlock& bl = fr.f->blocks[fr.bb];
        const DInst& x = bl.insts[fr.ip++];
        localInsts++;
        if ((localInsts & 0xfffff) == 0) { checkStop(); S->insts += localInsts; localInsts = 0; }
        if (x.line) S->line[x.line] = 1;
#define RA fr.regs
#define GET(r) ((r) >= 0 ? fr.regs[r] : fr.f->consts[~(r)])
        switch (x.op) {
#define BINOP(O, CEXPR, BF) case O: { const Val& a = GET(x.a); const Val& b = GET(x.b); if (!a.e && !b.e) RA[x.dst] = Val((u64)(CEXPR) & maskw(x.w)); else { Val r = Val::of(B.BF(ex(a, x.w), ex(b, x.w))); RA[x.dst] = r; } break; }
        BINOP(O_ADD, a.c + b.c, add) BINOP(O_SUB, a.c - b.c, sub) BINOP(O_MUL, a.c * b.c, mul)
        BINOP(O_AND, a.c & b.c, band) BINOP(O_OR, a.c | b.c, bor) BINOP(O_XOR, a.c ^ b.c, bxor)
        BINOP(O_SHL, b.c >= x.w ? 0 : a.c << b.c, shl) BINOP(O_LSHR, b.c >= x.w ? 0 : (a.c & maskw(x.w)) >> b.c, lshr)
        BINOP(O_ASHR, b.c >= x.w ? 0 : sextw(a.c, x.w) >> b.c, ashr)
        case O_UDIV: case O_UREM: case O_SDIV: case O_SREM: {
            Val a = GET(x.a), b = GET(x.b);
            Expr* be = ex(b, x.w);
            if (be->k == K_CONST) { if (!be->c) violation("division by zero"); }
            else {
                Expr* nz = B.bnot(B.eq0(be)); std::vector<std::pair<size_t, u64>> m; int r = mustHold(nz, &m);
                if (r == 2) engineError("unknown on division");
                if (r == 0) { if (!m.empty()) applyModel(m); violation("division by zero"); }
            }
            Expr* ae = ex(a, x.w);
            Expr* r = x.op == O_UDIV ? B.udiv(ae, be) : x.op == O_UREM ? B.urem(ae, be) : x.op == O_SDIV ? B.sdiv(ae, be) : B.srem(ae, be);
            RA[x.dst] = Val::of(r);
            break; }
        case O_FADD: case O_FSUB: case O_FMUL: case O_FDIV: {
            Val a = GET(x.a), b = GET(x.b);
            if (x.ty.kind == 2) {
                if (!a.conc() || !b.conc()) engineError("symbolic float");
                double p = fval(a.c), q = fval(b.c), r = x.op == O_FADD ? (float)p + (float)q : x.op == O_FSUB ? (float)p - (float)q : x.op == O_FMUL ? (float)p * (float)q : (float)p / (float)q;
                RA[x.dst] = Val(fbits(r)); break;
            }
            Expr *p = realOf(a), *q = realOf(b), *r;
            if (x.op == O_FADD) r = B.radd(p, q); else if (x.op == O_FSUB) r = B.rsub(p, q); else if (x.op == O_FMUL) r = B.rmul(p, q);
            else {
                if (q->k == R_CONST && *q->q == 0) violation("floating-point division by zero");
                if (q->k != R_CONST) { Expr* z = B.req(q, B.rconst(0)); auto it = known.find(z->id); if (it == known.end()) { int rr = SOL->checkReal(z, false, nullptr); if (rr == 2) engineError("unknown on fp division"); if (rr == 1) { bool dz = branchOn(z); if (dz) violation("floating-point division by zero"); } known[z->id] = false; } }
                r = B.rdiv(p, q);
            }
            RA[x.dst] = ofReal(r); break; }
        case O_FNEG: { Val a = GET(x.a); if (x.ty.kind == 2) { RA[x.dst] = Val(fbits(-fval(a.c))); break; } RA[x.dst] = ofReal(B.rneg(realOf(a))); break; }
        case O_ICMP: {
            const Val& a = GET(x.a); const Val& b = GET(x.b); unsigned w = x.w;
            if (!a.e && !b.e) {
                bool r; u64 p = a.c & maskw(w), q = b.c & maskw(w); i64 sp = sextw(p, w), sq = sextw(q, w);
                switch (x.pred) { case CmpInst::ICMP_EQ: r = p == q; break; case CmpInst::ICMP_NE: r = p != q; break; case CmpInst::ICMP_UGT: r = p > q; break; case CmpInst::ICMP_UGE: r = p >= q; break; case CmpInst::ICMP_ULT: r = p < q; break; case CmpInst::ICMP_ULE: r = p <= q; break; case CmpInst::ICMP_SGT: r = sp > sq; break; case CmpInst::ICMP_SGE: r = sp >= sq; break; case CmpInst::ICMP_SLT: r = sp < sq; break; default: r = sp <= sq; }
                RA[x.dst] = Val((u64)r);
            } else {
                Expr *p = ex(a, w), *q = ex(b, w), *r;
                switch (x.pred) { case CmpInst::ICMP_EQ: r = B.eq(p, q); break; case CmpInst::ICMP_NE: r = B.bnot(B.eq(p, q)); break; case CmpInst::ICMP_UGT: r = B.ult(q, p); break; case CmpInst::ICMP_UGE: r = B.bnot(B.ult(p, q)); break; case CmpInst::ICMP_ULT: r = B.ult(p, q); break; case CmpInst::ICMP_ULE: r = B.bnot(B.ult(q, p)); break; case CmpInst::ICMP_SGT: r = B.slt(q, p); break; case CmpInst::ICMP_SGE: r = B.bnot(B.slt(p, q)); break; case CmpInst::ICMP_SLT: r = B.slt(p, q); break; default: r = B.bnot(B.slt(q, p)); }
                RA[x.dst] = Val::of(r);
            }
            break; }
        case O_FCMP: {
            Val a = GET(x.a), b = GET(x.b);
            unsigned pr = x.pred;
            if (x.aux) { double p = fval(a.c), q = fval(b.c); bool lt = p < q, gt = p > q, eq = p == q; bool r = ((pr & 1) && eq) || ((pr & 2) && gt) || ((pr & 4) && lt); RA[x.dst] = Val((u64)r); break; }
            if (pr == CmpInst::FCMP_ORD || pr == CmpInst::FCMP_TRUE) { RA[x.dst] = Val(1); break; }
            if (pr == CmpInst::FCMP_UNO || pr == CmpInst::FCMP_FALSE) { RA[x.dst] = Val(0); break; }
            Expr *p = realOf(a), *q = realOf(b);
            unsigned bits = pr & 7; // eq=1 gt=2 lt=4
            Expr *lt, *gt, *eq; Expr *N1, *N2; unsigned m1, m2;
            bool dy = false;
            if (!(p->k == R_CONST && q->k == R_CONST)) {
                Expr* d = B.rsub(q, p); 
                if (B.toDyadic(d, N1, m1)) { dy = true; (void)N2; (void)m2; lt = B.posAny(N1); Expr* n = B.sub(B.constant(64, 0), N1); gt = B.posAny(n); eq = B.eq0(N1); }
            }
            if (!dy) { lt = B.rlt(p, q); gt = B.rlt(q, p); eq = B.req(p, q); }
            Expr* r;
            switch (bits) { case 1: r = eq; break; case 2: r = gt; break; case 3: r = B.bnot(lt); break; case 4: r = lt; break; case 5: r = B.bnot(gt); break; case 6: r = B.bnot(eq); break; default: r = B.constant(1, bits == 7); }
            RA[x.dst] = Val::of(r); break; }
        case O_TRUNC: { const Val& a = GET(x.a); if (!a.e) RA[x.dst] = Val(a.c & maskw(x.w)); else { if (a.e->isReal()) engineError("trunc of real at " + where()); RA[x.dst] = Val::of(B.extract(a.e, 0, x.w)); } break; }
        case O_ZEXT: { const Val& a = GET(x.a); if (!a.e) RA[x.dst] = Val(a.c & maskw(x.aux)); else RA[x.dst] = Val::of(B.zext(ex(a, x.aux), x.w)); break; }
        case O_SEXT: { const Val& a = GET(x.a); if (!a.e) RA[x.dst] = Val((u64)sextw(a.c, x.aux) & maskw(x.w)); else RA[x.dst] = Val::of(B.sext(ex(a, x.aux), x.w)); break; }
        case O_UITOFP: case O_SITOFP: {
            Val a = GET(x.a);
            if (x.ty.kind == 2) { if (!a.conc()) engineError("symbolic int to float"); RA[x.dst] = Val(fbits(x.op == O_UITOFP ? (double)(a.c & maskw(x.aux)) : (double)sextw(a.c, x.aux))); break; }
            Val r = intToFp(a, x.aux, x.op == O_SITOFP); stack.back().regs[x.dst] = r; break; }
        case O_FPTOUI: case O_FPTOSI: { Val a = GET(x.a); Val r = fpToInt(a, x.w, x.op == O_FPTOSI); RA[x.dst] = r; break; }
        case O_FPEXT: { Val a = GET(x.a); if (x.ty.kind == 1 && a.conc()) { double d = fval(a.c); Val v; memcpy(&v.c, &d, 8); RA[x.dst] = v; } else engineError("fpext"); break; }
        case O_FPTRUNC: { Val a = GET(x.a); if (a.conc()) { double d; memcpy(&d, &a.c, 8); RA[x.dst] = Val(fbits(d)); } else engineError("fptrunc of symbolic"); break; }
        case O_COPY: {
            Val a = GET(x.a);
            if (a.e && !a.e->isReal() && x.ty.kind == 0 && x.aux && x.aux != x.w) { Expr* e = a.e; if (e->w > x.w) e = B.extract(e, 0, x.w); else e = B.zextOr(e, x.w); a = Val::of(e); }
            RA[x.dst] = a; break; }
        case O_SELECT: {
            Val c = GET(x.a);
            if (c.conc()) { Val v = (c.c & 1) ? GET(x.b) : GET(x.c); RA[x.dst] = v; }
            else {
                Val p = GET(x.b), q = GET(x.c);
                if (x.ty.kind == 1 || x.ty.kind == 2 || p.agg || q.agg || (p.e && p.e->isReal()) || (q.e && q.e->isReal())) { bool t = branchOn(c.e); RA[x.dst] = t ? p : q; }
                else if (x.ty.ty->isPointerTy()) { bool t = (p.conc() && q.conc() && p.c == q.c) ? true : branchOn(c.e); RA[x.dst] = t ? p : q; }
                else RA[x.dst] = Val::of(sel(c.e, ex(p, x.w), ex(q, x.w)));
            }
            break; }
        case O_LOAD: { Val p = GET(x.a); Val v = loadVal(p, x.ty); stack.back().regs[x.dst] = v; break; }
        case O_STORE: { Val v = GET(x.a), p = GET(x.b); storeVal(p, v, x.ty); break; }
        case O_GEP: {
            Val p = GET(x.a); auto& st = fr.f->geps[x.aux]; u64 cst = fr.f->gepConst[x.aux];
            if (st.empty() && p.conc()) { RA[x.dst] = Val(p.c + cst); break; }
            u64 acc = cst; Expr* se = nullptr;
            for (auto& s : st) { const Val& v = GET(s.ref); if (v.conc()) acc += (u64)sextw(v.c, s.w) * s.scale; else { Expr* e = B.scale(B.sext(ex(v, s.w), 64), (u64)s.scale); se = se ? B.add(se, e) : e; } }
            if (p.conc() && !se) RA[x.dst] = Val(p.c + acc);
            else { Expr* e = B.add(ex(p, 64), B.constant(64, acc)); if (se) e = B.add(e, se); RA[x.dst] = Val::of(e); }
            break; }
        case O_ALLOCA: { u64 n = concretize(GET(x.a), 64, "alloca"); u64 o = newObject(n * x.aux, 1, "stack"); fr.allocas.push_back(o); RA[x.dst] = Val(o); break; }
        case O_BR: enterBlock(fr, x.a); break;
        case O_CBR: { Val c = GET(x.a); if (!c.conc() && mergeBranch(fr, x, c.e)) break; bool t = c.conc() ? (c.c & 1) : branchOn(c.e); enterBlock(stack.back(), t ? x.b : x.c); break; }
        case O_SWITCH: {
            Val c = GET(x.a); auto& si = fr.f->switches[x.aux]; int target = si.def;
            if (c.conc()) { u64 v = c.c & maskw(x.w); for (auto& k : si.cases) if (k.first == v) { target = k.second; break; } }
            else {
                std::map<int, Expr*> per; std::vector<int> order;
                for (auto& k : si.cases) { Expr* e = B.eq(c.e, B.constant(x.w, k.first)); auto it = per.find(k.second); if (it == per.end()) { per[k.second] = e; order.push_back(k.second); } else it->second = B.bor(it->second, e); }
                for (int t : order) { if (t == si.def) continue; if (branchOn(per[t])) { target = t; break; } }
            }
            enterBlock(stack.back(), target); break; }
        case O_RET: {
            Val v; if (x.aux) v = GET(x.a);
            int rd = fr.retDst, nm = fr.normal;
            popFrame();
            if (stack.empty()) return;
            Frame& c = stack.back();
            c.unwind = -1;
            if (rd >= 0) c.regs[rd] = v;
            if (nm >= 0) enterBlock(c, nm);
            break; }
        case O_UNREACH: violation("unreachable code reached"); break;
        case O_EXTRACTV: { Val a = GET(x.a); for (unsigned i : fr.f->idxs[x.aux]) { if (!a.agg) engineError("extractvalue"); a = a.agg->v[i]; } RA[x.dst] = a; break; }
        case O_INSERTV: {
            Val a = GET(x.a), b = GET(x.b); auto& ix = fr.f->idxs[x.aux];
            std::function<Val(Val, size_t)> ins = [&](Val cur, size_t d) -> Val { if (d == ix.size()) return b; Val r; r.agg = new Agg(*cur.agg); r.agg->v[ix[d]] = ins(cur.agg->v[ix[d]], d + 1); return r; };
            RA[x.dst] = ins(a, 0); break; }
        case O_LANDING: { Val v; v.agg = new Agg; v.agg->v = {Val(pendingExc), Val((u64)(uint32_t)pendingSel)}; RA[x.dst] = v; break; }
        case O_RESUME: { Val a = GET(x.a); u64 e = a.agg->v[0].c; u64 ti = excTi[e]; fr.unwind = -1; if (stack.size() == 1) violation("uncaught exception " + typeName(ti)); popFrame(); unwind(e, ti); break; }
        case O_ATOMICRMW: {
            Val p = GET(x.a), v = GET(x.b); Val old = loadVal(p, x.ty); Expr *o = ex(old, x.w), *n = ex(v, x.w), *r;
            switch (x.pred) { case AtomicRMWInst::Add: r = B.add(o, n); break; case AtomicRMWInst::Sub: r = B.sub(o, n); break; case AtomicRMWInst::Xchg: r = n; break; case AtomicRMWInst::And: r = B.band(o, n); break; case AtomicRMWInst::Or: r = B.bor(o, n); break; default: engineError("atomicrmw"); }
            storeVal(p, Val::of(r), x.ty); RA[x.dst] = old; break; }
        case O_CMPXCHG: { Val p = GET(x.a), cmp = GET(x.b), nv = GET(x.c); Val old = loadVal(p, x.ty); bool eq = branchOn(B.eq(ex(old, x.ty.w), ex(cmp, x.ty.w))); if (eq) storeVal(p, nv, x.ty); Val r; r.agg = new Agg; r.agg->v = {old, Val((u64)eq)}; stack.back().regs[x.dst] = r; break; }
        case O_FENCE: break;
        case O_CALL: {
            CallInfo& ci = fr.f->calls[x.aux];
            if (ci.intrinsic) { doIntrinsic(fr, x, ci); if (ci.normal >= 0) enterBlock(stack.back(), ci.normal); break; }
            std::vector<Val> args; args.reserve(ci.args.size());
            for (int r : ci.args) args.push_back(GET(r));
            DFn* fn = ci.fn;
            if (!fn) {
                u64 a = concretize(GET(ci.calleeRef), 64, "callee");
                u64 i = (a - FN_BASE) / 16;
                if (a < FN_BASE || i >= fns.size()) violation("call through an invalid function pointer");
                fn = fns[i];
            }
            callFn(fn, args, x.dst, ci.normal, ci.unwind, ci);
            break; }
        }
    }
}

static void onTerm(int) { _exit(2); }


int main(int argc, char** argv) {
    std::string bc, entry = "vp_main", out;
    int jobs = 8;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a.rfind("--", 0) == 0) { std::string k = a.substr(2), v = "1"; size_t p = k.find('='); if (p != std::string::npos) { v = k.substr(p + 1); k = k.substr(0, p); } g_opts[k] = v; }
        else bc = a;
    }
    if (g_opts.count("entry")) entry = g_opts["entry"];
    if (g_opts.count("out")) out = g_opts["out"];
    if (g_opts.count("jobs")) jobs = atoi(g_opts["jobs"].c_str());
    if (g_opts.count("deadline")) g_deadline = atof(g_opts["deadline"].c_str());
    if (g_opts.count("rlimit")) g_rlimit = atol(g_opts["rlimit"].c_str());
    g_split = g_opts.count("split");
    if (g_opts.count("paths")) g_pathLimit = atoll(g_opts["paths"].c_str());
    if (g_opts.count("inputs")) {
        g_concolic = g_opts.count("concolic"); g_concrete = !g_concolic; g_logging = true; g_logfile = g_opts["logfile"]; jobs = 1;
        std::ifstream f(g_opts["inputs"]); std::string line;
        while (std::getline(f, line)) { std::istringstream is(line); std::string n, k, v; if (is >> n >> k >> v) if (n != "MSG" && n != "AT") concInputs.push_back({n, v}); }
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); 
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)S, 0, sizeof(Shared));
    sem_init(&S->tokens, 1, jobs - 1);
    sem_init(&S->lock, 1, 1);
    g_t0 = std::chrono::steady_clock::now();
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    pid_t root = fork();
    if (root == 0) {
        LLVMContext ctx; SMDiagnostic err;
        auto mod = parseIRFile(bc, err, ctx);
        if (!mod) { std::string s; raw_string_ostream os(s); err.print("symex", os); engineError(s); }
        M = mod.get(); DL = &M->getDataLayout();
        Z = new z3::context;
        SOL = new Solver; SOL->init();
        objs.reserve(1 << 16);
        objs.push_back(Object());
        setupBuiltins();
        for (auto& F : *M) getFn(&F);
        if (fns.size() >= (size_t)MAXFN) engineError("too many functions");
        for (auto& F : *M) { StringRef n = F.getName(); if (n.starts_with("vp_model_") && !F.isDeclaration()) modelOf[n.substr(9).str()] = getFn(&F); }
        for (auto& gv : M->globals()) globalAddr(&gv);
        for (auto& gv : M->globals()) {
            if (gv.hasInitializer()) storeConst(objs[gaddr[&gv] >> 32].data, gv.getInitializer());
            std::string n = gv.getName().str();
            if (n.rfind("_ZTI", 0) == 0) {
                tiName[gaddr[&gv]] = n;
                if (gv.hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(gv.getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) if (auto* bg = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) tiBases[n].push_back(bg->getName().str());
            }
        }
        for (auto& gv : M->globals()) if (gv.hasInitializer() && gv.isConstant()) objs[gaddr[&gv] >> 32].ro = true;
        // static constructors
        std::vector<Function*> ctors;
        if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function*>> v;
            for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F}); }
            std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& p : v) ctors.push_back(p.second);
        }
        Function* E = M->getFunction(entry);
        if (!E || E->isDeclaration()) engineError("no entry " + entry);
        auto call = [&](Function* F) { DFn* d = getFn(F); if (!d->decoded) { Decoder dec; dec.run(d); } S->fn[d->idx] = 1; Frame f; f.f = d; f.regs.resize(d->nslots); stack.push_back(std::move(f)); run(); };
        for (auto* F : ctors) call(F);
        call(E);
                // names of functions and lines are needed by the reporting process
        endPath(false);
    }
    // reporting process: reap everything
    signal(SIGTERM, onTerm);
    int bad = 0;
    for (;;) {
        int st; pid_t p = wait(&st);
        if (p < 0) { if (errno == EINTR) continue; break; }
        if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 2)) { bad++; int z = 0; if (S->haserr.compare_exchange_strong(z, 1)) snprintf(S->err, sizeof(S->err), "worker died (signal %d, status %d)", WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0); S->stop = 1; }
    }
    // function and line names: decode everything once more in a child-free way
    std::vector<std::string> fnames, lines;
    {
        LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx);
        size_t i = 0; 
        for (auto& F : *mod) { if (i < (size_t)MAXFN && S->fn[i]) { std::string dn = llvm::demangle(F.getName().str()); if (dn.find("DRAMPower") != std::string::npos || dn.find("validators") != std::string::npos) { if (dn.rfind("std::", 0) != 0 && dn.find("__gnu_cxx") == std::string::npos) fnames.push_back(dn); } } i++; }
    }
    std::ostringstream js;
    js << "{\n\"status\":\"" << (S->haserr ? "error" : S->nviol ? "violation" : "ok") << "\",\n\"error\":\"" << jesc(S->err) << "\",\n";
    js << "\"paths\":" << S->paths << ",\"assumed_out\":" << S->assumed_out << ",\"forks\":" << S->forks << ",\"sym_branches\":" << S->symbranches << ",\"queries\":" << S->queries << ",\"sat\":" << S->q_sat << ",\"unsat\":" << S->q_unsat << ",\"unknown\":" << S->q_unknown << ",\"real_queries\":" << S->rq
       << ",\"solver_s\":" << S->solver_us / 1e6 << ",\"max_query_s\":" << S->maxq_us / 1e6 << ",\"insts\":" << S->insts << ",\"asserts_concrete\":" << S->a_concrete << ",\"asserts_simplified\":" << S->a_simplified << ",\"asserts_solver\":" << S->a_solver << ",\"wall_s\":" << elapsed() << ",\n";
    js << "\"covers\":{"; for (int i = 0; i < S->ncover; i++) js << (i ? "," : "") << "\"" << jesc(S->coverName[i]) << "\":" << S->cover[i]; js << "},\n";
    js << "\"violations\":["; for (int i = 0; i < S->nviol; i++) js << (i ? "," : "") << "\"" << jesc(S->viol[i]) << "\""; js << "],\n";
    js << "\"samples\":["; for (int i = 0; i < std::min<int>(S->nsample, MAXSAMPLE); i++) js << (i ? "," : "") << "\"" << jesc(S->sample[i]) << "\""; js << "],\n";
    js << "\"functions\":["; for (size_t i = 0; i < fnames.size(); i++) js << (i ? "," : "") << "\"" << jesc(fnames[i]) << "\""; js << "]\n}\n";
    if (out.empty()) std::cout << js.str(); else { std::ofstream f(out); f << js.str(); }
    return S->haserr ? 2 : S->nviol ? 1 : 0;
}
