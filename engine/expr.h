// Hash-consed expression DAG: bit-vectors up to 64 bits in a linear normal form, and reals.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <gmpxx.h>

namespace sx {

using u64 = uint64_t;
using i64 = int64_t;

[[noreturn]] void engineError(const std::string& msg);

enum Kind : uint8_t {
    K_CONST, K_VAR,
    K_LIN,                                   // sum coef_i*op_i + c   (mod 2^w)
    K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ0,                                   // op0 == 0
    K_POS,                                   // op0 >= 1 as signed, op0 free of overflow
    K_ULT, K_SLT,                            // generic comparisons
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
    R_CONST, R_VAR, R_ADD, R_MUL, R_DIV, R_U2R, R_LT, R_EQ
};

struct Expr {
    Kind k;
    uint16_t w;              // width in bits, 0 for real
    uint16_t lo = 0;         // extract: low bit
    uint32_t id = 0;
    u64 c = 0;               // const value / lin constant / var index
    u64 umax = 0;            // upper bound (unsigned)
    bool noovf = false;      // LIN: the sum over the integers lies in [smin,smax], both in int64
    i64 smin = 0, smax = 0;  // integer range (signed interpretation of LIN coefficients)
    std::vector<Expr*> ops;
    std::vector<u64> coef;
    mpq_class* q = nullptr;
    // evaluation memo
    uint32_t epoch = 0;
    u64 ev = 0;
    mpq_class* evq = nullptr;
    bool isReal() const { return w == 0; }
};

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ull << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; Expr* e; u64 val; mpq_class qval; bool real; bool input; };

class Builder {
public:
    std::vector<VarInfo> vars;
    std::vector<Expr*> all;
    u64 nodes = 0;

    Expr* constant(unsigned w, u64 v) {
        v &= maskw(w);
        Expr t; t.k = K_CONST; t.w = w; t.c = v; t.umax = v;
        Expr* e = intern(t);
        return e;
    }
    Expr* var(const std::string& name, unsigned w, u64 initial, bool input = true) {
        Expr t; t.k = K_VAR; t.w = w; t.c = vars.size(); t.umax = maskw(w);
        Expr* e = intern(t);
        vars.push_back({name, w, e, initial & maskw(w), mpq_class(0), false, input});
        return e;
    }
    Expr* rvar(const std::string& name, const mpq_class& initial) {
        Expr t; t.k = R_VAR; t.w = 0; t.c = vars.size();
        Expr* e = intern(t);
        vars.push_back({name, 0, e, 0, initial, true, true});
        return e;
    }
    Expr* rconst(const mpq_class& q) {
        Expr t; t.k = R_CONST; t.w = 0;
        std::string key = q.get_str();
        auto it = rconsts.find(key);
        if (it != rconsts.end()) return it->second;
        t.q = new mpq_class(q);
        Expr* e = fresh(t);
        rconsts[key] = e;
        return e;
    }
    static bool isC(const Expr* e) { return e->k == K_CONST; }
    static bool isC(const Expr* e, u64 v) { return e->k == K_CONST && e->c == (v & maskw(e->w)); }

    // ---------- linear forms ----------
    struct Lin { unsigned w; u64 c = 0; std::vector<std::pair<Expr*, u64>> t; };
    static bool idLess(const std::pair<Expr*, u64>& a, const std::pair<Expr*, u64>& b) { return a.first->id < b.first->id; }
    Lin toLin(Expr* e) {
        Lin l; l.w = e->w;
        if (e->k == K_CONST) { l.c = e->c; return l; }
        if (e->k == K_LIN) { l.c = e->c; for (size_t i = 0; i < e->ops.size(); i++) l.t.push_back({e->ops[i], e->coef[i]}); return l; }
        if (e->k == K_XOR && isC(e->ops[0]) && e->ops[0]->c == maskw(e->w) && e->w > 1) { // ~x is -1 - x
            Lin z; z.w = e->w; z.c = maskw(e->w);
            return linAdd(z, toLin(e->ops[1]), maskw(e->w));
        }
        l.t.push_back({e, 1});
        return l;
    }
    // ite(c, p, q) as a sum, when p and q differ by a constant; null otherwise
    Expr* iteLin(Expr* c, Expr* p, Expr* q) {
        if (p->w <= 1 || p->w == 0) return nullptr;
        Lin d = linAdd(toLin(p), toLin(q), maskw(p->w));
        if (!d.t.empty()) return nullptr;
        u64 D = d.c, N = (0 - D) & maskw(p->w);
        u64 cb; std::vector<std::pair<unsigned, Expr*>> bm;
        if (D && !(D & (D - 1)) && !(pbits(q) & D)) return add(q, scale(bitmap(q, cb, bm) ? zextBit(c, q->w) : zext(c, q->w), D));
        bm.clear();
        if (N && !(N & (N - 1)) && !(pbits(p) & N)) return add(p, scale(bitmap(p, cb, bm) ? zextBit(bnot(c), p->w) : zext(bnot(c), p->w), N));
        if (isC(p)) return nullptr;
        return add(q, scale(zext(c, q->w), D));
    }
    static Lin linAdd(const Lin& a, const Lin& b, u64 sb) { // a + sb*b
        Lin r; r.w = a.w; u64 m = maskw(a.w);
        r.c = (a.c + sb * b.c) & m;
        size_t i = 0, j = 0;
        r.t.reserve(a.t.size() + b.t.size());
        while (i < a.t.size() || j < b.t.size()) {
            if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) { r.t.push_back(a.t[i++]); }
            else if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) { u64 cc = (b.t[j].second * sb) & m; if (cc) r.t.push_back({b.t[j].first, cc}); j++; }
            else { u64 cc = (a.t[i].second + sb * b.t[j].second) & m; if (cc) r.t.push_back({a.t[i].first, cc}); i++; j++; }
        }
        return r;
    }
    Expr* fromLin(const Lin& l) {
        if (l.t.empty()) return constant(l.w, l.c);
        if (l.w == 1) { Expr* r = constant(1, l.c & 1); for (auto& p : l.t) if (p.second & 1) r = bxor(r, p.first); return r; }
        if (l.c == 0 && l.t.size() == 1 && l.t[0].second == 1) return l.t[0].first;
        Expr t; t.k = K_LIN; t.w = l.w; t.c = l.c;
        for (auto& p : l.t) { t.ops.push_back(p.first); t.coef.push_back(p.second); }
        // integer ranges
        __int128 lo = sextw(l.c, l.w), hi = lo;
        for (auto& p : l.t) {
            __int128 cc = sextw(p.second, l.w); __int128 um = p.first->umax;
            if (cc > 0) hi += cc * um; else lo += cc * um;
            if (hi > ((__int128)1 << 100) || lo < -((__int128)1 << 100)) break;
        }
        __int128 lim = (__int128)1 << (l.w >= 64 ? 62 : l.w - 1);
        t.noovf = lo > -lim && hi < lim;
        if (t.noovf) { t.smin = (i64)lo; t.smax = (i64)hi; }
        // unsigned bound: treat coefficients as unsigned when the constant view stays in range
        __int128 uh = l.c; bool ok = true;
        for (auto& p : l.t) { uh += (__int128)p.second * p.first->umax; if (uh > (__int128)maskw(l.w)) { ok = false; break; } }
        t.umax = ok ? (u64)uh : maskw(l.w);
        if (t.noovf && t.smin >= 0 && (u64)t.smax < t.umax) t.umax = (u64)t.smax;
        return intern(t);
    }
    Expr* add(Expr* a, Expr* b) {
        if (isC(a) && isC(b)) return constant(a->w, a->c + b->c);
        if (a->w == 1) return bxor(a, b);
        return fromLin(linAdd(toLin(a), toLin(b), 1));
    }
    Expr* sub(Expr* a, Expr* b) {
        if (a == b) return constant(a->w, 0);
        if (isC(a) && isC(b)) return constant(a->w, a->c - b->c);
        if (a->w == 1) return bxor(a, b);
        return fromLin(linAdd(toLin(a), toLin(b), (u64)-1));
    }
    Expr* scale(Expr* a, u64 k) {
        Lin z; z.w = a->w;
        return fromLin(linAdd(z, toLin(a), k));
    }
    Expr* mul(Expr* a, Expr* b) {
        if (isC(a) && isC(b)) return constant(a->w, a->c * b->c);
        if (a->w == 1) return band(a, b);
        if (isC(a)) return scale(b, a->c);
        if (isC(b)) return scale(a, b->c);
        if (a->id > b->id) std::swap(a, b);
        // multiplication by a 0/1 value
        Expr t; t.k = K_MUL; t.w = a->w; t.ops = {a, b};
        __int128 m = (__int128)a->umax * b->umax;
        t.umax = m > (__int128)maskw(a->w) ? maskw(a->w) : (u64)m;
        return intern(t);
    }
    Expr* udiv(Expr* a, Expr* b) {
        if (isC(b) && b->c) {
            if (b->c == 1) return a;
            if (isC(a)) return constant(a->w, a->c / b->c);
            if ((b->c & (b->c - 1)) == 0) return lshr(a, constant(a->w, __builtin_ctzll(b->c)));
            if (a->umax < b->c) return constant(a->w, 0);
        }
        Expr t; t.k = K_UDIV; t.w = a->w; t.ops = {a, b}; t.umax = isC(b) && b->c ? a->umax / b->c : a->umax;
        return intern(t);
    }
    Expr* urem(Expr* a, Expr* b) {
        if (isC(b) && b->c) {
            if (isC(a)) return constant(a->w, a->c % b->c);
            if ((b->c & (b->c - 1)) == 0) return band(a, constant(a->w, b->c - 1));
            if (a->umax < b->c) return a;
        }
        Expr t; t.k = K_UREM; t.w = a->w; t.ops = {a, b}; t.umax = isC(b) && b->c ? b->c - 1 : std::min(a->umax, b->umax ? b->umax : a->umax);
        return intern(t);
    }
    Expr* sdiv(Expr* a, Expr* b) {
        u64 h = maskw(a->w) >> 1;
        if (a->umax <= h && b->umax <= h) return udiv(a, b);
        if (isC(a) && isC(b) && b->c && !(sextw(b->c, b->w) == -1)) return constant(a->w, (u64)(sextw(a->c, a->w) / sextw(b->c, b->w)));
        Expr t; t.k = K_SDIV; t.w = a->w; t.ops = {a, b}; t.umax = maskw(a->w);
        return intern(t);
    }
    Expr* srem(Expr* a, Expr* b) {
        u64 h = maskw(a->w) >> 1;
        if (a->umax <= h && b->umax <= h) return urem(a, b);
        if (isC(a) && isC(b) && b->c && !(sextw(b->c, b->w) == -1)) return constant(a->w, (u64)(sextw(a->c, a->w) % sextw(b->c, b->w)));
        Expr t; t.k = K_SREM; t.w = a->w; t.ops = {a, b}; t.umax = maskw(a->w);
        return intern(t);
    }
    static u64 smear(u64 v) { v |= v >> 1; v |= v >> 2; v |= v >> 4; v |= v >> 8; v |= v >> 16; v |= v >> 32; return v; }
    Expr* bnot(Expr* a) { return bxor(a, constant(a->w, ~0ull)); }
    static bool isNot(Expr* a) { return a->w == 1 && a->k == K_XOR && isC(a->ops[0], 1); }
    // e as a vector of bits: constant bits plus one-bit values at distinct positions
    bool bitmap(Expr* e, u64& cb, std::vector<std::pair<unsigned, Expr*>>& out) {
        cb = 0;
        if (isC(e)) { cb = e->c; return true; }
        if (e->w <= 1) return false;
        auto one = [&](Expr* x, u64 cc) {
            if (x->umax > 1 || (cc & (cc - 1))) return false;
            unsigned s = __builtin_ctzll(cc); if (s >= e->w) return false;
            out.push_back({s, extract(x, 0, 1)}); return true;
        };
        if (e->k != K_LIN || e->umax <= 1) return one(e, 1);
        cb = e->c; u64 acc = cb;
        for (size_t i = 0; i < e->ops.size(); i++) {
            if (acc & e->coef[i]) return false;
            acc |= e->coef[i];
            if (!one(e->ops[i], e->coef[i])) return false;
        }
        return true;
    }
    // bitwise operation (0 and, 1 or, 2 xor) on two bit vectors, bit by bit
    Expr* bitOp(int op, Expr* a, Expr* b) {
        if (a->w <= 1 || a->w > 64) return nullptr;
        u64 ca, cb; std::vector<std::pair<unsigned, Expr*>> va, vb;
        if (!bitmap(a, ca, va) || !bitmap(b, cb, vb)) return nullptr;
        std::vector<Expr*> x(a->w, nullptr), y(a->w, nullptr);
        for (auto& p : va) x[p.first] = p.second;
        for (auto& p : vb) y[p.first] = p.second;
        Lin l; l.w = a->w; l.c = 0;
        Expr* r = constant(a->w, 0);
        const bool single = a->umax <= 1 && b->umax <= 1; // a truth value used as a number: arithmetic normal form
        for (unsigned i = 0; i < a->w; i++) {
            Expr* p = x[i] ? x[i] : constant(1, ca >> i & 1); Expr* q = y[i] ? y[i] : constant(1, cb >> i & 1);
            Expr* v = op == 0 ? band(p, q) : op == 1 ? bor(p, q) : bxor(p, q);
            if (isC(v)) { if (v->c) l.c |= 1ull << i; }
            else r = add(r, scale(single ? zext(v, a->w) : zextBit(v, a->w), 1ull << i));
        }
        return l.c ? add(r, constant(a->w, l.c)) : r;
    }
    Expr* band(Expr* a, Expr* b) {
        if (a == b) return a;
        if (isC(b)) std::swap(a, b);
        if (isC(a)) {
            if (isC(b)) return constant(a->w, a->c & b->c);
            if (a->c == 0) return a;
            if (a->c == maskw(a->w)) return b;
            { u64 pb = pbits(b); if (!(pb & ~a->c)) return b; if (!(pb & a->c)) return constant(a->w, 0); }
            if (Expr* r = bitOp(0, a, b)) return r;
            // low mask: zext(extract)
            if ((a->c & (a->c + 1)) == 0) {
                if (b->umax <= a->c) return b;
                unsigned n = 64 - __builtin_clzll(a->c);
                return zext(extract(b, 0, n), a->w);
            }
            if (b->k == K_AND && isC(b->ops[0])) return band(constant(a->w, a->c & b->ops[0]->c), b->ops[1]);
            if (b->k == K_ITE && isC(b->ops[1]) && isC(b->ops[2])) return ite(b->ops[0], band(a, b->ops[1]), band(a, b->ops[2]));
            // a single run of ones: shift(extract)
            unsigned tz = __builtin_ctzll(a->c); u64 run = a->c >> tz;
            if ((run & (run + 1)) == 0) {
                unsigned n = 64 - __builtin_clzll(run);
                return shl(zext(extract(b, tz, n), a->w), constant(a->w, tz));
            }
        } else if (a->w == 1) {
            if (a->k == K_XOR && isC(a->ops[0], 1) && a->ops[1] == b) return constant(1, 0);
            if (b->k == K_XOR && isC(b->ops[0], 1) && b->ops[1] == a) return constant(1, 0);
        }
        if (!isC(a)) if (Expr* r = bitOp(0, a, b)) return r;
        if (!isC(a) && a->id > b->id) std::swap(a, b);
        Expr t; t.k = K_AND; t.w = a->w; t.ops = {a, b}; t.umax = std::min(a->umax, b->umax);
        return intern(t);
    }
    Expr* bor(Expr* a, Expr* b) {
        if (a == b) return a;
        if (isC(b)) std::swap(a, b);
        if (isC(a)) {
            if (isC(b)) return constant(a->w, a->c | b->c);
            if (a->c == 0) return b;
            if (a->c == maskw(a->w)) return a;
        }
        if (a->w == 1) return bnot(band(bnot(a), bnot(b)));
        // disjoint bits: concatenation-like or -> sum
        if (disjoint(a, b)) return add(a, b);
        if (Expr* r = bitOp(1, a, b)) return r;
        if (!isC(a) && a->id > b->id) std::swap(a, b);
        Expr t; t.k = K_OR; t.w = a->w; t.ops = {a, b}; t.umax = smear(a->umax | b->umax);
        return intern(t);
    }
    // possible-one bits
    u64 pbits(Expr* e, int depth = 0) {
        switch (e->k) {
        case K_CONST: return e->c;
        case K_LIN:
            if (depth < 6) {
                // a sum of pairwise disjoint shifted values
                u64 acc = e->c; bool ok = true;
                for (size_t i = 0; i < e->ops.size() && ok; i++) {
                    u64 cc = e->coef[i];
                    if (cc & (cc - 1)) { ok = false; break; }
                    unsigned s = __builtin_ctzll(cc);
                    u64 p = pbits(e->ops[i], depth + 1);
                    if (s && (p >> (64 - s))) { ok = false; break; }
                    p = (p << s);
                    if (p & ~maskw(e->w)) { ok = false; break; }
                    if (acc & p) { ok = false; break; }
                    acc |= p;
                }
                if (ok) return acc;
            }
            return smear(e->umax);
        case K_ZEXT: return depth < 8 ? pbits(e->ops[0], depth + 1) : smear(e->umax);
        case K_AND: return depth < 6 ? pbits(e->ops[0], depth + 1) & pbits(e->ops[1], depth + 1) : smear(e->umax);
        case K_OR: case K_XOR: return depth < 6 ? (pbits(e->ops[0], depth + 1) | pbits(e->ops[1], depth + 1)) : smear(e->umax);
        case K_ITE: return depth < 6 ? (pbits(e->ops[1], depth + 1) | pbits(e->ops[2], depth + 1)) : smear(e->umax);
        default: return smear(e->umax);
        }
    }
    // a LIN whose terms occupy pairwise disjoint bit positions
    bool structural(Expr* e) {
        u64 acc = e->c;
        for (size_t i = 0; i < e->ops.size(); i++) {
            u64 cc = e->coef[i];
            if (cc & (cc - 1)) return false;
            unsigned s = __builtin_ctzll(cc);
            u64 p = pbits(e->ops[i]);
            if (s && (p >> (64 - s))) return false;
            p <<= s;
            if ((p & ~maskw(e->w)) || (acc & p)) return false;
            acc |= p;
        }
        return true;
    }
    bool disjoint(Expr* a, Expr* b) { return (pbits(a) & pbits(b)) == 0; }
    Expr* bxor(Expr* a, Expr* b) {
        if (a == b) return constant(a->w, 0);
        if (isC(b)) std::swap(a, b);
        if (isC(a)) {
            if (isC(b)) return constant(a->w, a->c ^ b->c);
            if (a->c == 0) return b;
            if (b->k == K_XOR && isC(b->ops[0])) return bxor(constant(a->w, a->c ^ b->ops[0]->c), b->ops[1]);
            if (a->w > 1 && a->c == maskw(a->w) && b->k == K_LIN && !structural(b)) return sub(a, b); // ~b == -1 - b
            if (b->k == K_ITE && (isC(b->ops[1]) || isC(b->ops[2]))) return ite(b->ops[0], bxor(a, b->ops[1]), bxor(a, b->ops[2]));
        } else {
            // pull constants out
            if (a->k == K_XOR && isC(a->ops[0])) return bxor(a->ops[0], bxor(a->ops[1], b));
            if (b->k == K_XOR && isC(b->ops[0])) return bxor(b->ops[0], bxor(a, b->ops[1]));
        }
        if (Expr* r = bitOp(2, a, b)) return r;
        if (!isC(a) && a->id > b->id) std::swap(a, b);
        if (!isC(a)) {
            // cancel a common leaf of a short xor chain
            if (b->k == K_XOR) { if (b->ops[0] == a) return b->ops[1]; if (b->ops[1] == a) return b->ops[0]; }
            if (a->k == K_XOR) { if (a->ops[0] == b) return a->ops[1]; if (a->ops[1] == b) return a->ops[0]; }
            if (disjoint(a, b) && a->w > 1) return add(a, b);
        }
        Expr t; t.k = K_XOR; t.w = a->w; t.ops = {a, b}; t.umax = smear(a->umax | b->umax);
        return intern(t);
    }
    Expr* shl(Expr* a, Expr* b) {
        if (isC(b)) { if (b->c >= a->w) return constant(a->w, 0); if (a->w == 1) return a; return scale(a, 1ull << b->c); }
        if (isC(a, 0)) return a;
        Expr t; t.k = K_SHL; t.w = a->w; t.ops = {a, b}; t.umax = maskw(a->w);
        if (b->umax < 64 && a->umax <= (maskw(a->w) >> b->umax)) t.umax = a->umax << b->umax;
        return intern(t);
    }
    Expr* lshr(Expr* a, Expr* b) {
        if (isC(b)) {
            if (b->c >= a->w) return constant(a->w, 0);
            if (b->c == 0) return a;
            if (isC(a)) return constant(a->w, a->c >> b->c);
            return zext(extract(a, b->c, a->w - b->c), a->w);
        }
        if (isC(a, 0)) return a;
        Expr t; t.k = K_LSHR; t.w = a->w; t.ops = {a, b}; t.umax = a->umax;
        return intern(t);
    }
    Expr* ashr(Expr* a, Expr* b) {
        if (a->umax <= (maskw(a->w) >> 1)) return lshr(a, b);
        if (isC(b)) {
            u64 s = b->c >= a->w ? a->w - 1 : b->c;
            if (isC(a)) return constant(a->w, (u64)(sextw(a->c, a->w) >> s));
            if (s == 0) return a;
            return sext(extract(a, s, a->w - s), a->w);
        }
        Expr t; t.k = K_ASHR; t.w = a->w; t.ops = {a, b}; t.umax = maskw(a->w);
        return intern(t);
    }
    Expr* extract(Expr* a, unsigned lo, unsigned w) {
        if (lo == 0 && w == a->w) return a;
        if (isC(a)) return constant(w, a->c >> lo);
        if (lo < 64 && (a->umax >> lo) == 0) return constant(w, 0);
        switch (a->k) {
        case K_EXTRACT: return extract(a->ops[0], lo + a->lo, w);
        case K_ZEXT:
            if (lo >= a->ops[0]->w) return constant(w, 0);
            if (lo + w <= a->ops[0]->w) return extract(a->ops[0], lo, w);
            return zext(extract(a->ops[0], lo, a->ops[0]->w - lo), w);
        case K_SEXT:
            if (lo + w <= a->ops[0]->w) return extract(a->ops[0], lo, w);
            if (lo >= a->ops[0]->w) return sext(extract(a->ops[0], a->ops[0]->w - 1, 1), w);
            return sext(extract(a->ops[0], lo, a->ops[0]->w - lo), w);
        case K_CONCAT: { // ops[0] high, ops[1] low
            unsigned lw = a->ops[1]->w;
            if (lo >= lw) return extract(a->ops[0], lo - lw, w);
            if (lo + w <= lw) return extract(a->ops[1], lo, w);
            return concat(extract(a->ops[0], 0, lo + w - lw), extract(a->ops[1], lo, lw - lo));
        }
        case K_AND: return band(extract(a->ops[0], lo, w), extract(a->ops[1], lo, w));
        case K_OR: return bor(extract(a->ops[0], lo, w), extract(a->ops[1], lo, w));
        case K_XOR: return bxor(extract(a->ops[0], lo, w), extract(a->ops[1], lo, w));
        case K_ITE: return ite(a->ops[0], extract(a->ops[1], lo, w), extract(a->ops[2], lo, w));
        case K_LIN: {
            // pairwise disjoint power-of-two multiples: a bit-wise concatenation
            if (structural(a)) {
                Expr* r = constant(w, a->c >> lo);
                for (size_t i = 0; i < a->ops.size(); i++) {
                    unsigned s = __builtin_ctzll(a->coef[i]);
                    Expr* x = a->ops[i]; unsigned xw = x->w;
                    u64 p = pbits(x) << s;
                    if (((p >> lo) & maskw(w)) == 0) continue;
                    Expr* piece;
                    if (s <= lo) { unsigned from = lo - s; if (from >= xw) continue; unsigned n = std::min<unsigned>(w, xw - from); piece = zextOr(extract(x, from, n), w); }
                    else { unsigned sh = s - lo; if (sh >= w) continue; unsigned n = std::min<unsigned>(w - sh, xw); piece = shl(zextOr(extract(x, 0, n), w), constant(w, sh)); }
                    r = add(r, piece);
                }
                return r;
            }
            { // disjoint bit fields, some of them subtracted from constant ones: each bit is a constant, a bit or a negated bit
                u64 acc = 0, m = maskw(a->w); bool ok = true;
                for (size_t i = 0; ok && i < a->ops.size(); i++) {
                    u64 cc = a->coef[i], nc = (0 - cc) & m; bool neg = (cc & (cc - 1)) != 0; if (neg) cc = nc;
                    if (!cc || (cc & (cc - 1))) { ok = false; break; }
                    unsigned s = __builtin_ctzll(cc); u64 pb = pbits(a->ops[i]);
                    if ((pb << s >> s) != pb || ((pb << s) & ~m) || (acc & (pb << s))) { ok = false; break; }
                    pb <<= s; acc |= pb;
                    if (pb == 1ull << (a->w - 1)) continue; // the top bit: adding, subtracting and flipping are the same
                    if (neg ? (a->c & pb) != pb : (a->c & pb) != 0) ok = false;
                }
                if (ok) {
                    Expr* r = constant(w, (a->c & ~acc) >> lo);
                    for (size_t i = 0; i < a->ops.size(); i++) {
                        u64 cc = a->coef[i]; if (cc & (cc - 1)) cc = (0 - cc) & m;
                        unsigned s = __builtin_ctzll(cc); Expr* x = a->ops[i]; u64 pb = pbits(x), p = pb << s;
                        if (((p >> lo) & maskw(w)) == 0) continue;
                        unsigned xw = x->w, from = s <= lo ? lo - s : 0, sh = s <= lo ? 0 : s - lo;
                        if (from >= xw || sh >= w) continue;
                        unsigned n = std::min<unsigned>(w - sh, xw - from);
                        Expr* piece = extract(x, from, n);
                        if (a->c & p) piece = bxor(constant(n, pb >> from), piece);
                        r = add(r, shl(zextOr(piece, w), constant(w, sh)));
                    }
                    return r;
                }
            }
            if (lo == 0) { // truncation of a sum
                Lin l; l.w = w; l.c = a->c & maskw(w);
                Expr* r = constant(w, l.c);
                for (size_t i = 0; i < a->ops.size(); i++) r = add(r, mul(constant(w, a->coef[i]), extract(a->ops[i], 0, w)));
                return r;
            }
            // all terms share a power of two covering lo
            u64 orc = a->c; for (u64 cc : a->coef) orc |= cc;
            unsigned tz = orc ? __builtin_ctzll(orc) : 0;
            if (tz >= lo && a->umax <= maskw(a->w)) {
                Lin l; l.w = a->w; l.c = a->c >> lo; bool fits = true;
                __int128 tot = a->c; for (size_t i = 0; i < a->ops.size(); i++) { tot += (__int128)a->coef[i] * a->ops[i]->umax; if (tot > (__int128)maskw(a->w)) { fits = false; break; } l.t.push_back({a->ops[i], a->coef[i] >> lo}); }
                if (fits) return extract(fromLin(l), 0, w);
            }
            break;
        }
        default: break;
        }
        Expr t; t.k = K_EXTRACT; t.w = w; t.lo = lo; t.ops = {a};
        t.umax = std::min(maskw(w), lo < 64 ? a->umax >> lo : 0);
        return intern(t);
    }
    Expr* zextOr(Expr* a, unsigned w) { return a->w == w ? a : zext(a, w); }
    Expr* concat(Expr* hi, Expr* lo) {
        unsigned w = hi->w + lo->w;
        if (w > 64) engineError("concat wider than 64 bits");
        if (isC(hi) && isC(lo)) return constant(w, (hi->c << lo->w) | lo->c);
        return add(shl(zext(hi, w), constant(w, lo->w)), zext(lo, w));
    }
    static bool bitAtom(Expr* e) { return e->w == 1 && (e->k == K_VAR || e->k == K_EXTRACT || e->k == K_EQ0 || e->k == K_POS); }
    // zero extension that keeps a one-bit value as a single bit (no arithmetic normal form)
    Expr* zextBit(Expr* a, unsigned w) {
        if (w == a->w || isC(a) || a->w != 1 || (a->k != K_XOR && a->k != K_AND && a->k != K_OR)) return zext(a, w);
        Expr t; t.k = K_ZEXT; t.w = w; t.ops = {a}; t.umax = 1;
        return intern(t);
    }
    Expr* zext(Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return constant(w, a->c);
        if (a->k == K_ZEXT) return zext(a->ops[0], w);
        if (a->w == 1) {
            // multilinear form over atomic bits
            if (a->k == K_XOR) {
                if (isC(a->ops[0], 1)) return sub(constant(w, 1), zext(a->ops[1], w));
                if (bitAtom(a->ops[0]) && bitAtom(a->ops[1]))
                    return sub(add(zext(a->ops[0], w), zext(a->ops[1], w)), scale(zext(band(a->ops[0], a->ops[1]), w), 2));
            }
            if (a->k == K_AND) {
                Expr *x = a->ops[0], *y = a->ops[1];
                if (isNot(x)) std::swap(x, y);
                if (isNot(y) && (bitAtom(y->ops[1]) || bitAtom(x))) return sub(zext(x, w), zext(band(x, y->ops[1]), w));
            }
        }
        if (a->k == K_LIN && a->noovf && a->smin >= 0) {
            __int128 tot = a->c; bool ok = true;
            for (size_t i = 0; i < a->ops.size(); i++) { tot += (__int128)a->coef[i] * a->ops[i]->umax; if (tot > (__int128)maskw(a->w)) { ok = false; break; } }
            if (ok) {
                Expr* r = constant(w, a->c);
                for (size_t i = 0; i < a->ops.size(); i++) r = add(r, scale(zext(a->ops[i], w), a->coef[i]));
                return r;
            }
        }
        if (a->k == K_ITE && (isC(a->ops[1]) || isC(a->ops[2]))) return ite(a->ops[0], zext(a->ops[1], w), zext(a->ops[2], w));
        Expr t; t.k = K_ZEXT; t.w = w; t.ops = {a}; t.umax = a->umax;
        return intern(t);
    }
    Expr* sext(Expr* a, unsigned w) {
        if (w == a->w) return a;
        if (isC(a)) return constant(w, (u64)sextw(a->c, a->w));
        if (a->umax <= (maskw(a->w) >> 1)) return zext(a, w);
        if (a->w == 1) return ite(a, constant(w, ~0ull), constant(w, 0));
        if (a->k == K_SEXT) return sext(a->ops[0], w);
        Expr t; t.k = K_SEXT; t.w = w; t.ops = {a}; t.umax = maskw(w);
        return intern(t);
    }
    Expr* ite(Expr* c, Expr* a, Expr* b) {
        if (isC(c)) return c->c ? a : b;
        if (a == b) return a;
        if (a->isReal()) engineError("ite over reals");
        if (isNot(c)) return ite(c->ops[1], b, a);
        if (a->w == 1) {
            if (isC(a) && isC(b)) return a->c ? c : bnot(c);
            if (isC(a)) return a->c ? bor(c, b) : band(bnot(c), b);
            if (isC(b)) return b->c ? bor(bnot(c), a) : band(c, a);
        } else {
            if (Expr* r = iteLin(c, a, b)) return r;
            Expr* d = sub(a, b);
            if (isC(d)) return add(b, scale(zext(c, a->w), d->c));
        }
        if (a->k == K_ITE && a->ops[0] == c) a = a->ops[1];
        if (b->k == K_ITE && b->ops[0] == c) b = b->ops[2];
        if (a == b) return a;
        Expr t; t.k = K_ITE; t.w = a->w; t.ops = {c, a, b}; t.umax = std::max(a->umax, b->umax);
        return intern(t);
    }
    Expr* eq0(Expr* d) {
        if (isC(d)) return constant(1, d->c == 0);
        if (d->w == 1) return bnot(d);
        if (d->k == K_ZEXT) return eq0(d->ops[0]);
        if (d->k == K_LIN) {
            if (d->noovf && (d->smin > 0 || d->smax < 0)) return constant(1, 0);
            // single term: coef*x + c == 0
            if (d->ops.size() == 1) {
                Expr* x = d->ops[0]; u64 cc = d->coef[0];
                if ((cc & 1)) {
                    u64 inv = 1; for (int i = 0; i < 6; i++) inv *= 2 - cc * inv;
                    u64 need = (0 - d->c) * inv & maskw(d->w);
                    if (need > x->umax) return constant(1, 0);
                    if (x->k == K_ZEXT) { Expr* y = x->ops[0]; return y->w == 1 ? (need ? y : bnot(y)) : eqc(y, need); }
                    return eqc(x, need);
                }
            }
            if (i64 s0 = sextw(d->coef[0], d->w); s0 < 0 && ((u64)s0 & maskw(d->w)) != (1ull << (d->w - 1))) return eq0(scale(d, (u64)-1));
            // divide by a common factor when no overflow
            if (d->noovf) {
                u64 g = 0; i64 c0 = sextw(d->c, d->w);
                for (u64 cc : d->coef) { i64 s = sextw(cc, d->w); u64 a = s < 0 ? (u64)-s : (u64)s; g = std::__gcd(g, a); }
                if (g > 1) {
                    if (c0 % (i64)g) return constant(1, 0);
                    Lin l; l.w = d->w; l.c = (u64)(c0 / (i64)g) & maskw(d->w);
                    for (size_t i = 0; i < d->ops.size(); i++) l.t.push_back({d->ops[i], (u64)(sextw(d->coef[i], d->w) / (i64)g) & maskw(d->w)});
                    return eq0(fromLin(l));
                }
            }
        }
        if (d->k == K_ITE && isC(d->ops[1]) && isC(d->ops[2])) return ite(d->ops[0], eq0(d->ops[1]), eq0(d->ops[2]));
        Expr t; t.k = K_EQ0; t.w = 1; t.ops = {d}; t.umax = 1;
        return intern(t);
    }
    Expr* eqc(Expr* x, u64 c) {
        if (c == 0 && x->k != K_LIN) { Expr t; t.k = K_EQ0; t.w = 1; t.ops = {x}; t.umax = 1; if (x->k == K_ITE && isC(x->ops[1]) && isC(x->ops[2])) return ite(x->ops[0], eq0(x->ops[1]), eq0(x->ops[2])); return intern(t); }
        if (x->k == K_ITE && (isC(x->ops[1]) || isC(x->ops[2]))) return ite(x->ops[0], eq(x->ops[1], constant(x->w, c)), eq(x->ops[2], constant(x->w, c)));
        Expr* d = sub(x, constant(x->w, c));
        if (isC(d)) return constant(1, d->c == 0);
        Expr t; t.k = K_EQ0; t.w = 1; t.ops = {d}; t.umax = 1;
        return intern(t);
    }
    Expr* eq(Expr* a, Expr* b) {
        if (a == b) return constant(1, 1);
        if (a->w == 1) return bnot(bxor(a, b));
        return eq0(sub(a, b));
    }
    Expr* pos(Expr* d) { // d >= 1, d overflow free (LIN with noovf, or small umax)
        if (isC(d)) return constant(1, sextw(d->c, d->w) >= 1);
        if (d->k == K_LIN) {
            if (d->smin >= 1) return constant(1, 1);
            if (d->smax < 1) return constant(1, 0);
            // gcd reduction: g*y + c >= 1  <=>  y >= ceil((1-c)/g)
            u64 g = 0; i64 c0 = sextw(d->c, d->w);
            for (u64 cc : d->coef) { i64 s = sextw(cc, d->w); u64 a = s < 0 ? (u64)-s : (u64)s; g = std::__gcd(g, a); }
            if (g > 1) {
                i64 num = 1 - c0, gg = (i64)g;
                i64 cl = num >= 0 ? (num + gg - 1) / gg : -((-num) / gg);
                Lin l; l.w = d->w; l.c = (u64)(1 - cl) & maskw(d->w);
                for (size_t i = 0; i < d->ops.size(); i++) l.t.push_back({d->ops[i], (u64)(sextw(d->coef[i], d->w) / gg) & maskw(d->w)});
                return posAny(fromLin(l));
            }
            if (d->ops.size() == 1 && d->ops[0]->k == K_ZEXT && d->ops[0]->ops[0]->w == 1) {
                Expr* bit = d->ops[0]->ops[0]; i64 s = sextw(d->coef[0], d->w);
                bool v0 = c0 >= 1, v1 = c0 + s >= 1;
                return v0 == v1 ? constant(1, v0) : v1 ? bit : bnot(bit);
            }
            if (sextw(d->coef[0], d->w) < 0) { // canonical sign
                Expr* n = sub(constant(d->w, 1), d);
                return bnot(posRaw(n));
            }
        } else {
            return bnot(eq0(d));
        }
        return posRaw(d);
    }
    Expr* posAny(Expr* d) { if (isC(d)) return constant(1, sextw(d->c, d->w) >= 1); return pos(d); }
    Expr* posRaw(Expr* d) {
        Expr t; t.k = K_POS; t.w = 1; t.ops = {d}; t.umax = 1;
        return intern(t);
    }
    static bool small(Expr* e) { return e->umax <= (1ull << 61); }
    Expr* ult(Expr* a, Expr* b) {
        if (a == b) return constant(1, 0);
        if (isC(a) && isC(b)) return constant(1, a->c < b->c);
        if (isC(b, 0)) return constant(1, 0);
        if (isC(a) && a->c >= b->umax) return constant(1, 0);
        if (isC(b) && a->umax < b->c) return constant(1, 1);
        if (a->w == 1) return band(bnot(a), b);
        u64 lim = a->w >= 64 ? (1ull << 61) : (1ull << (a->w - 2));
        if (a->w > 4 && a->umax <= lim && b->umax <= lim) {
            Expr* d = sub(b, a);
            if (isC(d) || (d->k == K_LIN && d->noovf) || (d->k != K_LIN && d->umax <= lim)) return pos(d);
        }
        if (a->w <= 62 && a->w > 1) return ult(zext(a, a->w + 2 > 64 ? 64 : a->w + 2), zext(b, a->w + 2 > 64 ? 64 : a->w + 2));
        Expr t; t.k = K_ULT; t.w = 1; t.ops = {a, b}; t.umax = 1;
        return intern(t);
    }
    Expr* slt(Expr* a, Expr* b) {
        if (a == b) return constant(1, 0);
        if (isC(a) && isC(b)) return constant(1, sextw(a->c, a->w) < sextw(b->c, b->w));
        u64 h = maskw(a->w) >> 1;
        if (a->umax <= h && b->umax <= h) return ult(a, b);
        if (a->k == K_LIN && a->noovf && isC(b) && a->w >= 8) {
            i64 bc = sextw(b->c, b->w); i64 lim = (i64)1 << (a->w - 3 > 60 ? 60 : a->w - 3);
            if (bc > -lim && bc < lim && a->smin > -lim && a->smax < lim) { Expr* d = sub(b, a); if (isC(d) || (d->k == K_LIN && d->noovf)) return pos(d); }
        }
        if (b->k == K_LIN && b->noovf && isC(a) && a->w >= 8) {
            i64 ac = sextw(a->c, a->w); i64 lim = (i64)1 << (a->w - 3 > 60 ? 60 : a->w - 3);
            if (ac > -lim && ac < lim && b->smin > -lim && b->smax < lim) { Expr* d = sub(b, a); if (isC(d) || (d->k == K_LIN && d->noovf)) return pos(d); }
        }
        Expr t; t.k = K_SLT; t.w = 1; t.ops = {a, b}; t.umax = 1;
        return intern(t);
    }
    Expr* ctpop(Expr* a) {
        if (isC(a)) return constant(a->w, __builtin_popcountll(a->c));
        Expr* r = constant(a->w, 0);
        { u64 cb; std::vector<std::pair<unsigned, Expr*>> v; if (a->w > 1 && bitmap(a, cb, v)) { for (auto& p : v) r = add(r, zext(p.second, a->w)); return add(r, constant(a->w, __builtin_popcountll(cb))); } }
        for (unsigned i = 0; i < a->w; i++) {
            Expr* b = extract(a, i, 1);
            r = add(r, a->w == 1 ? b : zext(b, a->w));
        }
        return r;
    }

    // ---------- reals ----------
    static bool isRC(const Expr* e) { return e->k == R_CONST; }
    Expr* radd(Expr* a, Expr* b) {
        if (isRC(a) && isRC(b)) return rconst(*a->q + *b->q);
        if (isRC(a) && *a->q == 0) return b;
        if (isRC(b) && *b->q == 0) return a;
        if (a->id > b->id) std::swap(a, b);
        Expr t; t.k = R_ADD; t.w = 0; t.ops = {a, b};
        return intern(t);
    }
    Expr* rmul(Expr* a, Expr* b) {
        if (isRC(a) && isRC(b)) return rconst(*a->q * *b->q);
        if ((isRC(a) && *a->q == 0) || (isRC(b) && *b->q == 0)) return rconst(0);
        if (isRC(a) && *a->q == 1) return b;
        if (isRC(b) && *b->q == 1) return a;
        if (a->id > b->id) std::swap(a, b);
        Expr t; t.k = R_MUL; t.w = 0; t.ops = {a, b};
        return intern(t);
    }
    Expr* rneg(Expr* a) { return rmul(rconst(-1), a); }
    Expr* rsub(Expr* a, Expr* b) { if (a == b) return rconst(0); return radd(a, rneg(b)); }
    Expr* rdiv(Expr* a, Expr* b) {
        if (isRC(b) && *b->q != 0) { mpq_class inv = 1 / *b->q; return rmul(a, rconst(inv)); }
        if (isRC(a) && *a->q == 0) return a;
        Expr t; t.k = R_DIV; t.w = 0; t.ops = {a, b};
        return intern(t);
    }
    Expr* u2rRaw(Expr* a) {
        if (isC(a)) { mpz_class z; mpz_set_ui(z.get_mpz_t(), (unsigned long)a->c); return rconst(mpq_class(z)); }
        if (a->k == K_ZEXT) return u2rRaw(a->ops[0]);
        if (a->k == K_LIN) {
            __int128 tot = a->c; bool ok = true;
            for (size_t i = 0; i < a->ops.size(); i++) { tot += (__int128)a->coef[i] * a->ops[i]->umax; if (tot > (__int128)maskw(a->w)) { ok = false; break; } }
            if (ok) {
                mpz_class z; mpz_set_ui(z.get_mpz_t(), (unsigned long)a->c);
                Expr* r = rconst(mpq_class(z));
                for (size_t i = 0; i < a->ops.size(); i++) { mpz_class cz; mpz_set_ui(cz.get_mpz_t(), (unsigned long)a->coef[i]); r = radd(r, rmul(rconst(mpq_class(cz)), u2rRaw(a->ops[i]))); }
                return r;
            }
        }
        if (a->k == K_MUL && (__int128)a->ops[0]->umax * a->ops[1]->umax <= (__int128)maskw(a->w)) return rmul(u2rRaw(a->ops[0]), u2rRaw(a->ops[1]));
        Expr t; t.k = R_U2R; t.w = 0; t.ops = {a};
        return intern(t);
    }
    Expr* u2rSignedLin(Expr* a) { // sum over the integers with signed coefficients (caller proved validity)
        i64 c0 = sextw(a->c, a->w);
        Expr* r = rconst(mpq_class(mpz_class((long)c0)));
        for (size_t i = 0; i < a->ops.size(); i++) r = radd(r, rmul(rconst(mpq_class(mpz_class((long)sextw(a->coef[i], a->w)))), u2rRaw(a->ops[i])));
        return r;
    }
    Expr* rlt(Expr* a, Expr* b) {
        if (isRC(a) && isRC(b)) return constant(1, *a->q < *b->q);
        if (a == b) return constant(1, 0);
        Expr t; t.k = R_LT; t.w = 1; t.ops = {a, b}; t.umax = 1;
        return intern(t);
    }
    Expr* req(Expr* a, Expr* b) {
        if (isRC(a) && isRC(b)) return constant(1, *a->q == *b->q);
        if (a == b) return constant(1, 1);
        if (a->id > b->id) std::swap(a, b);
        Expr t; t.k = R_EQ; t.w = 1; t.ops = {a, b}; t.umax = 1;
        return intern(t);
    }
    // dyadic view: value = N / 2^m, N an overflow-free 64-bit signed expression
    bool toDyadic(Expr* e, Expr*& N, unsigned& m) {
        switch (e->k) {
        case R_CONST: {
            mpz_class den = e->q->get_den(), num = e->q->get_num();
            size_t b = mpz_sizeinbase(den.get_mpz_t(), 2) - 1;
            if (mpz_popcount(den.get_mpz_t()) != 1 || b > 40) return false;
            if (!num.fits_slong_p() || mpz_sizeinbase(num.get_mpz_t(), 2) > 56) return false;
            N = constant(64, (u64)num.get_si()); m = b; return true;
        }
        case R_U2R: N = zextOr(e->ops[0], 64); m = 0; return N->umax < (1ull << 56);
        case R_ADD: {
            Expr *a, *b; unsigned ma, mb;
            if (!toDyadic(e->ops[0], a, ma) || !toDyadic(e->ops[1], b, mb)) return false;
            m = std::max(ma, mb);
            N = add(scale(a, 1ull << (m - ma)), scale(b, 1ull << (m - mb)));
            return fits(N);
        }
        case R_MUL: {
            Expr *a, *b; unsigned ma, mb;
            if (!toDyadic(e->ops[0], a, ma) || !toDyadic(e->ops[1], b, mb)) return false;
            m = ma + mb;
            if (!isC(a) && !isC(b)) {
                // distribute over sums so that signs stay in the coefficients
                Lin la = toLin(a), lb = toLin(b);
                Expr* r = constant(64, la.c * lb.c);
                for (auto& p : la.t) r = add(r, scale(p.first, p.second * lb.c));
                for (auto& p : lb.t) r = add(r, scale(p.first, p.second * la.c));
                for (auto& p : la.t) for (auto& q : lb.t) r = add(r, scale(mul(p.first, q.first), p.second * q.second));
                N = r;
            } else N = mul(a, b);
            return m <= 48 && fits(N);
        }
        default: return false;
        }
    }
    bool fits(Expr* n) { return isC(n) || (n->k == K_LIN ? n->noovf : n->umax < (1ull << 61)); }

    // ---------- evaluation ----------
    uint32_t curEpoch = 1;
    void newEpoch() { curEpoch++; }
    u64 eval(Expr* e) {
        if (e->k == K_CONST) return e->c;
        if (e->epoch == curEpoch) return e->ev;
        u64 m = maskw(e->w), r = 0;
        auto O = [&](int i) { return eval(e->ops[i]); };
        switch (e->k) {
        case K_VAR: r = vars[e->c].val; break;
        case K_LIN: r = e->c; for (size_t i = 0; i < e->ops.size(); i++) r += e->coef[i] * eval(e->ops[i]); break;
        case K_MUL: r = O(0) * O(1); break;
        case K_UDIV: { u64 b = O(1); r = b ? O(0) / b : m; break; }
        case K_UREM: { u64 b = O(1); r = b ? O(0) % b : O(0); break; }
        case K_SDIV: { i64 a = sextw(O(0), e->w), b = sextw(O(1), e->w); r = b == 0 ? (a < 0 ? 1 : m) : b == -1 ? (u64)-a : (u64)(a / b); break; }
        case K_SREM: { i64 a = sextw(O(0), e->w), b = sextw(O(1), e->w); r = b == 0 ? (u64)a : b == -1 ? 0 : (u64)(a % b); break; }
        case K_AND: r = O(0) & O(1); break;
        case K_OR: r = O(0) | O(1); break;
        case K_XOR: r = O(0) ^ O(1); break;
        case K_SHL: { u64 s = O(1); r = s >= e->w ? 0 : O(0) << s; break; }
        case K_LSHR: { u64 s = O(1); r = s >= e->w ? 0 : O(0) >> s; break; }
        case K_ASHR: { u64 s = O(1); if (s >= e->w) s = e->w - 1; r = (u64)(sextw(O(0), e->w) >> s); break; }
        case K_EQ0: r = O(0) == 0; break;
        case K_POS: r = sextw(O(0), e->ops[0]->w) >= 1; break;
        case K_ULT: r = O(0) < O(1); break;
        case K_SLT: r = sextw(O(0), e->ops[0]->w) < sextw(O(1), e->ops[1]->w); break;
        case K_CONCAT: r = (O(0) << e->ops[1]->w) | O(1); break;
        case K_EXTRACT: r = O(0) >> e->lo; break;
        case K_ZEXT: r = O(0); break;
        case K_SEXT: r = (u64)sextw(O(0), e->ops[0]->w); break;
        case K_ITE: r = O(0) ? O(1) : O(2); break;
        case R_LT: r = evalq(e->ops[0]) < evalq(e->ops[1]); break;
        case R_EQ: r = evalq(e->ops[0]) == evalq(e->ops[1]); break;
        default: engineError("eval: kind");
        }
        e->epoch = curEpoch; e->ev = r & m;
        return e->ev;
    }
    bool divByZero = false;
    const mpq_class& evalq(Expr* e) {
        if (e->k == R_CONST) return *e->q;
        if (e->epoch == curEpoch && e->evq) return *e->evq;
        mpq_class r;
        switch (e->k) {
        case R_VAR: r = vars[e->c].qval; break;
        case R_ADD: r = evalq(e->ops[0]) + evalq(e->ops[1]); break;
        case R_MUL: r = evalq(e->ops[0]) * evalq(e->ops[1]); break;
        case R_DIV: { const mpq_class& b = evalq(e->ops[1]); if (b == 0) { divByZero = true; r = 0; } else r = evalq(e->ops[0]) / b; break; }
        case R_U2R: { mpz_class z; mpz_set_ui(z.get_mpz_t(), (unsigned long)eval(e->ops[0])); r = mpq_class(z); break; }
        default: engineError("evalq: kind");
        }
        if (!e->evq) e->evq = new mpq_class;
        *e->evq = r; e->epoch = curEpoch;
        return *e->evq;
    }

private:
    struct H { size_t operator()(const Expr* e) const {
        u64 h = e->k * 0x9E3779B97F4A7C15ull + e->w * 1315423911ull + e->lo * 2654435761ull + e->c * 0xD6E8FEB86659FD93ull;
        for (size_t i = 0; i < e->ops.size(); i++) { h ^= (u64)e->ops[i]->id + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); if (i < e->coef.size()) h = h * 31 + e->coef[i]; }
        return h; } };
    struct E { bool operator()(const Expr* a, const Expr* b) const {
        return a->k == b->k && a->w == b->w && a->lo == b->lo && a->c == b->c && a->ops == b->ops && a->coef == b->coef; } };
    std::unordered_set<Expr*, H, E> table;
    std::unordered_map<std::string, Expr*> rconsts;
    Expr* fresh(const Expr& t) { Expr* e = new Expr(t); e->id = (uint32_t)(++nodes); return e; }
    Expr* intern(Expr& t) {
        auto it = table.find(&t);
        if (it != table.end()) return *it;
        Expr* e = fresh(t);
        table.insert(e);
        return e;
    }
};

} // namespace sx
