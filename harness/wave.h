// Reference model of a bus: an explicit waveform, beat by beat, written without looking at how the code counts.
#pragma once
#include <vp.h>
#include <vector>
#include <cstdint>
typedef uint64_t u64;
struct WStats { u64 ones = 0, zeroes = 0, changes = 0, o2z = 0, z2o = 0; };
typedef std::vector<u64> Beat; // one 0/1 value per line
struct Wave {
    unsigned width; bool idleH; // idle level
    struct Load { u64 v; std::vector<Beat> b; u64 end() const { return v + b.size(); } };
    struct Seg { u64 from, to; std::vector<Load> l; };
    static constexpr u64 OPEN = 1ull << 50;
    std::vector<Seg> seg;
    Wave(unsigned w, bool h, bool on = true) : width(w), idleH(h) { if (on) seg.push_back({0, OPEN, {}}); }
    void load(u64 v, const std::vector<Beat>& b) { seg.back().l.push_back({v, b}); }
    void off(u64 v) { seg.back().to = v; }
    void on(u64 v) { seg.push_back({v, OPEN, {}}); }
    u64 freeAt() const { if (seg.empty()) return 0; auto& s = seg.back(); return s.l.empty() ? s.from : s.l.back().end(); }
    Beat idle() const { return Beat(width, idleH ? 1 : 0); }
    void step(WStats& s, const Beat& p, const Beat& c) const {
        for (unsigned i = 0; i < width; i++) { s.ones += c[i]; s.zeroes += 1 - c[i]; s.changes += p[i] ^ c[i]; s.o2z += p[i] & (c[i] ^ 1); s.z2o += (p[i] ^ 1) & c[i]; }
    }
    void idleFor(WStats& s, u64 n) const { if (idleH) s.ones += n * width; else s.zeroes += n * width; }
    WStats at(u64 T) const { // everything in [0, T)
        WStats s; Beat I = idle();
        for (auto& g : seg) {
            if (g.from >= T) break;
            u64 end = g.to < T ? g.to : T;
            u64 pos = g.from; Beat prev = I; bool open = false; // open: prev is a burst beat
            for (auto& l : g.l) {
                if (l.v >= end) break;
                if (l.v > pos) { if (open) { step(s, prev, I); idleFor(s, l.v - pos - 1); } else idleFor(s, l.v - pos); prev = I; }
                pos = l.v;
                for (auto& b : l.b) { if (!(pos < end)) break; step(s, prev, b); prev = b; pos = pos + 1; open = true; }
            }
            if (end > pos) { if (open) { step(s, prev, I); idleFor(s, end - pos - 1); } else idleFor(s, end - pos); }
        }
        return s;
    }
};
template <class S> static inline void checkWave(const S& st, const WStats& w, const char* what) {
    vp_log("ones", st.ones); vp_log("zeroes", st.zeroes); vp_log("chg", st.bit_changes);
    CHECK(st.ones == w.ones, what); CHECK(st.zeroes == w.zeroes, what);
    CHECK(st.bit_changes == w.changes, what); CHECK(st.ones_to_zeroes == w.o2z, what); CHECK(st.zeroes_to_ones == w.z2o, what);
}
