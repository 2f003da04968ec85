// A byte store that serialize()/deserialize() of the code write to and read from: a std::stringstream natively; the executor
// redirects std::ostream::write / std::istream::read to the VpStream laid out here (engine/libmodels.cpp).
#pragma once
#include <vp.h>
#include <sstream>
struct VpStream { char* data; uint64_t cap, w, r; };
struct Store {
    VpStream v{nullptr, 0, 0, 0}; std::stringstream* s = nullptr; uint64_t mark = 0;
    explicit Store(uint64_t cap = 65536) { if (vp_symbolic()) { v.data = new char[cap]; v.cap = cap; } else s = new std::stringstream; }
    std::ostream& out() { return vp_symbolic() ? *(std::ostream*)&v : *(std::ostream*)s; }
    std::istream& in() { return vp_symbolic() ? *(std::istream*)&v : *(std::istream*)s; }
    bool all_read() { if (vp_symbolic()) return v.r == v.w; return s->good() && (uint64_t)s->tellg() == (uint64_t)s->tellp(); }
    bool good() { return vp_symbolic() || s->good(); }
};
