// Bodies for the few libstdc++/libc functions that live only in the shared library.
// Linked into the bitcode only; a function vp_model_<symbol> is executed in place of <symbol>.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <list>
#include <map>
#include <unordered_map>
#include <bits/stl_tree.h>
#include "vp.h"
extern "C" {
int vp_model_strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
// ---- std::unordered_map
size_t vp_model__ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed ^ n; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
size_t vp_model__ZSt15_Fnv_hash_bytesPKvmm(const void* p, size_t n, size_t s) { return vp_model__ZSt11_Hash_bytesPKvmm(p, n, s); }
struct PRP { float mlf; size_t next; };
static size_t pw(size_t n) { static const size_t pr[] = {1, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753}; for (size_t p : pr) if (p >= n) return p; return 42043; }
size_t vp_model__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(PRP* t, size_t n) { size_t p = pw(n); t->next = p; return p; }
size_t vp_model__ZNKSt8__detail20_Prime_rehash_policy14_M_bkt_for_elementsEm(PRP*, size_t n) { return n; }
struct RB { bool b; size_t n; };
RB vp_model__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(PRP* t, size_t bkt, size_t elt, size_t ins) { if (elt + ins > t->next) { size_t w = elt + ins; if (t->next * 2 > w && t->next) w = t->next * 2; size_t p = pw(w + 1); t->next = p; (void)bkt; return {true, p}; } return {false, 0}; }
// ---- std::map (unbalanced insertion keeps the ordering contract; balance is not observable)
using NB = std::_Rb_tree_node_base;
static NB* rbmin(NB* x) { while (x->_M_left) x = x->_M_left; return x; }
static NB* rbmax(NB* x) { while (x->_M_right) x = x->_M_right; return x; }
NB* vp_model__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(NB* x) { if (x->_M_right) return rbmin(x->_M_right); NB* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
NB* vp_model__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(NB* x) { return vp_model__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
NB* vp_model__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(NB* x) {
    if (x->_M_color == std::_S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) return rbmax(x->_M_left);
    NB* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
NB* vp_model__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(NB* x) { return vp_model__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void vp_model__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, NB* x, NB* p, NB& h) {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = std::_S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB* vp_model__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(NB* z, NB& h) {
    NB* y = z; NB* x;
    auto repl = [&](NB* u, NB* v) { if (h._M_parent == u) h._M_parent = v; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v; else u->_M_parent->_M_right = v; if (v) v->_M_parent = u->_M_parent; };
    if (!z->_M_left) { x = z->_M_right; repl(z, x); }
    else if (!z->_M_right) { x = z->_M_left; repl(z, x); }
    else { y = rbmin(z->_M_right); if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = z->_M_color; }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = rbmin(h._M_parent); h._M_right = rbmax(h._M_parent); }
    return z;
}
// ---- std::list
using LB = std::__detail::_List_node_base;
void vp_model__ZNSt8__detail15_List_node_base7_M_hookEPS0_(LB* t, LB* p) { t->_M_next = p; t->_M_prev = p->_M_prev; p->_M_prev->_M_next = t; p->_M_prev = t; }
void vp_model__ZNSt8__detail15_List_node_base9_M_unhookEv(LB* t) { LB* n = t->_M_next; LB* p = t->_M_prev; p->_M_next = n; n->_M_prev = p; }
void vp_model__ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(LB* t, LB* f, LB* l) { if (t != l) { l->_M_prev->_M_next = t; f->_M_prev->_M_next = l; t->_M_prev->_M_next = f; LB* tmp = t->_M_prev; t->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = tmp; } }
// ---- binary streams: the harness passes a VpStream in place of the stream object
struct VpStream { char* data; uint64_t cap, w, r; };
void* vp_model__ZNSo5writeEPKcl(VpStream* s, const char* p, long n) { if ((uint64_t)n > s->cap - s->w) vp_assert(false, "serialisation buffer of the harness exceeded"); if (n) vp_memcpy(s->data + s->w, p, n); s->w += n; return s; }
void* vp_model__ZNSi4readEPcl(VpStream* s, char* p, long n) { if ((uint64_t)n > s->w - s->r) vp_assert(false, "deserialisation reads past the end of what was serialised"); if (n) vp_memcpy(p, s->data + s->r, n); s->r += n; return s; }
// ---- std::cout and friends: text written to them is dropped; inlined std::endl looks up the character type
struct CType { void* b[7]; char ok, widen[256]; }; struct COut { const long* vptr; char pad[232]; const CType* ct; char rest[64]; };
const CType vp_ctype = {{}, 1, {}}; const long vp_vtable[4] = {0, 0, 0, 0};
COut vp_model__ZSt4cout = {vp_vtable + 3, {}, &vp_ctype, {}}; COut vp_model__ZSt4cerr = {vp_vtable + 3, {}, &vp_ctype, {}};
// ---- numbers in text
long vp_model_strtol(const char* s, char** e, int base) {
    const char* p = s; while (*p == ' ' || (*p >= '\t' && *p <= '\r')) p++;
    bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) {
        char c = p[2]; bool hex = (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        if (hex) { p += 2; base = 16; } else { if (e) *e = (char*)(p + 1); return 0; }
    } else if (base == 0) base = *p == '0' ? 8 : 10;
    long v = 0; bool any = false;
    for (;; p++) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; v = v * base + d; any = true; }
    if (e) *e = (char*)(any ? p : s);
    return neg ? -v : v;
}
unsigned long vp_model_strtoul(const char* s, char** e, int base) { return (unsigned long)vp_model_strtol(s, e, base); }
static int vp_errno; int* vp_model___errno_location() { return &vp_errno; }
long vp_model___isoc23_strtol(const char* s, char** e, int b) { return vp_model_strtol(s, e, b); }
unsigned long vp_model___isoc23_strtoul(const char* s, char** e, int b) { return vp_model_strtoul(s, e, b); }
}
