#include <ce/ce.h>
#include "vf.h"
#if VF_ELEM == 1
struct P { unsigned long v; };   // trivial
using X = P;
#elif VF_ELEM == 2
struct F { unsigned w[3]; F(); F(F const&) = delete; F& operator=(F const&); ~F(); };
using X = F;
#elif VF_ELEM == 3
struct D { unsigned w[3]; explicit D(int); D(D const&); D& operator=(D const&); ~D(); };   // no default constructor
using X = D;
#else
using X = E;
#endif
#ifndef VF_N
#define VF_N 7
#endif
using B = ce::bulk<VF_N, X>;
extern "C" const ce::size_t layout[] = { sizeof(B), __builtin_offsetof(B, size), __builtin_offsetof(B, data), sizeof(X), VF_N };
#if VF_ELEM != 3
extern "C" bool h_resize(B* b, ce::size_t n) { return b->resize(n); }
extern "C" bool h_append_n(B* b, ce::size_t n) { return b->append_n(n); }
#endif
#if VF_ELEM != 2
extern "C" bool h_append(B* b, X const* e) { return b->append(*e); }
#endif
extern "C" bool h_remove(B* b, ce::size_t n) { return b->remove_at<false>(n); }
extern "C" bool h_remove_ordered(B* b, ce::size_t n) { return b->remove_at<true>(n); }
extern "C" void h_clear(B* b) { b->clear(); }
extern "C" void h_ctor(B* b) { CE_CONSTRUCT_AT(b) B; }
extern "C" void h_dtor(B* b) { b->~B(); }
extern "C" void h_copy(B* b, B const* o) { CE_CONSTRUCT_AT(b) B(*o); }
extern "C" void h_assign(B* b, B const* o) { *b = *o; }
extern "C" ce::size_t h_room(B const* b) { return b->room(); }
extern "C" ce::size_t h_capacity() { return B::capacity(); }
extern "C" X* h_begin(B* b) { return b->begin(); }
extern "C" X* h_end(B* b) { return b->end(); }
extern "C" X const* h_cbegin(B const* b) { return b->begin(); }
extern "C" X const* h_cend(B const* b) { return b->end(); }
extern "C" X* h_back(B* b) { return &b->back(); }
extern "C" X const* h_cback(B const* b) { return &b->back(); }
extern "C" X* h_index(B* b, ce::size_t i) { return &(*b)[i]; }
extern "C" X const* h_cindex(B const* b, ce::size_t i) { return &(*b)[i]; }
extern "C" X* h_span_begin(B* b) { return make_span(*b).begin(); }
extern "C" X* h_span_end(B* b) { return make_span(*b).end(); }
extern "C" X const* h_cspan_begin(B const* b) { return make_span(*b).begin(); }
extern "C" X const* h_cspan_end(B const* b) { return make_span(*b).end(); }
