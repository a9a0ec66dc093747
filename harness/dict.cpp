#include <ce/dictionary.h>
#include "vf.h"
#ifndef VF_N
#define VF_N 8
#endif
using K = unsigned long;
using D = ce::dictionary<VF_N, E, K>;
using P = D::ptr_t;
extern "C" { extern E const vf_e; }
extern "C" const ce::size_t layout[] = { sizeof(D), __builtin_offsetof(D, size), __builtin_offsetof(D, data), __builtin_offsetof(D, heap), __builtin_offsetof(D, names), sizeof(E), VF_N };
extern "C" P h_find(D const* d, K n) { return d->find(n); }
extern "C" P h_bind0(D* d, K n) { return d->bind(n); }
extern "C" P h_bind1(D* d, K n, E const* e) { return d->bind(n, *e); }
extern "C" E* h_at_ptr(D* d, P p) { return &(*d)[p]; }
extern "C" E const* h_cat_ptr(D const* d, P p) { return &(*d)[p]; }
extern "C" E* h_at_name(D* d, K n) { return &(*d)[n]; }
extern "C" E const* h_cat_name(D const* d, K n) { return &(*d)[n]; }
extern "C" void h_optimize(D* d) { d->optimize(); }
