#include <ce/sort.h>
#include "vf.h"
#if VF_ELEM == 1
using X = int;
#else
using X = E;
#endif
#ifndef VF_N
#define VF_N 128
#endif
extern "C" { X vf_e; }
extern "C" const ce::size_t layout[] = { sizeof(X) };
extern "C" void h_insertion(X* a, X* b) { ce::insertion_sort(a, b); }
extern "C" void h_intro(X* a, X* b) { ce::intro_sort<VF_N>(a, b); }
extern "C" void h_intro3(X* a, X* b, ce::size_t n) { ce::intro_sort<VF_N>(a, b, n); }
extern "C" X* h_partition(X* a, X* b) { return ce::partition(a, b); }
extern "C" void h_median(X* a, X* b, X* c) { ce::median(*a, *b, *c); }
