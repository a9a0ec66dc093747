#include <ce/ce.h>
#ifndef VF_N
#define VF_N 13
#endif
using B = ce::bitset<VF_N>;
extern "C" { B vf_b; }
extern "C" const ce::size_t layout[] = { sizeof(B), VF_N };
extern "C" bool h_get(B const* b, ce::size_t i) { return (*b)[i]; }
extern "C" void h_set(B* b, ce::size_t i) { b->set(i); }
extern "C" void h_reset(B* b, ce::size_t i) { b->reset(i); }
extern "C" void h_put1(B* b, ce::size_t i) { b->set(i, true); }
extern "C" void h_put0(B* b, ce::size_t i) { b->set(i, false); }
extern "C" void h_set_all(B* b) { b->set(); }
extern "C" void h_reset_all(B* b) { b->reset(); }
extern "C" ce::size_t h_size(B const* b) { return b->get_size(); }
