#include <ce/clock.h>
#ifndef VF_FN
#define VF_FN 60
#endif
#ifndef VF_FD
#define VF_FD 1
#endif
using C = ce::clock<VF_FN, VF_FD>;
extern "C" { C vf_c; }
extern "C" const ce::size_t layout[] = { __builtin_offsetof(C, frequency), __builtin_offsetof(C, timestamp), __builtin_offsetof(C, residual), __builtin_offsetof(C, tick), VF_FN, VF_FD };
extern "C" void h_reset(C* c) { c->reset(); }
extern "C" ce::uint64_t h_elapsed(C* c) { return c->elapsed(); }
extern "C" ce::uint64_t h_current(C* c) { return c->current(); }
