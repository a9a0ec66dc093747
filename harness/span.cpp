#include <ce/ce.h>
struct E12 { unsigned w[3]; };
using S = ce::span<E12>;
using C = ce::span<E12 const>;
extern "C" { S vf_s; E12 vf_e; }
extern "C" const ce::size_t layout[] = { sizeof(S), __builtin_offsetof(S, size), __builtin_offsetof(S, data), sizeof(E12) };
extern "C" void h_skip(S const* s, S* out, ce::size_t n) { *out = skip(*s, n); }
extern "C" void h_trim(S const* s, S* out, ce::size_t n) { *out = trim(*s, n); }
extern "C" E12* h_begin(S* s) { return s->begin(); }
extern "C" E12* h_end(S* s) { return s->end(); }
extern "C" E12 const* h_cbegin(S const* s) { return s->begin(); }
extern "C" E12 const* h_cend(S const* s) { return s->end(); }
extern "C" E12 const* h_ccbegin(C const* s) { return s->begin(); }
extern "C" E12 const* h_ccend(C const* s) { return s->end(); }
