#include <ce/sort.h>
#include <ce/zorder.h>
#include "vf.h"
using u64 = ce::uint64_t;
extern "C" { E vf_e; }
extern "C" u64 const* h_lower_u(u64 const* a, u64 const* b, u64 k) { return ce::lower_bound(a, b, k); }
extern "C" u64 const* h_upper_u(u64 const* a, u64 const* b, u64 k) { return ce::upper_bound(a, b, k); }
extern "C" int const* h_lower_i(int const* a, int const* b, int k) { return ce::lower_bound(a, b, k); }
extern "C" int const* h_upper_i(int const* a, int const* b, int k) { return ce::upper_bound(a, b, k); }
extern "C" E const* h_lower_e(E const* a, E const* b, E const* k) { return ce::lower_bound(a, b, *k); }
extern "C" E const* h_upper_e(E const* a, E const* b, E const* k) { return ce::upper_bound(a, b, *k); }
extern "C" u64 const* h_lower_z(u64 const* a, u64 const* b, u64 k) { return ce::z_lower_bound(a, b, k); }
