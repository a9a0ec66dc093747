#include "ce/zorder.h"
extern "C" ce::size_t h_query(ce::uint64_t* out, ce::uint64_t lo, ce::uint64_t hi, ce::size_t n, ce::uint64_t const* data) { return ce::z_query(out, lo, hi, n, data); }
extern "C" [[gnu::flatten]] ce::size_t x_query(ce::uint64_t* out, ce::uint64_t lo, ce::uint64_t hi, ce::size_t n, ce::uint64_t const* data) { return ce::z_query(out, lo, hi, n, data); }
extern "C" { ce::uint64_t vf_u64; }
extern "C" const ce::size_t layout[] = { 8 };
