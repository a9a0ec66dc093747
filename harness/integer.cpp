// entry points of everything that C33 promises to be integer-only and deterministic
#include "ce/ce.h"
#include "ce/cdt.h"
#include "ce/zorder.h"
#include "ce/math.h"
#include "ce/clock.h"
#include "ce/lziii.h"
#include "ce/sort.h"
using namespace ce;
using v2 = vec2<int32_t>;
#ifndef VF_TYPES_ONCE
template struct ce::cdt<>;
template struct ce::cdt<4, 64>;
#endif
extern "C" uint64_t h_zx(uint32_t n) { return z_expand(n); }
extern "C" uint64_t h_ze(int32_t x, int32_t y) { return z_encode(x, y); }
extern "C" bool h_zi(uint64_t a, uint64_t b, uint64_t c) { return z_inside(a, b, c); }
extern "C" bool h_zs(uint64_t a, uint64_t b, uint64_t* c, uint64_t* d) { return z_split(a, b, *c, *d); }
extern "C" uint64_t const* h_zl(uint64_t const* a, uint64_t const* b, uint64_t c) { return z_lower_bound(a, b, c); }
extern "C" size_t h_zq(uint64_t* o, uint64_t a, uint64_t b, size_t n, uint64_t const* d) { return z_query(o, a, b, n, d); }
extern "C" bool h_p0(int64_t a, int64_t b, int64_t c, int64_t d) { return ab_less_cd(a, b, c, d); }
extern "C" bool h_p1(int32_t a, int32_t b, int64_t r) { return in_range_rr(a, b, r); }
extern "C" bool h_p2(int32_t a, int32_t b, int64_t r, int32_t c, int32_t d) { return in_range_rr_line(a, b, r, c, d) || in_range_rr_edge(a, b, r, c, d) || in_range_rr_ray(a, b, r, c, d) || in_range_rr_segment(a, b, r, c, d); }
extern "C" bool h_p3(v2 const& a, int64_t r, v2 const& b, v2 const& c) { return ball_hits_edge(a, r, b, c) || ball_hits_ray(a, r, b, c) || inside(a, b) || sqrx(a) < dotx(a, b) || crossx(a, b) < 0; }
extern "C" bool h_p4(v2 const& a, v2 const& b, v2 const& c, v2& d) { v2 ps[3] = { a, b, c }; return intersect(a, b, c, b, d) || in_polygon(d, 3, ps); }
extern "C" v2 h_md(v2 const& a, int32_t n, int32_t d) { return muldiv(a, n, d); }
extern "C" v2 h_md6(v2 const& a, int64_t n, int64_t d) { return muldiv(a, n, d); }
extern "C" v2 h_c0(int32_t a, int32_t b, int32_t c) { return cordic::rotate(a, b, c); }
extern "C" v2 h_c1(int32_t a, int32_t b, int32_t c) { return cordic::vector(a, b, c); }
extern "C" v2 h_c2(int32_t a, int32_t b) { return to_cartesian(a, b); }
extern "C" v2 h_c3(int32_t a, int32_t b) { return to_polar(a, b); }
extern "C" int32_t h_c4(int32_t a, int32_t b) { return cos_2pi(a, b); }
extern "C" int32_t h_c5(int32_t a, int32_t b) { return sin_2pi(a, b); }
extern "C" int32_t h_c6(int32_t a, int32_t b) { return polar_mag(a, b); }
extern "C" int32_t h_c7(int32_t a, int32_t b) { return polar_ang(a, b); }
extern "C" int32_t h_c8(int32_t a, int32_t b) { return atan2_2pi(a, b); }
extern "C" int32_t h_c9(int32_t a) { return degrees_to_angle(a); }
