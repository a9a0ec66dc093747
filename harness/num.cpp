#include "ce/ce.h"
#include "ce/math.h"
#include "ce/zorder.h"
using namespace ce;
using v2 = math::vec2<int32_t>;
using v3 = math::vec3<int32_t>;
using l2 = math::vec2<int64_t>;
extern "C"
{
    bool vf_z_split(uint64_t* r, uint64_t lo, uint64_t hi) { return z_split(lo, hi, r[0], r[1]); }
    uint64_t vf_z_expand(uint32_t n) { return z_expand(n); }
    uint64_t vf_z_encode(int32_t x, int32_t y) { return z_encode(x, y); }
    bool vf_z_inside(uint64_t lo, uint64_t hi, uint64_t z) { return z_inside(lo, hi, z); }

    int64_t vf_sqrx1(int32_t a) { return math::sqrx(a); }
    int64_t vf_dotx1(int32_t a, int32_t b) { return math::dotx(a, b); }
    int64_t vf_sqrx1l(int64_t a) { return math::sqrx(a); }
    int64_t vf_dotx1l(int64_t a, int64_t b) { return math::dotx(a, b); }
    int64_t vf_sqrx2(int32_t ax, int32_t ay) { return math::sqrx(v2{ ax, ay }); }
    int64_t vf_dotx2(int32_t ax, int32_t ay, int32_t bx, int32_t by) { return math::dotx(v2{ ax, ay }, v2{ bx, by }); }
    int64_t vf_crossx2(int32_t ax, int32_t ay, int32_t bx, int32_t by) { return math::crossx(v2{ ax, ay }, v2{ bx, by }); }
    int64_t vf_dotx3(int32_t ax, int32_t ay, int32_t az, int32_t bx, int32_t by, int32_t bz) { return math::dotx(v3{ ax, ay, az }, v3{ bx, by, bz }); }
    void vf_crossx3(int64_t* r, int32_t ax, int32_t ay, int32_t az, int32_t bx, int32_t by, int32_t bz)
    {
        auto c = math::crossx(v3{ ax, ay, az }, v3{ bx, by, bz });
        r[0] = c.x; r[1] = c.y; r[2] = c.z;
    }
    bool vf_inside(int32_t ax, int32_t ay, int32_t bx, int32_t by) { return math::inside(v2{ ax, ay }, v2{ bx, by }); }
    bool vf_insidel(int64_t ax, int64_t ay, int64_t bx, int64_t by) { return math::inside(l2{ ax, ay }, l2{ bx, by }); }
    bool vf_less(int64_t a, int64_t b, int64_t c, int64_t d) { return math::ab_less_cd(a, b, c, d); }
    bool vf_rr(int32_t x, int32_t y, int64_t rr) { return math::in_range_rr(x, y, rr); }
    bool vf_line(int32_t px, int32_t py, int64_t rr, int32_t dx, int32_t dy) { return math::in_range_rr_line(px, py, rr, dx, dy); }
    bool vf_edge(int32_t px, int32_t py, int64_t rr, int32_t dx, int32_t dy) { return math::in_range_rr_edge(px, py, rr, dx, dy); }
    bool vf_ray(int32_t px, int32_t py, int64_t rr, int32_t dx, int32_t dy) { return math::in_range_rr_ray(px, py, rr, dx, dy); }
    bool vf_segment(int32_t px, int32_t py, int64_t rr, int32_t dx, int32_t dy) { return math::in_range_rr_segment(px, py, rr, dx, dy); }
    bool vf_ball_edge(int32_t px, int32_t py, int64_t rr, int32_t ax, int32_t ay, int32_t bx, int32_t by) { return math::ball_hits_edge(v2{ px, py }, rr, v2{ ax, ay }, v2{ bx, by }); }
    bool vf_ball_ray(int32_t px, int32_t py, int64_t rr, int32_t ax, int32_t ay, int32_t bx, int32_t by) { return math::ball_hits_ray(v2{ px, py }, rr, v2{ ax, ay }, v2{ bx, by }); }
    int32_t vf_degrees(int32_t d) { return degrees_to_angle(d); }

    size_t vf_b64_size(size_t n) { return base64::size(n); }
    size_t vf_b64_count(char const s[]) { return base64::size(s); }
    void vf_b64_decode(size_t n, uint8_t d[], char const s[]) { base64::decode(n, d, s); }
    bool vf_is_base10(char a) { return ascii::is_base10(a); }
    bool vf_is_base16(char a) { return ascii::is_base16(a); }
    bool vf_is_base64(char a) { return ascii::is_base64(a); }
    bool vf_is_alpha(char a) { return ascii::is_alpha(a); }
    bool vf_is_upper(char a) { return ascii::is_upper(a); }
    bool vf_is_lower(char a) { return ascii::is_lower(a); }

    // components are passed one by one; the result is written component by component
#define VEC2(n, V, T) \
    void vf_##n##_add(T* r, T a, T b, T c, T d) { auto v = V{ a, b } + V{ c, d }; r[0] = v.x; r[1] = v.y; } \
    void vf_##n##_sub(T* r, T a, T b, T c, T d) { auto v = V{ a, b } - V{ c, d }; r[0] = v.x; r[1] = v.y; } \
    void vf_##n##_mul(T* r, T a, T b, T k) { auto v = V{ a, b } * k; r[0] = v.x; r[1] = v.y; } \
    void vf_##n##_div(T* r, T a, T b, T k) { auto v = V{ a, b } / k; r[0] = v.x; r[1] = v.y; } \
    bool vf_##n##_adda(T* r, T a, T b, T c, T d) { V v{ a, b }; auto& q = v += V{ c, d }; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_suba(T* r, T a, T b, T c, T d) { V v{ a, b }; auto& q = v -= V{ c, d }; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_mula(T* r, T a, T b, T k) { V v{ a, b }; auto& q = v *= k; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_diva(T* r, T a, T b, T k) { V v{ a, b }; auto& q = v /= k; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_mulxa(T* r, T a, T b) { V v{ a, b }; auto& q = v *= v.x; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_divxa(T* r, T a, T b) { V v{ a, b }; auto& q = v /= v.x; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_addva(T* r, T a, T b) { V v{ a, b }; auto& q = v += v; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_subva(T* r, T a, T b) { V v{ a, b }; auto& q = v -= v; r[0] = v.x; r[1] = v.y; return &q == &v; } \
    bool vf_##n##_eq(T a, T b, T c, T d) { return V{ a, b } == V{ c, d }; } \
    bool vf_##n##_ne(T a, T b, T c, T d) { return V{ a, b } != V{ c, d }; } \
    bool vf_##n##_eqs(T a, T b, T k) { return V{ a, b } == k; } \
    bool vf_##n##_nes(T a, T b, T k) { return V{ a, b } != k; }
#define VEC3(n, V, T) \
    void vf_##n##_add(T* r, T a, T b, T e, T c, T d, T f) { auto v = V{ a, b, e } + V{ c, d, f }; r[0] = v.x; r[1] = v.y; r[2] = v.z; } \
    void vf_##n##_sub(T* r, T a, T b, T e, T c, T d, T f) { auto v = V{ a, b, e } - V{ c, d, f }; r[0] = v.x; r[1] = v.y; r[2] = v.z; } \
    void vf_##n##_mul(T* r, T a, T b, T e, T k) { auto v = V{ a, b, e } * k; r[0] = v.x; r[1] = v.y; r[2] = v.z; } \
    void vf_##n##_div(T* r, T a, T b, T e, T k) { auto v = V{ a, b, e } / k; r[0] = v.x; r[1] = v.y; r[2] = v.z; } \
    bool vf_##n##_adda(T* r, T a, T b, T e, T c, T d, T f) { V v{ a, b, e }; auto& q = v += V{ c, d, f }; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_suba(T* r, T a, T b, T e, T c, T d, T f) { V v{ a, b, e }; auto& q = v -= V{ c, d, f }; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_mula(T* r, T a, T b, T e, T k) { V v{ a, b, e }; auto& q = v *= k; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_diva(T* r, T a, T b, T e, T k) { V v{ a, b, e }; auto& q = v /= k; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_mulxa(T* r, T a, T b, T e) { V v{ a, b, e }; auto& q = v *= v.x; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_divxa(T* r, T a, T b, T e) { V v{ a, b, e }; auto& q = v /= v.x; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_addva(T* r, T a, T b, T e) { V v{ a, b, e }; auto& q = v += v; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_subva(T* r, T a, T b, T e) { V v{ a, b, e }; auto& q = v -= v; r[0] = v.x; r[1] = v.y; r[2] = v.z; return &q == &v; } \
    bool vf_##n##_eq(T a, T b, T e, T c, T d, T f) { return V{ a, b, e } == V{ c, d, f }; } \
    bool vf_##n##_ne(T a, T b, T e, T c, T d, T f) { return V{ a, b, e } != V{ c, d, f }; } \
    bool vf_##n##_eqs(T a, T b, T e, T k) { return V{ a, b, e } == k; } \
    bool vf_##n##_nes(T a, T b, T e, T k) { return V{ a, b, e } != k; }
    VEC2(v2i, v2, int32_t)
    VEC2(v2l, l2, int64_t)
    VEC3(v3i, v3, int32_t)
    VEC3(v3l, math::vec3<int64_t>, int64_t)

    void vf_muldiv(int32_t* r, int32_t a, int32_t b, int32_t n, int32_t d) { auto v = math::muldiv(v2{ a, b }, n, d); r[0] = v.x; r[1] = v.y; }
    size_t vf_polygon(int32_t x, int32_t y, size_t n, v2 const ps[]) { return math::in_polygon(v2{ x, y }, n, ps); }
    size_t vf_polygonl(int64_t x, int64_t y, size_t n, l2 const ps[]) { return math::in_polygon(l2{ x, y }, n, ps); }
    size_t vf_polygon_xy(int32_t x, int32_t y, size_t n, v2 const ps[]) { return math::in_polygon_xy<int64_t>(x, y, n, ps); }
    bool vf_parallel(int32_t* r, int32_t ax, int32_t ay, int32_t bx, int32_t by, int32_t cx, int32_t cy, int32_t dx, int32_t dy)
    {
        v2 q{ 1, 2 };
        bool ok = math::intersect(v2{ ax, ay }, v2{ bx, by }, v2{ cx, cy }, v2{ dx, dy }, q);
        r[0] = ok ? 0 : q.x; r[1] = ok ? 0 : q.y;
        return ok;
    }
    void vf_rgba(int32_t* r, rgba<int32_t> const& v) { int32_t const (&a)[4] = v; for (int i = 0; i < 4; ++i) { r[i] = a[i]; r[4 + i] = v()[i]; } }
    bool vf_rgba_set(int32_t* r, int32_t a, int32_t b, int32_t c, int32_t d) { rgba<int32_t> v{ a, b, c, d }; for (int i = 0; i < 4; ++i) r[i] = v()[i]; return v.r == a && v.g == b && v.b == c && v.a == d; }
}
