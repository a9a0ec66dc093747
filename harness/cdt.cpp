// every public operation of the triangulation, instantiated for one capacity and scale
#include "ce/cdt.h"

#ifndef VF_Q
#define VF_Q 0
#endif
#ifndef VF_N
#define VF_N 8192
#endif

using M = ce::cdt<VF_Q, VF_N>;
using ce::vec2;
using i64 = ce::int64_t;

void vf_edge(M::edge const&);
void vf_face(M::face const&);

extern "C"
{
    extern size_t const layout[];
    size_t const layout[] =
    {
        VF_Q, M::c_limit, sizeof(M), __builtin_offsetof(M, size), __builtin_offsetof(M, es), sizeof(M::edge_data), sizeof(M::vert_data),
        __builtin_offsetof(M::edge, u), __builtin_offsetof(M::edge, v), __builtin_offsetof(M::edge, primary), __builtin_offsetof(M::edge, constrained), sizeof(M::edge),
        __builtin_offsetof(M::face, ps), __builtin_offsetof(M::face, es), __builtin_offsetof(M::face, cs), __builtin_offsetof(M::face, data), sizeof(M::face),
    };

    void x_reset(M& m) { m.reset(); }
    bool x_flip(M& m, size_t e) { return m.flip(e); }
    bool x_try_flip(M& m, size_t e) { return m.try_flip(e); }
    bool x_incircle(M const& m, size_t f, size_t v) { return m.incircle(f, v); }
    bool x_can_flip(M const& m, size_t e) { return m.can_flip(e); }
    size_t x_insert_node(M& m, i64 x, i64 y, size_t n) { return m.insert_point_at_node(x, y, n); }
    size_t x_insert(M& m, i64 x, i64 y, size_t hint) { return m.insert_point(x, y, hint); }
    bool x_insert_v(M& m, vec2<ce::int32_t> const& p, size_t hint) { return m.insert_point(p, hint); }
    void x_constrain(M& m, size_t e) { m.constrain_edge(e); }
    bool x_insert_edge(M& m, i64 px, i64 py, i64 qx, i64 qy, size_t hint) { return m.insert_edge(px, py, qx, qy, hint); }
    bool x_insert_edge_v(M& m, vec2<ce::int32_t> const& p, vec2<ce::int32_t> const& q, size_t hint) { return m.insert_edge(p, q, hint); }
    size_t x_locate_node(M const& m, i64 x, i64 y, size_t hint) { return m.locate_insertion_node(x, y, hint); }
    unsigned x_locate(M const& m, ce::int32_t x, ce::int32_t y, unsigned hint) { return m.locate(x, y, hint); }
    unsigned x_locate_v(M const& m, vec2<ce::int32_t> const& p, unsigned hint) { return m.locate(p, hint); }
    void x_fill(M& m, unsigned n, ce::uint16_t info) { m.fill(n, info); }
    void x_fill_ex(M& m, unsigned f, ce::uint16_t info) { m.fill_ex(f, info); }
    void x_edge(M const& m, ce::uint16_t e) { vf_edge(m[M::edge_id_t(e)]); }
    void x_face(M const& m, ce::uint16_t f) { vf_face(m[M::face_id_t(f)]); }
    void x_edges(M const& m) { for (auto e : m.edges()) vf_edge(e); }
    void x_faces(M const& m) { for (auto f : m.faces()) vf_face(f); }
    [[gnu::flatten]] int x_vert_a(M const& m, unsigned e, int k) { auto v = m.edge_vert_a(e); return k ? v.y : v.x; }
    [[gnu::flatten]] int x_vert_b(M const& m, unsigned e, int k) { auto v = m.edge_vert_b(e); return k ? v.y : v.x; }
    [[gnu::flatten]] int x_vert_o(M const& m, unsigned e, int k) { auto v = m.edge_vert_o(e); return k ? v.y : v.x; }
    size_t x_next_edge(size_t e) { return M::next_edge(e); }
}
