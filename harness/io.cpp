// a walk over every kind of reflected object; the hooks of the IO class are external calls
#include "ce/ce.h"
#include "ce/io.h"
using namespace ce;

extern "C" void vf_enter(size_t*, bool);
extern "C" void vf_leave(size_t*, bool);
extern "C" void vf_open();
extern "C" void vf_close();
extern "C" void vf_name(char const*);
extern "C" void vf_atom(void*, size_t);

struct IO : io<IO>
{
    void enter_class() { vf_open(); }
    void leave_class() { vf_close(); }
    void enter_array(size_t& n, bool d) { vf_enter(&n, d); }
    void leave_array(size_t& n, bool d) { vf_leave(&n, d); }
    void name(char const* n) { vf_name(n); }
    template<class T> void atom(T& data) { vf_atom(&data, sizeof(T)); }
};

struct one { int only; };
struct leaf { short a; vec2<int> p; int arr[3]; };
struct twice { double second; char first; };
struct tree { char c; leaf in; unsigned grid[2][3]; vec3<float> v; vec4<short> w; twice t[2]; bool last; };
struct bag { int before; list<leaf, 4> many; int after; };
struct raw { size_t count; int* items; };
struct eight { int a, b, c, d, e, f, g, hh; };
struct wide { short a, bb, ccc_3, _d, a_rather_long_member_name_that_goes_on, F, g7, h_, iiii, j, k, lllllllllllllllll, m, n0, o, p, q, rst, u, last_of_them; };
CE_IO_BIND(wide, a,  bb,  ccc_3,  _d,  a_rather_long_member_name_that_goes_on,  F,  g7,  h_,  iiii,  j,k,lllllllllllllllll,m,n0,o,p,q,rst,u,last_of_them);
CE_IO_BIND(one, only);
CE_IO_BIND(leaf, a, p, arr);
CE_IO_BIND(twice,first ,  second  );
CE_IO_BIND(tree, c, in, grid, v, w, t, last);
CE_IO_BIND(bag, before, many, after);
CE_IO_BIND(eight, a, b, c, d, e, f, g, hh);
struct pt { vec2<int> at; };
CE_IO_AS(pt, int[2]);
template<> struct ce::reflection<raw> : raw { template<class IO> void io_self(IO& io) { io.items(this->count, this->items); } };

#define FN(T) extern "C" void vf_io_##T(IO& io, T& x) { io.item(x); }
FN(one) FN(leaf) FN(twice) FN(tree) FN(bag) FN(raw) FN(eight) FN(wide) FN(pt)
extern "C" void vf_io_ints(IO& io, list<int, 7>& x) { io.item(x); }
extern "C" void vf_io_int(IO& io, int& x) { io.item(x); }
extern "C" void vf_io_points(IO& io, vec2<long long> (&x)[2]) { io.item(x); }

// arrays of every length up to 9 (and some longer ones) of values of every size; containers of every capacity
template<size_t S> struct cell { char data[S]; };
using i8 = signed char; using u8 = unsigned char; using i16 = short; using i32 = int; using i64 = long long; using f32 = float; using f64 = double; using ptr = void*; using c3 = cell<3>; using c12 = cell<12>; using c40 = cell<40>;
#define ARR(T, N) extern "C" void vf_io_arr_##T##_##N(IO& io, T (&x)[N]) { io.item(x); }
#define LST(T, N) extern "C" void vf_io_lst_##T##_##N(IO& io, list<T, N>& x) { io.item(x); }
#define EACH(M, T) M(T, 1) M(T, 2) M(T, 3) M(T, 4) M(T, 5) M(T, 6) M(T, 7) M(T, 8) M(T, 9) M(T, 16) M(T, 17) M(T, 33)
EACH(ARR, i8) EACH(ARR, u8) EACH(ARR, i16) EACH(ARR, i32) EACH(ARR, i64) EACH(ARR, f32) EACH(ARR, f64) EACH(ARR, ptr) EACH(ARR, bool) EACH(ARR, c3) EACH(ARR, c12) EACH(ARR, c40)
EACH(LST, i8) EACH(LST, u8) EACH(LST, i16) EACH(LST, i32) EACH(LST, i64) EACH(LST, f64) EACH(LST, ptr) EACH(LST, bool) EACH(LST, c3) EACH(LST, c12) EACH(LST, c40)
#define VEC(N) extern "C" void vf_io_vec_i16_##N(IO& io, vec<N, i16>& x) { io.item(x); } extern "C" void vf_io_vec_f64_##N(IO& io, vec<N, f64>& x) { io.item(x); }
VEC(1) VEC(3) VEC(4)

#define AT(T, M) __builtin_offsetof(T, M)
extern "C" const size_t layout[];
const size_t layout[] = {
    AT(leaf, a), AT(leaf, p), AT(leaf, arr), sizeof(leaf),
    AT(twice, second), AT(twice, first), sizeof(twice),
    AT(tree, c), AT(tree, in), AT(tree, grid), AT(tree, v), AT(tree, w), AT(tree, t), AT(tree, last),
    AT(bag, before), AT(bag, many), AT(bag, after),
    AT(bag, many.size), AT(bag, many.data), sizeof(list<leaf, 4>) / sizeof(leaf),
};
