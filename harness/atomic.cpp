// instantiations for C22
#include "ce/atomic_std.h"
#include "vf.h"
#include <new>
#ifndef VF_T
#define VF_T int
#endif
#ifndef VF_KIND
#define VF_KIND 3
#endif
struct vf_pair { unsigned a; bool operator==(vf_pair const& o) const { return a == o.a; } };
using vf_ptr = int*;
enum class vf_en : unsigned short { A, B };
using vf_t = VF_T;
using A = ce::atomic<vf_t>;
#ifndef VF_V
#define VF_V vf_t
#endif
using vf_v = VF_V;
extern "C" {
A vf_a;
vf_t vf_x;
extern unsigned long long const layout[]; unsigned long long const layout[] = { sizeof(A), sizeof(vf_t) };
vf_t h_load(A const& a) { return ce::atomic_load(a); }
void h_store(A& a, vf_t v) { ce::atomic_store(a, v); }
vf_t h_exchange(A& a, vf_t v) { return ce::atomic_exchange(a, v); }
bool h_cas(A& a, vf_t& e, vf_t v) { return ce::atomic_compare_exchange(a, e, v); }
#if VF_KIND >= 2
vf_t h_add(A& a, vf_v v) { return ce::atomic_fetch_add(a, v); }
vf_t h_sub(A& a, vf_v v) { return ce::atomic_fetch_sub(a, v); }
#endif
#if VF_KIND >= 3
vf_t h_xor(A& a, vf_t v) { return ce::atomic_fetch_xor(a, v); }
vf_t h_and(A& a, vf_t v) { return ce::atomic_fetch_and(a, v); }
vf_t h_or(A& a, vf_t v) { return ce::atomic_fetch_or(a, v); }
#endif
void h_ctor(A* p, vf_t v) { ::new ((void*)p) A(v); }
void h_zero(A* p) { ::new ((void*)p) A(); }
}

#ifdef VF_WITNESS
#include <type_traits>
static_assert(!std::is_copy_constructible_v<A>, "an atomic can be copied");
static_assert(!std::is_move_constructible_v<A>, "an atomic can be moved");
static_assert(!std::is_copy_assignable_v<A>, "an atomic can be copy assigned");
static_assert(!std::is_move_assignable_v<A>, "an atomic can be move assigned");
static_assert(sizeof(A) == sizeof(vf_t), "an atomic is larger than its value");
#endif
