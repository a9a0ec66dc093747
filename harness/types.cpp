// C34: compile-time obligations. Each group must build; <type_traits>, <utility> and the language are the oracle.
#include <type_traits>
#include <utility>
#include <cstddef>
#include "ce/ce.h"
#include "ce/atomic.h"
#include "ce/cdt.h"
#include "ce/clock.h"
#include "ce/dictionary.h"
#include "ce/io.h"
#include "ce/lziii.h"
#include "ce/math.h"
#include "ce/mutex.h"
#include "ce/nameof.h"
#include "ce/pool.h"
#include "ce/sort.h"
#include "ce/zorder.h"

#define SAME(...) static_assert(std::is_same<__VA_ARGS__>::value, #__VA_ARGS__)
#define T_(...) static_assert(__VA_ARGS__, #__VA_ARGS__)

#ifndef VF_TYPES_ONCE
#define VF_TYPES_ONCE
enum class e8 : unsigned char { a };
enum e32 { b };
struct small { int x; };
struct big { int x[5]; };
struct edge16 { char c[16]; };
struct edge17 { char c[17]; };
struct nontriv { nontriv(nontriv const&) {} nontriv() {} int x; };
struct nodef { int v; explicit nodef(int); nodef(nodef const&); nodef& operator=(nodef const&); ~nodef(); };
struct incomplete;
#endif

#if VF_G == 0 // sequences
template<class T, std::size_t... I> constexpr ce::items<T, T(I)...> conv(std::index_sequence<I...>);
template<class T, std::size_t N> constexpr bool seq_ok() { return std::is_same<ce::sequence_t<T, N>, decltype(conv<T>(std::make_index_sequence<N>{}))>::value && std::is_same<typename ce::sequence<T, N>::type, ce::sequence_t<T, N>>::value; }
template<std::size_t... N> constexpr bool all_ok(std::index_sequence<N...>) { return ((seq_ok<ce::size_t, N>() && seq_ok<int, N>() && seq_ok<short, N>()) && ...); }
T_(all_ok(std::make_index_sequence<250>{}));
T_(seq_ok<ce::size_t, 511>()); T_(seq_ok<ce::size_t, 512>()); T_(seq_ok<ce::size_t, 513>()); T_(seq_ok<ce::size_t, 1023>()); T_(seq_ok<ce::size_t, 1024>());
T_(seq_ok<unsigned, 1025>()); T_(seq_ok<long long, 2000>()); T_(seq_ok<ce::uint16_t, 4097>());
T_(ce::sequence_t<ce::size_t, 0>::count == 0); T_(ce::sequence_t<ce::size_t, 7>::count == 7); T_(ce::sequence_t<ce::size_t, 256>::count == 256);
T_(ce::items<int>::count == 0); T_(ce::items<int, 9>::count == 1); T_(ce::items<int, 9>::value == 9); T_(ce::items<int, 9, 9, 8>::count == 3);
constexpr auto& iv = ce::items_v<int, 3, 1, 2>;
T_(sizeof(iv) == 3 * sizeof(int) && iv[0] == 3 && iv[1] == 1 && iv[2] == 2);
#endif

#if VF_G == 1 // packs
T_(ce::types<>::count == 0); T_(ce::types<int>::count == 1); T_(ce::types<int, int, char>::count == 3);
SAME(ce::types<>::car_t, void); SAME(ce::types<>::cdr_t, void);
SAME(ce::car_t<int, char>, int); SAME(ce::cdr_t<int, char, long>, ce::types<char, long>); SAME(ce::cdr_t<int>, ce::types<>);
SAME(ce::types<int, char>::car_t, int); SAME(ce::types<int, char>::cdr_t, ce::types<char>);
SAME(ce::identity_t<int[3]>, int[3]);
SAME(ce::select_t<0, int, char, long>, int); SAME(ce::select_t<1, int, char, long>, char); SAME(ce::select_t<2, int, char, long>, long); SAME(ce::select_t<0, incomplete&>, incomplete&);
SAME(ce::cond_t<true, int, char>, int); SAME(ce::cond_t<false, int, char>, char);
SAME(ce::enable_t<true>, void); SAME(ce::enable_t<true, int>, int);
template<class T, class = void> struct en_ok : std::false_type {};
template<class T> struct en_ok<T, std::void_t<ce::enable_t<T::value, int>>> : std::true_type {};
T_(en_ok<std::true_type>::value); T_(!en_ok<std::false_type>::value);
T_(!ce::are_same<>::value); T_(ce::are_same<int>::value); T_(ce::are_same<int, int>::value); T_(ce::are_same<int, int, int, int>::value);
T_(!ce::are_same<int, char>::value); T_(!ce::are_same<int, int, char>::value); T_(!ce::are_same<char, int, int>::value); T_(!ce::are_same<int, char, int>::value); T_(!ce::are_same<int, int const>::value); T_(!ce::are_same<int, int&>::value);
T_(ce::are_same_v<int, int> && !ce::are_same_v<int, long>);
T_(!ce::are_same<int, int, int, char>::value); T_(!ce::are_same<int, int, char, int>::value);
T_(ce::is_same<int, int>::value); T_(!ce::is_same<int, unsigned>::value); T_(ce::is_same_v<int*, int*>); T_(!ce::is_same_v<int*, int const*>);
SAME(ce::enable_same_t<int, int, int>, int);
template<class V, class A, class B> struct es_ok : std::false_type {};
template<class A, class B> struct es_ok<std::void_t<ce::enable_same_t<A, B>>, A, B> : std::true_type {};
T_(es_ok<void, int, int>::value); T_(!es_ok<void, int, char>::value);
T_(!ce::has<>::value); T_(!ce::has<int>::value); T_(ce::has<int, int>::value); T_(ce::has<int, char, int>::value); T_(ce::has<int, char, int, long>::value); T_(ce::has<int, char, long, int>::value); T_(!ce::has<int, char, long>::value); T_(!ce::has<int, int const>::value);
T_(ce::has_v<int, char, int> && !ce::has_v<int, char>);
T_(ce::tuple<>::count == 0 && ce::tuple<int>::count == 1 && ce::tuple<int, char>::count == 2 && ce::tuple<int, char, long>::count == 3 && ce::tuple<int, char, long, e8>::count == 4);
SAME(decltype(ce::tuple<int, char, long, e8>::_0), int); SAME(decltype(ce::tuple<int, char, long, e8>::_1), char); SAME(decltype(ce::tuple<int, char, long, e8>::_2), long); SAME(decltype(ce::tuple<int, char, long, e8>::_3), e8);
SAME(decltype(ce::tuple<int, char, long>::_0), int); SAME(decltype(ce::tuple<int, char, long>::_1), char); SAME(decltype(ce::tuple<int, char, long>::_2), long);
SAME(decltype(ce::tuple<int, char>::_0), int); SAME(decltype(ce::tuple<int, char>::_1), char); SAME(decltype(ce::tuple<int>::_0), int);
SAME(ce::box<int>, ce::tuple<int>); SAME(ce::pair<int, char>, ce::tuple<int, char>);
struct m1 { int a; }; struct m2 { int a; char* b; }; struct m3 { int a; long b; short c; }; struct m4 { int a; e8 b; long c; double d; };
SAME(decltype(ce::get<0>(m1{})), int); SAME(decltype(ce::get<0>(m2{})), int); SAME(decltype(ce::get<1>(m2{})), char*);
SAME(decltype(ce::get<0>(m3{})), int); SAME(decltype(ce::get<1>(m3{})), long); SAME(decltype(ce::get<2>(m3{})), short);
SAME(decltype(ce::get<0>(m4{})), int); SAME(decltype(ce::get<1>(m4{})), e8); SAME(decltype(ce::get<2>(m4{})), long); SAME(decltype(ce::get<3>(m4{})), double);
template<std::size_t> using cond_int = int;
template<std::size_t D, std::size_t... J> constexpr bool one_differs(std::index_sequence<J...>) { return !ce::are_same<int, std::conditional_t<J == D, unsigned, int>...>::value && !ce::are_same<std::conditional_t<J == D, unsigned, int>..., int>::value; }
// the same for every position in packs of every length up to 24 (a different type at every position; duplicates only where asked for)
template<std::size_t N> struct tag {};
template<std::size_t N, std::size_t... J> constexpr bool packs_n(std::index_sequence<J...>)
{
    return ce::types<tag<J>...>::count == N
        && (std::is_same<ce::select_t<J, tag<J>...>, tag<J>>::value && ...)
        && (std::is_same<ce::select_t<J, tag<J>..., int, char>, tag<J>>::value && ...)
        && std::is_same<ce::select_t<N, tag<J>..., int, char>, int>::value && std::is_same<ce::select_t<N + 1, tag<J>..., int, char>, char>::value
        && (ce::has<tag<J>, tag<J>...>::value && ...) && (ce::has_v<tag<J>, tag<J>..., tag<J>...> && ...) && !ce::has<int, tag<J>...>::value && !ce::has<tag<N>, tag<J>...>::value
        && ce::has<int, tag<J>..., int>::value && ce::has<int, int, tag<J>...>::value && !(ce::has<tag<J> const, tag<J>...>::value || ...)
        && ce::are_same<int, cond_int<J>...>::value && ce::are_same_v<cond_int<J>..., int> && (N == 0 || !ce::are_same<int, cond_int<J>..., char>::value)
        && (one_differs<J>(std::index_sequence<J...>{}) && ...)
        && std::is_same<ce::car_t<int, tag<J>...>, int>::value && std::is_same<ce::cdr_t<int, tag<J>...>, ce::types<tag<J>...>>::value;
}
template<std::size_t... N> constexpr bool packs(std::index_sequence<N...>) { return (packs_n<N>(std::make_index_sequence<N>{}) && ...); }
T_(packs(std::make_index_sequence<24>{}));
#endif

#if VF_G == 2 // traits
#define FOR_TYPES(M) M(int) M(int const) M(int volatile) M(int const volatile) M(int&) M(int const&) M(int volatile&) M(int const volatile&) M(int&&) M(int const&&) M(int*) M(int* const) M(int* volatile) M(int* const volatile) M(int const*) M(int const* const) M(int**) M(void*) M(void const* const) M(int*&) M(int* const&) M(int*&&) M(e8) M(e32) M(small) M(big const&) M(void) M(void const) M(incomplete) M(incomplete&) M(decltype(nullptr)) M(int(*)(int)) M(int(&)(int)) M(bool) M(double const volatile&&) M(unsigned long) M(char[4]) M(char const(&)[4]) M(int small::*)
#define CK(...) SAME(ce::remove_reference_t<__VA_ARGS__>, std::remove_reference_t<__VA_ARGS__>); SAME(ce::remove_const_t<__VA_ARGS__>, std::remove_const_t<__VA_ARGS__>); SAME(ce::remove_volatile_t<__VA_ARGS__>, std::remove_volatile_t<__VA_ARGS__>); SAME(ce::remove_cv_t<__VA_ARGS__>, std::remove_cv_t<__VA_ARGS__>); SAME(ce::remove_cvref_t<__VA_ARGS__>, std::remove_cv_t<std::remove_reference_t<__VA_ARGS__>>); SAME(ce::remove_pointer_t<__VA_ARGS__>, std::remove_pointer_t<__VA_ARGS__>); T_(ce::is_ptr<__VA_ARGS__>::value == std::is_pointer<std::remove_reference_t<__VA_ARGS__>>::value); T_(ce::is_unqualified_ptr<__VA_ARGS__>::value == (std::is_pointer<__VA_ARGS__>::value && !std::is_const<__VA_ARGS__>::value && !std::is_volatile<__VA_ARGS__>::value)); T_(ce::is_same_v<__VA_ARGS__, __VA_ARGS__>);
FOR_TYPES(CK)
T_(ce::is_enum<e8>::value && ce::is_enum<e32>::value && !ce::is_enum<int>::value && !ce::is_enum<small>::value && !ce::is_enum<e8*>::value && !ce::is_enum<bool>::value);
SAME(ce::underlying_type_t<e8>, unsigned char); SAME(ce::underlying_type_t<e32>, std::underlying_type_t<e32>);
#define PBV(...) T_(ce::is_trivially_pass_by_value<__VA_ARGS__>::value == (std::is_trivially_copyable<__VA_ARGS__>::value && sizeof(__VA_ARGS__) <= 16)); SAME(ce::best_pass_by_value_t<__VA_ARGS__>, std::conditional_t<(std::is_trivially_copyable<__VA_ARGS__>::value && sizeof(__VA_ARGS__) <= 16), __VA_ARGS__, __VA_ARGS__ const&>);
PBV(int) PBV(small) PBV(big) PBV(edge16) PBV(edge17) PBV(nontriv) PBV(char*) PBV(e8) PBV(long double) PBV(double) PBV(nodef)
SAME(ce::uint8_t, unsigned char); SAME(ce::int8_t, signed char); SAME(ce::uint16_t, unsigned short); SAME(ce::int16_t, short);
T_(sizeof(ce::uint8_t) == 1 && sizeof(ce::uint16_t) == 2 && sizeof(ce::uint32_t) == 4 && sizeof(ce::uint64_t) == 8 && sizeof(ce::int8_t) == 1 && sizeof(ce::int16_t) == 2 && sizeof(ce::int32_t) == 4 && sizeof(ce::int64_t) == 8);
T_(std::is_unsigned<ce::uint8_t>::value && std::is_unsigned<ce::uint16_t>::value && std::is_unsigned<ce::uint32_t>::value && std::is_unsigned<ce::uint64_t>::value && std::is_signed<ce::int8_t>::value && std::is_signed<ce::int16_t>::value && std::is_signed<ce::int32_t>::value && std::is_signed<ce::int64_t>::value);
SAME(ce::size_t, std::size_t); SAME(ce::ptrdiff_t, std::ptrdiff_t); SAME(ce::uint, unsigned);
T_(ce::is_constructible_with<nodef, nodef>::value && !ce::is_constructible_with<nodef>::value && ce::is_constructible_with<int>::value && ce::is_constructible_with<int, int>::value && ce::is_constructible_with<small>::value);
struct noc { noc() = default; noc(noc const&) = delete; noc& operator=(noc const&) = default; };
T_(!ce::is_constructible_with<noc, noc>::value && ce::is_constructible_with<noc>::value);
T_(ce::measure<bool>::value >= 4 && ce::measure<char>::value >= 1 && ce::measure<signed char>::value >= 4 && ce::measure<unsigned char>::value >= 3 && ce::measure<short>::value >= 6 && ce::measure<unsigned short>::value >= 5 && ce::measure<int>::value >= 11 && ce::measure<unsigned>::value >= 10 && ce::measure<long>::value >= 20 && ce::measure<unsigned long>::value >= 20 && ce::measure<long long>::value >= 20 && ce::measure<unsigned long long>::value >= 20);
T_(ce::measure<int&>::value == ce::measure<int>::value && ce::measure<int const>::value == ce::measure<int>::value && ce::measure<int volatile&>::value == ce::measure<int>::value && ce::measure<int const volatile>::value == ce::measure<int>::value);
T_(ce::measure<char[7]>::value == 7 && ce::measure<char const(&)[7]>::value == 7 && ce::measure<int, char, short>::value == ce::measure<int>::value + ce::measure<char>::value + ce::measure<short>::value);
#endif

#if VF_G == 3 // counts and preprocessor
int a1[1]; int a7[7]; char const s5[] = "abcd"; int a23[2][3];
T_(CE_COUNTOF(a1) == 1 && CE_COUNTOF(a7) == 7 && CE_COUNTOF(s5) == 5 && CE_COUNTOF("xyz") == 4 && CE_COUNTOF(a23) == 2 && CE_COUNTOF(a23[0]) == 3);
int v0; char v1; small v2;
T_(CE_COUNTOF_ARGS() == 0 && CE_COUNTOF_ARGS(v0) == 1 && CE_COUNTOF_ARGS(v0, v1) == 2 && CE_COUNTOF_ARGS(v0, v1, v2) == 3 && CE_COUNTOF_ARGS(v0, v1, v2, 4, 5, 6, 7, 8, 9, 10) == 10 && CE_COUNTOF_ARGS("a,b", ',') == 2 && CE_COUNTOF_ARGS(a7, s5, (1, 2)) == 3);
T_(CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) == 11 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11) == 12 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) == 13 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) == 14 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14) == 15 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) == 16 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16) == 17 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) == 18 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18) == 19 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19) == 20 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20) == 21 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21) == 22 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22) == 23 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23) == 24 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24) == 25 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39) == 40 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63) == 64 && CE_COUNTOF_ARGS(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99) == 100);
T_(CE_PP_GET_0(10, 11, 12, 13, 14, 15, 16, 17, 18) == 10 && CE_PP_GET_1(10, 11, 12, 13, 14, 15, 16, 17, 18) == 11 && CE_PP_GET_2(10, 11, 12, 13, 14, 15, 16, 17, 18) == 12 && CE_PP_GET_3(10, 11, 12, 13, 14, 15, 16, 17, 18) == 13 && CE_PP_GET_4(10, 11, 12, 13, 14, 15, 16, 17, 18) == 14 && CE_PP_GET_5(10, 11, 12, 13, 14, 15, 16, 17, 18) == 15 && CE_PP_GET_6(10, 11, 12, 13, 14, 15, 16, 17, 18) == 16 && CE_PP_GET_7(10, 11, 12, 13, 14, 15, 16, 17, 18) == 17);
constexpr bool teq(char const* a, char const* b) { for (; *a && *a == *b; ++a, ++b); return *a == *b; }
T_(teq(CE_PP_TEXT(a b), "a b")); T_(teq(CE_FILELINE_EX("f.cpp", 12), "f.cpp(12)"));
T_(CE_PP_WHEN(1)(5)(6) == 5 && CE_PP_WHEN(0)(5)(6) == 6);
T_(CE_PP_JOIN(1, 2) == 12);
T_(CE_API_POSIX == 1 && CE_API_WIN32 == 0 && CE_API_UNKNOWN == 0 && CE_CPU_X86_64 == 1 && CE_CPU_X86 == 1 && CE_CPU_X86_32 == 0 && CE_CPU_WASM == 0);
#endif

#if VF_G == 4 // every public member of the public templates can be instantiated
struct item { int k; item(); item(int); item(item const&); item& operator=(item const&); ~item(); bool operator<(item const&) const; };
struct pod { int k; bool operator<(pod const& b) const { return k < b.k; } };
template struct ce::span<int>; template struct ce::span<int const>; template struct ce::span<item>;
template struct ce::min_priority_queue<5, int>; template struct ce::min_priority_queue<7, item>;
template struct ce::bitset<1>; template struct ce::bitset<8>; template struct ce::bitset<9>; template struct ce::bitset<64>;
template struct ce::clock<60>; template struct ce::clock<1000, 1001>;
template struct ce::rgba<float>; template struct ce::rgba<unsigned char>;
template struct ce::cdt<>; template struct ce::cdt<4, 64>;
template struct ce::pool<4, int>; template struct ce::pool<300, pod, ce::uint32_t>; template struct ce::pool<256, int, ce::uint8_t>; template struct ce::pool<2, int>;
template struct ce::vec<1, int>; template struct ce::vec<2, int>; template struct ce::vec<3, float>; template struct ce::vec<4, double>; template struct ce::vec<0, int>;
template<class T> void use_bulk(ce::bulk<4, T>& a, ce::bulk<4, T> const& c)
{
    (void)a.capacity(); a.clear(); (void)a.resize(2); (void)a.room(); (void)a.begin(); (void)a.end(); (void)c.begin(); (void)c.end(); (void)a.back(); (void)c.back(); (void)a[1]; (void)c[1];
    (void)a.append_n(); (void)a.append_n(2); (void)a.append(3); (void)a.append(c[0]); (void)a.remove_at(0); (void)a.template remove_at<true>(0); (void)a.template remove_at<false>(0);
    a = c; ce::bulk<4, T> b(c); (void)make_span(a); (void)make_span(c); (void)skip(make_span(a), 1); (void)trim(make_span(a), 1); (void)skip(make_span(c), 1); (void)trim(make_span(c), 1);
    SAME(decltype(c.back()), T const&); SAME(decltype(a.back()), T&); SAME(decltype(c.begin()), T const*); SAME(decltype(a.begin()), T*); SAME(decltype(c[0]), T const&); SAME(decltype(a[0]), T&);
    SAME(decltype(make_span(c)), ce::span<T const>); SAME(decltype(make_span(a)), ce::span<T>);
}
template void use_bulk<int>(ce::bulk<4, int>&, ce::bulk<4, int> const&); template void use_bulk<item>(ce::bulk<4, item>&, ce::bulk<4, item> const&);
SAME(ce::list<int, 4>, ce::bulk<4, int>);
template struct ce::bulk<3, int>; template struct ce::bulk<1, item>;
struct noassign { int v; noassign(int); noassign(noassign const&); ~noassign(); private: noassign& operator=(noassign const&); };
void use_noassign(ce::bulk<2, noassign>& b) { (void)b.append(1); b.clear(); (void)b.room(); ce::bulk<2, noassign> c(b); }
#endif

#if VF_G == 5 // function templates
using v2 = ce::vec2<ce::int32_t>; using v3 = ce::vec3<float>; using w3 = ce::vec3<ce::int32_t>;
bool use(v2 a, v2 b, v3 c, v3 d, w3 e, w3 f)
{
    SAME(decltype(ce::sqrx(a.x)), ce::int64_t); SAME(decltype(ce::dotx(a.x, b.x)), ce::int64_t); SAME(decltype(ce::sqrx(a)), ce::int64_t); SAME(decltype(ce::dotx(a, b)), ce::int64_t); SAME(decltype(ce::crossx(a, b)), ce::int64_t); SAME(decltype(ce::dotx(e, f)), ce::int64_t);
    SAME(decltype(ce::dotx(c, d)), float); SAME(decltype(ce::crossx(c, d)), v3); SAME(decltype(ce::sqrx(ce::int64_t(1))), ce::int64_t); SAME(decltype(ce::sqrx(1.f)), float);
    bool r = a == b || a == 1 || a != b || a != 1 || c == d || c == 1.f || c != d || c != 1.f || ce::inside(a, b);
    v2 s = a + b; s = a - b; s = a * 2; s = a / 2; s += a; s -= a; s *= 2; s /= 2;
    v3 t = c + d; t = c - d; t = c * 2.f; t = c / 2.f; t += c; t -= c; t *= 2.f; t /= 2.f; t = ce::normal(t);
    v2 ps[3] = { a, b, s }; r = r || ce::in_polygon(a, 3, ps) || ce::intersect(a, b, s, a, s);
    auto g = ce::crossx(e, f); SAME(decltype(g.x), ce::int64_t);
    char buf[4096]; ce::to_text(buf, a); ce::to_text(buf, 1, 2u, 'c', true, nullptr, &a, e8::a, a, "x", ps); int an[3]{}; ce::to_text(buf, an);
    int k[4]{}; ce::intro_sort(k, k + 4); ce::insertion_sort(k, k + 4); ce::swap(k[0], k[1]);
    return r;
}
char const* tx = ce::nameof<int>(); e8 asn(char const* t) { return ce::as_enum<e8>(t); } char const* nm(e8 v) { return ce::nameof(v); }
#endif

#if VF_G == 6 // must NOT build: a pointer has no count
int* p; ce::size_t n = CE_COUNTOF(p);
#endif
#if VF_G == 7 // must NOT build: the alternative does not exist
using X = ce::select_t<2, int, char>;
#endif
#if VF_G == 8 // must NOT build
using X = ce::enable_t<false>;
#endif
#if VF_G == 9 // must NOT build: a false CE_STATIC_ASSERT
CE_STATIC_ASSERT(sizeof(int) == 5, "no");
#endif
#if VF_G == 10
CE_STATIC_ASSERT(sizeof(int) == 4, "yes"); CE_STATIC_ASSERT(sizeof(int) == 4);
#endif
#if VF_G == 11 // must NOT build: assigning a value that does not fit the index type of a pool
template struct ce::pool<257, int, ce::uint8_t>;
#endif

#ifdef VF_GET
struct g1 { int a; }; struct g2 { int a, b; }; struct g3 { int a, b, c; }; struct g4 { int a, b, c, d; };
extern "C" int h_get_0_1(int a) { return ce::get<0>(g1{ a }); }
extern "C" int h_get_0_2(int a, int b) { return ce::get<0>(g2{ a, b }); }
extern "C" int h_get_1_2(int a, int b) { return ce::get<1>(g2{ a, b }); }
extern "C" int h_get_0_3(int a, int b, int c) { return ce::get<0>(g3{ a, b, c }); }
extern "C" int h_get_1_3(int a, int b, int c) { return ce::get<1>(g3{ a, b, c }); }
extern "C" int h_get_2_3(int a, int b, int c) { return ce::get<2>(g3{ a, b, c }); }
extern "C" int h_get_0_4(int a, int b, int c, int d) { return ce::get<0>(g4{ a, b, c, d }); }
extern "C" int h_get_1_4(int a, int b, int c, int d) { return ce::get<1>(g4{ a, b, c, d }); }
extern "C" int h_get_2_4(int a, int b, int c, int d) { return ce::get<2>(g4{ a, b, c, d }); }
extern "C" int h_get_3_4(int a, int b, int c, int d) { return ce::get<3>(g4{ a, b, c, d }); }
extern "C" int h_tup_1(int a, int b) { ce::tuple<int, int> t{ a, b }; return ce::get<1>(t); }
#endif
