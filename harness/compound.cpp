// to_text of every kind of value that is not a number
#include <ce/ce.h>
enum class e8 : unsigned char { a };
enum class es : short { a };
enum class e64 : long long { a };
enum plain { p0, p1 };
struct thing { int i[3]; };
using v2i = ce::vec2<int>; using v3l = ce::vec3<long long>; using v4h = ce::vec4<unsigned char>; using v1s = ce::vec1<short>;
#define T(N, A) extern "C" char* t_##N(char* t, A v) { return ce::to_text(t, v); }
T(char, char) T(bool, bool)
T(e8, e8) T(es, es) T(e64, e64) T(plain, plain)
T(ptr, int*) T(cptr, thing const*) T(vptr, void*) T(pptr, int**)
T(thing, thing const&)
using a1 = int[1]; using a3 = int[3]; using a4 = unsigned long[4]; using ac = signed char[2]; using ab = bool[2]; using a5 = unsigned short[5]; using ae = es[3]; using acc = char const[4]; using v4f = ce::vec4<bool>; using v3e = ce::vec3<plain>;
T(a1, a1 const&) T(a3, a3 const&) T(a4, a4 const&) T(ac, ac const&) T(ab, ab const&) T(a5, a5 const&) T(ae, ae const&) T(acc, acc&) T(v4f, v4f const&) T(v3e, v3e const&)
T(v1, v1s const&) T(v2, v2i const&) T(v3, v3l const&) T(v4, v4h const&)
extern "C" char* t_nil(char* t) { return ce::to_text(t, nullptr); }
extern "C" char* t_str(char* t, char a, char b, char c) { char s[]{ a, b, c, 0 }; return ce::to_text(t, (char const*)s); }
extern "C" char* t_mstr(char* t, char a, char b, char c) { char s[]{ a, b, c, 0 }; char* p = s; return ce::to_text(t, p); }
extern "C" char* t_nstr(char* t) { char const* p = nullptr; return ce::to_text(t, p); }
extern "C" char* t_arr(char* t, char a, char b, char c) { char s[3]{ a, b, c }; return ce::to_text(t, s); }
extern "C" char* t_lit(char* t) { return ce::to_text(t, "lit"); }
extern "C" char* t_astr(char* t, char a, char b) { char s[]{ a, 0 }; char u[]{ b, 0 }; char const* v[]{ s, u }; return ce::to_text(t, v); }
extern "C" char* t_many(char* t, int a, char b, bool c, e8 d, unsigned long e) { return ce::to_text(t, a, b, c, "-", d, nullptr, e); }
extern "C" char* t_two(char* t, long a, v2i const& v) { return ce::to_text(t, a, v); }
extern "C" char* t_none(char* t) { return ce::to_text(t); }
extern "C" char* t_str6(char* t, char a, char b, char c, char d, char e, char f) { char s[]{ a, b, c, d, e, f, 0 }; return ce::to_text(t, (char const*)s); }
extern "C" char* t_arr6(char* t, char a, char b, char c, char d, char e, char f) { char s[6]{ a, b, c, d, e, f }; return ce::to_text(t, s); }
extern "C" char* t_strs(char* t, char a, char b, int n, char const* p) { char s[]{ a, b, 0 }; return ce::to_text(t, (char const*)s, n, (void const*)p, (char const*)s); }
