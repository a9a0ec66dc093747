// as_string for every kind of argument; the text goes to an unknown reader
#include <ce/ce.h>
enum class e8 : unsigned char { a };
enum class e64 : long long { a };
enum plain { p0 };
struct thing { int i[3]; };
extern "C" void vf_sink(char const*);
#define S1(N, T) extern "C" void h_##N(T v) { ce::as_string s{ v }; vf_sink(s.as); }
S1(schar, signed char) S1(uchar, unsigned char) S1(short, short) S1(ushort, unsigned short) S1(int, int) S1(uint, unsigned)
S1(long, long) S1(ulong, unsigned long) S1(llong, long long) S1(ullong, unsigned long long)
S1(char, char) S1(bool, bool) S1(e8, e8) S1(e64, e64) S1(plain, plain) S1(ptr, int*) S1(cptr, thing const*) S1(vptr, void*) S1(mstr, char*)
S1(float, float) S1(double, double)
extern "C" void h_nil() { ce::as_string s{ nullptr }; vf_sink(s.as); }
extern "C" void h_thing(thing const& v) { ce::as_string s{ v }; vf_sink(s.as); }
extern "C" void h_cstr(int a, char const* t, long b) { ce::as_string s{ a, t, b }; vf_sink(s.as); }
extern "C" void h_cstr2(char const* t, char const* u) { ce::as_string s{ t, u }; vf_sink(s.as); }
extern "C" void h_arr(char const (&t)[7], unsigned b) { ce::as_string s{ t, b }; vf_sink(s.as); }
extern "C" void h_arr1(bool b, char const (&t)[1]) { ce::as_string s{ b, t }; vf_sink(s.as); }
extern "C" void h_marr(char (&t)[5], char (&u)[3]) { ce::as_string s{ t, u }; vf_sink(s.as); }
extern "C" void h_lit(unsigned char v) { ce::as_string s{ "value: ", v, '/', "x" }; vf_sink(s.as); }
extern "C" void h_mix(e8 a, short b, char const (&t)[3], char c, bool d, thing* p, unsigned long long e)
{ ce::as_string s{ a, b, t, c, d, p, nullptr, e }; vf_sink(s.as); }
extern "C" void h_mix2(signed char a, unsigned short b, long long c, unsigned d, char const* t, char const (&u)[9])
{ ce::as_string s{ a, b, c, d, t, u }; vf_sink(s.as); }
