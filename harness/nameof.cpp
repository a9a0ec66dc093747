// enumerations of every shape that nameof/as_enum treat differently
#include "ce/ce.h"
#include "ce/nameof.h"

enum class byte_e : unsigned char { none, a, ab, abc = 63, abd = 64, b = 65, edge = 127, half = 128, x_y2 = 191, x_y = 192, over = 193, top = 255 };
enum class wide_e : unsigned long long { zero, one, two, twelve = 12, last = 255, past = 256, big = 0x100000001ull, huge = ~0ull };
enum class sign_e : int { minus = -1, nul, plus, far = 300, low = -255 };
namespace outer { struct deep { struct er { enum kind : short { k0, k1 = 129, k255 = 255, neg = -2, k255x = 511 }; }; }; }
namespace outer { enum class scoped : unsigned { alpha = 7, beta = 70, alphabet = 71 }; }
enum plain { red, green, blue, an_enumerator_with_a_rather_long_name = 17, an_enumerator_with_a_rather_long_name_and_then_some_more_of_it_to_go = 40 };
enum class flag_e : bool { no, yes };
enum class long_e : long long { zero, neg = -1, one = 1, wrapped = -0xffffffffll };
struct widget { int i; };

#define FN(T, E) \
    extern "C" char const* vf_name_##T(E n) { return ce::nameof(n); } \
    extern "C" E vf_enum_##T(char const name[], E d) { return ce::as_enum<E>(name, d); }
FN(byte, byte_e) FN(wide, wide_e) FN(sign, sign_e) FN(kind, outer::deep::er::kind) FN(scoped, outer::scoped) FN(plain, plain) FN(flag, flag_e)
FN(long, long_e)
extern "C" plain vf_dflt_plain(char const name[]) { return ce::as_enum<plain>(name); }
extern "C" char const* vf_type_widget() { return ce::nameof<widget>(); }
extern "C" char const* vf_type_byte() { return ce::nameof<byte_e>(); }
extern "C" char const* vf_type_int() { return ce::nameof<int>(); }
