// every reporting macro, in the shapes users write; the condition and the arguments are calls, so that each
// evaluation is an event
#include "ce/ce.h"

extern "C" bool vf_test();
extern "C" int vf_number();
extern "C" char vf_letter();
extern "C" bool vf_flag();
extern "C" char const* vf_text();
extern "C" void vf_value(bool);

#define FN extern "C" void

FN vf_verify0() { vf_value(CE_VERIFY(vf_test())); }
FN vf_verify1() { vf_value(CE_VERIFY(vf_test(), vf_number())); }
FN vf_verify2() { vf_value(CE_VERIFY(vf_test(), vf_text(), vf_letter())); }
FN vf_reject0() { vf_value(CE_REJECT(vf_test())); }
FN vf_reject1() { vf_value(CE_REJECT(vf_test(), vf_text())); }
FN vf_assert0() { CE_ASSERT(vf_test()); }
FN vf_assert1() { CE_ASSERT(vf_test(), vf_letter()); }
FN vf_assert3() { CE_ASSERT(vf_test(), vf_number(), vf_flag(), vf_text()); }
#if !defined(VF_ERR0)
FN vf_error0() { CE_ERROR(); }
FN vf_error1() { CE_ERROR(vf_text()); }
FN vf_error2() { CE_ERROR("no", vf_number()); }
#endif
FN vf_twice() { if (CE_VERIFY(vf_test()) && CE_VERIFY(vf_flag())) vf_value(true); }
FN vf_branch() { if (CE_REJECT(vf_test())) vf_value(true); else vf_value(false); }

FN vf_log_fatal() { CE_LOG(fatal, vf_number()); }
FN vf_log_error() { CE_LOG(error, vf_number()); }
FN vf_log_warn() { CE_LOG(warn, vf_number()); }
FN vf_log_note() { CE_LOG(note, vf_number()); }
FN vf_log_info() { CE_LOG(info, vf_number()); }
FN vf_log_debug() { CE_LOG(debug, vf_number()); }
FN vf_log_spam() { CE_LOG(spam, vf_number()); }
FN vf_log_more() { CE_LOG(more, vf_number()); }
FN vf_log_custom() { CE_LOG(custom, vf_number()); }
FN vf_log_0() { CE_LOG(info); }
FN vf_log_3() { CE_LOG(info, vf_text(), vf_letter(), vf_number()); }
FN vf_log_5() { CE_LOG(warn, vf_number(), vf_letter(), vf_flag(), vf_text(), vf_number()); }
struct pair_of { char c, d; };
inline char two(char a, char) { return a; }
inline char txt(char const (&s)[4], char c) { (void)s; return c; }
FN vf_log_nested() { CE_LOG(note, two(vf_letter(), 'x'), vf_letter()); }
FN vf_log_quote() { CE_LOG(note, txt("a,b", vf_letter()), two(vf_letter(), ','), vf_letter()); }
FN vf_log_escape() { CE_LOG(note, txt("a\"," , vf_letter()), two(vf_letter(), '\''), txt("),\\", vf_letter()), vf_letter()); }
FN vf_log_index() { char a[]{ vf_letter(), vf_letter() }; CE_LOG(note, a[two(1, 'x')], pair_of{ vf_letter(), a[0] }.c, (vf_letter(), a[1])); }
FN vf_log_space() { CE_LOG(  note  ,   vf_letter()  ,  vf_letter ( )   ); }
FN vf_log_literal() { CE_LOG(note, "),(", '"', vf_letter(), ',', "'", "\\", "[{", '\\', ")", vf_letter()); }
FN vf_log_trail() { CE_LOG(note, vf_letter(), "a\\\", b\\", vf_letter()); }

FN vf_msg_1() { CE_LOG_MSG(info, vf_text()); }
FN vf_msg_3() { CE_LOG_MSG(error, vf_letter(), vf_number(), "!!"); }
