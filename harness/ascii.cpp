// Classes of characters, and comparison of texts.
// absint: --count 8
#include "vf.h"
#include "ascii.h"
extern "C" { int g_part, g_at, g_case, g_swap, g_caps; }
namespace a = abc::ascii;
static inline char any(int low, int high) { int c = vf_nondet_char(); vf_assume(c >= low); vf_assume(c <= high); return (char)c; }
// R(first, last): characters that belong, each tried as one range; what lies between is tried as not belonging
struct range { int low, high; };
#define YES(F, L, H) if (vf_nondet_bool()) { g_part = L; vf_assert(F(any(L, H)), "[class] " #F " takes " #L " to " #H); vf_reach("must: end"); }
#define NO(F, L, H) if (vf_nondet_bool()) { g_part = L; vf_assert(!F(any(L, H)), "[class] " #F " leaves " #L " to " #H); vf_reach("must: end"); }
extern "C" void H_ascii() { g_part = 1000; NO(a::is_ascii, -128, -1) YES(a::is_ascii, 0, 127) }
extern "C" void H_digit() { g_part = 1000; NO(a::is_digit, -128, '/') YES(a::is_digit, '0', '9') NO(a::is_digit, ':', 127) }
extern "C" void H_hex() { g_part = 1000; NO(a::is_hex, -128, '/') YES(a::is_hex, '0', '9') NO(a::is_hex, ':', '@') YES(a::is_hex, 'A', 'F') NO(a::is_hex, 'G', '`') YES(a::is_hex, 'a', 'f') NO(a::is_hex, 'g', 127) }
extern "C" void H_alpha() { g_part = 1000; NO(a::is_alpha, -128, '@') YES(a::is_alpha, 'A', 'Z') NO(a::is_alpha, '[', '`') YES(a::is_alpha, 'a', 'z') NO(a::is_alpha, '{', 127) }
extern "C" void H_upper() { g_part = 1000; NO(a::is_upperalpha, -128, '@') YES(a::is_upperalpha, 'A', 'Z') NO(a::is_upperalpha, '[', 127) }
extern "C" void H_lower() { g_part = 1000; NO(a::is_loweralpha, -128, '`') YES(a::is_loweralpha, 'a', 'z') NO(a::is_loweralpha, '{', 127) }
extern "C" void H_space() { g_part = 1000; NO(a::is_space, -128, 8) YES(a::is_space, '\t', '\t') NO(a::is_space, 10, 31) YES(a::is_space, ' ', ' ') NO(a::is_space, 33, 127) }
extern "C" void H_control() { g_part = 1000; NO(a::is_control, -128, -1) YES(a::is_control, 0, 31) NO(a::is_control, 32, 126) YES(a::is_control, 127, 127) }
extern "C" void H_stdprint() { g_part = 1000; NO(a::is_stdprint, -128, 31) YES(a::is_stdprint, 32, 126) NO(a::is_stdprint, 127, 127) }
extern "C" void H_abcprint() { g_part = 1000; NO(a::is_abcprint, -128, 32) YES(a::is_abcprint, 33, 126) NO(a::is_abcprint, 127, 127) }
extern "C" void H_printspace() { g_part = 1000; NO(a::is_abcprint_or_space, -128, 8) YES(a::is_abcprint_or_space, '\t', '\t') NO(a::is_abcprint_or_space, 10, 31) YES(a::is_abcprint_or_space, 32, 126) NO(a::is_abcprint_or_space, 127, 127) }
// the separators of a token: ( ) < > @ , ; : \ " / [ ] ? = { } space tab
#define SEPARATORS(IN, OUT, F) OUT(F, 33, 33) IN(F, '"', '"') OUT(F, '#', '\'') IN(F, '(', ')') OUT(F, '*', '+') IN(F, ',', ',') OUT(F, '-', '.') IN(F, '/', '/') OUT(F, '0', '9') IN(F, ':', '@') OUT(F, 'A', 'Z') IN(F, '[', ']') OUT(F, '^', 'z') IN(F, '{', '{') OUT(F, '|', '|') IN(F, '}', '}') OUT(F, '~', '~')
extern "C" void H_separator() { g_part = 1000; NO(a::http::is_separator, -128, 8) YES(a::http::is_separator, '\t', '\t') NO(a::http::is_separator, 10, 31) YES(a::http::is_separator, ' ', ' ') SEPARATORS(YES, NO, a::http::is_separator) NO(a::http::is_separator, 127, 127) }
extern "C" void H_token() { g_part = 1000; NO(a::http::is_token, -128, 32) SEPARATORS(NO, YES, a::http::is_token) NO(a::http::is_token, 127, 127) }
extern "C" void H_jspace() { g_part = 1000; NO(a::json::is_space, -128, 8) YES(a::json::is_space, 9, 10) NO(a::json::is_space, 11, 12) YES(a::json::is_space, '\r', '\r') NO(a::json::is_space, 14, 31) YES(a::json::is_space, ' ', ' ') NO(a::json::is_space, 33, 127) }
extern "C" void H_jcontent() { g_part = 1000; YES(a::json::is_string_content, -128, '!') NO(a::json::is_string_content, '"', '"') YES(a::json::is_string_content, '#', '[') NO(a::json::is_string_content, '\\', '\\') YES(a::json::is_string_content, ']', 127) }
#define MAPS(F, L, H, E) if (vf_nondet_bool()) { g_part = L; char c = any(L, H); int r = F(c); vf_assert(r == (E), "[class] " #F " of " #L " to " #H); vf_reach("must: end"); }
extern "C" void H_to_upper() { g_part = 1000; MAPS(a::to_upper, -128, '`', c) MAPS(a::to_upper, 'a', 'z', c - 32) MAPS(a::to_upper, '{', 127, c) }
extern "C" void H_to_lower() { g_part = 1000; MAPS(a::to_lower, -128, '@', c) MAPS(a::to_lower, 'A', 'Z', c + 32) MAPS(a::to_lower, '[', 127, c) }
extern "C" void H_hexval() { g_part = 1000; MAPS(a::hex, -128, '/', 0) MAPS(a::hex, '0', '9', c - '0') MAPS(a::hex, ':', '@', 0) MAPS(a::hex, 'A', 'F', c - 'A' + 10) MAPS(a::hex, 'G', '`', 0) MAPS(a::hex, 'a', 'f', c - 'a' + 10) MAPS(a::hex, 'g', 127, 0) }
// comparison: the texts agree up to a place, and differ there (or do not)

template <bool same_case> static inline void letter(char* s, char* t, int i) { // one letter in both, in either case
	char c = any('a', 'z'); s[i] = c;
	if (same_case || vf_nondet_bool()) { g_caps = 2 * g_caps; t[i] = c; } else { g_caps = 2 * g_caps + 1; t[i] = (char)(c - 32); }
}
template <bool sensitive> static inline bool equal(const char* s, const char* t, int n) {
	if (vf_nondet_bool()) return sensitive ? a::are_equal_n(s, t, n) : a::are_equal_i_n(s, t, n);
	return a::are_equal(s, t, sensitive, n);
}
template <bool sensitive, int at> static inline void upto(char* s, char* t) { // they agree in the first `at` characters
	g_at = at; g_case = 0; g_caps = 0; g_swap = 2;
	for (int i = 0; i < at; i++) letter<sensitive>(s, t, i);
	int n = vf_nondet_int(); vf_assume(n >= 0);
	if (vf_nondet_bool()) { g_case = 1; vf_assume(n <= at); vf_assert(equal<sensitive>(s, t, n), "[compare] texts are equal as far as asked"); vf_reach("must: end"); return; }
	vf_assume(n > at);
	if (vf_nondet_bool()) { g_case = 2; s[at] = t[at] = '\0'; vf_assert(equal<sensitive>(s, t, n), "[compare] texts are equal to their common end"); vf_reach("must: end"); return; }
	char c = any(-128, 127), d = any(-128, 127);
	if (sensitive) { if (vf_nondet_bool()) { g_case = 3; vf_assume(c < d); } else { g_case = 4; vf_assume(d < c); } }
	else if (vf_nondet_bool()) { g_case = 5; c = any('a', 'z'); d = any('{', 127); }
	else if (vf_nondet_bool()) { g_case = 6; c = any('A', 'Z'); d = any('[', '`'); }
	else if (vf_nondet_bool()) { g_case = 7; c = any('a', 'y'); vf_assume(d > c); vf_assume(d <= 'z'); if (vf_nondet_bool()) { g_case = 8; d = (char)(d - 32); } }
	else if (vf_nondet_bool()) { g_case = 9; c = any(-128, '@'); vf_assume(d > c); }
	else { g_case = 10; c = '\0'; d = any('A', 127); }
	if (vf_nondet_bool()) { g_swap = 0; s[at] = c; t[at] = d; } else { g_swap = 1; s[at] = d; t[at] = c; }
	vf_assert(!equal<sensitive>(s, t, n), "[compare] texts that differ are not equal"); vf_reach("must: end");
}
#define UPTO(n) extern "C" void H_equal_##n() { char s[8], t[8]; upto<true, n>(s, t); } extern "C" void H_equal_i_##n() { char s[8], t[8]; upto<false, n>(s, t); }
UPTO(0) UPTO(1) UPTO(2)
extern "C" void H_none(const char& text) { const char* s = &text; g_part = 0; vf_cstring(s); vf_assert(a::are_equal(nullptr, nullptr), "[compare] nothing is nothing"); vf_assert(!a::are_equal(s, nullptr), "[compare] nothing is no text"); vf_assert(!a::are_equal_i(nullptr, s), "[compare] no text is nothing"); vf_reach("must: end"); }
