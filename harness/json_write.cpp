// JSON writer: what it emits is well-formed JSON, token by token; a token in the wrong place is refused.
// The writer is brought into each of its states through its own calls, then one call is analysed
// against the JSON grammar, and the state it leaves is checked through the next call.
#define VF_OUT_HOOK 1
#include <new>
#include "vf_log.h"
#include "vf_stream.h"
#include "json.h"
using namespace abc::json;
#ifdef DEEP // one more level around, and one above
enum { LEVELS = 4 };
#else
enum { LEVELS = 2 };
#endif
typedef abc::json_ostream<LEVELS, vf_log> out;

extern "C" {
	int g_on;     // the output is checked
	int g_base;   // state: level around the enclosing one: 0 none, 1 array, 2 object
	int g_in;     // what g_outer was, if one more level was opened inside
	int g_outer;  // state: enclosing level: 0 none, 1 array, 2 object
	int g_phase;  // state: 0 top, 1 '[', 2 '[ value', 3 '{', 4 '{ name :', 5 '{ name : value'
	int g_want;   // a comma must come first
	int g_pos;    // 0 start, 1 token start, 2 inside a string, 3 after a backslash, 4 \u, 5 free text, 6 ':' expected, 9 complete
	int g_idx;    // characters of a literal or of the digits of \u seen
	int g_tok;    // token: n t f # " p [ ] { }
}
static inline bool hexdigit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static inline char literal_at(int tok, int i) {
	if (tok == 'n') return i == 0 ? 'n' : i == 1 ? 'u' : 'l';
	if (tok == 't') return i == 0 ? 't' : i == 1 ? 'r' : i == 2 ? 'u' : 'e';
	return i == 0 ? 'f' : i == 1 ? 'a' : i == 2 ? 'l' : i == 3 ? 's' : 'e';
}
static inline void vf_out(char c) {
	if (!g_on) return;
	vf_assert(g_pos != 9, "[json] nothing follows a complete token");
	vf_assume(g_pos != 9);
	if (g_pos == 0) {
		if (g_want) {
			vf_assert(c == ',', "[json] a comma separates an element from the one before it");
			g_pos = 1; return;
		}
		vf_assert(c != ',', "[json] no comma where there is nothing to separate");
		vf_assume(c != ',');
		g_pos = 1;
	}
	if (g_pos == 1) {
		if (g_tok == 'n' || g_tok == 't' || g_tok == 'f') {
			vf_assert(c == literal_at(g_tok, g_idx), "[json] a literal is spelled right");
			if (g_idx == (g_tok == 'f' ? 4 : 3)) g_pos = 9; else g_idx = g_idx + 1;
		}
		else if (g_tok == '#') g_pos = 5;
		else if (g_tok == '"' || g_tok == 'p') { vf_assert(c == '"', "[json] a string starts with a quote"); g_pos = 2; }
		else { vf_assert(c == g_tok, "[json] the bracket is the right one"); g_pos = 9; }
	}
	else if (g_pos == 2) {
		if (c == '"') { if (g_tok == 'p') g_pos = 6; else g_pos = 9; }
		else if (c == '\\') g_pos = 3;
		else vf_assert((unsigned char)c >= ' ', "[json] a control character is not emitted inside a string");
	}
	else if (g_pos == 3) {
		if (c == 'u') { g_pos = 4; g_idx = 0; }
		else { vf_assert(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't', "[json] an escape sequence is one of JSON's"); g_pos = 2; }
	}
	else if (g_pos == 4) {
		vf_assert(hexdigit(c), "[json] \\u is followed by four hex digits");
		if (g_idx == 3) g_pos = 2; else g_idx = g_idx + 1;
	}
	else if (g_pos == 6) { vf_assert(c == ':', "[json] a colon follows the name of a property"); g_pos = 9; }
}
static inline char anyhex() { char c = vf_nondet_char(); if (vf_nondet_bool()) vf_assume(c >= '0' && c <= '9'); else vf_assume(c >= 'a' && c <= 'f'); return c; }
// text produced by the two formats the writer may use: \u escapes and numbers
extern "C" int m_snprintf(char* to, std::size_t size, const char* fmt, ...) VF_MODEL("snprintf");
int m_snprintf(char* to, std::size_t size, const char* fmt, ...) {
	if (g_tok == '#') {
		int n = vf_nondet_int(); vf_assume(n >= 1 && n <= 24);
		vf_assert(size >= 25, "[bounds] the longest number fits its buffer");
		char c = vf_nondet_char(); vf_assume(c >= '-' && c <= '9'); to[0] = c;
		vf_text(to);
		return n;
	}
	if (fmt[0] == '\\') to[0] = '\\'; else to[0] = vf_nondet_char();
	if (fmt[1] == 'u') to[1] = 'u'; else to[1] = vf_nondet_char();
	vf_assert(fmt[2] == '%' && fmt[3] == '4' && fmt[4] == '.' && fmt[5] == '4' && (fmt[6] == 'x' || fmt[6] == 'X') && fmt[7] == 0 || fmt[2] == '%' && fmt[3] == '0' && fmt[4] == '4' && (fmt[5] == 'x' || fmt[5] == 'X') && fmt[6] == 0, "[json] an escape is formatted with four hex digits");
	to[2] = anyhex(); to[3] = anyhex(); to[4] = anyhex(); to[5] = anyhex();
	to[6] = 0;
	return 6;
}

static inline void put_name(out& s) { s.put_property("", 0); }
static inline void state(out& s) {
	g_on = 0; g_in = 0; g_base = 0; g_outer = 0; g_phase = 0; g_want = 0; g_pos = 0; g_idx = 0; g_tok = 'n';
	vf_stream_any();
	vf_assume(g_st == 0);
	vf_log* log = s.log();
	new (static_cast<abc::json_state<LEVELS, vf_log>*>(&s)) abc::json_state<LEVELS, vf_log>(log);
#ifdef DEEP
	if (vf_nondet_bool()) { s.put_begin_array(); g_base = 1; } else { s.put_begin_object(); put_name(s); g_base = 2; }
	if (vf_nondet_bool()) { s.put_begin_array(); g_outer = 1; } else { s.put_begin_object(); put_name(s); g_outer = 2; }
#else
	if (vf_nondet_bool()) return;
	if (vf_nondet_bool()) { if (vf_nondet_bool()) { s.put_begin_array(); g_outer = 1; } else { s.put_begin_object(); put_name(s); g_outer = 2; } }
#endif
	if (vf_nondet_bool()) { s.put_begin_array(); g_phase = 1; if (vf_nondet_bool()) { s.put_null(); g_phase = 2; } }
	else { s.put_begin_object(); g_phase = 3; if (vf_nondet_bool()) { put_name(s); g_phase = 4; if (vf_nondet_bool()) { s.put_null(); g_phase = 5; } } }
	vf_assume(g_st == 0);
}
static inline void expect(int tok) { // the call that follows emits this token
	g_on = 1; g_pos = 0; g_idx = 0; g_tok = tok;
	g_want = tok == ']' || tok == '}' ? 0 : tok == 'p' ? g_phase == 5 : g_phase == 2;
}
// the state after a token that was accepted
static inline void settle(out& s, bool good) {
	(void)s;
	vf_assert(good, "[order] a token in its place is accepted");
}
static inline void probe(out& s) {
	int depth = g_phase == 0 ? 0 : g_outer == 0 ? 1 : g_base == 0 ? 2 : g_in == 0 ? 3 : 4;
	vf_assert(s.levels() == (std::size_t)depth, "[order] the nesting depth follows the brackets");
	if (g_phase == 1 || g_phase == 2) vf_assert(s.top_level() == level::array, "[order] the innermost level is an array");
	if (g_phase >= 3) vf_assert(s.top_level() == level::object, "[order] the innermost level is an object");
	vf_assert(s.expect_property() == (g_phase == 3 || g_phase == 5), "[order] a property is expected exactly where a name must come");
	bool name = g_phase == 3 || g_phase == 5;
	expect(name ? 'p' : 'n');
	if (name) put_name(s); else s.put_null();
	if (g_st == 0) vf_assert(g_pos == 9, "[order] the next token is accepted");
}
static inline bool value_ok() { return g_phase != 3 && g_phase != 5; }
static inline void value_done() { if (g_phase == 1) g_phase = 2; else if (g_phase == 4) g_phase = 5; }
static inline void refused() { vf_assert(g_st != 0, "[order] a token in the wrong place makes the stream not good"); vf_reach("must: refused"); }
static inline void complete() { vf_assert(g_tok == '#' ? g_pos == 5 : g_pos == 9, "[json] an accepted token is emitted completely"); vf_reach("must: accepted"); }
template <int Tok, typename Call> static inline void value(out& s, Call call) {
	state(s); bool ok = value_ok();
	expect(Tok); if (!ok) g_on = 0;
	call();
	if (!ok) { refused(); return; }
	if (g_st != 0) return;
	complete(); value_done(); probe(s);
}
extern "C" { int g_sized; } // the size of the text is given
#define TEXT if (size == abc::size::strlen) { g_sized = 0; vf_cstring(buffer); } else { g_sized = 1; vf_region(buffer, size); } vf_assume(buffer != nullptr);

extern "C" void H_null(out& s) { value<'n'>(s, [&]() { s.put_null(); }); }
extern "C" void H_true(out& s) { value<'t'>(s, [&]() { s.put_boolean(true); }); }
extern "C" void H_false(out& s) { value<'f'>(s, [&]() { s.put_boolean(false); }); }
extern "C" void H_number(out& s, double x) { value<'#'>(s, [&]() { s.put_number(x); }); }
#define STRING(outer, phase) \
	extern "C" void H_string_##outer##phase(out& s, const char* buffer, std::size_t size) { \
		TEXT state(s); vf_assume(g_outer == outer && g_phase == phase); \
		bool ok = value_ok(); \
		expect('"'); if (!ok) g_on = 0; \
		s.put_string(buffer, size); \
		if (!ok) { refused(); return; } \
		if (g_st != 0) return; \
		complete(); value_done(); probe(s); \
	} \
	extern "C" void H_property_##outer##phase(out& s, const char* buffer, std::size_t size) { \
		TEXT state(s); vf_assume(g_outer == outer && g_phase == phase); \
		bool ok = g_phase == 3 || g_phase == 5; \
		expect('p'); if (!ok) g_on = 0; \
		s.put_property(buffer, size); \
		if (!ok) { refused(); return; } \
		if (g_st != 0) return; \
		complete(); g_phase = 4; probe(s); \
	}
#ifndef DEEP
STRING(0, 0)
STRING(0, 1) STRING(0, 2) STRING(0, 3) STRING(0, 4) STRING(0, 5)
STRING(1, 1) STRING(1, 2) STRING(1, 3) STRING(1, 4) STRING(1, 5)
#endif
STRING(2, 1) STRING(2, 2) STRING(2, 3) STRING(2, 4) STRING(2, 5)
template <int Tok> static inline void begin(out& s) {
	state(s);
#ifdef DEEP
	bool ok = value_ok();
#else
	bool ok = value_ok() && !(g_outer != 0 && g_phase != 0);
#endif
	expect(Tok); if (!ok) g_on = 0;
	if (Tok == '[') s.put_begin_array(); else s.put_begin_object();
	if (!ok) { refused(); return; }
	if (g_st != 0) return;
	complete();
	int outer = g_phase == 0 ? 0 : g_phase <= 2 ? 1 : 2;
	if (g_base) g_in = g_outer; else g_base = g_outer; g_outer = outer; g_phase = Tok == '[' ? 1 : 3;
	if (vf_nondet_bool()) { probe(s); return; }
	// the enclosing level is what it was
	expect(Tok == '[' ? ']' : '}');
	if (Tok == '[') s.put_end_array(); else s.put_end_object();
	if (g_st != 0) return;
	complete();
	g_phase = g_outer == 0 ? 0 : g_outer == 1 ? 2 : 5;
#ifdef DEEP
	g_outer = g_in; g_in = 0;
	probe(s);
	return;
#endif
	g_outer = g_base; g_base = 0;
	probe(s);
}
extern "C" void H_begin_array(out& s) { begin<'['>(s); }
extern "C" void H_begin_object(out& s) { begin<'{'>(s); }
template <int Tok> static inline void end(out& s) {
	state(s);
	bool ok = Tok == ']' ? g_phase == 1 || g_phase == 2 : g_phase == 3 || g_phase == 5;
	expect(Tok); if (!ok) g_on = 0;
	if (Tok == ']') s.put_end_array(); else s.put_end_object();
	if (!ok) { refused(); return; }
	if (g_st != 0) return;
	complete();
	g_phase = g_outer == 0 ? 0 : g_outer == 1 ? 2 : 5; g_outer = g_base; g_base = 0;
	probe(s);
}
extern "C" void H_end_array(out& s) { end<']'>(s); }
extern "C" void H_end_object(out& s) { end<'}'>(s); }
