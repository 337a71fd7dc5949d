// JSON reader: which tokens are accepted where, and what they do to the nesting.
#define VF_JSON_IN 1
#include <new>
#include "vf_log.h"
#include "vf_stream.h"
#include "json.h"
using namespace abc::json;
#ifdef DEEP // one more level below and one above
enum { LEVELS = 4 };
#else
enum { LEVELS = 2 };
#endif
typedef abc::json_istream<LEVELS, vf_log> in;
typedef abc::json_state<LEVELS, vf_log> st;

extern "C" {
	int g_base;  // level around the enclosing one: 0 none, 1 array, 2 object
	int g_outer; // enclosing level: 0 none, 1 array, 2 object
	int g_kind;  // innermost level: 0 none, 1 array, 2 object
	int g_name;  // a property name is expected
}
static inline void state(in& s, int base, int outer, int kind, int name) {
	g_base = base; g_outer = outer; g_kind = kind; g_name = name;
	vf_stream_any();
	vf_assume(g_st == 0);
	vf_log* log = s.log();
	new (static_cast<st*>(&s)) st(log);
	if (base) { s.push_level(base == 1 ? level::array : level::object); s.set_expect_property(false); }
	if (outer) { s.push_level(outer == 1 ? level::array : level::object); s.set_expect_property(false); }
	if (kind) { s.push_level(kind == 1 ? level::array : level::object); s.set_expect_property(name); }
}
// what follows a value inside a container
static inline void after(in& s) {
	int depth = g_kind == 0 ? 0 : g_outer == 0 ? 1 : g_base == 0 ? 2 : g_base < 3 ? 3 : 4;
	vf_assert(s.levels() == (std::size_t)depth, "[nest] the nesting depth follows the brackets read");
	vf_assume(s.levels() == (std::size_t)depth);
	if (g_kind == 1) vf_assert(s.top_level() == level::array, "[nest] the innermost level is the array that is open");
	if (g_kind == 2) vf_assert(s.top_level() == level::object, "[nest] the innermost level is the object that is open");
	vf_assert(s.expect_property() == (g_kind == 2 && g_name), "[nest] a property name is expected exactly inside an object and not after another name");
}
static inline void separated() {
	if (g_kind == 1) vf_assert(g_last == 3 || (g_has && g_cls == 1), "[nest] an element of an array is followed by a comma or by the end of the array");
	if (g_kind == 2) vf_assert(g_last == 3 || (g_has && g_cls == 2), "[nest] a property value is followed by a comma or by the end of the object");
}
static inline void value(in& s) {
	vf_assert(!g_name, "[nest] no value is accepted where a property name must come");
	if (g_kind == 2) g_name = 1;
	after(s); separated();
	vf_reach("must: value");
}
static inline void begin(in& s, int kind) {
	vf_assert(!g_name, "[nest] no array or object is accepted where a property name must come");
#ifndef DEEP
	vf_assert(!(g_kind != 0 && g_outer != 0), "[nest] nesting deeper than the limit is refused");
	vf_assume(!(g_kind != 0 && g_outer != 0));
#else
	g_base = 3;
#endif
	vf_assume(!g_name);
	int outer = g_kind;
	g_outer = outer; g_kind = kind; g_name = kind == 2;
	after(s);
	// the enclosing level is what it was
	s.pop_level(kind == 1 ? level::array : level::object);
	if (outer) vf_assert(s.top_level() == (outer == 1 ? level::array : level::object), "[nest] the enclosing level is kept");
	vf_reach("begin");
}
static inline void end(in& s, int kind) {
	vf_assert(g_kind == kind, "[nest] a closing bracket is accepted only for the level that is open");
	vf_assert(!(kind == 2 && !g_name), "[nest] an object does not end between a name and its value");
	vf_assume(g_kind == kind && !(kind == 2 && !g_name));
	g_kind = g_outer; g_outer = g_base; g_base = 0; g_name = g_kind == 2;
	after(s); separated();
	vf_reach("end");
}
static inline void run(in& s, int base, int outer, int kind, int name) {
	alignas(16) char memory[sizeof(token_t) + 64];
	token_t* token = reinterpret_cast<token_t*>(memory);
	token->item = item::none;
	vf_key(&token->item);
	state(s, base, outer, kind, name);
	s.get_token(token, sizeof(memory));
	if (g_st != 0) { vf_reach("must: refused"); return; }
	switch (token->item) {
	case item::null: case item::boolean: case item::number: case item::string: value(s); break;
	case item::property:
		vf_assert(g_name, "[nest] a property name is accepted only directly inside an object");
		vf_assert(g_last == 4, "[nest] a property name is followed by a colon");
		g_name = 0; after(s); vf_reach("property"); break;
	case item::begin_array: begin(s, 1); break;
	case item::begin_object: begin(s, 2); break;
	case item::end_array: end(s, 1); break;
	case item::end_object: end(s, 2); break;
	default: vf_assert(false, "[nest] a token is delivered while the stream is good");
	}
}
#define RUN(base, outer, kind, name) extern "C" void H_nest_##base##outer##kind##name(in& s) { run(s, base, outer, kind, name); }
#ifndef DEEP
RUN(0, 0, 0, 0) RUN(0, 0, 1, 0) RUN(0, 0, 2, 1) RUN(0, 0, 2, 0)
RUN(0, 1, 1, 0) RUN(0, 1, 2, 1) RUN(0, 1, 2, 0)
RUN(0, 2, 1, 0) RUN(0, 2, 2, 1) RUN(0, 2, 2, 0)
#else
RUN(1, 1, 1, 0) RUN(1, 1, 2, 1) RUN(1, 1, 2, 0)
RUN(1, 2, 1, 0) RUN(1, 2, 2, 1) RUN(1, 2, 2, 0)
RUN(2, 1, 1, 0) RUN(2, 1, 2, 1) RUN(2, 1, 2, 0)
RUN(2, 2, 1, 0) RUN(2, 2, 2, 1) RUN(2, 2, 2, 0)
#endif
