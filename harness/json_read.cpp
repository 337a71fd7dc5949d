// JSON reader: memory safety, termination, nesting depth; from every state, on every input.
#define VF_TERM 1
#include "vf_log.h"
#include "vf_stream.h"
#include "json.h"
using namespace abc::json;
enum { LEVELS = 100 };
typedef abc::json_istream<LEVELS, vf_log> in;

static inline void any_depth(in& s) {
	if (s.levels() != 0) vf_assume(s.levels() <= LEVELS);
}
extern "C" void H_get_token(in& s, token_t* buffer, std::size_t size) {
	vf_stream_any();
	any_depth(s);
	vf_assume(buffer != nullptr && size >= sizeof(token_t));
	vf_region(buffer, size);
	vf_key(&buffer->item);
	try { s.get_token(buffer, size); } catch (...) { vf_assert(false, "[args] a call with a usable buffer is not rejected"); vf_stop(); }
	vf_assert(s.levels() <= LEVELS, "[bounds] the nesting depth stays within the levels of the reader");
	if (g_st == 0) {
		if (buffer->item == item::string || buffer->item == item::property) { vf_is_text((const char*)buffer + __builtin_offsetof(token_t, value), "[text] the text of a token is terminated"); vf_reach("must: text"); }
	}
	vf_reach("read");
}
extern "C" void H_get_token_args(in& s, token_t* buffer, std::size_t size) {
	vf_stream_any();
	any_depth(s);
	if (vf_nondet_bool()) buffer = nullptr;
	else { vf_assume(buffer != nullptr && size < sizeof(token_t)); vf_region(buffer, size); }
	bool thrown = false;
	try { s.get_token(buffer, size); } catch (...) { thrown = true; }
	vf_assert(thrown, "[args] a missing or too small buffer is rejected");
	vf_assert(g_io == 0, "[args] a rejected call consumes no input");
	vf_reach("must: rejected");
}
extern "C" void H_skip_value(in& s) {
	vf_stream_any();
	any_depth(s);
	s.skip_value();
	vf_assert(s.levels() <= LEVELS, "[bounds] the nesting depth stays within the levels of the reader");
	vf_reach("must: end");
}
