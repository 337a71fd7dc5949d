// HTTP writers: the body (any bytes) keeps the element order and stays inside the caller's buffer.
#define VF_TERM 1
#define VF_SENT 1
#include "vf_log.h"
#include "vf_stream.h"
#include "http.h"
extern "C" { int g_sized; } // the size of the text is given
using namespace abc::http;
template <typename T> static inline void body(T& s, const char* buffer, std::size_t size) {
	vf_stream_any();
	if (size == abc::size::strlen) { g_sized = 0; vf_cstring(buffer); } else { g_sized = 1; vf_region(buffer, size); }
	vf_assume(buffer != nullptr && s.next() == item::body);
	bool thrown = false;
	try { s.put_body(buffer, size); } catch (...) { thrown = true; }
	if (g_st == 0) vf_assert(g_dirty == 0, "[sent] the element was flushed when the call returns");
	vf_assert(!thrown, "[order] a body written in its turn is not rejected");
	vf_assert(s.next() == item::body, "[order] a body may be followed by more of the body");
	vf_reach("end");
}
template <typename T> static inline void body_wrong(T& s, const char* buffer, std::size_t size) {
	vf_stream_any();
	vf_assume(s.next() < item::body);
	bool thrown = false;
	try { s.put_body(buffer, size); } catch (...) { thrown = true; }
	vf_assert(thrown, "[order] a body written out of order is rejected");
	vf_assert(g_io == 0, "[order] a body written out of order emits nothing");
	vf_reach("end");
}
extern "C" void H_req_body(abc::http_request_ostream<vf_log>& s, const char* b, std::size_t n) { body(s, b, n); }
extern "C" void H_resp_body(abc::http_response_ostream<vf_log>& s, const char* b, std::size_t n) { body(s, b, n); }
extern "C" void H_req_body_wrong(abc::http_request_ostream<vf_log>& s, const char* b, std::size_t n) { body_wrong(s, b, n); }
extern "C" void H_resp_body_wrong(abc::http_response_ostream<vf_log>& s, const char* b, std::size_t n) { body_wrong(s, b, n); }
