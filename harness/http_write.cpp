// HTTP writers: element order, framing of the output, reads of the caller's buffer.

#define VF_FRAME 1
#include "vf_log.h"
#include "vf_stream.h"
#include "http.h"
extern "C" { int g_sized; } // the size of the text is given
using namespace abc::http;
typedef abc::http_request_ostream<vf_log> req;
typedef abc::http_response_ostream<vf_log> resp;

extern "C" { int g_pre; }
template <typename S> static inline void order_pre(S& s) {
	switch (s.next()) {
	case item::method: g_pre = item::method; break;
	case item::resource: g_pre = item::resource; break;
	case item::protocol: g_pre = item::protocol; break;
	case item::status_code: g_pre = item::status_code; break;
	case item::reason_phrase: g_pre = item::reason_phrase; break;
	case item::header_name: g_pre = item::header_name; break;
	case item::header_value: g_pre = item::header_value; break;
	case item::body: g_pre = item::body; break;
	default: vf_stop();
	}
}
#define CHECK(self, nextok, frameok) \
		if (thrown) { \
			vf_assert(g_pre != self, "[order] an element written in its turn is not rejected"); \
			vf_assert(g_io == 0, "[order] a write out of order emits nothing"); \
			vf_assert(s.next() == g_pre, "[order] a write out of order leaves the expected element unchanged"); \
			vf_reach("rejected"); \
		} else { \
			vf_assert(g_pre == self, "[order] a write out of order is rejected"); \
			vf_assert(s.next() == item::nextok, "[order] the expected element moves to the next one of the message"); \
			if (g_st == 0) vf_assert(g_dirty == 0, "[sent] the element was flushed when the call returns"); \
			if (g_st == 0) vf_assert(frameok, "[frame] the element ends the way the message format asks for"); \
			vf_reach("accepted"); \
		}
#define WRITE(name, T, call, self, nextok, frameok) \
	extern "C" void H_##name(T& s, const char* buffer, std::size_t size) { \
		vf_stream_any(); order_pre(s); \
		if (size == abc::size::strlen) { g_sized = 0; vf_cstring(buffer); } else { g_sized = 1; vf_region(buffer, size); } \
		vf_assume(buffer != nullptr); \
		bool thrown = false; \
		try { s.call(buffer, size); } catch (...) { thrown = true; } \
		CHECK(item::self, nextok, frameok) \
	}
#define LINE (g_out == 3)
#define TEXT (g_out == 1)
WRITE(req_method, req, put_method, method, resource, TEXT)
WRITE(req_resource, req, put_resource, resource, protocol, TEXT)
WRITE(req_protocol, req, put_protocol, protocol, header_name, LINE)
WRITE(req_header_name, req, put_header_name, header_name, header_value, TEXT)
WRITE(req_header_value, req, put_header_value, header_value, header_name, LINE)
WRITE(resp_protocol, resp, put_protocol, protocol, status_code, TEXT)
WRITE(resp_status_code, resp, put_status_code, status_code, reason_phrase, TEXT)
WRITE(resp_reason_phrase, resp, put_reason_phrase, reason_phrase, header_name, LINE)
WRITE(resp_header_name, resp, put_header_name, header_name, header_value, TEXT)
WRITE(resp_header_value, resp, put_header_value, header_value, header_name, LINE)
#define END(name, T) \
	extern "C" void H_##name(T& s) { \
		vf_stream_any(); order_pre(s); \
		bool thrown = false; \
		try { s.end_headers(); } catch (...) { thrown = true; } \
		CHECK(item::header_name, body, LINE) \
	}
END(req_end_headers, req)
END(resp_end_headers, resp)
extern "C" void H_resp_reason_null(resp& s) {
	vf_stream_any(); order_pre(s);
	bool thrown = false;
	try { s.put_reason_phrase(nullptr); } catch (...) { thrown = true; }
	CHECK(item::reason_phrase, header_name, LINE)
}
extern "C" void H_req_reset(req& s) { s.reset(); vf_assert(s.next() == item::method, "[order] a reset request starts with the method"); vf_reach("end"); }
extern "C" void H_resp_reset(resp& s) { s.reset(); vf_assert(s.next() == item::protocol, "[order] a reset response starts with the protocol"); vf_reach("end"); }
