// HTTP readers: memory safety and element order, for every input, buffer and start state.
#include "vf_log.h"
#include "vf_stream.h"
#include "http.h"
using namespace abc::http;

typedef abc::http_request_istream<vf_log> req;
typedef abc::http_response_istream<vf_log> resp;

extern "C" int g_pre; // the element expected before the call
template <typename S> static inline void order_pre(S& s) {
	switch (s.next()) {
	case item::method: g_pre = item::method; break;
	case item::resource: g_pre = item::resource; break;
	case item::protocol: g_pre = item::protocol; break;
	case item::status_code: g_pre = item::status_code; break;
	case item::reason_phrase: g_pre = item::reason_phrase; break;
	case item::header_name: g_pre = item::header_name; break;
	case item::header_value: g_pre = item::header_value; break;
	case item::body: g_pre = item::body; break;
	default: vf_stop();
	}
}
int g_pre;

#define READ(name, T, call, self, nextok, exact) \
	extern "C" void H_##name(T& s, char* buffer, std::size_t size) { \
		vf_stream_any(); order_pre(s); \
		vf_assume(size >= 1); \
		vf_region(buffer, size); \
		bool thrown = false; \
		try { s.call(buffer, size); } catch (...) { thrown = true; } \
		if (thrown) { \
			vf_assert(g_pre != self, "[order] an element read in its turn is not rejected"); \
			vf_assert(g_io == 0, "[order] a read out of order consumes no input"); \
			vf_assert(s.next() == g_pre, "[order] a read out of order leaves the expected element unchanged"); \
			vf_reach("rejected"); \
		} else { \
			vf_assert(g_pre == self, "[order] a read out of order is rejected"); \
			vf_assert(nextok, "[order] the expected element moves to the next one of the message"); \
			vf_assert(s.gcount() <= size, "[bounds] the reported count does not exceed the buffer"); \
			if (self == item::body) vf_assert(s.gcount() == v_count, "[text] the reported part of a body is what was read from the stream"); \
			else { vf_assert(s.gcount() < size, "[text] the text of an element leaves room for its end"); if (exact == 1) vf_assert(buffer[s.gcount()] == 0, "[text] the text of an element ends after the reported characters"); \
				if (exact != 2 || g_st == 0) vf_is_text(buffer, "[text] the text of an element is terminated"); if (exact == 1) vf_assert(s.gcount() <= v_count, "[text] no more text is reported than was read"); } \
			vf_reach("accepted"); \
		} \
	}
#define N(x) (s.next() == item::x)
READ(req_method, req, get_method, item::method, N(resource), 1)
READ(req_resource, req, get_resource, item::resource, N(protocol), 1)
READ(req_protocol, req, get_protocol, item::protocol, N(header_name), 0)
READ(req_header_name, req, get_header_name, item::header_name, s.gcount() == 0 ? N(body) : N(header_value), 1)
READ(req_header_value, req, get_header_value, item::header_value, g_st == 0 ? N(header_name) : (N(header_name) || N(header_value)), 2)
READ(req_body, req, get_body, item::body, N(body), 1)
READ(resp_protocol, resp, get_protocol, item::protocol, N(status_code), 0)
READ(resp_status_code, resp, get_status_code, item::status_code, N(reason_phrase), 1)
READ(resp_reason_phrase, resp, get_reason_phrase, item::reason_phrase, N(header_name), 1)
READ(resp_header_name, resp, get_header_name, item::header_name, s.gcount() == 0 ? N(body) : N(header_value), 1)
READ(resp_header_value, resp, get_header_value, item::header_value, g_st == 0 ? N(header_name) : (N(header_name) || N(header_value)), 2)
READ(resp_body, resp, get_body, item::body, N(body), 1)

extern "C" void H_req_reset(req& s) { s.reset(); vf_assert(N(method), "[order] a reset request starts with the method"); vf_reach("end"); }
extern "C" void H_resp_reset(resp& s) { s.reset(); vf_assert(N(protocol), "[order] a reset response starts with the protocol"); vf_reach("end"); }
