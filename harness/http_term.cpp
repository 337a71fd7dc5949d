// HTTP readers and writers: no endless work on ended, failed or valid streams; framing of the elements.
#define VF_TERM 1
#define VF_FRAMING 1
#include "vf_log.h"
#include "vf_stream.h"
#include "http.h"
using namespace abc::http;
typedef abc::http_request_istream<vf_log> req;
typedef abc::http_response_istream<vf_log> resp;

#define TERM(name, T, call, self, framing) \
	extern "C" void H_##name(T& s, char* buffer, std::size_t size) { \
		vf_stream_any(); \
		vf_assume(size >= 1 && s.next() == item::self); \
		vf_region(buffer, size); \
		s.call(buffer, size); \
		framing \
		vf_reach("end"); \
	}
#define CRLF(c) if (g_st == 0 && (c)) vf_assert(g_crlf == 2, "[framing] an element is accepted only after its line end was read");
#define NONE
TERM(req_method, req, get_method, method, NONE)
TERM(req_resource, req, get_resource, resource, NONE)
TERM(req_protocol, req, get_protocol, protocol, CRLF(true))
TERM(req_header_name, req, get_header_name, header_name, CRLF(s.next() == item::body) if (g_st == 0 && s.next() == item::header_value) vf_assert(g_colon == 1, "[framing] a header name is accepted only after its colon was read");)
TERM(req_header_value, req, get_header_value, header_value, CRLF(s.next() == item::header_name))
TERM(req_body, req, get_body, body, NONE)
TERM(resp_protocol, resp, get_protocol, protocol, NONE)
TERM(resp_status_code, resp, get_status_code, status_code, NONE)
TERM(resp_reason_phrase, resp, get_reason_phrase, reason_phrase, CRLF(true))
TERM(resp_header_name, resp, get_header_name, header_name, CRLF(s.next() == item::body) if (g_st == 0 && s.next() == item::header_value) vf_assert(g_colon == 1, "[framing] a header name is accepted only after its colon was read");)
TERM(resp_header_value, resp, get_header_value, header_value, CRLF(s.next() == item::header_name))
TERM(resp_body, resp, get_body, body, NONE)
