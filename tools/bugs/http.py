PRE='''#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include "http.h"
typedef abc::null_log L;
'''
BUGS=[
dict(id='h01_fold_space_overflow', property='H01', san=True,
 needs='a header value whose blank separator lands exactly on the last byte of the caller\'s buffer',
 what='the separator check of header values compares against the buffer size instead of the last usable byte, so the blank is stored in the terminator slot and the next read runs past the buffer',
 edits=[('src/http.h','''					if (gcount == size - 1) {
						base::set_fail();
						set_gstate(gcount, http::item::header_value);''','''					if (gcount == size) {
						base::set_fail();
						set_gstate(gcount, http::item::header_value);''')],
 demo=PRE+'''int main() {
	std::stringbuf sb("abcdefg hijklmnopqrstuvwxyz0123456789\\r\\n\\r\\n", std::ios::in);
	abc::http_response_istream<L> in(&sb, nullptr);
	in.abc::http_state<L>::reset(abc::http::item::header_value);
	char* b = new char[8];
	in.get_header_value(b, 8);
	bool ok = !in.is_good() && in.gcount() < 8;
	delete[] b;
	return ok ? 0 : 1;
}
'''),
dict(id='h02_protocol_slash_overflow', property='H01', san=True,
 needs='a protocol element read into a 5 byte buffer',
 what='the room check before the slash of the protocol is dropped: the slash takes the last byte and the version digits are read into a buffer of size zero',
 edits=[('src/http.h','''			base::set_bad();
		}

		if (gcount == size - 1) {
			base::set_fail();
		}

		if (base::is_good()) {
			char ch = get_char();
			if (ch == '/') {''','''			base::set_bad();
		}

		if (base::is_good()) {
			char ch = get_char();
			if (ch == '/') {''')],
 demo=PRE+'''int main() {
	std::stringbuf sb("HTTP/1234567890123456789012345678901234567890.1\\r\\n", std::ios::in);
	abc::http_response_istream<L> in(&sb, nullptr);
	char* b = new char[5];
	in.get_protocol(b, 5);
	bool ok = !in.is_good();
	delete[] b;
	return ok ? 0 : 1;
}
'''),
dict(id='h03_order_checked_late', property='H02',
 needs='a header name read out of its turn, and a look at what is left of the input',
 what='the header name is read before the order is checked: a rejected call has already eaten input',
 edits=[('src/http.h','''		state::assert_next(http::item::header_name);

		std::size_t gcount = get_token(buffer, size);
''','''		std::size_t gcount = get_token(buffer, size);

		state::assert_next(http::item::header_name);
''')],
 demo=PRE+'''int main() {
	std::stringbuf sb("GET / HTTP/1.1\\r\\n\\r\\n", std::ios::in);
	abc::http_request_istream<L> in(&sb, nullptr);
	char b[64];
	try { in.get_header_name(b, sizeof(b)); return 1; } catch (const std::logic_error&) { }
	in.get_method(b, sizeof(b));
	return std::strcmp(b, "GET") == 0 ? 0 : 1;
}
'''),
dict(id='h04_headers_end_anywhere', property='H02',
 needs='end_headers() called where a header value is due',
 what='ending the headers no longer insists on its turn',
 edits=[('src/http.h','''		state::assert_next(http::item::header_name);

		put_crlf();

		set_pstate(http::item::body);''','''		if (state::next() < http::item::header_name) {
			state::assert_next(http::item::header_name);
		}

		put_crlf();

		set_pstate(http::item::body);''')],
 demo=PRE+'''int main() {
	std::stringbuf sb(std::ios::out);
	abc::http_response_ostream<L> out(&sb, nullptr);
	out.put_protocol("HTTP/1.1"); out.put_status_code("200"); out.put_reason_phrase("OK"); out.put_header_name("Host");
	try { out.end_headers(); return 1; } catch (const std::logic_error&) { }
	return 0;
}
'''),
dict(id='h06_bare_cr_is_a_line_end', property='H04',
 needs='a CR that is not followed by LF at the end of an element',
 what='a CR without LF is taken as a line end',
 edits=[('src/http.h','''		if (ch != '\\n') {
			base::set_fail();
			return 1;
		}''','''		if (ch != '\\n') {
			return 1;
		}''')],
 demo=PRE+'''int main() {
	std::stringbuf sb("200 OK\\rX-Injected: 1\\r\\n\\r\\n", std::ios::in);
	abc::http_response_istream<L> in(&sb, nullptr);
	in.abc::http_state<L>::reset(abc::http::item::status_code);
	char b[64];
	in.get_status_code(b, sizeof(b));
	in.get_reason_phrase(b, sizeof(b));
	return in.is_good() ? 1 : 0;
}
'''),
dict(id='h07_missing_colon', property='H04',
 needs='a header line without a colon, the blank after the name followed by another character',
 what='a header name that is followed by a blank instead of a colon is accepted',
 edits=[('src/http.h','''		skip_spaces();

		if (gcount == 0) {
			skip_crlf();''','''		std::size_t sp = skip_spaces();

		if (gcount == 0) {
			skip_crlf();'''),('src/http.h','''			if (ch != ':') {
				base::set_bad();''','''			if (ch != ':' && sp == 0) {
				base::set_bad();''')],
 demo=PRE+'''int main() {
	std::stringbuf sb("Host =value\\r\\n\\r\\n", std::ios::in);
	abc::http_response_istream<L> in(&sb, nullptr);
	in.abc::http_state<L>::reset(abc::http::item::header_name);
	char b[64];
	in.get_header_name(b, sizeof(b));
	return in.is_good() ? 1 : 0;
}
'''),
dict(id='h08_header_injection', property='H05',
 needs='a header value with a CR LF that is followed by something else than a blank',
 what='the writer takes any printable or line end character of the value as part of it: a line end inside a value starts a header of the attacker\'s choice',
 edits=[('src/http.h','''	inline std::size_t http_ostream<Log>::put_prints(const char* buffer, std::size_t size) {
		return put_chars(ascii::is_abcprint, buffer, size);''','''	inline std::size_t http_ostream<Log>::put_prints(const char* buffer, std::size_t size) {
		return put_chars([](char ch) noexcept { return !ascii::is_space(ch) && (ascii::is_abcprint(ch) || ascii::json::is_space(ch)); }, buffer, size);''')],
 demo=PRE+'''int main() {
	std::stringbuf sb(std::ios::out);
	abc::http_response_ostream<L> out(&sb, nullptr);
	out.put_protocol("HTTP/1.1"); out.put_status_code("200"); out.put_reason_phrase("OK"); out.put_header_name("A");
	out.put_header_value("x\\r\\nB: y");
	return sb.str().find("\\r\\nB:") == std::string::npos ? 0 : 1;
}
'''),
dict(id='h09_reason_phrase_crlf', property='H05',
 needs='a response without a reason phrase',
 what='without a reason phrase the status line is not ended',
 edits=[('src/http.h','''			pcount = base::put_prints_and_spaces(buffer, size);
		}

		base::put_crlf();''','''			pcount = base::put_prints_and_spaces(buffer, size);
		}

		if (buffer != nullptr) {
			base::put_crlf();
		}''')],
 demo=PRE+'''int main() {
	std::stringbuf sb(std::ios::out);
	abc::http_response_ostream<L> out(&sb, nullptr);
	out.put_protocol("HTTP/1.1"); out.put_status_code("200"); out.put_reason_phrase(nullptr); out.end_headers();
	return sb.str() == "HTTP/1.1 200 \\r\\n\\r\\n" ? 0 : 1;
}
'''),
 dict(id='H07-late-body', property='H07', needs='a body that is followed by nothing for a while, on a stream buffer that buffers', what='what is written of a body stays in the stream buffer until the next element or an explicit flush',
  edits=[('src/http.h', """		base::flush();
		state::reset(next);""", """		// A body may come in many pieces.
		if (next != http::item::body) {
			base::flush();
		}

		state::reset(next);""")],
  demo=r"""#include <sstream>
#include "log.h"
#include "http.h"
struct B : std::stringbuf { std::string sent; int sync() override { sent = str(); return 0; } };
int main() {
	B b; abc::http_response_ostream<abc::null_log> h(&b);
	h.put_protocol("HTTP/1.1"); h.put_status_code("200"); h.put_reason_phrase("OK"); h.put_header_name("A"); h.put_header_value("b");
	if (b.sent != b.str()) return 2;
	h.end_headers();
	h.put_body("hello");
	return b.sent == b.str() ? 0 : 1;
}
"""),
]
