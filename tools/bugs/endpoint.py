# Planted changes of the endpoint.
E = 'src/endpoint.h'
PRE = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <thread>
#include <chrono>
#include <functional>
#include <unistd.h>
#include <sys/stat.h>
#include "endpoint.h"
struct L {
	template <typename... A> void put_any(A...) {}
	template <typename... A> void put_anyv(A...) {}
	template <typename... A> void put_binary(A...) {}
	template <typename... A> void put_blank_line(A...) {}
};
static int dropped = 0; static std::future<void>* stopped = nullptr; static bool late = false;
struct C { // a connection whose other side sends a text and keeps what it gets
	std::string in; std::size_t at = 0; std::string* out; bool mine = true;
	C(const std::string& i, std::string* o) : in(i), out(o) {}
	C(C&& o) : in(o.in), at(o.at), out(o.out), mine(o.mine) { o.mine = false; }
	~C() { if (mine && at == 0) dropped++; }
	std::size_t receive(void* b, std::size_t n) { std::size_t k = 0; while (k < n && at < in.size()) ((char*)b)[k++] = in[at++]; return k; }
	std::size_t send(const void* b, std::size_t n) { out->append((const char*)b, n); if (stopped && stopped->wait_for(std::chrono::seconds(0)) == std::future_status::ready) late = true; return n; }
};
static std::function<C()> next_connection;
struct S { void bind(const char*) {} void listen(std::size_t) {} C accept() { return next_connection(); } };
typedef abc::endpoint<S, C, abc::endpoint_limits, L> base;
struct EP : base { EP(abc::endpoint_config* c) : base(c, nullptr) {} S create_server_socket() override { return S(); } };
static std::string dir() { char t[] = "/tmp/epXXXXXX"; return mkdtemp(t); }
static void put(const std::string& p, const std::string& s) { FILE* f = fopen(p.c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
static std::string ask(EP& e, const std::string& line) { std::string out; e.process_request(C(line + " HTTP/1.1\r\n\r\n", &out)); return out; }
static bool whole(const std::string& r) { // a complete response with the length it announces
	std::size_t p = r.find("\r\n\r\n"), l = r.find("Content-Length: ");
	return p != std::string::npos && l != std::string::npos && r.size() - p - 4 == strtoul(r.c_str() + l + 16, nullptr, 10);
}
static bool starts(const std::string& r, const char* s) { return r.compare(0, strlen(s), s) == 0; }
static void clean(const std::string& d) { for (const char* f : { "/files/a.txt", "/files/e.txt", "/files/a.json", "/s.txt" }) unlink((d + f).c_str()); rmdir((d + "/files").c_str()); rmdir(d.c_str()); }
'''
def bug(id, needs, what, edits, main, san=False):
    return dict(id=id, property=id.split('-')[0], needs=needs, what=what, edits=[(E, a, b) for a, b in edits], demo=PRE + main, san=san)
FILE = r'''
	std::string d = dir(); mkdir((d + "/files").c_str(), 0755); put(d + "/files/a.txt", "hello"); put(d + "/files/e.txt", ""); put(d + "/files/a.json", "{}"); put(d + "/s.txt", "secret");
	abc::endpoint_config cfg("1", 5, d.c_str(), "/files/", "", "", ""); EP e(&cfg);
'''
BUGS = [
 bug('E01-empty-file', 'a request for an empty file', 'the response to a request for an empty file ends without Content-Length and without the end of its headers',
  [('''		http.put_header_name(header::Content_Length);
		http.put_header_value(fsize_buffer);
''', '''		// There is nothing more to send for an empty file.
		if (fsize == 0) {
			return;
		}

		http.put_header_name(header::Content_Length);
		http.put_header_value(fsize_buffer);
''')], 'int main() {' + FILE + ' bool ok = whole(ask(e, "GET /files/a.txt")) && whole(ask(e, "GET /files/e.txt")); clean(d); return ok ? 0 : 1; }'),
 bug('E01-length-of-text', 'a body of 256 characters or more', 'Content-Length of a simple response is the length modulo 256',
  [('''		std::snprintf(content_length, Limits::fsize_size, "%zu", std::strlen(body));''', '''		const std::uint8_t body_size = static_cast<std::uint8_t>(std::strlen(body));
		std::snprintf(content_length, Limits::fsize_size, "%zu", static_cast<std::size_t>(body_size));''')],
  r'''
struct EQ : EP { std::size_t n = 3; EQ(abc::endpoint_config* c) : EP(c) {} void process_rest_request(abc::http_server_stream<L>& h, const char*, const char*) override { send_simple_response(h, "200", "OK", "text/plain", std::string(n, 'x').c_str(), 0x1); } };
int main() { abc::endpoint_config cfg("1", 5, "/tmp", "/files/", "", "", ""); EQ e(&cfg); if (!whole(ask(e, "GET /x"))) return 2; e.n = 300; return whole(ask(e, "GET /x")) ? 0 : 1; }'''),
 bug('E02-whole-path', 'a resource that fits the path but not behind the root dir', 'the resource may fill as much as the whole path buffer, behind the root dir',
  [('http.get_resource(resource, sizeof(path) - _config->root_dir_len);', 'http.get_resource(resource, sizeof(path));')],
  r'''
int main() { std::string root(1000, 'r'); abc::endpoint_config cfg("1", 5, root.c_str(), "/files/", "", "", ""); EP e(&cfg); ask(e, "GET /files/" + std::string(900, 'x')); ask(e, "GET /files/" + std::string(2000, 'x')); return 0; }''', san=True),
 bug('E02-method-room', 'a method of more than 32 characters', 'the method may be as long as a resource',
  [('http.get_method(method, sizeof(method));', 'http.get_method(method, sizeof(path_limits));'), ('''		char method[Limits::method_size + 1];
''', '''		char path_limits[Limits::resource_size + 1];
		char method[Limits::method_size + 1];
''')], r'''
int main() { abc::endpoint_config cfg("1", 5, "/tmp", "/files/", "", "", ""); EP e(&cfg); ask(e, "GET /files/x"); ask(e, std::string(100, 'M') + " /files/x"); return 0; }''', san=True),
 bug('E03-as-is', 'a request for a resource that is not under the root dir but exists elsewhere, with a prefix that lets it through', 'a resource that does not exist under the root dir is looked up as an absolute path',
  [('''			process_file_request(http, method, resource, path);
''', '''			process_file_request(http, method, resource, ::access(path, R_OK) == 0 ? path : resource);
''')], r'''int main() {''' + FILE + r''' abc::endpoint_config c2("1", 5, (new std::string(d + "/files"))->c_str(), "/", "", "", ""); EP f(&c2); bool ok = starts(ask(f, "GET /a.txt"), "HTTP/1.1 200") && starts(ask(f, "GET /no.txt"), "HTTP/1.1 404") && starts(ask(f, "GET " + d + "/s.txt"), "HTTP/1.1 404"); clean(d); return ok ? 0 : 1; }'''),
 bug('E04-early-promise', 'another request in progress that has not been counted when shutdown is requested', 'shutdown is signaled when it is requested, before the response to that request is sent, if no other request is counted; and again when it ends',
  [('''		_is_shutdown_requested = true;
''', '''		_is_shutdown_requested = true;

		// If this is the only request, there is nothing to wait for.
		if (_requests_in_progress == 1 && !_is_shutdown_completed.exchange(true)) {
			_promise.set_value();
		}
''')], r'''
struct EQ : EP { std::future<void> f; bool early = false; EQ(abc::endpoint_config* c) : EP(c) { f = _promise.get_future(); } void process_rest_request(abc::http_server_stream<L>& h, const char* m, const char* r) override { base::process_rest_request(h, m, r); early = f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; } };
int main() { abc::endpoint_config cfg("1", 5, "/tmp", "/files/", "", "", ""); EQ e(&cfg); ask(e, "POST /shutdown"); return !e.early && e.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready ? 0 : 1; }'''),
 bug('E04-empty-method', 'a connection that is closed before a request, and a request for shutdown later', 'a request without a method stays counted, so that shutdown never completes',
  [('''		// This endpoint supports two kinds of requests:
''', '''		// Ignore connections that are closed without a request.
		if (method[0] == '\\0') {
			return;
		}

		// This endpoint supports two kinds of requests:
''')], r'''
int main() { abc::endpoint_config cfg("1", 5, "/tmp", "/files/", "", "", ""); EP e(&cfg); std::future<void> f = e._promise.get_future(); std::string out; e.process_request(C("", &out)); ask(e, "POST /shutdown"); return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready ? 0 : 1; }'''),
 bug('E05-drop-busy', 'more requests in progress than the queue has places', 'connections that are accepted while many requests are in progress are dropped without a response',
  [('''			ClientSocket connection = listener.accept();
''', '''			ClientSocket connection = listener.accept();

			// Don't let too many requests pile up.
			if (static_cast<std::size_t>(_requests_in_progress) > _config->listen_queue_size) {
				continue;
			}

''')], r'''
int main() { abc::endpoint_config cfg("1", 1, "/tmp", "/files/", "", "", ""); static EP* e = new EP(&cfg); static std::string out[8]; static int n = 0;
 next_connection = []() -> C { int i = n++; if (i == 0) ++e->_requests_in_progress, ++e->_requests_in_progress; if (i == 3) { std::this_thread::sleep_for(std::chrono::milliseconds(300)); throw 1; } return C("GET /x HTTP/1.1\r\n\r\n", &out[i]); };
 try { e->start(); } catch (int) {} for (int i = 0; i < 3; i++) if (!whole(out[i])) _Exit(1); _Exit(0); }'''),
 bug('E05-idle-stop', 'no request in progress when the loop looks', 'the endpoint stops accepting as soon as no request is in progress, although shutdown was not requested',
  [('while (_requests_in_progress != 0 || !_is_shutdown_requested) {', 'for (bool is_first = true; is_first || _requests_in_progress != 0; is_first = false) {')], r'''
int main() { abc::endpoint_config cfg("1", 1, "/tmp", "/files/", "", "", ""); static EP* e = new EP(&cfg); static std::string out[8]; static int n = 0;
 next_connection = []() -> C { int i = n++; if (i == 3) throw 1; std::this_thread::sleep_for(std::chrono::milliseconds(100)); return C("GET /x HTTP/1.1\r\n\r\n", &out[i]); };
 try { e->start(); } catch (int) {} _Exit(n == 4 ? 0 : 1); }'''),
 bug('E06-head', 'a HEAD request for a file', 'HEAD is let through, and gets the file as the body of its response',
  [('if (!ascii::are_equal_i(method, method::GET)) {', 'if (!ascii::are_equal_i(method, method::GET) && !ascii::are_equal_i(method, method::HEAD)) {')],
  'int main() {' + FILE + ' bool ok = starts(ask(e, "GET /files/a.txt"), "HTTP/1.1 200") && starts(ask(e, "HEAD /files/a.txt"), "HTTP/1.1 405"); clean(d); return ok ? 0 : 1; }'),
 bug('E06-json-type', 'a file whose extension begins like a known one', 'files with the extension .json are announced as JavaScript',
  [('ascii::are_equal_i(ext, ".js")', 'ascii::are_equal_i_n(ext, ".js", 3)')],
  'int main() {' + FILE + ' bool ok = ask(e, "GET /files/a.txt").find("text/plain") != std::string::npos && ask(e, "GET /files/a.json").find("javascript") == std::string::npos; clean(d); return ok ? 0 : 1; }'),
]
