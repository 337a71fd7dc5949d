// Endpoint: one request, from the accepted connection to the flushed response, against models
// of the HTTP stream, of the files, of the shared counters and of the threads.
#include <new>
#include <utility>
#include <sys/stat.h>
#include "vf_log.h"
#include "socket.h"
#include "http.h"
#include <fstream>
#include <future>
#include <thread>
#include <atomic>
#include <cstdio>
#include <cstring>

extern "C" {
	int g_root, g_prefix; // these are configured
	int g_res;      // response: 0 nothing, 1 protocol, 2 status, 3 reason, 4 between headers, 5 header name, 6 body
	int g_req;      // request: 0 nothing, 1 method, 2 resource, 3 protocol
	int g_code;     // status code of the response
	int g_name;     // last header name: 1 Content-Length, 2 Content-Type, 3 Connection, 4 another
	int g_lengths;  // Content-Length headers
	int g_method;   // 1 GET, 2 POST, 3 another
	int g_shut;     // the resource is the shutdown resource
	int g_kind;     // 1 file request, 2 REST request
	int g_stat;     // 0 not asked, 1 no such file, 2 not a regular file, 3 a regular file
	int g_open;     // 0 not opened, 1 failed, 2 open
	int g_shrunk;   // the file is shorter than it was
	int g_up;       // the resource contains a segment that leads up
	int g_k0;       // ... at its begin
	int g_at;       // 1 this segment was found, 0 something before it, 2 something else
	int g_outer;    // 1 the handlers are not part of the analysis
	int g_ext;      // the extension that was recognized
	int g_touched;  // a file was looked at
	int g_in, g_out; // this request was counted, uncounted
	int g_zero;     // the count was 0 then
	int g_flag;     // the last value seen of the shutdown flag
	int g_seen;     // 1 the flag was looked at while counted, 2 after being uncounted
	int g_first;    // this request is the first to complete the shutdown
	int g_set;      // the shutdown flag was set by this request
	int g_done;     // the promise was signaled
	int g_bound, g_listen, g_conn, g_threads, g_joinable, g_lost;
	const char* v_method; const char* v_resource; const char* v_path; const char* v_root;
	std::size_t v_room, v_rootlen, v_k, v_len, v_body, v_fsize; const char* v_lenbuf; const char* v_port; std::size_t v_queue;
	long v_left; void* v_count; void* v_flag; void* v_completed;
}
template <std::size_t I, std::size_t N> struct vf_same { static inline bool at(const char* s, const char* t) { return s[I] == t[I] && vf_same<I + 1, N>::at(s, t); } };
template <std::size_t N> struct vf_same<N, N> { static inline bool at(const char*, const char*) { return true; } };
template <std::size_t N> static inline bool same(const char* s, const char (&t)[N]) { return vf_same<0, N>::at(s, t); }

// --- HTTP
namespace abc {
	template <typename Log> struct vf_http_server_stream {
		template <typename B> explicit vf_http_server_stream(B*, Log* = nullptr) {}
		void get_method(char* b, std::size_t n) {
			vf_assert(g_req == 0, "[response] the method is read first"); g_req = 1;
			vf_assert(n >= 1, "[fits] a text has room for its terminator"); vf_store(b, n); vf_text(b); v_method = b;
			if (g_outer == 1) g_method = 3; else if (vf_nondet_bool()) g_method = 1; else if (vf_nondet_bool()) g_method = 2; else g_method = 3;
		}
		void get_resource(char* b, std::size_t n) {
			vf_assert(g_req == 1, "[response] the resource is read after the method"); g_req = 2;
			vf_assert(n >= 1, "[fits] a text has room for its terminator");
			vf_store(b, n); vf_text(b); v_resource = b; v_room = n;
			if (g_outer == 1) g_shut = 0; else if (g_outer < 3 && vf_nondet_bool()) {
				g_up = 1; std::size_t k = vf_nondet_size();
				vf_assume(k < n); vf_assume(n - k >= 3);
				if (vf_nondet_bool()) { g_k0 = 1; vf_assume(k == 0); b[0] = '.'; b[1] = '.'; if (n > 3 && vf_nondet_bool()) b[2] = '/'; else b[2] = 0; }
				else { vf_assume(k >= 1); b[k - 1] = '/'; b[k] = '.'; b[k + 1] = '.'; if (vf_nondet_bool()) b[k + 2] = '/'; else b[k + 2] = 0; }
				v_k = k;
			}
			else if (g_outer < 2 || g_outer == 3) g_shut = vf_nondet_bool() ? 1 : 0;
		}
		void get_protocol(char* b, std::size_t n) {
			vf_assert(g_req == 2, "[response] the protocol is read after the resource"); g_req = 3;
			vf_assert(n >= 1, "[fits] a text has room for its terminator"); vf_store(b, n); vf_text(b);
		}
		void put_protocol(const char*, std::size_t = size::strlen) {
			vf_assert(g_in == 1 && g_out == 0, "[shutdown] a response is sent while the request is counted");
			vf_assert(g_seen == 1 && g_flag == 0 || g_set == 1, "[shutdown] no response is started after shutdown was requested");
			vf_assert(g_req == 3, "[response] the request line is read before the response is written");
			vf_assert(g_res == 0, "[response] one response is sent"); g_res = 1;
		}
		void put_status_code(const char* s, std::size_t = size::strlen) {
			vf_assert(g_res == 1, "[response] the status code follows the protocol"); g_res = 2;
			if (g_outer == 5) g_code = 1; else if (same(s, "200")) g_code = 200; else if (same(s, "404")) g_code = 404; else if (same(s, "405")) g_code = 405; else g_code = 1;
		}
		void put_reason_phrase(const char* s, std::size_t = size::strlen) {
			vf_assert(g_res == 2, "[response] the reason phrase follows the status code"); g_res = 3;
			if (g_code == 200) vf_assert(same(s, "OK"), "[outcome] the reason phrase is that of the status code");
			if (g_code == 404) vf_assert(same(s, "Not Found"), "[outcome] the reason phrase is that of the status code");
			if (g_code == 405) vf_assert(same(s, "Method Not Allowed"), "[outcome] the reason phrase is that of the status code");
		}
		void put_header_name(const char* s, std::size_t = size::strlen) {
			vf_assert(g_res == 3 || g_res == 4, "[response] a header follows the reason phrase or a header"); g_res = 5;
			if (same(s, "Content-Length")) { g_name = 1; g_lengths++; } else if (same(s, "Content-Type")) g_name = 2; else if (same(s, "Connection")) g_name = 3; else g_name = 4;
		}
		void put_header_value(const char* s, std::size_t = size::strlen) {
			vf_assert(g_res == 5, "[response] a header value follows its name"); g_res = 4;
			vf_assert(s != nullptr, "[response] a header has a value");
			if (g_name == 1) vf_assert(s == v_lenbuf, "[response] Content-Length is the length that was formatted");
			if (g_name == 3) vf_assert(same(s, "close"), "[response] the connection is announced to be closed");
		}
		void end_headers() {
			vf_assert(g_res == 4, "[response] the headers end after a header"); g_res = 6;
			vf_assert(g_lengths == 1, "[response] a response has one Content-Length");
			v_body = 0; v_left = v_len;
		}
		void put_body(const char* s, std::size_t n = size::strlen) {
			vf_assert(g_res == 6, "[response] the body follows the headers");
			if (n == size::strlen) n = __builtin_strlen(s); else vf_load(s, n);
			v_body += n; v_left -= n; // the same sum, counted up and down: code does one or the other
		}
		void flush() {
			/* every element was flushed when it was put: H07 */
		}
	};
	template <typename S, typename Log> struct vf_socket_streambuf { explicit vf_socket_streambuf(S*, Log* = nullptr) {} };
	namespace ascii {
		static inline bool vf_same_text(const char* a, const char* b) {
			if (b == v_method || b == v_resource) { const char* t = a; a = b; b = t; }
			if (a == v_method) { if (same(b, "GET")) return g_method == 1; if (same(b, "POST")) return g_method == 2; vf_assume(g_method == 3); }
			else if (a == v_resource && same(b, "/shutdown")) return g_shut == 1;
			else if (g_outer == 4 && vf_nondet_bool()) {
				if (same(b, ".html")) g_ext = 1; else if (same(b, ".css")) g_ext = 2; else if (same(b, ".js")) g_ext = 3; else if (same(b, ".txt")) g_ext = 4;
				else if (same(b, ".xml")) g_ext = 5; else if (same(b, ".png")) g_ext = 6; else if (same(b, ".jpeg") || same(b, ".jpg")) g_ext = 7;
				else if (same(b, ".gif")) g_ext = 8; else if (same(b, ".bmp")) g_ext = 9; else if (same(b, ".svg")) g_ext = 10; else g_ext = 11;
				return true;
			}
			else if (g_outer == 4) return false;
			return vf_nondet_bool();
		}
		static inline bool vf_are_equal(const char* a, const char* b) { return vf_same_text(a, b); }
		static inline bool vf_are_equal_i(const char* a, const char* b) { return vf_same_text(a, b); }
		static inline bool vf_are_equal_i_n(const char* a, const char* b, std::size_t) { return vf_nondet_bool(); }
	}
}

// --- files
extern "C" int m_stat(const char* p, struct stat* st) VF_MODEL("stat");
static inline void touched(const char* p) {
	g_touched = 1;
	vf_assert(g_up == 0, "[inside] no file is looked at for a resource that leads up");
	vf_assert(p == v_path, "[inside] the file that is looked at is the resource under the root dir");
}
extern "C" int m_stat64(const char* p, struct stat* st) VF_MODEL("stat64");
int m_stat64(const char* p, struct stat* st) { return m_stat(p, st); }
int m_stat(const char* p, struct stat* st) {
	touched(p);
	if (vf_nondet_bool()) { g_stat = 1; return -1; }
	vf_store(st, sizeof(*st));
	if (vf_nondet_bool()) { g_stat = 2; st->st_mode = S_IFDIR | 0755; } else { g_stat = 3; st->st_mode = S_IFREG | 0644; }
	v_fsize = vf_nondet_size(); vf_assume(v_fsize <= 0x7fffffffffffffffUL); st->st_size = v_fsize;
	return 0;
}
extern "C" char* m_strstr(const char* h, const char* n) VF_MODEL("strstr");
char* m_strstr(const char* h, const char* n) {
	std::size_t d = vf_nondet_size();
	if (n[0] == '.' && n[1] == '.' && n[2] == 0 && g_up == 1) {
		const char* at = v_resource + v_k;
		if (h <= at) {
			if (g_k0 || vf_nondet_bool()) { g_at = 1; vf_text(at + 2); return const_cast<char*>(at); }
			g_at = 0; vf_assume(d < v_k); vf_assume(h <= v_resource + d);
			vf_text(v_resource + d + 2); return const_cast<char*>(v_resource + d);
		}
	}
	if (vf_nondet_bool()) return nullptr;
	g_at = 2; vf_assume(d < 4096); vf_assume(d + 3 <= v_room); vf_assume(h <= v_resource + d);
	vf_text(v_resource + d + 2); return const_cast<char*>(v_resource + d);
}
namespace std {
	struct vf_ifstream {
		std::size_t n;
		explicit vf_ifstream(const char* p, std::ios_base::openmode = std::ios_base::in) { open(p); }
		vf_ifstream() {}
		void open(const char* p, std::ios_base::openmode = std::ios_base::in) { touched(p); n = 0; if (vf_nondet_bool()) g_open = 1; else { g_open = 2; g_shrunk = vf_nondet_bool() ? 1 : 0; } }
		bool is_open() const { return g_open == 2; }
		bool good() const { return g_open == 2; }
		bool operator!() const { return g_open != 2; }
		explicit operator bool() const { return g_open == 2; }
		vf_ifstream& read(char* b, std::streamsize size) {
			vf_assert(g_open == 2, "[outcome] a file that was opened is read");
			vf_assert(size >= 0, "[fits] a size is not negative");
			vf_store(b, size); n = size;
			if (g_shrunk == 1) { n = vf_nondet_size(); vf_assume(n <= static_cast<std::size_t>(size)); }
			return *this;
		}
		std::streamsize gcount() const { return n; }
		void close() {}
	};
	template <typename T> static inline int vf_snprintf(char* b, std::size_t n, const char* f, T value) {
		vf_store(b, n); vf_text(b);
		vf_assert(n >= 21, "[fits] any length fits its buffer");
		vf_assert(same(f, "%zu") || same(f, "%lu"), "[response] a length is formatted as a decimal number");
		v_len = value; v_lenbuf = b;
		return 1;
	}
// --- shared state: any other thread may change it at any time
	struct vf_atomic_int32 {
		int x;
		vf_atomic_int32(int v) : x(v) { v_count = this; }
		void in() { vf_assert(g_in == 0, "[shutdown] a request is counted once"); g_in = 1; g_seen = 0; }
		int out() {
			vf_assert(g_in == 1 && g_out == 0, "[shutdown] a request that is counted is uncounted once"); vf_assert(g_res == 0 || g_res == 6, "[shutdown] the response was sent before the request is uncounted"); g_out = 1; g_seen = 0;
			if (vf_nondet_bool()) { g_zero = 1; return 0; }
			g_zero = 0; int n = vf_nondet_int(); vf_assume(n >= 1); return n;
		}
		int operator++() { in(); int n = vf_nondet_int(); vf_assume(n >= 1); return n; }
		int operator++(int) { in(); int n = vf_nondet_int(); vf_assume(n >= 0); return n; }
		int operator--() { return out(); }
		int operator--(int) { return out() + 1; }
		int fetch_add(int n) { vf_assert(n == 1, "[shutdown] requests are counted one by one"); in(); int r = vf_nondet_int(); vf_assume(r >= 0); return r; }
		int fetch_sub(int n) { vf_assert(n == 1, "[shutdown] requests are counted one by one"); return out() + 1; }
		int load() const { int n = vf_nondet_int(); vf_assume(n >= 0); return n; }
		operator int() const { return load(); }
	};
	struct vf_atomic_bool {
		int id; // 1 shutdown requested, 2 shutdown completed
		vf_atomic_bool(bool) {}
		bool load() const {
			if (this == v_completed) return vf_nondet_bool();
			if (g_set == 0 && g_flag == 0) g_flag = vf_nondet_bool() ? 1 : 0; // once set it stays set
			if (g_set == 1) g_flag = 1;
			g_seen = g_out == 1 ? 2 : g_in == 1 ? 1 : 0;
			return g_flag == 1;
		}
		operator bool() const { return load(); }
		void store(bool v) {
			if (this == v_completed) { vf_assert(false, "[shutdown] completion is claimed atomically"); }
			vf_assert(v, "[shutdown] a request for shutdown is not withdrawn");
			vf_assert(g_in == 1 && g_out == 0, "[shutdown] shutdown is requested while the request is counted");
			g_set = 1;
		}
		bool operator=(bool v) { store(v); return v; }
		bool exchange(bool v) {
			if (this != v_completed) { bool r = load(); store(v); return r; }
			vf_assert(v, "[shutdown] completion is not withdrawn");
			vf_assert(g_out == 1 && g_zero == 1 && g_seen == 2 && g_flag == 1, "[shutdown] shutdown completes when it was requested and no request is left");
			if (vf_nondet_bool()) { g_first = 1; return false; }
			g_first = 2; return true;
		}
		bool compare_exchange_strong(bool& e, bool v) { vf_assert(!e, "[shutdown] completion is claimed once"); bool r = exchange(v); e = r; return !r; }
	};
	template <typename T> struct vf_promise {
		vf_promise() {}
		void set_value() {
			vf_assert(g_done == 0, "[shutdown] completion is signaled once");
			vf_assert(g_out == 1 && g_zero == 1 && g_seen == 2 && g_flag == 1, "[shutdown] shutdown completes when it was requested and no request is left");
			vf_assert(g_first == 1, "[shutdown] completion is signaled by one request only");
			g_done = 1;
		}
		std::future<T> get_future();
	};
	struct vf_thread {
		template <typename F, typename O> vf_thread(F f, O* o) { g_threads++; g_joinable = 1; }
		template <typename F, typename O, typename C> vf_thread(F f, O* o, C&& c) {
			vf_assert(c.id == 1, "[serve] a thread gets the connection that was accepted");
			vf_assert(f == &O::process_request_thread_func, "[serve] the thread processes the request");
			C mine(std::move(c)); mine.id = 0; g_conn = 0; g_joinable = 1;
		}
		void detach() { g_joinable = 0; }
		~vf_thread() { vf_assert(g_joinable == 0, "[serve] a thread object is not dropped while it is joinable"); }
	};
}

// --- sockets
struct vf_client {
	int id; // 1 open
	explicit vf_client(int i) : id(i) {}
	vf_client(vf_client&& o) noexcept : id(o.id) { o.id = 0; }
	~vf_client() { if (id == 1) { vf_assert(g_conn == 0, "[serve] no accepted connection is dropped"); } }
};
struct vf_server {
	vf_server() {}
	vf_server(vf_server&&) {}
	void bind(const char* p) { vf_assert(p == v_port, "[serve] the endpoint is bound to the configured port"); vf_assert(g_bound == 0, "[serve] the endpoint is bound once"); g_bound = 1; }
	void listen(int n) { vf_assert(g_bound == 1, "[serve] the endpoint is bound before it listens"); vf_assert(n == (int)v_queue, "[serve] the queue has the configured size"); g_listen = 1; }
	vf_client accept() { vf_assert(g_listen == 1, "[serve] connections are accepted after listening"); vf_assert(g_conn == 0, "[serve] every accepted connection is handed to a thread"); g_conn = 1; return vf_client(1); }
};

#define http_server_stream vf_http_server_stream
#define socket_streambuf vf_socket_streambuf
#define ifstream vf_ifstream
#define promise vf_promise
#define thread vf_thread
#define atomic_int32_t vf_atomic_int32
#define atomic_bool vf_atomic_bool
#define snprintf vf_snprintf
#define are_equal vf_are_equal
#define are_equal_i vf_are_equal_i
#define are_equal_i_n vf_are_equal_i_n
#include "endpoint.h"
#undef thread

typedef abc::endpoint<vf_server, vf_client, abc::endpoint_limits, vf_log> base;
struct ep final : base {
	ep(abc::endpoint_config* c, vf_log* l) : base(c, l) {}
	vf_server create_server_socket() override { return vf_server(); }
};
// The handlers are judged on their own. Here they only send a response.
struct outer final : base {
	outer(abc::endpoint_config* c, vf_log* l) : base(c, l) {}
	vf_server create_server_socket() override { return vf_server(); }
	void respond(abc::vf_http_server_stream<vf_log>& http) {
		http.put_protocol("HTTP/1.1"); vf_assert(g_kind == 0, "[response] a request is processed once"); g_res = 6; v_body = v_len = v_left = 0;
	}
	void process_file_request(abc::vf_http_server_stream<vf_log>& http, const char* method, const char* resource, const char* path) override {
		vf_assert(method == v_method && resource == v_resource, "[response] the request is processed as it was received");
		vf_assert(path + v_rootlen == v_resource, "[inside] the path is the resource under the root dir");
		respond(http); g_kind = 1;
	}
	void process_rest_request(abc::vf_http_server_stream<vf_log>& http, const char* method, const char* resource) override {
		vf_assert(method == v_method && resource == v_resource, "[response] the request is processed as it was received");
		if (vf_nondet_bool()) set_shutdown_requested();
		respond(http); g_kind = 2;
	}
};
static inline void init() {
	g_res = g_req = g_code = g_name = g_lengths = g_method = g_shut = g_ext = g_outer = g_kind = g_stat = g_open = g_shrunk = g_up = g_k0 = g_touched = g_at = 0;
	g_in = g_out = g_zero = g_flag = g_seen = g_first = g_set = g_done = 0;
	g_bound = g_listen = g_conn = g_threads = g_joinable = g_lost = 0;
	v_method = v_resource = v_path = v_root = v_lenbuf = nullptr; v_left = v_len = v_body = v_fsize = v_k = v_rootlen = 0;
	v_completed = nullptr;
}
static inline void config(const char* port, const char* root, const char* prefix) {
	init();
	vf_cstring(port);
	if (root != nullptr) { g_root = 1; vf_cstring(root); } else g_root = 0;
	if (prefix != nullptr) { g_prefix = 1; vf_cstring(prefix); } else g_prefix = 0;
}
static inline void complete() {
	if (g_shrunk == 0) vf_assert(v_body == v_len || v_left == 0, "[response] the body has the length of Content-Length");
	else vf_assert(v_body <= v_len || v_left >= 0, "[response] the body is not longer than Content-Length");
}
#define CONFIG abc::endpoint_config cfg(port, queue, root, prefix, nullptr, nullptr, nullptr);
#define ARGS const char* port, std::size_t queue, const char* root, const char* prefix, vf_log* log
// A request, from any state of the shared counters.
extern "C" void H_request(ARGS) {
	config(port, root, prefix); g_outer = 1; CONFIG
	try {
		outer e(&cfg, log);
		v_rootlen = cfg.root_dir_len; v_completed = &e._is_shutdown_completed;
		e.process_request(vf_client(0));
		if (g_res != 0) vf_assert(g_res >= 6, "[response] a response that is started is completed");
		vf_assert(g_in == 1 && g_out == 1, "[shutdown] every request is counted and uncounted");
		vf_assert(g_res != 0 || g_flag == 1, "[response] every request gets a response unless shutdown was requested");
		if (g_zero == 1) {
			vf_assert(g_seen == 2, "[shutdown] the last request checks whether shutdown was requested");
			if (g_flag == 1) vf_assert(g_first != 0, "[shutdown] the last request completes a shutdown");
			if (g_first == 1) vf_assert(g_done == 1, "[shutdown] the completion of a shutdown is signaled");
		}
		if (g_kind == 1) vf_reach("must: file");
		if (g_kind == 2) vf_reach("must: REST");
		if (g_done == 1) vf_reach("must: shutdown completed");
		if (g_res == 0) vf_reach("must: no response");
		vf_reach("end");
	}
	catch (const std::logic_error&) { vf_assert(cfg.root_dir_len > 2048, "[response] only a root dir that is too long is rejected"); }
}
#define RECEIVED ep e(&cfg, log); v_rootlen = cfg.root_dir_len; v_completed = &e._is_shutdown_completed; g_in = 1; g_seen = 1; \
	abc::vf_http_server_stream<vf_log> http((int*)nullptr); \
	char method[33]; http.get_method(method, 33); char path[2049]; vf_text(path); v_path = path; char resource[2049]; http.get_resource(resource, 2049); g_req = 3;
extern "C" void H_file(const char* port, std::size_t queue, const char* root, vf_log* log) {
	config(port, root, ""); g_outer = 2; const char* prefix = ""; CONFIG
	try {
		RECEIVED
		e.process_file_request(http, method, resource, path);
		vf_assert(g_res == 6, "[response] a response is written");
		complete();
		vf_assert(g_set == 0, "[shutdown] a file request does not request shutdown");
		if (g_method != 1) vf_assert(g_code == 405, "[outcome] a file is only sent for GET");
		else if (g_stat == 3 && g_open == 2) { vf_assert(g_code == 200, "[outcome] a file that can be read is sent"); vf_assert(v_len == v_fsize, "[outcome] the whole file is sent"); }
		else vf_assert(g_code == 404, "[outcome] a file that cannot be read is reported as not found");
		if (g_code == 405) vf_reach("must: 405");
		if (g_code == 404) vf_reach("must: 404");
		if (g_code == 200) vf_reach("must: 200");
		if (g_up == 1) vf_reach("must: up");
		vf_reach("end");
	}
	catch (const std::logic_error&) {}
}
extern "C" void H_rest(const char* port, std::size_t queue, const char* root, vf_log* log) {
	config(port, root, ""); g_outer = 3; const char* prefix = ""; CONFIG
	try {
		RECEIVED
		e.process_rest_request(http, method, resource);
		vf_assert(g_res == 6, "[response] a response is written");
		complete();
		vf_assert(g_code == 200, "[outcome] a REST request is accepted");
		if (g_method == 2 && g_shut == 1) { vf_assert(g_set == 1, "[shutdown] POST /shutdown requests shutdown"); vf_reach("must: shutdown"); }
		else { vf_assert(g_set == 0, "[shutdown] only POST /shutdown requests shutdown"); vf_reach("must: another"); }
		vf_reach("end");
	}
	catch (const std::logic_error&) {}
}
extern "C" void H_simple(const char* port, std::size_t queue, const char* root, vf_log* log, const char* code, const char* phrase, const char* type, const char* body) {
	config(port, root, ""); g_outer = 5; const char* prefix = ""; CONFIG
	vf_cstring(code); vf_cstring(phrase); vf_cstring(type); vf_cstring(body); vf_assume(code != nullptr && phrase != nullptr && type != nullptr && body != nullptr);
	try {
		RECEIVED
		e.send_simple_response(http, code, phrase, type, body, 0x1);
		vf_assert(g_res == 6, "[response] a response is written");
		complete();
		vf_reach("must: end");
	}
	catch (const std::logic_error&) {}
}
extern "C" void H_start(ARGS) {
	config(port, root, prefix); CONFIG
	try {
		ep e(&cfg, log);
		v_port = port; v_queue = queue; v_completed = &e._is_shutdown_completed; g_in = g_out = 1;
		e.start();
		vf_assert(g_bound == 1 && g_listen == 1, "[serve] the endpoint has listened");
		vf_assert(g_conn == 0, "[serve] every accepted connection is handed to a thread");
		vf_assert(g_flag == 1, "[serve] the endpoint serves until shutdown is requested");
		vf_reach("must: end");
	}
	catch (const std::logic_error&) {}
}
#define TYPE(n, e, t) if (g_ext == n) { vf_assert(r != nullptr && same(r, t), "[outcome] the content type of " e " is " t); vf_reach("must: " e); }
extern "C" void H_type(const char* port, std::size_t queue, const char* root, const char* path) {
	config(port, root, ""); g_outer = 4; const char* prefix = ""; CONFIG
	vf_cstring(path); vf_assume(path != nullptr);
	try {
		ep e(&cfg, nullptr);
		const char* r = e.get_content_type_from_path(path);
		if (g_ext == 0) vf_assert(r == nullptr, "[outcome] a file of an unknown kind has no content type");
		TYPE(1, ".html", "text/html; charset=utf-8") TYPE(2, ".css", "text/css; charset=utf-8") TYPE(3, ".js", "text/javascript; charset=utf-8")
		TYPE(4, ".txt", "text/plain; charset=utf-8") TYPE(5, ".xml", "text/xml; charset=utf-8") TYPE(6, ".png", "image/png") TYPE(7, ".jpeg", "image/jpeg")
		TYPE(8, ".gif", "image/gif") TYPE(9, ".bmp", "image/bmp") TYPE(10, ".svg", "image/svg+xml")
		vf_reach("must: end");
	}
	catch (const std::logic_error&) {}
}
