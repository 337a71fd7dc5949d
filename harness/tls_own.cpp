// TLS sockets: ownership of the TLS handles and of the descriptor, and what must have happened
// before application data moves.
#include <new>
#include <utility>
#include <openssl/ssl.h>
#include "vf_log.h"
#include "vf_os.h"
#include "openssl_socket.h"
using namespace abc;
typedef openssl_tcp_server_socket<vf_log> server;
typedef openssl_tcp_client_socket<vf_log> client;
extern "C" {
	int g_logic, g_runtime;
	int g_ctx, g_ssl;       // context, session: 0 none, 1 alive, 2 released
	int g_ctx_mode, g_ssl_mode; // verification: 0 none, 1 peer, -1 not decided
	int g_fd;               // 1: the session has a descriptor
	int g_hand;             // handshake: 0 not yet, 1 worked, 2 failed
	int g_cert, g_key;      // certificate, key: 1 loaded, 2 failed
	int g_need;             // 1: a peer without certificate is refused
	int g_fail;             // 1: a call before the handshake failed
	int v_fd; char v_ctx, v_ssl, v_meth;
	int g_family;
}
static inline SSL_CTX* ctx() { return (SSL_CTX*)&v_ctx; }
static inline SSL* ssl() { return (SSL*)&v_ssl; }
static inline int yes() { if (vf_nondet_bool()) return 1; g_fail = 1; return 0; }
extern "C" const SSL_METHOD* m_cm(void) VF_MODEL("TLS_client_method");
const SSL_METHOD* m_cm() { return yes() ? (const SSL_METHOD*)&v_meth : nullptr; }
extern "C" const SSL_METHOD* m_sm(void) VF_MODEL("TLS_server_method");
const SSL_METHOD* m_sm() { return yes() ? (const SSL_METHOD*)&v_meth : nullptr; }
extern "C" SSL_CTX* m_cnew(const SSL_METHOD*) VF_MODEL("SSL_CTX_new");
SSL_CTX* m_cnew(const SSL_METHOD* m) {
	if (!yes()) return nullptr;
	vf_assert(g_ctx != 1, "[tls] one context per socket"); vf_assume(g_ctx != 1);
	g_ctx = 1; g_ctx_mode = -1; return ctx();
}
extern "C" void m_cfree(SSL_CTX*) VF_MODEL("SSL_CTX_free");
void m_cfree(SSL_CTX* c) { if (c == nullptr) return; vf_assert(g_ctx == 1, "[tls] a context is released once"); g_ctx = 2; }
extern "C" void m_cver(SSL_CTX*, int, void*) VF_MODEL("SSL_CTX_set_verify");
void m_cver(SSL_CTX* c, int mode, void*) { vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used"); if (mode & SSL_VERIFY_PEER) g_ctx_mode = 1; else g_ctx_mode = 0; if (mode & SSL_VERIFY_FAIL_IF_NO_PEER_CERT) g_need = 1; else g_need = 0; }
extern "C" void m_sver(SSL*, int, void*) VF_MODEL("SSL_set_verify");
void m_sver(SSL* s, int mode, void*) { vf_assert(s != nullptr && g_ssl == 1, "[tls] only a living session is used"); if (mode & SSL_VERIFY_PEER) g_ssl_mode = 1; else g_ssl_mode = 0; if (mode & SSL_VERIFY_FAIL_IF_NO_PEER_CERT) g_need = 1; else g_need = 0; }
extern "C" SSL* m_snew(SSL_CTX*) VF_MODEL("SSL_new");
SSL* m_snew(SSL_CTX* c) {
	vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used");
	if (!yes()) return nullptr;
	vf_assert(g_ssl != 1, "[tls] one session per socket"); vf_assume(g_ssl != 1);
	g_ssl = 1; g_ssl_mode = g_ctx_mode; g_fd = 0; return ssl();
}
extern "C" void m_sfree(SSL*) VF_MODEL("SSL_free");
void m_sfree(SSL* s) { if (s == nullptr) return; vf_assert(g_ssl == 1, "[tls] a session is released once"); g_ssl = 2; }
static inline void live(SSL* s) { vf_assert(s != nullptr && g_ssl == 1, "[tls] only a living session is used"); }
extern "C" int m_sfd(SSL*, int) VF_MODEL("SSL_set_fd");
int m_sfd(SSL* s, int fd) { live(s); vf_used(fd); if (!yes()) return 0; g_fd = 1; v_fd = fd; return 1; }
extern "C" int m_sdown(SSL*) VF_MODEL("SSL_shutdown");
int m_sdown(SSL* s) { live(s); if (g_fd == 1) vf_used(v_fd); return vf_nondet_int(); }
static inline int hand(SSL* s) {
	live(s);
	vf_assert(g_fd == 1, "[tls] the handshake goes through the descriptor of the socket");
	vf_used(v_fd);
	if (vf_nondet_bool()) { g_hand = 1; return 1; }
	g_hand = 2; if (vf_nondet_bool()) return 0; return -1;
}
extern "C" int m_sconn(SSL*) VF_MODEL("SSL_connect");
int m_sconn(SSL* s) { return hand(s); }
extern "C" int m_sacc(SSL*) VF_MODEL("SSL_accept");
int m_sacc(SSL* s) { return hand(s); }
extern "C" int m_serr(const SSL*, int) VF_MODEL("SSL_get_error");
int m_serr(const SSL* s, int) { live((SSL*)s); return vf_nondet_int(); }
static inline int data(SSL* s, int size) {
	live(s); g_sys = 1;
	vf_assert(g_hand == 1, "[tlsio] data moves only after the handshake worked");
	vf_used(v_fd);
	if (size <= 0 || vf_nondet_bool()) { if (vf_nondet_bool()) return 0; return -1; }
	int n = vf_nondet_int(); vf_assume(n >= 1 && n <= size); return n;
}
extern "C" int m_swrite(SSL*, const void*, int) VF_MODEL("SSL_write");
int m_swrite(SSL* s, const void* p, int size) { if (size > 0) vf_load(p, size); return data(s, size); }
extern "C" int m_sread(SSL*, void*, int) VF_MODEL("SSL_read");
int m_sread(SSL* s, void* p, int size) { if (size > 0) vf_store(p, size); return data(s, size); }
extern "C" void m_cb(SSL_CTX*, pem_password_cb*) VF_MODEL("SSL_CTX_set_default_passwd_cb");
void m_cb(SSL_CTX* c, pem_password_cb*) { vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used"); }
extern "C" void m_cbu(SSL_CTX*, void*) VF_MODEL("SSL_CTX_set_default_passwd_cb_userdata");
void m_cbu(SSL_CTX* c, void*) { vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used"); }
extern "C" int m_cert(SSL_CTX*, const char*, int) VF_MODEL("SSL_CTX_use_certificate_file");
int m_cert(SSL_CTX* c, const char*, int) { vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used"); if (yes()) { g_cert = 1; return 1; } g_cert = 2; return 0; }
extern "C" int m_key(SSL_CTX*, const char*, int) VF_MODEL("SSL_CTX_use_PrivateKey_file");
int m_key(SSL_CTX* c, const char*, int) { vf_assert(c != nullptr && g_ctx == 1, "[tls] only a living context is used"); if (yes()) { g_key = 1; return 1; } g_key = 2; return 0; }

static inline void init() {
	vf_os_init(); g_logic = 0; g_runtime = 0; g_ctx = 0; g_ssl = 0; g_ctx_mode = -1; g_ssl_mode = -1; g_fd = 0; g_hand = 0; g_cert = 0; g_key = 0; g_fail = 0; g_need = 0;
	if (vf_nondet_bool()) g_family = socket::family::ipv4; else g_family = socket::family::ipv6;
}
template <typename Call> static inline void attempt(Call call) {
	try { call(); }
	catch (const std::logic_error&) { g_logic = 1; }
	catch (const std::runtime_error&) { g_runtime = 1; }
}
static inline bool threw() { return g_logic || g_runtime; }
static inline void released() {
	vf_assert(g_s0 != 1 && g_s1 != 1 && g_s2 != 1, "[fd] no descriptor is left open when its socket is gone");
	vf_assert(g_ssl != 1, "[tls] no session is left behind when its socket is gone");
	vf_assert(g_ctx != 1, "[tls] no context is left behind when its socket is gone");
	vf_reach("must: end");
}
#define CSTR(p) vf_cstring(p); vf_assume(p != nullptr);

template <int Verify, typename Call> static inline void with_client(vf_log* log, Call call) {
	init();
	attempt([&]() {
		client s(Verify != 0, g_family, log);
		vf_assert(!g_fail, "[tlsio] a socket whose construction failed does not come into being");
		call(s);
		if (g_ssl == 1 && g_hand == 1) vf_assert(g_ssl_mode == Verify, "[tlsio] the peer is verified exactly if it was asked for");
	});
	released();
}
#define CLIENT(v) \
extern "C" void H_client_new_##v(vf_log* log) { with_client<v>(log, [&](client& s) { vf_assert(!s.is_open(), "[fd] a new socket is closed"); }); } \
extern "C" void H_client_connect_##v(const char* host, const char* port, vf_log* log) { \
	CSTR(host) CSTR(port) \
	with_client<v>(log, [&](client& s) { \
		attempt([&]() { s.connect(host, port); }); \
		if (g_hand == 1 && !g_fail) vf_assert(!threw(), "[tlsio] a connect that worked does not throw"); \
		if (!threw()) { vf_assert(g_hand == 1, "[tlsio] a connect that does not throw has finished the handshake"); vf_assert(g_bound == 1 && s.is_open(), "[tlsio] a connected socket is really connected"); } \
	}); \
} \
extern "C" void H_client_address_##v(const socket::address* address, vf_log* log) { \
	vf_assume(address != nullptr); \
	with_client<v>(log, [&](client& s) { \
		attempt([&]() { s.connect(*address); }); \
		if (!threw()) { vf_assert(g_hand == 1, "[tlsio] a connect that does not throw has finished the handshake"); vf_assert(g_bound == 1 && s.is_open(), "[tlsio] a connected socket is really connected"); } \
	}); \
} \
extern "C" void H_client_move_##v(const char* host, const char* port, vf_log* log) { \
	CSTR(host) CSTR(port) \
	with_client<v>(log, [&](client& s) { \
		if (vf_nondet_bool()) s.connect(host, port); \
		bool was = s.is_open(); \
		{ client t(std::move(s)); vf_assert(t.is_open() == was && !s.is_open(), "[fd] moving a socket moves its descriptor"); } \
		vf_assert(g_ssl == 2 && g_ctx == 2, "[tls] the handles go away with the socket they were moved to"); \
	}); \
} \
extern "C" void H_client_close_##v(const char* host, const char* port, vf_log* log) { \
	CSTR(host) CSTR(port) \
	with_client<v>(log, [&](client& s) { \
		s.connect(host, port); s.close(); vf_assert(!s.is_open() && vf_live() == 0, "[fd] a closed socket holds no descriptor"); \
	}); \
}
CLIENT(0) CLIENT(1)
#define BUF if (size != 0) vf_assume(buffer != nullptr); vf_region(buffer, size);
template <typename Call> static inline void transfer(client& s, std::size_t size, Call call) {
	vf_assume(size <= 0x7fffffff); // the length is an int there
	g_logic = 0; g_runtime = 0;
	bool was = s.is_open(); std::size_t n = 0; g_sys = 0;
	attempt([&]() { n = call(); });
	if (!was) {
		vf_assert(g_logic && !g_sys, "[tlsio] data is not transferred through a closed socket");
	}
	else {
		vf_assert(!threw() && g_sys, "[tlsio] a transfer does not throw on a connected socket");
		vf_assert(n <= size, "[tlsio] no more is reported than was asked for");
	}
}
extern "C" void H_client_send(const char* host, const char* port, const void* buffer, std::size_t size, vf_log* log) {
	CSTR(host) CSTR(port) BUF
	with_client<1>(log, [&](client& s) { if (vf_nondet_bool()) { s.connect(host, port); if (vf_nondet_bool()) s.close(); } transfer(s, size, [&]() { return s.send(buffer, size); }); });
}
extern "C" void H_client_receive(const char* host, const char* port, void* buffer, std::size_t size, vf_log* log) {
	CSTR(host) CSTR(port) BUF
	with_client<1>(log, [&](client& s) { if (vf_nondet_bool()) { s.connect(host, port); if (vf_nondet_bool()) s.close(); } transfer(s, size, [&]() { return s.receive(buffer, size); }); });
}
#define SERVER(v) \
extern "C" void H_server_##v(const char* cert, const char* key, const char* password, vf_log* log) { \
	CSTR(cert) CSTR(key) CSTR(password) init(); \
	attempt([&]() { \
		server s(cert, key, password, v, g_family, log); \
		vf_assert(!g_fail && g_cert == 1 && g_key == 1, "[tlsio] a server socket without certificate and key does not come into being"); \
		vf_assert(g_ctx_mode == v, "[tlsio] the peer is verified exactly if it was asked for"); \
		if (v) vf_assert(g_need, "[tlsio] a client without certificate is refused if certificates are required"); \
		{ server t(std::move(s)); } \
		vf_assert(g_ctx == 2, "[tls] the context goes away with the socket it was moved to"); \
	}); \
	released(); \
} \
extern "C" void H_accept_##v(const char* cert, const char* key, const char* password, const char* port, vf_log* log) { \
	CSTR(cert) CSTR(key) CSTR(password) CSTR(port) init(); \
	attempt([&]() { \
		server s(cert, key, password, v, g_family, log); \
		s.bind(port); s.listen(5); \
		{ client c = s.accept(); \
		  vf_assert(g_hand == 1 && !g_fail, "[tlsio] an accepted socket has finished the handshake"); \
		  vf_assert(g_ssl_mode == v, "[tlsio] the peer is verified exactly if it was asked for"); \
		  if (v) vf_assert(g_need, "[tlsio] a client without certificate is refused if certificates are required"); \
		  vf_assert(c.is_open() && vf_live() == 2, "[fd] accepting opens one descriptor"); } \
		vf_assert(g_ctx == 1 && g_ssl == 2, "[tls] the context stays with the server, the session goes with the client"); \
	}); \
	released(); \
}
SERVER(0) SERVER(1)
