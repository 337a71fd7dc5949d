
PRE = r'''
#include <cstdio>
#include <cstring>
#include <cerrno>
#include <string>
#include <new>
#include <fcntl.h>
#include <dlfcn.h>
#include "socket.h"
#include "stream.h"
using namespace abc;
#define CHECK(x) if (!(x)) { std::printf("FAILED %s line %d\n", #x, __LINE__); return 1; }
static int open_fds() { int n = 0; for (int i = 0; i < 64; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
'''
F = 'src/socket.h'
G = 'src/openssl_socket.h'
TLS = PRE + r'''
#include "openssl_socket.h"
// stand-ins for the TLS library: they only keep count
static int ctxs, ssls, bad, verify_ctx = -1, verify_ssl = -1, fail_connect, fail_accept, connects, moved; static char c, s;
extern "C" {
SSL_CTX* SSL_CTX_new(const SSL_METHOD*) { ctxs++; return (SSL_CTX*)&c; }
void SSL_CTX_free(SSL_CTX* x) { if (x && --ctxs < 0) bad++; }
void SSL_CTX_set_verify(SSL_CTX*, int m, int (*)(int, X509_STORE_CTX*)) { verify_ctx = m & 1; }
SSL* SSL_new(SSL_CTX*) { ssls++; verify_ssl = verify_ctx; return (SSL*)&s; }
void SSL_free(SSL* x) { if (x && --ssls < 0) bad++; }
int SSL_set_fd(SSL*, int) { return 1; }
int SSL_shutdown(SSL*) { if (ssls < 1) bad++; return 1; }
int SSL_connect(SSL*) { connects++; return fail_connect ? 0 : 1; }
int SSL_accept(SSL*) { return fail_accept ? 0 : 1; }
int SSL_get_error(const SSL*, int) { return 1; }
int SSL_write(SSL*, const void*, int n) { moved += n; return n; }
void SSL_CTX_set_default_passwd_cb(SSL_CTX*, pem_password_cb*) {}
void SSL_CTX_set_default_passwd_cb_userdata(SSL_CTX*, void*) {}
int SSL_CTX_use_certificate_file(SSL_CTX*, const char*, int) { return 1; }
int SSL_CTX_use_PrivateKey_file(SSL_CTX*, const char*, int) { return 1; }
int connect(int, const sockaddr*, socklen_t) { return 0; }
int accept(int, sockaddr*, socklen_t*) { return ::open("/dev/null", O_RDONLY); }
int listen(int, int) { return 0; }
int bind(int, const sockaddr*, socklen_t) { return 0; }
}
typedef openssl_tcp_client_socket<> client;
typedef openssl_tcp_server_socket<> server;
'''
BUGS = [
 dict(id='S01-move-datagram', property='S01',
  needs='moving an open datagram socket',
  what='the socket moved from keeps the descriptor, which is closed twice; the second close may hit a descriptor of somebody else',
  edits=[(F, '\t\tother._fd = socket::fd::invalid;', '\t\tif (_kind == socket::kind::stream) {\n\t\t\tother._fd = socket::fd::invalid;\n\t\t}')],
  demo=PRE + r'''
int main() {
	int n = open_fds();
	{ udp_socket<> a; a.bind("127.0.0.1", "0"); { udp_socket<> b(std::move(a)); CHECK(b.is_open()); CHECK(!a.is_open()); }
	  int f = ::open("/dev/null", O_RDONLY); a.close(); CHECK(fcntl(f, F_GETFD) != -1); ::close(f); }
	CHECK(open_fds() == n); return 0;
}'''),
 dict(id='S01-descriptor-zero', property='S01',
  needs='a process whose standard input is closed, so that a connection is accepted as descriptor 0',
  what='descriptor 0 is taken for a failure and leaks',
  edits=[(F, '\t\tif (fd == socket::fd::invalid) {\n\t\t\tthrow exception<std::runtime_error, Log>("tcp_server_socket::accept() ::accept()"', '\t\tif (fd <= 0) {\n\t\t\tthrow exception<std::runtime_error, Log>("tcp_server_socket::accept() ::accept()"')],
  demo=PRE + r'''
extern "C" int accept(int, sockaddr*, socklen_t*) { return ::open("/dev/null", O_RDONLY); }
int main() {
	::close(0); ::open("/dev/null", O_RDONLY); // descriptor 0 is in use while the server socket is made
	tcp_server_socket<> s; s.bind("127.0.0.1", "0"); s.listen(1);
	::close(0);
	int n = open_fds();
	try { tcp_client_socket<> c = s.accept(); CHECK(c.fd() == 0); } catch (const std::exception&) { std::printf("threw\n"); }
	CHECK(open_fds() == n); return 0;
}'''),
 dict(id='S01-shutdown-first', property='S01',
  needs='closing a socket whose connection is already gone',
  what='the descriptor is not closed if it cannot be shut down first',
  edits=[(F, '\t\t\t::shutdown(_fd, SHUT_RDWR);\n\t\t\t::close(_fd);', '\t\t\tif (::shutdown(_fd, SHUT_RDWR) == 0 || errno != ENOTCONN || _kind == socket::kind::dgram) {\n\t\t\t\t::close(_fd);\n\t\t\t}'), (F, '#include "exception.h"', '#include <cerrno>\n#include "exception.h"')],
  demo=PRE + r'''
int main() {
	int n = open_fds();
	{ tcp_server_socket<> s; s.bind("127.0.0.1", "0"); }
	CHECK(open_fds() == n); return 0;
}'''),
 dict(id='S01-address-list', property='S01',
  needs='a connect that fails for every address of the host',
  what='the list of addresses is not released when none of them works',
  edits=[(F, '\t\t::freeaddrinfo(hostList);\n', '\t\tif (is_done || tt == socket::tie::bind) {\n\t\t\t::freeaddrinfo(hostList);\n\t\t}\n')],
  demo=PRE + r'''
static int lists;
extern "C" int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo** r) { static addrinfo a; static sockaddr sa; a.ai_addr = &sa; a.ai_addrlen = sizeof(sa); a.ai_next = nullptr; *r = &a; lists++; return 0; }
extern "C" void freeaddrinfo(addrinfo*) { lists--; }
extern "C" int connect(int, const sockaddr*, socklen_t) { return -1; }
int main() { { tcp_client_socket<> c; try { c.connect("host", "1"); } catch (const std::exception&) {} } CHECK(lists == 0); return 0; }'''),
 dict(id='S02-listen-error', property='S02',
  needs='a listen that the system refuses',
  what='the failure is not reported',
  edits=[(F, '\t\tif (err != socket::error::none) {\n\t\t\tthrow exception<std::runtime_error, Log>("tcp_server_socket::listen()', '\t\tif (err > socket::error::none) {\n\t\t\tthrow exception<std::runtime_error, Log>("tcp_server_socket::listen()')],
  demo=PRE + r'''
extern "C" int listen(int, int) { errno = EADDRINUSE; return -1; }
int main() { tcp_server_socket<> s; s.bind("127.0.0.1", "0"); bool t = false; try { s.listen(1); } catch (const std::runtime_error&) { t = true; } CHECK(t); return 0; }'''),
 dict(id='S02-last-address', property='S02',
  needs='a host with two addresses of which only the second refuses the connection',
  what='all addresses are tried even after one of them worked, and the result of the last one counts',
  edits=[(F, '\t\t\tif (err == socket::error::none) {\n\t\t\t\tis_done = true;\n\t\t\t\tbreak;\n\t\t\t}', '\t\t\tis_done = err == socket::error::none;')],
  demo=PRE + r'''
static int n;
extern "C" int getaddrinfo(const char*, const char*, const addrinfo*, addrinfo** r) { static addrinfo a, b; static sockaddr sa; a.ai_addr = b.ai_addr = &sa; a.ai_addrlen = b.ai_addrlen = sizeof(sa); a.ai_next = &b; b.ai_next = nullptr; *r = &a; return 0; }
extern "C" void freeaddrinfo(addrinfo*) { }
extern "C" int connect(int, const sockaddr*, socklen_t) { return n++ == 0 ? 0 : -1; }
int main() { tcp_client_socket<> c; bool t = false; try { c.connect("host", "1"); } catch (const std::exception&) { t = true; } CHECK(!t); CHECK(n == 1); return 0; }'''),
 dict(id='S03-error-count', property='S03',
  needs='a receive with an address that fails',
  what='the error of the system is reported as a huge number of bytes',
  edits=[(F, '\t\tif (received_size < 0) {', '\t\tif (received_size < 0 && address == nullptr) {')],
  demo=PRE + r'''
extern "C" ssize_t recvfrom(int, void*, size_t, int, sockaddr*, socklen_t*) { errno = ECONNREFUSED; return -1; }
int main() { udp_socket<> u; u.bind("127.0.0.1", "0"); char b[8]; socket::address a; CHECK(u.receive(b, 8, &a) == 0); return 0; }'''),
 dict(id='S03-sendto-closed', property='S03',
  needs='sending to an address through a datagram socket that is closed',
  what='a closed socket is noticed only if no address is given',
  edits=[(F, '\t\tif (!base::is_open()) {\n\t\t\tthrow exception<std::logic_error, Log>("client_socket::send() !is_open()"', '\t\tif (!base::is_open() && address == nullptr) {\n\t\t\tthrow exception<std::logic_error, Log>("client_socket::send() !is_open()"')],
  demo=PRE + r'''
int main() { udp_socket<> u; socket::address a; std::memset(&a.value, 0, sizeof(a.value)); bool t = false; try { u.send("x", 1, &a); } catch (const std::logic_error&) { t = true; } CHECK(t); return 0; }'''),
 dict(id='S04-accept-failure', property='S04',
  needs='a client whose TLS handshake fails',
  what='the session is released by accept() and again by the socket',
  edits=[(G, '\t\tint stat = SSL_accept(openssl_client._ssl);\n\t\tif (stat <= 0) {', '\t\tint stat = SSL_accept(openssl_client._ssl);\n\t\tif (stat <= 0) {\n\t\t\tSSL_free(openssl_client._ssl);\n')],
  demo=TLS + r'''
int main() { { server s("c", "k", "p"); s.bind("127.0.0.1", "0"); s.listen(1); fail_accept = 1; try { client c = s.accept(); } catch (const std::exception&) {} } CHECK(ssls == 0 && ctxs == 0 && !bad); return 0; }'''),
 dict(id='S04-unbound-server', property='S04',
  needs='a TLS server socket that is destroyed while it is not open',
  what='the context of such a server is not released',
  edits=[(G, '\t\tif (_ctx != nullptr) {\n\t\t\tSSL_CTX_free(_ctx);\n\t\t\t_ctx = nullptr;\n\t\t}\n\n\t\tif (log_local != nullptr) {\n\t\t\tlog_local->put_any(category::abc::socket, severity::abc::debug, 0x10795', '\t\tif (_ctx != nullptr && base::is_open()) {\n\t\t\tSSL_CTX_free(_ctx);\n\t\t\t_ctx = nullptr;\n\t\t}\n\n\t\tif (log_local != nullptr) {\n\t\t\tlog_local->put_any(category::abc::socket, severity::abc::debug, 0x10795')],
  demo=TLS + r'''
int main() { { server s("c", "k", "p"); } CHECK(ctxs == 0 && !bad); return 0; }'''),
 dict(id='S05-verify-late', property='S05',
  needs='a client that asks for verification of the server',
  what='verification is configured in the context after the session was made from it, so the session does not verify',
  edits=[(G, '\t\tSSL_CTX_set_verify(_ctx, _verify_server ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);\n\n', ''), (G, '\t\t\tthrow exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);\n\t\t}\n', '\t\t\tthrow exception<std::logic_error, Log>("openssl_tcp_client_socket::openssl_tcp_client_socket() SSL_new()", 0x10766, log_local);\n\t\t}\n\n\t\tSSL_CTX_set_verify(_ctx, _verify_server ? SSL_VERIFY_PEER : SSL_VERIFY_NONE, nullptr);\n')],
  demo=TLS + r'''
int main() { client a(true); a.connect("127.0.0.1", "1"); CHECK(verify_ssl == 1); return 0; }'''),
 dict(id='S05-handshake-zero', property='S05',
  needs='a peer that ends the handshake cleanly (result 0)',
  what='the connect returns as if the handshake had worked',
  edits=[(G, '\t\tif (ret != 1) {', '\t\tif (ret < 0) {')],
  demo=TLS + r'''
int main() { client a(false); fail_connect = 1; bool t = false; try { a.connect("127.0.0.1", "1"); } catch (const std::exception&) { t = true; } CHECK(t); return 0; }'''),
 dict(id='S06-move-unread', property='S06',
  needs='a stream buffer that is moved while it holds a character that was looked at but not read',
  what='the character becomes a zero byte',
  edits=[(F, '\t\t, _get_ch(other._get_ch)\n', '\t\t, _get_ch(\'\\0\')\n')],
  demo=PRE + r'''
struct sock { const char* p; std::size_t receive(void* b, std::size_t) { if (!*p) return 0; *(char*)b = *p++; return 1; } std::size_t send(const void*, std::size_t n) { return n; } };
int main() { sock s{"xyz"}; socket_streambuf<sock> a(&s); CHECK(a.sgetc() == 'x'); socket_streambuf<sock> b(std::move(a)); CHECK(b.sbumpc() == 'x'); CHECK(b.sbumpc() == 'y'); return 0; }'''),
 dict(id='S06-flush-zero', property='S06',
  needs='a flush right after a zero byte was written',
  what='the zero byte is not sent',
  edits=[(F, '\t\tif (pptr() != &_put_ch) {', "\t\tif (pptr() != &_put_ch && _put_ch != '\\0') {")],
  demo=PRE + r'''
struct sock { std::string out; std::size_t receive(void*, std::size_t) { return 0; } std::size_t send(const void* p, std::size_t n) { out.append((const char*)p, n); return n; } };
int main() { sock s; socket_streambuf<sock> a(&s); a.sputc('a'); a.pubsync(); a.sputc('\0'); a.pubsync(); CHECK(s.out == std::string("a\0", 2)); return 0; }'''),
]
