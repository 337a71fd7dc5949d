// Sockets: who owns a descriptor, when it is closed, and what happens when the system fails.
// Each entry brings a socket into one of its states (closed, open) through its own calls,
// makes one more call, and destroys it.
#include <new>
#include <utility>
#include "vf_log.h"
#include "vf_os.h"
#include "socket.h"
using namespace abc;
typedef tcp_server_socket<vf_log> server;
typedef tcp_client_socket<vf_log> client;
typedef udp_socket<vf_log> udp;
extern "C" { int g_logic, g_runtime; }  // the call ended with an exception of this kind

static inline void init() { vf_os_init(); g_logic = 0; g_runtime = 0; }
template <typename Call> static inline void attempt(Call call) {
	try { call(); }
	catch (const std::logic_error&) { g_logic = 1; }
	catch (const std::runtime_error&) { g_runtime = 1; }
}
static inline void released() {
	vf_assert(g_s0 != 1 && g_s1 != 1 && g_s2 != 1, "[fd] no descriptor is left open when its socket is gone");
	vf_assert(g_ai == 0, "[fd] no address list is left behind");
	vf_reach("must: end");
}
template <typename S> static inline void owns(const S& s) {
	vf_assert(vf_live() <= 1, "[fd] a socket holds one descriptor at most");
	vf_assert(s.is_open() == (vf_live() == 1), "[fd] a socket is open exactly while it holds a descriptor");
	vf_assert(g_ai == 0, "[fd] no address list is left behind");
	if (g_s0 == 1) vf_assert(s.fd() == 0, "[fd] the socket holds the open descriptor");
	if (g_s1 == 1) vf_assert(s.fd() == 5, "[fd] the socket holds the open descriptor");
	if (g_s2 == 1) vf_assert(s.fd() == 9, "[fd] the socket holds the open descriptor");
}
#define CSTR(p) vf_cstring(p); vf_assume(p != nullptr);
extern "C" int g_family;
int g_family;
static inline socket::family_t family() { if (vf_nondet_bool()) g_family = socket::family::ipv4; else g_family = socket::family::ipv6; return g_family; }

// initial states
static inline void any_server(server& s, const char* port) { if (vf_nondet_bool()) attempt([&]() { s.bind(port); }); vf_assume(!g_logic); g_runtime = 0; g_bound = 0; }
template <typename S> static inline void any_client(S& s, const char* host, const char* port) { if (vf_nondet_bool()) attempt([&]() { s.connect(host, port); }); vf_assume(!g_logic); g_runtime = 0; g_bound = 0; }

// a failure of bind, connect, listen or accept is reported, success is not
static inline void reported() {
	if (g_bound == 1) vf_assert(!g_runtime && !g_logic, "[report] a call that worked does not throw");
	if (g_bound == 2) vf_assert(g_runtime, "[report] a failure of the system is reported");
}
template <typename S> static inline void bound(S& s) {
	reported();
	if (!g_logic && !g_runtime) vf_assert(g_bound == 1 && s.is_open(), "[report] a bound or connected socket is really bound or connected");
}

extern "C" void H_server_family(int f, vf_log* log) { init(); { attempt([&]() { server s(f, log); owns(s); }); } if (f != socket::family::ipv4 && f != socket::family::ipv6) vf_assert(g_logic, "[report] an unknown family is rejected"); released(); }
extern "C" void H_bind(const char* port, vf_log* log) {
	CSTR(port) init();
	{ server s(family(), log); any_server(s, port); owns(s);
	  bool was = s.is_open();
	  attempt([&]() { s.bind(port); });
	  if (was) { vf_assert(g_runtime, "[report] binding twice is reported"); vf_assert(s.is_open(), "[report] a bound socket stays bound"); }
	  else { bound(s); if (g_runtime) vf_assert(!s.is_open(), "[report] a socket that could not be bound is closed"); }
	  owns(s); }
	released();
}
extern "C" void H_bind_host(const char* host, const char* port, vf_log* log) {
	CSTR(port) CSTR(host) init();
	{ udp s(family(), log); attempt([&]() { s.bind(host, port); }); bound(s); if (g_runtime) vf_assert(!s.is_open(), "[report] a socket that could not be bound is closed"); owns(s); }
	released();
}
extern "C" void H_listen(const char* port, int backlog, vf_log* log) {
	CSTR(port) init();
	{ server s(family(), log); attempt([&]() { s.bind(port); }); vf_assume(!g_logic && !g_runtime); 
	  attempt([&]() { s.listen(backlog); });
	  if (g_listen == 2) vf_assert(g_runtime, "[report] a failure to listen is reported");
	  if (g_listen == 1) vf_assert(!g_runtime && !g_logic, "[report] a call that worked does not throw");
	  if (!g_runtime) vf_assert(g_listen == 1, "[report] a socket that does not throw really listens");
	  owns(s); }
	released();
}
extern "C" void H_accept(const char* port, vf_log* log) {
	CSTR(port) init();
	{ server s(family(), log); attempt([&]() { s.bind(port); }); vf_assume(!g_logic && !g_runtime); g_bound = 0;
	  int before = s.fd();
	  attempt([&]() {
		client c = s.accept();
		vf_assert(c.is_open(), "[report] an accepted socket is open");
		vf_assert(c.fd() != before, "[fd] the accepted socket has its own descriptor");
		vf_assert(s.is_open() && s.fd() == before, "[fd] accepting leaves the server socket open");
		vf_assert(vf_live() == 2, "[fd] accepting opens one descriptor");
	  });
	  reported(); owns(s); }
	released();
}
extern "C" void H_connect(const char* host, const char* port, vf_log* log) {
	CSTR(port) CSTR(host) init();
	{ client s(family(), log); any_client(s, host, port); owns(s); attempt([&]() { s.connect(host, port); }); bound(s); owns(s); }
	released();
}
extern "C" void H_connect_address(const socket::address* address, vf_log* log) {
	vf_assume(address != nullptr); init();
	{ udp s(family(), log); attempt([&]() { s.connect(*address); }); bound(s); owns(s); g_bound = 0; attempt([&]() { s.connect(*address); }); owns(s); }
	released();
}
extern "C" void H_close(const char* host, const char* port, vf_log* log) {
	CSTR(port) CSTR(host) init();
	{ client s(family(), log); any_client(s, host, port); s.close(); vf_assert(!s.is_open() && vf_live() == 0, "[fd] a closed socket holds no descriptor"); s.close(); owns(s);
	  if (vf_nondet_bool()) { attempt([&]() { s.connect(host, port); }); owns(s); } }
	released();
}
extern "C" void H_move_client(const char* host, const char* port, vf_log* log) {
	CSTR(port) CSTR(host) init();
	{ client s(family(), log); any_client(s, host, port); bool was = s.is_open();
	  { client t(std::move(s)); vf_assert(t.is_open() == was, "[fd] moving a socket moves its descriptor"); vf_assert(!s.is_open(), "[fd] a socket that was moved from is closed"); owns(t); if (vf_nondet_bool()) s.close(); owns(t); }
	  vf_assert(vf_live() == 0, "[fd] the descriptor goes away with the socket it was moved to"); owns(s); }
	released();
}
extern "C" void H_move_server(const char* port, vf_log* log) {
	CSTR(port) init();
	{ server s(family(), log); any_server(s, port); bool was = s.is_open();
	  { server t(std::move(s)); vf_assert(t.is_open() == was, "[fd] moving a socket moves its descriptor"); vf_assert(!s.is_open(), "[fd] a socket that was moved from is closed"); owns(t); }
	  vf_assert(vf_live() == 0, "[fd] the descriptor goes away with the socket it was moved to"); }
	released();
}
extern "C" void H_move_udp(const char* port, vf_log* log) {
	CSTR(port) init();
	{ udp s(family(), log); attempt([&]() { s.bind(port); }); bool was = s.is_open();
	  { udp t(std::move(s)); vf_assert(t.is_open() == was, "[fd] moving a socket moves its descriptor"); vf_assert(!s.is_open(), "[fd] a socket that was moved from is closed"); owns(t); }
	  vf_assert(vf_live() == 0, "[fd] the descriptor goes away with the socket it was moved to"); }
	released();
}
// transfers
template <typename S, typename Call> static inline void transfer(S& s, std::size_t size, bool by_address, bool dgram, Call call) {
	bool was = s.is_open();
	std::size_t n = 0;
	g_sys = 0;
	attempt([&]() { n = call(); });
	if (!was || (by_address && !dgram)) {
		vf_assert(g_logic, "[io] data is not transferred through a socket that is closed or of the wrong kind");
		vf_assert(!g_sys, "[io] nothing is asked of the system for a rejected call");
	}
	else {
		vf_assert(!g_logic && !g_runtime, "[io] a transfer does not throw on an open socket");
		vf_assert(g_sys, "[io] a transfer is asked of the system");
		vf_assert(n <= size, "[io] no more is reported than was asked for");
	}
	owns(s);
}
#define BUF if (size != 0) vf_assume(buffer != nullptr); vf_region(buffer, size);
#define IO(name, S, dgram) \
extern "C" void H_send_##name(const char* host, const char* port, const void* buffer, std::size_t size, socket::address* address, vf_log* log) { \
	CSTR(port) CSTR(host) BUF init(); \
	{ S s(family(), log); any_client(s, host, port); bool by = address != nullptr; transfer(s, size, by, dgram, [&]() { return s.send(buffer, size, address); }); } \
	released(); \
} \
extern "C" void H_receive_##name(const char* host, const char* port, void* buffer, std::size_t size, socket::address* address, vf_log* log) { \
	CSTR(port) CSTR(host) BUF init(); \
	{ S s(family(), log); any_client(s, host, port); bool by = address != nullptr; transfer(s, size, by, dgram, [&]() { return s.receive(buffer, size, address); }); } \
	released(); \
}
IO(tcp, client, false)
IO(udp, udp, true)
