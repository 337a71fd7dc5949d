// Models of the socket calls of the operating system. A descriptor is one of three; it is
// handed out open, must be closed exactly once and must not be used before or after.
// Every call may fail.
#pragma once
#include <sys/types.h>
#include <sys/socket.h>
#include <netdb.h>
#include "vf.h"

extern "C" {
	int g_s0, g_s1, g_s2;  // descriptors 0, 5, 9: 0 not handed out yet, 1 open, 2 closed
	int g_newest;          // the descriptor handed out last
	int g_bound;           // 1: the last bind or connect worked, 2: it failed
	int g_ai;              // address list: 1 handed out, 0 released
	int g_sys;             // 1: the operating system was asked to transfer data
	addrinfo v_ai; sockaddr v_sa;
}
static inline int vf_open() {
	if (g_s0 == 0 && vf_nondet_bool()) { g_s0 = 1; g_newest = 0; return 0; }
	if (g_s1 == 0 && vf_nondet_bool()) { g_s1 = 1; g_newest = 5; return 5; }
	if (g_s2 == 0) { g_s2 = 1; g_newest = 9; return 9; }
	vf_stop(); return -1;
}
static inline void vf_used(int fd) {
	if (fd == 0) vf_assert(g_s0 == 1, "[fd] a closed descriptor is not used");
	else if (fd == 5) vf_assert(g_s1 == 1, "[fd] a closed descriptor is not used");
	else if (fd == 9) vf_assert(g_s2 == 1, "[fd] a closed descriptor is not used");
	else vf_assert(false, "[fd] only a descriptor that was handed out is used");
}
static inline int vf_live() { return (g_s0 == 1) + (g_s1 == 1) + (g_s2 == 1); }
extern "C" int m_socket(int, int, int) VF_MODEL("socket");
int m_socket(int, int, int) { if (vf_nondet_bool()) return -1; return vf_open(); }
extern "C" int m_close(int) VF_MODEL("close");
int m_close(int fd) {
	if (fd == 0) { vf_assert(g_s0 == 1, "[fd] a descriptor is closed once"); g_s0 = 2; }
	else if (fd == 5) { vf_assert(g_s1 == 1, "[fd] a descriptor is closed once"); g_s1 = 2; }
	else if (fd == 9) { vf_assert(g_s2 == 1, "[fd] a descriptor is closed once"); g_s2 = 2; }
	else vf_assert(false, "[fd] only a descriptor that was handed out is closed");
	return vf_nondet_bool() ? 0 : -1;
}
extern "C" int m_shutdown(int, int) VF_MODEL("shutdown");
int m_shutdown(int fd, int) { vf_used(fd); return vf_nondet_bool() ? 0 : -1; }
extern "C" int m_setsockopt(int, int, int, const void*, socklen_t) VF_MODEL("setsockopt");
int m_setsockopt(int fd, int, int, const void*, socklen_t) { vf_used(fd); return vf_nondet_bool() ? 0 : -1; }
static inline int vf_tie(int fd) {
	vf_used(fd);
	vf_assert(g_bound != 1, "[report] after one address worked no other is tried");
	if (vf_nondet_bool()) { g_bound = 1; return 0; }
	g_bound = 2; return -1;
}
extern "C" int m_bind(int, const sockaddr*, socklen_t) VF_MODEL("bind");
int m_bind(int fd, const sockaddr*, socklen_t) { return vf_tie(fd); }
extern "C" int m_connect(int, const sockaddr*, socklen_t) VF_MODEL("connect");
int m_connect(int fd, const sockaddr*, socklen_t) { return vf_tie(fd); }
extern "C" int g_listen;
int g_listen;
extern "C" int m_listen(int, int) VF_MODEL("listen");
int m_listen(int fd, int) { vf_used(fd); if (vf_nondet_bool()) { g_listen = 1; return 0; } g_listen = 2; return -1; }
extern "C" int m_accept(int, sockaddr*, socklen_t*) VF_MODEL("accept");
int m_accept(int fd, sockaddr*, socklen_t*) { vf_used(fd); if (vf_nondet_bool()) { g_bound = 2; return -1; } g_bound = 1; return vf_open(); }
extern "C" int m_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo**) VF_MODEL("getaddrinfo");
int m_getaddrinfo(const char*, const char*, const addrinfo*, addrinfo** res) {
	if (vf_nondet_bool()) { g_bound = 2; int e = vf_nondet_int(); vf_assume(e != 0); return e; }
	vf_assert(g_ai == 0, "[fd] an address list is released before another one is asked for");
	g_ai = 1;
	v_ai.ai_addr = &v_sa; v_ai.ai_addrlen = sizeof(v_sa);
	if (vf_nondet_bool()) v_ai.ai_next = nullptr; else v_ai.ai_next = &v_ai; // one or more
	*res = &v_ai;
	g_bound = 2;
	return 0;
}
extern "C" void m_freeaddrinfo(addrinfo*) VF_MODEL("freeaddrinfo");
void m_freeaddrinfo(addrinfo* p) {
	if (p == nullptr) return;
	vf_assert(g_ai == 1, "[fd] an address list is released once");
	g_ai = 0;
}
// transfers: any count up to the size, or an error; what arrives is unknown
static inline long vf_transfer(int fd, unsigned long size) {
	vf_assert(fd == 0 && g_s0 == 1 || fd == 5 && g_s1 == 1 || fd == 9 && g_s2 == 1, "[io] data moves only through an open descriptor");
	g_sys = 1;
	if (vf_nondet_bool()) return -1;
	long n = vf_nondet_long(); vf_assume(n >= 0 && (unsigned long)n <= size);
	return n;
}
extern "C" long m_send(int, const void*, unsigned long, int) VF_MODEL("send");
long m_send(int fd, const void* p, unsigned long size, int) { vf_load(p, size); return vf_transfer(fd, size); }
extern "C" long m_sendto(int, const void*, unsigned long, int, const sockaddr*, socklen_t) VF_MODEL("sendto");
long m_sendto(int fd, const void* p, unsigned long size, int, const sockaddr*, socklen_t) { vf_load(p, size); return vf_transfer(fd, size); }
extern "C" long m_recv(int, void*, unsigned long, int) VF_MODEL("recv");
long m_recv(int fd, void* p, unsigned long size, int) { vf_store(p, size); return vf_transfer(fd, size); }
extern "C" long m_recvfrom(int, void*, unsigned long, int, sockaddr*, socklen_t*) VF_MODEL("recvfrom");
long m_recvfrom(int fd, void* p, unsigned long size, int, sockaddr*, socklen_t*) { vf_store(p, size); return vf_transfer(fd, size); }
static inline void vf_os_init() { g_newest = -1; g_s0 = 0; g_s1 = 0; g_s2 = 0; g_bound = 0; g_ai = 0; g_sys = 0; g_listen = 0; }
