// socket_streambuf: the characters of the stream are the bytes of the connection.
#include <utility>
#include "vf_log.h"
#include "vf_sbuf.h"
#include "socket.h"
extern "C" {
	int g_in;        // bytes received and not delivered yet
	int g_last;      // 1: the connection ended or failed
	int g_out;       // bytes sent
	int g_sendfail;  // 1: a byte could not be sent
	unsigned char v_in;   // the last byte received
	unsigned char v_w1, v_w2, v_w3;  // bytes the caller wrote, in order
}
struct vf_socket {
	std::size_t receive(void* buffer, std::size_t size, abc::socket::address* = nullptr) {
		vf_assert(size >= 1, "[sb] at least one byte is asked for");
		if (vf_nondet_bool()) { g_last = 1; return 0; }
		vf_assert(g_in == 0, "[sb] no byte is received before the one before it was delivered");
		vf_assert(size == 1, "[sb] no more bytes are received than there is room for");
		v_in = vf_nondet_uchar();
		*(unsigned char*)buffer = v_in;
		g_in = 1;
		return 1;
	}
	std::size_t send(const void* buffer, std::size_t size, abc::socket::address* = nullptr) {
		vf_assert(size == 1, "[sb] the bytes are sent one by one");
		vf_assert(g_out < 3, "[sb] no more bytes are sent than were written"); vf_assume(g_out < 3);
		unsigned char c = *(const unsigned char*)buffer;
		if (vf_nondet_bool()) { g_sendfail = 1; return 0; }
		if (g_out == 0) vf_assert(c == v_w1, "[sb] the first byte written is sent first");
		else if (g_out == 1) vf_assert(c == v_w2, "[sb] the second byte written is sent second");
		else vf_assert(c == v_w3, "[sb] the third byte written is sent third");
		g_out = g_out + 1;
		return 1;
	}
};
typedef abc::socket_streambuf<vf_socket, vf_log> buf;
static inline void init() { g_in = 0; g_last = 0; g_out = 0; g_sendfail = 0; }
static inline void take(buf& b) {
	bool had = g_in == 1;
	g_last = 0;
	int c = vf_getc(b);
	if (g_last) { vf_assert(c == -1, "[sb] the end of the connection ends the stream"); vf_assert(!had, "[sb] a byte that was received is delivered"); }
	else { vf_assert(c == v_in, "[sb] the character delivered is the byte received"); g_in = 0; }
}
static inline void look(buf& b) {
	bool had = g_in == 1;
	g_last = 0;
	int c = vf_peekc(b);
	if (g_last) { vf_assert(c == -1, "[sb] the end of the connection ends the stream"); vf_assert(!had, "[sb] a byte that was received is delivered"); }
	else { vf_assert(c == v_in, "[sb] the character looked at is the byte received"); vf_assert(g_in == 1, "[sb] looking keeps the character"); }
}
static inline void readable(buf& b) { // any state of the get area
	if (vf_nondet_bool()) look(b);
	if (vf_nondet_bool()) take(b);
	if (vf_nondet_bool()) look(b);
}
extern "C" void H_in(vf_socket* socket, vf_log* log) { vf_assume(socket != nullptr); init(); buf b(socket, log); readable(b); take(b); look(b); take(b); vf_reach("must: end"); }
extern "C" void H_in_move(vf_socket* socket, vf_log* log) { vf_assume(socket != nullptr); init(); buf b(socket, log); readable(b); buf c(std::move(b)); take(c); look(c); vf_reach("must: end"); }
static inline void flush(buf& b, int written) {
	int r = b.sync();
	if (r != -1 && !g_sendfail) vf_assert(g_out == written, "[sb] after a flush every byte written is sent");
	if (g_sendfail) vf_assert(r == -1, "[sb] a byte that could not be sent is reported");
}
static inline bool put(buf& b, unsigned char c) {
	int r = vf_putc(b, (char)c);
	if (g_sendfail) { vf_assert(r == -1, "[sb] a byte that could not be sent is reported"); return false; }
	vf_assert(r == c, "[sb] a byte that was taken is not reported as a failure");
	return true;
}
extern "C" void H_out(vf_socket* socket, vf_log* log) {
	vf_assume(socket != nullptr); init(); buf b(socket, log);
	v_w1 = vf_nondet_uchar(); v_w2 = vf_nondet_uchar(); v_w3 = vf_nondet_uchar();
	if (vf_nondet_bool()) { flush(b, 0); if (g_sendfail) return; }
	if (!put(b, v_w1)) return;
	if (vf_nondet_bool()) { flush(b, 1); if (g_sendfail) return; }
	if (!put(b, v_w2)) return;
	if (vf_nondet_bool()) { flush(b, 2); if (g_sendfail) return; }
	if (!put(b, v_w3)) return;
	flush(b, 3);
	if (!g_sendfail) vf_reach("must: sent"); else vf_reach("must: failed");
}
extern "C" void H_out_move(vf_socket* socket, vf_log* log) {
	vf_assume(socket != nullptr); init(); buf b(socket, log);
	v_w1 = vf_nondet_uchar(); v_w2 = vf_nondet_uchar(); v_w3 = vf_nondet_uchar();
	int n = 0;
	if (!put(b, v_w1)) return;
	if (vf_nondet_bool()) { if (!put(b, v_w2)) return; n = 1; }
	buf c(std::move(b));
	if (n == 0) { if (!put(c, v_w2)) return; }
	flush(c, 2);
	if (!g_sendfail) vf_reach("must: sent"); else vf_reach("must: failed");
}
extern "C" void H_null(vf_log* log) { // a stream needs a socket
	int thrown = 0;
	try { buf b(nullptr, log); } catch (const std::logic_error&) { thrown = 1; }
	vf_assert(thrown, "[sb] a stream without a socket is rejected"); vf_reach("must: end");
}
