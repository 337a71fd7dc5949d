// Streams over files that are replaced: names of the files, when they are replaced, what is counted.
// absint: --sums
#include <new>
#include <utility>
#include <cstdio>
#include <fstream>
#include "vf_log.h"
#include "vf_sbuf.h"
#include "timestamp.h"

extern "C" {
	int g_open;      // the file is open
	int g_opens;     // files that were opened
	int g_ready;     // the name was written since the last file was opened
	int g_bad;       // syncing failed
	unsigned long v_file;   // characters that went to the file
	unsigned long v_count;  // characters put
	const char* v_name; int v_made, v_overflow; long v_now, v_start; unsigned long v_pending;
	int g_names;
	int g_drain;     // what became of what was put
}
#define FB "_ZNSt13basic_filebufIcSt11char_traitsIcEE"
typedef std::filebuf vf_fb;
extern "C" void m_fb1(vf_fb*) VF_MODEL(FB "C2Ev");
void m_fb1(vf_fb* s) { s->_M_in_beg = s->_M_in_cur = s->_M_in_end = nullptr; s->_M_out_beg = s->_M_out_cur = s->_M_out_end = nullptr; }
extern "C" void m_fb2(vf_fb*) VF_MODEL(FB "D2Ev");
void m_fb2(vf_fb*) {}
extern "C" bool m_fb3(const vf_fb*) VF_MODEL("_ZNKSt13basic_filebufIcSt11char_traitsIcEE7is_openEv");
bool m_fb3(const vf_fb*) { return g_open == 1; }
extern "C" vf_fb* m_fb4(vf_fb*) VF_MODEL(FB "5closeEv");
vf_fb* m_fb4(vf_fb* s) { g_open = 0; return s; }
extern "C" vf_fb* m_fb5(vf_fb*, const char*, int) VF_MODEL(FB "4openEPKcSt13_Ios_Openmode");
vf_fb* m_fb5(vf_fb* s, const char* p, int) {
	vf_assert(g_open == 0, "[file] the file before is closed when a file is opened");
	vf_assert(g_ready == 1, "[file] a file that is opened has a new name");
	vf_is_text(p, "[file] the name of a file is terminated");
	vf_assert(p == v_name, "[file] the file that is opened has the name that was made");
	if (v_made) { char c0 = p[0], c1 = p[1], c2 = p[2]; vf_assert(c0 == 'a' && c1 == 'b' && c2 == '/', "[file] the name of a file begins with its folder"); }
	g_ready = 0; g_opens++; v_file = 0; v_pending = 0;
	if (vf_nondet_bool()) return nullptr;
	g_open = 1; return s;
}
extern "C" void m_fb9(vf_fb*, vf_fb*) VF_MODEL(FB "C2EOS2_");
void m_fb9(vf_fb*, vf_fb*) {}
static unsigned long pending(vf_fb* s) { return s->_M_out_cur - s->_M_out_beg; }
// what is put goes to the buffer or, with what was in the buffer, to the file
static inline void drain(vf_fb* s, unsigned long put) {
	if (vf_nondet_bool()) { g_drain = 1; v_file += v_pending + put; v_pending = 0; s->_M_out_cur = s->_M_out_beg; }
	else { g_drain = 2; v_pending += put; vf_assume(v_pending <= 4096); s->_M_out_cur = s->_M_out_beg + v_pending; }
}
extern "C" long m_fb6(vf_fb*, const char*, long) VF_MODEL(FB "6xsputnEPKcl");
long m_fb6(vf_fb* s, const char*, long n) { long r = vf_nondet_long(); vf_assume(r >= 0 && r <= n); drain(s, r); return r; }
extern "C" int m_fb7(vf_fb*, int) VF_MODEL(FB "8overflowEi");
static inline void flush(vf_fb* s) { g_drain = 3; v_file += v_pending; v_pending = 0; s->_M_out_cur = s->_M_out_beg; }
int m_fb7(vf_fb* s, int c) {
	if (vf_nondet_bool()) return -1;
	if (c == -1) { flush(s); return 0; }
	drain(s, 1); return c;
}
static int overflowed(vf_fb*);
extern "C" int m_fb8(vf_fb*) VF_MODEL(FB "4syncEv");
int m_fb8(vf_fb* s) { // a library may or may not sync through the function that handles a full buffer
	if (v_overflow && vf_nondet_bool()) { if (overflowed(s) == -1) { g_bad = 1; return -1; } return 0; }
	if (vf_nondet_bool()) { g_bad = 1; return -1; }
	flush(s); return 0;
}

struct vf_clock {
	typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<vf_clock> time_point;
	static constexpr bool is_steady = false;
	static time_point now() { return time_point(duration(v_now)); }
};
typedef std::chrono::time_point<vf_clock> vf_time;
static inline long when(const vf_time& t) { return t.time_since_epoch().count(); }
namespace std {
	template <typename... A> static inline int vf_snprintf(char* b, std::size_t n, const char* f, A... a) {
		vf_assert(n >= 16, "[file] a name is not cut off");
		int r = ::snprintf(b, n, f, a...); vf_text(b);
		g_ready = 1; g_names++;
		return r;
	}
}
#define snprintf vf_snprintf
// the object is of the class whose function is called
#define virtual
#define override
#include "multifile.h"
#undef virtual
#undef override
typedef abc::multifile_streambuf<64, vf_clock, vf_log> plain;
typedef abc::duration_multifile_streambuf<64, vf_clock, vf_log> timed;
typedef abc::size_multifile_streambuf<64, vf_clock, vf_log> sized;
static int overflowed(vf_fb* s) { return static_cast<sized*>(s)->sized::overflow(-1); }
static char g_put[4096];
static inline void init() { g_open = g_opens = g_ready = g_bad = g_names = g_drain = 0; v_file = v_pending = 0; v_name = nullptr; v_made = v_overflow = 0; v_start = 0; v_now = vf_nondet_long(); vf_assume(v_now >= 0 && v_now <= 1l << 62); }
template <typename S> static inline void area(S& s, unsigned long total) { vf_fb* f = &s; f->_M_out_beg = g_put; f->_M_out_end = g_put + 4096; v_pending = total - v_file; f->_M_out_cur = g_put + v_pending; }
static inline void file(plain& s) { // a stream with a file, or one that could not open it
	v_name = s._path; vf_text(s._path); vf_assume(s._path_length <= 64 - 15); g_open = vf_nondet_bool() ? 1 : 0;
}
extern "C" void H_make(const char* path, vf_log* log) {
	init();
	if (path != nullptr) vf_cstring(path);
	alignas(plain) char mem[sizeof(plain)];
	v_name = ((plain*)mem)->_path;
	try {
		plain* s = new (mem) plain(path, std::ios_base::out, log);
		vf_assert(g_opens == 1, "[file] a stream opens one file");
		vf_assert(path != nullptr, "[file] a missing folder is rejected");
		vf_reach("must: end");
	}
	catch (const std::logic_error&) { vf_assert(g_opens == 0, "[file] a folder that is rejected gets no file"); vf_reach("must: rejected"); }
}
static inline void folder(const char* path) {
	init();
	alignas(plain) char mem[sizeof(plain)];
	v_name = ((plain*)mem)->_path; v_made = 1;
	plain* s = new (mem) plain(path, std::ios_base::out, nullptr);
	vf_assert(s->_path_length == 3, "[file] the name of a file comes right after its folder");
	vf_reach("must: end");
}
extern "C" void H_folder() { folder("ab"); }
extern "C" void H_folder_separated() { folder("ab/"); }
extern "C" void H_reopen(plain& s) {
	init(); file(s);
	s.reopen();
	vf_assert(g_opens == 1, "[file] reopening opens one file");
	vf_reach("must: end");
}
extern "C" void H_move(plain& o) {
	init(); file(o);
	std::size_t length = o._path_length;
	alignas(plain) char mem[sizeof(plain)];
	plain* s = new (mem) plain(std::move(o));
	vf_is_text(s->_path, "[file] the name of a file is terminated");
	vf_assert(s->_path_length == length, "[file] the folder moves with the stream");
	v_name = s->_path;
	s->reopen();
	vf_reach("must: end");
}
// the size that is compared with the limit is that of the file
static inline void counted(sized& s) {
	init(); file(s);
	unsigned long total = vf_nondet_size(); v_file = vf_nondet_size(); vf_assume(v_file <= 1ul << 40); vf_assume(v_file <= total && total <= v_file + 4096);
	area(s, total); s._current_size = v_file; v_overflow = 1;
}
extern "C" void H_sized_xsputn(sized& s, const char* p, long n) {
	counted(s); vf_assume(n >= 0 && n <= 1l << 40); vf_region(p, n);
	s.sized::xsputn(p, n);
	vf_assert(s._current_size == v_file, "[rotate] what went to the file is counted once");
	vf_assert(g_opens == 0, "[rotate] a file is not replaced while it is written");
	vf_reach("must: end");
}
extern "C" void H_sized_overflow(sized& s, int c) {
	counted(s); vf_assume(c >= -1 && c <= 255);
	if (c == -1) g_names = 1; // (keeps the cases apart)
	s.sized::overflow(c);
	vf_assert(s._current_size == v_file, "[rotate] what went to the file is counted once");
	vf_assert(g_opens == 0, "[rotate] a file is not replaced while it is written");
	vf_reach("must: end");
}
extern "C" void H_sized_sync(sized& s) {
	counted(s);
	unsigned long total = v_file + v_pending;
	int r = s.sized::sync();
	if (g_bad == 1) { vf_assert(r == -1, "[rotate] failing to sync is reported"); vf_assert(g_opens == 0, "[rotate] a file with characters that are not written is not replaced"); vf_reach("must: failed"); }
	else {
		vf_assert(r == 0, "[rotate] syncing succeeds");
		vf_assert(s._current_size == v_file, "[rotate] what went to the file is counted once");
		if (g_opens == 0) { vf_assert(total < s._size, "[rotate] a file that reached its size is replaced"); vf_reach("must: kept"); }
		else { vf_assert(total >= s._size, "[rotate] a file that did not reach its size is kept"); vf_reach("must: replaced"); }
	}
}
extern "C" void H_sized_make(const char* path, std::size_t size, vf_log* log) {
	init(); if (path != nullptr) vf_cstring(path);
	alignas(sized) char mem[sizeof(sized)];
	v_name = ((sized*)mem)->_path;
	try {
		sized* s = new (mem) sized(size, path, std::ios_base::out, log);
		vf_assert(s->_current_size == 0 && s->_size == size, "[rotate] the size starts at zero");
		vf_reach("must: end");
	}
	catch (const std::logic_error&) {}
}
extern "C" void H_timed_sync(timed& s) {
	init(); file(s); v_start = vf_nondet_long(); long age = vf_nondet_long(); vf_assume(v_start >= 0 && v_start <= 1l << 61 && age >= 0 && age <= 1l << 61); v_now = v_start + age; static_cast<vf_time&>(s._ts) = vf_time(vf_clock::duration(v_start)); long limit = s._duration.count(); vf_assume(limit >= 0 && limit <= 1l << 62);
	int r = s.timed::sync();
	if (g_bad == 1) { vf_assert(r == -1, "[rotate] failing to sync is reported"); vf_assert(g_opens == 0, "[rotate] a file with characters that are not written is not replaced"); vf_reach("must: failed"); }
	else {
		vf_assert(r == 0, "[rotate] syncing succeeds");
		if (g_opens == 0) { vf_assert(v_now - v_start < limit, "[rotate] a file that reached its age is replaced"); vf_assert(when(s._ts) == v_start, "[rotate] a file that is kept keeps its age"); vf_reach("must: kept"); }
		else { vf_assert(v_now - v_start >= limit, "[rotate] a file that did not reach its age is kept"); vf_assert(when(s._ts) == v_now, "[rotate] the age of a new file starts now"); vf_reach("must: replaced"); }
	}
}
