// absint: --consts --recursion 16
// The file of a pool: opened and verified, extended page by page, its free pages handed out and
// taken back. Pinning is modelled here; the table of mapped pages is looked at in vmem_table.
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <new>
#include "vf_log.h"
#include "vmem.h"
using namespace abc;
typedef vmem_pool<3, vf_log> pool_t;
typedef vmem_linked<pool_t, vf_log> linked;
typedef vmem_linked_page lpage;
struct page_data { unsigned char bytes[vmem_page_size]; };
static constexpr vmem_page_pos_t A = 5, B = 9, C = 12, E = 31, N = 40, NIL = vmem_page_pos_nil;
extern "C" {
	int g_open, g_closed, g_kind, g_pages, g_partial, g_end; // the file: how it was, pages that were added
	int g_pr, g_ps, g_pa, g_pb, g_pc, g_pe, g_pn;     // pins
	int g_failed, g_sig, g_thrown, g_prev, g_next, g_front, g_back, g_list, g_busy;
	off_t v_size;
	page_data v_root, v_start, v_a, v_b, v_c, v_e, v_n;
}
static inline vmem_page_pos_t base() { return g_kind == 4 ? N : g_kind == 3 ? 2 : g_kind == 2 ? 1 : 0; }
int m_open(const char*, int, ...) VF_MODEL("open64");
int m_open(const char* path, int flags, ...) { vf_assert(flags == (O_CREAT | O_RDWR), "[file] a pool opens its file for reading and writing, and keeps what is there"); vf_assert(g_open == 0, "[file] a file is opened once"); if (vf_nondet_bool()) return -1; g_open = 1; return 7; }
off_t m_lseek(int, off_t, int) VF_MODEL("lseek64");
off_t m_lseek(int fd, off_t at, int whence) {
	vf_assert(fd == 7 && g_closed == 0, "[file] only the open file of the pool is used"); vf_assert(at == 0 && whence == SEEK_END, "[file] pages are added behind the file");
	if (vf_nondet_bool()) { g_failed = 1; g_end = 0; return -1; }
	g_end = 1; if (g_kind == 5) return v_size;
	return (off_t)((base() + g_pages) * vmem_page_size);
}
ssize_t m_write(int, const void*, size_t) VF_MODEL("write");
ssize_t m_write(int fd, const void* p, size_t size) {
	vf_assert(fd == 7 && g_closed == 0, "[file] only the open file of the pool is used"); vf_load(p, size);
	vf_assert(g_end == 1, "[file] a page is added behind the file"); vf_assert(size == vmem_page_size, "[file] the file grows by whole pages"); vf_assert(g_partial == 0, "[file] nothing follows an incomplete page");
	if (vf_nondet_bool()) { g_failed = 1; return -1; }
	if (vf_nondet_bool()) { g_failed = 1; g_partial = 1; ssize_t n = vf_nondet_long(); vf_assume(n >= 1 && n < (ssize_t)vmem_page_size); return n; }
	g_pages++; return (ssize_t)vmem_page_size;
}
int m_ftruncate(int, off_t) VF_MODEL("ftruncate64");
int m_ftruncate(int fd, off_t size) { vf_assert(fd == 7 && g_closed == 0, "[file] only the open file of the pool is used"); vf_assert(size == (off_t)((base() + g_pages) * vmem_page_size), "[file] no complete page is cut off"); if (vf_nondet_bool()) { g_partial = 2; return -1; } g_partial = 0; return 0; }
int m_close(int) VF_MODEL("close");
int m_close(int fd) { vf_assert(fd == 7 && g_open == 1, "[file] only the file of the pool is closed"); vf_assert(g_closed == 0, "[file] the file is closed once"); g_closed = 1; return vf_nondet_bool() ? 0 : -1; }
static inline int compare(const void* p, const void* q, bool whole) {
	const char* s = (const char*)q; if (p != v_root.bytes + 2) s = (const char*)p;
	vf_assert((p == v_root.bytes + 2 || q == v_root.bytes + 2) && s[0] == 'a' && s[1] == 'b' && s[2] == 'c' && s[3] == ':' && s[4] == ':' && s[5] == 'v' && s[6] == 'm' && s[7] == 'e' && s[8] == 'm' && s[9] == 0 && whole, "[verify] the signature of the file is compared as a whole");
	if (vf_nondet_bool()) { g_sig = 1; return 0; } g_sig = 2; return vf_nondet_bool() ? 1 : -1;
}
int m_strcmp(const char*, const char*) VF_MODEL("strcmp");
int m_strcmp(const char* p, const char* q) { return compare(p, q, true); }
int m_strncmp(const char*, const char*, size_t) VF_MODEL("strncmp");
int m_strncmp(const char* p, const char* q, size_t n) { return compare(p, q, n >= 9); }
int m_memcmp(const void*, const void*, size_t) VF_MODEL("memcmp");
int m_memcmp(const void* p, const void* q, size_t n) { return compare(p, q, n == 9 || n == 10); }

void* m_lock(pool_t*, vmem_page_pos_t) VF_MODEL("_ZN3abc9vmem_poolILm3E6vf_logE9lock_pageEm");
void* m_lock(pool_t* pool, vmem_page_pos_t pos) {
	if (vf_nondet_bool()) { g_failed = 1; return nullptr; }
	if (pos == 0) { g_pr++; return &v_root; } if (pos == 1) { g_ps++; return &v_start; }
	if (pos == A) { g_pa++; return &v_a; } if (pos == B) { g_pb++; return &v_b; } if (pos == C) { g_pc++; return &v_c; } if (pos == E) { g_pe++; return &v_e; } if (pos == N) { g_pn++; return &v_n; }
	vf_assert(false, "[file] only pages of the file are used"); return nullptr;
}
bool m_unlock(pool_t*, vmem_page_pos_t) VF_MODEL("_ZN3abc9vmem_poolILm3E6vf_logE11unlock_pageEm");
bool m_unlock(pool_t*, vmem_page_pos_t pos) {
#define U(P, g) if (pos == P) { vf_assert(g > 0, "[pin] a page is unpinned as often as it was pinned"); g--; }
	U(0, g_pr) else U(1, g_ps) else U(A, g_pa) else U(B, g_pb) else U(C, g_pc) else U(E, g_pe) else U(N, g_pn) else vf_assert(false, "[file] only pages of the file are used");
	return true;
}
static inline void init(int kind) { g_open = 0; g_closed = 0; g_kind = kind; g_pages = 0; g_partial = 0; g_end = 0; g_pr = 0; g_ps = 0; g_pa = 0; g_pb = 0; g_pc = 0; g_pe = 0; g_pn = 0; g_failed = 0; g_sig = 0; g_thrown = 0; g_prev = 0; g_next = 0; g_front = 0; g_back = 0; g_list = 0; g_busy = 0; }
static inline void end() { vf_assert(g_pr == 0 && g_ps == 0 && g_pa == 0 && g_pb == 0 && g_pc == 0 && g_pe == 0 && g_pn == 0, "[pin] every page that was pinned is unpinned"); vf_reach("must: end"); }
#define ROOT ((vmem_root_page*)v_root.bytes)
template <typename T> static inline T at(const page_data& d, std::size_t off) { T t; __builtin_memcpy(&t, d.bytes + off, sizeof t); return t; }

// opening: a file that is empty, has one page, two, many, or ends within a page
#define OPENED vf_assert(g_open == 1 && g_closed == 0, "[file] a pool has its file open"); vf_assert(pool._ready && pool._fd == 7, "[file] a pool has its file open"); vf_assert(g_sig == 1, "[verify] a file is used if its signature is right"); \
	vf_assert(at<std::uint16_t>(v_root, 0) == 2, "[verify] a file is used if its version is right"); vf_assert(at<std::uint16_t>(v_root, 12) == vmem_page_size, "[verify] a file is used if its page size is right");
#define OPEN(expr) { g_thrown = 0; alignas(pool_t) static unsigned char mem[sizeof(pool_t)]; try { pool_t& pool = *new (mem) pool_t(path, log); OPENED expr } catch (const std::runtime_error&) { g_thrown = 1; vf_assert(g_open == g_closed, "[file] a pool that cannot be opened closes its file"); } end(); }
static inline void root() { std::uint16_t v = vf_nondet_u16(), s = vf_nondet_u16(); __builtin_memcpy(v_root.bytes, &v, 2); __builtin_memcpy(v_root.bytes + 12, &s, 2); }
#define OENTRY(name) extern "C" void H_##name(const char* path, vf_log* log)
OENTRY(file_open_new) { init(1); vf_cstring(path); OPEN(vf_assert(g_pages == 2, "[file] a new file has a root page and a start page"); vf_assert(at<vmem_page_pos_t>(v_root, 16) == NIL && at<vmem_page_pos_t>(v_root, 24) == NIL, "[file] a new file has no free pages");) }
OENTRY(file_open_half) { init(2); vf_cstring(path); root(); OPEN(vf_assert(false, "[verify] a file without a start page is rejected");) }
OENTRY(file_open_two) { init(3); vf_cstring(path); root(); OPEN(vf_assert(g_pages == 0, "[file] opening a file leaves its size");) }
OENTRY(file_open_many) { init(4); vf_cstring(path); root(); OPEN(vf_assert(g_pages == 0, "[file] opening a file leaves its size");) }
OENTRY(file_open_odd) { init(5); vf_cstring(path); root(); long k = vf_nondet_long(), r = vf_nondet_long(); vf_assume(k >= 0 && k < 1l << 40 && r >= 1 && r < (long)vmem_page_size); v_size = k * (long)vmem_page_size + r; OPEN(vf_assert(false, "[verify] a file that ends within a page is rejected");) }
OENTRY(file_open_none) { init(1); g_thrown = 0; alignas(pool_t) static unsigned char mem[sizeof(pool_t)]; try { new (mem) pool_t(nullptr, log); } catch (const std::logic_error&) { g_thrown = 1; } vf_assert(g_thrown == 1 && g_open == 0, "[file] a pool without a file is rejected"); end(); }

#define READY pool._ready = true; pool._fd = 7; pool._log = log; pool._mapped_page_count = 0; g_open = 1;
#define ENTRY(name) extern "C" void H_##name(pool_t& pool, vmem_linked_state& st, vf_log* log)
ENTRY(file_create) { init(4); READY vmem_page_pos_t p = pool.create_page(); vf_assert(g_partial != 1, "[file] an incomplete page is cut off");
	if (p == NIL) { vf_assert(g_failed == 1, "[file] a page is created unless the file fails"); vf_assert(g_pages == 0, "[file] a page that was not created is not in the file"); } else vf_assert(p == N && g_pages == 1, "[file] a new page is behind the others"); end(); }

static inline void set(page_data& v, vmem_page_pos_t pos, vmem_page_pos_t prev, vmem_page_pos_t next) { lpage* p = (lpage*)v.bytes; p->page_pos = pos; p->prev_page_pos = prev; p->next_page_pos = next; }
static inline bool is(page_data& v, vmem_page_pos_t pos, vmem_page_pos_t prev, vmem_page_pos_t next) { lpage* p = (lpage*)v.bytes; return p->page_pos == pos && p->prev_page_pos == prev && p->next_page_pos == next; }
static inline vmem_page_pos_t far_page() { vmem_page_pos_t p = vf_nondet_u64(); vf_assume(p >= 1000); return p; } // positions are only compared for equality
static inline vmem_page_pos_t far_real() { vmem_page_pos_t p = far_page(); vf_assume(p < NIL); return p; }
static inline vmem_page_pos_t front() { return at<vmem_page_pos_t>(v_root, 16); }
static inline vmem_page_pos_t back() { return at<vmem_page_pos_t>(v_root, 24); }
static inline void set_free(vmem_page_pos_t f, vmem_page_pos_t b) { ROOT->free_pages.front_page_pos = f; ROOT->free_pages.back_page_pos = b; }
// free pages: none, or ... <-> A <-> B where B is the last one
#define FREE g_prev = 0; vmem_page_pos_t ap = far_page(); set(v_a, A, ap, B); set(v_b, B, NIL, NIL); vmem_page_pos_t f = NIL; \
	if (vf_nondet_bool()) { g_list = 0; set_free(NIL, NIL); } else if (vf_nondet_bool()) { g_list = 1; f = B; set_free(B, B); } \
	else if (ap == NIL) { g_list = 2; set(v_b, B, A, NIL); f = A; set_free(A, B); } else { g_list = 3; set(v_b, B, A, NIL); f = far_real(); set_free(f, B); }
ENTRY(file_alloc) { init(4); READY FREE set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64());
	vmem_page_pos_t p = pool.alloc_page();
	if (p == B) { vf_assert(g_list != 0 && g_pages == 0, "[alloc] a free page is used before the file grows"); vf_assert(back() == (g_list >= 2 ? A : NIL) && front() == (g_list == 1 ? NIL : f), "[alloc] a page that is handed out is no longer free"); if (g_list >= 2) vf_assert(is(v_a, A, ap, NIL), "[alloc] a page that is handed out is no longer free"); }
	else { vf_assert(p == NIL || (p == N && g_pages == 1), "[alloc] a page that is handed out is free or new"); if (p == NIL) vf_assert(g_failed == 1, "[alloc] a page is handed out unless the file fails"); if (g_list == 0) vf_assert(front() == NIL && back() == NIL, "[alloc] the other free pages stay"); else vf_assert(g_failed == 1, "[alloc] a free page is used before the file grows");
		if (g_list != 0) { vf_assert(front() == f && back() == B, "[alloc] the other free pages stay"); if (g_list >= 2) vf_assert(is(v_a, A, ap, B), "[alloc] the other free pages stay"); } }
	end(); }
ENTRY(file_free) { init(4); READY FREE set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64());
	pool.free_page(E);
	if (!g_failed) vf_assert(back() == E, "[alloc] a page that is given back is free");
	if (back() == E) { g_busy = 1; vf_assert(is(v_e, E, g_list ? B : NIL, NIL), "[alloc] a page that is given back follows the free pages"); vf_assert(front() == (g_list ? f : E), "[alloc] a page that is given back follows the free pages"); if (g_list) vf_assert(is(v_b, B, g_list >= 2 ? A : NIL, E), "[alloc] a page that is given back follows the free pages"); }
	else { vf_assert(front() == f && back() == (g_list ? B : NIL), "[alloc] free pages stay if another cannot be given back"); if (g_list) vf_assert(is(v_b, B, g_list >= 2 ? A : NIL, NIL), "[alloc] free pages stay if another cannot be given back"); }
	vf_assert(is(v_a, A, ap, B), "[alloc] free pages stay if another cannot be given back"); vf_assert(g_pages == 0, "[alloc] giving a page back leaves the file"); end(); }
ENTRY(file_free_none) { init(4); READY FREE pool.free_page(NIL); vf_assert(front() == f && back() == (g_list ? B : NIL), "[alloc] giving no page back changes nothing"); end(); }
// all pages of the list C <-> ... go back
ENTRY(file_clear) { init(4); READY FREE vmem_page_pos_t cn = far_page(); set(v_c, C, NIL, cn);
	if (vf_nondet_bool()) { g_next = 0; st.front_page_pos = NIL; st.back_page_pos = NIL; } else if (cn == NIL) { g_next = 1; st.front_page_pos = C; st.back_page_pos = C; } else { g_next = 2; st.front_page_pos = C; st.back_page_pos = far_real(); }
	vmem_page_pos_t b = st.back_page_pos; { linked list(&st, &pool, log); list.clear(); }
	if (g_next == 0) vf_assert(front() == f && back() == (g_list ? B : NIL), "[alloc] an empty list gives nothing back");
	else { if (!g_failed) { vf_assert(st.front_page_pos == NIL, "[alloc] a list that is cleared gives all its pages back"); }
		if (st.front_page_pos == NIL) { g_busy = 1; vf_assert(st.back_page_pos == NIL, "[alloc] a list that is cleared is empty"); vf_assert(back() == b && front() == (g_list ? f : C), "[alloc] a list that is cleared gives all its pages back"); vf_assert(is(v_c, C, g_list ? B : NIL, cn), "[alloc] a list that is cleared gives all its pages back"); if (g_list) vf_assert(is(v_b, B, g_list >= 2 ? A : NIL, C), "[alloc] a list that is cleared gives all its pages back"); }
		else vf_assert(st.front_page_pos == C && st.back_page_pos == b && front() == f && back() == (g_list ? B : NIL), "[alloc] a list that cannot be cleared keeps its pages"); }
	end(); }
