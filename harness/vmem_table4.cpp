// absint: --count 5 --cap 4000 --sums
// As vmem_table, for a table of four pages that is full: replacing moves several pages.
#include <sys/mman.h>
#include <unistd.h>
#include <utility>
#include "vf_log.h"
#include "vmem.h"
using namespace abc;
#define SLOTS 4
typedef vmem_pool<SLOTS, vf_log> pool_t;
struct page_data { unsigned char bytes[vmem_page_size]; };
// positions are only compared for equality, so these stand for any; D is the page that is not mapped yet
static constexpr vmem_page_pos_t A = 5, B = 9, C = 12, D = (1ul << 21) + 20, E = 33, NIL = vmem_page_pos_nil;
extern "C" {
	int g_n, g_ma, g_mb, g_mc, g_md, g_me; // pages in the table, pages mapped
	int g_la, g_lb, g_lc, g_ld, g_le;      // pinned at all
	int g_failed, g_closing, g_closed, g_ask, g_got, g_synced;
	unsigned v_la, v_lb, v_lc, v_ld, v_le; // how often
	page_data v_a, v_b, v_c, v_d, v_e;
}
void* m_mmap(void*, size_t, int, int, int, off_t) VF_MODEL("mmap64");
void* m_mmap(void* at, size_t size, int prot, int flags, int fd, off_t off) {
	vf_assert(at == nullptr && size == vmem_page_size && prot == (PROT_READ | PROT_WRITE) && flags == MAP_SHARED && fd == 7, "[map] a page of the file is mapped so that writing changes the file");
	vf_assert(off == (off_t)(D * vmem_page_size), "[map] the page that was asked for is mapped");
	vf_assert(g_md == 0, "[map] a page is mapped once");
	vf_assert(g_ma + g_mb + g_mc + g_me < SLOTS, "[map] no more pages are mapped than the table holds");
	if (vf_nondet_bool()) { g_failed = 1; return MAP_FAILED; }
	g_md = 1; return &v_d;
}
int m_munmap(void*, size_t) VF_MODEL("munmap");
int m_munmap(void* p, size_t size) {
	vf_assert(size == vmem_page_size, "[map] a page is unmapped as a whole");
	if (p == &v_a) { vf_assert(g_ma == 1, "[map] a page is unmapped once"); vf_assert(g_la == 0 || g_closing, "[pin] a pinned page stays mapped"); g_ma = 0; }
	else if (p == &v_b) { vf_assert(g_mb == 1, "[map] a page is unmapped once"); vf_assert(g_lb == 0 || g_closing, "[pin] a pinned page stays mapped"); g_mb = 0; }
	else if (p == &v_c) { vf_assert(g_mc == 1, "[map] a page is unmapped once"); vf_assert(g_lc == 0 || g_closing, "[pin] a pinned page stays mapped"); g_mc = 0; }
	else if (p == &v_e) { vf_assert(g_me == 1, "[map] a page is unmapped once"); vf_assert(g_le == 0 || g_closing, "[pin] a pinned page stays mapped"); g_me = 0; }
	else if (p == &v_d) { vf_assert(g_md == 1, "[map] a page is unmapped once"); vf_assert(g_ld == 0 || g_closing, "[pin] a pinned page stays mapped"); g_md = 0; }
	else vf_assert(false, "[map] only mapped pages are unmapped");
	vf_assert(g_closed == 0, "[map] the file is closed last");
	return vf_nondet_bool() ? 0 : -1;
}
int m_msync(void*, size_t, int) VF_MODEL("msync");
int m_msync(void* p, size_t size, int) {
	vf_assert(size == vmem_page_size, "[map] a page is synchronised as a whole");
	if (p == &v_a) { vf_assert(g_ma == 1, "[map] only mapped pages are synchronised"); g_synced = 1; } else if (p == &v_b) { vf_assert(g_mb == 1, "[map] only mapped pages are synchronised"); g_synced = 2; }
	else if (p == &v_c) { vf_assert(g_mc == 1, "[map] only mapped pages are synchronised"); g_synced = 3; } else if (p == &v_e) { vf_assert(g_me == 1, "[map] only mapped pages are synchronised"); g_synced = 4; } else vf_assert(false, "[map] only mapped pages are synchronised");
	return vf_nondet_bool() ? 0 : -1;
}
int m_close(int) VF_MODEL("close");
int m_close(int fd) { vf_assert(fd == 7, "[map] only the file of the pool is closed"); vf_assert(g_closed == 0, "[map] the file is closed once"); g_closed = 1; return vf_nondet_bool() ? 0 : -1; }

#define SLOT(i, P, m, v, g, l) pool._mapped_pages[i].pos = P; pool._mapped_pages[i].ptr = &v; { int k = vf_nondet_int(); vf_assume(k >= 0 && k < 1 << 28); pool._mapped_pages[i].keep_count = k; totals += k; } m = 1; \
	{ unsigned c = 0; if (vf_nondet_bool()) { g = 1; int d = vf_nondet_int(); vf_assume(d >= 1 && d < 1 << 30); c = d; } pool._mapped_pages[i].lock_count = c; l = c; }
#define NONE(i) pool._mapped_pages[i].pos = 0; pool._mapped_pages[i].ptr = nullptr; pool._mapped_pages[i].lock_count = 0; pool._mapped_pages[i].keep_count = 0;
#define K(i) pool._mapped_pages[i].keep_count
#define TOTALS (vmem_page_pos_t)pool._mapped_page_totals.keep_count
// a table of up to three mapped pages, each pinned or not
static inline void table(pool_t& pool, vf_log* log) {
	g_ma = 0; g_mb = 0; g_mc = 0; g_md = 0; g_la = 0; g_lb = 0; g_lc = 0; g_ld = 0; v_la = 0; v_lb = 0; v_lc = 0; v_ld = 0; g_failed = 0; g_closing = 0; g_closed = 0; g_ask = 0; g_got = 0; g_synced = 0;
	pool._ready = true; pool._fd = 7; pool._log = log;
	vf_key(&pool._mapped_page_count); vf_key(&pool._mapped_pages[0].pos); vf_key(&pool._mapped_pages[1].pos); vf_key(&pool._mapped_pages[2].pos);
	int totals = vf_nondet_int(); vf_assume(totals >= 0 && totals < 1 << 28);
	g_me = 0; g_le = 0; v_le = 0; vf_key(&pool._mapped_pages[3].pos);
	g_n = 4; pool._mapped_page_count = 4; SLOT(0, A, g_ma, v_a, g_la, v_la) SLOT(1, B, g_mb, v_b, g_lb, v_lb) SLOT(2, C, g_mc, v_c, g_lc, v_lc) SLOT(3, E, g_me, v_e, g_le, v_le)
	pool._mapped_page_totals.keep_count = totals;
}
#define IN(i, P, m, v, l) if (pool._mapped_pages[i].pos == P) { vf_assert(m == 1 && pool._mapped_pages[i].ptr == &v, "[table] an entry of the table names the page that is mapped there"); vf_assert(pool._mapped_pages[i].lock_count == l, "[pin] the table counts how often a page is pinned"); n##v++; }
#define CHECK(i) if (pool._mapped_page_count > i) { IN(i, A, g_ma, v_a, v_la) else IN(i, B, g_mb, v_b, v_lb) else IN(i, C, g_mc, v_c, v_lc) else IN(i, D, g_md, v_d, v_ld) else IN(i, E, g_me, v_e, v_le) else vf_assert(false, "[table] an entry of the table names the page that is mapped there"); } \
	else vf_assert(pool._mapped_pages[i].ptr == nullptr && pool._mapped_pages[i].lock_count == 0 && K(i) == 0, "[table] entries that are not used are clear");
static inline void intact(pool_t& pool) {
	int nv_a = 0, nv_b = 0, nv_c = 0, nv_d = 0, nv_e = 0;
	vf_assert(pool._mapped_page_count <= SLOTS, "[table] the table does not grow");
	CHECK(0) CHECK(1) CHECK(2) CHECK(3)
	vf_assert(nv_a == g_ma && nv_b == g_mb && nv_c == g_mc && nv_d == g_md && nv_e == g_me, "[table] the table has every mapped page once");
	vf_assert(TOTALS >= (vmem_page_pos_t)K(0) + K(1) + K(2) + K(3), "[table] the totals cover the pages of the table");
}
#define ENTRY(name) extern "C" void H_##name(pool_t& pool, vf_log* log)
static inline void end() { vf_reach("must: end"); }
static inline void pin(pool_t& pool, vmem_page_pos_t pos, int ask) {
	g_ask = ask; int full = g_n == SLOTS && g_la && g_lb && g_lc && g_le;
	void* p = pool.lock_page(pos);
	if (p == nullptr) { g_got = 0; vf_assert(g_failed || (ask == 4 && full), "[pin] a page can be pinned unless every page of the table is pinned"); }
	else { g_got = 1;
		if (ask == 1) { vf_assert(p == &v_a, "[pin] pinning a page returns where it is"); v_la++; } else if (ask == 2) { vf_assert(p == &v_b, "[pin] pinning a page returns where it is"); v_lb++; }
		else if (ask == 3) { vf_assert(p == &v_c, "[pin] pinning a page returns where it is"); v_lc++; } else { vf_assert(p == &v_d && g_md == 1, "[pin] pinning a page returns where it is"); v_ld++; } }
	intact(pool); end();
}
ENTRY(table4_pin_new) { table(pool, log); pin(pool, D, 4); }
