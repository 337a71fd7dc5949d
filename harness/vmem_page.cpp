// References to pages: each keeps its page pinned while it lives, however it is copied, moved or freed.
#include <new>
#include <utility>
#include "vf_pool.h"
using namespace abc;
typedef vmem_page<vf_pool, vf_log> page;
typedef vmem_ptr<long, vf_pool, vf_log> ptr;
extern "C" int g_thrown, g_other, g_has, g_had;
int g_thrown, g_other, g_has, g_had;

// a reference pins its page exactly once, and knows where it is
static inline int pins(const page& p) { return p.ptr() != nullptr ? 1 : 0; }
static inline void holds(const page& p) {
	if (p.ptr() == nullptr) return;
	if (p.pos() == A) vf_assert(p.ptr() == &v_a && g_pa > 0, "[pin] a reference points to its page while the page is pinned");
	else if (p.pos() == B) vf_assert(p.ptr() == &v_b && g_pb > 0, "[pin] a reference points to its page while the page is pinned");
	else if (p.pos() == D) vf_assert(p.ptr() == &v_d && g_pd > 0, "[pin] a reference points to its page while the page is pinned");
	else vf_assert(false, "[pin] a reference points to its page while the page is pinned");
}
static inline int total() { return g_pa + g_pb + g_pc + g_pd + g_pe; }
static inline void two(const page& p, const page& q) {
	holds(p); holds(q);
	vf_assert(total() == pins(p) + pins(q), "[pin] each reference pins its page once");
}
static inline void end() { vf_unpinned(); vf_reach("must: end"); }
#define FIRST(o) page o(&pool, A, log); if (o.ptr() != nullptr) g_had = 1; else g_had = 2;
// the other page: none, the same one, a different one, a new one
#define SECOND(o) alignas(page) unsigned char mem_##o[sizeof(page)]; page& o = *(page*)mem_##o; \
	if (vf_nondet_bool()) { g_other = 1; new (mem_##o) page(nullptr); } else if (vf_nondet_bool()) { g_other = 2; new (mem_##o) page(&pool, A, log); } \
	else if (vf_nondet_bool()) { g_other = 3; new (mem_##o) page(&pool, B, log); } else { g_other = 4; new (mem_##o) page(&pool, log); } if (o.ptr() != nullptr) g_has = 1; else g_has = 2;
#define DONE(o) o.~page();
#define ENTRY(name) extern "C" void H_##name(vf_pool& pool, vf_log* log)

ENTRY(page_make) { vf_pool_init(); { FIRST(p) page q(nullptr); two(p, q); if (!g_failed) vf_assert(p.ptr() == &v_a && p.pos() == A, "[pin] a reference points to its page while the page is pinned"); } end(); }
ENTRY(page_new) { vf_pool_init(); { page p(&pool, log); page q(nullptr); two(p, q); if (g_alloc == 1) vf_assert(p.pos() == D, "[pin] a new reference knows the page it got"); else vf_assert(p.ptr() == nullptr && p.pos() == vmem_page_pos_nil, "[pin] a reference without a page points nowhere"); } end(); }
ENTRY(page_nopool) { vf_pool_init(); g_thrown = 0; try { page p((vf_pool*)nullptr, A, log); } catch (const std::logic_error&) { g_thrown = 1; } vf_assert(g_thrown == 1, "[pin] a page without a pool is rejected"); end(); }
ENTRY(page_copy) { vf_pool_init(); { SECOND(p) { page q(p); two(p, q); vf_assert(q.pos() == p.pos(), "[pin] a copy refers to the same page"); if (!g_failed) vf_assert(q.ptr() == p.ptr(), "[pin] a copy refers to the same page"); } { page q(nullptr); two(p, q); } DONE(p) } end(); }
ENTRY(page_move) { vf_pool_init(); { SECOND(p) vmem_page_pos_t pos = p.pos(); void* at = p.ptr(); { page q(std::move(p)); two(p, q); vf_assert(q.pos() == pos && q.ptr() == at, "[pin] a moved reference still points to its page"); vf_assert(p.ptr() == nullptr, "[pin] a reference that was moved points nowhere"); } DONE(p) } end(); }
ENTRY(page_assign) { vf_pool_init(); { FIRST(p) SECOND(q) p = q; two(p, q); vf_assert(q.pos() == p.pos(), "[pin] a copy refers to the same page"); if (!g_failed) vf_assert(q.ptr() == p.ptr(), "[pin] a copy refers to the same page"); DONE(q) } end(); }
ENTRY(page_assign_self) { vf_pool_init(); { FIRST(p) page q(nullptr); p = p; two(p, q); if (!g_failed) vf_assert(p.ptr() == &v_a && p.pos() == A, "[pin] assigning a reference to itself keeps its page"); } end(); }
ENTRY(page_assign_move) { vf_pool_init(); { FIRST(p) SECOND(q) vmem_page_pos_t pos = q.pos(); void* at = q.ptr(); p = std::move(q); two(p, q); vf_assert(p.pos() == pos, "[pin] a moved reference still points to its page"); if (!g_failed) vf_assert(p.ptr() == at, "[pin] a moved reference still points to its page"); vf_assert(q.ptr() == nullptr, "[pin] a reference that was moved points nowhere"); DONE(q) } end(); }
ENTRY(page_free) { vf_pool_init(); { SECOND(p) vmem_page_pos_t pos = p.pos(); bool had = p.pos() != vmem_page_pos_nil; p.free(); page q(nullptr); two(p, q); vf_assert(p.ptr() == nullptr && p.pos() == vmem_page_pos_nil, "[pin] a reference whose page was freed points nowhere");
	vf_assert(g_fa + g_fb + g_fc + g_fd == (had ? 1 : 0), "[free] freeing a page gives it back once"); if (pos == A) vf_assert(g_fa == 1, "[free] freeing a page gives it back once"); if (pos == B) vf_assert(g_fb == 1, "[free] freeing a page gives it back once"); if (pos == D) vf_assert(g_fd == 1, "[free] freeing a page gives it back once");
	p.free(); DONE(p) } vf_assert(g_fa + g_fb + g_fd <= 1, "[free] freeing a page gives it back once"); end(); }
ENTRY(page_keep) { vf_pool_init(); { SECOND(p) DONE(p) } vf_assert(g_fa + g_fb + g_fd == 0, "[free] a page is not given back because a reference goes away"); end(); }

// typed references into a page
#define PTR(o) ptr o(&pool, vf_nondet_bool() ? A : vmem_page_pos_nil, byte_pos, log);
static inline void points(ptr& p, vmem_item_pos_t byte_pos) {
	long* at = p.ptr();
	if (p.page_pos() == A && !g_failed && byte_pos != vmem_item_pos_nil) vf_assert((unsigned char*)at == v_a.bytes + byte_pos, "[ptr] a reference points to its place on the page");
	if (byte_pos == vmem_item_pos_nil || p.page_pos() == vmem_page_pos_nil) vf_assert(at == nullptr, "[ptr] a reference to no place is null");
	if (at != nullptr) vf_assert(g_pa > 0, "[pin] a reference points to its page while the page is pinned");
}
#define PENTRY(name) extern "C" void H_##name(vf_pool& pool, vmem_item_pos_t byte_pos, vf_log* log)
PENTRY(ptr_make) { vf_pool_init(); vf_assume(byte_pos <= vmem_page_size - sizeof(long) || byte_pos == vmem_item_pos_nil); { PTR(p) points(p, byte_pos); vf_assert((long*)p == p.ptr() && p.operator->() == p.ptr(), "[ptr] the ways to use a reference agree"); } end(); }
PENTRY(ptr_null) { vf_pool_init(); { ptr p(nullptr, log); vf_assert(p.ptr() == nullptr, "[ptr] a reference to no place is null"); } end(); }
PENTRY(ptr_deref) { vf_pool_init(); vf_assume(byte_pos <= vmem_page_size - sizeof(long) || byte_pos == vmem_item_pos_nil); g_thrown = 0; { PTR(p) bool null = p.ptr() == nullptr; long* at = nullptr; try { at = &*p; } catch (const std::runtime_error&) { g_thrown = 1; } if (null) vf_assert(g_thrown == 1, "[ptr] using a null reference is reported"); else vf_assert(g_thrown == 0 && at == p.ptr(), "[ptr] the ways to use a reference agree"); } end(); }
PENTRY(ptr_copy) { vf_pool_init(); vf_assume(byte_pos <= vmem_page_size - sizeof(long)); { PTR(p) { ptr q(p); points(q, byte_pos); ptr r(std::move(q)); points(r, byte_pos); vf_assert(q.ptr() == nullptr, "[pin] a reference that was moved points nowhere"); q = r; points(q, byte_pos); r = std::move(p); points(r, byte_pos); } } end(); }
