// A pool of a few pages, as the pages, lists and containers of the library see it. Pinning a
// page may fail; every page is pinned as often as it is unpinned, and goes back to the pool once.
#pragma once
#include "vf_log.h"
#include "vmem.h"
extern "C" {
	int g_pa, g_pb, g_pc, g_pd, g_pe; // pins of the pages 5, 9, 12, 20, 31
	int g_fa, g_fb, g_fc, g_fd, g_fe; // how often they were given back
	int g_alloc;              // 1: page 20 was handed out, 2: the pool is exhausted
	int g_nofail;             // pinning works
	int g_failed;             // pinning failed, of this page last
	int g_step;               // pins are counted, from one on
}
#ifndef VF_C
#define VF_C 12
#endif
constexpr abc::vmem_page_pos_t A = 5, B = 9, C = VF_C, D = 20, E = 31;
template <typename Linked> struct vf_clear { };
struct vf_page_data { unsigned char bytes[abc::vmem_page_size]; };
extern "C" { vf_page_data v_a, v_b, v_c, v_d, v_e; }
struct vf_pool {
	static constexpr std::size_t max_mapped_pages() noexcept { return 8; }
	abc::vmem_page_pos_t alloc_page() noexcept {
		if (g_alloc != 0 || vf_nondet_bool()) { g_alloc = 2; g_failed = 6; return abc::vmem_page_pos_nil; }
		g_alloc = 1;
		return D;
	}
	void free_page(abc::vmem_page_pos_t pos) noexcept {
		if (pos == A) { vf_assert(g_fa == 0, "[free] a page goes back to the pool once"); g_fa = 1; }
		else if (pos == B) { vf_assert(g_fb == 0, "[free] a page goes back to the pool once"); g_fb = 1; }
		else if (pos == C) { vf_assert(g_fc == 0, "[free] a page goes back to the pool once"); g_fc = 1; }
		else if (pos == D) { vf_assert(g_fd == 0, "[free] a page goes back to the pool once"); g_fd = 1; }
		else if (pos == E) { vf_assert(g_fe == 0, "[free] a page goes back to the pool once"); g_fe = 1; }
		else vf_assert(false, "[free] only a page of the list goes back to the pool");
	}
	// a page that is pinned already can be pinned again (V02)
	static bool fails(int which) noexcept { if (g_nofail == 0 && vf_nondet_bool()) { g_failed = which; return true; } return false; }
	void* lock_page(abc::vmem_page_pos_t pos) noexcept {
		if (g_step != 0) g_step++;
		if (pos == A) { if (g_pa == 0 && fails(1)) return nullptr; g_pa++; return &v_a; }
		if (pos == B) { if (g_pb == 0 && fails(2)) return nullptr; g_pb++; return &v_b; }
		if (pos == C) { if (g_pc == 0 && fails(3)) return nullptr; g_pc++; return &v_c; }
		if (pos == D) { if (g_pd == 0 && fails(4)) return nullptr; g_pd++; return &v_d; }
		if (pos == E) { if (g_pe == 0 && fails(5)) return nullptr; g_pe++; return &v_e; }
		vf_assert(false, "[pin] only pages of the list are pinned");
		return nullptr;
	}
	bool unlock_page(abc::vmem_page_pos_t pos) noexcept {
		if (pos == A) { vf_assert(g_pa > 0, "[pin] a page is unpinned as often as it was pinned"); g_pa--; }
		else if (pos == B) { vf_assert(g_pb > 0, "[pin] a page is unpinned as often as it was pinned"); g_pb--; }
		else if (pos == C) { vf_assert(g_pc > 0, "[pin] a page is unpinned as often as it was pinned"); g_pc--; }
		else if (pos == D) { vf_assert(g_pd > 0, "[pin] a page is unpinned as often as it was pinned"); g_pd--; }
		else if (pos == E) { vf_assert(g_pe > 0, "[pin] a page is unpinned as often as it was pinned"); g_pe--; }
		else vf_assert(false, "[pin] only pages of the list are unpinned");
		return true;
	}
	template <typename L> void clear_linked(L&) { vf_stop(); }
};
// the contents of every page are arbitrary
static inline void vf_pages() {
	vf_havoc(&v_a); vf_havoc(&v_b); vf_havoc(&v_c); vf_havoc(&v_d); vf_havoc(&v_e);
	vf_region(&v_a, sizeof v_a); vf_region(&v_b, sizeof v_b); vf_region(&v_c, sizeof v_c); vf_region(&v_d, sizeof v_d); vf_region(&v_e, sizeof v_e);
}
static inline void vf_pool_init() {
	g_pa = 0; g_pb = 0; g_pc = 0; g_pd = 0; g_pe = 0; g_fa = 0; g_fb = 0; g_fc = 0; g_fd = 0; g_fe = 0; g_alloc = 0; g_nofail = 0; g_failed = 0; g_step = 0;
}
static inline void vf_unpinned() {
	vf_assert(g_pa == 0 && g_pb == 0 && g_pc == 0 && g_pd == 0 && g_pe == 0, "[pin] every page that was pinned is unpinned");
}
