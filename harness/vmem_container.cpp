// absint: --sums --consts
// Sequences of items over pages: an item goes in, an item goes out, and every other item stays where
// it belongs, at any place of any page with any number of items, and with any neighbours.
#include <new>
#include <utility>
#include "vf_pool.h"
using namespace abc;
#ifndef VF_ITEM
#define VF_ITEM unsigned long
#define VF_MAKE(v) (v)
#define VF_VALUE(x) (x)
#endif
typedef VF_ITEM T;
typedef vmem_container<T, vmem_noheader, vf_pool, vf_log> container;
typedef vmem_container_page<T, vmem_noheader> cpage;
typedef container::iterator iter;
typedef container::const_iterator citer;
extern "C" int g_thrown, g_prev, g_next, g_back, g_mark, g_where, g_half, g_front;
int g_thrown, g_prev, g_next, g_back, g_mark, g_where, g_half, g_front;
extern "C" unsigned long v_k, v_i, v_m, v_w;
unsigned long v_k, v_i, v_m, v_w;
static constexpr vmem_page_pos_t NIL = vmem_page_pos_nil;
static constexpr unsigned long CAP = (4096 - (sizeof(cpage) - sizeof(T))) / sizeof(T);
#define CP(v) (*(cpage*)v.bytes)
static inline void link(vf_page_data& v, vmem_page_pos_t pos, vmem_page_pos_t prev, vmem_page_pos_t next) { cpage* p = (cpage*)v.bytes; p->page_pos = pos; p->prev_page_pos = prev; p->next_page_pos = next; }
static inline unsigned long fill(vf_page_data& v) { unsigned long n = vf_nondet_size(); vf_assume(n >= 1); vf_assume(n <= CAP); CP(v).item_count = (vmem_item_pos_t)n; return n; }
static inline vmem_page_pos_t far_page() { vmem_page_pos_t p = vf_nondet_u64(); vf_assume(p >= 1000); return p; } // positions are only compared for equality
static inline vmem_page_pos_t far_real() { vmem_page_pos_t p = far_page(); vf_assume(p < NIL); return p; }
#define KEEP(b, what) vf_assert(b, "[item] " what)
static inline void end() { vf_unpinned(); vf_reach("must: end"); }
#define ENTRY(name) extern "C" void H_##name(vmem_container_state& st, vf_pool& pool, vf_log* log)
#define AT(pos, i) iter(&list, pos, i, vmem_iterator_edge::none, log)
#define FLAGS vmem_page_balance_t fi = vf_nondet_uchar(), fe = vf_nondet_uchar();
#define SETUP vf_pool_init(); g_prev = 0; g_next = 0; g_back = 0; g_mark = 0; g_where = 0; g_half = 0; g_front = 0; \
	vf_pages(); st.item_size = sizeof(T); FLAGS
// A <-> B <-> C, where A and C may be missing and have other neighbours; B is where the change is
#define AROUND_B(far) SETUP vmem_page_pos_t ap = far_page(), cn = far_page(); \
	if (vf_nondet_bool()) { g_prev = 1; st.front_page_pos = far_real(); } else st.front_page_pos = B; \
	if (vf_nondet_bool()) { g_next = 1; if (far == 0) st.back_page_pos = far_real(); else if (vf_nondet_bool()) { g_back = 1; cn = NIL; st.back_page_pos = C; } else { g_back = 2; cn = E; st.back_page_pos = E; } } else st.back_page_pos = B; \
	vmem_page_pos_t front = st.front_page_pos, back = st.back_page_pos; \
	link(v_a, A, ap, B); link(v_c, C, B, cn); link(v_b, B, g_prev ? A : NIL, g_next ? C : NIL); \
	unsigned long na = fill(v_a), nb = fill(v_b), nc = fill(v_c), total = vf_nondet_size(); vf_assume(total >= na); vf_assume(total <= 1ul << 40); st.total_item_count = total;
// one item, anywhere in these pages, is watched
enum { before = 1, left, right, behind };
static inline void mark(int where, unsigned long na, unsigned long nb, unsigned long nc) {
	v_k = vf_nondet_size(); v_m = vf_nondet_u64(); g_mark = where;
	if (where == before) { vf_assume(g_prev == 1); vf_assume(v_k < na); CP(v_a).items[v_k] = VF_MAKE(v_m); }
	if (where == left) { vf_assume(v_k < nb); vf_assume(v_k < v_i); CP(v_b).items[v_k] = VF_MAKE(v_m); }
	if (where == right) { vf_assume(v_k < nb); vf_assume(v_k >= v_i); CP(v_b).items[v_k] = VF_MAKE(v_m); }
	if (where == behind) { vf_assume(g_next == 1); vf_assume(v_k < nc); CP(v_c).items[v_k] = VF_MAKE(v_m); }
}
#define PER_FAR(name, f) ENTRY(name##_before) { f(before, st, pool, log); } ENTRY(name##_behind) { f(behind, st, pool, log); }
#define PER_LEFT(name, f) ENTRY(name##_left) { f(left, st, pool, log); }
#define PER_RIGHT(name, f) ENTRY(name##_right) { f(right, st, pool, log); }
static inline void whole(vf_page_data& v) { KEEP(CP(v).item_count >= 1, "no page of a list is without items"); KEEP(CP(v).item_count <= CAP, "no page has more items than it has room for"); }
// the page and the place in it of the n-th item behind the beginning of A, as the pages are linked now
static inline bool holds(vf_page_data& v, unsigned long n, unsigned long m) { return VF_VALUE(CP(v).items[n]) == m; }
// before a place in B, which may be its end if B is the last page
enum { Within, AtEnd, Past }; // Past: behind the last item of any page, as maps do
template <int Place> static inline __attribute__((always_inline)) void insert(int where, vmem_container_state& st, vf_pool& pool, vf_log* log) { AROUND_B(0) v_w = vf_nondet_u64(); v_i = Place != Within ? nb : vf_nondet_size(); mark(where, na, nb, nc);
	if (Place == Past) { if (nb == CAP) { if (vf_nondet_bool()) { g_where = 1; fi = vmem_page_balance::all; } else { g_where = 2; fi = vmem_page_balance::none; } } else g_where = 3; }
	else if (Place == AtEnd) { vf_assume(g_next == 0); if (vf_nondet_bool()) { g_where = 1; fi = vmem_page_balance::all; } else { g_where = 2; fi = vmem_page_balance::none; } }
	else { vf_assume(v_i < nb); if (v_i <= CAP - CAP / 2) g_where = 1; else g_where = 2; }
	if (v_k < CAP - CAP / 2) g_half = 1; else g_half = 2;
	T w = VF_MAKE(v_w); { container list(&st, fi, fe, &pool, log); iter it = list.insert(Place == AtEnd ? list.end() : AT(B, (vmem_item_pos_t)v_i), w);
	if (g_failed) { if (g_alloc == 1 && g_failed != 4) vf_assert(g_fd == 1, "[free] a new page that cannot be linked is given back"); KEEP(it == list.end(), "a failed change returns the end"); KEEP(st.total_item_count == total, "a list that cannot be changed is left as it was"); KEEP(st.front_page_pos == front && st.back_page_pos == back, "a list that cannot be changed is left as it was");
		KEEP(CP(v_a).item_count == na && CP(v_b).item_count == nb && CP(v_c).item_count == nc, "a list that cannot be changed is left as it was"); KEEP(CP(v_b).next_page_pos == (g_next ? C : NIL) && CP(v_c).prev_page_pos == B, "a list that cannot be changed is left as it was");
		if (g_mark == left || g_mark == right) KEEP(holds(v_b, v_k, v_m), "a list that cannot be changed is left as it was"); }
	else { KEEP(st.total_item_count == total + 1, "the number of items grows by one"); KEEP(st.front_page_pos == front, "the front of the list is its first page");
		whole(v_b); unsigned long mb = CP(v_b).item_count;
		KEEP(CP(v_a).item_count == na && CP(v_c).item_count == nc, "other pages keep their items");
		if (g_alloc == 1) { whole(v_d); unsigned long md = CP(v_d).item_count; KEEP(mb + md == nb + 1, "no item is lost or doubled");
			KEEP(CP(v_b).next_page_pos == D && CP(v_d).prev_page_pos == B && CP(v_d).next_page_pos == (g_next ? C : NIL), "a new page follows the page that was full"); KEEP(CP(v_c).prev_page_pos == (g_next ? D : B), "a new page follows the page that was full"); KEEP(st.back_page_pos == (g_next ? back : D), "the back of the list is its last page");
			if (v_i < mb) { KEEP(it == AT(B, (vmem_item_pos_t)v_i), "insert returns the place of the new item"); KEEP(holds(v_b, v_i, v_w), "the new item is where it was put"); }
			else { KEEP(it == AT(D, (vmem_item_pos_t)(v_i - mb)), "insert returns the place of the new item"); KEEP(holds(v_d, v_i - mb, v_w), "the new item is where it was put"); }
			if (g_mark == left) { if (v_k < mb) KEEP(holds(v_b, v_k, v_m), "items before the new one stay"); else KEEP(holds(v_d, v_k - mb, v_m), "items before the new one stay"); }
			if (g_mark == right) { if (v_k + 1 < mb) KEEP(holds(v_b, v_k + 1, v_m), "items behind the new one move by one"); else KEEP(holds(v_d, v_k + 1 - mb, v_m), "items behind the new one move by one"); } }
		else { KEEP(mb == nb + 1, "no item is lost or doubled"); KEEP(it == AT(B, (vmem_item_pos_t)v_i), "insert returns the place of the new item"); KEEP(holds(v_b, v_i, v_w), "the new item is where it was put"); KEEP(st.back_page_pos == back, "the back of the list is its last page");
			if (g_mark == left) KEEP(holds(v_b, v_k, v_m), "items before the new one stay");
			if (g_mark == right) KEEP(holds(v_b, v_k + 1, v_m), "items behind the new one move by one"); } }
	if (g_mark == before) KEEP(holds(v_a, v_k, v_m), "other pages keep their items"); if (g_mark == behind) KEEP(holds(v_c, v_k, v_m), "other pages keep their items"); }
	vf_assert(g_fa + g_fb + g_fc + g_fd == g_fd, "[free] inserting gives no page of the list back"); end(); }

PER_FAR(insert_within, insert<Within>) PER_RIGHT(insert_within, insert<Within>)
#ifndef VF_ONE
PER_LEFT(insert_within, insert<Within>)
#endif

PER_FAR(insert_past, insert<Past>) PER_LEFT(insert_past, insert<Past>)
ENTRY(insert_at_end_before) { insert<AtEnd>(before, st, pool, log); } ENTRY(insert_at_end_left) { insert<AtEnd>(left, st, pool, log); }
// the i-th item of B goes
static inline __attribute__((always_inline)) void erase(int where, vmem_container_state& st, vf_pool& pool, vf_log* log) { AROUND_B(1) v_i = vf_nondet_size(); mark(where, na, nb, nc); link(v_e, E, C, NIL);
	if (where == right) vf_assume(v_k > v_i);
	vf_assume(v_i < nb); if (v_i == nb - 1) { if (nb == 1) g_where = 1; else g_where = 2; } else g_where = 3;
	{ container list(&st, fi, fe, &pool, log); iter it = list.erase(AT(B, (vmem_item_pos_t)v_i));
	if (g_failed == 0) KEEP(st.total_item_count == total - 1, "the number of items shrinks by one");
	if (st.total_item_count == total) { KEEP(it == list.end(), "a failed change returns the end"); KEEP(st.front_page_pos == front && st.back_page_pos == back, "a list that cannot be changed is left as it was"); vf_assert(g_fa + g_fb + g_fc + g_fe == 0, "[free] only a page without items is given back");
		KEEP(CP(v_a).item_count == na && CP(v_b).item_count == nb && CP(v_c).item_count == nc, "a list that cannot be changed is left as it was"); KEEP(CP(v_b).next_page_pos == (g_next ? C : NIL) && CP(v_c).prev_page_pos == B && CP(v_a).next_page_pos == B, "a list that cannot be changed is left as it was");
		if (g_mark == left || g_mark == right) KEEP(holds(v_b, v_k, v_m), "a list that cannot be changed is left as it was"); if (g_mark == before) KEEP(holds(v_a, v_k, v_m), "other pages keep their items"); if (g_mark == behind) KEEP(holds(v_c, v_k, v_m), "other pages keep their items"); }
	else { KEEP(st.total_item_count == total - 1, "the number of items shrinks by one"); vf_assert(g_fa + g_fe == 0 && g_fb + g_fc <= 1, "[free] only a page without items is given back"); KEEP(st.front_page_pos == (g_prev ? front : g_fb ? (g_next ? C : NIL) : B), "the front of the list is its first page");
		if (g_fb == 1) { KEEP(CP(v_a).next_page_pos == (g_prev ? (g_next ? C : NIL) : B) && CP(v_c).prev_page_pos == (g_next ? (g_prev ? A : NIL) : B), "the pages around an erased page are linked"); KEEP(st.back_page_pos == (g_next ? back : g_prev ? A : NIL), "the back of the list is its last page"); KEEP(CP(v_c).item_count == nc, "other pages keep their items"); if (g_mark == behind) KEEP(holds(v_c, v_k, v_m), "other pages keep their items"); if (g_mark == before) KEEP(holds(v_a, v_k, v_m), "other pages keep their items");
			if (g_where == 1) { KEEP(CP(v_a).item_count == na, "other pages keep their items"); if (g_next) KEEP(it == AT(C, 0), "erase returns the item behind"); else KEEP(it == list.end(), "erase returns the item behind"); }
			else { vf_assert(g_prev == 1, "[free] only a page without items is given back"); KEEP(CP(v_a).item_count == na + nb - 1, "no item is lost or doubled"); whole(v_a); if (g_mark == left) KEEP(holds(v_a, na + v_k, v_m), "items before the erased one stay in their order"); if (g_mark == right) KEEP(holds(v_a, na + v_k - 1, v_m), "items behind the erased one move by one");
				if (g_where == 3) KEEP(it == AT(A, (vmem_item_pos_t)(na + v_i)), "erase returns the item behind"); else if (g_next) KEEP(it == AT(C, 0), "erase returns the item behind"); else KEEP(it == list.end(), "erase returns the item behind"); } }
		else { KEEP(CP(v_a).item_count == na && CP(v_a).next_page_pos == B, "other pages keep their items"); if (g_mark == before) KEEP(holds(v_a, v_k, v_m), "other pages keep their items"); whole(v_b); if (g_mark == left) KEEP(holds(v_b, v_k, v_m), "items before the erased one stay in their order"); if (g_mark == right) KEEP(holds(v_b, v_k - 1, v_m), "items behind the erased one move by one"); if (g_where == 3) KEEP(it == AT(B, (vmem_item_pos_t)v_i), "erase returns the item behind");
			if (g_fc == 1) { KEEP(CP(v_b).item_count == nb - 1 + nc, "no item is lost or doubled"); KEEP(CP(v_b).next_page_pos == (g_back == 1 ? NIL : E), "the pages around an erased page are linked"); if (g_back == 2) KEEP(CP(v_e).prev_page_pos == B, "the pages around an erased page are linked"); KEEP(st.back_page_pos == (g_back == 1 ? B : back), "the back of the list is its last page"); if (g_mark == behind) KEEP(holds(v_b, nb - 1 + v_k, v_m), "items behind the erased one move by one"); if (g_where == 2) KEEP(it == AT(B, (vmem_item_pos_t)(nb - 1)), "erase returns the item behind"); }
			else { KEEP(CP(v_b).item_count == nb - 1 && CP(v_c).item_count == nc, "no item is lost or doubled"); KEEP(CP(v_b).next_page_pos == (g_next ? C : NIL) && CP(v_c).prev_page_pos == B, "other links stay"); KEEP(st.back_page_pos == back, "the back of the list is its last page"); if (g_mark == behind) KEEP(holds(v_c, v_k, v_m), "other pages keep their items"); if (g_where == 2) { if (g_next) KEEP(it == AT(C, 0), "erase returns the item behind"); else KEEP(it == list.end(), "erase returns the item behind"); } } } } }
	end(); }
PER_FAR(erase, erase)
#ifndef VF_ONE
PER_LEFT(erase, erase) PER_RIGHT(erase, erase)
#endif
ENTRY(insert_empty) { SETUP v_w = vf_nondet_u64(); T w = VF_MAKE(v_w); st.front_page_pos = NIL; st.back_page_pos = NIL; st.total_item_count = 0; { container list(&st, fi, fe, &pool, log); KEEP(list.empty() && list.size() == 0, "a list without items is empty"); iter it = nullptr; if (vf_nondet_bool()) it = list.insert(list.begin(), w); else it = list.insert(list.end(), w);
	if (g_failed) { KEEP(it == list.end() && st.front_page_pos == NIL && st.back_page_pos == NIL && st.total_item_count == 0, "a list that cannot be changed is left as it was"); }
	else { KEEP(it == AT(D, 0), "insert returns the place of the new item"); KEEP(holds(v_d, 0, v_w), "the new item is where it was put"); KEEP(CP(v_d).item_count == 1 && st.total_item_count == 1 && list.size() == 1, "the number of items grows by one"); KEEP(st.front_page_pos == D && st.back_page_pos == D && CP(v_d).prev_page_pos == NIL && CP(v_d).next_page_pos == NIL, "the only page is the front and the back"); KEEP(!list.empty(), "a list with an item is not empty"); } } end(); }
ENTRY(push_pop_empty) { SETUP v_w = vf_nondet_u64(); T w = VF_MAKE(v_w); st.front_page_pos = NIL; st.back_page_pos = NIL; st.total_item_count = 0; g_thrown = 0; { container list(&st, fi, fe, &pool, log); if (vf_nondet_bool()) { g_where = 1; try { list.pop_back(); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "taking an item from an empty list is rejected"); } else if (vf_nondet_bool()) { g_where = 2; try { list.pop_front(); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "taking an item from an empty list is rejected"); }
	else { if (vf_nondet_bool()) { g_where = 3; list.push_back(w); } else { g_where = 4; list.push_front(w); } if (g_failed == 0) { KEEP(holds(v_d, 0, v_w) && CP(v_d).item_count == 1 && st.front_page_pos == D && st.back_page_pos == D && st.total_item_count == 1, "the only item is on the only page"); } } } vf_assert(g_fa + g_fb + g_fc == 0, "[free] only a page without items is given back"); end(); }
ENTRY(push_back) { AROUND_B(0) vf_assume(g_next == 0); v_w = vf_nondet_u64(); if (nb < CAP) g_where = 1; else g_where = 2; T w = VF_MAKE(v_w); if (vf_nondet_bool()) { g_half = 1; fi = vmem_page_balance::all; } else { g_half = 2; fi = vmem_page_balance::none; } { container list(&st, fi, fe, &pool, log); list.push_back(w); if (g_failed == 0) { KEEP(st.total_item_count == total + 1, "the number of items grows by one");
	if (g_where == 1) { KEEP(CP(v_b).item_count == nb + 1 && st.back_page_pos == B, "no item is lost or doubled"); KEEP(holds(v_b, nb, v_w), "an item that is pushed back is the last one"); } else { unsigned long md = CP(v_d).item_count; KEEP(CP(v_b).item_count + md == CAP + 1 && st.back_page_pos == D && CP(v_d).next_page_pos == NIL, "no item is lost or doubled"); whole(v_b); whole(v_d); KEEP(holds(v_d, md - 1, v_w), "an item that is pushed back is the last one"); } }
	else KEEP(st.total_item_count == total && CP(v_b).item_count == nb && st.back_page_pos == B && CP(v_b).next_page_pos == NIL, "a list that cannot be changed is left as it was"); } end(); }
ENTRY(push_front) { AROUND_B(0) vf_assume(g_prev == 0); v_w = vf_nondet_u64(); if (nb < CAP) g_where = 1; else g_where = 2; T w = VF_MAKE(v_w); { container list(&st, fi, fe, &pool, log); list.push_front(w); if (g_failed == 0) { KEEP(st.total_item_count == total + 1 && st.front_page_pos == B, "the number of items grows by one"); KEEP(holds(v_b, 0, v_w), "an item that is pushed to the front is the first one"); whole(v_b);
	if (g_where == 1) KEEP(CP(v_b).item_count == nb + 1, "no item is lost or doubled"); else { unsigned long md = CP(v_d).item_count; KEEP(CP(v_b).item_count + md == CAP + 1, "no item is lost or doubled"); whole(v_d); } }
	else KEEP(st.total_item_count == total && CP(v_b).item_count == nb && st.front_page_pos == B, "a list that cannot be changed is left as it was"); } end(); }
ENTRY(next) { AROUND_B(0) v_i = vf_nondet_size(); vf_assume(v_i < nb); if (v_i == nb - 1) g_where = 1; else g_where = 2; { container list(&st, fi, fe, &pool, log); iter it = AT(B, (vmem_item_pos_t)v_i); ++it; if (g_failed == 0) { if (g_where == 2) KEEP(it == AT(B, (vmem_item_pos_t)(v_i + 1)), "the next item is the one behind"); else if (g_next) KEEP(it == AT(C, 0), "the next item is the one behind"); else KEEP(it == list.end(), "behind the last item is the end"); } } end(); }
ENTRY(prev) { AROUND_B(0) v_i = vf_nondet_size(); vf_assume(v_i < nb); if (v_i == 0) g_where = 1; else g_where = 2; { container list(&st, fi, fe, &pool, log); iter it = AT(B, (vmem_item_pos_t)v_i); --it; if (g_failed == 0) { if (g_where == 2) KEEP(it == AT(B, (vmem_item_pos_t)(v_i - 1)), "the previous item is the one before"); else if (g_prev) KEEP(it == AT(A, (vmem_item_pos_t)(na - 1)), "the previous item is the one before"); else KEEP(it == list.rbegin(), "before the first item is the reverse begin"); } } end(); }
ENTRY(ends) { AROUND_B(0) vf_assume(g_next == 0); { container list(&st, fi, fe, &pool, log); KEEP(list.begin() == AT(front, 0) && list.cbegin() == AT(front, 0), "a list begins with its first item"); iter it = list.end(); ++it; KEEP(it == list.end(), "behind the end is the end"); it = list.rbegin(); ++it; KEEP(it == list.begin(), "behind the reverse begin is the first item"); it = list.end(); --it; if (g_failed == 0) { KEEP(it == AT(B, (vmem_item_pos_t)(nb - 1)), "before the end is the last item"); KEEP(list.rend() == it || g_failed != 0, "a list ends with its last item"); } KEEP(list.size() == total && !list.empty(), "a list knows how many items it has"); } end(); }
ENTRY(front) { AROUND_B(0) vf_assume(g_prev == 0); v_m = vf_nondet_u64(); CP(v_b).items[0] = VF_MAKE(v_m); { container list(&st, fi, fe, &pool, log); g_thrown = 0; try { T x = list.front(); KEEP(VF_VALUE(x) == v_m, "the front is the first item"); } catch (const std::runtime_error&) { g_thrown = 1; } if (g_failed == 0) KEEP(g_thrown == 0, "the front is the first item");  } end(); }
ENTRY(back) { AROUND_B(0) vf_assume(g_next == 0); if (g_prev) st.front_page_pos = A; v_m = vf_nondet_u64(); CP(v_b).items[nb - 1] = VF_MAKE(v_m); { container list(&st, fi, fe, &pool, log); g_thrown = 0; try { T x = list.back(); if (g_failed == 0) KEEP(VF_VALUE(x) == v_m, "the back is the last item"); } catch (const std::runtime_error&) { g_thrown = 1; } if (g_failed == 0) KEEP(g_thrown == 0, "the back is the last item");  } end(); }
ENTRY(at) { AROUND_B(0) v_i = vf_nondet_size(); vf_assume(v_i < nb); v_m = vf_nondet_u64(); CP(v_b).items[v_i] = VF_MAKE(v_m); { container list(&st, fi, fe, &pool, log); iter it = AT(B, (vmem_item_pos_t)v_i); g_thrown = 0; try { T x = *it; KEEP(VF_VALUE(x) == v_m, "an iterator stands for its item"); } catch (const std::runtime_error&) { g_thrown = 1; } if (g_failed == 0) KEEP(g_thrown == 0, "an iterator stands for its item");  } end(); }
ENTRY(bad_place) { AROUND_B(0) v_w = vf_nondet_u64(); T w = VF_MAKE(v_w); { container list(&st, fi, fe, &pool, log); g_thrown = 0; if (vf_nondet_bool()) { g_where = 1; try { list.insert(iter(&list, NIL, vmem_item_pos_nil, vmem_iterator_edge::end, log), w); } catch (const std::logic_error&) { g_thrown = 1; } } else if (vf_nondet_bool()) { g_where = 2; try { list.erase(list.end()); } catch (const std::logic_error&) { g_thrown = 1; } } else { g_where = 3; try { list.erase(list.rbegin()); } catch (const std::logic_error&) { g_thrown = 1; } }
	KEEP(g_thrown == 1, "a place that is not in the list is rejected"); KEEP(st.front_page_pos == front && st.back_page_pos == back && st.total_item_count == total && CP(v_b).item_count == nb, "a rejected change leaves the list"); } end(); }
ENTRY(make) { SETUP vmem_page_pos_t f, b, n; if (vf_nondet_bool()) { g_prev = 1; f = 0; b = 0; n = 0; st.item_size = 0; } else if (vf_nondet_bool()) { g_prev = 2; f = NIL; b = NIL; n = 0; } else { g_prev = 3; f = far_real(); b = far_real(); n = vf_nondet_u64(); vf_assume(n >= 1); } st.front_page_pos = f; st.back_page_pos = b; st.total_item_count = n; { container list(&st, fi, fe, &pool, log); KEEP(st.item_size == sizeof(T), "a list knows the size of its items");
	if (g_prev == 1) KEEP(st.front_page_pos == NIL && st.back_page_pos == NIL && st.total_item_count == 0, "a list made over zeroes is empty"); else KEEP(st.front_page_pos == f && st.back_page_pos == b && st.total_item_count == n, "making a list keeps its items"); } end(); }
ENTRY(make_bad) { SETUP vmem_page_pos_t f = far_real(); st.front_page_pos = f; st.back_page_pos = f; st.total_item_count = 1; unsigned sz = vf_nondet_u16(); g_thrown = 0; if (vf_nondet_bool()) { g_where = 1; try { container list(nullptr, fi, fe, &pool, log); } catch (const std::logic_error&) { g_thrown = 1; } } else if (vf_nondet_bool()) { g_where = 2; try { container list(&st, fi, fe, nullptr, log); } catch (const std::logic_error&) { g_thrown = 1; } } else { g_where = 3; if (sz < sizeof(T)) g_half = 1; else { g_half = 2; vf_assume(sz > sizeof(T)); } st.item_size = (vmem_item_pos_t)sz; try { container list(&st, fi, fe, &pool, log); } catch (const std::logic_error&) { g_thrown = 1; } }
	KEEP(g_thrown == 1, "a list of items of another size is rejected"); KEEP(st.front_page_pos == f && st.back_page_pos == f && st.total_item_count == 1, "a rejected list is left as it was"); end(); }
#ifndef VF_ONE
// several items at once, on one page, at the places where a page is split
extern "C" int g_n; int g_n;
extern "C" unsigned long v_x, v_y; unsigned long v_x, v_y;
struct three { unsigned char unused; bool operator!=(const three&) const { return g_n < 3; } void operator++(int) { g_n++; } T operator*() const { if (g_n == 0) return VF_MAKE(v_w); if (g_n == 1) return VF_MAKE(v_x); return VF_MAKE(v_y); } };
template <unsigned long N, unsigned long I> static inline __attribute__((always_inline)) void insert_range(vmem_container_state& st, vf_pool& pool, vf_log* log) { SETUP g_nofail = 1; g_step = 1; fi = vmem_page_balance::all; fe = vmem_page_balance::all; v_w = vf_nondet_u64(); v_x = vf_nondet_u64(); v_y = vf_nondet_u64(); unsigned long z = vf_nondet_u64(); g_n = 0; v_m = vf_nondet_u64();
	st.front_page_pos = B; st.back_page_pos = B; st.total_item_count = N; link(v_b, B, NIL, NIL); CP(v_b).item_count = N; CP(v_b).items[I - 1] = VF_MAKE(v_m); CP(v_b).items[I] = VF_MAKE(z);
	{ container list(&st, fi, fe, &pool, log); iter it = list.insert(AT(B, (vmem_item_pos_t)I), three(), three());
	if (g_failed == 0) { KEEP(st.total_item_count == N + 3, "the number of items grows by each"); KEEP(st.front_page_pos == B, "the front of the list is its first page"); whole(v_b); unsigned long mb = CP(v_b).item_count;
		if (g_alloc == 0) { g_where = 1; KEEP(mb == N + 3, "no item is lost or doubled"); } else { g_where = 2; whole(v_d); KEEP(mb + CP(v_d).item_count == N + 3, "no item is lost or doubled"); }
		#define IS(n, v, what) if ((n) < mb) KEEP(holds(v_b, n, v), what); else KEEP(holds(v_d, (n) - mb, v), what)
		if (I < mb) KEEP(it == AT(B, (vmem_item_pos_t)I), "insert returns the place of the first new item"); else KEEP(it == AT(D, (vmem_item_pos_t)(I - mb)), "insert returns the place of the first new item");
		IS(I - 1, v_m, "items before the new ones stay"); IS(I, v_w, "new items are where they were put, in their order"); IS(I + 1, v_x, "new items are where they were put, in their order"); IS(I + 2, v_y, "new items are where they were put, in their order"); IS(I + 3, z, "items behind the new ones move on"); } } end(); }
#define INSERT_RANGE(name, n, i) ENTRY(insert_range_##name) { insert_range<n, i>(st, pool, log); }
INSERT_RANGE(some, 5, 2) INSERT_RANGE(early, CAP, 1) INSERT_RANGE(split, CAP - 1, CAP - CAP / 2 - 1) INSERT_RANGE(half, CAP, CAP - CAP / 2) INSERT_RANGE(last, CAP, CAP - 1) INSERT_RANGE(late, CAP - 2, CAP - CAP / 2 - 2)
template <unsigned long N, unsigned long I, unsigned long J> static inline __attribute__((always_inline)) void erase_range(vmem_container_state& st, vf_pool& pool, vf_log* log) { SETUP g_nofail = 1; g_step = 1; fe = vmem_page_balance::all; v_m = vf_nondet_u64(); v_w = vf_nondet_u64(); st.front_page_pos = B; st.back_page_pos = B; st.total_item_count = N; link(v_b, B, NIL, NIL); CP(v_b).item_count = N; if (I > 0) CP(v_b).items[I - 1] = VF_MAKE(v_m); if (J < N) CP(v_b).items[J] = VF_MAKE(v_w);
	{ container list(&st, fi, fe, &pool, log); iter last = J < N ? AT(B, (vmem_item_pos_t)J) : list.end(); iter it = list.erase(AT(B, (vmem_item_pos_t)I), last); KEEP(st.total_item_count == N - (J - I), "the number of items shrinks by each");
	if (N == J - I) { vf_assert(g_fb == 1, "[free] a page without items is given back"); KEEP(st.front_page_pos == NIL && st.back_page_pos == NIL, "a list without items has no pages"); } else { vf_assert(g_fb == 0, "[free] only a page without items is given back"); KEEP(CP(v_b).item_count == N - (J - I), "no item is lost or doubled"); if (I > 0) KEEP(holds(v_b, I - 1, v_m), "items before the erased ones stay"); if (J < N) KEEP(holds(v_b, I, v_w), "items behind the erased ones move on"); }
	if (J < N) KEEP(it == AT(B, (vmem_item_pos_t)I), "erase returns the item behind"); else KEEP(it == list.end(), "erase returns the item behind"); } end(); }
#define ERASE_RANGE(name, n, i, j) ENTRY(erase_range_##name) { erase_range<n, i, j>(st, pool, log); }
ERASE_RANGE(none, 5, 2, 2) ERASE_RANGE(front, 5, 0, 2) ERASE_RANGE(some, CAP, 3, 6) ERASE_RANGE(back, 5, 2, 5) ERASE_RANGE(all, 3, 0, 3)
ENTRY(insert_range_empty) { SETUP g_nofail = 1; g_step = 1; fi = vmem_page_balance::all; v_w = vf_nondet_u64(); v_x = vf_nondet_u64(); v_y = vf_nondet_u64(); g_n = 0; st.front_page_pos = NIL; st.back_page_pos = NIL; st.total_item_count = 0;
	{ container list(&st, fi, fe, &pool, log); iter it = list.insert(list.end(), three(), three()); if (g_failed == 0) { KEEP(it == AT(D, 0), "insert returns the place of the first new item"); KEEP(st.total_item_count == 3 && CP(v_d).item_count == 3, "the number of items grows by each"); KEEP(holds(v_d, 0, v_w) && holds(v_d, 1, v_x) && holds(v_d, 2, v_y), "new items are where they were put, in their order"); } } end(); }
#endif
