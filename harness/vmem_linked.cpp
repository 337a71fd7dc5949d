// Lists of pages of any length: a page is linked in, taken out, and found from either side; the
// pages whose links may change are real, those further away are arbitrary.
#include <new>
#include <utility>
#include "vf_pool.h"
using namespace abc;
typedef vmem_linked<vf_pool, vf_log> linked;
typedef vmem_linked_iterator<vf_pool, vf_log> iter;
typedef vmem_linked_page lpage;
extern "C" int g_thrown, g_prev, g_next, g_front, g_back, g_zero;
int g_thrown, g_prev, g_next, g_front, g_back, g_zero;
static constexpr vmem_page_pos_t NIL = vmem_page_pos_nil;
#define LP(v) (*(lpage*)v.bytes)
static inline void set(vf_page_data& v, vmem_page_pos_t pos, vmem_page_pos_t prev, vmem_page_pos_t next) { lpage* p = (lpage*)v.bytes; p->page_pos = pos; p->prev_page_pos = prev; p->next_page_pos = next; }
static inline bool is(vf_page_data& v, vmem_page_pos_t pos, vmem_page_pos_t prev, vmem_page_pos_t next) { lpage* p = (lpage*)v.bytes; return p->page_pos == pos && p->prev_page_pos == prev && p->next_page_pos == next; }
static inline vmem_page_pos_t far_page() { vmem_page_pos_t p = vf_nondet_u64(); vf_assume(p >= 1000); return p; } // positions are only compared for equality
static inline vmem_page_pos_t far_real() { vmem_page_pos_t p = far_page(); vf_assume(p < NIL); return p; }
#define KEEP(b, what) vf_assert(b, "[link] " what)
// far pages are real pages, or none
static inline void end() { vf_unpinned(); vf_reach("must: end"); }
#define ENTRY(name) extern "C" void H_##name(vmem_linked_state& st, vmem_linked_state& other, vf_pool& pool, vf_log* log)
#define AT(pos) iter(&list, pos, vmem_item_pos_nil, vmem_iterator_edge::none, log)
// A <-> B <-> C, where A and C may be missing and have arbitrary other neighbours; B is what is looked at
#define AROUND_B g_prev = 0; g_next = 0; vmem_page_pos_t ap = far_page(), cn = far_page(); \
	if (vf_nondet_bool()) { g_prev = 1; if (ap == NIL) { g_front = 1; st.front_page_pos = A; } else { g_front = 2; st.front_page_pos = far_real(); } } else st.front_page_pos = B; \
	if (vf_nondet_bool()) { g_next = 1; if (cn == NIL) { g_back = 1; st.back_page_pos = C; } else { g_back = 2; st.back_page_pos = far_real(); } } else st.back_page_pos = B; \
	vmem_page_pos_t front = st.front_page_pos, back = st.back_page_pos; \
	set(v_a, A, ap, B); set(v_c, C, B, cn); set(v_b, B, g_prev ? A : NIL, g_next ? C : NIL);

ENTRY(linked_make) { vf_pool_init(); vf_pages(); vmem_page_pos_t f, b; if (vf_nondet_bool()) { g_zero = 1; f = 0; } else if (vf_nondet_bool()) { g_zero = 2; f = NIL; } else { g_zero = 3; f = far_real(); } if (vf_nondet_bool()) { g_next = 1; b = 0; } else if (vf_nondet_bool()) { g_next = 2; b = NIL; } else { g_next = 3; b = far_real(); } st.front_page_pos = f; st.back_page_pos = b;  { linked list(&st, &pool, log);
	if (g_zero == 1 && g_next == 1) KEEP(st.front_page_pos == NIL && st.back_page_pos == NIL, "a list made over zeroes is empty");
	else KEEP(st.front_page_pos == f && st.back_page_pos == b, "making a list keeps its pages"); } end(); }
ENTRY(linked_make_bad) { vf_pool_init(); vf_pages(); g_thrown = 0; try { linked list(nullptr, &pool, log); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "a list without a state is rejected");
	g_thrown = 0; try { linked list(&st, nullptr, log); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "a list without a pool is rejected"); end(); }
ENTRY(linked_erase) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); iter it = list.erase(AT(B));
	if (!g_failed) vf_assert(g_fb == 1, "[free] an erased page is given back");
	if (!g_fb) { KEEP(st.front_page_pos == front && st.back_page_pos == back, "a list that cannot be changed is left as it was");
		KEEP(is(v_a, A, ap, B), "a list that cannot be changed is left as it was"); KEEP(is(v_c, C, B, cn), "a list that cannot be changed is left as it was"); KEEP(it == list.end(), "a failed change returns the end"); }
	else { KEEP(LP(v_a).prev_page_pos == ap && LP(v_c).next_page_pos == cn, "other links stay");
		KEEP(LP(v_a).next_page_pos == (g_prev ? (g_next ? C : NIL) : B), "the pages around an erased page are linked"); KEEP(LP(v_c).prev_page_pos == (g_next ? (g_prev ? A : NIL) : B), "the pages around an erased page are linked");
		KEEP(st.front_page_pos == (g_prev ? front : g_next ? C : NIL), "the front of the list is its first page"); KEEP(st.back_page_pos == (g_next ? back : g_prev ? A : NIL), "the back of the list is its last page");
		if (g_next) KEEP(it == AT(C), "erase returns the page behind"); else KEEP(it == list.end(), "erase returns the page behind"); } }
	vf_assert(g_fa + g_fc + g_fd + g_fe == 0, "[free] only the erased page is given back"); end(); }
ENTRY(linked_pop_front) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_prev == 0); { linked list(&st, &pool, log); list.pop_front();
	if (!g_failed) { vf_assert(g_fb == 1, "[free] an erased page is given back"); KEEP(st.front_page_pos == (g_next ? C : NIL), "the front of the list is its first page"); KEEP(st.back_page_pos == (g_next ? back : NIL), "the back of the list is its last page"); if (g_next) KEEP(LP(v_c).prev_page_pos == NIL, "the first page has none before it"); } } end(); }
ENTRY(linked_pop_back) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_next == 0); { linked list(&st, &pool, log); list.pop_back();
	if (!g_failed) { vf_assert(g_fb == 1, "[free] an erased page is given back"); KEEP(st.back_page_pos == (g_prev ? A : NIL), "the back of the list is its last page"); KEEP(st.front_page_pos == (g_prev ? front : NIL), "the front of the list is its first page"); if (g_prev) KEEP(LP(v_a).next_page_pos == NIL, "the last page has none behind it"); } } end(); }
ENTRY(linked_pop_empty) { vf_pool_init(); vf_pages(); st.front_page_pos = NIL; st.back_page_pos = NIL; { linked list(&st, &pool, log); KEEP(list.empty(), "a list without pages is empty"); g_thrown = 0; try { list.pop_back(); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "taking a page from an empty list is rejected");
	g_thrown = 0; try { list.pop_front(); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "taking a page from an empty list is rejected"); KEEP(st.front_page_pos == NIL && st.back_page_pos == NIL, "an empty list stays empty"); } vf_assert(g_fa + g_fb + g_fc + g_fd + g_fe == 0, "[free] only an erased page is given back"); end(); }
// E goes before B
ENTRY(linked_insert) { vf_pool_init(); vf_pages(); AROUND_B set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64()); { linked list(&st, &pool, log); iter it = list.insert(AT(B), E);
	if (g_failed) { KEEP(st.front_page_pos == front && st.back_page_pos == back, "a list that cannot be changed is left as it was"); KEEP(is(v_a, A, ap, B), "a list that cannot be changed is left as it was"); KEEP(is(v_b, B, g_prev ? A : NIL, g_next ? C : NIL), "a list that cannot be changed is left as it was"); KEEP(it == list.end(), "a failed change returns the end"); }
	else { KEEP(is(v_e, E, g_prev ? A : NIL, B), "an inserted page is linked to its neighbours"); KEEP(is(v_b, B, E, g_next ? C : NIL), "the page behind an inserted page is linked to it"); KEEP(is(v_a, A, ap, g_prev ? E : B), "the page before an inserted page is linked to it");
		KEEP(st.front_page_pos == (g_prev ? front : E), "the front of the list is its first page"); KEEP(st.back_page_pos == back, "the back of the list is its last page"); KEEP(it == AT(E), "insert returns the new page"); }
	KEEP(is(v_c, C, B, cn), "other links stay"); } end(); }
ENTRY(linked_push_front) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_prev == 0); set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64()); { linked list(&st, &pool, log); list.push_front(E);
	if (g_failed) KEEP(st.front_page_pos == front && st.back_page_pos == back && is(v_b, B, NIL, g_next ? C : NIL), "a list that cannot be changed is left as it was");
	else { KEEP(is(v_e, E, NIL, B), "an inserted page is linked to its neighbours"); KEEP(is(v_b, B, E, g_next ? C : NIL), "the page behind an inserted page is linked to it"); KEEP(st.front_page_pos == E, "the front of the list is its first page"); KEEP(st.back_page_pos == back, "the back of the list is its last page"); } } end(); }
ENTRY(linked_push_back) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_next == 0); set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64()); { linked list(&st, &pool, log); list.push_back(E);
	if (g_failed) KEEP(st.front_page_pos == front && st.back_page_pos == back && is(v_b, B, g_prev ? A : NIL, NIL), "a list that cannot be changed is left as it was");
	else { KEEP(is(v_e, E, B, NIL), "an inserted page is linked to its neighbours"); KEEP(is(v_b, B, g_prev ? A : NIL, E), "the page before an inserted page is linked to it"); KEEP(st.front_page_pos == front, "the front of the list is its first page"); KEEP(st.back_page_pos == E, "the back of the list is its last page"); } } end(); }
ENTRY(linked_push_empty) { vf_pool_init(); vf_pages(); st.front_page_pos = NIL; st.back_page_pos = NIL; set(v_e, vf_nondet_u64(), vf_nondet_u64(), vf_nondet_u64()); { linked list(&st, &pool, log); if (vf_nondet_bool()) list.push_back(E); else list.push_front(E);
	if (g_failed) KEEP(st.front_page_pos == NIL && st.back_page_pos == NIL, "a list that cannot be changed is left as it was");
	else { KEEP(is(v_e, E, NIL, NIL), "the only page has no neighbours"); KEEP(st.front_page_pos == E && st.back_page_pos == E, "the only page is the front and the back"); KEEP(!list.empty(), "a list with a page is not empty"); } } end(); }
ENTRY(linked_insert_bad) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); g_thrown = 0; try { list.insert(iter(&list, NIL, vmem_item_pos_nil, vmem_iterator_edge::rbegin, log), E); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "a place that is not in the list is rejected");
	g_thrown = 0; try { list.erase(list.end()); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "a place that is not in the list is rejected"); KEEP(st.front_page_pos == front && st.back_page_pos == back, "a rejected change leaves the list"); } end(); }
ENTRY(linked_next) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); iter it = AT(B); ++it;
	if (!g_failed) { if (g_next) KEEP(it == AT(C), "the next page is the one behind"); else KEEP(it == list.end(), "behind the last page is the end"); }
	KEEP(st.front_page_pos == front && st.back_page_pos == back, "looking at a list leaves it"); } end(); }
ENTRY(linked_prev) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); iter it = AT(B); --it;
	if (!g_failed) { if (g_prev) KEEP(it == AT(A), "the previous page is the one before"); else KEEP(it == list.rbegin(), "before the first page is the reverse begin"); } } end(); }
ENTRY(linked_ends) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); KEEP(list.begin() == AT(front), "a list begins with its front"); KEEP(list.rend() == AT(back), "a list ends with its back"); iter it = list.end(); ++it; KEEP(it == list.end(), "behind the end is the end"); --it; KEEP(it == AT(back), "before the end is the back"); it = list.rbegin(); --it; KEEP(it == list.rbegin(), "before the reverse begin is the reverse begin"); ++it; KEEP(it == AT(front), "behind the reverse begin is the front"); KEEP(g_failed == 0, "ends are found without reading"); } end(); }
ENTRY(linked_empty) { vf_pool_init(); vf_pages(); st.front_page_pos = NIL; st.back_page_pos = NIL; { linked list(&st, &pool, log); KEEP(list.empty() && list.begin() == list.end() && list.rend() == list.rbegin(), "an empty list has no pages"); iter it = list.end(); --it; KEEP(it == list.rbegin(), "an empty list has no pages"); ++it; KEEP(it == list.end(), "an empty list has no pages"); } end(); }
ENTRY(linked_front) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_prev == 0); { linked list(&st, &pool, log); g_thrown = 0; vmem_page_pos_t p = 0; try { p = list.front(); } catch (const std::runtime_error&) { g_thrown = 1; } if (!g_failed) KEEP(g_thrown == 0 && p == B, "the front is the first page"); else KEEP(g_thrown == 1, "a front that cannot be read is reported"); } end(); }
ENTRY(linked_back) { vf_pool_init(); vf_pages(); AROUND_B vf_assume(g_next == 0); { linked list(&st, &pool, log); g_thrown = 0; vmem_page_pos_t p = 0; try { p = list.back(); } catch (const std::runtime_error&) { g_thrown = 1; } if (!g_failed) KEEP(g_thrown == 0 && p == B, "the back is the last page"); else KEEP(g_thrown == 1, "a back that cannot be read is reported"); } end(); }
// this list ends with A, the other one begins with C; either may be empty
ENTRY(linked_splice) { vf_pool_init(); vf_pages(); g_prev = 0; g_next = 0; vmem_page_pos_t ap = far_page(), cn = far_page(); set(v_a, A, ap, NIL); set(v_c, C, NIL, cn);
	if (vf_nondet_bool()) { g_prev = 1; if (ap == NIL) { g_front = 1; st.front_page_pos = A; } else { g_front = 2; st.front_page_pos = far_real(); } st.back_page_pos = A; } else { st.front_page_pos = NIL; st.back_page_pos = NIL; }
	if (vf_nondet_bool()) { g_next = 1; other.front_page_pos = C; if (cn == NIL) { g_back = 1; other.back_page_pos = C; } else { g_back = 2; other.back_page_pos = far_real(); } } else { other.front_page_pos = NIL; other.back_page_pos = NIL; }
	vmem_page_pos_t front = st.front_page_pos, back = st.back_page_pos, ofront = other.front_page_pos, oback = other.back_page_pos;
	{ linked list(&st, &pool, log); linked from(&other, &pool, log); if (vf_nondet_bool()) list.splice(from); else list.splice(std::move(from)); }
	if (g_failed) { KEEP(st.front_page_pos == front && st.back_page_pos == back && other.front_page_pos == ofront && other.back_page_pos == oback, "a list that cannot be changed is left as it was"); KEEP(is(v_a, A, ap, NIL), "a list that cannot be changed is left as it was"); KEEP(is(v_c, C, NIL, cn), "a list that cannot be changed is left as it was"); }
	else { KEEP(other.front_page_pos == NIL && other.back_page_pos == NIL, "pages that were spliced left their list"); KEEP(st.front_page_pos == (g_prev ? front : ofront) && st.back_page_pos == (g_next ? oback : back), "spliced pages follow those of the list");
		KEEP(is(v_a, A, ap, g_prev && g_next ? C : NIL), "spliced pages are linked"); KEEP(is(v_c, C, g_prev && g_next ? A : NIL, cn), "spliced pages are linked"); }
	vf_assert(g_fa + g_fb + g_fc + g_fd + g_fe == 0, "[free] splicing gives no page back"); end(); }
ENTRY(linked_splice_self) { vf_pool_init(); vf_pages(); AROUND_B { linked list(&st, &pool, log); linked same(list); g_thrown = 0; try { list.splice(same); } catch (const std::logic_error&) { g_thrown = 1; } KEEP(g_thrown == 1, "splicing a list into itself is rejected"); KEEP(st.front_page_pos == front && st.back_page_pos == back, "a rejected change leaves the list"); } end(); }
