// Maps: where a key is found, and where it goes in. The order of the keys of a page is given by how many of them come
// before the key that is looked for, so that only the outcome of the search matters, not the way it takes.
// absint: --sums --count 2
#include <new>
#include <utility>
#define VF_C 65535 // a page like any other, though no item has this position
#include "vf_pool.h"
extern "C" { int g_levels, g_hit_a, g_hit_b, g_hit_c, g_eq_c, g_root, g_pushed, g_cleared, g_inserted, g_low_a, g_low_b, g_first, g_path, g_visit; unsigned v_step_at, v_step_edge; unsigned short v_leaf_at; unsigned char v_leaf_edge; unsigned long v_less_a, v_less_b, v_less_c, v_le_a, v_le_b, v_le_c, v_leaf; const void* v_wanted; }
static constexpr unsigned KEYS = 27;
static inline bool compare(const void* item, int what); // -1: less, 0: equal, 1: less or equal
struct vkey { unsigned long id; };
extern "C" { vkey v_key; }
static inline bool less(const vkey& l, const vkey& r) { if ((const void*)&r == v_wanted) return compare(&l, -1); vf_assert((const void*)&l == v_wanted, "[find] keys are compared with the one that is looked for"); return !compare(&r, 1); }
static inline bool same(const vkey& l, const vkey& r) { if ((const void*)&r == v_wanted) return compare(&l, 0); vf_assert((const void*)&l == v_wanted, "[find] keys are compared with the one that is looked for"); return compare(&r, 0); }
static inline bool operator <(const vkey& l, const vkey& r) { return less(l, r); }
static inline bool operator >(const vkey& l, const vkey& r) { return less(r, l); }
static inline bool operator <=(const vkey& l, const vkey& r) { return !less(r, l); }
static inline bool operator >=(const vkey& l, const vkey& r) { return !less(l, r); }
static inline bool operator ==(const vkey& l, const vkey& r) { return same(l, r); }
static inline bool operator !=(const vkey& l, const vkey& r) { return !same(l, r); }
using namespace abc;
typedef vmem_map<vkey, unsigned long, vf_pool, vf_log> map;
typedef map::value_type item;
typedef vmem_map_key_page<vkey> kpage; typedef vmem_map_value_page<vkey, unsigned long> vpage;
typedef vmem_container<vmem_container_state, vmem_noheader, vf_pool, vf_log> levels;
typedef vmem_container<vmem_page_pos_t, vmem_noheader, vf_pool, vf_log> pages;
typedef vmem_container<item, vmem_noheader, vf_pool, vf_log> values;
static constexpr vmem_page_pos_t NIL = vmem_page_pos_nil;
static constexpr unsigned long KCAP = (vmem_page_size - KEYS) / sizeof(vmem_map_key<vkey>), VCAP = (vmem_page_size - KEYS) / sizeof(item);
#define KP(v) (*(kpage*)v.bytes)
#define VP(v) (*(vpage*)v.bytes)
template <typename Page> static inline bool order(const void* p, vf_page_data& v, unsigned long lt, unsigned long le, int& hit, int what) {
	unsigned long off = (unsigned long)((const unsigned char*)p - v.bytes) - KEYS, slot = off / 16, n = ((Page*)v.bytes)->item_count;
	vf_assert(off == slot * 16, "[find] keys of items are compared"); vf_assert(slot < n, "[find] only keys of the page are compared");
	if (what == 0) { if (slot < lt) return false; return slot < le; }
	unsigned long bound = what == 1 ? le : lt;
	if (slot >= bound) return false;
	if (slot + 1 == bound) hit = 1; else hit = 0;
	return true;
}
static inline bool compare(const void* p, int what) {
	if (g_pc > 0) return order<vpage>(p, v_c, v_less_c, v_le_c, g_hit_c, what);
	if (g_pb > 0) return order<kpage>(p, v_b, v_less_b, v_le_b, g_hit_b, what);
	vf_assert(g_pa > 0, "[find] keys are compared while their page is pinned");
	return order<kpage>(p, v_a, v_less_a, v_le_a, g_hit_a, what);
}
namespace abc {
	template <> bool levels::empty() const noexcept { return g_levels == 0; }
	template <> std::size_t levels::size() const noexcept { return g_levels; }
	extern "C" { vmem_container_state v_top; }
	template <> vmem_container_state& levels::back() { vf_assert(g_levels > 0, "[find] only a map with keys has a top"); return v_top; }
	template <> const vmem_container_state& levels::back() const { vf_assert(g_levels > 0, "[find] only a map with keys has a top"); return v_top; }
	template <> void pages::push_back(const vmem_page_pos_t& p) {
		vmem_page_pos_t pos = p;
		if (g_pushed == 0) { vf_assert(pos == (g_levels == 2 ? A : B), "[path] the way to a key begins with the top page"); g_pushed = 1; }
		else if (g_pushed == 1) { vf_assert(g_levels == 2, "[path] a page of every level is on the way"); vf_assert(pos == B, "[path] the way to a key leads over the pages of keys"); g_pushed = 2; }
		else vf_assert(false, "[path] a page of every level is on the way once");
	}
	template <> void pages::clear() noexcept { g_cleared++; }
	static inline pages::iterator on_path(const pages* c, unsigned n) { if ((int)n >= g_pushed) return pages::iterator(c, E, vmem_item_pos_nil, vmem_iterator_edge::end, nullptr); return pages::iterator(c, E, (vmem_item_pos_t)n, vmem_iterator_edge::none, nullptr); }
	template <> pages::iterator pages::begin() noexcept { return on_path(this, 0); }
	template <> pages::iterator pages::end() noexcept { return on_path(this, 9); }
	template <> pages::iterator pages::next(const pages::iterator_state& i) const noexcept { return on_path(this, i._item_pos + 1u); }
	extern "C" vmem_page_pos_t v_step;
	template <> vmem_page_pos_t& pages::iterator::deref() const { unsigned n = this->_item_pos; if (n == 0) g_visit = 1; else g_visit = 2; if (n == 0) v_step = g_levels == 2 ? A : B; else v_step = B; return v_step; }
	extern "C" { item v_item; }
	template <> values::result2 values::insert2(values::const_iterator itr, const item& it) {
		values::result2 r; vmem_page_pos_t p = itr.page_pos(); unsigned long n = itr.item_pos();
		vf_assert(g_inserted == 0, "[insert] an item goes in once"); if (g_root == 2) vf_assert(p == NIL, "[insert] the first item has no place yet"); else { vf_assert(g_failed == 0 || g_failed > 3, "[insert] nothing goes in where a page cannot be read"); vf_assert(p == C, "[insert] an item goes in on the page its keys lead to"); vf_assert(n == v_less_c, "[insert] an item goes in before the first that is greater"); }
		vf_assert(&it.key == v_wanted, "[insert] the item goes in");
		if (vf_nondet_bool()) { g_inserted = 2; return r; }
		g_inserted = 1; r.iterator = values::iterator(this, C, (vmem_item_pos_t)v_less_c, vmem_iterator_edge::none, nullptr);
		return r;
	}
	template <> values::result2 values::erase2(values::const_iterator itr) {
		values::result2 r; vmem_page_pos_t p = itr.page_pos(); unsigned long n = itr.item_pos();
		vf_assert(g_inserted == 0, "[insert] an item goes out once"); vf_assert(g_failed == 0 && g_root != 2 && g_eq_c == 1, "[insert] only an item that was found goes out"); vf_assert(p == C && n == v_less_c, "[insert] the item of the key goes out");
		if (vf_nondet_bool()) { g_inserted = 2; return r; }
		g_inserted = 1; r.iterator = values::iterator(this, C, (vmem_item_pos_t)v_less_c, vmem_iterator_edge::none, nullptr);
		return r;
	}
	static inline values::iterator moved(const values* c, const values::iterator_state& i, int way) { vmem_page_pos_t p = i._page_pos; unsigned n = i._item_pos, e = i._edge; vf_assert(p == B && n == v_step_at && e == v_step_edge, "[step] a step begins where it is"); g_visit = way; return values::iterator(c, v_leaf, v_leaf_at, v_leaf_edge, nullptr); }
	template <> values::iterator values::next(const values::iterator_state& i) const noexcept { return moved(this, i, 1); }
	template <> values::iterator values::prev(const values::iterator_state& i) const noexcept { return moved(this, i, 2); }
}
static inline void vals() { VP(v_c).page_pos = C; unsigned long n = vf_nondet_size(); vf_assume(n <= VCAP); VP(v_c).item_count = (vmem_item_pos_t)n; v_less_c = vf_nondet_size(); vf_assume(v_less_c <= n); g_eq_c = 0; if (vf_nondet_bool()) { g_eq_c = 1; vf_assume(v_less_c < n); v_le_c = v_less_c + 1; } else v_le_c = v_less_c; }
static inline void keys(vf_page_data& v, vmem_page_pos_t next, unsigned long& lt, unsigned long& le, int& low) { // the last key that is not greater leads on, or the first of all
	unsigned long n = vf_nondet_size(); vf_assume(n >= 1); vf_assume(n <= KCAP); KP(v).item_count = (vmem_item_pos_t)n; lt = vf_nondet_size(); le = vf_nondet_size(); vf_assume(lt <= le); vf_assume(le <= lt + 1); vf_assume(le <= n);
	if (vf_nondet_bool()) { low = 1; vf_assume(le <= 1); KP(v).items[0].page_pos = next; } else { low = 0; vf_assume(le >= 2); KP(v).items[le - 1].page_pos = next; }
}
static inline void init(int n) { vf_pool_init(); g_levels = n; g_hit_a = g_hit_b = g_hit_c = g_eq_c = g_root = g_pushed = g_cleared = g_inserted = g_low_a = g_low_b = g_first = g_path = g_visit = 0; vf_pages(); v_less_a = v_less_b = v_less_c = 0; }
static inline map* make(void* mem, int n, vmem_map_state& st, vf_pool& pool, vf_log* log) {
	init(n); st.keys.item_size = sizeof(vmem_container_state); st.values.item_size = sizeof(item);
	vals(); v_top.front_page_pos = n == 2 ? A : B; if (n > 0) keys(v_b, C, v_less_b, v_le_b, g_low_b); if (n > 1) keys(v_a, B, v_less_a, v_le_a, g_low_a);
	st.values.front_page_pos = A; st.values.back_page_pos = E; if (n == 0) { if (vf_nondet_bool()) { g_root = 1; st.values.front_page_pos = C; } else { g_root = 2; st.values.front_page_pos = st.values.back_page_pos = NIL; } }
	return new (mem) map(&st, &pool, log);
}
#define MAP(n) alignas(map) char mem[sizeof(map)]; map* m = make(mem, n, st, pool, log); v_wanted = &v_key;
template <int n> static inline void find(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(n)
	{
		auto r = m->find2(v_key);
		vf_unpinned(); bool ok = r.ok;
		if (g_failed != 0) { vf_assert(!ok, "[find] nothing is found where a page cannot be read"); vf_assert(!r.iterator.can_deref(), "[find] nothing is found where a page cannot be read"); vf_reach("must: failed"); }
		else if (g_root == 2) { vf_assert(!ok, "[find] nothing is found in an empty map"); vf_assert(!r.iterator.can_deref(), "[find] an empty map has no place"); vf_reach("reach: empty"); }
		else {
			if (g_eq_c == 1) vf_assert(ok, "[find] a key that is there is found"); else vf_assert(!ok, "[find] a key that is not there is not found");
			vmem_page_pos_t p = r.iterator.page_pos(); unsigned long i = r.iterator.item_pos(); vf_assert(r.iterator.can_deref(), "[find] a key has a place"); vf_assert(p == C, "[find] a key is looked for on the page its keys lead to"); vf_assert(i == v_less_c, "[find] the place of a key is before the first that is greater");
			vf_assert(g_pushed == n, "[path] a page of every level is on the way");
			vf_reach("must: end");
		}
	}
	vf_assert(g_cleared == 1, "[path] the pages of a way are given back");
}
#define PER(name, f) extern "C" void H_##name##_0(vmem_map_state& st, vf_pool& pool, vf_log* log) { f<0>(st, pool, log); } extern "C" void H_##name##_1(vmem_map_state& st, vf_pool& pool, vf_log* log) { f<1>(st, pool, log); } extern "C" void H_##name##_2(vmem_map_state& st, vf_pool& pool, vf_log* log) { f<2>(st, pool, log); }
PER(find, find)
// what callers see
template <int n> static inline void at(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(n) auto r = m->find(v_key); bool there = r.can_deref();
	if (g_failed == 0 && g_root != 2 && g_eq_c == 1) { vf_assert(there, "[find] a key that is there is found"); vmem_page_pos_t p = r.page_pos(); unsigned long i = r.item_pos(); vf_assert(p == C && i == v_less_c, "[find] a key is found at its place"); vf_reach("must: found"); }
	else { vf_assert(!there, "[find] a key that is not there is not found"); vf_reach("must: not found"); }
}
PER(at, at)
template <int n> static inline void ref(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(n) auto r = (*m)[v_key]; vmem_page_pos_t p = r.page_pos(); unsigned long i = r.byte_pos();
	if (i != vmem_item_pos_nil) { vf_assert(g_eq_c == 1, "[find] a key that is not there has no item"); vf_assert(g_root != 2, "[find] a key that is not there has no item"); vf_assert(p == C, "[find] the item of a key is on its page"); vf_assert(i == KEYS + v_less_c * sizeof(item), "[find] the item of a key is at its place"); vf_reach("must: item"); }
	else { vf_assert(g_failed != 0 || g_eq_c == 0 || g_root == 2, "[find] a key that is there has an item"); vf_reach("must: no item"); }
}
PER(ref, ref)
extern "C" void H_item_pos(vmem_map_state& st, vf_pool& pool, vf_log* log) { // the place of a new key on a page of keys
	MAP(1) vf_assume(v_le_b == v_less_b); unsigned long i = m->key_item_pos(B, v_key); vf_unpinned();
	if (g_failed != 0) { vf_assert(i == vmem_item_pos_nil, "[find] there is no place on a page that cannot be read"); vf_reach("must: failed"); } else { vf_assert(i == v_less_b, "[find] a new key goes before the first that is greater"); vf_reach("must: end"); }
}
// a constant map is the same map
extern "C" void H_constant(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(1) const map& c = *m;
	if (vf_nondet_bool()) { bool there = c.contains(v_key); if (g_failed == 0) vf_assert(there == (g_eq_c == 1), "[find] a constant map holds what the map holds"); else vf_assert(!there, "[find] nothing is found where a page cannot be read"); vf_reach("must: end"); }
	else { auto r = c[v_key]; vmem_page_pos_t p = r.page_pos(); unsigned long i = r.byte_pos(); if (i != vmem_item_pos_nil) { vf_assert(g_eq_c == 1, "[find] a key that is not there has no item"); vf_assert(p == C && i == KEYS + v_less_c * sizeof(item), "[find] the item of a key is at its place"); vf_reach("must: item"); } else vf_assert(g_failed != 0 || g_eq_c == 0, "[find] a key that is there has an item"); }
}
// a new item goes in at the place of its key, and the pages of keys lead to it
template <int n, int top> static inline void insert(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(n) v_wanted = &v_item.key; unsigned long id = v_item.key.id, a0 = KP(v_a).items[0].key.id, b0 = KP(v_b).items[0].key.id;
	if (n > 0) { if (vf_nondet_bool()) { g_first = 1; vf_assume(v_le_b == 0); } else vf_assume(v_le_b >= 1); }
	if (n > 1) { if (top == 1) { g_path = 1; vf_assume(v_le_a == 0); } else if (top == 2) { vf_assume(v_le_a >= 1); vf_assume(v_le_a < 2); } else vf_assume(v_le_a >= 2); }
	auto r = m->insert2(v_item);
	vf_unpinned(); bool ok = r.ok, at = r.iterator.can_deref(); vmem_page_pos_t p = r.iterator.page_pos(); unsigned long i = r.iterator.item_pos();
	if (g_inserted == 0) {
		vf_assert(!ok, "[insert] a key goes in once"); vf_assert(g_failed != 0 || (g_eq_c == 1 && g_root != 2), "[insert] a key that is not there goes in");
		if (g_failed == 0) { vf_assert(at, "[insert] the item that has the key is told"); vf_assert(p == C && i == v_less_c, "[insert] the item that has the key is told"); vf_reach("must: there"); } else vf_reach("must: failed");
	}
	else {
		vf_assert(g_eq_c == 0 || g_root == 2, "[insert] a key that is there does not go in again");
		if (g_inserted == 2) { vf_assert(!ok && !at, "[insert] an item that could not go in is not there"); vf_reach("must: refused"); }
		else { vf_assert(ok && at, "[insert] an item that went in is there"); vf_assert(p == C && i == v_less_c, "[insert] an item that went in is where it went in"); vf_reach("must: in"); }
	}
	unsigned long a1 = KP(v_a).items[0].key.id, b1 = KP(v_b).items[0].key.id;
	if (g_inserted != 1) { vf_assert(a1 == a0 && b1 == b0, "[keys] keys lead to the same pages if nothing went in"); }
	else if (g_failed == 0) {
		if (n > 0) { if (g_first == 1) vf_assert(b1 == id, "[keys] the first key of a page is not greater than the keys it leads to"); else vf_assert(b1 == b0, "[keys] keys lead to the same pages"); }
		if (n > 1) { if (g_path == 1) vf_assert(a1 == id, "[keys] the first key of a page is not greater than the keys it leads to"); else vf_assert(a1 == a0, "[keys] keys lead to the same pages"); }
		vf_reach("must: keys");
	}
}
#define INSERT(name, n, top) extern "C" void H_insert_##name(vmem_map_state& st, vf_pool& pool, vf_log* log) { insert<n, top>(st, pool, log); }
INSERT(0, 0, 0) INSERT(1, 1, 0) INSERT(2_first, 2, 1) INSERT(2_second, 2, 2) INSERT(2_inner, 2, 3)
template <int n> static inline void erase(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(n) std::size_t r = m->erase(v_key); vf_unpinned();
	if (g_inserted == 1) { vf_assert(r == 1, "[insert] an item that went out is counted"); vf_reach("must: out"); }
	else { vf_assert(r == 0, "[insert] what did not go out is not counted"); if (g_inserted == 0) { vf_assert(g_failed != 0 || g_eq_c == 0 || g_root == 2, "[insert] an item that is there goes out"); vf_reach("must: not there"); } else vf_reach("must: refused"); }
}
PER(erase, erase)
// a map is walked through as its items are
template <int way> static inline void step(vmem_map_state& st, vf_pool& pool, vf_log* log) {
	MAP(1) v_step_at = vf_nondet_u16(); v_step_edge = vf_nondet_uchar(); vf_assume(v_step_edge <= 2); v_leaf = vf_nondet_u64(); v_leaf_at = vf_nondet_u16(); v_leaf_edge = vf_nondet_uchar();
	map::iterator i(m, B, (vmem_item_pos_t)v_step_at, (vmem_iterator_edge_t)v_step_edge, log);
	if (vf_nondet_bool()) { if (way == 1) ++i; else --i; } else { if (way == 1) i++; else i--; }
	unsigned long p = i._page_pos; unsigned k = i._item_pos, e = i._edge, k2 = v_leaf_at, e2 = v_leaf_edge;
	vf_assert(g_visit == way, "[step] a step goes the way it should"); vf_assert(p == v_leaf, "[step] a step leads to the page of the item"); vf_assert(k == k2, "[step] a step leads to the item"); vf_assert(e == e2, "[step] a step leads to the edge");
	vf_reach("must: end");
}
#define STEP(name, n) extern "C" void H_##name(vmem_map_state& st, vf_pool& pool, vf_log* log) { step<n>(st, pool, log); }
STEP(forward, 1) STEP(backward, 2)
extern "C" void H_ends(vmem_map_state& st, vf_pool& pool, vf_log* log) { // the ends of a map are the ends of its items
	MAP(0) const map& c = *m; unsigned long front = st.values.front_page_pos, back = st.values.back_page_pos;
	if (g_root == 1) back = st.values.back_page_pos = C;
	VP(v_c).item_count = 1; unsigned long n = vf_nondet_size(); vf_assume(n >= 1); vf_assume(n <= VCAP); VP(v_c).item_count = (vmem_item_pos_t)n;
	bool none = c.empty(); vf_assert(none == (g_root == 2), "[step] a map without pages is empty");
	std::size_t total = c.size(); unsigned long t = st.values.total_item_count; vf_assert(total == t, "[step] the size of a map is the number of its items");
	auto b = m->begin(); auto e = m->end(); auto rb = m->rbegin(); unsigned ee = e._edge, re = rb._edge; unsigned long bp = b._page_pos, bi = b._item_pos;
	vf_assert(ee == vmem_iterator_edge::end, "[step] the end of a map is behind its items"); vf_assert(re == vmem_iterator_edge::rbegin, "[step] the reverse beginning of a map is before its items"); vf_assert(!e.can_deref(), "[step] there is no item behind the items"); vf_assert(!rb.can_deref(), "[step] there is no item before the items");
	if (g_root == 1) { vf_assert(bp == front && bi == 0, "[step] a map begins with its first item"); vf_assert(b.can_deref(), "[step] a map begins with its first item"); } else vf_assert(!b.can_deref(), "[step] an empty map has no first item");
	vf_reach("must: end");
}
