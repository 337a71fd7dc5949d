C='src/x/vmem_container.x.h'
PRE=r'''#include <cstdio>
#include <cstring>
#include <vector>
#include <stdexcept>
#include <unistd.h>
#include "log.h"
#include "vmem.h"
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\n", #c); return 1; } } while (0)
using namespace abc;
typedef vmem_pool<8, null_log> pool8; typedef vmem_list<unsigned long, pool8> list;
typedef std::vector<unsigned long> vec;
static bool same(list& l, const vec& v) { std::size_t n = 0; for (auto it = l.begin(); it != l.end(); it++) { if (n >= v.size() || *it != v[n]) return false; n++; } return n == v.size() && l.size() == n; }
static list::iterator at(list& l, std::size_t n) { auto it = l.begin(); while (n-- > 0) it++; return it; }
static void put(list& l, vec& v, std::size_t n, unsigned long x) { l.insert(at(l, n), x); v.insert(v.begin() + n, x); }
static void del(list& l, vec& v, std::size_t n) { l.erase(at(l, n)); v.erase(v.begin() + n); }
static void fill(list& l, vec& v, std::size_t n) { for (std::size_t i = 0; i < n; i++) { unsigned long x = 0x1122334455660000ul + i; l.push_back(x); v.push_back(x); } }
'''
BUGS=[
 dict(id='V05-merge-one-over', property='V05',
  needs='two neighbouring pages, the second less than half full, that together have one item more than a page has room for',
  what='the items are merged onto one page, and the last one is written beyond its end',
  edits=[(C, "if (container_page->item_count + prev_container_page->item_count <= page_capacity()) {", "if (container_page->item_count + prev_container_page->item_count <= page_capacity() + 1) {")],
  demo=PRE+r'''struct pool_t { struct page { unsigned char m[4096]; unsigned char guard[64]; }; alignas(8) page m[8]; int n; static constexpr std::size_t max_mapped_pages() { return 8; } vmem_page_pos_t alloc_page() { return n < 7 ? ++n : vmem_page_pos_nil; } void free_page(vmem_page_pos_t) { }
 void* lock_page(vmem_page_pos_t p) { return p < 8 ? m[p].m : nullptr; } bool unlock_page(vmem_page_pos_t) { return true; } template <typename X> void clear_linked(X&) { } };
typedef vmem_list<unsigned long, pool_t> flist; int main() { static pool_t p; for (auto& x : p.m) std::memset(x.guard, 0xaa, 64); vmem_list_state st{}; flist l(&st, &p, nullptr); for (unsigned long i = 0; i < 1016; i++) l.push_back(i); while (l.size() > 508 + 255) l.erase(l.begin()); while (l.size() > 509) l.pop_back();
 for (auto& x : p.m) for (auto c : x.guard) CHECK(c == 0xaa); return 0; }'''),
 dict(id='V05-split-odd', property='V05',
  needs='items of which an odd number fits on a page, inserted into a page that is full',
  what='when the page is split, one item appears twice and the last one is lost',
  edits=[(C, "std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));", "std::memmove(&new_container_page->items[0], &container_page->items[new_page_item_count], new_page_item_count * sizeof(T));")],
  demo=PRE+r'''struct item { unsigned long x, pad[4]; }; typedef vmem_list<item, pool8> ilist; int main() { vmem_list_state st{}; pool8 pool("d.vmem", nullptr); ilist l(&st, &pool, nullptr); item x{}; for (int i = 0; i < 300; i++) { x.x = 299 - i; l.push_front(x); }
 unsigned long n = 0; for (auto it = l.begin(); it != l.end(); it++) { item y = *it; CHECK(y.x == n); n++; } CHECK(n == 300); return 0; }'''),
 dict(id='V05-keep-page', property='V05',
  needs='a new page that cannot be linked, because its neighbour cannot be pinned',
  what='the new page is never given back, and with it a place of the file is lost',
  edits=[(C, "\t\t\tif (!ok) {\n\t\t\t\tnew_page_local.free();\n", "\t\t\tif (!ok && new_page_local.pos() == after_page_pos) {\n\t\t\t\tnew_page_local.free();\n")],
  demo=PRE+r'''struct pool_t { alignas(8) unsigned char m[8][4096]; int pins[8], freed[8], n, bad; static constexpr std::size_t max_mapped_pages() { return 8; } vmem_page_pos_t alloc_page() { return ++n; } void free_page(vmem_page_pos_t p) { freed[p]++; }
 void* lock_page(vmem_page_pos_t p) { if ((int)p == bad) return nullptr; pins[p]++; return m[p]; } bool unlock_page(vmem_page_pos_t p) { pins[p]--; return true; } template <typename X> void clear_linked(X&) { } };
typedef vmem_list<unsigned long, pool_t> flist; int main() { static pool_t p; vmem_list_state st{}; flist l(&st, &p, nullptr); for (unsigned long i = 0; i < 1016; i++) l.push_back(i); CHECK(p.n == 2); p.bad = 2; auto it = l.begin(); l.insert(it, 5ul); CHECK(l.size() == 1016); CHECK(p.n == 3 && p.freed[3] == 1); return 0; }'''),
 dict(id='V05-count-anyway', property='V05',
  needs='an insertion for which there is no page, or none can be pinned',
  what='the number of items grows although no item was added',
  edits=[(C, "if (result.iterator.is_valid()) {\n\t\t\t// We have inserted successfully.\n\n\t\t\t// Update the front page pos.", "_state->total_item_count += !result.iterator.is_valid() && result.page_leads[0].operation == vmem_container_page_lead_operation::none && !empty();\n\n\t\tif (result.iterator.is_valid()) {\n\t\t\t// We have inserted successfully.\n\n\t\t\t// Update the front page pos.")],
  demo=PRE+r'''struct pool_t { alignas(8) unsigned char m[8][4096]; int n; static constexpr std::size_t max_mapped_pages() { return 8; } vmem_page_pos_t alloc_page() { return n < 2 ? ++n : vmem_page_pos_nil; } void free_page(vmem_page_pos_t) { }
 void* lock_page(vmem_page_pos_t p) { return p < 8 ? m[p] : nullptr; } bool unlock_page(vmem_page_pos_t) { return true; } template <typename X> void clear_linked(X&) { } };
typedef vmem_list<unsigned long, pool_t> flist; int main() { static pool_t p; vmem_list_state st{}; flist l(&st, &p, nullptr); for (unsigned long i = 0; i < 1016; i++) l.push_back(i); l.push_back(5ul); CHECK(l.size() == 1016); return 0; }'''),
]
