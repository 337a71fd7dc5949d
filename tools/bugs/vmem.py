P='src/x/vmem_pool.x.h'; K='src/x/vmem_linked.x.h'
PRE=r'''#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <stdexcept>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include "log.h"
#include "vmem.h"
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\n", #c); return 1; } } while (0)
using namespace abc;
typedef null_log L;
typedef vmem_pool<3, L> pool3; typedef vmem_pool<4, L> pool4; typedef vmem_pool<8, L> pool8;
'''
T='\t'
BUGS=[
 dict(id='V01-copy-shares-pin', property='V01',
  needs='a copy of a reference that outlives the original, while other pages are used',
  what='a copy relies on the pin of the original, so its page may be unmapped under it',
  edits=[(P, "\tinline vmem_page<Pool, Log>::vmem_page(const vmem_page<Pool, Log>& other) noexcept\n\t\t: _pool(other._pool)\n\t\t, _pos(other._pos)\n\t\t, _ptr(other._ptr)\n\t\t, _log(other._log) {\n\n\t\tif (_pool != nullptr && _pos != vmem_page_pos_nil) {",
             "\tinline vmem_page<Pool, Log>::vmem_page(const vmem_page<Pool, Log>& other) noexcept\n\t\t: _pool(other._pool)\n\t\t, _pos(other._pos)\n\t\t, _ptr(other._ptr)\n\t\t, _log(other._log) {\n\n\t\tif (_pool != nullptr && _ptr == nullptr) {")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; int main() { pool3 pool("d.vmem", nullptr);
 page* a = new page(&pool, 1, nullptr); page b(*a); delete a;
 page x(&pool, nullptr), y(&pool, nullptr); { page w(&pool, nullptr); CHECK(w.ptr() == nullptr); } return 0; }'''),
 dict(id='V01-null-place', property='V01',
  needs='a reference to a place on a page that cannot be pinned because all pages of the table are',
  what='the reference is not null but the offset of the place, and using it is not reported',
  edits=[(P, "if (page_ptr == nullptr || _byte_pos == vmem_item_pos_nil) {", "if (_page.pos() == vmem_page_pos_nil || _byte_pos == vmem_item_pos_nil) {")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; int main() { pool3 pool("d.vmem", nullptr); vmem_page_pos_t p; { page q(&pool, nullptr); p = q.pos(); }
 page x(&pool, 0, nullptr), y(&pool, 1, nullptr), z(&pool, nullptr); vmem_ptr<int, pool3, L> r(&pool, p, 16, nullptr); CHECK((int*)r == nullptr);
 try { (void)*r; return 1; } catch (const std::runtime_error&) { } return 0; }'''),
 dict(id='V01-free-twice', property='V01',
  needs='free() on a reference whose page could not be pinned',
  what='a page is given back, then the reference still names it and gives it back again',
  edits=[(P, "\t\tif (_pos != vmem_page_pos_nil) {\n\t\t\t_pool->free_page(_pos);\n\t\t}\n\n\t\tinvalidate();", "\t\tbool is_pinned = _ptr != nullptr;\n\n\t\tunlock();\n\n\t\tif (_pos != vmem_page_pos_nil) {\n\t\t\t_pool->free_page(_pos);\n\t\t}\n\n\t\tif (is_pinned) {\n\t\t\tinvalidate();\n\t\t}"), (P, "free() noexcept {\n\t\tunlock();\n\n\t\tbool is", "free() noexcept {\n\t\tbool is")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; int main() { pool3 pool("d.vmem", nullptr); vmem_page_pos_t p; { page q(&pool, nullptr); p = q.pos(); }
 page* x = new page(&pool, 0, nullptr), *y = new page(&pool, 1, nullptr), *z = new page(&pool, nullptr); page w(&pool, p, nullptr); CHECK(w.ptr() == nullptr); delete z; delete y; delete x;
 w.free(); CHECK(w.pos() == vmem_page_pos_nil); return 0; }'''),
 dict(id='V02-sync-before', property='V02',
  needs='a page that is changed and unpinned once, and a look at what is synchronised',
  what='the last unpinning of a page does not synchronise it',
  edits=[(P, "\t\t_mapped_pages[i].lock_count--;\n\n\t\tif (_mapped_pages[i].lock_count == 0) {", "\t\tif (_mapped_pages[i].lock_count-- == 0) {")],
  demo=PRE+r'''static int n; extern "C" int msync(void*, size_t, int) { n++; return 0; }
typedef vmem_page<pool3, L> page; int main() { pool3 pool("d.vmem", nullptr); n = 0; { page a(&pool, 1, nullptr); } CHECK(n == 1); return 0; }'''),
 dict(id='V02-offset-32', property='V02',
  needs='a file of more than 4 GiB',
  what='another page than the one that was asked for is mapped',
  edits=[(P, "off_t page_off = static_cast<off_t>(page_pos * vmem_page_size);", "off_t page_off = static_cast<off_t>(static_cast<std::uint32_t>(page_pos) * static_cast<std::uint32_t>(vmem_page_size));")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; int main() { { pool3 pool("d.vmem", nullptr); } if (truncate("d.vmem", (off_t)4096 * ((1 << 20) + 8)) != 0) return 0;
 { pool3 pool("d.vmem", nullptr); page a(&pool, (1 << 20) + 5, nullptr); CHECK(a.ptr()); std::memcpy(a.ptr(), "here", 4); }
 int fd = open("d.vmem", O_RDONLY); char b[4] = { 0 }; if (pread(fd, b, 4, (off_t)4096 * ((1 << 20) + 5)) != 4) return 1; CHECK(std::memcmp(b, "here", 4) == 0); return 0; }'''),
 dict(id='V03-insert-half', property='V03',
  needs='inserting before a page whose predecessor cannot be pinned',
  what='the insertion fails but the successor already names the new page as predecessor',
  edits=[(K, "\t\t\t\t\telse {\n\t\t\t\t\t\t// Inserting in the middle.\n" if False else "\t\t\t\t\t\tvmem_page<Pool, Log> prev_page(_pool, next_linked_page->prev_page_pos, _log);\n", "\t\t\t\t\t\tvmem_page_pos_t prev_page_pos = next_linked_page->prev_page_pos;\n\t\t\t\t\t\tlinked_page->next_page_pos = next_page.pos();\n\t\t\t\t\t\tnext_linked_page->prev_page_pos = page.pos();\n\n\t\t\t\t\t\tvmem_page<Pool, Log> prev_page(_pool, prev_page_pos, _log);\n")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; typedef vmem_linked<pool3, L> linked; int main() { pool3 pool("d.vmem", nullptr); vmem_linked_state st; st.front_page_pos = st.back_page_pos = vmem_page_pos_nil; vmem_page_pos_t p[3]; for (auto& x : p) { page q(&pool, nullptr); p[&x - p] = q.pos(); }
 linked l(&st, &pool, nullptr); l.push_back(p[0]); l.push_back(p[1]); { page full(&pool, 1, nullptr); auto i = l.insert(linked::const_iterator(&l, p[1], vmem_item_pos_nil, vmem_iterator_edge::none, nullptr), p[2]); CHECK(i == l.end()); }
 page q(&pool, p[1], nullptr); CHECK(((vmem_linked_page*)q.ptr())->prev_page_pos == p[0]); return 0; }'''),
 dict(id='V03-splice-half', property='V03',
  needs='splicing a list whose first page cannot be pinned',
  what='the list claims the end of the other list although the chains were not joined',
  edits=[(K, "\t\t\t\t\t// Update this state.\n" if False else "\t\t\t\t\t_state->back_page_pos = other._state->back_page_pos;\n", ""), (K, "\t\t\t\tif (ok) {\n\t\t\t\t\tvmem_page<Pool, Log> other_front_page(", "\t\t\t\tif (ok) {\n\t\t\t\t\t_state->back_page_pos = other._state->back_page_pos;\n\t\t\t\t\tvmem_page<Pool, Log> other_front_page(") if False else (K, "\t\t\t\tvmem_page<Pool, Log> other_front_page(", "\t\t\t\tvmem_page_pos_t old_back_page_pos = _state->back_page_pos;\n\t\t\t\t_state->back_page_pos = other._state->back_page_pos;\n\n\t\t\t\tvmem_page<Pool, Log> other_front_page("), (K, "other_front_linked_page->prev_page_pos = _state->back_page_pos;", "other_front_linked_page->prev_page_pos = old_back_page_pos;")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; typedef vmem_linked<pool3, L> linked; int main() { pool3 pool("d.vmem", nullptr); vmem_linked_state st, su; st.front_page_pos = st.back_page_pos = su.front_page_pos = su.back_page_pos = vmem_page_pos_nil; vmem_page_pos_t p[3]; for (auto& x : p) { page q(&pool, nullptr); p[&x - p] = q.pos(); }
 linked l(&st, &pool, nullptr), m(&su, &pool, nullptr); l.push_back(p[0]); m.push_back(p[1]); { page x(&pool, 0, nullptr), y(&pool, 1, nullptr); try { l.splice(m); } catch (const std::exception&) { } }
 CHECK(st.front_page_pos == p[0] && st.back_page_pos == p[0] && su.front_page_pos == p[1]); return 0; }'''),
 dict(id='V03-state-anyway', property='V03',
  needs='pushing a page that cannot be pinned in front of a list',
  what='the list starts with a page that was not linked',
  edits=[(K, "\t\tbool ok = insert_nostate(itr, page_pos, _state->back_page_pos);\n", "\t\tbool is_front = _state->front_page_pos == itr.page_pos() && itr.page_pos() != vmem_page_pos_nil;\n\t\tbool ok = insert_nostate(itr, page_pos, _state->back_page_pos);\n\n\t\tif (is_front) {\n\t\t\t_state->front_page_pos = page_pos;\n\t\t}\n")],
  demo=PRE+r'''typedef vmem_page<pool3, L> page; typedef vmem_linked<pool3, L> linked; int main() { pool3 pool("d.vmem", nullptr); vmem_linked_state st; st.front_page_pos = st.back_page_pos = vmem_page_pos_nil; vmem_page_pos_t p[3]; for (auto& x : p) { page q(&pool, nullptr); p[&x - p] = q.pos(); }
 linked l(&st, &pool, nullptr); l.push_back(p[0]); { page x(&pool, 0, nullptr), y(&pool, 1, nullptr), z(&pool, p[2], nullptr); l.push_front(p[1]); } CHECK(st.front_page_pos == p[0]); return 0; }'''),
 dict(id='V03-one-way', property='V03',
  needs='a page inserted in the middle of a list, and the list read backwards',
  what='the successor of the inserted page still names its old predecessor',
  edits=[(K, "\t\t\t\t\t\t\tlinked_page->next_page_pos = next_page.pos();\n\t\t\t\t\t\t\tnext_linked_page->prev_page_pos = page.pos();\n", "\t\t\t\t\t\t\tlinked_page->next_page_pos = next_page.pos();\n\t\t\t\t\t\t\tif (next_page.pos() == back_page_pos) {\n\t\t\t\t\t\t\t\tnext_linked_page->prev_page_pos = page.pos();\n\t\t\t\t\t\t\t}\n")],
  demo=PRE+r'''typedef vmem_page<pool8, L> page; typedef vmem_linked<pool8, L> linked; int main() { pool8 pool("d.vmem", nullptr); vmem_linked_state st; st.front_page_pos = st.back_page_pos = vmem_page_pos_nil; vmem_page_pos_t p[4]; for (auto& x : p) { page q(&pool, nullptr); p[&x - p] = q.pos(); }
 linked l(&st, &pool, nullptr); l.push_back(p[0]); l.push_back(p[1]); l.push_back(p[2]); l.insert(linked::const_iterator(&l, p[1], vmem_item_pos_nil, vmem_iterator_edge::none, nullptr), p[3]);
 page q(&pool, p[1], nullptr); CHECK(((vmem_linked_page*)q.ptr())->prev_page_pos == p[3]); return 0; }'''),
 dict(id='V04-short-write', property='V04',
  needs='a write of a new page that is cut short, as on a full disk',
  what='a page that is not completely in the file is handed out',
  edits=[(P, "if (wb != vmem_page_size) {", "if (wb < 0) {")],
  demo=PRE+r'''static int cut; extern "C" ssize_t write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, cut && n == 4096 ? (size_t)100 : n); }
typedef vmem_page<pool3, L> page; int main() { pool3 pool("d.vmem", nullptr); cut = 1; page q(&pool, nullptr); bool none = q.ptr() == nullptr; cut = 0; CHECK(none); return 0; }'''),
 dict(id='V04-any-page-size', property='V04',
  needs='a file that was made with pages of another size',
  what='the file is used as if it had pages of this size',
  edits=[(P, "if (root_page->page_size != vmem_page_size) {", "if (root_page->page_size < vmem_page_size) {")],
  demo=PRE+r'''int main() { { pool3 pool("d.vmem", nullptr); } int fd = open("d.vmem", O_RDWR); unsigned short s = 8192; if (pwrite(fd, &s, 2, 12) != 2) return 0; close(fd);
 try { pool3 pool("d.vmem", nullptr); return 1; } catch (const std::runtime_error&) { } return 0; }'''),
 dict(id='V04-signature-prefix', property='V04',
  needs='a file of another kind whose signature starts alike',
  what='the file is used as a pool',
  edits=[(P, "if (std::strcmp(root_page->signature, init.signature) != 0) {", "if (std::strncmp(root_page->signature, init.signature, sizeof(init.signature) / 2) != 0) {")],
  demo=PRE+r'''int main() { { pool3 pool("d.vmem", nullptr); } int fd = open("d.vmem", O_RDWR); if (pwrite(fd, "abc::file", 10, 2) != 10) return 0; close(fd);
 try { pool3 pool("d.vmem", nullptr); return 1; } catch (const std::runtime_error&) { } return 0; }'''),
 dict(id='V04-odd-size', property='V04',
  needs='a file that ends within its last page',
  what='the file is accepted, and pages are added at places that are no multiple of the page size',
  edits=[(P, "if ((file_size & (vmem_page_size - 1)) != 0) {", "if ((file_size & (vmem_page_size / 2 - 1)) != 0) {")],
  demo=PRE+r'''int main() { { pool3 pool("d.vmem", nullptr); } if (truncate("d.vmem", 4096 * 2 + 2048) != 0) return 0;
 try { pool3 pool("d.vmem", nullptr); return 1; } catch (const std::runtime_error&) { } return 0; }'''),
]
