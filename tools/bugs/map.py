# Planted changes of maps.
X = 'src/x/vmem_map.x.h'
PRE = r'''
#include <cstdio>
#include "log.h"
#include "vmem.h"
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\n", #c); return 1; } } while (0)
using namespace abc;
typedef null_log L; typedef vmem_pool<16, L> pool_t; typedef vmem_map<long, long, pool_t, L> map_t; typedef vmem_map_value<long, long> item_t;
static item_t item(long k) { item_t i; i.key = k; i.value = k + 1; return i; }
int main() { pool_t pool("d.vmem", nullptr); vmem_map_state st; map_t m(&st, &pool, nullptr);
'''
BUGS = [
 dict(id='V07-find-next', property='V07', needs='looking for a key that is not there but less than another on its page', what='the item behind is found instead', edits=[(X, 'return result.ok ? result.iterator : end_itr();', 'return result.iterator.can_deref() ? result.iterator : end_itr();')],
  demo=PRE + 'for (int i = 0; i < 10; i++) m.insert(item(2 * i)); CHECK(!(m.find(7).can_deref() && m.find(7)->key != 7)); CHECK(!m.find(7).can_deref()); return 0; }\n'),
 dict(id='V07-item-next', property='V07', needs='asking for the item of a key that is not there but less than another', what='the item of another key is given', edits=[(X, '''::operator [](const Key& key) noexcept {
		return find(key).operator->();''', '''::operator [](const Key& key) noexcept {
		return find2(key).iterator.operator->();''')],
  demo=PRE + 'for (int i = 0; i < 10; i++) m.insert(item(2 * i)); CHECK(m[8]->value == 9); CHECK((item_t*)m[7] == nullptr); return 0; }\n'),
 dict(id='V07-dup-end', property='V07', needs='inserting a key that is there, and looking at the place that is told', what='the end is told instead of the item that has the key', edits=[(X, '			result.iterator = find_result.iterator;\n			result.ok = false;', '			result.iterator = end_itr();\n			result.ok = false;')],
  demo=PRE + 'for (int i = 0; i < 10; i++) m.insert(item(i)); auto r = m.insert(item(4)); CHECK(!r.second); CHECK(r.first.can_deref()); CHECK(r.first->key == 4); return 0; }\n'),
 dict(id='V07-back-edge', property='V07', needs='stepping back from the end of a map', what='a step back from the end leads nowhere', edits=[(X, '''		value_level_iterator values_itr(&_values, itr.page_pos(), itr.item_pos(), itr.edge(), _log);

		values_itr--;''', '''		value_level_iterator values_itr(&_values, itr.page_pos(), itr.item_pos(), vmem_iterator_edge::none, _log);

		values_itr--;''')],
  demo=PRE + 'for (int i = 0; i < 10; i++) m.insert(item(i)); auto i = m.end(); i--; CHECK(i.can_deref()); CHECK(i->key == 9); return 0; }\n'),
]
