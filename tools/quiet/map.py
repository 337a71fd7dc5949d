F = 'src/x/vmem_map.x.h'
P = ['V07']
VAL = '''				item_pos = 0;
				for (std::size_t i = 0; i < value_page->item_count && vmem_is_less(value_page->items[i].key, key); i++) {
					item_pos++;
				}

				found = item_pos < value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
'''
KIP = '''			item_pos = 0;
			for (std::size_t i = 0; i < key_page->item_count && vmem_is_less(key_page->items[i].key, key); i++) {
				if (_log != nullptr) {
					_log->put_any(category::abc::vmem, severity::abc::debug, 0x10527, "vmem_map::key_item_pos() item[%zu]=0x%llx..., key=0x%llx...",
						i, *(long long*)&key_page->items[i].key, *(long long*)&key);
				}

				item_pos++;
			}
'''
EDITS = [
 dict(id='map-val-while', props=P, edits=[(F, VAL, '''				item_pos = 0;
				while (item_pos < value_page->item_count && vmem_is_less(value_page->items[item_pos].key, key)) {
					item_pos++;
				}

				found = item_pos != value_page->item_count && vmem_are_equal(value_page->items[item_pos].key, key);
''')]),
 dict(id='map-val-index', props=P, edits=[(F, VAL, '''				std::size_t i = 0;
				for (; i < value_page->item_count; i++) {
					if (!vmem_is_less(value_page->items[i].key, key)) {
						found = vmem_are_equal(value_page->items[i].key, key);
						break;
					}
				}

				item_pos = static_cast<vmem_item_pos_t>(i);
''')]),
 dict(id='map-kip-while', props=P, edits=[(F, KIP, '''			item_pos = 0;
			while (item_pos < key_page->item_count && vmem_is_less(key_page->items[item_pos].key, key)) {
				item_pos++;
			}
''')]),
 dict(id='map-kip-index', props=P, edits=[(F, KIP, '''			std::size_t i = 0;
			for (; i < key_page->item_count; i++) {
				if (!vmem_is_less(key_page->items[i].key, key)) {
					break;
				}
			}

			item_pos = (vmem_item_pos_t)i;
''')]),
 dict(id='map-key-last', props=P, edits=[(F, '''					for (std::size_t i = 1; i < key_page->item_count && vmem_is_less_or_equal(key_page->items[i].key, key); i++) {
						page_pos = key_page->items[i].page_pos;
''', '''					for (std::size_t i = 1; i < key_page->item_count; i++) {
						if (!vmem_is_less_or_equal(key_page->items[i].key, key)) {
							break;
						}

						page_pos = key_page->items[i].page_pos;
''')]),
 dict(id='map-key-index', props=P, edits=[(F, '''					page_pos = key_page->items[0].page_pos;
					if (_log''', '''					std::size_t child = 0;
					page_pos = key_page->items[child].page_pos;
					if (_log'''), (F, '''						page_pos = key_page->items[i].page_pos;
						if (_log''', '''						child = i;
						page_pos = key_page->items[child].page_pos;
						if (_log''')]),
 dict(id='map-level-down', props=P, edits=[(F, '''			for (std::size_t lev = 0; page_pos != vmem_page_pos_nil && lev < _key_stack.size(); lev++) {
''', '''			const std::size_t level_count = _key_stack.size();
			for (std::size_t lev = 0; page_pos != vmem_page_pos_nil && lev < level_count; lev++) {
'''), (F, '''					if (lev != _key_stack.size() - 1) {
						result.path''', '''					if (lev + 1 < level_count) {
						result.path''')]),
 dict(id='map-result-early', props=P, edits=[(F, '''		result.ok = found;

		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
			result.iterator = iterator(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
		}
''', '''		if (page_pos != vmem_page_pos_nil && item_pos != vmem_item_pos_nil) {
			iterator where(this, page_pos, item_pos, vmem_iterator_edge::none, _log);
			result.iterator = where;
		}

		result.ok = found;
''')]),
 dict(id='map-find-if', props=P, edits=[(F, '''		result2 result = find2(key);
		return result.ok ? result.iterator : end_itr();
''', '''		find_result2 result = find2(key);

		if (!result.ok) {
			return end_itr();
		}

		return result.iterator;
''')]),
 dict(id='map-contains-ok', props=P, edits=[(F, '''		return find(key).can_deref();
''', '''		const_iterator itr = find(key);
		return itr.can_deref();
''')]),
 dict(id='map-insert-early', props=P, edits=[(F, '''		result2 result = insert2(item);

		return std::make_pair(result.iterator, result.ok);
''', '''		result2 inserted = insert2(item);
		iterator_bool both(inserted.iterator, inserted.ok);

		return both;
''')]),
 dict(id='map-erase-early', props=P, edits=[(F, '''		std::size_t result = 0;

		find_result2 find_result = find2(key);

		if (find_result.ok) {
''', '''		find_result2 find_result = find2(key);
		if (!find_result.ok) {
			return 0;
		}

		std::size_t result = 0;

		{
''')]),
 dict(id='map-empty', props=P, edits=[(F, '''		return _state->values.front_page_pos == vmem_page_pos_nil
			|| _state->values.back_page_pos == vmem_page_pos_nil;
''', '''		return !(_state->values.front_page_pos != vmem_page_pos_nil && _state->values.back_page_pos != vmem_page_pos_nil);
''')]),
]
