C='src/x/vmem_container.x.h'; P='src/x/vmem_pool.x.h'; K='src/x/vmem_linked.x.h'; U='src/vmem_util.h'
VC=['V05','L01','L02']; VK=['V03','V04','V05','L01']; VP=['V01','V02','V04','L01','L02']
EDITS=[
 dict(id='cont-shift-loop', props=VC, edits=[(C, '''		// Shift items from the insertion position to free up a slot.
		std::size_t move_item_count = container_page->item_count - result.iterator.item_pos();
		if (move_item_count > 0) {
			std::memmove(&container_page->items[result.iterator.item_pos() + 1], &container_page->items[result.iterator.item_pos()], move_item_count * sizeof(T));
		}

		// Insert the item.
		++container_page->item_count;
		vmem_copy(container_page->items[result.iterator.item_pos()], item);
''', '''		const std::size_t at = result.iterator.item_pos();
		T* slot = container_page->items + at;

		// Free up a slot, and put the item there.
		std::memmove(slot + 1, slot, (container_page->item_count - at) * sizeof(T));
		std::memcpy(slot, &item, sizeof(T));
		container_page->item_count = static_cast<vmem_item_pos_t>(container_page->item_count + 1);
''')]),
 dict(id='cont-less', props=VC, edits=[(C, "itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()", "container_page->item_count < page_capacity() && !(itr.item_pos() > container_page->item_count)")]),
 dict(id='cont-less-2', props=VC, edits=[(C, "itr.item_pos() <= container_page->item_count && container_page->item_count < page_capacity()", "itr.item_pos() < container_page->item_count + (container_page->item_count < page_capacity() ? 1 : 0)")]),
 dict(id='cont-merge-order', props=VC, edits=[(C, "			if (container_page->item_count + next_container_page->item_count <= page_capacity()) {", "			const std::size_t merged_count = std::size_t(container_page->item_count) + next_container_page->item_count;\n			if (!(merged_count > page_capacity())) {")]),
 dict(id='cont-erase-pull', props=VC, edits=[(C, '''			std::size_t move_item_count = container_page->item_count - itr.item_pos() - 1;
			std::memmove(&container_page->items[itr.item_pos()], &container_page->items[itr.item_pos() + 1], move_item_count * sizeof(T));

			result.iterator = itr;''', '''			result.iterator = itr;

			T* gap = &container_page->items[itr.item_pos()];
			T* last = &container_page->items[container_page->item_count - 1];
			std::memmove(gap, gap + 1, reinterpret_cast<char*>(last) - reinterpret_cast<char*>(gap));''')]),
 dict(id='cont-split-helper', props=VC, edits=[(C, '''		std::memmove(&new_container_page->items[0], &container_page->items[page_item_count], new_page_item_count * sizeof(T));
		new_container_page->item_count = new_page_item_count;
		container_page->item_count = page_item_count;''', '''		container_page->item_count = page_item_count;
		new_container_page->item_count = new_page_item_count;
		std::memcpy(new_container_page->items, container_page->items + container_page->item_count, sizeof(T) * new_container_page->item_count);''')]),
 dict(id='linked-init-first', props=VK, edits=[(K, '''			linked_page->page_pos = page_pos;
			linked_page->prev_page_pos = vmem_page_pos_nil;
			linked_page->next_page_pos = vmem_page_pos_nil;

			if (empty()) {
				// Nothing to do.
			}
			else if (itr.page_pos() == vmem_page_pos_nil) {''', '''			linked_page->next_page_pos = vmem_page_pos_nil;
			linked_page->prev_page_pos = vmem_page_pos_nil;
			linked_page->page_pos = page_pos;

			const bool has_pages = !empty();
			if (has_pages && itr.page_pos() == vmem_page_pos_nil) {'''), (K, '''			else {
				// Inserting at the middle or at the front.
				// A previous page''', '''			else if (has_pages) {
				// Inserting at the middle or at the front.
				// A previous page''')]),
 dict(id='pool-find-while', props=VP, edits=[(P, "		for (i = 0; i < _mapped_page_count; i++) {\n			if (_log != nullptr) {\n				_log->put_any(category::abc::vmem, severity::abc::debug, 0x104bb", "		i = 0;\n		for (; !(i >= _mapped_page_count); ++i) {\n			if (_log != nullptr) {\n				_log->put_any(category::abc::vmem, severity::abc::debug, 0x104bb")]),
 dict(id='pool-create-shift', props=VP, edits=[(P, "		vmem_page_pos_t page_pos = page_off / vmem_page_size;\n", "		vmem_page_pos_t page_pos = page_off >> 12;\n		static_assert(vmem_page_size == 1 << 12, \"page size\");\n")]),
 dict(id='pool-verify-one', props=VP, edits=[(P, "if (root_page->page_size != vmem_page_size) {", "const bool is_page_size = root_page->page_size == vmem_page_size;\n		if (!is_page_size) {")]),
 dict(id='page-unlock-early', props=['V01','V03','V05','L01'], edits=[(P, '''		if (_pool != nullptr && _pos != vmem_page_pos_nil && _ptr != nullptr)
		{
			_pool->unlock_page(_pos);
			_ptr = nullptr;
''', '''		if (_ptr == nullptr || _pool == nullptr) {
			return;
		}

		if (_pos != vmem_page_pos_nil)
		{
			_ptr = nullptr;
			_pool->unlock_page(_pos);
''')]),
 dict(id='util-copy-bytes', props=['V03','V04','V05'], edits=[(U, "std::memmove(&dest, &src, sizeof(T));", "if (&dest != &src) {\n			std::memcpy(&dest, &src, sizeof(T));\n		}")]),
]
