H='src/http.h'; J='src/json.h'; S='src/socket.h'; T='src/table.h'; G='src/log.h'
HP=['H01','H02','H03','H04','H06','L01','L02']; JP=['J01','J02','J03','J07','L02']; JW=['J01','J04','J05','L02']; SP=['S01','S02','S03','L01']; TP=['T01','T02','T03','L02']
EDITS=[
 dict(id='http-get-chars-for', props=HP, edits=[(H, '''		std::size_t gcount = 0;

		while (base::is_good() && predicate(peek_char())) {
			if (gcount == size - 1) {
				base::set_fail();
				break;
			}

			buffer[gcount++] = base::get();
		}
		buffer[gcount] = '\\0';

		return gcount;''', '''		std::size_t gcount = 0;
		const std::size_t last = size - 1;

		for (;;) {
			if (!base::is_good()) {
				break;
			}

			const char next = peek_char();
			if (!predicate(next)) {
				break;
			}

			if (gcount >= last) {
				base::set_fail();
				break;
			}

			buffer[gcount] = base::get();
			++gcount;
		}

		buffer[gcount] = '\\0';
		return gcount;''')]),
 dict(id='http-get-chars-pointer', props=HP, edits=[(H, '''		std::size_t gcount = 0;

		while (base::is_good() && predicate(peek_char())) {
			if (gcount == size - 1) {
				base::set_fail();
				break;
			}

			buffer[gcount++] = base::get();
		}
		buffer[gcount] = '\\0';

		return gcount;''', '''		char* it = buffer;
		char* const last = buffer + (size - 1);

		while (base::is_good() && predicate(peek_char())) {
			if (it == last) {
				base::set_fail();
				break;
			}

			*it++ = base::get();
		}
		*it = '\\0';

		return static_cast<std::size_t>(it - buffer);''')]),
 dict(id='http-put-chars', props=['H01','H02','H05','L02'], edits=[(H, '''		std::size_t pcount = 0;

		while (base::is_good() && pcount < size && predicate(buffer[pcount])) {
			base::put(buffer[pcount++]);
		}

		return pcount;''', '''		std::size_t pcount = 0;

		for (const char* ch = buffer; pcount < size; ch++, pcount++) {
			if (!base::is_good() || !predicate(*ch)) {
				break;
			}

			base::put(*ch);
		}

		return pcount;''')]),
 dict(id='http-crlf-one', props=HP, edits=[(H, '''		char ch = get_char();
		if (ch != '\\r') {
			base::set_fail();
			return 0;
		}

		ch = get_char();
		if (ch != '\\n') {
			base::set_fail();
			return 1;
		}

		return 2;''', '''		std::size_t count = 0;
		for (const char* expected = "\\r\\n"; *expected != '\\0'; expected++) {
			if (get_char() != *expected) {
				base::set_fail();
				break;
			}

			count++;
		}

		return count;''')]),
 dict(id='json-escape-switch', props=JP, edits=[(J, '''			else if (ch == 'b') {
				base::get();
				ch = '\\b';
			}
			else if (ch == 'f') {
				base::get();
				ch = '\\f';
			}
			else if (ch == 'n') {
				base::get();
				ch = '\\n';
			}
			else if (ch == 'r') {
				base::get();
				ch = '\\r';
			}
			else if (ch == 't') {
				base::get();
				ch = '\\t';
			}
''', '''			else if (ch == 'b' || ch == 'f' || ch == 'n' || ch == 'r' || ch == 't') {
				base::get();

				switch (ch) {
					case 'b': ch = '\\b'; break;
					case 'f': ch = '\\f'; break;
					case 'n': ch = '\\n'; break;
					case 'r': ch = '\\r'; break;
					default:  ch = '\\t'; break;
				}
			}
''')]),
 dict(id='json-skip-while', props=JP, edits=[(J, '''		json::item_t item = json::item::none;
		do {
			item = get_or_skip_token(nullptr, 0);
		}
		while (base::is_good() && state::levels() > base_levels);
''', '''		json::item_t item = get_or_skip_token(nullptr, 0);
		while (state::levels() > base_levels && base::is_good()) {
			item = get_or_skip_token(nullptr, 0);
		}
''')]),
 dict(id='json-put-chars-for', props=JW, edits=[(J, '''		std::size_t pcount = 0;

		while (base::is_good() && pcount < size) {
			base::put(buffer[pcount++]);
		}

		if (pcount < size) {
			base::set_fail();
		}
''', '''		std::size_t pcount = 0;

		for (; pcount < size; pcount++) {
			if (!base::is_good()) {
				break;
			}

			base::put(buffer[pcount]);
		}

		base::set_fail_if(pcount != size);
''')]),
 dict(id='json-push-level', props=JP + JW, edits=[(J, '''		_level_stack[++_level_top] = level;
		return true;''', '''		std::size_t top = _level_top + 1;
		_level_stack[top] = level;
		_level_top = top;

		return true;''')]),
 dict(id='socket-tie-loop', props=SP, edits=[(S, '''		bool is_done = false;
		for (addrinfo* host = hostList; host != nullptr; host = host->ai_next) {
			err = tie(*(host->ai_addr), host->ai_addrlen, tt);

			if (err == socket::error::none) {
				is_done = true;
				break;
			}
		}
''', '''		addrinfo* entry = hostList;
		bool is_done = false;
		while (entry != nullptr && !is_done) {
			err = tie(*(entry->ai_addr), entry->ai_addrlen, tt);
			is_done = err == socket::error::none;
			entry = entry->ai_next;
		}
''')]),
 dict(id='table-flush', props=TP, edits=[(T, '''		if (_pcount <= Size) {
			_buffer[_pcount++] = endl;
			_buffer[_pcount] = ends;
		}

		if (_table != nullptr) {
			_table->put_line(_buffer, _pcount);
		}

		_pcount = 0;''', '''		std::size_t size = _pcount;
		if (size <= Size) {
			_buffer[size] = endl;
			size += 1;
			_buffer[size] = ends;
		}

		_pcount = 0;

		if (_table == nullptr) {
			return;
		}

		_table->put_line(_buffer, size);''')]),
 dict(id='table-binary-half', props=TP, edits=[(T, '''		//  abcdefghijklmnop
		for (std::size_t chunk_offset = 0; chunk_offset < chunk_size; chunk_offset++) {
			if (buffer_offset + chunk_offset < buffer_size) {
				if (std::isprint(chunk[chunk_offset])) {
					line[local_offset++] = chunk[chunk_offset];
				}
				else {
					line[local_offset++] = nonprint;
				}
			}
			else {
				line[local_offset++] = blank;
			}
		}
''', '''		//  abcdefghijklmnop
		for (std::size_t chunk_offset = 0; chunk_offset < chunk_size; chunk_offset++) {
			char ch = blank;
			if (buffer_offset + chunk_offset < buffer_size) {
				ch = std::isprint(chunk[chunk_offset]) ? static_cast<char>(chunk[chunk_offset]) : nonprint;
			}

			line[local_offset++] = ch;
		}
''')]),
 dict(id='log-filter', props=TP, edits=[(G, '''		if (_filter == nullptr || _filter->is_enabled(category, severity)) {
			Line line(this);
			line.put_anyv(category, severity, tag, format, vlist);
		}''', '''		if (_filter != nullptr && !_filter->is_enabled(category, severity)) {
			return;
		}

		Line line(this);
		line.put_anyv(category, severity, tag, format, vlist);''')]),
]
