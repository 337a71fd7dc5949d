E = 'src/endpoint.h'
P = ['E01','E02','E03','E04','E05','E06']
EDITS = [
 dict(id='ep-chunk-while', props=P, edits=[(E, '''		for (std::size_t sent_size = 0; sent_size < fsize; sent_size += chunk_size) {
			chunk_size = fsize - sent_size < sizeof(file_chunk) ? fsize - sent_size : sizeof(file_chunk);
			file.read(file_chunk, chunk_size);
			http.put_body(file_chunk, file.gcount());
		}''', '''		std::size_t left = fsize;
		while (left > 0) {
			chunk_size = sizeof(file_chunk);
			if (left < chunk_size) {
				chunk_size = left;
			}

			file.read(file_chunk, chunk_size);
			http.put_body(file_chunk, file.gcount());
			left -= chunk_size;
		}''')]),
 dict(id='ep-stop-short', props=P, edits=[(E, '''			http.put_body(file_chunk, file.gcount());
''', '''			std::size_t read_size = static_cast<std::size_t>(file.gcount());
			if (read_size == 0) {
				break;
			}

			http.put_body(file_chunk, read_size);
''')]),
 dict(id='ep-file-first', props=P, edits=[(E, '''		if (is_file_request(method, resource)) {
			process_file_request(http, method, resource, path);
		}
		else {
			process_rest_request(http, method, resource);
		}''', '''		const bool is_rest = !is_file_request(method, resource);
		if (is_rest) {
			process_rest_request(http, method, resource);
		}
		else {
			process_file_request(http, method, resource, path);
		}''')]),
 dict(id='ep-no-flush', props=P, edits=[(E, '''		http.flush();
''', '')]),
 dict(id='ep-conditions', props=P, edits=[(E, '''		if (err != 0 || !S_ISREG(st.st_mode) || !file.is_open()) {''', '''		const bool is_found = err == 0 && (st.st_mode & S_IFMT) == S_IFREG;
		if (!(is_found && file.good())) {''')]),
 dict(id='ep-fetch-sub', props=P, edits=[(E, '''		if (--_requests_in_progress == 0 && _is_shutdown_requested && !_is_shutdown_completed.exchange(true)) {''', '''		if (_requests_in_progress.fetch_sub(1) != 1) {
			return;
		}

		bool is_completed = false;
		if (_is_shutdown_requested.load() && _is_shutdown_completed.compare_exchange_strong(is_completed, true)) {''')]),
 dict(id='ep-loop', props=P, edits=[(E, '''		while (_requests_in_progress != 0 || !_is_shutdown_requested) {
			// Accept the next request and process it asynchronously.
			ClientSocket connection = listener.accept();
			std::thread(process_request_thread_func, this, std::move(connection)).detach();
		}''', '''		for (;;) {
			if (_is_shutdown_requested && _requests_in_progress == 0) {
				break;
			}

			// Accept the next request and process it asynchronously.
			ClientSocket connection(listener.accept());
			std::thread request_thread(process_request_thread_func, this, std::move(connection));
			request_thread.detach();
		}''')]),
 dict(id='ep-headers', props=P, edits=[(E, '''		http.put_header_name(header::Connection);
		http.put_header_value(connection::close);
		http.put_header_name(header::Content_Type);
		http.put_header_value(content_type);
		http.put_header_name(header::Content_Length);
		http.put_header_value(content_length);
		http.end_headers();
''', '''		const char* const headers[3][2] = { { header::Connection, connection::close }, { header::Content_Type, content_type }, { header::Content_Length, content_length } };
		for (std::size_t i = 0; i < 3; i++) {
			http.put_header_name(headers[i][0]);
			http.put_header_value(headers[i][1]);
		}
		http.end_headers();
''')]),
 dict(id='ep-body-size', props=P, edits=[(E, '''		std::snprintf(content_length, Limits::fsize_size, "%zu", std::strlen(body));
''', '''		const std::size_t body_size = std::strlen(body);
		std::snprintf(content_length, sizeof(content_length), "%zu", body_size);
'''), (E, '''		http.put_body(body);
''', '''		http.put_body(body, body_size);
''')]),
 dict(id='ep-type-table', props=['E06'], edits=[(E, '''		else if (ascii::are_equal_i(ext, ".jpeg")) {
			return content_type::jpeg;
		}
		else if (ascii::are_equal_i(ext, ".jpg")) {
			return content_type::jpeg;
		}''', '''		else if (ascii::are_equal_i(ext, ".jpg") || ascii::are_equal_i(ext, ".jpeg")) {
			return content_type::jpeg;
		}''')]),
 dict(id='ep-type-array', props=['E06'], edits=[(E, '''		if (ascii::are_equal_i(ext, ".html")) {
			return content_type::html;
		}
		else if (ascii::are_equal_i(ext, ".css")) {
			return content_type::css;
		}
		else if (''', '''		static const char* const types[][2] = { { ".html", content_type::html }, { ".css", content_type::css } };
		for (std::size_t i = 0; i < sizeof(types) / sizeof(types[0]); i++) {
			if (ascii::are_equal_i(ext, types[i][0])) {
				return types[i][1];
			}
		}

		if (''')]),
 dict(id='ep-segment', props=['E03'], edits=[(E, '''			bool is_begin = parent == resource || parent[-1] == '/';
			bool is_end = parent[2] == '/' || parent[2] == '\\0';

			if (is_begin && is_end) {
				return true;
			}''', '''			const char after = parent[2];
			if (after != '/' && after != '\\0') {
				continue;
			}

			if (parent == resource || *(parent - 1) == '/') {
				return true;
			}''')]),
]
