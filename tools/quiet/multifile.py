F = 'src/multifile.h'
P = ['M01', 'M02']
EDITS = [
 dict(id='mf-early-return', props=P, edits=[(F, '''		if (_current_size >= _size) {
			reopen();
		}

		return 0;
''', '''		if (_current_size < _size) {
			return 0;
		}

		reopen();
		return 0;
''')]),
 dict(id='mf-local-name', props=P, edits=[(F, '''		std::snprintf(_path + _path_length, sizeof(_path) - _path_length, filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
''', '''		char name[filename_length + 1];
		std::snprintf(name, sizeof(name), filename_format, ts.year(), ts.month(), ts.day(), ts.hours(), ts.minutes(), ts.seconds());
		std::memcpy(_path + _path_length, name, sizeof(name));
''')]),
 dict(id='mf-separate-first', props=P, edits=[(F, '''		std::strncpy(_path, path, _path_length);
		if (_path_length > 0 && _path[_path_length - 1] != path_separator) {
			_path[_path_length++] = path_separator;
		}
''', '''		std::memcpy(_path, path, _path_length);
		bool is_separated = _path_length == 0 || path[_path_length - 1] == path_separator;
		if (!is_separated) {
			_path[_path_length] = path_separator;
			_path_length++;
		}
''')]),
 dict(id='mf-duration-age', props=P, edits=[(F, '''		timestamp<Clock> ts;
		if (ts - _ts >= _duration) {
			reopen();
		}
''', '''		typename Clock::duration age = timestamp<Clock>() - _ts;
		bool is_old = !(age < _duration);
		if (is_old) {
			reopen();
		}
''')]),
 dict(id='mf-init-list', props=P, edits=[(F, '''		: base(std::move(other)) {
		std::memcpy(_path, other._path, sizeof(_path));
		_path_length = other._path_length;
		_mode = other._mode;
		_log = other._log;
''', '''		: base(std::move(other))
		, _mode(other._mode)
		, _log(other._log) {
		std::memmove(_path, other._path, MaxPath + 1);
		_path_length = other._path_length;
''')]),
 dict(id='mf-close-helper', props=P, edits=[(F, '''	template <std::size_t MaxPath, typename Clock, typename Log>
	inline void multifile_streambuf<MaxPath, Clock, Log>::reopen() {
		if (base::is_open()) {
			base::close();

			if (_log != nullptr) {
				_log->put_any(category::abc::multifile, severity::abc::debug, 0x102b2, "multifile_streambuf::reopen() Close path=%s", _path);
			}
		}
''', '''	template <typename File, typename Log>
	inline void multifile_close(File& file, const char* path, Log* log) {
		if (!file.is_open()) {
			return;
		}

		file.close();

		if (log != nullptr) {
			log->put_any(category::abc::multifile, severity::abc::debug, 0x102b2, "multifile_streambuf::reopen() Close path=%s", path);
		}
	}


	template <std::size_t MaxPath, typename Clock, typename Log>
	inline void multifile_streambuf<MaxPath, Clock, Log>::reopen() {
		multifile_close(static_cast<std::filebuf&>(*this), _path, _log);
''')]),
 dict(id='mf-count-block', props=P, edits=[(F, '''		std::size_t before_size = _current_size + pcount();
		std::streamsize put = base::xsputn(s, count);
		_current_size = before_size + put - pcount();

		return put;
''', '''		_current_size += pcount();
		std::streamsize put = base::xsputn(s, count);
		_current_size += put;
		_current_size -= pcount();

		return put;
''')]),
]
