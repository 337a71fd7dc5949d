AS = 'src/ascii.h'; BS = 'src/buffer_streambuf.h'; VS = 'src/x/vmem_string.x.h'; A = ['A01', 'A02']
EDITS = [
 dict(id='between-not', props=A, edits=[(AS, 'return low <= ch && ch <= high;', 'return !(ch < low || high < ch);')]),
 dict(id='between-sub', props=A, edits=[(AS, 'return low <= ch && ch <= high;', 'return static_cast<unsigned>(ch - low) <= static_cast<unsigned>(high - low);')]),
 dict(id='hex-upper', props=A, edits=[(AS, '''			if (is_digit(ch)) {
				return ch - '0';
			}
			else if (is_between(ch, 'A', 'F')) {
				return 10 + (ch - 'A');
			}
			else if (is_between(ch, 'a', 'f')) {
				return 10 + (ch - 'a');
			}

			return 0;''', '''			if (!is_hex(ch)) {
				return 0;
			}

			return is_digit(ch) ? ch - '0' : to_lower(ch) - 'a' + 10;''')]),
 dict(id='sep-switch', props=A, edits=[(AS, '''				return
					is_space(ch) ||
					ch == '(' || ch == ')' || ch == '<' || ch == '>' || ch == '[' || ch == ']' ||  ch == '{' || ch == '}' ||
					ch == '@' || ch == ',' || ch == ';' || ch == ':' || ch == '\\\\' || ch == '/' || ch == '"' || ch == '?' || ch == '=';''', '''				switch (ch) {
				case '(': case ')': case '<': case '>': case '[': case ']': case '{': case '}':
				case '@': case ',': case ';': case ':': case '\\\\': case '/': case '"': case '?': case '=':
					return true;
				default:
					return is_space(ch);
				}''')]),
 dict(id='ascii-sign', props=A, edits=[(AS, 'return is_between(ch, 0x00, 0x7f);', 'return (static_cast<unsigned char>(ch) & 0x80) == 0;')]),
 dict(id='equal-while', props=A, edits=[(AS, '''			for (std::size_t i = 0; i < max_chars; i++) {
				const char& ch1 = s1[i];
				const char& ch2 = s2[i];
''', '''			for (; max_chars-- > 0; s1++, s2++) {
				const char ch1 = *s1;
				const char ch2 = *s2;
'''), (AS, "if (ch1 == '\\0' && ch2 == '\\0') {", "if (ch1 == '\\0') {")]),
 dict(id='equal-null', props=A, edits=[(AS, '''			if (s1 == nullptr) {
				return s2 == nullptr;
			}
			
			if (s2 == nullptr) {
				return false;
			}
''', '''			if (s1 == nullptr || s2 == nullptr) {
				return s1 == s2;
			}
''')]),
 dict(id='buf-inline', props=['B01'], edits=[(BS, '''		base::setg(get_begin_ptr, get_begin_ptr, get_end_ptr);
		base::setp(put_begin_ptr, put_end_ptr);''', '''		base::setp(_put_begin_ptr, _put_end_ptr);
		base::setg(_get_begin_ptr, _get_begin_ptr, _get_end_ptr);''')]),
 dict(id='buf-plus', props=['B01'], edits=[(BS, '(&get_buffer[get_begin_pos], &get_buffer[get_end_pos], &put_buffer[put_begin_pos], &put_buffer[put_end_pos])', '(get_buffer + get_begin_pos, get_buffer + get_end_pos, put_buffer + put_begin_pos, put_buffer + put_end_pos)')]),
 dict(id='buf-gbump', props=['B01'], edits=[(BS, '''		base::setg(other.eback(), other.gptr(), other.egptr());
''', '''		base::gbump(static_cast<int>(other.gptr() - other.eback()));
''')]),
 dict(id='str-order', props=['V06'], edits=[(VS, '''		_get_ch = *_get_itr++;

''', '''		_get_ch = *_get_itr;
		++_get_itr;

''')]),
 dict(id='str-pend', props=['V06'], edits=[(VS, '''		if (base::pptr() != &_put_ch) {
			_string->push_back(_put_ch);
		}
''', '''		if (base::pptr() == base::epptr()) {
			_string->push_back(*base::pbase());
		}
''')]),
 dict(id='str-nest', props=['V06'], edits=[(VS, '''		if (!_get_itr.can_deref())
		{
			return std::char_traits<Char>::eof();
		}

		_get_ch = *_get_itr++;

		base::setg(&_get_ch, &_get_ch, &_get_ch + 1);

		return std::char_traits<Char>::to_int_type(_get_ch);''', '''		if (_get_itr.can_deref()) {
			_get_ch = *_get_itr++;
			base::setg(&_get_ch, &_get_ch, &_get_ch + 1);

			return std::char_traits<Char>::to_int_type(_get_ch);
		}

		return std::char_traits<Char>::eof();''')]),
]
