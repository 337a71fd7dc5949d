# Planted changes of the character classes, of the comparison of texts, and of the streams over memory and strings in pools.
AS = 'src/ascii.h'; BS = 'src/buffer_streambuf.h'; VS = 'src/x/vmem_string.x.h'
CH = '#include <cstdio>\n#include <cstring>\n#include "ascii.h"\nusing namespace abc;\nint main() { int bad = 0;\n'
EACH = CH + 'for (int i = -128; i < 128; i++) { char c = (char)i; bool is = %s, should = %s; if (is != should) { std::printf("character %%d\\n", i); bad = 1; } }\nreturn bad; }\n'
SB = r'''
#include <cstdio>
#include <utility>
#include "buffer_streambuf.h"
using namespace abc;
int main() { char in[] = "abcdefgh", out[8] = {0};
'''
VP = r'''
#include <cstdio>
#include <string>
#include "log.h"
#include "vmem.h"
using namespace abc;
typedef null_log L; typedef vmem_pool<8, L> pool_t;
typedef vmem_string<pool_t, L> str_t; typedef vmem_string_streambuf<pool_t, L> buf_t;
static std::string whole(str_t& s) { std::string r; for (auto i = s.begin(); i.can_deref(); i++) r += *i; return r; }
int main() { int bad = 0; pool_t pool("d.vmem", nullptr); vmem_string_state st; str_t s(&st, &pool, nullptr);
'''
VE = ' return bad; }\n'
BUGS = [
 dict(id='A01-brace', property='A01', needs='a token with a closing brace', what='a closing brace is no separator, so it becomes a token character', edits=[(AS, "ch == '{' || ch == '}' ||", "ch == '{' ||")], demo=EACH % ('ascii::http::is_separator(c)', 'c != 0 && std::strchr(" \\t()<>[]{}@,;:\\\\/\\"?=", c) != nullptr')),
 dict(id='A01-hexlast', property='A01', needs='a hexadecimal digit F in lower case', what='the last lower case hexadecimal digit is refused', edits=[(AS, "is_between(ch, 'A', 'F') || is_between(ch, 'a', 'f');", "is_between(ch, 'A', 'F') || is_between(ch, 'a', 'e');")], demo=EACH % ('ascii::is_hex(c)', 'c != 0 && std::strchr("0123456789ABCDEFabcdef", c) != nullptr')),
 dict(id='A01-delete', property='A01', needs='the delete character', what='the delete character is printable and no control character', edits=[(AS, "return is_between(ch, 0x21, 0x7e);", "return is_between(ch, 0x21, 0x7f);")], demo=EACH % ('ascii::is_abcprint(c)', 'i > 32 && i < 127')),
 dict(id='A01-ascii', property='A01', needs='a character with the top bit set', what='negative characters count as ASCII', edits=[(AS, "return is_between(ch, 0x00, 0x7f);", "return ch <= 0x7f;")], demo=EACH % ('ascii::is_ascii(c)', 'i >= 0')),
 dict(id='A01-feed', property='A01', needs='a form feed in a JSON text', what='a form feed and a vertical tab count as JSON spaces', edits=[(AS, "return ascii::is_space(ch) || ch == '\\r' || ch == '\\n';", "return ascii::is_space(ch) || is_between(ch, '\\n', '\\r');")], demo=EACH % ('ascii::json::is_space(c)', "c == ' ' || c == 9 || c == 10 || c == 13")),
 dict(id='A01-fold', property='A01', needs='upper case of a character between the cases', what='upper casing clears a bit of every character from the lower letters on', edits=[(AS, "return is_loweralpha(ch) ? 'A' + (ch - 'a') : ch;", "return ch >= 'a' ? 'A' + (ch - 'a') : ch;")], demo=EACH % ('ascii::to_upper(c) != c', "c >= 'a' && c <= 'z'")),
 dict(id='A02-fold', property='A02', needs='texts that differ by one bit in a character that is no letter', what='without case, characters are compared without a bit', edits=[(AS, 'to_lower(ch1) == to_lower(ch2)', '(ch1 | 0x20) == (ch2 | 0x20)')], demo=CH + 'if (ascii::are_equal_i("a@b", "a`b") || ascii::are_equal_i("[", "{") || !ascii::are_equal_i("aZ", "Az")) bad = 1; return bad; }\n'),
 dict(id='A02-cased', property='A02', needs='texts with a limit that differ in case', what='the case insensitive comparison with a limit ignores the last character', edits=[(AS, 'return are_equal(s1, s2, false, max_chars);', 'return are_equal(s1, s2, false, max_chars > 1 ? max_chars - 1 : max_chars);')], demo=CH + 'if (ascii::are_equal_i_n("ab", "ac", 2) || !ascii::are_equal_i_n("ab", "AB", 2)) bad = 1; return bad; }\n'),
 dict(id='B01-get-length', property='B01', needs='a reading range that does not start at the beginning of its buffer', what='the end of reading is taken as a length', edits=[(BS, '&get_buffer[get_end_pos]', '&get_buffer[get_begin_pos + get_end_pos]')], demo=SB + 'buffer_streambuf b(in, 2, 4, out, 0, 0); int n = 0; while (n < 8 && b.sbumpc() != EOF) n++; return n == 2 ? 0 : 1; }\n'),
 dict(id='B01-moved-begin', property='B01', needs='moving a buffer that was written to', what='a moved buffer starts where the other one was, and goes on from there once more', edits=[(BS, 'other._get_end_ptr, other._put_begin_ptr, other._put_end_ptr', 'other._get_end_ptr, other.pptr(), other._put_end_ptr')], demo=SB + 'buffer_streambuf a(in, 0, 8, out, 0, 8); a.sputc(65); buffer_streambuf b(std::move(a)); b.sputc(66); return out[0] == 65 && out[1] == 66 && out[2] == 0 ? 0 : 1; }\n'),
 dict(id='B01-last', property='B01', needs='filling the whole of the range', what='the last place is kept for a terminator', edits=[(BS, 'base::setp(put_begin_ptr, put_end_ptr);', 'base::setp(put_begin_ptr, put_end_ptr > put_begin_ptr ? put_end_ptr - 1 : put_end_ptr);')], demo=SB + 'buffer_streambuf b(in, 0, 8, out, 0, 3); int n = 0; while (n < 8 && b.sputc(65) != EOF) n++; return n == 3 ? 0 : 1; }\n'),
 dict(id='V06-zero', property='V06', needs='writing a zero character that is flushed', what='a zero character that is held is dropped', edits=[(VS, 'if (base::pptr() != &_put_ch) {', "if (base::pptr() != &_put_ch && _put_ch != Char(0)) {")], demo=VP + 'buf_t b(&s, nullptr); b.sputc(97); b.sputc(98); b.sputc(0); b.pubsync(); if (whole(s) != std::string("ab\\0", 3)) bad = 1;' + VE),
 dict(id='V06-read-zero', property='V06', needs='reading a string that holds a zero character', what='reading ends at a zero character', edits=[(VS, 'if (!_get_itr.can_deref())', 'if (!_get_itr.can_deref() || *_get_itr == Char(0))')], demo=VP + 's.push_back(97); s.push_back(0); s.push_back(98); buf_t b(&s, nullptr); int n = 0; while (n < 9 && b.sbumpc() != EOF) n++; if (n != 3) bad = 1;' + VE),
 dict(id='V06-again', property='V06', needs='moving a stream that was read from', what='a moved stream reads the string from its beginning again', edits=[(VS, ', _get_itr(std::move(other._get_itr))', ', _get_itr(nullptr)')], demo=VP + 's.push_back(97); s.push_back(98); buf_t a(&s, nullptr); if (a.sbumpc() != 97) bad = 1; buf_t b(std::move(a)); if (b.sbumpc() != 98) bad = 1;' + VE),
 dict(id='V06-held', property='V06', needs='moving a stream that holds a character that was written', what='the character that a moved stream holds is lost', edits=[(VS, ', _put_ch(other._put_ch)', ', _put_ch(0)')], demo=VP + 'buf_t a(&s, nullptr); a.sputc(97); buf_t b(std::move(a)); b.pubsync(); if (whole(s) != "a") bad = 1;' + VE),
]
