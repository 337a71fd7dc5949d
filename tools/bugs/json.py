PRE = r'''
#include <cstdio>
#include <cstring>
#include <string>
#include <sstream>
#include "json.h"
using namespace abc;
using namespace abc::json;
typedef json_istream<8> in; typedef json_ostream<8> out;
#define CHECK(x) if (!(x)) { std::printf("FAILED %s line %d\n", #x, __LINE__); return 1; }
'''
F = 'src/json.h'
BUGS = [
 dict(id='J01-last-byte', property='J01', san=True,
  needs='a JSON string exactly as long as the buffer for its text',
  what='the terminator is stored right after the buffer',
  edits=[(F, 'if (gcount == size - 1) {\n\t\t\t\tbase::set_fail();\n\t\t\t\tbreak;', 'if (gcount == size) {\n\t\t\t\tbase::set_fail();\n\t\t\t\tbreak;')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb("\"12345678\""); in s(&sb);
	token_t* t = (token_t*)new char[sizeof(token_t)];  // 8 characters of text
	s.get_token(t, sizeof(token_t));
	CHECK(!s.good()); delete[] (char*)t; return 0;
}'''),
 dict(id='J02-skip-string', property='J02',
  needs='skipping a value whose document ends inside a string',
  what='the loop that skips characters no longer looks at the state of the stream; the end of input looks like one more character of the string',
  edits=[(F, 'while (base::is_good() && predicate(peek_char())) {\n\t\t\tbase::get();', 'while (predicate(peek_char())) {\n\t\t\tbase::get();')],
  demo=PRE + r'''
#include <unistd.h>
int main() {
	alarm(5);
	std::stringbuf sb("[\"abc"); in s(&sb); s.skip_value(); CHECK(!s.good()); return 0;
}'''),
 dict(id='J01-depth-limit', property='J01', san=True,
  needs='a document nested one level deeper than the limit of the reader',
  what='one level too many is pushed, past the end of the level stack',
  edits=[(F, 'if (_level_top + 1 >= MaxLevels) {', 'if (_level_top + 1 > MaxLevels) {')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb(std::string(9, '[') + std::string(9, ']')); in s(&sb);
	alignas(8) char m[64]; token_t* t = (token_t*)m;
	for (int i = 0; i < 9; i++) s.get_token(t, sizeof(m));
	CHECK(s.levels() <= 8); CHECK(!s.good()); return 0;
}'''),
 dict(id='J03-close-any', property='J03',
  needs='a document whose array is closed with the bracket of an object, nested inside another array',
  what='the reader pops whatever level is open',
  edits=[(F, 'if (_level_stack[_level_top] != level) {', 'if (_level_stack[_level_top] != level && _level_top == 0) {')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb("{\"a\":{\"b\":]}"); in s(&sb);
	alignas(8) char m[64]; token_t* t = (token_t*)m;
	for (int i = 0; i < 6 && s.good(); i++) s.get_token(t, sizeof(m));
	CHECK(!s.good()); return 0;
}'''),
 dict(id='J03-colon', property='J03',
  needs='a property whose name is followed by a comma instead of a colon',
  what='a comma is taken for the colon after a name',
  edits=[(F, "if (ch == ':') {\n\t\t\t\t\t\tbase::get();", "if (ch == ':' || ch == ',') {\n\t\t\t\t\t\tbase::get();")],
  demo=PRE + r'''
int main() {
	std::stringbuf sb("{\"a\",1}"); in s(&sb);
	alignas(8) char m[64]; token_t* t = (token_t*)m;
	s.get_token(t, sizeof(m)); s.get_token(t, sizeof(m)); CHECK(!s.good()); return 0;
}'''),
 dict(id='J04-comma-after-container', property='J04',
  needs='an array element after an object that is nested three arrays deep',
  what='no comma is written after a nested object that is an element of an array',
  edits=[(F, '\t\tput_chars("}", 1);\n\n\t\tbase::set_bad_if(!state::pop_level(json::level::object));\n\n\t\t_skip_comma = false;', '\t\tput_chars("}", 1);\n\n\t\tbase::set_bad_if(!state::pop_level(json::level::object));\n\n\t\t_skip_comma = state::levels() > 2;')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb; out s(&sb);
	for (int i = 0; i < 3; i++) s.put_begin_array();
	s.put_begin_object(); s.put_end_object(); s.put_null();
	for (int i = 0; i < 3; i++) s.put_end_array();
	CHECK(sb.str() == "[[[{},null]]]"); return 0;
}'''),
 dict(id='J04-del-control', property='J04',
  needs='a text with a control character above 15',
  what='control characters from 0x10 on are written raw',
  edits=[('src/ascii.h', 'return is_between(ch, 0x00, 0x1f) || ch == 0x7f;', 'return is_between(ch, 0x00, 0x1a) || ch == 0x7f;')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb; out s(&sb); s.put_string("a\x1b" "b");
	for (char c : sb.str()) CHECK((unsigned char)c >= ' ');
	return 0;
}'''),
 dict(id='J05-value-for-name', property='J05',
  needs='a second value after a property was written, where a name must come',
  what='after a boolean inside an object the writer does not ask for a name again',
  edits=[(F, '\t\telse {\n\t\t\tput_chars("false", 5);\n\t\t}\n\n\t\t_skip_comma = false;\n\t\tstate::set_expect_property(true);', '\t\telse {\n\t\t\tput_chars("false", 5);\n\t\t}\n\n\t\t_skip_comma = false;\n\t\tstate::set_expect_property(value || state::levels() == 1);')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb; out s(&sb);
	s.put_begin_array(); s.put_begin_object(); s.put_property("a"); s.put_boolean(false); s.put_boolean(false);
	CHECK(!s.good()); return 0;
}'''),
 dict(id='J06-small-buffer', property='J06', san=True,
  needs='a buffer of 9 to 15 bytes',
  what='a buffer smaller than a token is accepted',
  edits=[(F, 'if (size < sizeof(json::token_t)) {', 'if (size <= sizeof(json::item_t) + sizeof(json::token_t) / 4) {')],
  demo=PRE + r'''
int main() {
	std::stringbuf sb("1 "); in s(&sb); bool thrown = false;
	alignas(8) char m[64];
	try { s.get_token((token_t*)m, 12); } catch (const std::logic_error&) { thrown = true; }
	CHECK(thrown); return 0;
}'''),
]
