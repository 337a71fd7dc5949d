T='src/table.h'; G='src/log.h'
PRE='''#include <cstdio>
#include <cstring>
#include <sstream>
#include <string>
#include <stdexcept>
#include "log.h"
#define CHECK(c) do { if (!(c)) { std::printf("failed: %s\\n", #c); return 1; } } while (0)
using namespace abc;
'''
BUGS=[
 dict(id='T01-binary-room', property='T01', san=True,
  needs='a binary entry on a line that has room for the hex digits but not for the characters',
  what='the room for the characters is not asked for, so they are written behind the line',
  edits=[(T, 'if (Size - _pcount <= local_size) {', 'if (Size - _pcount <= local_size - chunk_size) {')],
  demo=PRE+r'''
int main() { std::stringbuf sb; table_ostream t(&sb); line_ostream<80>* l = new line_ostream<80>(&t); l->put_any("%s", "0123456789ABCDEF"); std::size_t off = 0; l->put_binary("abcdefghijklmnopq", 17, off); l->flush(); CHECK(off == 0); CHECK(sb.str() == "0123456789ABCDEF\n"); delete l; return 0; }'''),
 dict(id='T01-severity', property='T01', san=True,
  needs='an entry of a severity beyond the last one of the library in a test log',
  what='the indentation of such an entry is written behind its buffer',
  edits=[(G, 'severity = severity <= severity::abc::debug ? severity : severity::abc::debug;', 'severity = severity < severity::abc::debug || severity > 2 * severity::abc::debug ? severity : severity::abc::debug;')],
  demo=PRE+r'''
int main() { std::stringbuf sb; log_ostream<test_line_ostream<>, log_filter> log(&sb, nullptr); log.put_any(1, 100, 0x1, "x"); CHECK(sb.str().size() > 20 && sb.str().size() < 60); return 0; }'''),
 dict(id='T02-catch', property='T02',
  needs='a stream buffer that throws something that is not a std::exception while a line is flushed',
  what='the exception leaves a function that promises not to throw, and the program ends',
  edits=[(T, '\t\t\tbase::write(line, line_size);\n\t\t\tbase::flush();\n\t\t}\n\t\tcatch (...) {', '\t\t\tbase::write(line, line_size);\n\t\t\tbase::flush();\n\t\t}\n\t\tcatch (const std::exception&) {')],
  demo=PRE+r'''
struct buf : std::streambuf { int sync() override { throw 1; } int overflow(int c) override { return c; } };
int main() { buf b; table_ostream t(&b); struct s : table_ostream { s(std::streambuf* b) : table_ostream(b) {} void on() { exceptions(std::ios::badbit); } } x(&b); x.on(); x.put_line("x\n"); return 0; }'''),
 dict(id='T02-empty-line', property='T02',
  needs='a line that is flushed while it is empty, as a log entry without text in a line without properties is',
  what='an empty line is not written',
  edits=[(T, '\t\tif (_table != nullptr) {\n\t\t\t_table->put_line(_buffer, _pcount);', '\t\tif (_table != nullptr && _pcount > 1) {\n\t\t\t_table->put_line(_buffer, _pcount);')],
  demo=PRE+r'''
int main() { std::stringbuf sb; { table_ostream t(&sb); line_ostream<80> l(&t); l.put_any("%s", ""); l.flush(); l.put_any("%s", "abc"); } CHECK(sb.str() == "\nabc\n"); return 0; }'''),
 dict(id='T03-binary-no-filter', property='T03',
  needs='a binary entry in a log that has no filter',
  what='a log without a filter writes no binary entries',
  edits=[(G, '\t\tif (_filter == nullptr || _filter->is_enabled(category, severity)) {\n\t\t\tLine line(this);\n\t\t\tline.put_binary', '\t\tif (_filter != nullptr && _filter->is_enabled(category, severity)) {\n\t\t\tLine line(this);\n\t\t\tline.put_binary')],
  demo=PRE+r'''
int main() { std::stringbuf sb; log_ostream<diag_line_ostream<>, log_filter> log(&sb, nullptr); log.put_binary(1, 1, 0x1, "abc", 3); CHECK(!sb.str().empty()); return 0; }'''),
 dict(id='T03-blank-line', property='T03',
  needs='a blank line of a severity that the filter does not let through',
  what='blank lines are written whatever the filter says',
  edits=[(G, '\t\tif (_filter == nullptr || _filter->is_enabled(category, severity)) {\n\t\t\tbase::put_blank_line();', '\t\tif (_filter == nullptr || _filter->is_enabled(category, severity) || severity > _filter->min_severity()) {\n\t\t\tbase::put_blank_line();')],
  demo=PRE+r'''
int main() { std::stringbuf sb; log_filter f(severity::important); log_ostream<diag_line_ostream<>, log_filter> log(&sb, &f); log.put_blank_line(1, severity::abc::debug); CHECK(sb.str().empty()); return 0; }'''),
]
