# Planted changes of the streams of files.
F = 'src/multifile.h'
PRE = r'''
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <chrono>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include "multifile.h"
struct L {
	template <typename... A> void put_any(A...) {}
	template <typename... A> void put_anyv(A...) {}
	template <typename... A> void put_binary(A...) {}
	template <typename... A> void put_blank_line(A...) {}
};
static long long now_ns = 86400ll * 20000 * 1000000000ll;
struct Clk {
	typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<Clk> time_point;
	static constexpr bool is_steady = false;
	static time_point now() { return time_point(duration(now_ns)); }
};
static void tick(long long s) { now_ns += s * 1000000000ll; }
static std::string dir() { char t[] = "/tmp/mfXXXXXX"; return mkdtemp(t); }
static std::vector<std::string> names(const std::string& d) { std::vector<std::string> v; DIR* h = opendir(d.c_str()); if (!h) return v; while (dirent* e = readdir(h)) if (e->d_name[0] != '.') v.push_back(e->d_name); closedir(h); return v; }
static void clean(const std::string& d) { for (auto& n : names(d)) unlink((d + "/" + n).c_str()); rmdir(d.c_str()); }
typedef abc::size_multifile_streambuf<64, Clk, L> Sized;
typedef abc::duration_multifile_streambuf<64, Clk, L> Timed;
typedef abc::multifile_streambuf<64, Clk, L> Plain;
'''
def bug(id, needs, what, edits, main, san=False):
    return dict(id=id, property=id.split('-')[0], needs=needs, what=what, edits=[(F, a, b) for a, b in edits], demo=PRE + main, san=san)
BUGS = [
 bug('M01-longest-folder', 'a folder without a separator at its end that is as long as is accepted', 'the last digit of the name of a file is cut off',
  [('if (_path_length + 1 + filename_length > MaxPath) {', 'if (_path_length + filename_length > MaxPath) {')],
  'int main() { std::string d = dir(), p = d; while (p.size() + 15 < 64) p = d + "/" + std::string(p.size() - d.size(), \'x\'); mkdir(p.c_str(), 0755); bool ok = true; try { Plain s(p.c_str(), std::ios::out, nullptr); ok = strlen(s.path()) == p.size() + 16; } catch (const std::logic_error&) {} clean(p); clean(d); return ok ? 0 : 1; }'),
 bug('M01-close-when-logged', 'a stream without a log whose file is replaced', 'the file before is not closed, so the new file is never opened and the stream goes on in the old one',
  [('''			base::close();

			if (_log != nullptr) {
				_log->put_any(category::abc::multifile''', '''			if (_log != nullptr) {
				base::close();
				_log->put_any(category::abc::multifile''')],
  'int main() { std::string d = dir(); bool ok; { Plain s(d.c_str(), std::ios::out, nullptr); tick(1); s.reopen(); ok = names(d).size() == 2 && s.is_open(); } clean(d); return ok ? 0 : 1; }'),
 bug('M01-move-length', 'a stream that was moved, and whose file is replaced after that', 'the name of a new file is appended to the name of the file before',
  [('		_path_length = other._path_length;\n', '		_path_length = std::strlen(_path);\n')],
  'int main() { std::string d = dir(); bool ok; { Plain a(d.c_str(), std::ios::out, nullptr); Plain s(std::move(a)); tick(1); s.reopen(); ok = strlen(s.path()) == d.size() + 16; } clean(d); return ok ? 0 : 1; }'),
 bug('M02-failed-open', 'a folder that is gone while the file is replaced, and is there again later', 'the size starts from the old one, so a file is replaced again although it is far below its size',
  [('''		base::reopen();

		_current_size = 0;
''', '''		base::reopen();

		if (base::is_open()) {
			_current_size = 0;
		}
''')],
  'int main() { std::string d = dir(), p = d + "/x"; mkdir(p.c_str(), 0755); bool ok; { Sized s(10, p.c_str(), std::ios::out, nullptr); s.sputn("0123456789ab", 12); clean(p); tick(1); s.pubsync(); bool closed = !s.is_open(); mkdir(p.c_str(), 0755); tick(1); s.open((p + "/by-hand").c_str(), std::ios::out); s.sputn("z", 1); s.pubsync(); ok = closed && names(p).size() == 1; } clean(p); clean(d); return ok ? 0 : 1; }'),
 bug('M02-steady-schedule', 'nothing written for several times the age', 'the age of a new file starts in the past, so each of the next syncs replaces the file although it is new',
  [('		_ts = timestamp<Clock>();\n', '		_ts = timestamp<Clock>(static_cast<const std::chrono::time_point<Clock>&>(_ts) + _duration);\n')],
  'int main() { std::string d = dir(); bool ok; { Timed s(std::chrono::seconds(10), d.c_str(), std::ios::out, nullptr); tick(35); s.pubsync(); tick(1); s.pubsync(); ok = names(d).size() == 2; } clean(d); return ok ? 0 : 1; }'),
 bug('M02-exact-age', 'a sync at the very time at which the file reaches its age', 'the file is kept for another round',
  [('		if (ts - _ts >= _duration) {', '		if (ts - _ts > _duration) {')],
  'int main() { std::string d = dir(); bool ok; { Timed s(std::chrono::seconds(10), d.c_str(), std::ios::out, nullptr); tick(10); s.pubsync(); ok = names(d).size() == 2; } clean(d); return ok ? 0 : 1; }'),
 bug('M02-exact-size', 'a sync when the file has exactly its size', 'the file is kept and grows beyond its size',
  [('		if (_current_size >= _size) {', '		if (_current_size > _size) {')],
  'int main() { std::string d = dir(); bool ok; { Sized s(10, d.c_str(), std::ios::out, nullptr); s.sputn("0123456789", 10); tick(1); s.pubsync(); ok = names(d).size() == 2; } clean(d); return ok ? 0 : 1; }'),
]
