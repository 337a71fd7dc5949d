// Lines, tables and logs: the line buffer is never overrun, an entry is one line, nothing is thrown.
// absint: --wide
#include <ostream>
#include <cstring>
#include <thread>
#include "vf.h"
#include "vf_sbuf.h"
#include "log.h"
using namespace abc;

extern "C" {
	int g_lines;   // lines that reached the stream of the table (counted up to 2)
	std::streambuf* v_sb;
	int g_on;      // the entry is enabled: 1 by the filter, 2 because there is none
}
extern "C" void m_terminate() VF_MODEL("_ZSt9terminatev");
void m_terminate() { vf_assert(false, "[nothrow] no exception leaves a function that promises not to throw"); vf_stop(); }

// constructing, destroying and formatting into a standard stream: the stream buffer may take any part of the text
extern "C" void m_os1(std::ostream*, std::streambuf*) VF_MODEL("_ZNSoC1EPSt15basic_streambufIcSt11char_traitsIcEE");
void m_os1(std::ostream*, std::streambuf* sb) { v_sb = sb; }
extern "C" void m_os2(std::ostream*, void**, std::streambuf*) VF_MODEL("_ZNSoC2EPSt15basic_streambufIcSt11char_traitsIcEE");
void m_os2(std::ostream*, void**, std::streambuf*) {}
extern "C" void m_os3(std::ostream*) VF_MODEL("_ZNSoD1Ev");
void m_os3(std::ostream*) {}
extern "C" void m_os4(std::ostream*, void**) VF_MODEL("_ZNSoD2Ev");
void m_os4(std::ostream*, void**) {}
extern "C" void m_os5(std::ios*) VF_MODEL("_ZNSt9basic_iosIcSt11char_traitsIcEEC2Ev");
void m_os5(std::ios*) {}
extern "C" void m_os6(std::ios*) VF_MODEL("_ZNSt9basic_iosIcSt11char_traitsIcEED2Ev");
void m_os6(std::ios*) {}
static inline void text_out() {
	if (vf_nondet_bool()) throw 1;
	std::streambuf* s = v_sb;
	if (s == nullptr) return;
	std::size_t room = s->_M_out_end - s->_M_out_cur, n = vf_nondet_size();
	vf_assume(n <= room);
	if (n != 0) { vf_store(s->_M_out_cur, n); s->_M_out_cur += n; }
}
extern "C" std::ostream* m_os7(std::ostream*, const char*) VF_MODEL("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream* m_os7(std::ostream* o, const char*) { text_out(); return o; }
extern "C" std::ostream* m_os8(std::ostream*, unsigned long) VF_MODEL("_ZNSolsEm");
std::ostream* m_os8(std::ostream* o, unsigned long) { text_out(); return o; }
extern "C" std::ostream* m_os9(std::ostream*, void*) VF_MODEL("_ZNSolsEPFRSt8ios_baseS0_E");
std::ostream* m_os9(std::ostream* o, void*) { return o; }
extern "C" std::ostream* m_os10(std::ostream*, char) VF_MODEL("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream* m_os10(std::ostream* o, char c) {
	if (c == '\n') { if (g_lines < 2) g_lines = g_lines + 1; if (vf_nondet_bool()) throw 1; } // an empty line
	else text_out();
	return o;
}
extern "C" std::ostream* m_write(std::ostream*, const char*, long) VF_MODEL("_ZNSo5writeEPKcl");
std::ostream* m_write(std::ostream* o, const char* p, long n) {
	vf_load(p, (unsigned long)n);
	vf_assert(n >= 1, "[line] a line is not empty");
	vf_assume(n >= 1);
	vf_assert(p[n - 1] == '\n', "[line] a line ends with a line end");
	if (g_lines < 2) g_lines = g_lines + 1;
	if (vf_nondet_bool()) throw 1;
	return o;
}
extern "C" std::ostream* m_flush(std::ostream*) VF_MODEL("_ZNSo5flushEv");
std::ostream* m_flush(std::ostream* o) { if (vf_nondet_bool()) throw 1; return o; }


template <std::size_t S> static inline void lines(table_ostream* t, const char* text, const char* b, std::size_t n, std::size_t off) {
	g_lines = 0;
	vf_text(text); vf_region(b, n);
	{
		line_ostream<S> line(t);
		while (vf_nondet_bool()) {
			int k = vf_nondet_int();
			if (k == 0) line.put_any("%s", text);
			else if (k == 1) { std::size_t o = off; line.put_binary(b, n, o); }
			else if (k == 2) line.put_thread_id(std::this_thread::get_id(), "%s");
			else if (k == 3) { const char* s = line.get(); vf_is_text(s, "[text] the text of a line is terminated"); }
			else line.flush();
		}
		vf_reach("must: line");
	}
	vf_reach("must: end");
}
#define LINE(S) extern "C" void H_line##S(table_ostream* t, const char* text, const char* b, std::size_t n, std::size_t off) { lines<S>(t, text, b, n, off); }
LINE(17)
LINE(128)

// a line writes what it holds once: when it is flushed, or when it ends; not when it was moved to another one
extern "C" void H_line_once(table_ostream& t, const char* text) {
	vf_text(text);
	g_lines = 0;
	{
		line_ostream<128> a(&t);
		a.put_any("%s", text);
		vf_assert(g_lines == 0, "[line] a line is not written before it is complete");
		a.flush();
		vf_assert(g_lines == 1, "[line] a flushed line is written once");
		g_lines = 0;
		a.put_any("%s", text);
	}
	vf_assert(g_lines == 1, "[line] a line that ends is written once");
	vf_reach("must: end");
}
extern "C" void H_line_moved(table_ostream& t, const char* text) {
	vf_text(text);
	g_lines = 0;
	{
		line_ostream<128> a(&t);
		a.put_any("%s", text);
		line_ostream<128> b(std::move(a));
		vf_assert(g_lines == 0, "[line] moving a line does not write it");
		vf_is_text(b.get(), "[text] the text of a moved line is terminated");
	}
	vf_assert(g_lines == 1, "[line] a line that was moved is written once");
	vf_reach("must: end");
}
extern "C" void H_table(table_ostream& t, const char* text) {
	vf_text(text);
	g_lines = 0;
	t.put_blank_line();
	vf_assert(g_lines == 1, "[line] a blank line is one line");
	vf_reach("must: end");
}
typedef std::chrono::system_clock clk;
template <typename L, typename F> static inline void entry(F f, abc::category_t c, abc::severity_t s, log_filter* filter, bool one) {
	log_ostream<L, log_filter> log(nullptr, filter);
	g_lines = 0;
	if (filter == nullptr) g_on = 2; else if (s <= filter->min_severity()) g_on = 1; else g_on = 0;
	f(log);
	if (g_on) { if (one) vf_assert(g_lines == 1, "[entry] an enabled entry is written as one line"); else vf_assert(g_lines >= 1, "[entry] an enabled entry is written"); vf_reach("must: enabled"); }
	else { vf_assert(g_lines == 0, "[entry] an entry that is not enabled is not written"); vf_reach("must: disabled"); }
	vf_reach("end");
}
#define LOG(name, Line) \
	extern "C" void H_##name##_any(abc::category_t c, abc::severity_t s, abc::tag_t tag, const char* text, log_filter* f) { \
		vf_text(text); \
		entry<Line>([&](log_ostream<Line, log_filter>& l) { l.put_any(c, s, tag, "%s", text); }, c, s, f, true); } \
	extern "C" void H_##name##_binary(abc::category_t c, abc::severity_t s, abc::tag_t tag, const char* b, std::size_t n, log_filter* f) { \
		vf_region(b, n); \
		entry<Line>([&](log_ostream<Line, log_filter>& l) { l.put_binary(c, s, tag, b, n); }, c, s, f, false); } \
	extern "C" void H_##name##_blank(abc::category_t c, abc::severity_t s, log_filter* f) { \
		entry<Line>([&](log_ostream<Line, log_filter>& l) { l.put_blank_line(c, s); }, c, s, f, true); }
typedef debug_line_ostream<256, clk> debug_line;
typedef diag_line_ostream<100, clk> diag_line;
typedef test_line_ostream<32, clk> test_line;
LOG(debug, debug_line)
LOG(diag, diag_line)
LOG(test, test_line)
