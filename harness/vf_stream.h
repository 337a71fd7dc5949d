// Model of std::basic_ios / istream / ostream as seen by one stream object:
// the iostate is the ghost g_st; input may end or fail at any character and every
// character may have any value; output may fail at any character.
#pragma once
#include <istream>
#include <ostream>
#include "vf.h"

extern "C" {
	int g_st;      // iostate: 0 good, 1 bad, 2 eof, 4 fail
	int g_io;      // 1: the stream buffer was touched
	int g_has;     // 1: a character was looked at and not consumed yet
	unsigned long v_count; // characters consumed
	unsigned char v_ch;   // that character
#ifdef VF_FRAMING
	int g_cls;     // which class that character belongs to
#endif
#ifdef VF_JSON_IN
	int g_cls;     // 1 ']' 2 '}' 3 ',' 4 ':' 0 another
	int g_last;    // class of the last consumed character
#endif
	int g_crlf;    // reader: 1 the last consumed character was CR, 2 a CR LF was consumed
	int g_colon;   // reader: a ':' was consumed
	int g_any;     // reader: a character was consumed
#ifdef VF_TERM
	int g_dead;    // operations on the stream after it stopped being good
	int g_looks;   // looks since the last consumed character
#endif
#if defined VF_FRAME || defined VF_SENT
	int g_dirty;   // writer: something was put and not flushed
	int g_out;     // writer: 0 nothing, 1 text, 2 CR, 3 CR LF, 4 broken
#endif
}
#define IOS "NSt9basic_iosIcSt11char_traitsIcEE"
#define KIOS "NKSt9basic_iosIcSt11char_traitsIcEE"

extern "C" bool m_good(const std::ios*) VF_MODEL("_Z" KIOS "4goodEv");
bool m_good(const std::ios*) { return g_st == 0; }
extern "C" bool m_eof(const std::ios*) VF_MODEL("_Z" KIOS "3eofEv");
bool m_eof(const std::ios*) { return (g_st & 2) != 0; }
extern "C" bool m_bad(const std::ios*) VF_MODEL("_Z" KIOS "3badEv");
bool m_bad(const std::ios*) { return (g_st & 1) != 0; }
extern "C" bool m_fail(const std::ios*) VF_MODEL("_Z" KIOS "4failEv");
bool m_fail(const std::ios*) { return (g_st & 5) != 0; }
extern "C" bool m_not(const std::ios*) VF_MODEL("_Z" KIOS "ntEv");
bool m_not(const std::ios*) { return (g_st & 5) != 0; }
extern "C" bool m_bool(const std::ios*) VF_MODEL("_Z" KIOS "cvbEv");
bool m_bool(const std::ios*) { return (g_st & 5) == 0; }
extern "C" int m_rdstate(const std::ios*) VF_MODEL("_Z" KIOS "7rdstateEv");
int m_rdstate(const std::ios*) { return g_st; }
extern "C" void m_clear(std::ios*, int st) VF_MODEL("_Z" IOS "5clearESt12_Ios_Iostate");
void m_clear(std::ios*, int st) { g_st = st; }
extern "C" void m_setstate(std::ios*, int st) VF_MODEL("_Z" IOS "8setstateESt12_Ios_Iostate");
void m_setstate(std::ios*, int st) { g_st = g_st | st; }

static inline bool vf_fill() {
	g_io = 1;
	if (g_has) return true;
	if (vf_nondet_bool()) return false;
	unsigned char ch = vf_nondet_uchar();
#ifdef VF_FRAMING
	// case split: the characters with a meaning and the intervals between them
	if (ch < '\n') g_cls = 1; else if (ch == '\n') g_cls = 2; else if (ch < '\r') g_cls = 3;
	else if (ch == '\r') g_cls = 4; else if (ch < ':') g_cls = 5; else if (ch == ':') g_cls = 6; else if (ch < 128) g_cls = 7; else g_cls = 8;
#endif
#ifdef VF_JSON_IN
	if (ch == ']') g_cls = 1; else if (ch == '}') g_cls = 2; else if (ch == ',') g_cls = 3; else if (ch == ':') g_cls = 4; else g_cls = 0;
#endif
	v_ch = ch;
	g_has = 1;
	return true;
}
static inline void vf_dead() {
#ifdef VF_TERM
	if (g_dead < 12) g_dead = g_dead + 1;
	vf_assert(g_dead < 12, "[term] only a bounded number of operations follows the end or failure of the stream");
#endif
}
extern "C" int m_get(std::istream*) VF_MODEL("_ZNSi3getEv");
int m_get(std::istream*) {
	if (g_st != 0) { vf_dead(); g_st = g_st | 4; return -1; }
	if (!vf_fill()) { g_st = 6; return -1; }
	g_has = 0; g_any = 1; vf_assume(v_count < (1ul << 62)); v_count = v_count + 1;
#ifdef VF_TERM
	g_looks = 0;
#endif
#ifdef VF_FRAMING
	if (g_crlf != 2) { if (g_cls == 4) g_crlf = 1; else if (g_cls == 2 && g_crlf == 1) g_crlf = 2; else g_crlf = 0; }
	if (g_cls == 6) g_colon = 1;
#endif
#ifdef VF_JSON_IN
	g_last = g_cls; g_cls = 0;
#endif
	return v_ch;
}
extern "C" int m_peek(std::istream*) VF_MODEL("_ZNSi4peekEv");
int m_peek(std::istream*) {
	if (g_st != 0) { vf_dead(); g_st = g_st | 4; return -1; }
#ifdef VF_TERM
	if (g_looks < 12) g_looks = g_looks + 1;
	vf_assert(g_looks < 12, "[term] a character is looked at only a bounded number of times before it is consumed");
#endif
	if (!vf_fill()) { g_st = 2; return -1; }
	return v_ch;
}
#ifdef VF_OUT_HOOK
static inline void vf_out(char c);
#else
static inline void vf_out(char c) {
#ifdef VF_FRAME
	// line ends come from the writer: nothing but LF follows CR, nothing follows CR LF,
	// and no control character is emitted on its own
	if (c == '\r') { vf_assert(g_out <= 1, "[frame] a line end is emitted only once, after the text of the element"); vf_assume(g_out <= 1); g_out = 2; }
	else if (c == '\n') { vf_assert(g_out == 2, "[frame] LF is emitted only right after CR"); vf_assume(g_out == 2); g_out = 3; }
	else {
		vf_assert(g_out <= 1, "[frame] no text follows the CR of a line end");
		vf_assume(g_out <= 1);
		vf_assert((c >= ' ' && c <= '~') || c == '\t', "[frame] a control or non-ASCII character is not emitted");
		g_out = 1;
	}
#endif
}
#endif
extern "C" std::ostream* m_put(std::ostream*, char) VF_MODEL("_ZNSo3putEc");
std::ostream* m_put(std::ostream* o, char c) {
	if (g_st != 0) { vf_dead(); return o; }
	g_io = 1;
	if (vf_nondet_bool()) { g_st = 1; return o; }
	vf_out(c);
#if defined VF_FRAME || defined VF_SENT
	g_dirty = 1;
#endif
	return o;
}
extern "C" std::ostream* m_write(std::ostream*, const char*, long) VF_MODEL("_ZNSo5writeEPKcl");
std::ostream* m_write(std::ostream* o, const char*, long) {
	if (g_st != 0) return o;
	g_io = 1;
	if (vf_nondet_bool()) g_st = 1;
#if defined VF_FRAME || defined VF_SENT
	g_dirty = 1;
#endif
	return o;
}
extern "C" std::ostream* m_flush(std::ostream*) VF_MODEL("_ZNSo5flushEv");
std::ostream* m_flush(std::ostream* o) {
	if (g_st == 0 && vf_nondet_bool()) g_st = 1;
#if defined VF_FRAME || defined VF_SENT
	g_dirty = 0;
#endif
	return o;
}
static inline void vf_stream_any() { // any state a caller may leave the stream in
	g_io = 0; g_has = 0; v_count = 0; g_crlf = 0; g_colon = 0; g_any = 0;
#if defined VF_FRAME || defined VF_SENT
	g_dirty = 0;
#endif
#ifdef VF_TERM
	g_dead = 0; g_looks = 0;
#endif
#if defined VF_FRAMING
	g_cls = 0;
#endif
#ifdef VF_JSON_IN
	g_cls = 0; g_last = 0;
#endif
#ifdef VF_FRAME
	g_out = 0;
#endif
	if (vf_nondet_bool()) g_st = 0;
	else { int x = vf_nondet_int(); vf_assume(x >= 1 && x <= 7); g_st = x; }
}
