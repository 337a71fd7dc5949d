// Strings of pages as streams: what is written is appended, what is read is what the string holds.
// absint: --sums
#include <new>
#include <utility>
#include "vf_pool.h"
#include "vf_sbuf.h"
using namespace abc;
typedef vmem_container<char, vmem_noheader, vf_pool, vf_log> container;
typedef vmem_basic_string<char, vf_pool, vf_log> string;
typedef vmem_basic_string_streambuf<char, vf_pool, vf_log> buf;
extern "C" {
	int g_pushed, g_thrown, g_took, g_pending, g_ahead, g_eof, g_last;
	int v_push0, v_push1; unsigned v_place, v_length; char v_char;
}
static constexpr vmem_page_pos_t PAGE = 5;
namespace abc {
	template <> void container::push_back(const char& c) {
		if (g_pushed == 0) v_push0 = c; else if (g_pushed == 1) v_push1 = c; else vf_assert(false, "[append] no more is appended than was written");
		if (vf_nondet_bool()) { g_thrown = 1; throw std::runtime_error("push"); }
		if (g_pushed == 0) g_pushed = 1; else g_pushed = 2;
	}
	static inline container::iterator place(const container* c, unsigned n) { if (n >= v_length) return container::iterator(c, PAGE, vmem_item_pos_nil, vmem_iterator_edge::end, nullptr); return container::iterator(c, PAGE, (vmem_item_pos_t)n, vmem_iterator_edge::none, nullptr); }
	template <> container::iterator container::begin() noexcept { return place(this, 0); }
	template <> container::const_iterator container::begin() const noexcept { return place(this, 0); }
	template <> container::const_iterator container::cbegin() const noexcept { return place(this, 0); }
	template <> container::iterator container::next(const container::iterator_state& i) const noexcept { unsigned p = i._item_pos; vf_assert(p == v_place, "[read] reading goes on from the character that was read"); return place(this, p + 1); }
	template <> char& container::iterator::deref() const { unsigned p = this->_item_pos; vf_assert(p == v_place, "[read] characters are read in their order"); if (vf_nondet_bool()) { g_took = 2; throw std::runtime_error("read"); } g_took = 1; return v_char; }
	template <> const char& container::const_iterator::deref() const { unsigned p = this->_item_pos; vf_assert(p == v_place, "[read] characters are read in their order"); if (vf_nondet_bool()) { g_took = 2; throw std::runtime_error("read"); } g_took = 1; return v_char; }
}
static inline void init() { g_pushed = g_thrown = g_took = g_pending = g_ahead = g_eof = g_last = 0; v_length = vf_nondet_u16(); vf_assume(v_length < 65535); v_char = vf_nondet_char(); }
// a stream in any state: the next character to read is at v_place, and one may be held in either direction
static inline buf* used(void* mem, string* s) {
	init(); v_place = 0;
	buf* b = new (mem) buf(s, nullptr);
	vf_assert(b->gptr() == b->egptr(), "[read] nothing is held for reading at first"); vf_assert(b->pptr() == b->pbase(), "[append] nothing is held to be appended at first"); vf_assert(b->pptr() + 1 == b->epptr(), "[append] one character is held at a time");
	if (vf_nondet_bool()) { // something was read before
		v_place = vf_nondet_u16(); vf_assume(v_place >= 1); if (vf_nondet_bool()) { g_last = 1; vf_assume(v_place < v_length); b->_get_itr = place(s, v_place); } else { g_last = 2; v_place = v_length; b->_get_itr = place(s, v_place); }
		if (vf_nondet_bool()) { g_ahead = 1; b->_get_ch = vf_nondet_char(); b->setg(&b->_get_ch, &b->_get_ch, &b->_get_ch + 1); }
		else { g_ahead = 2; b->_get_ch = vf_nondet_char(); b->setg(&b->_get_ch, &b->_get_ch + 1, &b->_get_ch + 1); }
	}
	if (vf_nondet_bool()) { g_pending = 1; b->_put_ch = vf_nondet_char(); b->pbump(1); }
	return b;
}
extern "C" void H_make(string* s) {
	alignas(buf) char mem[sizeof(buf)]; init();
	try { new (mem) buf(s, nullptr); vf_assert(s != nullptr, "[read] a stream needs a string"); vf_reach("must: end"); } catch (const std::logic_error&) { vf_assert(s == nullptr, "[read] only a stream without a string is refused"); vf_reach("must: refused"); }
}
extern "C" void H_put(string& s, char c) {
	alignas(buf) char mem[sizeof(buf)]; buf* b = used(mem, &s); int held = b->_put_ch, now = c;
	try {
		int r = vf_putc(*b, c);
		vf_assert(r == (unsigned char)c, "[append] a character that is written is reported as written");
		if (g_pending == 0) { vf_assert(g_pushed == 0, "[append] a character is held"); char* p = b->pptr(); vf_assert(p == b->pbase() + 1, "[append] a character is held once"); int k = p[-1]; vf_assert(k == now, "[append] the character that was written is held"); vf_reach("must: held"); }
		else {
			if (g_pushed == 1) { vf_assert(v_push0 == held, "[append] characters are appended in their order"); char* p = b->pptr(); vf_assert(p == b->pbase() + 1, "[append] a character is held once"); int k = p[-1]; vf_assert(k == now, "[append] the character that was written is held"); }
			else { vf_assert(g_pushed == 2, "[append] a character that was written is held or appended"); vf_assert(v_push0 == held, "[append] characters are appended in their order"); vf_assert(v_push1 == now, "[append] the character that was written is appended"); vf_assert(b->pptr() == b->pbase(), "[append] a character that was appended is not held any more"); }
			vf_reach("must: appended");
		}
	}
	catch (const std::runtime_error&) { vf_assert(g_thrown == 1, "[append] writing fails only with the string"); if (g_pushed == 1) vf_assert(b->pptr() == b->pbase(), "[append] a character that was appended is not held any more"); vf_reach("must: failed"); }
}
extern "C" void H_put_end(string& s) { // nothing to write but what is held
	alignas(buf) char mem[sizeof(buf)]; buf* b = used(mem, &s); int held = b->_put_ch; vf_assume(g_pending == 1);
	try { int r = b->buf::overflow(std::char_traits<char>::eof()); vf_assert(g_pushed <= 1, "[append] the end of a text is no character"); if (g_pushed == 1) { vf_assert(v_push0 == held, "[append] what is held is appended"); vf_assert(b->pptr() == b->pbase(), "[append] a character that was appended is not held any more"); } vf_assert(r != -1, "[append] room was made"); vf_reach("must: end"); }
	catch (const std::runtime_error&) { vf_assert(g_thrown == 1, "[append] writing fails only with the string"); vf_reach("must: failed"); }
}
extern "C" void H_sync(string& s) {
	alignas(buf) char mem[sizeof(buf)]; buf* b = used(mem, &s); int held = b->_put_ch;
	try { int r = b->buf::sync(); vf_assert(r == 0, "[append] what is held is appended on demand"); vf_assert(g_pushed == g_pending, "[append] what is held is appended on demand, and nothing else"); if (g_pushed == 1) vf_assert(v_push0 == held, "[append] what is held is appended"); vf_assert(b->pptr() == b->pbase(), "[append] a character that was appended is not held any more"); vf_reach("must: end"); }
	catch (const std::runtime_error&) { vf_assert(g_thrown == 1, "[append] writing fails only with the string"); vf_reach("must: failed"); }
}
extern "C" void H_get(string& s) {
	alignas(buf) char mem[sizeof(buf)]; buf* b = used(mem, &s); vf_assume(g_ahead != 1);
	if (vf_nondet_bool()) { g_eof = 1; vf_assume(v_place >= v_length); } else if (vf_nondet_bool()) { g_eof = 0; vf_assume(v_place + 1 < v_length); } else { g_eof = 2; vf_assume(v_place + 1 == v_length); }
	try {
		int r = b->buf::underflow();
		if (g_eof == 1) { vf_assert(r == -1, "[read] reading ends at the end of the string"); vf_assert(g_took == 0, "[read] nothing is read beyond the end"); vf_reach("must: end"); }
		else {
			vf_assert(g_took == 1, "[read] a character is read while there is one"); int want = (unsigned char)v_char; vf_assert(r == want, "[read] every character is told from the end of the string");
			char* p = b->gptr(); vf_assert(p + 1 == b->egptr(), "[read] one character is held for reading"); int k = *p, w = v_char; vf_assert(k == w, "[read] the character of the string is held for reading");
			unsigned n = b->_get_itr._item_pos; if (g_eof == 0) vf_assert(n == v_place + 1, "[read] the next character is read next"); else vf_assert(!b->_get_itr.can_deref(), "[read] the last character is read once"); vf_reach("must: done");
		}
	}
	catch (const std::runtime_error&) { vf_assert(g_took == 2, "[read] reading fails only with the string"); vf_reach("must: failed"); }
}
extern "C" void H_move(string& s) {
	alignas(buf) char mem[sizeof(buf)]; buf* b = used(mem, &s); int put = b->_put_ch, get = b->_get_ch; unsigned n = b->_get_itr._item_pos; auto* st = b->_string;
	alignas(buf) char mem2[sizeof(buf)]; buf* t = new (mem2) buf(std::move(*b));
	auto* st2 = t->_string; vf_assert(st2 == st, "[moved] the string is the same"); vf_assert(b->_string == nullptr, "[moved] the original lets go of the string");
	char* p = t->pptr(); if (g_pending == 1) { vf_assert(p == t->epptr(), "[moved] what was written is still to be appended"); int k = p[-1]; vf_assert(k == put, "[moved] what was written stays as it is"); } else { vf_assert(p == t->pbase(), "[moved] nothing is appended that was not written"); vf_assert(p + 1 == t->epptr(), "[moved] one character is held at a time"); }
	char* q = t->gptr(); if (g_ahead == 1) { vf_assert(q + 1 == t->egptr(), "[moved] what was read ahead is still to be read"); int k = *q; vf_assert(k == get, "[moved] what was read ahead stays as it is"); } else vf_assert(q == t->egptr(), "[moved] nothing is read twice");
	unsigned n2 = t->_get_itr._item_pos; vf_assert(n2 == n, "[moved] reading goes on where it was");
	char* own = &t->_put_ch; vf_assert(t->pbase() == own, "[moved] a stream holds its own characters"); if (g_ahead == 1) { own = &t->_get_ch; vf_assert(q == own, "[moved] a stream holds its own characters"); }
	vf_reach("must: end");
}
