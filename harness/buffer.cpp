// Streams over memory: the areas they read and write.
// absint:
#include "vf_sbuf.h"
#include "buffer_streambuf.h"
typedef abc::buffer_streambuf buf;
extern "C" { int g_move; }
static inline unsigned long up(unsigned long most) { unsigned long x = vf_nondet_size(); vf_assume(x <= most); return x; }
#define AREAS(T) \
	vf_assert(s->eback() == ga, "[" T "] what is read begins where it should"); vf_assert(s->gptr() == gc, "[" T "] what is read next is right"); vf_assert(s->egptr() == gb, "[" T "] what is read ends where it should"); \
	vf_assert(s->pbase() == pa, "[" T "] what is written begins where it should"); vf_assert(s->pptr() == pc, "[" T "] what is written next is right"); vf_assert(s->epptr() == pb, "[" T "] what is written ends where it should"); vf_reach("must: end");
static inline void areas(const buf* s, const char* ga, const char* gc, const char* gb, const char* pa, const char* pc, const char* pb) { AREAS("area") }
static inline void places(const buf* s, const char* ga, const char* gc, const char* gb, const char* pa, const char* pc, const char* pb) { AREAS("place") }
extern "C" void H_positions(char* g, char* p) {
	unsigned long gb = up(1ul << 40), ga = up(gb), pb = up(1ul << 40), pa = up(pb); char* gg = vf_nondet_bool() ? g : nullptr; char* pp = vf_nondet_bool() ? p : nullptr;
	if (!gg) { vf_assume(gb == 0); ga = gb = 0; } if (!pp) { vf_assume(pb == 0); pa = pb = 0; }
	buf s(gg, ga, gb, pp, pa, pb);
	areas(&s, gg + ga, gg + ga, gg + gb, pp + pa, pp + pa, pp + pb);
}
extern "C" void H_pointers(char* g, char* p) {
	unsigned long gb = up(1ul << 40), ga = up(gb), pb = up(1ul << 40), pa = up(pb);
	buf s(g + ga, g + gb, p + pa, p + pb);
	areas(&s, g + ga, g + ga, g + gb, p + pa, p + pa, p + pb);
}
extern "C" void H_move(char* g, char* p) {
	unsigned long gb = up(1ul << 30), gc = up(gb), ga = up(gc), pb = up(1ul << 30), pc = up(pb), pa = up(pc);
	buf s(g + ga, g + gb, p + pa, p + pb);
	s.gbump((int)(gc - ga)); s.pbump((int)(pc - pa));
	vf_assert(s.gptr() == g + gc, "[place] a");
	buf t(std::move(s));
	places(&t, g + ga, g + gc, g + gb, p + pa, p + pc, p + pb);
}
extern "C" void H_move_none() {
	buf s(nullptr, nullptr, nullptr, nullptr);
	buf t(std::move(s));
	places(&t, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr);
}
