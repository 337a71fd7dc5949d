// std::basic_streambuf<char> as far as its subclasses see it: the three pointers of the get
// area and of the put area. getc/peekc/putc do what sbumpc/sgetc/sputc do.
#pragma once
#include <streambuf>
#include "vf.h"
#define SB "_ZNSt15basic_streambufIcSt11char_traitsIcEE"
#define KSB "_ZNKSt15basic_streambufIcSt11char_traitsIcEE"
typedef std::streambuf vf_sb;
extern "C" void m_sb1(vf_sb*) VF_MODEL(SB "C2Ev");
void m_sb1(vf_sb* s) { s->_M_in_beg = s->_M_in_cur = s->_M_in_end = nullptr; s->_M_out_beg = s->_M_out_cur = s->_M_out_end = nullptr; }
extern "C" void m_sb2(vf_sb*) VF_MODEL(SB "D2Ev");
void m_sb2(vf_sb*) {}
extern "C" void m_sb3(vf_sb*, char*, char*, char*) VF_MODEL(SB "4setgEPcS3_S3_");
void m_sb3(vf_sb* s, char* a, char* b, char* c) { s->_M_in_beg = a; s->_M_in_cur = b; s->_M_in_end = c; }
extern "C" void m_sb4(vf_sb*, char*, char*) VF_MODEL(SB "4setpEPcS3_");
void m_sb4(vf_sb* s, char* a, char* b) { s->_M_out_beg = s->_M_out_cur = a; s->_M_out_end = b; }
extern "C" char* m_sb5(const vf_sb*) VF_MODEL(KSB "5ebackEv");
char* m_sb5(const vf_sb* s) { return s->_M_in_beg; }
extern "C" char* m_sb6(const vf_sb*) VF_MODEL(KSB "4gptrEv");
char* m_sb6(const vf_sb* s) { return s->_M_in_cur; }
extern "C" char* m_sb7(const vf_sb*) VF_MODEL(KSB "5egptrEv");
char* m_sb7(const vf_sb* s) { return s->_M_in_end; }
extern "C" char* m_sb8(const vf_sb*) VF_MODEL(KSB "5pbaseEv");
char* m_sb8(const vf_sb* s) { return s->_M_out_beg; }
extern "C" char* m_sb9(const vf_sb*) VF_MODEL(KSB "4pptrEv");
char* m_sb9(const vf_sb* s) { return s->_M_out_cur; }
extern "C" char* m_sb10(const vf_sb*) VF_MODEL(KSB "5epptrEv");
char* m_sb10(const vf_sb* s) { return s->_M_out_end; }
extern "C" void m_sb11(vf_sb*, int) VF_MODEL(SB "5gbumpEi");
void m_sb11(vf_sb* s, int n) { s->_M_in_cur += n; }
extern "C" void m_sb12(vf_sb*, int) VF_MODEL(SB "5pbumpEi");
void m_sb12(vf_sb* s, int n) { s->_M_out_cur += n; }

template <typename B> static inline int vf_getc(B& b) { // sbumpc
	vf_sb* s = &b;
	if (s->_M_in_cur < s->_M_in_end) { unsigned char c = *s->_M_in_cur; s->_M_in_cur++; return c; }
	int r = b.B::underflow();
	if (r == -1) return -1;
	vf_assert(s->_M_in_cur < s->_M_in_end, "[sb] a character that is announced is in the get area");
	unsigned char c = *s->_M_in_cur; s->_M_in_cur++; return c;
}
template <typename B> static inline int vf_peekc(B& b) { // sgetc
	vf_sb* s = &b;
	if (s->_M_in_cur < s->_M_in_end) return (unsigned char)*s->_M_in_cur;
	return b.B::underflow();
}
template <typename B> static inline int vf_putc(B& b, char c) { // sputc
	vf_sb* s = &b;
	if (s->_M_out_cur < s->_M_out_end) { *s->_M_out_cur = c; s->_M_out_cur++; return (unsigned char)c; }
	return b.B::overflow((unsigned char)c);
}
