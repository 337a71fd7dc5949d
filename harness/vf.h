// Vocabulary of the harnesses. Nothing here is ever executed: the harnesses are
// compiled to LLVM IR and analysed by engine/absint.
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
	void vf_assume(bool c) noexcept;                     // restrict the abstract state
	void vf_assert(bool c, const char* what) noexcept;   // obligation: must hold in every abstract state
	void vf_reach(const char* what) noexcept;            // must be reachable (vacuity guard)
	void vf_region(const void* p, std::size_t size) noexcept; // p points to a buffer of exactly size bytes
	void vf_cstring(const void* p) noexcept;             // p points to a terminated string of unknown length
	void vf_text(const void* p) noexcept;                // a terminator exists at p or after it
	void vf_is_text(const void* p, const char* what) noexcept; // obligation: a terminator exists at p or after it
	void vf_is_text_n(const void* p, std::size_t size, const char* what) noexcept; // ... among the next size characters
	void vf_havoc(const void* p) noexcept;               // memory reachable from p becomes unknown
	void vf_key(const void* p) noexcept;                 // states are kept apart by the contents of this memory
	void vf_stop() noexcept;                             // this path ends here
	void vf_dump(const char* what, ...) noexcept;
	int vf_nondet_int() noexcept;
	bool vf_nondet_bool() noexcept;
	unsigned char vf_nondet_uchar() noexcept;
	char vf_nondet_char() noexcept;
	std::size_t vf_nondet_size() noexcept;
	long vf_nondet_long() noexcept;
	std::uint64_t vf_nondet_u64() noexcept;
	std::uint16_t vf_nondet_u16() noexcept;
	void* vf_nondet_ptr() noexcept;
}

#define VF_MODEL(mangled) __asm__("vfm." mangled)
// the environment reads or fills a buffer of this size
static inline void vf_load(const void* p, std::size_t size) { if (size != 0) { const volatile char* c = (const volatile char*)p; (void)c[0]; (void)c[size - 1]; } }
template <std::size_t N> static inline void vf_is_text(const char (&a)[N], const char* what) { vf_is_text_n(a, N, what); }
static inline void vf_store(void* p, std::size_t size) { __builtin_memset(p, vf_nondet_uchar(), size); }
