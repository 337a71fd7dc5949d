// GPIO chips and lines: what is asked of the device, what is reported, who owns the descriptors.
// absint:
#include "vf_gpio.h"
#include "gpio.h"
#undef open
#undef close
#undef ioctl
#undef mutex
typedef abc::gpio_chip<vf_log> chip;
typedef abc::gpio_line<vf_log> line;
extern "C" {
	int g_took;             // the request: 0 not made, 1 done, 2 refused
	int g_pin;              // the level of the pin
	unsigned v_pos; unsigned long long v_flags; int v_line; const char* v_consumer;
}
void vf_locked() {}
void vf_unlocking() {}
int vf_request(int fd, unsigned long request, void* data, long) {
	vf_used(fd);
	if (request == GPIO_GET_CHIPINFO_IOCTL) { if (vf_nondet_bool()) { g_took = 2; return -1; } g_took = 1; return 0; }
	if (request == GPIO_V2_GET_LINEINFO_IOCTL) {
		unsigned at = ((gpio_v2_line_info*)data)->offset; vf_assert(at == v_pos, "[line] the line that is asked about");
		if (vf_nondet_bool()) { g_took = 2; return -1; } g_took = 1; return 0;
	}
	if (request == GPIO_V2_GET_LINE_IOCTL) {
		gpio_v2_line_request* r = (gpio_v2_line_request*)data;
		unsigned n = r->num_lines, at = r->offsets[0]; unsigned long long flags = r->config.flags;
		vf_assert(n == 1, "[line] one line is requested"); vf_assert(at == v_pos, "[line] the line that is requested"); vf_assert(flags == v_flags, "[line] the direction that is requested");
		vf_is_text(r->consumer, "the name of the consumer is terminated");
		if (vf_nondet_bool()) { g_took = 2; return -1; } g_took = 1; r->fd = vf_fd(); return 0;
	}
	gpio_v2_line_values* v = (gpio_v2_line_values*)data;
	vf_assert(fd == v_line, "[line] the level of the line itself");
	unsigned long long mask = v->mask; vf_assert(mask == 1, "[level] the level of one line");
	if (request == GPIO_V2_LINE_GET_VALUES_IOCTL) {
		if (vf_nondet_bool()) { g_took = 2; return -1; }
		g_took = 1; if (vf_nondet_bool()) { g_pin = 1; v->bits = 1; } else { g_pin = 0; v->bits = 0; }
		return 0;
	}
	vf_assert(request == GPIO_V2_LINE_SET_VALUES_IOCTL, "[level] a level is put");
	unsigned long long bits = v->bits;
	if (vf_nondet_bool()) { g_took = 2; return -1; }
	g_took = 1; if (bits == 0) g_pin = 0; else if (bits == 1) g_pin = 1; else g_pin = 3;
	return 0;
}
static inline void init() { g_fd0 = g_fd1 = g_fd2 = g_first = g_locked = g_took = 0; g_pin = 2; }
static inline void opened(line* l) { vf_assert(vf_live() == 1, "[fd] a line has one descriptor"); vf_used(l->_fd); vf_assert(g_took == 1, "[line] a line that is made was requested"); }
static inline void named(chip& c) { vf_text(c._path); vf_text(c._consumer); }
template <typename Line, bool named_chip> static inline void make(const chip* c, unsigned pos, unsigned long long flags, vf_log* log) {
	init(); v_pos = pos; v_flags = flags;
	alignas(Line) char mem[sizeof(Line)];
	try {
		Line* l = new (mem) Line(c, pos, log);
		opened(l); vf_reach("must: end");
		l->Line::~Line();
		vf_assert(vf_live() == 0, "[fd] the descriptor is closed with the line");
	}
	catch (const std::exception&) { vf_assert(vf_live() == 0, "[fd] a line that could not be made keeps no descriptor"); vf_reach("must: failed"); }
}
extern "C" void H_input(chip& c, unsigned pos, vf_log* log) { named(c); make<abc::gpio_input_line<vf_log>, true>(&c, pos, GPIO_V2_LINE_FLAG_INPUT, log); }
extern "C" void H_output(chip& c, unsigned pos, vf_log* log) { named(c); make<abc::gpio_output_line<vf_log>, true>(&c, pos, GPIO_V2_LINE_FLAG_OUTPUT, log); }
extern "C" void H_none(unsigned pos, vf_log* log) {
	init(); v_pos = pos; v_flags = 0; alignas(line) char mem[sizeof(line)];
	try { new (mem) line((chip*)nullptr, pos, 0, log); vf_assert(false, "[line] a line needs a chip"); } catch (const std::exception&) { vf_reach("must: failed"); }
}
extern "C" void H_flags(chip& c, unsigned pos, unsigned long long flags, vf_log* log) {
	named(c); init(); v_pos = pos; v_flags = flags; alignas(line) char mem[sizeof(line)];
	try { line* l = new (mem) line(&c, pos, flags, log); opened(l); vf_reach("must: end"); } catch (const std::exception&) { vf_assert(vf_live() == 0, "[fd] a line that could not be made keeps no descriptor"); }
}
extern "C" void H_move(line& a) {
	init(); g_fd1 = 1; a._fd = 5; alignas(line) char mem[sizeof(line)];
	line* l = new (mem) line(std::move(a));
	vf_assert(vf_live() == 1, "[fd] a move closes nothing"); vf_used(l->_fd);
	if (vf_nondet_bool()) { a.line::~line(); vf_assert(vf_live() == 1, "[fd] what was moved from owns nothing"); l->line::~line(); }
	else { l->line::~line(); vf_assert(vf_live() == 0, "[fd] the descriptor moves along"); a.line::~line(); }
	vf_assert(vf_live() == 0, "[fd] the descriptor is closed once"); vf_reach("must: end");
}
static inline void ready(line& a) { init(); g_fd0 = 1; a._fd = 0; v_line = 0; }
extern "C" void H_get(line& a) {
	ready(a); unsigned r = a.get_level();
	if (g_took == 1) { if (g_pin == 1) vf_assert(r == 1, "[level] the level of the pin is returned"); else vf_assert(r == 0, "[level] the level of the pin is returned"); vf_reach("must: done"); }
	else { vf_assert(g_took == 2, "[level] the pin is read"); vf_assert(r == 2, "[level] a level that could not be read is invalid"); vf_reach("must: failed"); }
}
static inline void put(line& a, unsigned level) {
	unsigned r = a.put_level(level);
	if (g_took == 1) { vf_assert(r == level, "[level] a level that was put is returned"); vf_assert(g_pin == (int)level, "[level] the level that is put"); vf_reach("must: done"); }
	else { vf_assert(g_took == 2, "[level] the pin is set"); vf_assert(r == 2, "[level] a level that could not be put is invalid"); vf_reach("must: failed"); }
}
extern "C" void H_put_low(line& a) { ready(a); put(a, 0); }
extern "C" void H_put_high(line& a) { ready(a); put(a, 1); }
extern "C" void H_put_invalid(line& a, unsigned level) { ready(a); vf_assume(level >= 2); unsigned r = a.put_level(level); vf_assert(g_took == 0, "[level] only a level is put"); vf_assert(r == 2, "[level] what is no level is invalid"); vf_reach("must: end"); }
template <int level> static inline void expect(line& a) {
	ready(a); unsigned r = a.expect_level(level, std::chrono::microseconds(vf_nondet_u16()));
	if (r == level) { vf_assert(g_took == 1, "[level] a level that is seen was read"); vf_assert(g_pin == level, "[level] only the level that is expected ends the wait in success"); vf_reach("must: done"); }
	else { vf_assert(r == 2, "[level] a level that is not seen is invalid"); vf_assert(g_took == 2 || g_pin == 1 - level, "[level] a level that is seen is reported"); vf_reach("must: failed"); }
}
extern "C" void H_expect_low(line& a) { expect<0>(a); }
extern "C" void H_expect_high(line& a) { expect<1>(a); }
extern "C" void H_chip(const char* path, const char* consumer, vf_log* log) {
	init(); if (path != nullptr) vf_cstring(path); if (consumer != nullptr) vf_cstring(consumer); alignas(chip) char mem[sizeof(chip)];
	try {
		chip* c = new (mem) chip(path, consumer, log);
		vf_is_text(c->_path, "the path of a chip is terminated"); vf_is_text(c->_consumer, "the name of the consumer is terminated"); vf_reach("must: end");
	}
	catch (const std::exception&) { vf_reach("must: failed"); }
	vf_assert(vf_live() == 0, "[fd] a chip keeps no descriptor");
}
extern "C" void H_chip_position(int position, const char* consumer, vf_log* log) {
	init(); if (consumer != nullptr) vf_cstring(consumer); alignas(chip) char mem[sizeof(chip)];
	try { chip* c = new (mem) chip(position, consumer, log); vf_is_text(c->_path, "the path of a chip is terminated"); vf_reach("must: end"); }
	catch (const std::exception&) { }
	vf_assert(vf_live() == 0, "[fd] a chip keeps no descriptor");
}
template <typename Info> static inline void asked(const Info& i) {
	vf_assert(vf_live() == 0, "[fd] asking for information keeps no descriptor");
	if (i.is_valid) { vf_assert(g_took == 1, "[info] information that is valid was delivered"); vf_reach("must: done"); } else { vf_assert(g_took != 1, "[info] information that was delivered is valid"); vf_reach("must: failed"); }
}
extern "C" void H_chip_info(chip& c) { named(c); init(); abc::gpio_chip_info i = c.chip_info(); asked(i); }
extern "C" void H_line_info(chip& c, unsigned pos) { named(c); init(); v_pos = pos; abc::gpio_line_info i = c.line_info(pos); asked(i); }
