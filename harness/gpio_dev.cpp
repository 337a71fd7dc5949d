// Devices on GPIO lines and on an SMBus: what is put where, what is measured, the threads that help.
// absint: --count 30
#include "vf_gpio.h"
extern "C" {
	int g_thread;            // the helper thread: 0 none, 1 running, 2 ended
	int g_told, g_published; // waiting threads were notified; what they wait for was set under the lock
	int g_level;             // of the line: 2 unknown
}
void vf_sleeping();          // what has to hold when a thread goes to sleep
void vf_joining();           // ... when a thread is waited for
void vf_notifying();         // ... when a thread is woken up
struct vf_bad_function { template <typename... A> void operator()(A...) const {} };
namespace std {
	struct vf_thread {
		int running;
		vf_thread() noexcept : running(0) {}
		template <typename F, typename A> vf_thread(F, A) : running(1) { if (vf_nondet_bool()) throw std::runtime_error("thread"); vf_assert(g_thread == 0, "[thread] one helper thread"); g_thread = 1; }
		vf_thread(vf_thread&& o) noexcept : running(o.running) { o.running = 0; }
		vf_thread& operator=(vf_thread&& o) noexcept { vf_assert(running == 0, "[thread] no running thread is left to itself"); running = o.running; o.running = 0; return *this; }
		bool joinable() const { return running != 0; }
		void join() { vf_assert(running == 1, "[thread] only a running thread is waited for"); vf_joining(); running = 0; g_thread = 2; }
		~vf_thread() { vf_assert(running == 0, "[thread] no running thread is left to itself"); }
	};
	struct vf_condition {
		void notify_one() noexcept { vf_notifying(); }
		void notify_all() noexcept { vf_notifying(); }
		template <typename L> void wait(L&) { vf_sleeping(); vf_locked(); }
		template <typename L, typename P> void wait(L&, P done) { while (!done()) { vf_sleeping(); vf_locked(); } }
		template <typename L, typename D> std::cv_status wait_for(L&, const D&) { vf_sleeping(); vf_locked(); return std::cv_status::timeout; }
		template <typename L, typename D, typename P> bool wait_for(L&, const D&, P done) { vf_sleeping(); vf_locked(); return done(); }
	};
}
#define thread vf_thread
#define condition_variable vf_condition
#include "gpio.h"
#undef open
#undef close
#undef ioctl
#undef mutex
#undef thread
#undef condition_variable
struct vf_slog : vf_log {};
typedef abc::gpio_smbus<vf_slog> bus;
typedef abc::gpio_smbus_target<vf_slog> target;
typedef abc::gpio_smbus_pwm<vf_slog> pwm;
typedef abc::gpio_smbus_motion<vf_slog> motion;
typedef abc::gpio_smbus_grayscale<vf_slog> grayscale;
typedef abc::gpio_line<vf_slog> line;
typedef abc::gpio_pwm_emulator<vf_slog> emulator;
typedef abc::gpio_smbus_motion_tracker<std::milli, vf_slog> tracker;
extern "C" {
	int g_took;      // the read that is looked at: 0 not done, 1 done, 2 refused
	int g_sign;
	int g_puts;      // values that were put
	const bus* v_bus; unsigned char v_addr;
	unsigned v_reg0, v_reg1, v_reg2, v_value; int v_want; unsigned v_word; unsigned v_focus, v_last;
	tracker* v_tracker; emulator* v_emulator; int v_seen;
}
int vf_request(int, unsigned long, void*, long) { return -1; }
static inline void to(const bus* b, const target& t) { unsigned char a = t._addr; vf_assert(b == v_bus, "[device] a device is on its bus"); vf_assert(a == v_addr, "[device] a device is spoken to at its address"); }
namespace abc {
	template <> bool bus::put_byte(const target& t, gpio_smbus_register_t, std::uint8_t) noexcept { to(this, t); return vf_nondet_bool(); }
	template <> bool bus::put_word(const target& t, gpio_smbus_register_t reg, std::uint16_t word) noexcept {
		to(this, t); unsigned r = reg; v_value = word;
		if (v_want == 1) { vf_assert(g_puts == 0, "[duty] a duty cycle is put once"); vf_assert(r == v_reg0, "[duty] a duty cycle is put in its register"); g_puts = 1; }
		if (v_want == 2) { if (r == v_reg1) g_puts = g_puts | 1; if (r == v_reg2) g_puts = g_puts | 2; }
		if (v_want == 3) v_last = r;
		return vf_nondet_bool();
	}
	template <> bool bus::get_word(const target& t, gpio_smbus_register_t reg, std::uint16_t& word) noexcept {
		to(this, t); unsigned r = reg;
		if (v_want == 4) { word = (std::uint16_t)v_word; return true; }
		if (r == v_focus) { vf_assert(g_took == 0, "[motion] a channel is read once"); if (vf_nondet_bool()) { g_took = 2; return false; } g_took = 1; word = (std::uint16_t)v_word; return true; }
		if (vf_nondet_bool()) return false;
		word = vf_nondet_u16(); return true;
	}
	template <> bool bus::get_noreg_2(const target& t, std::uint16_t& word) noexcept {
		to(this, t);
		if (v_last == v_focus) { vf_assert(g_took == 0, "[gray] a sensor is read once"); if (vf_nondet_bool()) { g_took = 2; return false; } g_took = 1; word = (std::uint16_t)v_word; return true; }
		if (vf_nondet_bool()) return false;
		word = vf_nondet_u16(); return true;
	}
	template <> line::gpio_line(const gpio_chip<vf_slog>*, gpio_line_pos_t, gpio_line_flags_t, vf_slog*) : _log(nullptr) { if (vf_nondet_bool()) throw std::runtime_error("line"); }
	template <> gpio_level_t line::put_level(gpio_level_t level) const noexcept { if (level == 0) g_level = 0; else if (level == 1) g_level = 1; else g_level = 2; return level; }
}
extern "C" { int g_after, g_quit, g_run, g_slept, g_duty; int v_told; }
static inline void change() {
	if (vf_nondet_bool()) { v_emulator->_duty_cycle = 0; g_duty = 0; } else if (vf_nondet_bool()) { v_emulator->_duty_cycle = 100; g_duty = 100; } else { unsigned short d = vf_nondet_u16(); vf_assume(d >= 1); vf_assume(d <= 99); v_emulator->_duty_cycle = d; g_duty = 50; }
	if (g_quit == 0) { if (vf_nondet_bool()) { v_emulator->_quit = true; g_quit = 1; } else v_emulator->_quit = false; }
}
static inline void init() { g_fd0 = g_fd1 = g_fd2 = g_first = g_locked = g_thread = g_told = g_published = g_took = g_puts = 0; g_level = 2; v_want = 0; v_focus = 999; v_last = 998; v_tracker = nullptr; v_emulator = nullptr; }

// ---- pulses of a chip
static inline void at(const bus* b, const target& t) { init(); v_bus = b; v_addr = t._addr; }
extern "C" void H_pwm(bus& b, target& t, unsigned short frequency, vf_slog* log) {
	at(&b, t); v_want = 2; v_reg0 = 1; v_reg1 = 2; v_reg2 = 3; vf_assume(t._clock_frequency <= 1000000000);
	alignas(pwm) char mem[sizeof(pwm)];
	try { new (mem) pwm(&b, t, frequency, 1, 2, 3, log); vf_assert(g_puts == 3, "[duty] the period is put in its registers"); vf_reach("must: end"); } catch (const std::exception&) { vf_reach("must: failed"); }
}
extern "C" void H_pwm_width(bus* b, target& t, std::uint32_t least, std::uint32_t most, unsigned short frequency, vf_slog* log) {
	at(b, t); v_want = 2; v_reg0 = 1; v_reg1 = 2; v_reg2 = 3; vf_assume(t._clock_frequency <= 1000000000);
	alignas(pwm) char mem[sizeof(pwm)];
	try { new (mem) pwm(b, t, std::chrono::microseconds(least), std::chrono::microseconds(most), frequency, 1, 2, 3, log); vf_assert(b != nullptr, "[device] a device needs a bus"); vf_assert(g_puts == 3, "[duty] the period is put in its registers"); vf_reach("must: end"); } catch (const std::exception&) { vf_reach("must: failed"); }
}
static inline unsigned short duty(pwm& p, bus& b) { p._smbus = &b; at(&b, p._smbus_target); v_want = 1; v_reg0 = p._reg_pwm; vf_assume(p._autoreload >= 1); vf_assume(p._autoreload <= 65535); return (unsigned short)p._autoreload; }
extern "C" void H_duty_min(pwm& p, bus& b) { duty(p, b); p.set_duty_cycle(0); vf_assert(g_puts == 1, "[duty] a duty cycle is put"); vf_assert(v_value == 0, "[duty] no duty is no pulse"); vf_reach("must: end"); }
extern "C" void H_duty_max(pwm& p, bus& b, unsigned short d) { unsigned whole = duty(p, b); vf_assume(d >= 100); p.set_duty_cycle(d); vf_assert(g_puts == 1, "[duty] a duty cycle is put"); vf_assert(v_value == whole, "[duty] full duty is the whole period"); vf_reach("must: end"); }
extern "C" void H_duty_some(pwm& p, bus& b, unsigned short d) { duty(p, b); p.set_duty_cycle(d); vf_assert(g_puts == 1, "[duty] a duty cycle is put"); vf_reach("must: end"); }

// ---- a motion sensor
extern "C" void H_motion(bus* b, target& t, vf_slog* log) {
	at(b, t); alignas(motion) char mem[sizeof(motion)];
	try { new (mem) motion(b, t, log); vf_assert(b != nullptr, "[device] a device needs a bus"); vf_reach("must: end"); } catch (const std::exception&) { vf_reach("must: failed"); }
}
typedef abc::gpio_smbus_motion_measurements measured;
static inline int some() { v_word = vf_nondet_u16(); if (vf_nondet_bool()) { vf_assume(v_word <= 32767); g_sign = 1; return (int)v_word; } vf_assume(v_word >= 32768); g_sign = 2; return (int)v_word - 65536; }
template <int bit, unsigned reg, short measured::*field> static inline void channel(motion& m, bus& b, bool all) {
	m._smbus = &b; at(&b, m._smbus_target); v_focus = reg; int value = some(); measured r;
	if (vf_nondet_bool()) { m.get_measurements(all ? 0x7f : bit, r); vf_assert(g_took != 0, "[motion] a channel that is asked for is read"); }
	else { m.get_measurements((all ? 0x7f : 0) & ~bit, r); vf_assert(g_took == 0, "[motion] only a channel that is asked for is read"); }
	short v = r.*field;
	if (g_took == 1) { vf_assert(v == value, "[motion] a measurement is what its channel measured"); vf_reach("must: done"); } else { vf_assert(v == 0, "[motion] a channel that was not read measured nothing"); vf_reach("must: failed"); }
}
extern "C" void H_accel_x(motion& m, bus& b) { channel<1, 0x3b, &measured::accel_x>(m, b, true); }
extern "C" void H_accel_y(motion& m, bus& b) { channel<2, 0x3d, &measured::accel_y>(m, b, true); }
extern "C" void H_accel_z(motion& m, bus& b) { channel<4, 0x3f, &measured::accel_z>(m, b, true); }
extern "C" void H_gyro_x(motion& m, bus& b) { channel<8, 0x43, &measured::gyro_x>(m, b, true); }
extern "C" void H_gyro_y(motion& m, bus& b) { channel<16, 0x45, &measured::gyro_y>(m, b, true); }
extern "C" void H_gyro_z(motion& m, bus& b) { channel<32, 0x47, &measured::gyro_z>(m, b, true); }
extern "C" void H_temperature(motion& m, bus& b) { channel<64, 0x41, &measured::temperature>(m, b, true); }
extern "C" void H_calibrate(motion& m, bus& b) {
	m._smbus = &b; at(&b, m._smbus_target); v_want = 4; int still = some();
	m.calibrate(abc::gpio_smbus_motion_channel::accel_x);
	short c = m._calibration.accel_x; vf_assert(c == still, "[motion] a sensor at rest is calibrated to what it measures"); vf_reach("must: end");
}
extern "C" void H_calibrate_gyro(motion& m, bus& b) {
	m._smbus = &b; at(&b, m._smbus_target); v_want = 4; int still = some();
	m.calibrate(abc::gpio_smbus_motion_channel::gyro_z);
	short c = m._calibration.gyro_z; vf_assert(c == still, "[motion] a sensor at rest is calibrated to what it measures"); vf_reach("must: end");
}

// ---- a grayscale sensor
template <int which> static inline void gray(grayscale& g, bus& b) {
	g._smbus = &b; at(&b, g._smbus_target); v_want = 3; g._reg_left = 0x10; g._reg_center = 0x11; g._reg_right = 0x12; v_focus = 0x10 + which; v_word = vf_nondet_u16();
	unsigned short old = vf_nondet_u16(), l = old, c = old, r = old; g.get_values(l, c, r);
	unsigned v = which == 0 ? l : which == 1 ? c : r;
	vf_assert(g_took != 0, "[gray] every sensor is read");
	if (g_took == 1) { vf_assert(v == v_word, "[gray] a value is what its sensor measured"); vf_reach("must: done"); } else { vf_assert(v == old, "[gray] a sensor that was not read measured nothing"); vf_reach("must: failed"); }
}
extern "C" void H_gray_left(grayscale& g, bus& b) { gray<0>(g, b); }
extern "C" void H_gray_center(grayscale& g, bus& b) { gray<1>(g, b); }
extern "C" void H_gray_right(grayscale& g, bus& b) { gray<2>(g, b); }

// ---- a tracker of motion: a helper thread that sleeps until it is told to run or quit
void vf_locked() { // others may have run
	if (v_tracker) { if (vf_nondet_bool()) { v_tracker->_quit = true; g_quit = 1; } if (vf_nondet_bool()) { v_tracker->_run = true; g_run = 1; } else { v_tracker->_run = false; g_run = 0; } }
}
void vf_unlocking() { if (v_told && v_tracker) { bool q = v_tracker->_quit, r = v_tracker->_run; if (v_told == 1 ? q : r) g_published = 1; } }
void vf_sleeping() {
	if (v_tracker) { vf_assert(g_locked == 1, "[wake] a thread goes to sleep under the lock"); vf_assert(g_quit == 0, "[wake] a thread that was told to quit does not go to sleep"); vf_assert(g_run == 0, "[wake] a thread that was told to run does not go to sleep"); g_slept = 1; }
	if (v_emulator) { // a limited sleep
		unsigned d = v_emulator->_duty_cycle;
		if (g_duty == 0) vf_assert(g_level == 0, "[pulse] without duty the line is low"); else if (g_duty == 100) vf_assert(g_level == 1, "[pulse] with full duty the line is high"); else vf_assert(false, "[pulse] only a constant level is slept on");
		change();
	}
}
void vf_joining() {
	vf_assert(g_locked == 0, "[wake] a thread is not waited for under its lock");
	if (v_tracker) { bool q = v_tracker->_quit; vf_assert(q, "[wake] a thread is told to quit before it is waited for"); vf_assert(g_told == 1, "[wake] a thread is woken up before it is waited for"); }
	if (v_emulator) { bool q = v_emulator->_quit; vf_assert(q, "[wake] a thread is told to quit before it is waited for"); }
}
void vf_notifying() { if (v_told && g_locked == 0) vf_assert(g_published == 1, "[wake] what a sleeper waits for is set under its lock before it is woken up"); g_told = 1; }
static inline void helper() { init(); g_after = g_quit = g_run = g_slept = 0; g_duty = 0; v_told = 0; }
extern "C" int vf_pause(const void*, void*) noexcept VF_MODEL("nanosleep");
int vf_pause(const void*, void*) noexcept { // between two rounds
	if (v_tracker && g_quit == 1) { vf_assert(g_after == 0, "[wake] the helper thread does not go on when it was told to quit"); g_after = 1; }
	return 0;
}
extern "C" void H_tracker(motion* m, vf_slog* log) {
	helper(); alignas(tracker) char mem[sizeof(tracker)];
	try { tracker* t = new (mem) tracker(m, log); vf_assert(m != nullptr, "[device] a tracker needs a sensor"); vf_assert(g_thread == 1, "[thread] the helper thread runs"); vf_assert(t->_motion == m, "[device] a tracker tracks its sensor"); bool q = t->_quit; vf_assert(!q, "[thread] the helper thread starts without being told to quit"); vf_reach("must: end"); } catch (const std::exception&) { vf_assert(g_thread == 0, "[thread] a tracker that could not be made has no thread"); vf_reach("must: failed"); }
}
static inline void living(tracker& t) { helper(); t._quit = false; t._thread.running = 1; g_thread = 1; v_tracker = &t; }
extern "C" void H_tracker_end(tracker& t) { living(t); v_told = 1; t.tracker::~tracker(); vf_assert(g_thread == 2, "[thread] the helper thread ends with its tracker"); vf_reach("must: end"); }
extern "C" void H_tracker_start(tracker& t) { living(t); v_told = 2; t.start(); vf_assert(g_told == 1, "[wake] a sleeper is woken up to run"); bool r = t._run; vf_assert(r, "[wake] a tracker that is started runs"); vf_reach("must: end"); }
extern "C" void H_tracker_stop(tracker& t) { living(t); t.stop(); bool r = t._run; vf_assert(!r, "[wake] a tracker that is stopped does not run"); vf_reach("must: end"); }
extern "C" void H_tracker_thread(tracker& t, motion& m, bus& b) {
	helper(); t._motion = &m; m._smbus = &b; v_bus = &b; v_addr = m._smbus_target._addr; v_tracker = &t; g_thread = 1;
	if (vf_nondet_bool()) { t._quit = true; g_quit = 1; } else { t._quit = false; }
	if (vf_nondet_bool()) { t._run = true; g_run = 1; } else t._run = false;
	tracker::thread_func(&t);
	vf_assert(g_quit == 1, "[wake] the helper thread ends when it is told to"); vf_reach("must: end");
}

// ---- pulses without a chip: a helper thread that sets the level of a line
extern "C" void H_emulator(const abc::gpio_chip<vf_slog>& c, std::uint32_t least, std::uint32_t most, unsigned short frequency, vf_slog* log) {
	helper(); alignas(emulator) char mem[sizeof(emulator)];
	try { emulator* e = new (mem) emulator(&c, 1, std::chrono::microseconds(least), std::chrono::microseconds(most), frequency, log); vf_assert(g_thread == 1, "[thread] the helper thread runs"); bool q = e->_quit; vf_assert(!q, "[thread] the helper thread starts without being told to quit"); vf_reach("must: end"); } catch (const std::exception&) { vf_assert(g_thread == 0, "[thread] an emulator that could not be made has no thread"); vf_reach("must: failed"); }
}
extern "C" void H_emulator_whole(const abc::gpio_chip<vf_slog>& c, unsigned short frequency, vf_slog* log) {
	helper(); alignas(emulator) char mem[sizeof(emulator)];
	try { new (mem) emulator(&c, 1, frequency, log); vf_assert(g_thread == 1, "[thread] the helper thread runs"); vf_reach("must: end"); } catch (const std::exception&) { vf_assert(g_thread == 0, "[thread] an emulator that could not be made has no thread"); vf_reach("must: failed"); }
}
extern "C" void H_emulator_end(emulator& e) { helper(); e._quit = false; e._thread.running = 1; g_thread = 1; v_emulator = &e; g_fd0 = 1; e._line._fd = 0; e.emulator::~emulator(); vf_assert(g_thread == 2, "[thread] the helper thread ends with its emulator"); vf_reach("must: end"); }
extern "C" void H_emulator_duty(emulator& e, unsigned short d) {
	helper(); if (vf_nondet_bool()) { vf_assume(d <= 100); g_run = 1; } else { vf_assume(d > 100); g_run = 2; } e._duty_cycle = 7; e.set_duty_cycle(d); unsigned r = e._duty_cycle;
	vf_assert(r <= 100, "[pulse] a duty cycle is a percentage"); if (g_run == 1) vf_assert(r == d, "[pulse] a duty cycle is taken over"); else vf_assert(r == 100, "[pulse] too much duty is full duty"); vf_reach("must: end");
}
extern "C" void H_emulator_wakes(emulator& e, unsigned short d) { helper(); unsigned short was; if (vf_nondet_bool()) { was = 0; g_run = 1; } else { was = 100; g_run = 2; } e._duty_cycle = was; vf_assume(d >= 1); vf_assume(d <= 99); e.set_duty_cycle(d); vf_assert(g_told == 1, "[wake] a change of a constant level wakes the helper thread up"); vf_reach("must: end"); }
extern "C" void H_emulator_thread(emulator& e) {
	helper(); v_emulator = &e; g_thread = 1; change();
	emulator::thread_func(&e);
	vf_assert(g_quit == 1, "[wake] the helper thread ends when it is told to"); vf_assert(g_level == 0, "[pulse] the line is low in the end"); vf_reach("must: end");
}

// ---- a distance sensor
typedef abc::gpio_ultrasonic<std::centi, vf_slog> sonic;
extern "C" { int g_waits, g_echo; long v_least, v_longest; long v_now; }
extern "C" std::chrono::steady_clock::time_point vf_now() noexcept VF_MODEL("_ZNSt6chrono3_V212steady_clock3nowEv");
std::chrono::steady_clock::time_point vf_now() noexcept { unsigned short d = vf_nondet_u16(); v_now = v_now + d; return std::chrono::steady_clock::time_point(std::chrono::steady_clock::duration(v_now)); }
namespace abc {
	template <> template <> gpio_level_t line::expect_level<std::chrono::microseconds>(gpio_level_t level, std::chrono::microseconds timeout) const noexcept {
		long t = timeout.count();
		if (g_waits == 0) { vf_assert(t >= v_least, "[sonic] an echo is waited for as long as it takes"); g_waits = 1; }
		vf_assert(t <= v_longest, "[sonic] an echo is waited for no longer than it takes");
		if (vf_nondet_bool()) { g_echo = 2; return gpio_level::invalid; }
		return level;
	}
}
template <int centimeters> static inline void measure(sonic& u) {
	helper(); g_waits = 0; g_echo = 0; v_now = 0;
	const long time = 2L * centimeters * 10000 / 343; v_least = time - time / 10; v_longest = time + time / 10;
	std::size_t d = u.measure_distance(centimeters);
	vf_assert(g_waits == 1, "[sonic] an echo is waited for");
	if (g_echo == 2) { vf_assert(d == centimeters, "[sonic] a distance that cannot be measured is the longest one"); vf_reach("must: failed"); } else vf_reach("must: done");
}
extern "C" void H_sonic_near(sonic& u) { measure<10>(u); }
extern "C" void H_sonic_far(sonic& u) { measure<500>(u); }
extern "C" void H_sonic_again(sonic& u) { measure<500>(u); measure<10>(u); measure<400>(u); }
