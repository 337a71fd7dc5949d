# Planted changes of buses, lines, sensors and pulses.
SM, CH, LI, PW, MO, EM, GR, US, TR = ['src/x/%s.x.h' % n for n in ('gpio_smbus', 'gpio_chip', 'gpio_line', 'gpio_smbus_pwm', 'gpio_smbus_motion', 'gpio_pwm_emulator', 'gpio_smbus_grayscale', 'gpio_ultrasonic', 'gpio_smbus_motion_tracker')]
PRE = r'''
#include <new>
#include <utility>
#include <stdexcept>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <chrono>
#include <set>
#include <vector>
#include <cmath>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
// a device that records what it is asked for
static std::set<int> fds; static int next_fd = 100, bad_close = 0;
static int fail_at = -1, requests = 0;     // the request that fails
static int address = 0; struct X { int address, write, command, size; unsigned word; std::vector<unsigned char> block; }; static std::vector<X> xs;
static unsigned reply[256]; static unsigned next_bytes[8]; static int next_n = 0; static std::set<int> refuse; // registers that are refused
static std::atomic<unsigned> pin(0); static std::atomic<int> changes(0);
static int f_open(const char*, int) { fds.insert(next_fd); return next_fd++; }
static int f_close(int fd) { if (!fds.erase(fd)) bad_close++; return 0; }
static int f_request(int fd, unsigned long r, void* p, long v) {
	if (!fds.count(fd)) return -1;
	if (requests++ == fail_at) { errno = EIO; return -1; }
	if (r == I2C_SLAVE || r == I2C_SLAVE_FORCE) { address = (int)v; return 0; }
	if (r == I2C_SMBUS) {
		i2c_smbus_ioctl_data* m = (i2c_smbus_ioctl_data*)p; X x; x.address = address; x.write = m->read_write == I2C_SMBUS_WRITE; x.command = m->command; x.size = m->size; x.word = 0;
		if (refuse.count(m->command)) return -1;
		if (x.write && m->size == I2C_SMBUS_WORD_DATA) x.word = m->data->word;
		if (x.write && m->size == I2C_SMBUS_BYTE_DATA) x.word = m->data->byte;
		if (x.write && m->size == I2C_SMBUS_BLOCK_DATA) x.block.assign(m->data->block + 1, m->data->block + 1 + m->data->block[0]);
		if (!x.write) { if (m->size == I2C_SMBUS_WORD_DATA) m->data->word = reply[m->command]; else if (m->size == I2C_SMBUS_BYTE_DATA) m->data->byte = reply[m->command]; else if (m->size == I2C_SMBUS_BYTE) m->data->byte = next_bytes[next_n++ & 7]; else { m->data->block[0] = 4; memcpy(m->data->block + 1, "abcd", 4); } }
		xs.push_back(x); return 0;
	}
	if (r == GPIO_V2_GET_LINE_IOCTL) { ((gpio_v2_line_request*)p)->fd = f_open("", 0); return 0; }
	if (r == GPIO_V2_LINE_SET_VALUES_IOCTL) { pin = (unsigned)((gpio_v2_line_values*)p)->bits; changes++; return 0; }
	if (r == GPIO_V2_LINE_GET_VALUES_IOCTL) { ((gpio_v2_line_values*)p)->bits = pin; return 0; }
	return 0;
}
template <typename T> static int f_ioctl(int fd, unsigned long r, T* p) { return f_request(fd, r, p, 0); }
static int f_ioctl(int fd, unsigned long r, long v) { return f_request(fd, r, nullptr, v); }
#define open f_open
#define close f_close
#define ioctl f_ioctl
#include "gpio.h"
#undef open
#undef close
#undef ioctl
struct L {
	template <typename... A> void put_any(A...) {}
	template <typename... A> void put_anyv(A...) {}
	template <typename... A> void put_binary(A...) {}
	template <typename... A> void put_blank_line(A...) {}
};
typedef abc::gpio_smbus<L> Bus; typedef abc::gpio_smbus_target<L> Target; typedef abc::gpio_chip<L> Chip;
'''
def bug(id, needs, what, edits, main, san=False): return dict(id=id, property=id.split('-')[0], needs=needs, what=what, edits=edits, demo=PRE + main, san=san)
BUGS = [
 bug('G01-remember-first', 'an address that could not be set, and another operation on the same target', 'the address is remembered although it was not set, so the next transfer goes to another device',
  [(SM, '		long laddr = addr;\n', '		long laddr = _addr = addr;\n')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, false), u(0x30, 1000, false); b.put_byte(t, 1, 1); fail_at = requests; b.put_byte(u, 1, 2); xs.clear(); b.put_byte(u, 1, 3); return xs.size() == 1 && xs[0].address == 0x30 ? 0 : 1; }'),
 bug('G01-mask', 'two devices whose addresses differ in the highest bit of a 7-bit address', 'a transfer goes to the other device',
  [(SM, '		if (_addr == addr) {\n', '		if (((_addr ^ addr) & 0x3f) == 0) {\n')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, false), u(0x54, 1000, false); b.put_byte(t, 1, 1); b.put_byte(u, 1, 2); return xs.size() == 2 && xs[0].address == 0x14 && xs[1].address == 0x54 ? 0 : 1; }'),
 bug('G02-second-byte', 'the second of two transfers that is refused', 'an operation of two transfers succeeds after the first',
  [(SM, '		std::uint8_t byte1;\n		if (!get_noreg(target, byte1)) {', '		std::uint8_t byte1 = 0;\n		if (!get_noreg(target, byte1) && byte0 == 0) {')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, false); next_bytes[0] = 5; b.put_byte(t, 1, 1); std::uint16_t w = 77; fail_at = requests + 1; bool r = b.get_noreg_2(t, w); return !r && w == 77 ? 0 : 1; }'),
 bug('G02-short-block', 'an empty block', 'an operation succeeds without a transfer',
  [(SM, '		i2c_smbus_data data{ };\n		data.block[0] = static_cast<std::uint8_t>(size);', '		if (size == 0 || block == nullptr) {\n			return true;\n		}\n\n		i2c_smbus_data data{ };\n		data.block[0] = static_cast<std::uint8_t>(size);')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, false); b.put_byte(t, 1, 1); xs.clear(); bool r = b.put_block(t, 9, "", 0); return r && xs.size() == 1 ? 0 : 1; }'),
 bug('G03-high-bit', 'a word with its highest bit set for a target that swaps bytes', 'the highest bit is lost',
  [(SM, '		std::uint16_t hi = (word >> 8) & 0x00ff;', '		std::uint16_t hi = (word >> 8) & 0x007f;')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, true); b.put_word(t, 1, 0x8102); return xs[0].word == 0x0281 ? 0 : 1; }'),
 bug('G03-signed', 'a byte above 127 that is put into a register', 'the register that is written is that of the byte',
  [(SM, '		i2c_smbus_data data{ };\n		data.byte = byte;\n', '		i2c_smbus_data data{ };\n		data.byte = byte > 0x7f ? 0x7f : byte;\n')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 1000, true); b.put_byte(t, 1, 0x80); b.put_byte(t, 1, 5); return xs[0].word == 0x80 && xs[1].word == 5 ? 0 : 1; }'),
 bug('G04-info-leak', 'a query for a line that is refused', 'the descriptor of the chip leaks',
  [(CH, '''		int stat = ioctl(fd, gpio_ioctl::get_line_info, &info);
		close(fd);

		if (stat < 0)
		{
''', '''		int stat = ioctl(fd, gpio_ioctl::get_line_info, &info);
		if (stat >= 0) {
			close(fd);
		}

		if (stat < 0)
		{
''')],
  'int main() { Chip c("/dev/y"); size_t n = fds.size(); fail_at = requests; c.line_info(3); return fds.size() == n ? 0 : 1; }'),
 bug('G04-long-name', 'a path of exactly the longest length plus one', 'the path that is kept is not terminated',
  [(CH, '		if (std::strlen(path) >= gpio_max_path) {', '		if (std::strlen(path) > gpio_max_path) {')],
  'int main() { char p[33]; memset(p, \'x\', 32); p[32] = 0; try { Chip c(p); return memchr(c._path, 0, 32) ? 0 : 1; } catch (const std::logic_error&) { return 0; } }'),
 bug('G05-last-level', 'a level that is not seen within the time', 'the wait returns the level it saw last instead of an invalid one',
  [(LI, '''			if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {
				return gpio_level::invalid;''', '''			if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {
				return current_level;''')],
  'int main() { Chip c("/dev/y"); abc::gpio_input_line<L> l(&c, 4); pin = 0; return l.expect_level(1, std::chrono::microseconds(300)) == abc::gpio_level::invalid ? 0 : 1; }'),
 bug('G05-stale-info', 'a query that is refused', 'information that was not delivered is valid',
  [(CH, '''		int stat = ioctl(fd, gpio_ioctl::get_chip_info, &info);
		close(fd);
''', '''		int stat = ioctl(fd, gpio_ioctl::get_chip_info, &info);
		stat = close(fd);
''')],
  'int main() { Chip c("/dev/y"); fail_at = requests; return c.chip_info().is_valid ? 1 : 0; }'),
 bug('G06-full-servo', 'full duty of a generator with a range of pulse widths that ends below the period', 'full duty is not the whole period',
  [(PW, '		else if (duty_cycle == gpio_pwm_duty_cycle::max) {', '		else if (duty_cycle == gpio_pwm_duty_cycle::max && _max_pulse_width >= _autoreload) {')],
  'int main() { Bus b("/dev/x"); Target t(0x14, 72000000, false); abc::gpio_smbus_pwm<L> p(&b, t, std::chrono::microseconds(500), std::chrono::microseconds(2500), 50, 1, 2, 3); unsigned whole = xs[0].word + 1; p.set_duty_cycle(100); return xs.back().word == whole ? 0 : 1; }'),
 bug('G06-divide', 'a generator with pulse widths whose period is short', 'the process ends with a division by zero',
  [(PW, '		_prescaler = _period / _autoreload;', '		_prescaler = (_period - 1) / _autoreload;')],
  'int main() { Bus b("/dev/x"); for (long f : { 1000000l, 60000l, 30000l, 20000l, 1000l }) { Target t(0x14, f, false); for (int q : { 1, 7, 50, 1000, 20000, 30000, 60000 }) { try { abc::gpio_smbus_pwm<L> p(&b, t, std::chrono::microseconds(500), std::chrono::microseconds(2500), q, 1, 2, 3); } catch (const std::logic_error&) {} } } return 0; }'),
 bug('G07-samples', 'the calibration of a sensor', 'one sample too few is summed up, so a sensor at rest is calibrated to less than it measures',
  [(MO, '			if (rep < reps_skip) {', '			if (rep <= reps_skip) {')],
  'int main() { Bus b("/dev/x"); abc::gpio_smbus_motion<L> m(&b, Target(0x68, 1000, true)); for (int r = 0x3b; r < 0x49; r++) reply[r] = 0x6400; m.calibrate(abc::gpio_smbus_motion_channel::all); return m.calibration().accel_y == 100 ? 0 : 1; }'),
 bug('G07-center', 'a refused read of the sensor in the middle', 'the value of the sensor on the left is delivered for the one in the middle',
  [(GR, '		_smbus->get_noreg_2(_smbus_target, center);', '		if (!_smbus->get_noreg_2(_smbus_target, center)) {\n			center = left;\n		}')],
  'int main() { Bus b("/dev/x"); abc::gpio_smbus_grayscale<L> g(&b, Target(0x14, 1000, true), 0x10, 0x11, 0x12); for (auto& n : next_bytes) n = 9; std::uint16_t l = 1, c = 2, r = 3; b.put_byte(Target(0x14, 1000, true), 1, 1); fail_at = requests + 4; g.get_values(l, c, r); return l == 0x0909 && c == 2 && r == 0x0909 ? 0 : 1; }'),
 bug('G07-echo', 'a measurement of distance without any echo', 'the distance is one of the speed of light instead of the longest one',
  [(US, '		if (level == gpio_level::invalid) {\n			return max_distance;', '		if (level == gpio_level::invalid && time_left.count() > 0) {\n			return max_distance;')],
  'int main() { Chip c("/dev/y"); abc::gpio_ultrasonic<std::centi, L> u(&c, 1, 2); fail_at = -1; struct W { static void run(bool* stop) { while (!*stop) pin = 1; } }; bool stop = false; std::thread t(W::run, &stop); bool ok = true; for (int i = 0; i < 5; i++) { size_t d = u.measure_distance(50 + i); if (d != (size_t)(50 + i) && d < 3) ok = false; } stop = true; t.join(); return ok ? 0 : 1; }'),
 bug('G08-no-wake', 'a change of the duty cycle from full to partial', 'the helper thread is not woken up, so the level stays for a while',
  [(EM, '		bool should_notify = (_duty_cycle == gpio_pwm_duty_cycle::min || _duty_cycle == gpio_pwm_duty_cycle::max);', '		bool should_notify = (_duty_cycle == gpio_pwm_duty_cycle::min);')],
  'int main() { Chip c("/dev/y"); abc::gpio_pwm_emulator<L> e(&c, 1, 1000); e.set_duty_cycle(100); std::this_thread::sleep_for(std::chrono::milliseconds(270)); int late = 0; for (int i = 0; i < 3; i++) { e.set_duty_cycle(100); std::this_thread::sleep_for(std::chrono::milliseconds(40)); int n = changes; e.set_duty_cycle(50); std::this_thread::sleep_for(std::chrono::milliseconds(60)); if (changes == n) late++; } return late ? 1 : 0; }'),
 bug('G08-stop-quits', 'a tracker that is destroyed while it runs', 'the helper thread does not end, so destruction does not return',
  [(TR, '''			bool quit = this_ptr->_quit;
			bool run = this_ptr->_run;

			if (quit) {''', '''			bool quit = this_ptr->_quit;
			bool run = this_ptr->_run;

			if (quit && !run) {''')],
  'int main() { Bus b("/dev/x"); abc::gpio_smbus_motion<L> m(&b, Target(0x68, 1000, true)); std::atomic<bool> done(false); std::thread([&] { { abc::gpio_smbus_motion_tracker<std::milli, L> t(&m); t.start(); std::this_thread::sleep_for(std::chrono::milliseconds(500)); } done = true; }).detach(); for (int i = 0; i < 40 && !done; i++) std::this_thread::sleep_for(std::chrono::milliseconds(100)); _exit(done ? 0 : 1); }'),
 bug('G09-left-high', 'an emulator that is destroyed while its line is high', 'the line stays high',
  [(EM, '''				this_ptr->_line.put_level(gpio_level::low);
				break;''', '''				if (duty_cycle != gpio_pwm_duty_cycle::max) {
					this_ptr->_line.put_level(gpio_level::low);
				}
				break;''')],
  'int main() { Chip c("/dev/y"); { abc::gpio_pwm_emulator<L> e(&c, 1, 1000); e.set_duty_cycle(100); std::this_thread::sleep_for(std::chrono::milliseconds(450)); if (pin != 1) return 2; } return pin == 0 ? 0 : 1; }'),
 bug('G09-over', 'a duty cycle of 101', 'a duty cycle above full duty is taken over',
  [(EM, '		else if (duty_cycle > gpio_pwm_duty_cycle::max) {', '		else if (duty_cycle > gpio_pwm_duty_cycle::max + 1) {')],
  'int main() { Chip c("/dev/y"); abc::gpio_pwm_emulator<L> e(&c, 1, 1000); e.set_duty_cycle(101); return e._duty_cycle == 100 ? 0 : 1; }'),
]
