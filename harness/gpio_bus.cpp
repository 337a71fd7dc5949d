// Transfers over an SMBus: where they go, what they carry, what is reported, who owns the descriptor.
// absint:
#include "vf_gpio.h"
#include "gpio.h"
#undef open
#undef close
#undef ioctl
#undef mutex
typedef abc::gpio_smbus<vf_log> bus;
typedef abc::gpio_smbus_target<vf_log> target;
extern "C" {
	int g_took;      // the transfer: 0 not asked for yet, 1 done, 2 refused
	int g_again;     // ... and of the one after it
	int g_set;       // setting the address: 1 done, 2 refused
	int v_two;       // two transfers are expected
	bus* v_bus; unsigned char v_on, v_want; // the address the device is set to, the one it should be set to
	int v_write, v_kind, v_reg; unsigned v_byte0, v_byte1, v_word; const void* v_block; std::size_t v_length;
}
void vf_locked() { if (v_bus) { v_on = vf_nondet_uchar(); v_bus->_addr = v_on; } }
void vf_unlocking() { if (v_bus) { unsigned char a = v_bus->_addr; vf_assert(a == v_on, "[target] the address that is remembered is the one the device is set to"); } }
int vf_request(int fd, unsigned long request, void* data, long value) {
	vf_used(fd);
	if (request == I2C_FUNCS) { if (vf_nondet_bool()) return -1; *(unsigned long*)data = vf_nondet_u64(); return 0; }
	if (request == I2C_SLAVE || request == I2C_SLAVE_FORCE) {
		vf_assert(g_locked == 1, "[target] the device is set to an address under the lock");
		if (vf_nondet_bool()) { g_set = 2; return -1; }
		g_set = 1; v_on = (unsigned char)value; return 0;
	}
	vf_assert(request == I2C_SMBUS, "[data] a transfer is asked for");
	i2c_smbus_ioctl_data* m = (i2c_smbus_ioctl_data*)data;
	vf_assert(g_locked == 1, "[target] the lock is held from setting the address to the transfer");
	vf_assert(v_on == v_want, "[target] a transfer goes to its target");
	vf_assert(m->read_write == v_write, "[data] the direction of a transfer");
	vf_assert((int)m->size == v_kind, "[data] the kind of a transfer");
	if (v_reg >= 0) vf_assert(m->command == v_reg, "[data] the register of a transfer");
	if (v_two && g_took == 1) vf_assert(g_again == 0, "[data] two bytes are two transfers"); else vf_assert(g_took == 0, "[data] a value is one transfer");
	if (v_write == I2C_SMBUS_WRITE) {
		if (v_kind == I2C_SMBUS_BYTE_DATA) { unsigned b = m->data->byte; vf_assert(b == v_byte0, "[data] the byte that is put is transferred"); }
		if (v_kind == I2C_SMBUS_WORD_DATA) { unsigned w = m->data->word; vf_assert(w == v_word, "[data] the word that is put is transferred in the order of its target"); }
		if (v_kind == I2C_SMBUS_BLOCK_DATA) { std::size_t n = m->data->block[0]; vf_assert(n == v_length, "[data] a block is transferred with its length"); vf_load(m->data->block + 1, n); }
	}
	if (vf_nondet_bool()) { if (v_two && g_took == 1) g_again = 2; else g_took = 2; return -1; }
	if (v_write == I2C_SMBUS_READ) {
		if (v_kind == I2C_SMBUS_BYTE || v_kind == I2C_SMBUS_BYTE_DATA) m->data->byte = v_two && g_took == 1 ? v_byte1 : v_byte0;
		if (v_kind == I2C_SMBUS_WORD_DATA) m->data->word = v_word;
		if (v_kind == I2C_SMBUS_BLOCK_DATA) m->data->block[0] = v_length;
	}
	if (v_two && g_took == 1) g_again = 1; else g_took = 1;
	return 0;
}
static inline void init() { g_fd0 = g_fd1 = g_fd2 = g_first = g_locked = g_took = g_again = g_set = 0; v_two = 0; v_bus = nullptr; v_reg = -1; }
static inline void ready(bus& b, const target& t, int write, int kind) {
	init(); g_fd0 = 1; b._fd = 0; v_bus = &b; v_want = t._addr; v_write = write; v_kind = kind;
}
static inline void outcome(bool r) {
	vf_assert(g_locked == 0, "[lock] the lock is released");
	if (r) { vf_assert(g_took == 1, "[report] a transfer that succeeds was done"); vf_assert(!v_two || g_again == 1, "[report] a transfer that succeeds was done"); vf_reach("must: done"); }
	else { vf_assert(v_two ? g_again != 1 : g_took != 1, "[report] a transfer that was done succeeds"); vf_reach("must: failed"); }
}
extern "C" void H_put_nodata(bus& b, const target& t, unsigned char reg) { ready(b, t, I2C_SMBUS_WRITE, I2C_SMBUS_BYTE); v_reg = reg; outcome(b.put_nodata(t, reg)); }
extern "C" void H_put_byte(bus& b, const target& t, unsigned char reg, unsigned char byte) { ready(b, t, I2C_SMBUS_WRITE, I2C_SMBUS_BYTE_DATA); v_reg = reg; v_byte0 = byte; outcome(b.put_byte(t, reg, byte)); }
extern "C" void H_put_word(bus& b, target& t, unsigned char reg) {
	ready(b, t, I2C_SMBUS_WRITE, I2C_SMBUS_WORD_DATA); v_reg = reg; v_byte0 = vf_nondet_uchar(); v_byte1 = vf_nondet_uchar();
	if (vf_nondet_bool()) { t._requires_byte_swap = true; v_word = v_byte0 * 256 + v_byte1; } else { t._requires_byte_swap = false; v_word = v_byte1 * 256 + v_byte0; }
	outcome(b.put_word(t, reg, (std::uint16_t)(v_byte1 * 256 + v_byte0)));
}
extern "C" void H_put_block(bus& b, const target& t, unsigned char reg, const void* block, std::size_t size) {
	ready(b, t, I2C_SMBUS_WRITE, I2C_SMBUS_BLOCK_DATA); v_reg = reg; vf_region(block, size); v_length = size;
	bool r = b.put_block(t, reg, block, size);
	if (size > I2C_SMBUS_BLOCK_MAX) vf_assert(!r, "[report] a block that is too long is rejected");
	outcome(r);
}
extern "C" void H_get_noreg(bus& b, const target& t) {
	ready(b, t, I2C_SMBUS_READ, I2C_SMBUS_BYTE); v_byte0 = vf_nondet_uchar();
	unsigned char old = vf_nondet_uchar(), byte = old; bool r = b.get_noreg(t, byte);
	unsigned x = byte; if (r) vf_assert(x == v_byte0, "[data] the byte that was transferred is returned"); else vf_assert(byte == old, "[data] a failed transfer changes nothing");
	outcome(r);
}
extern "C" void H_get_noreg_2(bus& b, target& t) {
	ready(b, t, I2C_SMBUS_READ, I2C_SMBUS_BYTE); v_two = 1; v_byte0 = vf_nondet_uchar(); v_byte1 = vf_nondet_uchar(); unsigned expected;
	if (vf_nondet_bool()) { t._requires_byte_swap = true; expected = v_byte0 * 256 + v_byte1; } else { t._requires_byte_swap = false; expected = v_byte1 * 256 + v_byte0; }
	std::uint16_t old = vf_nondet_u16(), word = old; bool r = b.get_noreg_2(t, word);
	unsigned x = word; if (r) vf_assert(x == expected, "[data] the bytes that were transferred are returned in the order of their target"); else vf_assert(word == old, "[data] a failed transfer changes nothing");
	outcome(r);
}
extern "C" void H_get_byte(bus& b, const target& t, unsigned char reg) {
	ready(b, t, I2C_SMBUS_READ, I2C_SMBUS_BYTE_DATA); v_reg = reg; v_byte0 = vf_nondet_uchar();
	unsigned char old = vf_nondet_uchar(), byte = old; bool r = b.get_byte(t, reg, byte);
	unsigned x = byte; if (r) vf_assert(x == v_byte0, "[data] the byte that was transferred is returned"); else vf_assert(byte == old, "[data] a failed transfer changes nothing");
	outcome(r);
}
extern "C" void H_get_word(bus& b, target& t, unsigned char reg) {
	ready(b, t, I2C_SMBUS_READ, I2C_SMBUS_WORD_DATA); v_reg = reg; v_byte0 = vf_nondet_uchar(); v_byte1 = vf_nondet_uchar(); v_word = v_byte1 * 256 + v_byte0; unsigned expected;
	if (vf_nondet_bool()) { t._requires_byte_swap = true; expected = v_byte0 * 256 + v_byte1; } else { t._requires_byte_swap = false; expected = v_word; }
	std::uint16_t old = vf_nondet_u16(), word = old; bool r = b.get_word(t, reg, word);
	unsigned x = word; if (r) vf_assert(x == expected, "[data] the word that was transferred is returned in the order of its target"); else vf_assert(word == old, "[data] a failed transfer changes nothing");
	outcome(r);
}
extern "C" void H_get_block(bus& b, const target& t, unsigned char reg, void* block, std::size_t size) {
	ready(b, t, I2C_SMBUS_READ, I2C_SMBUS_BLOCK_DATA); v_reg = reg; vf_region(block, size);
	v_length = vf_nondet_size(); vf_assume(v_length <= I2C_SMBUS_BLOCK_MAX);
	std::size_t room = size; bool r = b.get_block(t, reg, block, size);
	vf_assert(g_locked == 0, "[lock] the lock is released");
	if (r) { vf_assert(g_took == 1, "[report] a transfer that succeeds was done"); vf_assert(size == v_length, "[data] a block is returned with its length"); vf_assert(size <= room, "[data] a block that does not fit is rejected"); vf_reach("must: done"); }
	else { vf_assert(size == room, "[data] a failed transfer changes nothing"); if (g_took == 1) vf_assert(v_length > room, "[report] a block that fits is returned"); vf_reach("must: failed"); }
}
static inline void opened(bus* b) { vf_assert(vf_live() == 1, "[fd] a bus has one descriptor"); vf_used(b->_fd); vf_is_text(b->_path, "the path of a bus is terminated"); }
extern "C" void H_open(const char* path, vf_log* log) {
	init(); if (path != nullptr) vf_cstring(path);
	alignas(bus) char mem[sizeof(bus)];
	try {
		bus* b = new (mem) bus(path, log);
		opened(b); vf_reach("must: end");
		b->~bus();
		vf_assert(vf_live() == 0, "[fd] the descriptor is closed with the bus");
	}
	catch (const std::exception&) { vf_assert(vf_live() == 0, "[fd] a bus that could not be opened keeps no descriptor"); vf_reach("must: failed"); }
}
extern "C" void H_open_position(int position, vf_log* log) {
	init();
	alignas(bus) char mem[sizeof(bus)];
	try { bus* b = new (mem) bus(position, log); opened(b); vf_reach("must: end"); }
	catch (const std::exception&) { vf_assert(vf_live() == 0, "[fd] a bus that could not be opened keeps no descriptor"); }
}
