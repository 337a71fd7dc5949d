// The GPIO and I2C devices of the operating system: descriptors, what is asked of them, locks.
// Every call may fail.
#pragma once
#include <new>
#include <utility>
#include <stdexcept>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <cmath>
#include <cerrno>
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <linux/gpio.h>
#include <linux/i2c.h>
#include <linux/i2c-dev.h>
#include "vf_log.h"
#include "exception.h"

extern "C" {
	int g_fd0, g_fd1, g_fd2; // descriptors 0, 5, 9: 0 not handed out yet, 1 open, 2 closed
	int g_first;             // the one that was handed out first
	int g_locked;            // the lock is held
}
static inline int vf_fd() {
	if (g_fd0 == 0 && vf_nondet_bool()) { g_fd0 = 1; if (g_first == 0) g_first = 1; return 0; }
	if (g_fd1 == 0) { g_fd1 = 1; if (g_first == 0) g_first = 2; return 5; }
	if (g_fd2 == 0) { g_fd2 = 1; return 9; }
	vf_stop(); return -1;
}
static inline void vf_used(int fd) {
	if (fd == 0) vf_assert(g_fd0 == 1, "[fd] only an open descriptor is used");
	else if (fd == 5) vf_assert(g_fd1 == 1, "[fd] only an open descriptor is used");
	else if (fd == 9) vf_assert(g_fd2 == 1, "[fd] only an open descriptor is used");
	else vf_assert(false, "[fd] only a descriptor that was handed out is used");
}
static inline int vf_live() { return (g_fd0 == 1) + (g_fd1 == 1) + (g_fd2 == 1); }
static inline int vf_open(const char* path, int) { vf_is_text(path, "the path of a device is terminated"); if (vf_nondet_bool()) return -1; return vf_fd(); }
static inline int vf_close(int fd) {
	vf_used(fd);
	if (fd == 0) g_fd0 = 2; else if (fd == 5) g_fd1 = 2; else g_fd2 = 2;
	return vf_nondet_bool() ? 0 : -1;
}
int vf_request(int fd, unsigned long request, void* data, long value);
template <typename T> static inline int vf_ioctl(int fd, unsigned long request, T* data) { return vf_request(fd, request, data, 0); }
static inline int vf_ioctl(int fd, unsigned long request, long value) { return vf_request(fd, request, nullptr, value); }
void vf_locked();   // what others may have done before the lock was taken
void vf_unlocking(); // what has to hold for them
namespace std {
	struct vf_mutex {
		void lock() { if (vf_nondet_bool()) throw std::runtime_error("lock"); vf_assert(g_locked == 0, "[lock] the lock is not taken twice"); g_locked = 1; vf_locked(); }
		void unlock() { vf_assert(g_locked == 1, "[lock] only a lock that is held is released"); vf_unlocking(); g_locked = 0; }
	};
}
#define open vf_open
#define close vf_close
#define ioctl vf_ioctl
#define mutex vf_mutex
