// Timestamps: the parts of a moment, and the order of moments.
// absint: --count 12 --cap 1000
#include "vf.h"
#include "timestamp.h"
typedef abc::timestamp<> stamp;
extern "C" { int g_month, g_part, g_cycle, g_fours, g_day; }
// The calendar is built up from its parts: cycles of 400 years since 1 March 1970, of which the first century has 25 leap
// days (1972 .. 2068) and the others have 24 (2100, 2200, and 2300 have none); 4 years in which 29 February ends the second.
static constexpr int month_of(int m) { return m < 10 ? m + 3 : m - 9; }
static constexpr int length_of(int m) { return m == 11 ? 28 : m == 1 || m == 3 || m == 6 || m == 8 ? 30 : 31; }
static constexpr int days_before(int m) { return m == 0 ? 0 : days_before(m - 1) + length_of(m - 1); }
static inline int some(int least, int most) { int x = vf_nondet_int(); vf_assume(x >= least); vf_assume(x <= most); return x; }
template <int m> static inline void pick(stamp& t, int since, int year, bool leap) {
	constexpr int month = month_of(m), length = length_of(m), before = days_before(m);
	int day; if (vf_nondet_bool()) { g_day = 0; day = 0; } else if (m == 11 && leap) { g_day = 2; day = 28; if (vf_nondet_bool()) { g_day = 1; day = some(1, 27); } } else { g_day = 2; day = length - 1; if (vf_nondet_bool()) { g_day = 1; day = some(1, length - 2); } }
	t.reset_date(since + before + day);
	int y = t._year, mo = t._month, d = t._day;
	vf_assert(mo == month, "[date] the month of a day"); vf_assert(d == day + 1, "[date] the day of a month"); vf_assert(y == year + (m >= 10 ? 1 : 0), "[date] the year of a day"); vf_reach("must: end");
}
template <int m> static inline void any(stamp& t, int since, int year, bool leap) { if (m == 11 || vf_nondet_bool()) { g_month = m; pick<m>(t, since, year, leap); } else any<m < 11 ? m + 1 : 11>(t, since, year, leap); }
static inline int from0(int most) { if (vf_nondet_bool()) { if (vf_nondet_bool()) { g_fours = 1; return 1; } g_fours = 2; return some(2, most); } g_fours = 0; return 0; }
// century 0 .. 3 of a cycle, year 0 .. 3 of 4
template <int century, int y> static inline void in(stamp& t) {
	const int start = y == 0 ? 0 : y == 1 ? 365 : y == 2 ? 731 : 1096;
	int cycle = 0, fours; g_cycle = 0; if (vf_nondet_bool()) { if (vf_nondet_bool()) { g_cycle = 1; cycle = 1; } else { g_cycle = 2; cycle = some(2, 70); } } bool leap = y == 1; int missing = 0;
	g_month = 12; g_part = 0; g_day = 0;
	if (century == 0) fours = from0(24);
	else if (vf_nondet_bool()) { g_part = 1; fours = from0(6); }
	else if (vf_nondet_bool()) { g_part = 2; fours = 7; leap = false; missing = y >= 2 ? 1 : 0; }
	else { g_part = 3; fours = some(8, 24); missing = 1; }
	int since = 59 + 146097 * cycle + (century > 0 ? 36525 + 36524 * (century - 1) : 0) + 1461 * fours + start - missing;
	any<0>(t, since, 1970 + 400 * cycle + 100 * century + 4 * fours + y, leap);
}
#define IN(c, y) extern "C" void H_date_##c##_##y(stamp& t) { in<c, y>(t); }
IN(0, 0) IN(0, 1) IN(0, 2) IN(0, 3) IN(1, 0) IN(1, 1) IN(1, 2) IN(1, 3) IN(2, 0) IN(2, 1) IN(2, 2) IN(2, 3) IN(3, 0) IN(3, 1) IN(3, 2) IN(3, 3)
extern "C" void H_first(stamp& t) {
	int day; g_month = 0; 
	if (vf_nondet_bool()) { g_month = 1; day = some(0, 30); t.reset_date(day); } else { g_month = 2; day = some(0, 27); t.reset_date(31 + day); }
	int y = t._year, m = t._month, d = t._day;
	vf_assert(y == 1970, "[date] the year of a day"); vf_assert(m == g_month, "[date] the month of a day"); vf_assert(d == day + 1, "[date] the day of a month"); vf_reach("must: end");
}
extern "C" void H_time(stamp& t) {
	int h = some(0, 23), m = some(0, 59), s = some(0, 59), ms = some(0, 999), us = some(0, 999), ns = some(0, 999);
	t.reset_time(3600000000000LL * h + 60000000000LL * m + 1000000000LL * s + 1000000LL * ms + 1000LL * us + ns);
	int h1 = t._hours, m1 = t._minutes, s1 = t._seconds, ms1 = t._milliseconds, us1 = t._microseconds, ns1 = t._nanoseconds;
	vf_assert(h1 == h, "[time] the hours"); vf_assert(m1 == m, "[time] the minutes"); vf_assert(s1 == s, "[time] the seconds"); vf_assert(ms1 == ms, "[time] the milliseconds"); vf_assert(us1 == 1000 * ms + us, "[time] the microseconds"); vf_assert(ns1 == 1000000 * ms + 1000 * us + ns, "[time] the nanoseconds"); vf_reach("must: end");
}
extern "C" void H_split(stamp& t) {
	int day = some(0, 106750); long long rest = vf_nondet_long(); vf_assume(rest >= 0); vf_assume(rest < 86400000000000LL);
	t.reset(86400000000000LL * day + rest);
	long long d = t._days_since_epoch, r = t._nanoseconds_since_midnight;
	vf_assert(d == day, "[time] the day of a moment"); vf_assert(r == rest, "[time] the time of a moment"); vf_reach("must: end");
}
static inline void order(const stamp& a, const stamp& b, int o) {
	vf_assert((a == b) == (o == 0), "[order] equal"); vf_assert((a != b) == (o != 0), "[order] not equal"); vf_assert((a < b) == (o < 0), "[order] before"); vf_assert((a > b) == (o > 0), "[order] after"); vf_assert((a <= b) == (o <= 0), "[order] not after"); vf_assert((a >= b) == (o >= 0), "[order] not before"); vf_reach("must: end");
}
extern "C" void H_order(stamp& a, stamp& b) {
	int d = vf_nondet_int(), e; long long n = vf_nondet_long(), k; a._days_since_epoch = d; a._nanoseconds_since_midnight = n; g_part = 0;
	if (vf_nondet_bool()) { g_part = 1; e = vf_nondet_int(); vf_assume(d < e); b._days_since_epoch = e; order(a, b, -1); }
	else if (vf_nondet_bool()) { g_part = 2; e = vf_nondet_int(); vf_assume(d > e); b._days_since_epoch = e; order(a, b, 1); }
	else if (vf_nondet_bool()) { g_part = 3; b._days_since_epoch = d; k = vf_nondet_long(); vf_assume(n < k); b._nanoseconds_since_midnight = k; order(a, b, -1); }
	else if (vf_nondet_bool()) { g_part = 4; b._days_since_epoch = d; k = vf_nondet_long(); vf_assume(n > k); b._nanoseconds_since_midnight = k; order(a, b, 1); }
	else { g_part = 5; b._days_since_epoch = d; b._nanoseconds_since_midnight = n; order(a, b, 0); }
}
