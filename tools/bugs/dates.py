# Planted changes of timestamps.
TS = 'src/timestamp.h'
PRE = r'''
#include <cstdio>
#include "timestamp.h"
typedef abc::timestamp<> stamp;
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
static int days(int y, int m) { return m == 2 ? (leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31; }
int main() {
'''
ALLDAYS = PRE + r'''
	stamp t(nullptr); int y = 1970, m = 1, d = 1;
	for (int n = 0; n < 4000000; n++) {
		t.reset_date(n);
		if (t.year() != y || t.month() != m || t.day() != d) { std::printf("day %d is %d-%d-%d, not %d-%d-%d\n", n, (int)t.year(), (int)t.month(), (int)t.day(), y, m, d); return 1; }
		if (++d > days(y, m)) { d = 1; if (++m > 12) { m = 1; y++; } }
	}
	return 0;
}
'''
ALLTIMES = PRE + r'''
	stamp t(nullptr);
	const long long at[] = { 0, 1, 999, 1000, 999999, 1000000, 1001, 999999999 };
	for (long long s = 0; s < 86400; s++) for (long long f : at) {
		t.reset(86400000000000LL * (s % 3) + s * 1000000000LL + f);
		if (t.hours() != s / 3600 || t.minutes() != s / 60 % 60 || t.seconds() != s % 60 || t.nanoseconds() != f || t.milliseconds() != f / 1000000 || t.microseconds() != f / 1000) { std::printf("second %lld + %lld\n", s, f); return 1; }
		if (t.day() != 1 + s % 3) return 1;
	}
	return 0;
}
'''
ORDER = PRE + r'''
	stamp t[4]; const long long day = 86400000000000LL, at[] = { 5, day - 5, day + 5, 2 * day - 5 };
	for (int i = 0; i < 4; i++) t[i].reset(at[i]);
	stamp same(nullptr); same.reset(5);
	if (!(t[0] == same) || t[0] != same || t[0] < same || t[0] > same || !(t[0] <= same) || !(t[0] >= same)) return 1;
	for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) {
		if ((t[i] == t[j]) != (i == j) || (t[i] != t[j]) != (i != j) || (t[i] < t[j]) != (i < j) || (t[i] > t[j]) != (i > j) || (t[i] <= t[j]) != (i <= j) || (t[i] >= t[j]) != (i >= j)) { std::printf("%d %d\n", i, j); return 1; }
	}
	return 0;
}
'''
BUGS = [
 dict(id='D01-cycle-leap', property='D01', needs='a day in or after the 400th year', what='every cycle of 400 years is a day too long', demo=ALLDAYS,
  edits=[(TS, 'days_per_100_years_leap + 3 * days_per_100_years;', '2 * days_per_100_years_leap + 2 * days_per_100_years;')]),
 dict(id='D01-one-cycle', property='D01', needs='a day 800 years after the start or later', what='only one cycle of 400 years is counted', demo=ALLDAYS,
  edits=[(TS, '			year += 400 * (remaining_days / days_per_400_years);\n', '			year += 400;\n')]),
 dict(id='D01-three-years', property='D01', needs='the third year after a leap year', what='the last year of four is the year before', demo=ALLDAYS.replace('4000000', '400000'),
  edits=[(TS, '		if (remaining_days >= days_per_1_year) {\n			year++;\n			remaining_days -= days_per_1_year;\n', '		if (remaining_days >= days_per_1_year) {\n			year += remaining_days / (3 * days_per_1_year + 365) + 1;\n			remaining_days -= days_per_1_year;\n')]),
 dict(id='D01-first-year', property='D01', needs='1 March of the second year of four', what='1 March of every leap year minus one is lost', demo=ALLDAYS,
  edits=[(TS, '		if (remaining_days >= days_per_1_year) {\n			year++;\n', '		if (remaining_days > days_per_1_year) {\n			year++;\n')]),
 dict(id='D01-last-february', property='D01', needs='29 February of a leap year', what='29 February has no date and keeps the date before', demo=ALLDAYS,
  edits=[(TS, 'month, day, remaining_days, 29)', 'month, day, remaining_days, 28)')]),
 dict(id='D01-century', property='D01', needs='a day in March 2070 to February 2071', what='the first century is taken to end a day early', demo=ALLDAYS,
  edits=[(TS, '		if (remaining_days >= days_per_100_years_leap) {\n', '		if (remaining_days >= days_per_100_years) {\n')]),
 dict(id='D01-micro', property='D01', needs='a moment within a second', what='the microseconds leave the milliseconds out', demo=ALLTIMES,
  edits=[(TS, '		_microseconds = nanoseconds / millisecond_count;\n', '		_microseconds = nanoseconds / millisecond_count % microsecond_count / 10 * 10;\n')]),
 dict(id='D01-noon', property='D01', needs='a time after 23:59:59', what='the last hour wraps', demo=ALLTIMES,
  edits=[(TS, '		time_count_t hours = remaining % hour_count;\n', '		time_count_t hours = remaining % max_hour;\n')]),
 dict(id='D02-later-day', property='D02', needs='an earlier day with a later time', what='after compares the times of different days', demo=ORDER,
  edits=[(TS, '		return (_days_since_epoch > other._days_since_epoch)\n			|| (_days_since_epoch == other._days_since_epoch\n				&& _nanoseconds_since_midnight > other._nanoseconds_since_midnight);', '		return (_days_since_epoch > other._days_since_epoch)\n			|| (_nanoseconds_since_midnight > other._nanoseconds_since_midnight);')]),
 dict(id='D02-same-time', property='D02', needs='two days with the same time of day', what='not-after is true of any two timestamps with the same time of day', demo=ORDER.replace('t[i].reset(at[i]);', 't[i].reset(i < 2 ? at[i] : at[i - 2] + day);'),
  edits=[(TS, '		return !operator>(other);', '		return !operator>(other) || _nanoseconds_since_midnight == other._nanoseconds_since_midnight;')]),
 dict(id='D02-not-before', property='D02', needs='two timestamps of the same day', what='not-before misses the same moment', demo=ORDER,
  edits=[(TS, '				&& _nanoseconds_since_midnight >= other._nanoseconds_since_midnight);', '				&& _nanoseconds_since_midnight > other._nanoseconds_since_midnight);')]),
]
