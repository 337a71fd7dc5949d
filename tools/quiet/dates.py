TS = 'src/timestamp.h'; ALL = ['D01', 'D02']
EDITS = [
 dict(id='ts-fours-boundary', props=ALL, edits=[(TS, '		if (remaining_days >= days_per_4_years) {\n', '		if (remaining_days > days_per_4_years) {\n')]),
 dict(id='ts-time-minus', props=ALL, edits=[(TS, '''		time_count_t nanoseconds = remaining % nanosecond_count;
		remaining = remaining / nanosecond_count;
''', '''		const time_count_t whole_seconds = remaining / nanosecond_count;
		time_count_t nanoseconds = remaining - whole_seconds * nanosecond_count;
		remaining = whole_seconds;
''')]),
 dict(id='ts-less', props=ALL, edits=[(TS, '''		return !operator>=(other);''', '''		if (_days_since_epoch != other._days_since_epoch) {
			return _days_since_epoch < other._days_since_epoch;
		}

		return _nanoseconds_since_midnight < other._nanoseconds_since_midnight;''')]),
 dict(id='ts-cycles', props=ALL, edits=[(TS, '''			year += 400 * (remaining_days / days_per_400_years);
			remaining_days = remaining_days % days_per_400_years;
''', '''			const date_count_t cycles = remaining_days / days_per_400_years;
			year += 400 * cycles;
			remaining_days -= cycles * days_per_400_years;
''')]),
 dict(id='ts-fours-always', props=ALL, edits=[(TS, '''		if (remaining_days >= days_per_4_years) {
			year += 4 * (remaining_days / days_per_4_years);
			remaining_days = remaining_days % days_per_4_years;
		}
''', '''		year += 4 * (remaining_days / days_per_4_years);
		remaining_days %= days_per_4_years;
''')]),
 dict(id='ts-months-loop', props=ALL, edits=[(TS, '''		// Mar
		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 31)) {
			return;
		}

		// Apr
		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 30)) {
			return;
		}

		// May
		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 31)) {
			return;
		}

		// Jun
		if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, 30)) {
			return;
		}

		// Jul
''', '''		static const day_t lengths[] = { 31, 30, 31, 30 };
		for (int i = 0; i < 4; i++) {
			if (reset_date_if_done(days_since_epoch, year, month, day, remaining_days, lengths[i])) {
				return;
			}
		}

		// Jul
''')]),
 dict(id='ts-equal', props=ALL, edits=[(TS, '''		return _days_since_epoch == other._days_since_epoch
			&& _nanoseconds_since_midnight == other._nanoseconds_since_midnight;''', '''		if (_nanoseconds_since_midnight != other._nanoseconds_since_midnight) {
			return false;
		}

		return _days_since_epoch == other._days_since_epoch;''')]),
 dict(id='ts-done-inverted', props=ALL, edits=[(TS, '''		if (remaining_days < days_in_1_month) {
			day += remaining_days;

			reset_date(days_since_epoch, year, month, day);
			return true;
		}

		if (++month > max_month) {
			year++;
			month = min_month;
		}

		remaining_days -= days_in_1_month;

		return false;
''', '''		if (remaining_days >= days_in_1_month) {
			remaining_days -= days_in_1_month;

			month++;
			if (month == max_month + 1) {
				month = min_month;
				year += 1;
			}

			return false;
		}

		day = day + remaining_days;
		reset_date(days_since_epoch, year, month, day);

		return true;
''')]),
]
