SM, CH, LI, PW, MO, EM, GR, US, TR = ['src/x/%s.x.h' % n for n in ('gpio_smbus', 'gpio_chip', 'gpio_line', 'gpio_smbus_pwm', 'gpio_smbus_motion', 'gpio_pwm_emulator', 'gpio_smbus_grayscale', 'gpio_ultrasonic', 'gpio_smbus_motion_tracker')]
BUS = ['G01', 'G02', 'G03', 'G04']; LINE = ['G04', 'G05']; DEV = ['G06', 'G07', 'G08', 'G09']
EDITS = [
 dict(id='gp-swap', props=BUS, edits=[(SM, '''		std::uint16_t lo = word & 0x00ff;
		std::uint16_t hi = (word >> 8) & 0x00ff;

		return (lo << 8) | hi;
''', '''		return static_cast<std::uint16_t>((word << 8) | (word >> 8));
''')]),
 dict(id='gp-swap-if', props=BUS, edits=[(SM, '''		word = target.requires_byte_swap() ? ((byte0 << 8) | byte1) : ((byte1 << 8) | byte0);
''', '''		word = (byte1 << 8) + byte0;
		if (target.requires_byte_swap()) {
			word = swap_bytes(word);
		}
''')]),
 dict(id='gp-block-copy', props=BUS, edits=[(SM, '''		std::memmove(&data.block[1], block, size);
''', '''		for (std::size_t i = 0; i < size; i++) {
			data.block[i + 1] = static_cast<const std::uint8_t*>(block)[i];
		}
''')]),
 dict(id='gp-addr-order', props=BUS, edits=[(SM, '''		long laddr = addr;
		if (ioctl(_fd, I2C_SLAVE_FORCE, laddr) < 0) {
''', '''		long laddr = addr;
		int stat = ioctl(_fd, I2C_SLAVE_FORCE, laddr);
		if (stat < 0) {
''')]),
 dict(id='gp-line-values', props=LINE, edits=[(LI, '''		int ret = ioctl(_fd, gpio_ioctl::set_line_values, &values);
		if (ret < 0) {
			return gpio_level::invalid;
		}

		return level;
''', '''		bool is_set = ioctl(_fd, gpio_ioctl::set_line_values, &values) >= 0;

		return is_set ? level : gpio_level::invalid;
''')]),
 dict(id='gp-expect', props=LINE, edits=[(LI, '''		clock::time_point start_tp = clock::now();
		clock::time_point current_tp = clock::now();
		gpio_level_t current_level = get_level();

		while (current_level != level) {
			if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {
				return gpio_level::invalid;
			}

			current_tp = clock::now();
			current_level = get_level();
		}

		return level;
''', '''		clock::time_point start_tp = clock::now();

		for (clock::time_point current_tp = start_tp; get_level() != level; current_tp = clock::now()) {
			if (std::chrono::duration_cast<Duration>(current_tp - start_tp) > timeout) {
				return gpio_level::invalid;
			}
		}

		return level;
''')]),
 dict(id='gp-chip-length', props=LINE, edits=[(CH, '''		if (std::strlen(path) >= gpio_max_path) {
''', '''		std::size_t path_length = std::strlen(path);
		if (path_length > gpio_max_path - 1) {
''')]),
 dict(id='gp-duty', props=DEV, edits=[(PW, '''		gpio_smbus_clock_frequency_t capture_compare = gpio_pwm_duty_cycle::min;

		if (duty_cycle == gpio_pwm_duty_cycle::min) {
			capture_compare = 0;
		}
		else if (duty_cycle == gpio_pwm_duty_cycle::max) {
			capture_compare = _autoreload;
		}
		else {
''', '''		gpio_smbus_clock_frequency_t capture_compare = 0;

		if (duty_cycle >= gpio_pwm_duty_cycle::max) {
			capture_compare = _autoreload;
		}
		else if (duty_cycle > gpio_pwm_duty_cycle::min) {
''')]),
 dict(id='gp-calibrate', props=DEV, edits=[(MO, '''		for (int rep = 0; rep < reps_skip + reps_take; rep++) {
''', '''		for (int rep = -reps_skip; rep < reps_take; rep++) {
'''), (MO, '''			if (rep < reps_skip) {
''', '''			if (rep < 0) {
''')]),
 dict(id='gp-wait', props=DEV, edits=[(TR, '''					this_ptr->_control_condition.wait(lock, [this_ptr]() { return this_ptr->_quit || this_ptr->_run; });
''', '''					while (!this_ptr->_quit && !this_ptr->_run) {
						this_ptr->_control_condition.wait(lock);
					}
''')]),
 dict(id='gp-notify-locked', props=DEV, edits=[(TR, '''			_quit = true;
		}

		// The thread may be sleeping. Notify the condition to wake it up.
		_control_condition.notify_all();
''', '''			_quit = true;

			// The thread may be sleeping. Notify the condition to wake it up.
			_control_condition.notify_all();
		}
''')]),
 dict(id='gp-emulator-level', props=DEV, edits=[(EM, '''				gpio_level_t level = duty_cycle != gpio_pwm_duty_cycle::min ? gpio_level::high : gpio_level::low;
				this_ptr->_line.put_level(level);
''', '''				if (duty_cycle == gpio_pwm_duty_cycle::max) {
					this_ptr->_line.put_level(gpio_level::high);
				}
				else {
					this_ptr->_line.put_level(gpio_level::low);
				}
'''), (EM, '''		if (duty_cycle < gpio_pwm_duty_cycle::min) {''', '''		if ((int)duty_cycle < (int)gpio_pwm_duty_cycle::min) {''')]),
 dict(id='gp-sonic', props=DEV, edits=[(US, '''		std::size_t distance_x2 = sonic_distance(std::chrono::duration_cast<microseconds>(echo_end_tp - echo_start_tp));
		std::size_t distance = distance_x2 / 2;

		return distance;
''', '''		microseconds echo = std::chrono::duration_cast<microseconds>(echo_end_tp - echo_start_tp);

		return sonic_distance(echo) / 2;
''')]),
]
