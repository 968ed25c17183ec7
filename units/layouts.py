"""The layout of the SEG-Y headers: (field, first byte, size, default, range or list of the values)."""

TRACE_REV0 = [
    ('line_sequence_num', 1, 4, 0, (-2147483648, 2147483647)),
    ('file_sequence_num', 5, 4, 0, (-2147483648, 2147483647)),
    ('field_record_num', 9, 4, 0, (-2147483648, 2147483647)),
    ('trace_num', 13, 4, 0, (-2147483648, 2147483647)),
    ('energy_source_point_num', 17, 4, 0, (-2147483648, 2147483647)),
    ('ensemble_num', 21, 4, 0, (-2147483648, 2147483647)),
    ('ensemble_trace_num', 25, 4, 0, (0, 2147483647)),
    ('trace_identification_code', 29, 2, 0, (-32768, 32767)),
    ('num_vertically_summed_traces', 31, 2, 1, (0, 32767)),
    ('num_horizontally_stacked_traces', 33, 2, 1, (0, 32767)),
    ('data_use', 35, 2, 1, [1, 2]),
    ('doc_nreceiver_offset', 37, 4, 0, (-2147483648, 2147483647)),
    ('receiver_group_elevation', 41, 4, 0, (-2147483648, 2147483647)),
    ('surface_elevation_at_source', 45, 4, 0, (-2147483648, 2147483647)),
    ('source_depth_below_surface', 49, 4, 0, (0, 2147483647)),
    ('datum_elevation_at_receiver_group', 53, 4, 0, (0, 2147483647)),
    ('datum_elevation_at_source', 57, 4, 0, (-2147483648, 2147483647)),
    ('water_depth_at_source', 61, 4, 0, (-2147483648, 2147483647)),
    ('water_depth_at_group', 65, 4, 0, (-2147483648, 2147483647)),
    ('elevation_scalar', 69, 2, 1, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('xy_scalar', 71, 2, 1, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('source_x', 73, 4, 0, (-2147483648, 2147483647)),
    ('source_y', 77, 4, 0, (-2147483648, 2147483647)),
    ('group_x', 81, 4, 0, (-2147483648, 2147483647)),
    ('group_y', 85, 4, 0, (-2147483648, 2147483647)),
    ('coordinate_units', 89, 2, 0, [0, 1, 2, 3, 4]),
    ('weathering_velocity', 91, 2, 0, (0, 32767)),
    ('subweathering_velocity', 93, 2, 0, (0, 32767)),
    ('uphole_time_at_source', 95, 2, 0, (0, 32767)),
    ('uphole_time_at_group', 97, 2, 0, (0, 32767)),
    ('source_static_correction', 99, 2, 0, (-32768, 32767)),
    ('group_static_correction', 101, 2, 0, (-32768, 32767)),
    ('total_static', 103, 2, 0, (-32768, 32767)),
    ('lag_time_a', 105, 2, 0, (-32768, 32767)),
    ('lag_time_b', 107, 2, 0, (-32768, 32767)),
    ('delay_recording_time', 109, 2, 0, (-32768, 32767)),
    ('mute_start_time', 111, 2, 0, (0, 32767)),
    ('mute_end_time', 113, 2, 0, (0, 32767)),
    ('num_samples', 115, 2, 0, (0, 32767)),
    ('sample_interval', 117, 2, 0, (-32768, 32767)),
    ('gain_type_of_field_instruments', 119, 2, 0, (0, 32767)),
    ('instrument_gain_constant', 121, 2, 0, (-32768, 32767)),
    ('instrument_initial_gain', 123, 2, 0, (-32768, 32767)),
    ('correlated', 125, 2, 1, [1, 2]),
    ('sweep_frequency_at_start', 127, 2, 0, (0, 32767)),
    ('sweep_frequency_at_end', 129, 2, 0, (0, 32767)),
    ('sweep_length', 131, 2, 0, (0, 32767)),
    ('sweep_type', 133, 2, 0, [0, 1, 2, 3, 4]),
    ('sweep_trace_taper_length_at_start', 135, 2, 0, (0, 32767)),
    ('sweep_trace_taper_length_at_end', 137, 2, 0, (0, 32767)),
    ('taper_type', 139, 2, 0, [0, 1, 2, 3]),
    ('alias_filter_frequency', 141, 2, 0, (0, 32767)),
    ('alias_filter_slope', 143, 2, 0, (-32768, 32767)),
    ('notch_filter_frequency', 145, 2, 0, (0, 32767)),
    ('notch_filter_slope', 147, 2, 0, (-32768, 32767)),
    ('low_cut_frequency', 149, 2, 0, (0, 32767)),
    ('high_cut_frequency', 151, 2, 0, (0, 32767)),
    ('low_cut_slope', 153, 2, 0, (-32768, 32767)),
    ('high_cut_slope', 155, 2, 0, (-32768, 32767)),
    ('year_recorded', 157, 2, 0, (-32768, 32767)),
    ('day_of_year', 159, 2, 0, (0, 366)),
    ('hour_of_day', 161, 2, 0, (0, 24)),
    ('minute_of_hour', 163, 2, 0, (0, 60)),
    ('second_of_minute', 165, 2, 0, (0, 60)),
    ('time_basis_code', 167, 2, 0, [0, 1, 2, 3, 4]),
    ('trace_weighting_factor', 169, 2, 0, (0, 32767)),
    ('geophone_group_num_roll_switch_position_one', 171, 2, 0, (-32768, 32767)),
    ('geophone_group_num_first_trace_original_field', 173, 2, 0, (-32768, 32767)),
    ('geophone_group_num_last_trace_original_field', 175, 2, 0, (-32768, 32767)),
    ('gap_size', 177, 2, 0, (0, 32767)),
    ('over_travel', 179, 2, 0, [0, 1, 2]),
]

TRACE_REV1 = TRACE_REV0 + [
    ('cdp_x', 181, 4, 0, (-2147483648, 2147483647)),
    ('cdp_y', 185, 4, 0, (-2147483648, 2147483647)),
    ('inline_number', 189, 4, 0, (-2147483648, 2147483647)),
    ('crossline_number', 193, 4, 0, (-2147483648, 2147483647)),
    ('shotpoint_number', 197, 4, 0, (-2147483648, 2147483647)),
    ('shotpoint_scalar', 201, 2, 0, (-32768, 32767)),
    ('trace_unit', 203, 2, 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('transduction_constant_mantissa', 205, 4, 0, (-2147483648, 2147483647)),
    ('transduction_constant_exponent', 209, 2, 0, (-32768, 32767)),
    ('transduction_units', 211, 2, 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('device_trace_identifier', 213, 2, 0, (-32768, 32767)),
    ('time_scalar', 215, 2, 0, [-10000, -1000, -100, -10, -1, 0, 1, 10, 100, 1000, 10000]),
    ('source_type', 217, 2, 0, (-32768, 9)),
    ('source_energy_direction', 219, 4, 0, (-2147483648, 2147483647)),
    ('source_measurement_mantissa', 225, 4, 0, (-2147483648, 2147483647)),
    ('source_measurement_exponent', 229, 2, 0, (-32768, 32767)),
    ('source_measurement_unit', 231, 2, 0, [-1, 0, 1, 2, 3, 4, 5, 6]),
]

REEL = [
    ('job_id_num', 3201, 4, 0, (-2147483648, 2147483647)),
    ('line_num', 3205, 4, 0, (0, 2147483647)),
    ('reel_num', 3209, 4, 0, (-2147483648, 2147483647)),
    ('data_traces_per_ensemble', 3213, 2, 0, (0, 32767)),
    ('auxiliary_traces_per_ensemble', 3215, 2, 0, (0, 32767)),
    ('sample_interval', 3217, 2, 0, (0, 32767)),
    ('original_field_sample_interval', 3219, 2, 0, (0, 32767)),
    ('num_samples', 3221, 2, 0, (0, 32767)),
    ('original_field_num_samples', 3223, 2, 0, (0, 32767)),
    ('data_sample_format', 3225, 2, 5, [1, 2, 3, 5, 8]),
    ('ensemble_fold', 3227, 2, 0, (0, 32767)),
    ('trace_sorting', 3229, 2, 0, [-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]),
    ('vertical_sum_code', 3231, 2, 0, (0, 32767)),
    ('sweep_frequency_at_start', 3233, 2, 0, (0, 32767)),
    ('sweep_frequency_at_end', 3235, 2, 0, (0, 32767)),
    ('sweep_length', 3237, 2, 0, (0, 32767)),
    ('sweep_type', 3239, 2, 0, [0, 1, 2, 3, 4]),
    ('sweep_trace_number', 3241, 2, 0, (-32768, 32767)),
    ('sweep_trace_taper_length_at_start', 3243, 2, 0, (0, 32767)),
    ('sweep_trace_taper_length_at_end', 3245, 2, 0, (0, 32767)),
    ('taper_type', 3247, 2, 0, [0, 1, 2, 3]),
    ('correlated_data_traces', 3249, 2, 0, [0, 1, 2]),
    ('binary_gain_recovered', 3251, 2, 0, [0, 1, 2]),
    ('amplitude_recovery_method', 3253, 2, 0, [0, 1, 2, 3, 4]),
    ('measurement_system', 3255, 2, 0, [0, 1, 2]),
    ('impulse_signal_polarity', 3257, 2, 0, [0, 1, 2]),
    ('vibratory_polarity_code', 3259, 2, 0, [0, 1, 2, 3, 4, 5, 6, 7, 8]),
    ('format_revision_num', 3501, 2, 256, [0, 256]),
    ('fixed_length_trace_flag', 3503, 2, 0, [0, 1]),
    ('num_extended_textual_headers', 3505, 2, 0, (-1, 32767)),
]
