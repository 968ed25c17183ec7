"""The forty cards of the standard textual header: the fixed text and the columns of each field, as documented for SEG-Y
(recorded once; the specification of P20)."""
CARDS = [
    'C 1 CLIENT                        COMPANY                       CREW NO         ',
    'C 2 LINE            AREA                        MAP ID                          ',
    'C 3 REEL NO           DAY-START OF REEL     YEAR      OBSERVER                  ',
    'C 4 INSTRUMENT: MFG            MODEL            SERIAL NO                       ',
    'C 5 DATA TRACES/RECORD        AUXILIARY TRACES/RECORD         CDP FOLD          ',
    'C 6 SAMPLE INTERVAL         SAMPLES/TRACE       BITS/IN      BYTES/SAMPLE       ',
    'C 7 RECORDING FORMAT        FORMAT THIS REEL        MEASUREMENT SYSTEM          ',
    'C 8 SAMPLE CODE: FLOATING PT     FIXED PT     FIXED PT-GAIN     CORRELATED      ',
    'C 9 GAIN  TYPE: FIXED     BINARY     FLOATING POINT     OTHER                   ',
    'C10 FILTERS: ALIAS     HZ  NOTCH     HZ  BAND     -     HZ  SLOPE    -    DB/OCT',
    'C11 SOURCE: TYPE            NUMBER/POINT        POINT INTERVAL                  ',
    'C12     PATTERN:                           LENGTH        WIDTH                  ',
    'C13 SWEEP: START     HZ  END     HZ  LENGTH      MS  CHANNEL NO     TYPE        ',
    'C14 TAPER: START LENGTH       MS  END LENGTH       MS  TYPE                     ',
    'C15 SPREAD: OFFSET        MAX DISTANCE        GROUP INTERVAL                    ',
    'C16 GEOPHONES: PER GROUP     SPACING     FREQUENCY     MFG          MODEL       ',
    'C17     PATTERN:                          LENGTH        WIDTH                   ',
    'C18 TRACES SORTED BY: RECORD     CDP     OTHER                                  ',
    'C19 AMPLITUDE RECOVERY: NONE      SPHERICAL DIV       AGC    OTHER              ',
    'C20 MAP PROJECTION                    ZONE ID       COORDINATE UNITS            ',
    'C21 PROCESSING:                                                                 ',
    'C22 PROCESSING:                                                                 ',
    'C23                                                                             ',
    'C24                                                                             ',
    'C25                                                                             ',
    'C26                                                                             ',
    'C27                                                                             ',
    'C28                                                                             ',
    'C29                                                                             ',
    'C30                                                                             ',
    'C31                                                                             ',
    'C32                                                                             ',
    'C33                                                                             ',
    'C34                                                                             ',
    'C35                                                                             ',
    'C36                                                                             ',
    'C37                                                                             ',
    'C38                                                                             ',
    'C39                                                                             ',
    'C40                                                                             ',
]
# name: (card, first column, number of columns), counted from 0
FIELDS = {
    'client': (0, 11, 22),
    'company': (0, 42, 21),
    'crew_number': (0, 72, 8),
    'line': (1, 9, 10),
    'area': (1, 25, 22),
    'map_id': (1, 55, 25),
    'reel_number': (2, 12, 9),
    'day_start_of_reel': (2, 40, 3),
    'year': (2, 49, 4),
    'observer': (2, 63, 17),
    'instrument_manufacturer': (3, 20, 10),
    'instrument_model': (3, 37, 10),
    'instrument_serial': (3, 58, 22),
    'data_traces_per_record': (4, 23, 6),
    'auxiliary_traces_per_record': (4, 54, 7),
    'cdp_fold': (4, 71, 9),
    'sample_interval': (5, 20, 7),
    'samples_per_trace': (5, 42, 5),
    'bits_per_inch': (5, 56, 4),
    'bytes_per_sample': (5, 74, 6),
    'recording_format': (6, 21, 6),
    'format_this_reel': (6, 45, 6),
    'measurement_system': (6, 71, 9),
    'sample_code_floating_point': (7, 29, 3),
    'sample_code_fixed_point': (7, 42, 3),
    'sample_code_fixed_point_gain': (7, 60, 3),
    'sample_code_correlated': (7, 75, 5),
    'gain_type_fixed': (8, 22, 3),
    'gain_type_binary': (8, 33, 3),
    'gain_type_fixed_point_gain': (8, 52, 3),
    'gain_type_other': (8, 62, 18),
    'filters_alias_hz': (9, 19, 4),
    'filters_notch_hz': (9, 33, 4),
    'filters_band_lower_hz': (9, 46, 4),
    'filters_band_upper_hz': (9, 51, 5),
    'filters_slope_lower_db_per_oct': (9, 66, 3),
    'filters_slope_upper_db_per_oct': (9, 70, 4),
    'source_type': (10, 17, 10),
    'source_number_per_point': (10, 41, 6),
    'source_point_interval': (10, 63, 17),
    'source_pattern': (11, 17, 25),
    'source_length': (11, 50, 6),
    'source_width': (11, 63, 17),
    'sweep_start_hz': (12, 17, 4),
    'sweep_end_hz': (12, 29, 4),
    'sweep_length_ms': (12, 44, 5),
    'sweep_channel_number': (12, 64, 3),
    'sweep_type': (12, 73, 7),
    'taper_start_length_ms': (13, 24, 6),
    'taper_end_length_ms': (13, 45, 6),
    'taper_type': (13, 60, 20),
    'spread_offset': (14, 19, 6),
    'spread_max_distance': (14, 39, 6),
    'spread_group_interval': (14, 61, 19),
    'geophones_per_group': (15, 25, 3),
    'geophone_spacing': (15, 37, 3),
    'geophone_frequency': (15, 51, 3),
    'geophone_manufacturer': (15, 59, 8),
    'geophone_model': (15, 74, 6),
    'geophone_pattern': (16, 17, 24),
    'geophone_length': (16, 49, 6),
    'geophone_width': (16, 62, 18),
    'traces_sorted_by_record': (17, 29, 3),
    'traces_sorted_by_cdp': (17, 37, 3),
    'traces_sorted_by_other': (17, 47, 33),
    'amplitude_recovery_none': (18, 29, 4),
    'amplitude_recovery_spherical_div': (18, 48, 5),
    'amplitude_recovery_agc': (18, 58, 2),
    'amplitude_recovery_other': (18, 67, 13),
    'map_projection': (19, 19, 18),
    'zone_id': (19, 46, 5),
    'coordinate_units': (19, 69, 11),
    'processing1': (20, 16, 64),
    'processing2': (21, 16, 64),
    'unassigned1': (22, 4, 76),
    'unassigned2': (23, 4, 76),
    'unassigned3': (24, 4, 76),
    'unassigned4': (25, 4, 76),
    'unassigned5': (26, 4, 76),
    'unassigned6': (27, 4, 76),
    'unassigned7': (28, 4, 76),
    'unassigned8': (29, 4, 76),
    'unassigned9': (30, 4, 76),
    'unassigned10': (31, 4, 76),
    'unassigned11': (32, 4, 76),
    'unassigned12': (33, 4, 76),
    'unassigned13': (34, 4, 76),
    'unassigned14': (35, 4, 76),
    'unassigned15': (36, 4, 76),
    'unassigned16': (37, 4, 76),
    'unassigned17': (38, 4, 76),
    'end_marker': (39, 4, 76),
}
