"""ANSI/VITA 49.2-2017 wire layouts, transcribed from the standard (section numbers beside each
structure).  A subfield is (accessor, word, msb, bits, kind).  Bit 31 is the most significant bit of a
32-bit word and is sent first.  Kinds: u unsigned, b flag, e enumeration, p1 stored as value - 1,
('fx', radix, signed) two's complement / unsigned fixed point."""


def fx(r, signed=True):
    return ('fx', r, signed)


HEADER = [('packet_type', 0, 31, 4, 'e'), ('class_id_enable', 0, 27, 1, 'b'), ('tsi', 0, 23, 2, 'e'),
          ('tsf', 0, 21, 2, 'e'), ('packet_count', 0, 19, 4, 'u'), ('packet_size', 0, 15, 16, 'u')]
CAM = [('controllee_enable', 0, 31, 1, 'b'), ('controllee_format', 0, 30, 1, 'e'), ('controller_enable', 0, 29, 1, 'b'),
       ('controller_format', 0, 28, 1, 'e'), ('permit_partial', 0, 27, 1, 'b'), ('permit_warnings', 0, 26, 1, 'b'),
       ('permit_errors', 0, 25, 1, 'b'), ('action_mode', 0, 24, 2, 'e'), ('nack_only', 0, 22, 1, 'b'),
       ('timing_control', 0, 14, 3, 'e')]


def two16(hi, lo, r, losigned=True, hisigned=True):
    return [(hi, 0, 31, 16, fx(r, hisigned)), (lo, 0, 15, 16, fx(r, losigned))]


LOC = [('tsi', 0, 27, 2, 'e'), ('tsf', 0, 25, 2, 'e'), ('manufacturer_oui', 0, 23, 24, 'u'),
       ('integer_timestamp', 1, 31, 32, 'u'), ('fractional_timestamp', 2, 31, 64, 'u')]

# class -> (words, subfields)
STRUCTS = {
    # 5.1.1
    'Header': (1, HEADER),
    'DataHeader': (1, HEADER + [('trailer_included', 0, 26, 1, 'b'), ('not_v49d0', 0, 25, 1, 'b'),
                                ('spectrum_or_time', 0, 24, 1, 'b')]),
    'ContextHeader': (1, HEADER + [('not_v49d0', 0, 25, 1, 'b'), ('tsm', 0, 24, 1, 'e')]),
    'CommandHeader': (1, HEADER + [('acknowledge_packet', 0, 26, 1, 'b'), ('cancellation_packet', 0, 24, 1, 'b')]),
    # 5.1.3
    'ClassIdentifier': (2, [('pad_bits', 0, 31, 5, 'u'), ('oui', 0, 23, 24, 'u'), ('information_code', 1, 31, 16, 'u'),
                            ('packet_code', 1, 15, 16, 'u')]),
    # 8.2.1
    'ControlAcknowledgeMode': (1, CAM),
    'ControlCAM': (1, CAM + [('req_v', 0, 20, 1, 'b'), ('req_x', 0, 19, 1, 'b'), ('req_s', 0, 18, 1, 'b'),
                             ('req_w', 0, 17, 1, 'b'), ('req_er', 0, 16, 1, 'b')]),
    'AcknowledgeCAM': (1, CAM + [('ack_v', 0, 20, 1, 'b'), ('ack_x', 0, 19, 1, 'b'), ('ack_s', 0, 18, 1, 'b'),
                                 ('ack_w', 0, 17, 1, 'b'), ('ack_er', 0, 16, 1, 'b'), ('partial_action', 0, 11, 1, 'b'),
                                 ('scheduled_or_executed', 0, 10, 1, 'b')]),
    # 9.5.3 (dB, radix 7)
    'Gain': (1, two16('stage_2', 'stage_1', 7)),
    'Threshold': (1, two16('stage_2', 'stage_1', 7)),
    'InterceptPoints': (1, two16('second_order', 'third_order', 7)),
    'EbNoBER': (1, two16('ebno', 'ber', 7)),
    'SNRNoise': (1, two16('snr', 'noise', 7)),
    'Polarization': (1, two16('tilt_angle', 'ellipticity_angle', 13)),
    'PointingVector': (1, two16('elevation_angle', 'azimuthal_angle', 7, losigned=False)),
    'BeamWidth': (1, two16('horizontal', 'vertical', 7)),
    # 9.10.1
    'DeviceIdentifier': (2, [('manufacturer_oui', 0, 23, 24, 'u'), ('device_code', 1, 15, 16, 'u')]),
    # 9.13.3
    'PayloadFormat': (2, [('packing_method', 0, 31, 1, 'e'), ('real_complex_type', 0, 30, 2, 'e'),
                          ('data_item_format', 0, 28, 5, 'e'), ('repeat_indicator', 0, 23, 1, 'b'),
                          ('event_tag_size', 0, 22, 3, 'u'), ('channel_tag_size', 0, 19, 4, 'u'),
                          ('data_item_fraction_size', 0, 15, 4, 'u'), ('item_packing_field_size', 0, 11, 6, 'p1'),
                          ('data_item_size', 0, 5, 6, 'p1'), ('repeat_count', 1, 31, 16, 'p1'),
                          ('vector_size', 1, 15, 16, 'p1')]),
    # 9.4.5
    'Geolocation': (11, LOC + [('latitude', 4, 31, 32, fx(22)), ('longitude', 5, 31, 32, fx(22)),
                               ('altitude', 6, 31, 32, fx(5)), ('speed_over_ground', 7, 31, 32, fx(16)),
                               ('heading_angle', 8, 31, 32, fx(22)), ('track_angle', 9, 31, 32, fx(22)),
                               ('magnetic_variation', 10, 31, 32, fx(22))]),
    # 9.4.3
    'Ephemeris': (13, LOC + [('position_' + c, 4 + i, 31, 32, fx(5)) for i, c in enumerate('xyz')]
                  + [('attitude_' + c, 7 + i, 31, 32, fx(22)) for i, c in enumerate(['alpha', 'beta', 'phi'])]
                  + [('velocity_d' + c, 10 + i, 31, 32, fx(16)) for i, c in enumerate('xyz')]),
    # 9.6.1
    'Spectrum': (13, [('spectrum_type', 0, 7, 8, 'e'), ('averaging_type', 0, 15, 8, 'e'), ('window_time', 0, 19, 4, 'e'),
                      ('window_type', 1, 7, 8, 'e'), ('num_transform_points', 2, 31, 32, 'u'),
                      ('num_window_points', 3, 31, 32, 'u'), ('resolution', 4, 31, 64, fx(20)), ('span', 6, 31, 64, fx(20)),
                      ('num_averages', 8, 31, 32, 'u'), ('weighting_factor', 9, 31, 32, 'u'), ('f1_index', 10, 31, 32, 'u'),
                      ('f2_index', 11, 31, 32, 'u'), ('window_time_delta', 12, 31, 32, 'u')]),
    # 9.10.4
    'VersionInformation': (1, [('year', 0, 31, 7, 'u'), ('day', 0, 24, 9, 'u'), ('revision', 0, 15, 6, 'u'),
                               ('user_defined', 0, 9, 10, 'u')]),
    # 9.12
    'Probability': (1, [('probability_function', 0, 15, 8, 'u'), ('probability_percent', 0, 7, 8, 'u')]),
    'Belief': (1, [('belief_percent', 0, 7, 8, 'u')]),
    # DIFI 1.0 (64-bit size, 12-bit level, four flags; 9.5.9 reference level)
    'difi::BufferSize': (3, [('buffer_size', 0, 31, 64, 'u'), ('level', 2, 15, 12, 'u'), ('overflow', 2, 3, 1, 'b'),
                             ('nearly_full', 2, 2, 1, 'b'), ('nearly_empty', 2, 1, 1, 'b'), ('underflow', 2, 0, 1, 'b')]),
    'difi::ReferenceLevel': (1, two16('scaling_level', 'reference_level', 7)),
}

# indicators with an enable bit: name -> (value msb, bits, enable bits)
SEI = ['calibrated_time', 'valid_data', 'reference_lock', 'agc_mgc', 'detected_signal', 'spectral_inversion',
       'over_range', 'sample_loss']
GATED = {
    # 9.10.8 and 5.1.6: enable bits 31..24, indicator bits 19..12
    'StateEventIndicators': {n: (19 - i, 1, [31 - i]) for i, n in enumerate(SEI)},
    'Trailer': dict({n: (19 - i, 1, [31 - i]) for i, n in enumerate(SEI)},
                    sample_frame=(11, 2, [23, 22]),
                    associated_context_packets_count=(6, 7, [7])),
}

# presence indicators: bit -> accessor.  CIF0 9.1, CIF1, CIF2, CIF3, CIF7 9.12
IND0 = {'change_indicator': 31, 'reference_point_id': 30, 'bandwidth': 29, 'if_ref_frequency': 28,
        'rf_ref_frequency': 27, 'rf_ref_frequency_offset': 26, 'if_band_offset': 25, 'reference_level': 24, 'gain': 23,
        'over_range_count': 22, 'sample_rate': 21, 'timestamp_adjustment': 20, 'timestamp_calibration_time': 19,
        'temperature': 18, 'device_id': 17, 'state_event_indicators': 16, 'signal_data_format': 15, 'formatted_gps': 14,
        'formatted_ins': 13, 'ecef_ephemeris': 12, 'relative_ephemeris': 11, 'ephemeris_ref_id': 10, 'gps_ascii': 9,
        'context_association_lists': 8}
EXT0 = {7: 7, 3: 3, 2: 2, 1: 1}
IND1 = {'phase_offset': 31, 'polarization': 30, 'pointing_vector': 29, 'pointing_vector_structure': 28,
        'spatial_scan_type': 27, 'spatial_reference_type': 26, 'beam_width': 25, 'range': 24, 'ebno_ber': 20,
        'threshold': 19, 'compression_point': 18, 'intercept_points': 17, 'snr_noise_figure': 16, 'aux_frequency': 15,
        'aux_gain': 14, 'aux_bandwidth': 13, 'array_of_cifs': 11, 'spectrum': 10, 'sector_step_scan': 9, 'index_list': 7,
        'discrete_io_32': 6, 'discrete_io_64': 5, 'health_status': 4, 'v49_spec_compliance': 3,
        'version_information': 2, 'buffer_size': 1}
IND2 = {n: 31 - i for i, n in enumerate(
    ['bind', 'cited_sid', 'sibling_sid', 'parent_sid', 'child_sid', 'cited_message_id', 'controllee_id',
     'controllee_uuid', 'controller_id', 'controller_uuid', 'information_source', 'track_id', 'country_code',
     'operator_id', 'platform_class', 'platform_instance', 'platform_display', 'ems_device_class', 'ems_device_type',
     'ems_device_instance', 'modulation_class', 'modulation_type', 'function_id', 'mode_id', 'event_id',
     'function_priority_id', 'communication_priority_id', 'rf_footprint', 'rf_footprint_range'])}
IND3 = {'timestamp_details': 31, 'timestamp_skew': 30, 'rise_time': 27, 'fall_time': 26, 'offset_time': 25,
        'pulse_width': 24, 'period': 23, 'duration': 22, 'dwell': 21, 'jitter': 20, 'age': 17, 'shelf_life': 16,
        'air_temperature': 7, 'sea_ground_temperature': 6, 'humidity': 5, 'barometric_pressure': 4,
        'sea_swell_state': 3, 'tropospheric_state': 2, 'network_id': 1}
IND7 = {n: 31 - i for i, n in enumerate(
    ['current_value', 'mean_value', 'median_value', 'standard_deviation', 'max_value', 'min_value', 'precision',
     'accuracy', 'first_derivative', 'second_derivative', 'third_derivative', 'probability', 'belief'])}
SSS = {n: 31 - i for i, n in enumerate(
    ['sector_number', 'f1_start_frequency', 'f2_stop_frequency', 'resolution_bandwidth', 'tune_step_size',
     'number_points', 'default_gain', 'threshold', 'dwell_time', 'start_time', 'time_3', 'time_4'])}
WE = {n: 31 - i for i, n in enumerate(
    ['field_not_executed', 'device_failure', 'erroneous_field', 'parameter_out_of_range',
     'parameter_unsupported_precision', 'field_value_invalid', 'timestamp_problem', 'hazardous_power_levels',
     'distortion', 'in_band_power_compliance', 'out_of_band_power_compliance', 'cosite_interference',
     'regional_interference'])}


def ext(prefix):
    return {'%s%d_enable' % (prefix, k): v for k, v in EXT0.items()}


INDICATORS = {
    'CIF0': dict(IND0, **ext('cif')), 'WIF0': dict(IND0, **ext('wif')), 'EIF0': dict(IND0, **ext('eif')),
    'CIF1': IND1, 'WEIF1': IND1, 'CIF2': IND2, 'WEIF2': IND2, 'WEIF3': IND3, 'CIF7': IND7, 'WEIF7': IND7,
    'SectorStepScanCIF': SSS, 'WarningErrorFields': WE,
}
