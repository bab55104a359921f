"""ANSI/VITA 49.2-2017 code tables (Table 5.1.1-1, 5.1.1-2, 5.1.1-3, 5.1.6-1, 8.3.1-1, 8.3.1.7-1, 9.3.2-1, 9.10.3-1,
9.13.3-1..4, 9.6.1.1-1..3, 9.6.1.2-1), frozen.  enumeration -> (bits of the wire field, {meaning: code})."""
CODES = {
    'PacketType': (4, {
        'SIGNAL_DATA': 0, 'SIGNAL_DATA_STREAM_ID': 1, 'EXTENSION_DATA': 2, 'EXTENSION_DATA_STREAM_ID': 3,
        'CONTEXT': 4, 'EXTENSION_CONTEXT': 5, 'COMMAND': 6, 'EXTENSION_COMMAND': 7,
    }),
    'TSI': (2, {
        'NONE': 0, 'UTC': 1, 'GPS': 2, 'OTHER': 3,
    }),
    'TSF': (2, {
        'NONE': 0, 'SAMPLE_COUNT': 1, 'REAL_TIME': 2, 'FREE_RUNNING': 3,
    }),
    'TSM': (1, {
        'FINE': 0, 'COARSE': 1,
    }),
    'SPECTRUM_OR_TIME': (1, {
        'TIME': 0, 'SPECTRUM': 1,
    }),
    'IdentifierFormat': (1, {
        'WORD': 0, 'UUID': 1,
    }),
    'ActionMode': (2, {
        'NO_ACTION': 0, 'DRY_RUN': 1, 'EXECUTE': 2,
    }),
    'TimestampControlMode': (3, {
        'IGNORE': 0, 'DEVICE': 1, 'LATE': 2, 'EARLY': 3, 'EARLY_LATE': 4, 'TIMING_ISSUES': 7,
    }),
    'AGCMode': (1, {
        'MGC': 0, 'AGC': 1,
    }),
    'DataItemFormat': (5, {
        'SIGNED_FIXED': 0, 'SIGNED_VRT_1': 1, 'SIGNED_VRT_2': 2, 'SIGNED_VRT_3': 3, 'SIGNED_VRT_4': 4,
        'SIGNED_VRT_5': 5, 'SIGNED_VRT_6': 6, 'SIGNED_FIXED_NON_NORMALIZED': 7, 'RESERVED_8': 8,
        'RESERVED_9': 9, 'RESERVED_10': 10, 'RESERVED_11': 11, 'RESERVED_12': 12,
        'IEEE754_HALF_PRECISION': 13, 'IEEE754_SINGLE_PRECISION': 14, 'IEEE754_DOUBLE_PRECISION': 15,
        'UNSIGNED_FIXED': 16, 'UNSIGNED_VRT_1': 17, 'UNSIGNED_VRT_2': 18, 'UNSIGNED_VRT_3': 19,
        'UNSIGNED_VRT_4': 20, 'UNSIGNED_VRT_5': 21, 'UNSIGNED_VRT_6': 22,
        'UNSIGNED_FIXED_NON_NORMALIZED': 23, 'RESERVED_24': 24, 'RESERVED_25': 25, 'RESERVED_26': 26,
        'RESERVED_27': 27, 'RESERVED_28': 28, 'RESERVED_29': 29, 'RESERVED_30': 30, 'RESERVED_31': 31,
    }),
    'DataSampleType': (2, {
        'REAL': 0, 'COMPLEX_CARTESIAN': 1, 'COMPLEX_POLAR': 2, 'RESERVED': 3,
    }),
    'EntrySize': (4, {
        'EIGHT_BIT': 1, 'SIXTEEN_BIT': 2, 'THIRTY_TWO_BIT': 4,
    }),
    'PackingMethod': (1, {
        'PROCESSING_EFFICIENT': 0, 'LINK_EFFICIENT': 1,
    }),
    'SSI': (2, {
        'SINGLE': 0, 'FIRST': 1, 'MIDDLE': 2, 'FINAL': 3,
    }),
    'V49StandardCompliance': (32, {
        'V49_0': 1, 'V49_1': 2, 'V49_A': 3, 'V49_2': 4,
    }),
    'SpectrumType': (8, {
        'NONE': 0, 'LOG_POWER': 1, 'CARTESIAN': 2, 'POLAR': 3, 'MAGNITUDE': 4,
    }),
    'AveragingType': (8, {
        'NONE': 0, 'LINEAR': 1, 'PEAK_HOLD': 2, 'MIN_HOLD': 4, 'EXPONENTIAL': 8, 'MEDIAN': 16,
        'SMOOTHING': 32,
    }),
    'WindowTimeDelta': (4, {
        'NONE': 0, 'PERCENT': 1, 'SAMPLES': 2, 'TIME': 3,
    }),
    'WindowType': (8, {
        'RECTANGLE': 0, 'TRIANGLE': 1, 'HANNING_ALPHA_1': 2, 'HANNING_ALPHA_2': 3, 'HANNING_ALPHA_3': 4,
        'HANNING_ALPHA_4': 5, 'HAMMING': 6, 'RIESZ': 7, 'RIEMANN': 8, 'DE_LA_VALLEPOUSSIN': 9,
        'TUKEY_POINT_25': 10, 'TUKEY_POINT_50': 11, 'TUKEY_POINT_75': 12, 'BOHMAN': 13, 'POISSON_2': 14,
        'POISSON_3': 15, 'POISSON_4': 16, 'HANNING_POISSON_POINT_50': 17, 'HANNING_POISSON_1': 18,
        'HANNING_POISSON_2': 19, 'CAUCHY_3': 20, 'CAUCHY_4': 21, 'CAUCHY_5': 22, 'GAUSSIAN_2_POINT_50': 23,
        'GAUSSIAN_3': 24, 'GAUSSIAN_3_POINT_50': 25, 'DOLPH_CHEBYSHEV_2_POINT_50': 26,
        'DOLPH_CHEBYSHEV_3': 27, 'DOLPH_CHEBYSHEV_3_POINT_50': 28, 'DOLPH_CHEBYSHEV_4': 29,
        'KAISER_BESSEL_2': 30, 'KAISER_BESSEL_2_POINT_50': 31, 'KAISER_BESSEL_3': 32,
        'KAISER_BESSEL_3_POINT_50': 33, 'BARCILON_TEMES_3': 34, 'BARCILON_TEMES_3_POINT_50': 35,
        'BARCILON_TEMES_4': 36, 'EXACT_BLACKMAN': 37, 'BLACKMAN': 38, 'MIN_THREE_SAMPLE_BLACKMAN_HARRIS': 39,
        'MIN_FOUR_SAMPLE_BLACKMAN_HARRIS': 40, 'THREE_SAMPLE_BLACKMAN_HARRIS_61DB': 41,
        'FOUR_SAMPLE_BLACKMAN_HARRIS_74DB': 42, 'FOUR_SAMPLE_KAISER_BESSEL': 43,
    }),
}
CPP = {'PacketType', 'TSI', 'TSF', 'TSM', 'SPECTRUM_OR_TIME', 'IdentifierFormat', 'ActionMode', 'TimestampControlMode', 'AGCMode', 'DataItemFormat', 'DataSampleType', 'EntrySize', 'PackingMethod', 'SSI', 'V49StandardCompliance', 'SpectrumType', 'AveragingType', 'WindowTimeDelta', 'WindowType'}
PY = set(CPP) - {'SpectrumType', 'AveragingType', 'WindowTimeDelta', 'WindowType'}
OPTIONAL_CPP = {}
# members of the model that never reach the wire ("accept any")
SENTINELS = {('py', 'TSI'): {'ANY'}, ('py', 'TSF'): {'ANY'}, ('py', 'TSM'): {'ANY'}}
PACKET_CLASSES = {
    'is_data': {'SIGNAL_DATA', 'SIGNAL_DATA_STREAM_ID', 'EXTENSION_DATA', 'EXTENSION_DATA_STREAM_ID'},
    'is_context': {'CONTEXT', 'EXTENSION_CONTEXT'},
    'is_command': {'COMMAND', 'EXTENSION_COMMAND'},
    'is_extension': {'EXTENSION_DATA', 'EXTENSION_DATA_STREAM_ID', 'EXTENSION_CONTEXT', 'EXTENSION_COMMAND'},
}
