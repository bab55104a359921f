RULE = ('constant evaluation of the specification model: position, width and word of every packed field (nested '
        'structures composed) against the frozen VITA 49.2 layouts that also pin the C++ library; fields of a word '
        'must be disjoint, context indicators must be listed in wire order; the layout computed for user-defined '
        'trailers, discrete I/O words and stream identifiers is enumerated over all field mixes')
import itertools
from pylib import *
import vita

# model class -> (frozen layout, {model field: frozen field}, fields the model does not describe)
STRUCTS = {
    'base.Header': ('Header', {}), 'data.DataHeader': ('DataHeader', {}), 'context.ContextHeader': ('ContextHeader', {}),
    'command.CommandHeader': ('CommandHeader', {}), 'command.ExtensionCommandHeader': ('CommandHeader', {}),
    'prologue.ClassIdentifier': ('ClassIdentifier', {}),
    'command.ControlAcknowledgeMode': ('ControlAcknowledgeMode', {}), 'command.ControlCAM': ('ControlCAM', {}),
    'command.AcknowledgeCAM': ('AcknowledgeCAM', {}),
    'cif0.Gain': ('Gain', {}), 'cif0.ReferenceLevel': ('difi::ReferenceLevel', {}),
    'cif0.DeviceIdentifier': ('DeviceIdentifier', {}), 'cif0.PayloadFormat': ('PayloadFormat', {}),
    'cif0.Geolocation': ('Geolocation', {}), 'cif0.Ephemeris': ('Ephemeris', {}),
    'cif1.Polarization': ('Polarization', {}),
    'cif1.PointingVector': ('PointingVector', {'elevation': 'elevation_angle', 'azimuthal': 'azimuthal_angle'}),
    'cif1.BeamWidth': ('BeamWidth', {}), 'cif1.EbNoBER': ('EbNoBER', {}), 'cif1.Threshold': ('Threshold', {}),
    'cif1.InterceptPoints': ('InterceptPoints', {}), 'cif1.SNRNoise': ('SNRNoise', {}),
    'cif1.Spectrum': ('Spectrum', {
        'spectrum_type.spectrum_type': 'spectrum_type', 'spectrum_type.averaging_type': 'averaging_type',
        'spectrum_type.window_time': 'window_time', 'window_type.window_type': 'window_type',
        'number_transform_points': 'num_transform_points', 'number_window_points': 'num_window_points',
        'number_averages': 'num_averages', 'spectrum_f1_f2_indicies.f1_index': 'f1_index',
        'spectrum_f1_f2_indicies.f2_index': 'f2_index'}),
    'cif1.VersionInformation': ('VersionInformation', {}),
    'cif1.BufferSize': ('difi::BufferSize', {'buffer_status.level': 'level', 'buffer_status.overflow': 'overflow',
                                             'buffer_status.nearly_full': 'nearly_full',
                                             'buffer_status.nearly_empty': 'nearly_empty',
                                             'buffer_status.underflow': 'underflow'}),
    'cif7.Probability': ('Probability', {}), 'cif7.Belief': ('Belief', {}),
}
# 9.13.2, 9.4.7, 9.3.2, 9.3.1
MORE = {
    'cif0.ContextAssociationLists': [('source_list_size', 0, 24, 9), ('system_list_size', 0, 8, 9),
                                     ('vector_component_list_size', 1, 31, 16), ('async_channel_tag_list_enable', 1, 15, 1),
                                     ('async_channel_list_size', 1, 14, 15)],
    'cif0.GPS_ASCII': [('manufacturer_oui', 0, 23, 24), ('num_words', 1, 31, 32)],
    'cif1.IndexList': [('total_size', 0, 31, 32), ('entry_size', 1, 31, 4), ('num_entries', 1, 19, 20)],
    'cif1.SectorStepScan': [('array_size', 0, 31, 32), ('header_size', 1, 31, 8), ('num_words_record', 1, 23, 12),
                            ('num_records', 1, 11, 12), ('subfield_cif', 2, 31, 32)],
    'data.Trailer': [('sample_frame', 0, 11, 2)],
}
# names under which warning/error words of the model may list a context indicator
INDS = {'cif0.CIF0': ('CIF0', {}), 'cif1.CIF1': ('CIF1', {}), 'cif2.CIF2': ('CIF2', {}),
        'cif1.SectorStepScanCIF': ('SectorStepScanCIF', {}), 'cif7.CIF7Attributes': ('CIF7', {}),
        'command.WIF0': ('WIF0', {}), 'command.EIF0': ('EIF0', {}), 'command.WEIF1': ('WEIF1', {}),
        'command.WEIF2': ('WEIF2', {}),
        'command.WarningErrorFields': ('WarningErrorFields', {'erroneuous_field': 'erroneous_field'})}


def flatten(I, o, prefix='', word=0):
    """(path, field object, (pos,bits,word)) of every packed leaf"""
    PS, PT, LT = packing(I, 'PackedStruct'), packing(I, 'PackedType'), packing(I, 'ListType')
    FD = packing(I, 'Field')
    seen = set()
    for n, v in o.attrs.items():
        if not isinstance(v, Obj) or not I.isinstance(v, FD) or id(v) in seen:
            continue
        seen.add(id(v))
        if I.isinstance(v, PT) or I.isinstance(v, LT) or n.startswith('reserved'):
            continue
        t = tag(v)
        if t is None:
            continue
        t = (t[0], t[1], t[2] + word)
        inner = list(flatten(I, v, prefix + n + '.', t[2])) if I.isinstance(v, PS) else []
        if inner:
            yield from inner
        else:
            yield prefix + n, v, t


def bitset(t):
    """absolute wire bits: word*32 + distance from the most significant bit"""
    first = t[2] * 32 + (31 - t[0])
    return range(first, first + t[1])


def disjoint(chk, key, w, leaves):
    used = {}
    for n, _, t in leaves:
        for b in bitset(t):
            if b in used:
                chk.violation('%s/%s~%s/overlap' % (key, used[b], n), w,
                              'fields %s and %s of %s overlap in the model' % (used[b], n, key))
                break
            used[b] = n
    chk.ok(key + '/disjoint', w)


def run(chk):
    I = interp()
    chk.floor('packed fields', 130)
    chk.floor('indicators', 190)
    for cn, (lay, names) in sorted(STRUCTS.items()):
        std = {f[0]: (f[2], f[3], f[1]) for f in vita.STRUCTS[lay][1]}
        structure(chk, I, cn, std, names, vita.STRUCTS[lay][0])
    for cn, lay in sorted(MORE.items()):
        structure(chk, I, cn, {n: (m, b, w) for n, w, m, b in lay}, {}, None)
    for cn, (ind, names) in sorted(INDS.items()):
        indicators(chk, I, cn, vita.INDICATORS[ind], names)
    record_order(chk, I)
    trailers(chk)
    discrete(chk)
    streams(chk)


def structure(chk, I, cn, std, names, words):
    c = cls_of(I, MODEL + cn)
    o = make(I, c)
    w = where(c)
    leaves = list(flatten(I, o))
    for n, v, t in leaves:
        sn = names.get(n, n)
        if sn not in std:
            continue
        chk.count('packed fields')
        chk.require(t == std[sn], '%s.%s' % (cn, n), w,
                    'the model places %s.%s at bit %s width %s word %s, VITA 49.2 at bit %d width %d word %d' %
                    ((cn, n) + t + std[sn]))
        vb = v.attrs.get('bits')
        if isinstance(vb, int) and not I.isinstance(v, packing(I, 'EnableIndicatorType')):
            chk.require(vb == std[sn][1], '%s.%s/bits' % (cn, n), w,
                        'the model gives %s.%s %s bits, the field has %d' % (cn, n, vb, std[sn][1]))
    have = {names.get(n, n) for n, _, _ in leaves}
    if not leaves and std:
        raise Broken('%s has no packed fields' % cn)
    chk.extra.setdefault('fields the model leaves to the library', {})[cn] = sorted(set(std) - have)
    disjoint(chk, cn, w, leaves)
    if words:
        bits = o.attrs.get('bits')
        chk.require(bits == words * 32, cn + '/size', w, '%s occupies %s bits in the model, %d on the wire' % (cn, bits, words * 32))


def indicators(chk, I, cn, std, names):
    c = cls_of(I, MODEL + cn)
    o = make(I, c)
    w = where(c)
    FD, PT = packing(I, 'Field'), packing(I, 'PackedType')
    inv = {b: n for n, b in std.items()}
    used = {}
    order = []
    for n, v in o.attrs.items():
        if not isinstance(v, Obj) or not I.isinstance(v, FD) or I.isinstance(v, PT) or tag(v) is None:
            continue
        t = tag(v)
        chk.count('indicators')
        sn = names.get(n, n)
        # an extension enable (cif_1_enable) under either spelling
        sn = sn if sn in std else sn.replace('_', '', 1) if sn.replace('_', '', 1) in std else sn
        if sn in std:
            chk.require(t == (std[sn], 1, 0), '%s.%s' % (cn, n), w,
                        'the model places indicator %s.%s at bit %s width %s word %s, VITA 49.2 at bit %d' %
                        ((cn, n) + t + (std[sn],)))
        else:
            # a name the standard table does not have: it must still not take the bit of another field of the word
            chk.require(t[1] == 1 and t[2] == 0 and t[0] in inv, '%s.%s' % (cn, n), w,
                        'indicator %s.%s is at bit %s width %s, which VITA 49.2 does not assign' % (cn, n, t[0], t[1]))
        if t[0] in used:
            chk.violation('%s/%s~%s/shared' % (cn, used[t[0]], n), w,
                          'indicators %s and %s of %s share bit %s' % (used[t[0]], n, cn, t[0]))
        used[t[0]] = n
        chk.require(v.attrs.get('name') == n, '%s.%s/name' % (cn, n), w,
                    'indicator %s of %s is named %s' % (n, cn, show(v.attrs.get('name'))))
        order.append((n, t[0]))
    want = sorted(order, key=lambda x: -x[1])
    # derived words list inherited indicators first, extension enables last: already descending
    for a, b in zip(order, order[1:]):
        chk.count('ordered pairs')
        if a[1] <= b[1] and not a[0].endswith('enable') and not b[0].endswith('enable'):
            chk.violation('%s/%s>%s/order' % (cn, a[0], b[0]), w,
                          'the model lists %s before %s although its indicator bit is lower: the fields follow '
                          'in that order on the wire' % (a[0], b[0]))
    chk.ok(cn + '/order', w)


def record_order(chk, I):
    """subfields of a sector/step-scan record follow in the order of their indicator bits (9.6.2)"""
    c = cls_of(I, MODEL + 'cif1.SectorStepScanRecord')
    w = where(c)
    o = make(I, c)
    std = vita.INDICATORS['SectorStepScanCIF']
    jm = I.import_module('vrtgen.backend.jinja')
    for n, v in o.attrs.items():
        if n in std:
            chk.require(v.attrs.get('name') == n, 'SectorStepScanRecord.%s/name' % n, w,
                        'record subfield %s is named %s' % (n, show(v.attrs.get('name'))))
    have = [f for f in I.iterate(I.getattr(o, 'fields'), None, None) if tag(f)]
    names = {id(v): n for n, v in o.attrs.items()}
    got = [names[id(f)] for f in I.iterate(I.call(jm.ns['sort_packed_tags'], [have], {}), None, None)]
    want = sorted([n for n in got if n in std], key=lambda n: -std[n])
    got = [n for n in got if n in std]
    chk.require(got == want, 'SectorStepScanRecord/order', w,
                'the generated record serialises its subfields as %s, their indicator order is %s' % (got, want))


# ---------------------------------------------------------------- layouts computed from user-defined fields

_I = []


def shared():
    if not _I:
        _I.append(interp())
    return _I[0]


def run_mapping(dotted, mapping, **kw):
    I = shared()
    c = cls_of(I, MODEL + dotted)
    o = make(I, c, **kw)
    try:
        I.call(I.getattr(o, 'validate_and_parse_mapping'), [], dict(mapping))
    except PyRaise as e:
        return I, c, o, e
    return I, c, o, None


def trailers(chk):
    """user-defined trailer fields: every mix of flags and enumerations, with and without the sample-frame field"""
    kinds = ['enable_indicator'] + [['v%d' % i for i in range(n)] for n in (2, 3, 5, 9)]
    width = lambda k: 1 if isinstance(k, str) else max(1, (len(k) - 1).bit_length())
    w = 'src/vrtgen/parser/model/data.py'
    for r in range(1, 6):
        for mix in itertools.product(kinds, repeat=r):
            total = sum(map(width, mix))
            if total > 6 or (r > 3 and any(not isinstance(k, str) for k in mix) and total > 5):
                continue
            for sf in (False, True):
                chk.count('trailer mixes')
                mp = {}
                for i, k in enumerate(mix):
                    mp['user_defined_%d' % i] = k
                if sf:
                    mp['sample_frame'] = 'required'
                key = 'trailer/%s%s' % ('+'.join('flag' if isinstance(k, str) else 'enum%d' % len(k) for k in mix), '+sample_frame' if sf else '')
                I, c, o, e = run_mapping('data.Trailer', mp)
                room = 2 if sf else 4
                if total > room:
                    chk.require(e is not None, key + '/fits', w,
                                'a trailer with %d user-defined bits%s is accepted: they run into other trailer fields' %
                                (total, ' besides sample_frame' if sf else ''))
                    continue
                if e is not None:
                    chk.violation(key + '/rejected', w, 'a trailer whose user-defined bits fit is rejected: %s' % e)
                    continue
                layout_pairs(chk, I, key, w, o, mix, 8, 12, 12)


def layout_pairs(chk, I, key, w, o, mix, lo, hi, delta):
    sub = o.attrs['subfields']
    vals = [s for s in sub if not s.attrs.get('is_enable')]
    ens = [s for s in sub if s.attrs.get('is_enable')]
    if len(vals) != len(mix) or len(ens) != len(mix):
        return chk.violation(key + '/fields', w, '%d user-defined fields become %d value and %d enable fields' % (len(mix), len(vals), len(ens)))
    used = {}
    for v, e, k in zip(vals, ens, mix):
        n = v.attrs['name']
        t, te = tag(v), tag(e)
        bits = t[1]
        need = 1 if isinstance(k, str) else max(1, (len(k) - 1).bit_length())
        ok = t[2] == te[2] == 0 and bits >= need and te[1] == bits and te[0] == t[0] + delta \
            and t[0] - bits + 1 >= lo and t[0] < hi
        for b in list(range(t[0] - bits + 1, t[0] + 1)):
            ok = ok and b not in used
            used[b] = n
        chk.require(ok, key + '/' + n, w, 'user-defined %s gets bit %s width %s, its enable bit %s width %s' %
                    (n, t[0], t[1], te[0], te[1]))
        chk.require(e.attrs['name'] == n + '_enable', key + '/' + n + '/enable', w, 'enable field is named ' + show(e.attrs['name']))


def discrete(chk):
    kinds = ['bool', 'enable_indicator', 7, 16, 31, ['a', 'b'], ['a', 'b', 'c'], list('abcdefgh'), list('abcde')]
    w = 'src/vrtgen/parser/model/cif1.py'
    for cn, word in (('cif1.DiscreteIO32', 32), ('cif1.DiscreteIO64', 64)):
        for r in (1, 2, 3):
            for mix in itertools.product(range(len(kinds)), repeat=r):
                chk.count('discrete I/O mixes')
                mp = {'f%d' % i: kinds[k] for i, k in enumerate(mix)}
                key = '%s/%s' % (cn, '+'.join(label(kinds[k]) for k in mix))
                I, c, o, e = run_mapping(cn, mp)
                if e is not None:
                    low = sum(2 if kinds[k] == 'enable_indicator' else 1 if kinds[k] == 'bool' else kinds[k] if isinstance(kinds[k], int)
                              else (len(kinds[k]) - 1).bit_length() for k in mix)
                    chk.require(low > word - 8, key + '/rejected', w, 'subfields that fit are rejected: %s' % e)
                    continue
                used = {}
                for s in o.attrs['subfields']:
                    n, t = s.attrs['name'], tag(s)
                    base = n[:-7] if n.endswith('_enable') else n
                    k = kinds[mix[int(base[1:])]]
                    need = 1 if isinstance(k, str) else k if isinstance(k, int) else (len(k) - 1).bit_length()
                    ok = t[1] >= need and t[0] < word and t[0] - t[1] + 1 >= 0
                    for b in range(t[0] - t[1] + 1, t[0] + 1):
                        if b in used:
                            ok = False
                        used[b] = n
                    chk.require(ok, key + '/' + n, w, 'subfield %s of %s gets bit %s width %s: outside the word, too '
                                'narrow or overlapping another subfield' % (n, cn, t[0], t[1]))
                    if isinstance(k, int):
                        chk.require(s.attrs.get('bits') == k, key + '/' + n + '/bits', w, 'subfield of %d bits is %s bits' % (k, s.attrs.get('bits')))


def label(k):
    return k if isinstance(k, str) else 'int%d' % k if isinstance(k, int) else 'enum%d' % len(k)


def streams(chk):
    w = 'src/vrtgen/parser/loader.py'
    for r in (1, 2, 3):
        for mix in itertools.product((1, 8, 16, 20), repeat=r):
            chk.count('stream identifier mixes')
            I = shared()
            lm = I.import_module('vrtgen.parser.loader')
            IT = packing(I, 'IntegerType')
            mp = {}
            for i, b in enumerate(mix):
                mp['f%d' % i] = make(I, IT, name='f', bits=b, enabled=True, required=True)
            key = 'stream_id/' + '+'.join(map(str, mix))
            try:
                o = section(I, '!StreamID', mp)
            except PyRaise as e:
                chk.require(sum(mix) > 32, key + '/rejected', w, 'constituents that fit are rejected: %s' % e)
                continue
            if sum(mix) > 32:
                chk.violation(key + '/fits', w, 'stream identifier constituents of %d bits are accepted' % sum(mix))
                continue
            used = {}
            for i, b in enumerate(mix):
                f = o.attrs.get('f%d' % i)
                if not isinstance(f, Obj):
                    chk.violation('%s/f%d' % (key, i), w, 'constituent f%d is missing from the stream identifier' % i)
                    continue
                t = tag(f)
                ok = t[1] == b and f.attrs['name'] == 'f%d' % i and f.attrs['bits'] == b and t[0] < 32 and t[0] - b + 1 >= 0
                for k in range(t[0] - t[1] + 1, t[0] + 1):
                    ok = ok and k not in used
                    used[k] = i
                chk.require(ok, '%s/f%d' % (key, i), w, 'constituent f%d (%d bits) is %s at bit %s width %s' %
                            (i, b, f.attrs['name'], t[0], t[1]))
