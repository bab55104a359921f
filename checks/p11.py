RULE = ('abstract evaluation of the section constructors the loader registers: for every section, every documented key '
        'and every form of value, the set of model attributes the evaluation writes must be those of that field (and '
        'what it implies), with the mode asked for; unknown keys and wrong forms must be refused; every pair of keys '
        'is evaluated in both orders and must give the same section')
import itertools
from pylib import *
import vita

L = 'src/vrtgen/parser/loader.py'
MODEL_NAMES = {}      # model spelling of frozen indicator names where they differ

MODE = ('required', 'optional')
BOGUS = ['bogus', 'Bandwidth_', 'enabled', 'required', 'type_', 'packed_tag', 'name', 'bits', '__class__', '_validate', 'fields', '']
ANY = Unk('str', 'unlisted', other=True)
# values of the wrong kind for a key that takes a mode
NOTMODE = [None, 5, 0, 1.5, True, [], ['required'], {}, {'mode': 'required'}]


MANDATORY = ('sector_number', 'f1_start_frequency')


def tables(I):
    """section tag -> key -> list of (form, allowed, must); a form is a yaml value or a thunk building a section object"""
    T = {}
    for t, ind, cn in (('!CIF0', 'CIF0', 'cif0.CIF0'), ('!CIF1', 'CIF1', 'cif1.CIF1'), ('!CIF2', 'CIF2', 'cif2.CIF2'),
                       ('!SectorStepScanCIF', 'SectorStepScanCIF', 'cif1.SectorStepScanCIF')):
        o = make(I, cls_of(I, MODEL + cn))
        have = {f.attrs['name'] for f in I.iterate(I.getattr(o, 'fields'), None, None)}
        keys = {}
        for n in vita.INDICATORS[ind]:
            if n not in have:
                continue
            keys[n] = [(m, [n + '.'], {n + '.enabled': True, n + '.required': m == 'required'}) for m in MODE]
        if t == '!SectorStepScanCIF':
            for n in MANDATORY:         # always part of the record and refused as options
                keys.pop(n, None)
        T[t] = keys
    # indicators that stand for themselves and are always present
    T['!CIF0']['change_indicator'] = [('required', ['change_indicator.'], {'change_indicator.enabled': True, 'change_indicator.required': True})]
    T['!CIF0']['reference_level'] += [obj('!DIFI1p2ReferenceLevel', {'mode': m}, 'reference_level', m) for m in MODE]
    for k, t in (('discrete_io_32', '!DiscreteIO32'), ('discrete_io_64', '!DiscreteIO64')):
        T['!CIF1'][k] += [obj(t, {'mode': m, 'f': 'bool'}, k, m) for m in MODE]
    T['!CIF1']['buffer_size'] += [obj('!DIFI1p2BufferSize', {'mode': m}, 'buffer_size', m) for m in MODE]
    T['!CIF1']['sector_step_scan'] = [obj('!SectorStepScan', {}, 'sector_step_scan', 'required')]
    T['!CIF1']['index_list'] = [obj('!IndexList', {}, 'index_list', 'required')]
    T['!CIF7'] = {n: [('required', ['attributes.' + n + '.'], {'attributes.%s.enabled' % n: True, 'attributes.%s.required' % n: True})]
                  for n in vita.INDICATORS['CIF7']}
    cam = {}
    for n in ('permit_partial', 'permit_warnings', 'permit_errors', 'req_v', 'req_x', 'req_s', 'req_w', 'req_er'):
        cam[n] = [(m, [n + '.'], {n + '.enabled': True, n + '.required': m == 'required', n + '.value': m == 'required'}) for m in MODE] + \
            [(b, [n + '.'], {n + '.enabled': b, n + '.required': b, n + '.value': b}) for b in (True, False)]
    for n in ('controllee_format', 'controller_format'):
        cam[n] = [(v, [n + '.'], {n + '.enabled': True, n + '.required': True}) for v in ('word', 'uuid')]
    cam['action_mode'] = [(v, ['action_mode.'], {'action_mode.enabled': True, 'action_mode.required': True}) for v in ('dry-run', 'execute')]
    cam['action_mode'] += [(m, ['action_mode.'], {'action_mode.enabled': True, 'action_mode.required': m == 'required'}) for m in MODE]
    T['!ControlAcknowledgeMode'] = cam
    T['!Timestamp'] = {
        'integer': [(v, ['tsi.', 'integer.', 'bits'], {'integer.enabled': True, 'tsi.enabled': True}) for v in ('utc', 'gps', 'other', 'any')],
        'fractional': [(v, ['tsf.', 'fractional.', 'bits'], {'fractional.enabled': True, 'tsf.enabled': True})
                       for v in ('samples', 'picoseconds', 'free-running', 'any')]}
    T['!ClassID'] = {'oui': [('AC-DE-48', ['oui.'], {'oui.value': 0xACDE48})],
                     'information_code': [(c, ['information_code.'], {'information_code.value': c}) for c in (0, 1, 0x1234, 0xFFFF)],
                     'packet_code': [(c, ['packet_code.'], {'packet_code.value': c}) for c in (0, 1, 0x1234, 0xFFFF)]}
    T['!Trailer'] = {'sample_frame': [(m, ['sample_frame.'], {'sample_frame.enabled': True, 'sample_frame.required': m == 'required'}) for m in MODE],
                     'user_defined_1': [(v, ['subfields'], {}) for v in ('enable_indicator', ['a', 'b'], ['a', 'b', 'c'])],
                     'user_defined_2': [(v, ['subfields'], {}) for v in ('enable_indicator', ['x', 'y'])]}
    for t in ('!DiscreteIO32', '!DiscreteIO64'):
        T[t] = {'mode': [(m, ['enabled', 'required'], {'enabled': True, 'required': m == 'required'}) for m in MODE],
                'line_a': [(v, ['subfields'], {}) for v in ('bool', 'enable_indicator', 1, 5, ['a', 'b'])]}
    for t in ('!DIFI1p2ReferenceLevel', '!DIFI1p2BufferSize'):
        T[t] = {'mode': [(m, ['enabled', 'required'], {'enabled': True, 'required': m == 'required'}) for m in MODE]}
    T['!IndexList'] = {'entry_size': [(v, ['entry_size.', 'entries.type_.', 'template_type'], {'template_type': 'uint%s_t' % v}) for v in (8, 16, 32)]}
    T['!SectorStepScan'] = {'subfield_cif': [obj('!SectorStepScanCIF', {'threshold': 'required'}, 'subfield_cif', None)]}
    T['!IntegerType'] = {'bits': [(n, ['bits'], {'bits': n}) for n in (1, 7, 16, 32)], 'value': [(n, ['value'], {'value': n}) for n in (0, 1)]}
    T['!InformationClass'] = {'code': [(n, ['code'], {'code': n}) for n in (0, 7, 0xFFFF)], 'packet_classes': [(['A', 'B'], ['packet_classes.'], {})]}
    # packets
    common = {
        'class_id': [obj('!ClassID', {'oui': 'AC-DE-48'}, 'class_id', None,
                         ['header.class_id_enable.'], {'header.class_id_enable.value': True, 'header.class_id_enable.enabled': True,
                                                       'class_id.oui.value': 0xACDE48})],
        'timestamp': [
            obj('!Timestamp', {'integer': 'utc'}, 'timestamp', None, ['header.tsi.'], {'header.tsi.enabled': True, 'header.tsi.value': ('TSI', 'UTC')}),
            obj('!Timestamp', {'fractional': 'samples'}, 'timestamp', None, ['header.tsf.'], {'header.tsf.enabled': True, 'header.tsf.value': ('TSF', 'SAMPLE_COUNT')}),
            obj('!Timestamp', {'integer': 'gps', 'fractional': 'picoseconds'}, 'timestamp', None, ['header.tsi.', 'header.tsf.'],
                {'header.tsi.enabled': True, 'header.tsf.enabled': True, 'header.tsi.value': ('TSI', 'GPS'), 'header.tsf.value': ('TSF', 'REAL_TIME')})]}
    v49d0 = {'header.not_v49d0.enabled': True, 'header.not_v49d0.value': True}
    T['!Data'] = dict(common)
    T['!Data']['stream_id'] = [obj('!StreamID', '', 'stream_id', None, ['header.packet_type.value'],
                                   {'header.packet_type.value': ('PacketType', 'SIGNAL_DATA_STREAM_ID')})]
    T['!Data']['trailer'] = [
        obj('!Trailer', {}, 'trailer', None, ['header.trailer_included.'], {'header.trailer_included.value': True, 'header.trailer_included.enabled': True}),
        obj('!Trailer', {'sample_frame': 'required'}, 'trailer', None, ['header.trailer_included.', 'header.not_v49d0.'],
            dict({'header.trailer_included.value': True, 'header.trailer_included.enabled': True}, **v49d0))]
    T['!Data']['spectrum_or_time'] = [
        ('spectrum', ['header.spectrum_or_time.', 'header.not_v49d0.'], dict({'header.spectrum_or_time.enabled': True}, **v49d0)),
        ('time', ['header.spectrum_or_time.'], {'header.spectrum_or_time.enabled': True})]
    for t in ('!Context', '!ExtensionContext', '!Control', '!ExtensionControl'):
        T[t] = dict(common)
        T[t]['stream_id'] = [obj('!StreamID', '', 'stream_id', None), obj('!StreamID', '0x12345678', 'stream_id', None, [], {'stream_id.value': 0x12345678})]
        ctx = 'Context' in t
        for n in '0127':
            T[t]['cif_' + n] = [obj('!CIF' + n, {CIFKEY[n]: 'required'}, 'cif_' + n, None, ['header.not_v49d0.'] if ctx and n != '0' else [],
                                    dict({'cif_%s.%s%s.enabled' % (n, 'attributes.' if n == '7' else '', CIFKEY[n]): True,
                                          'cif_%s.enabled' % n: True}, **(v49d0 if ctx and n != '0' else {})))]
        if ctx:
            T[t]['tsm'] = [(v, ['header.tsm.'], {'header.tsm.enabled': True}) for v in ('fine', 'coarse', 'any')]
        else:
            T[t]['cam'] = [obj('!ControlAcknowledgeMode', {'req_x': True}, 'cam', None, [], {'cam.req_x.value': True, 'cam.req_x.enabled': True})]
            for n in ('controllee', 'controller'):
                T[t][n + '_id'] = [(f, [n + '_id.', 'cam.%s_enable.' % n, 'cam.%s_format.' % n],
                                    {n + '_id.enabled': True, n + '_id.required': True, n + '_id.bits': b, 'cam.%s_enable.enabled' % n: True,
                                     'cam.%s_enable.value' % n: True, 'cam.%s_format.value' % n: ('IdentifierFormat', f.upper()),
                                     n + '_id.format': ('IdentifierFormat', f.upper())}) for f, b in (('word', 32), ('uuid', 128))]
    for t in ('!Ack', '!ExtensionAck'):
        T[t] = {'responds_to': [('SomeControl', ['responds_to'], {'responds_to': 'SomeControl'})]}
    return T


CIFKEY = {'0': 'bandwidth', '1': 'aux_gain', '2': 'track_id', '7': 'mean_value'}


class SObj:
    """a nested section"""
    def __init__(self, tag, val):
        self.tag, self.val = tag, val

    def __repr__(self):
        return '%s%s' % (self.tag, self.val or '')


def obj(tag, val, key, mode, allow=(), must=None):
    must = dict(must or {})
    if mode:
        must.update({key + '.enabled': True, key + '.required': mode == 'required'})
    return (SObj(tag, val), [key + '.', key + '!', key] + list(allow), must)


def build(I, v):
    if isinstance(v, SObj):
        return section(I, v.tag, v.val)
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


def parse(I, tag, mp):
    return section(I, tag, {k: build(I, v) for k, v in mp.items()})


_I = []


def shared():
    if not _I:
        _I.append(interp())
    return _I[0]


def run(chk):
    I = shared()
    T = tables(I)
    chk.floor('sections', 25)
    chk.floor('key and form pairs', 250)
    chk.floor('refused', 1500)
    missing = set(constructors(I)) - set(T) - {'!StreamID'}
    chk.extra['sections without a key table'] = sorted(missing)
    chk.count('sections')      # stream identifiers
    jobs = [(tag, k) for tag in sorted(T) for k in sorted(T[tag])] + [(tag, None) for tag in sorted(T)]
    jobs.sort(key=lambda j: (j[0] not in PACKETS, j[1] is not None))
    chk.spread(jobs, lambda c, j: one_key(c, I, T, *j) if j[1] else one_section(c, I, T, j[0]))
    notices(chk, I)
    modes_any_case(chk, I, T)
    values(chk, I)


PACKETS = ('!Data', '!Context', '!ExtensionContext', '!Control', '!ExtensionControl', '!Ack', '!ExtensionAck')


def one_section(chk, I, T, tag):
    chk.count('sections')
    keys = T[tag]
    unknown_keys(chk, I, tag, keys)
    scalars(chk, I, tag)


def one_key(chk, I, T, tag, k):
    keys = T[tag]
    try:
        base = snapshot(I, section(I, tag, {}))
    except PyRaise as e:
        chk.violation(tag + '/empty', L, 'an empty %s section is refused: %s' % (tag, e))
        return
    for form, allow, must in keys[k]:
        chk.count('key and form pairs')
        key = '%s/%s=%s' % (tag, k, form)
        try:
            o = parse(I, tag, {k: form})
        except PyRaise as e:
            chk.violation(key, L, '%s refuses %s: %s: %s' % (tag, k, form, e))
            continue
        except Undecided as u:
            chk.undecided(key, L, str(u))
            continue
        s = snapshot(I, o)
        d = diff(base, s)
        bad = [p for p in d if not any(p == a or p.startswith(a) for a in allow)]
        chk.require(not bad, key + '/only', L, '%s: %s: %s also changes %s' % (tag, k, form, bad[:4]))
        wrong = {p: s.get(p) for p, w in must.items() if not same(s.get(p), w)}
        chk.require(not wrong, key + '/effect', L, '%s: %s: %s leaves %s instead of %s' %
                    (tag, k, form, wrong, {p: must[p] for p in wrong}))
        if not must and not d and k != 'stream_id':
            chk.violation(key + '/ignored', L, '%s: %s: %s is accepted and has no effect' % (tag, k, form))
    pairs(chk, I, tag, keys, k, base)
    wrong_forms(chk, I, tag, keys, k)


def pairs(chk, I, tag, keys, first, base):
    """order independence and joint effect; user-defined fields are laid out in the order they are listed"""
    user = {'user_defined_1', 'user_defined_2', 'line_a'}
    many = len(keys) > 15 and chk.tier != 'thorough'
    for a, b in itertools.combinations(sorted(keys), 2):
        if a != first:
            continue
        fa, fb = keys[a], keys[b]
        if many:
            fa, fb = fa[:1], fb[1:2] or fb[:1]
        elif tag in PACKETS and chk.tier != 'thorough':
            fa, fb = fa[-1:], fb[-1:]
        for (x, aa, ma), (y, ab, mb) in itertools.product(fa, fb):
            key = '%s/%s=%s&%s=%s' % (tag, a, x, b, y)
            chk.count('pairs')
            res = []
            for mp in ({a: x, b: y}, {b: y, a: x}):
                try:
                    res.append(snapshot(I, parse(I, tag, mp)))
                except PyRaise as e:
                    res.append(e)
                except Undecided as u:
                    chk.undecided(key, L, str(u))
                    res = None
                    break
            if res is None:
                continue
            r1, r2 = res
            if isinstance(r1, PyRaise) or isinstance(r2, PyRaise):
                chk.require(isinstance(r1, PyRaise) and isinstance(r2, PyRaise), key + '/order', L,
                            '%s with %s and %s is accepted in one order and refused in the other (%s)' %
                            (tag, a, b, r1 if isinstance(r1, PyRaise) else r2))
                if isinstance(r1, PyRaise) and a not in user and b not in user:
                    chk.violation(key + '/joint', L, '%s refuses %s: %s together with %s: %s: %s' % (tag, a, x, b, y, r1))
                continue
            if a not in user and b not in user:
                d = diff(r1, r2)
                chk.require(not d, key + '/order', L, '%s with %s and %s depends on their order: %s' % (tag, a, b, d[:4]))
            must = dict(ma)
            must.update(mb)
            wrong = {p: r1.get(p) for p, w in must.items() if not same(r1.get(p), w)}
            chk.require(not wrong, key + '/effect', L, '%s: %s next to %s is not honoured: %s' % (tag, a, b, wrong))
            d = diff(base, r1)
            bad = [p for p in d if not any(p == q or p.startswith(q) for q in aa + ab)]
            chk.require(not bad, key + '/only', L, '%s: %s and %s also change %s' % (tag, a, b, bad[:4]))


# forms a key refuses beyond the common ones
def wrong_forms(chk, I, tag, keys, k):
    for forms in [keys[k]]:
        good = [f for f, _, _ in forms]
        gs = {g.tag for g in good if isinstance(g, SObj)}
        bad = [ANY]
        if tag == '!Ack' or tag == '!ExtensionAck':
            bad = [None, [], {}, 5]
        elif tag == '!IntegerType':
            bad = [ANY, None, [], {}, 1.5] + ([0, -1, 65, 33] if k == 'bits' else [])
        elif tag == '!InformationClass':
            bad = [ANY, None, {}] + ([[], -1, 0x10000, 1.5] if k == 'code' else [5])
        elif tag == '!ClassID':
            bad = [None, [], {}] + ([ANY, 1.5, -1, 0x10000] if k != 'oui' else [5, 'AC-DE'])      # spellings of the OUI: P10
        elif tag == '!IndexList':
            bad = [ANY, None, [], {}, 7, 64]
        elif k.startswith('user_defined'):
            bad = [ANY, None, 5, {}, 1.5, 'bool', 'required']
        elif k == 'line_a':
            bad = [ANY, None, {}, 1.5, 'required', 0, -1]
        else:
            bad = [ANY, None, 5, 1.5, [], {}]
            if not any(isinstance(g, bool) for g in good):
                bad += [True]
            if all(isinstance(g, str) for g in good) and 'required' not in good:
                bad += ['required', 'optional']
            if all(isinstance(g, SObj) for g in good):
                bad += ['required', 'optional']
            # another section in its place
            bad += [SObj(t, v) for t, v in OTHER if t not in gs]
        for v in bad:
            chk.count('refused')
            key = '%s/%s/refuses %s' % (tag, k, 'any other string' if v is ANY else v)
            try:
                arg = build(I, v)

                def mk():
                    I.prints.clear()
                    return I, None
                for _, _, r, e in traces(mk, lambda I, c: section(I, tag, {k: list(arg) if isinstance(arg, list) else arg})):
                    chk.require(e is not None, key, L, '%s: %s accepts %s' % (tag, k, 'strings it does not know' if v is ANY else v))
            except Undecided as u:
                chk.undecided(key, L, str(u))


OTHER = [('!StreamID', ''), ('!ClassID', {}), ('!Timestamp', {}), ('!CIF0', {}), ('!CIF1', {}), ('!CIF2', {}), ('!CIF7', {}),
         ('!Trailer', {}), ('!ControlAcknowledgeMode', {}), ('!DiscreteIO32', {}), ('!DiscreteIO64', {}), ('!IndexList', {}),
         ('!DIFI1p2ReferenceLevel', {}), ('!DIFI1p2BufferSize', {}), ('!IntegerType', {}), ('!SectorStepScan', {}), ('!Data', {})]
# header and model names that are not options of a packet section
HEADER = ['header', 'tsi', 'tsf', 'packet_type', 'packet_count', 'packet_size', 'class_id_enable', 'trailer_included', 'not_v49d0',
          'acknowledge_packet', 'cancellation_packet', 'message_id', 'wif_0', 'eif_0', 'Stream_ID', 'cif_3']


def unknown_keys(chk, I, tag, keys):
    free = {'!DiscreteIO32', '!DiscreteIO64'}       # user-chosen names
    if tag in free:
        return
    names = [b for b in BOGUS if b not in keys]
    names += [n for n in keys_of_others(I) if n not in keys]
    names += [n for n in members(I, tag) if n not in keys]
    if tag in PACKETS:
        names += [h for h in HEADER if h not in keys]
    if tag == '!Trailer':
        names = [n for n in names if 'user_defined' not in n]
    mirrored = {'stream_id', 'class_id', 'timestamp', 'cam', 'controllee_id', 'controller_id', 'cif_0', 'cif_1', 'cif_2', 'cif_7',
                'message_id', 'wif_0', 'eif_0', 'header'}
    for n in sorted(set(names)):
        if tag in ('!Ack', '!ExtensionAck') and n in mirrored:
            continue      # taken over from the control packet, see P13
        for v in ('required', 'enable_indicator', 5, 'late') if tag not in PACKETS else ('required',):
            chk.count('refused')
            try:
                section(I, tag, {n: v})
                r = None
            except PyRaise as e:
                r = e
            except Undecided as u:
                chk.undecided('%s/unknown %s=%s' % (tag, n, v), L, str(u))
                continue
            chk.require(r is not None, '%s/unknown %s=%s' % (tag, n, v), L, '%s accepts the key %r, which is not one of its options' % (tag, n))


def members(I, tag):
    """the names of the model attributes of a section: what a lookup by name would find"""
    try:
        o = section(I, tag, {})
    except (PyRaise, Undecided):
        return []
    if not hasattr(o, 'attrs'):
        return []
    return [n for n, v in o.attrs.items() if isinstance(n, str) and hasattr(v, 'attrs')]


_ko = []


def keys_of_others(I):
    if not _ko:
        s = set()
        for t, keys in tables(I).items():
            if t not in ('!DiscreteIO32', '!DiscreteIO64'):
                s |= set(keys)
        _ko.extend(sorted(s))
    return _ko


def notices(chk, I):
    """a mode that cannot be honoured is refused or at least reported, never dropped in silence"""
    for tag, k in [('!CIF0', 'change_indicator')] + [('!CIF7', n) for n in vita.INDICATORS['CIF7']]:
        chk.count('notices')
        key = '%s/%s=optional' % (tag, k)
        I.prints.clear()
        try:
            section(I, tag, {k: 'optional'})
            chk.require(bool(I.prints), key, L, '%s: %s: optional is dropped without a word' % (tag, k))
        except PyRaise:
            chk.ok(key, L)
        except Undecided as u:
            chk.undecided(key, L, str(u))


def modes_any_case(chk, I, T):
    for tag in ('!CIF0', '!CIF1', '!CIF2', '!Trailer', '!ControlAcknowledgeMode'):
        for k, forms in sorted(T[tag].items()):
            if not any(f == 'optional' for f, _, _ in forms):
                continue
            for m in MODE:
                for sp in (m.upper(), m.title()):
                    chk.count('spellings')
                    key = '%s/%s=%s' % (tag, k, sp)
                    try:
                        a, b = snapshot(I, section(I, tag, {k: sp})), snapshot(I, section(I, tag, {k: m}))
                        d = diff(a, b)
                        chk.require(not d, key, L, '%s: %s: %s differs from %s' % (tag, k, sp, m))
                    except PyRaise as e:
                        chk.violation(key, L, '%s: %s refuses %s: %s' % (tag, k, sp, e))
                    except Undecided as u:
                        chk.undecided(key, L, str(u))


def values(chk, I):
    for text, want in (('0', 0), ('5', 5), ('0x10', 16), ('0xFFFFFFFF', 0xFFFFFFFF), ('4294967295', 0xFFFFFFFF)):
        chk.count('stream identifiers')
        try:
            o = section(I, '!StreamID', text)
            got = o.attrs.get('value')
        except PyRaise as e:
            got = e
        chk.require(same(got, want), '!StreamID/' + text, L, 'stream identifier %s becomes %s' % (text, show(got)))
    for text in ('abc', '0xZZ', '1.5', 'required', '-1', '0x1FFFFFFFF', '4294967296'):
        chk.count('refused')
        try:
            section(I, '!StreamID', text)
            chk.violation('!StreamID/refuses ' + text, L, 'stream identifier %s is accepted' % text)
        except PyRaise:
            chk.ok('!StreamID/refuses ' + text, L)
    for mp in ({'a': 'bool'}, {'a': 5}, {'a': None}):
        chk.count('refused')
        try:
            section(I, '!StreamID', mp)
            chk.violation('!StreamID/constituent %s' % mp, L, 'stream identifier constituent %s is accepted' % mp)
        except PyRaise:
            chk.ok('!StreamID/constituent %s' % mp, L)
    # no action: only the state request goes with it (8.3.1.5), whatever the order
    for extra in ('req_v', 'req_x', 'req_w', 'req_er', None):
        for perm in itertools.permutations(['action_mode', 'req_s'] + ([extra] if extra else [])):
            chk.count('action mode combinations')
            key = '!ControlAcknowledgeMode/none/' + ','.join(perm)
            mp = {k: 'none' if k == 'action_mode' else True for k in perm}
            try:
                section(I, '!ControlAcknowledgeMode', mp)
                r = None
            except PyRaise as e:
                r = e
            chk.require((r is None) == (extra is None), key, L, 'action mode none with %s is %s' %
                        (', '.join(p for p in perm if p != 'action_mode'), 'accepted' if r is None else 'refused: %s' % r))


def scalars(chk, I, tag):
    """text in place of a mapping must not vanish"""
    for tag in [tag]:
        chk.count('refused')
        key = tag + '/text'
        try:
            section(I, tag, 'required')
            chk.violation(key, L, '%s followed by text is accepted and the text ignored' % tag)
        except PyRaise:
            chk.ok(key, L)
        except Undecided as u:
            chk.undecided(key, L, str(u))
        try:
            if tag != '!ClassID':
                section(I, tag, '')
            chk.ok(tag + '/bare', L)
        except PyRaise as e:
            chk.violation(tag + '/bare', L, 'a bare %s is refused: %s' % (tag, e))
