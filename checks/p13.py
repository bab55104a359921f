RULE = ('abstract evaluation of the parser on a control packet and its acknowledgement: for every context field and mode, '
        'and every combination of acknowledge requests, the warning/error indicator at the same wire bit carries the same '
        'name and is enabled exactly when validation or execution is requested; state fields, identifiers, timestamp and '
        'mode bits are those of the control packet; responds_to must name an earlier control packet')
import itertools
from pylib import *
import vita

L = 'src/vrtgen/parser/model/command.py'
PF = 'src/vrtgen/parser/__init__.py'
REQ = ('v', 'x', 's', 'w', 'er')
PAIRS = (('!Control', '!Ack'), ('!ExtensionControl', '!ExtensionAck'))


def mirror(I, pair, ctrl, ack=None):
    """(control, acknowledgement) as the parser leaves them"""
    ack = dict(ack or {})
    ack['responds_to'] = 'Ctrl'
    out = dict(yaml_stream(I, {'Ctrl': lambda: section(I, pair[0], {k: b() for k, b in ctrl.items()}),
                               'Answer': lambda: section(I, pair[1], {k: b() if callable(b) else b for k, b in ack.items()})}))
    return out['Ctrl'], out['Answer']


def cam(I, reqs, **more):
    d = {'req_' + r: True for r in reqs}
    d.update(more)
    return lambda: section(I, '!ControlAcknowledgeMode', d)


FORM = {'sector_step_scan': '!SectorStepScan', 'index_list': '!IndexList'}


def cif_of(I, n, k, mode):
    v = (lambda: section(I, FORM[k], {})) if k in FORM else (lambda: mode)
    return lambda: section(I, '!CIF%d' % n, {k: v()})


def en(f):
    return f.attrs.get('enabled')


def run(chk):
    I = interp()
    chk.floor('fields', 70)
    chk.floor('obligations', 2000)
    jobs = []
    for pair in PAIRS:
        for n in (0, 1, 2):
            c = make(I, cls_of(I, MODEL + 'cif%d.CIF%d' % (n, n)))
            for bit, (k, f) in sorted(fields_by_bit(I, c).items()):
                if f.attrs.get('indicator_only'):
                    continue
                jobs.append((pair, n, bit, k))
    chk.spread(chunks(jobs, 16), lambda c, js: [field(c, I, *j) for j in js])
    chk.spread(PAIRS, lambda c, p: whole(c, I, p))
    lookup(chk, I)


def chunks(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def field(chk, I, pair, n, bit, k):
    chk.count('fields')
    modes = ['required'] if k in FORM else ['required', 'optional']
    for mode in modes:
        for reqs in ((), ('v',), ('x',), ('s',), ('v', 'x', 's')) if mode == 'required' or chk.tier == 'thorough' else (('x', 's'),):
            key = '%s/cif_%d.%s=%s/%s' % (pair[1], n, k, mode, '+'.join(reqs) or 'none')
            try:
                c, a = mirror(I, pair, {'cam': cam(I, reqs), 'cif_%d' % n: cif_of(I, n, k, mode)})
            except PyRaise as e:
                chk.violation(key, L, 'the exchange is refused: %s' % e)
                continue
            except Undecided as u:
                chk.undecided(key, L, str(u))
                continue
            ask = 'v' in reqs or 'x' in reqs
            for w in ('wif', 'eif'):
                chk.count('obligations')
                word = a.attrs.get('%s_%d' % (w, n))
                if not isinstance(word, Obj):
                    raise Broken('acknowledge packets have no %s_%d' % (w, n))
                got = fields_by_bit(I, word).get(bit)
                if got is None:
                    chk.violation('%s_%d/%s' % (w, n, k), L, 'no indicator at bit %d of %s_%d for %s' % (bit, w, n, k))
                    continue
                chk.require(got[0] == k and got[1].attrs.get('name') == k, '%s_%d/%s/name' % (w, n, k), L,
                            'the %s_%d indicator of %s is called %s' % (w, n, k, got[0]))
                chk.require(en(got[1]) is ask, key + '/' + w, L, '%s requested for %s: indicator of %s is %s' %
                            ('+'.join(reqs) or 'nothing', k, w, 'enabled' if en(got[1]) else 'disabled'))
                if ask:
                    chk.require(en(word) is True, key + '/' + w + '/word', L, 'the %s_%d word is not enabled for %s' % (w, n, k))
                others = [x for b, (x, f) in fields_by_bit(I, word).items() if b != bit and en(f)
                          and not x.endswith('_enable')]
                chk.require(not others, key + '/' + w + '/others', L, '%s_%d also enables %s for %s' % (w, n, others[:4], k))
            chk.count('obligations')
            if 's' in reqs:
                d = diff(snapshot(I, a.attrs['cif_%d' % n]), snapshot(I, c.attrs['cif_%d' % n]))
                chk.require(not d, key + '/state', L, 'state of %s differs from the control packet: %s' % (k, d[:4]))
                chk.require(en(a.attrs['cif_%d' % n]) is True, key + '/state/word', L, 'cif_%d of the acknowledgement is not enabled' % n)


def whole(chk, I, pair):
    # acknowledge requests
    for m in range(len(REQ) + 1):
        for reqs in itertools.combinations(REQ, m):
            key = '%s/requests/%s' % (pair[1], '+'.join(reqs) or 'none')
            try:
                c, a = mirror(I, pair, {'cam': cam(I, reqs)})
            except PyRaise as e:
                chk.violation(key, L, 'the exchange is refused: %s' % e)
                continue
            for r in REQ:
                chk.count('obligations')
                f = a.attrs['cam'].attrs.get('ack_' + r)
                if not isinstance(f, Obj):
                    raise Broken('no ack_%s in the acknowledge mode' % r)
                want = r in reqs
                chk.require(bool(en(f)) is want and bool(f.attrs['value']) is want, key + '/ack_' + r, L,
                            'req_%s %s gives ack_%s enabled=%s value=%s' % (r, want, r, en(f), f.attrs['value']))
    # the rest of the exchange
    variants = {
        'timestamp': [{'timestamp': lambda v=v: section(I, '!Timestamp', v)} for v in
                      ({'integer': 'utc'}, {'fractional': 'samples'}, {'integer': 'gps', 'fractional': 'picoseconds'}, {'integer': 'any'})],
        'controllee_id': [{'controllee_id': lambda f=f: f} for f in ('word', 'uuid')],
        'controller_id': [{'controller_id': lambda f=f: f} for f in ('word', 'uuid')],
        'stream_id': [{'stream_id': lambda v=v: section(I, '!StreamID', v)} for v in ('', '0x1234')] +
        [{'stream_id': lambda: section(I, '!StreamID', {'a': section(I, '!IntegerType', {'bits': 12}), 'b': section(I, '!IntegerType', {'bits': 20})})}],
        'class_id': [{'class_id': lambda: section(I, '!ClassID', {'oui': 'AC-DE-48', 'packet_code': 7})}],
        'cam': [{'cam': cam(I, ('x',), **{k: v})} for k, v in (('action_mode', 'execute'), ('action_mode', 'dry-run'),
                                                             ('permit_partial', True), ('permit_warnings', True), ('permit_errors', 'optional'),
                                                             ('controllee_format', 'uuid'), ('controller_format', 'word'))],
    }
    for part, vs in sorted(variants.items()):
        for i, v in enumerate(vs):
            key = '%s/%s/%d' % (pair[1], part, i)
            try:
                c, a = mirror(I, pair, v)
            except PyRaise as e:
                chk.violation(key, L, 'the exchange is refused: %s' % e)
                continue
            except Undecided as u:
                chk.undecided(key, L, str(u))
                continue
            sc, sa = snapshot(I, c), snapshot(I, a)
            want = {p: x for p, x in sc.items() if wanted(p)}
            bad = [p for p, x in want.items() if not same(sa.get(p), x)]
            chk.count('obligations', len(want))
            chk.require(not bad, key, L, 'the acknowledgement differs from its control packet in %s' %
                        ['%s: %s, not %s' % (p, show(sa.get(p)), show(want[p])) for p in bad[:4]])
    # a class identifier of its own stands
    c, a = mirror(I, pair, {'class_id': lambda: section(I, '!ClassID', {'oui': 'AC-DE-48', 'packet_code': 7})},
                  {'class_id': lambda: section(I, '!ClassID', {'oui': '12-34-56', 'packet_code': 9})})
    s = snapshot(I, a)
    chk.require(s['class_id.oui.value'] == 0x123456 and s['class_id.packet_code.value'] == 9 and s['header.class_id_enable.value'] is True,
                pair[1] + '/own class_id', L, 'the class identifier given for the acknowledgement is replaced by that of its control packet')
    c, a = mirror(I, pair, {}, {'class_id': lambda: section(I, '!ClassID', {'oui': '12-34-56'})})
    s = snapshot(I, a)
    chk.require(s['class_id.oui.value'] == 0x123456 and s['header.class_id_enable.value'] is True and s['header.class_id_enable.enabled'] is True,
                pair[1] + '/only class_id', L, 'the class identifier given for the acknowledgement is lost or its header bit is')
    chk.require(s['header.acknowledge_packet.value'] is True, pair[1] + '/kind', L, 'the header does not mark an acknowledgement')


def wanted(p):
    head = p.split('.')[0]
    if head in ('stream_id', 'class_id', 'timestamp', 'controllee_id', 'controller_id'):
        return True
    if p.startswith(('header.tsi.', 'header.tsf.', 'header.class_id_enable.')):
        return True
    if head == 'cam' and p.startswith('cam.'):
        return not p.startswith(('cam.req_', 'cam.type_', 'cam!'))
    return False


def lookup(chk, I):
    """responds_to must name an earlier control packet"""
    ctrl = lambda: section(I, '!Control', {})
    data = lambda: section(I, '!Data', {})
    ctx = lambda: section(I, '!Context', {})
    ack = lambda name=None: (lambda: section(I, '!Ack', {'responds_to': name} if name is not None else {}))
    bad = {'no responds_to': {'C': ctrl, 'A': ack()}, 'unknown name': {'C': ctrl, 'A': ack('D')}, 'later control': {'A': ack('C'), 'C': ctrl},
           'itself': {'C': ctrl, 'A': ack('A')}, 'a data packet': {'D': data, 'A': ack('D')}, 'a context packet': {'D': ctx, 'A': ack('D')},
           'another acknowledgement': {'C': ctrl, 'A': ack('C'), 'B': ack('A')}, 'other case': {'Ctrl': ctrl, 'A': ack('ctrl')},
           'empty name': {'C': ctrl, 'A': ack('')}}
    for n, doc in sorted(bad.items()):
        chk.count('lookups')
        try:
            yaml_stream(I, doc)
            chk.violation('responds_to/' + n.replace(' ', '-'), PF, 'an acknowledgement responding to %s is accepted' % n)
        except PyRaise:
            chk.ok('responds_to/' + n, PF)
    good = {'first': {'C': ctrl, 'A': ack('C')}, 'second': {'C': ctrl, 'D': lambda: section(I, '!ExtensionControl', {}), 'A': ack('D')},
            'two answers': {'C': ctrl, 'A': ack('C'), 'B': ack('C')}}
    for n, doc in sorted(good.items()):
        chk.count('lookups')
        try:
            r = yaml_stream(I, doc)
            chk.require([x[0] for x in r if x[0] != 'files'] == list(doc), 'responds_to/' + n, PF, 'definitions lost: %s' % [x[0] for x in r])
        except PyRaise as e:
            chk.violation('responds_to/' + n, PF, 'a valid exchange (%s) is refused: %s' % (n, e))
