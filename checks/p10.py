RULE = ('constant evaluation of every literal parser over its documented spellings (each in several letter cases) '
        'against the frozen VITA 49.2 code points, over the abstract class of all other strings and over the other '
        'value kinds (must be refused); organisation identifiers over every character class at every position; and '
        'the same literals through the section that carries them')
import itertools
from pylib import *
from vita_enums import CODES

S = 'src/vrtgen/parser/value.py'
# function -> documented spelling -> (code point); None marks generator-side wildcards outside the wire range
LITS = {
    'parse_tsi': {'none': 0, 'utc': 1, 'gps': 2, 'other': 3, 'any': 7},
    'parse_tsf': {'none': 0, 'samples': 1, 'picoseconds': 2, 'free-running': 3, 'any': 7},
    'parse_tsm': {'fine': 0, 'coarse': 1, 'any': 7},
    'parse_spectrum_or_time': {'time': 0, 'spectrum': 1},
    'parse_identifier_format': {'word': 0, 'uuid': 1},
    'parse_action_mode': {'none': 0, 'dry-run': 1, 'execute': 2},
    'parse_timing_control': {'ignore': 0, 'device': 1, 'late': 2, 'early': 3, 'early-late': 4},
    'parse_entry_size': {'8': 1, '16': 2, '32': 4},
    'parse_enable': {'required': 'REQUIRED', 'optional': 'OPTIONAL'},
}
# enumeration each parser belongs to
ENUM = {'parse_tsi': 'TSI', 'parse_tsf': 'TSF', 'parse_tsm': 'TSM', 'parse_spectrum_or_time': 'SPECTRUM_OR_TIME',
        'parse_identifier_format': 'IdentifierFormat', 'parse_action_mode': 'ActionMode',
        'parse_timing_control': 'TimestampControlMode', 'parse_entry_size': 'EntrySize', 'parse_enable': 'Mode'}


def cases(s):
    return sorted({s, s.upper(), s.title(), s.swapcase(), s[:1] + s[1:].upper()})


def value_of(v):
    return v.value if isinstance(v, EM) else v


def run(chk):
    I = interp()
    m = I.import_module('vrtgen.parser.value')
    chk.floor('spellings', 90)
    chk.floor('refused inputs', 60)
    found = {n for n, v in m.ns.items() if n.startswith('parse_') and isinstance(v, Fn)}
    unknown = found - set(LITS) - {'parse_oui'}
    chk.extra['literal parsers without a table'] = sorted(unknown)
    for fn, lits in sorted(LITS.items()):
        f = m.ns.get(fn)
        if f is None:
            raise Broken('%s not found in value.py' % fn)
        for lit, want in sorted(lits.items()):
            for sp in cases(lit):
                chk.count('spellings')
                key = '%s/%s' % (fn, lit if sp == lit else lit + '~' + sp)
                try:
                    r = I.call(f, [sp], {})
                except PyRaise as e:
                    chk.violation(key, S, '%s refuses the documented spelling %r: %s' % (fn, sp, e))
                    continue
                got = r.name if isinstance(r, EM) and isinstance(want, str) else value_of(r)
                chk.require(got == want, key, S, '%s maps %r to %s, the code point of that meaning is %s' %
                            (fn, sp, show(r), want))
                chk.require(isinstance(r, EM) and r.cls.name == ENUM[fn], key + '/type', S,
                            '%s maps %r to %s, not to a member of %s' % (fn, sp, show(r), ENUM[fn]))
        if fn == 'parse_entry_size':
            for n, want in ((8, 1), (16, 2), (32, 4)):
                chk.count('spellings')
                try:
                    r = value_of(I.call(f, [n], {}))
                except PyRaise as e:
                    r = e
                chk.require(r == want, 'parse_entry_size/int%d' % n, S, 'entry size %d maps to %s, not to %d' % (n, show(r), want))
        refused(chk, fn, lits)
    oui(chk)
    sections(chk)


def refused(chk, fn, lits):
    """the class of all other strings, near misses and values of other kinds"""
    near = set()
    for l in lits:
        near |= {l + ' ', ' ' + l, l + 's', l[:-1], l.replace('-', '_'), l.replace('-', ' '), l.replace('-', ''), ''}
        near |= {l + '\n', l + ',' + l}
    near -= set(lits)
    near |= {'0', '1', '2', 'true', 'yes', 'disabled', 'mandatory', 'null'}
    others = [Unk('str', 'unlisted spelling', other=True)] + sorted(near) + [None, 0, 1, 7, True, False, 2.5, [], {}]
    for o in others:
        chk.count('refused inputs')
        key = '%s/refuses/%s' % (fn, 'any other string' if isinstance(o, Unk) else repr(o))

        def mk():
            I = shared()
            return I, I.import_module('vrtgen.parser.value').ns[fn]
        try:
            for I, f, r, e in traces(mk, lambda I, f: I.call(f, [o], {})):
                chk.require(e is not None, key, S, '%s accepts %s, which names no code point, as %s' %
                            (fn, 'unlisted strings' if isinstance(o, Unk) else repr(o), show(r)))
        except Undecided as u:
            chk.undecided(key, S, str(u))


_I = []


def shared():
    if not _I:
        _I.append(interp())
    return _I[0]


def oui(chk):
    """XX-XX-XX: at every position every character of ASCII plus one outside it"""
    I = shared()
    f = I.import_module('vrtgen.parser.value').ns.get('parse_oui')
    if f is None:
        raise Broken('parse_oui not found')
    chk.floor('organisation identifiers', 900)
    base = 'AC-DE-48'
    chars = [chr(c) for c in range(128)] + ['\u0660', 'é']
    hexd = '0123456789abcdefABCDEF'
    def one(s, why, ok, want=None):
        chk.count('organisation identifiers')
        key = 'parse_oui/' + why
        try:
            r = I.call(f, [s], {})
        except PyRaise as e:
            chk.require(not ok, key, S, 'organisation identifier %r is refused: %s' % (s, e))
            return
        except Undecided as u:
            chk.undecided(key, S, str(u))
            return
        if not ok:
            chk.violation(key, S, 'organisation identifier %r is accepted as %s' % (s, show(r)))
        else:
            chk.require(r == want, key, S, 'organisation identifier %r becomes %s, not 0x%06X' % (s, show(r), want))
    for i in range(8):
        for ch in chars:
            s = base[:i] + ch + base[i + 1:]
            ok = (ch == '-') if i in (2, 5) else ch in hexd
            one(s, 'char%d/%r' % (i, ch), ok, int(s.replace('-', ''), 16) if ok else None)
    for i in range(3):
        for j in range(256):
            s = ['AC', 'DE', '48']
            s[i] = '%02X' % j
            one('-'.join(s), 'octet%d/%d' % (i, j), True, int(''.join(s), 16))
    for s in ('', 'AC-DE', 'AC-DE-4', 'AC-DE-489', 'AAC-DE-48', 'ACDE48', 'AC-DE-48-', '-AC-DE-48', 'AC-DE-48-00', ' AC-DE-48'):
        one(s, 'form/%r' % s, False)
    for v in (None, 5, [], {}):
        one(v, 'kind/%r' % (v,), False)
    # reserved for the standard's own extension classes, in whatever case it is spelled
    for s in itertools.product(('00',), ('12',), ('A2', 'a2')):
        one('-'.join(s), 'reserved/' + '-'.join(s), False)


# section constructor, key, path of the value in the section, literal parser
CARRIED = [
    ('!Timestamp', 'integer', 'tsi.value', 'parse_tsi'),
    ('!Timestamp', 'fractional', 'tsf.value', 'parse_tsf'),
    ('!Data', 'spectrum_or_time', 'header.spectrum_or_time.value', 'parse_spectrum_or_time'),
    ('!Context', 'tsm', 'header.tsm.value', 'parse_tsm'),
    ('!ExtensionContext', 'tsm', 'header.tsm.value', 'parse_tsm'),
    ('!Control', 'controllee_id', 'controllee_id.format', 'parse_identifier_format'),
    ('!Control', 'controller_id', 'controller_id.format', 'parse_identifier_format'),
    ('!Control', 'controllee_id', 'cam.controllee_format.value', 'parse_identifier_format'),
    ('!Control', 'controller_id', 'cam.controller_format.value', 'parse_identifier_format'),
    ('!ExtensionControl', 'controllee_id', 'controllee_id.format', 'parse_identifier_format'),
    ('!ExtensionControl', 'controller_id', 'controller_id.format', 'parse_identifier_format'),
    ('!ExtensionControl', 'controllee_id', 'cam.controllee_format.value', 'parse_identifier_format'),
    ('!ExtensionControl', 'controller_id', 'cam.controller_format.value', 'parse_identifier_format'),
    ('!ControlAcknowledgeMode', 'action_mode', 'action_mode.value', 'parse_action_mode'),
    ('!ControlAcknowledgeMode', 'controllee_format', 'controllee_format.value', 'parse_identifier_format'),
    ('!ControlAcknowledgeMode', 'controller_format', 'controller_format.value', 'parse_identifier_format'),
    ('!IndexList', 'entry_size', 'entry_size.value', 'parse_entry_size'),
]


def path(I, o, p):
    for n in p.split('.'):
        if not isinstance(o, Obj) or n not in o.attrs:
            raise Broken('no attribute %s' % p)
        o = o.attrs[n]
    return o


def sections(chk):
    I = shared()
    lm = I.import_module('vrtgen.parser.loader')
    L = 'src/vrtgen/parser/loader.py'
    chk.floor('carried literals', 40)
    for ctor, k, p, fn in CARRIED:
        for lit, want in sorted(LITS[fn].items()):
            chk.count('carried literals')
            key = '%s/%s/%s>%s' % (ctor, k, lit, p)
            mp = {k: lit}
            if fn == 'parse_action_mode' and lit == 'none':
                mp = {'req_s': True, k: lit}    # 8.3.1.5: no action requires the state request
            try:
                o = section(I, ctor, mp)
            except PyRaise as e:
                chk.violation(key, L, '%s: %s is refused: %s' % (k, lit, e))
                continue
            got = value_of(path(I, o, p))
            chk.require(got == want, key, L, '%s: %s of %s yields code point %s, not %s' % (k, lit, ctor, show(got), want))
        chk.count('carried literals')

        def mk():
            return I, None
        key = '%s/%s/any other string' % (ctor, k)
        try:
            for _, _, r, e in traces(mk, lambda I, c: section(I, ctor, {k: Unk('str', 'unlisted', other=True)})):
                chk.require(e is not None, key, L, '%s accepts strings that name no code point' % k)
        except Undecided as u:
            chk.undecided(key, L, str(u))
    # organisation identifier and codes of the class identifier
    for k, p, v, want in (('oui', 'oui.value', 'AC-DE-48', 0xACDE48), ('information_code', 'information_code.value', 0x1234, 0x1234),
                          ('packet_code', 'packet_code.value', 0x4321, 0x4321)):
        chk.count('carried literals')
        try:
            got = value_of(path(I, section(I, '!ClassID', {k: v}), p))
        except PyRaise as e:
            got = e
        chk.require(got == want, '!ClassID/' + k, L, '%s of the class identifier becomes %s, not %s' % (k, show(got), want))
    # the entry size also fixes the element type of the generated list
    for n in (8, 16, 32):
        try:
            o = section(I, '!IndexList', {'entry_size': n})
        except PyRaise as e:
            chk.violation('index_list/%d/refused' % n, L, 'entry size %d is refused: %s' % (n, e))
            continue
        got = (path(I, o, 'entries.type_.bits'), path(I, o, 'template_type'))
        chk.require(got == (n, 'uint%d_t' % n), 'index_list/%d/type' % n, L, 'entry size %d gives entries of %s' % (n, got))
