RULE = ('every enumerator of the C++ library (folded by the compiler front end) and of the specification model '
        '(folded by the Python abstract interpreter) is compared with the frozen VITA 49.2 code tables; code points '
        'must be distinct within an enumeration and fit the wire field')
import packlib
import pylib
from pylib import *
import vita_enums as V


def members(pycls):
    return dict((n, m.value) for n, m in pycls.members.items())


def run(chk):
    P = packlib.prog()
    I = interp()
    em = I.import_module('vrtgen.parser.model.types.enums')
    cpp = {}
    for e in P.enums.values() if isinstance(P.enums, dict) else P.enums:
        cpp[e['n']] = e
    chk.floor('C++ enumerators', 100)
    chk.floor('model enumerators', 80)
    for name, (bits, codes) in sorted(V.CODES.items()):
        std = dict(codes)
        # --- library
        e = cpp.get('vrtgen::packing::' + name)
        if e is None and name in V.CPP:
            raise Broken('C++ enumeration %s vanished' % name)
        if e is not None:
            got = {v['n']: int(v['v']) for v in e['v']}
            w = '%s:%s' % (rel(e['file']), e['line'])
            judge(chk, 'cpp', name, bits, std, got, w, 'C++ enumerators')
            for n in std:
                if n not in got and n not in V.OPTIONAL_CPP.get(name, ()) and not n.startswith('RESERVED'):
                    chk.violation('cpp/%s/%s/missing' % (name, n), w, 'the library has no enumerator %s::%s' % (name, n))
        # --- model
        c = em.ns.get(name)
        if c is None and name in V.PY:
            raise Broken('model enumeration %s vanished' % name)
        if isinstance(c, Cls):
            got = members(c)
            w = where(c)
            b = I.getattr(c, 'bits')
            chk.require(b == bits, 'py/%s/bits' % name, w, 'the model gives %s %s bits, its wire field has %d' % (name, b, bits))
            judge(chk, 'py', name, bits, std, got, w, 'model enumerators')
            for n in std:
                if n not in got and not n.startswith('RESERVED'):
                    chk.violation('py/%s/%s/missing' % (name, n), w, 'the model has no enumerator %s.%s' % (name, n))
            # what an enumerator with no explicit value defaults to
            if 0 in std.values():
                d = I.call(c, [], {})
                chk.require(isinstance(d, EM) and d.value == 0, 'py/%s/default' % name, w,
                            'the default of %s is %s, not the zero code point' % (name, show(d)))
    # enumerations of the library that the tables do not know: distinctness and agreement with the model only
    for qn, e in sorted(cpp.items()):
        n = qn.split('::')[-1]
        if n in V.CODES or not qn.startswith('vrtgen::packing::'):
            continue
        distinct(chk, 'cpp/' + n, {v['n']: int(v['v']) for v in e['v']}, '%s:%s' % (rel(e['file']), e['line']))
    # classification properties of the packet type codes
    pt = em.ns['PacketType']
    for n, m in sorted(pt.members.items()):
        for prop, want in V.PACKET_CLASSES.items():
            chk.count('classifications')
            try:
                got = I.getattr(m, prop)
            except PyRaise as e:
                chk.violation('py/PacketType/%s/%s' % (n, prop), where(pt), 'PacketType.%s.%s raises %s' % (n, prop, e))
                continue
            chk.require(got == (n in want), 'py/PacketType/%s/%s' % (n, prop), where(pt),
                        'PacketType.%s.%s is %s' % (n, prop, got))
    dif = em.ns['DataItemFormat']
    for n, m in sorted(dif.members.items()):
        chk.count('classifications')
        got = I.getattr(m, 'is_signed')
        chk.require(got == (m.value < 16), 'py/DataItemFormat/%s/is_signed' % n, where(dif),
                    'DataItemFormat.%s.is_signed is %s' % (n, got))


def distinct(chk, key, got, w):
    inv = {}
    for n, v in got.items():
        if v in inv:
            chk.violation('%s/%s=%s/shared' % (key, inv[v], n), w, '%s and %s share code point %d' % (inv[v], n, v))
        inv.setdefault(v, n)
    chk.ok(key + '/distinct', w)


def judge(chk, side, name, bits, std, got, w, counter):
    sent = V.SENTINELS.get((side, name), {})
    for n, v in sorted(got.items()):
        chk.count(counter)
        if n in sent and n not in std:
            # not a wire code: it must lie outside the field so that it can never be mistaken for one
            chk.require(v > max(std.values()), '%s/%s/%s' % (side, name, n), w,
                        '%s.%s (%d) collides with a wire code' % (name, n, v))
            continue
        if n not in std:
            chk.require(v < (1 << bits), '%s/%s/%s/fits' % (side, name, n), w,
                        'code point %d of %s::%s does not fit its %d-bit field' % (v, name, n, bits))
            continue
        chk.require(v == std[n], '%s/%s/%s' % (side, name, n), w,
                    '%s::%s is %d, VITA 49.2 assigns %d' % (name, n, v, std[n]))
        chk.require(v < (1 << bits), '%s/%s/%s/fits' % (side, name, n), w,
                    'code point %d of %s::%s does not fit its %d-bit field' % (v, name, n, bits))
    distinct(chk, '%s/%s' % (side, name), got, w)
