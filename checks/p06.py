RULE = ('abstract scaling: the reader of every scaled field must be int(wire bits) * 2^-radix with the width and '
        'signedness of the standard, the writer must convert value * 2^radix through an integer type that holds '
        'every wire value')
from fractions import Fraction
from packlib import *
import vita


def run(chk):
    P = prog()
    chk.floor('scaled fields', 30)
    for cname, (words, fields) in sorted(vita.STRUCTS.items()):
        W = WireClass(P, NS + cname)
        if any(isinstance(f[4], tuple) for f in fields):
            try:
                defaults(chk, W, cname, words * 4)
            except Unsupported as e:
                chk.undecided(cname + '/default-range', rel(W.file), str(e))
        for name, word, msb, bits, kind in fields:
            if isinstance(kind, tuple):
                chk.count('scaled fields')
                scaled(chk, W, cname, words * 4, name, word, msb, bits, kind[1], kind[2])


def scaled(chk, W, cname, n, name, word, msb, bits, radix, signed):
    rd, wr = W.method(name, 0), W.method(name, 1)
    oid = '%s::%s' % (cname, name)
    try:
        g = Getter(W, rd, n)
        check_read(chk, oid, W.where(rd), g.value, wire_bits(g.wire, word, msb, bits), bits, radix, signed)
        s = Setter(W, wr, n)
        check_write(chk, oid, W.where(wr), wire_bits(s.out, word, msb, bits), bits, radix, signed)
    except Unsupported as e:
        chk.undecided(oid, W.where(rd), str(e))


def check_read(chk, oid, where, v, wire, bits, radix, signed):
    k = v.k if isinstance(v, Flt) else None
    f = Fraction(1)
    while k and k[0] in ('scale', 'f32', 'conv'):
        if k[0] == 'scale':
            f *= k[2]
        k = k[1]
    if not k or k[0] != 'int':
        return chk.undecided(oid + '/read-scale', where, 'value form %r' % (v,))
    s = strip_ext(k[1], bits, k[2])
    chk.require(f == Fraction(1, 1 << radix), oid + '/read-scale', where,
                '%s() scales the wire integer by %s, VITA 49.2 uses 2^-%d' % (oid, f, radix))
    if s is not None:
        chk.require(s[1] == signed, oid + '/read-sign', where,
                    '%s() reads a%s integer, VITA 49.2 specifies a%s one' % (oid, 'n unsigned' if not s[1] else ' signed', 'n unsigned' if not signed else ' signed'))


def check_write(chk, oid, where, got, bits, radix, signed):
    src = fix_source(got)
    if src is None:
        if all(x in (0, 1) for x in got):
            return chk.violation(oid + '/write-scale', where, '%s(value) ignores its value' % oid)
        return chk.undecided(oid + '/write-scale', where, 'encoded form ' + show_bits(got)[:200])
    mode, fk, scale, w, sg = src
    chk.require(scale == (1 << radix), oid + '/write-scale', where,
                '%s(value) scales by %s, VITA 49.2 uses 2^%d' % (oid, scale, radix))
    lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    clo, chi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    chk.require(clo <= lo and hi <= chi, oid + '/write-range', where,
                '%s(value) converts through a %d-bit %s integer that cannot hold the wire range %d..%d' %
                (oid, w, 'signed' if sg else 'unsigned', lo, hi))


def defaults(chk, W, cname, n):
    """no constant converted while constructing the structure lies outside its wire integer"""
    I, st = W.fresh()
    obj = W.default(I, st)
    out = W.pack(I, st, obj, n)
    bad = set()
    for by in out:
        for b in by.b:
            for k in B.deep_support(b):
                if isinstance(k[0], tuple) and k[0][0] == 'fpoverflow':
                    bad.add(k[0][1:])
    chk.require(not bad, cname + '/default-range', rel(W.file),
                'the default constructor of %s converts a value outside its wire integer' % cname,
                ', '.join('%s does not fit %d bits' % b for b in sorted(bad)))
