RULE = ('bit provenance: for every subfield of the frozen VITA 49.2 table, the accessor composed with '
        'unpack_from must return exactly the assigned wire bits, and pack_into after the writer must carry '
        'the value bits at exactly the assigned wire position')
from packlib import *
import vita


def run(chk):
    P = prog()
    chk.floor('readers', 150)
    chk.floor('writers', 150)
    chk.extra['source'] = sorted({rel(f['file']) for f in P.fns.values() if '/packing/' in f['file']})
    for cname, (words, fields) in sorted(vita.STRUCTS.items()):
        W = WireClass(P, NS + cname)
        for name, word, msb, bits, kind in fields:
            reader(chk, W, cname, words * 4, name, word, msb, bits, kind)
            writer(chk, W, cname, words * 4, name, word, msb, bits, kind)
    for cname, gated in sorted(vita.GATED.items()):
        W = WireClass(P, NS + cname)
        for name, (msb, bits, en) in sorted(gated.items()):
            reader(chk, W, cname, 4, name, 0, msb, bits, 'opt')
            writer(chk, W, cname, 4, name, 0, msb, bits, 'u')


def reader(chk, W, cname, n, name, word, msb, bits, kind):
    fn = W.method(name, 0)
    chk.count('readers')
    where, oid = W.where(fn), '%s::%s/read' % (cname, name)
    try:
        g = Getter(W, fn, n)
    except Unsupported as e:
        return chk.undecided(oid, where, str(e))
    want = wire_bits(g.wire, word, msb, bits)
    v = g.value
    if kind == 'opt':
        if not isinstance(v, Opt):
            return chk.undecided(oid, where, 'not an optional')
        got = g.I.to_bv(v.v, max(bits, len(v.v.b) if isinstance(v.v, BV) else 8)).b
        ok = all(B.AND(B.XOR(x, y), v.p) == 0 for x, y in zip(got, want + [0] * 64))
    elif isinstance(kind, tuple):
        k = v.k if isinstance(v, Flt) else None
        if k and k[0] == 'scale':
            k = k[1]
        if not k or k[0] != 'int':
            if k and k[0] == 'const':
                return chk.violation(oid, where, '%s::%s returns a constant' % (cname, name))
            return chk.undecided(oid, where, 'value form %r' % (v,))
        s = strip_ext(k[1], bits, k[2])
        ok = s is not None and list(s[0]) == want
        got = k[1]
    else:
        if isinstance(v, (Top, Opt, Rec)):
            return chk.undecided(oid, where, 'value form %r' % (v,))
        if kind == 'p1':
            w = W.P.width(fn['ret'])
            want = list(g.I.to_bv(g.I.to_lin(BV(want)).add(Lin(1)), w).b)
        got = g.bits()
        if len(got) < len(want):
            ok = False
        else:
            ok = list(got) == list(want) + [0] * (len(got) - len(want))
    chk.require(ok, oid, where, '%s::%s() does not read wire bits word %d [%d:%d]' % (cname, name, word, msb, msb - bits + 1),
                'got %s, VITA 49.2 assigns %s' % (show_bits(got), show_bits(want)))


def writer(chk, W, cname, n, name, word, msb, bits, kind):
    fn = W.method(name, 1)
    chk.count('writers')
    where, oid = W.where(fn), '%s::%s/write' % (cname, name)
    try:
        s = Setter(W, fn, n)
    except Unsupported as e:
        return chk.undecided(oid, where, str(e))
    got = wire_bits(s.out, word, msb, bits)
    if isinstance(kind, tuple):
        src = fix_source(got)
        ok = src is not None and src[1] == ('src', 'value')
        want = [B.var((('converted', 'value'), i)) for i in range(bits)]
    else:
        v = s.I.to_bv(s.arg, max(bits, len(s.arg.b)))
        if kind == 'p1':
            want = list(s.I.to_bv(s.I.to_lin(v).add(Lin(-1)), bits).b)
            c = 1
        else:
            want = list(v.b[:bits])
            c = cond_in_range(v, bits)
        ok = all(same_under(a, b, c) for a, b in zip(got, want))
    chk.require(ok, oid, where, '%s::%s(value) does not store value in wire bits word %d [%d:%d]' % (cname, name, word, msb, msb - bits + 1),
                'got %s, VITA 49.2 needs %s' % (show_bits(got), show_bits(want)))
