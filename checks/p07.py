RULE = ('bit provenance of gated indicators: the reader is present exactly under its own enable bit(s), the '
        'writer sets exactly those enable bits together with the value, the resetter clears value and enable; the same for the indicators of generated trailer classes')
from packlib import *
import vita


def run(chk):
    P = prog()
    chk.floor('gated indicators', 18)
    for cname, g in sorted(vita.GATED.items()):
        W = WireClass(P, NS + cname)
        for name, (msb, bits, en) in sorted(g.items()):
            chk.count('gated indicators')
            gated(chk, W, cname, name, msb, bits, en)
    import userclass
    userclass.run(chk, ('trailer',))


def gated(chk, W, cname, name, msb, bits, en, n=4, word=0):
    rd, wr = W.method(name, 0), W.method(name, 1)
    oid = '%s::%s' % (cname, name)
    try:
        g = Getter(W, rd, n)
        e = 1
        for x in en:
            e = B.AND(e, wire_bits(g.wire, word, x, 1)[0])
        if not isinstance(g.value, Opt):
            chk.undecided(oid, W.where(rd), 'reader is not optional')
        else:
            chk.require(g.value.p == e, oid + '/read-gate', W.where(rd),
                        '%s() yields a value under %s, not under enable bit %s' % (oid, B.show(g.value.p), en))
        s = Setter(W, wr, n)
        got = [wire_bits(s.out, word, x, 1)[0] for x in en]
        chk.require(all(x == 1 for x in got), oid + '/write-enable', W.where(wr),
                    '%s(value) does not set enable bit %s' % (oid, en), show_bits(got))
        want = s.I.to_bv(s.arg, max(bits, len(s.arg.b)))
        got = wire_bits(s.out, word, msb, bits)
        c = cond_in_range(want, bits)
        chk.require(all(same_under(x, y, c) for x, y in zip(got, want.b)), oid + '/write-value', W.where(wr),
                    '%s(value) does not store the value' % oid, show_bits(got))
        rs = W.method('reset_' + name, 0, optional=True)
        if rs is not None:
            chk.count('resetters')
            s = Setter(W, rs, n)
            own = set(wire_index(word, msb, bits))
            for x in en:
                own |= wire_index(word, x, 1)
            left = [i for i in own if s.out[i // 8].b[7 - i % 8] != 0]
            chk.require(not left, oid + '/reset', W.where(rs), 'reset_%s() leaves its value or enable bit set' % name)
            other = [i for i in range(n * 8) if i not in own and s.out[i // 8].b[7 - i % 8] != s.wire[i // 8].b[7 - i % 8]]
            chk.require(not other, oid + '/reset-isolation', W.where(rs), 'reset_%s() changes other bits' % name)
        sw = W.method(name + '_enable', 0, optional=True)
        if sw is not None:
            g = Getter(W, sw, n)
            e = 1
            for x in en:
                e = B.AND(e, wire_bits(g.wire, word, x, 1)[0])
            chk.require(g.I.to_bv(g.value, 1).b[0] == e, oid + '/enable-read', W.where(sw), '%s_enable() does not read its enable bit' % oid)
    except Unsupported as ex:
        chk.undecided(oid, W.where(rd), str(ex))
