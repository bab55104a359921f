RULE = ('bit provenance of every presence indicator reader and writer against the frozen VITA 49.2 indicator '
        'words; warning and error words are compared with the context word they mirror')
from packlib import *
import vita

MIRROR = [('WIF0', 'CIF0'), ('EIF0', 'CIF0'), ('WEIF1', 'CIF1'), ('WEIF2', 'CIF2'), ('WEIF7', 'CIF7')]
NOT_INDICATORS = {'any', 'none', 'size', 'pack_into', 'unpack_from'}


def run(chk):
    P = prog()
    chk.floor('indicators', 250)
    for cname, ind in sorted(vita.INDICATORS.items()):
        W = WireClass(P, NS + cname)
        for name, bit in sorted(ind.items()):
            chk.count('indicators')
            rd, wr = W.method(name, 0), W.method(name, 1)
            try:
                g = Getter(W, rd, 4)
                want = wire_bits(g.wire, 0, bit, 1)[0]
                got = g.I.to_bv(g.value, 1).b[0]
                chk.require(got == want, '%s::%s/read' % (cname, name), W.where(rd),
                            '%s::%s() is not indicator bit %d' % (cname, name, bit), 'got ' + B.show(got))
                s = Setter(W, wr, 4)
                got = wire_bits(s.out, 0, bit, 1)[0]
                want = s.I.truth_raw(s.arg, s.st) if False else s.arg.b[0]
                ok = got == want
                chk.require(ok, '%s::%s/write' % (cname, name), W.where(wr),
                            '%s::%s(value) does not store indicator bit %d' % (cname, name, bit), 'got ' + B.show(got))
            except Unsupported as e:
                chk.undecided('%s::%s' % (cname, name), W.where(rd), str(e))
        # any public indicator reader of the class must have a bit of its own
        seen = {}
        names = set()
        for c in [NS + cname] + P.all_bases(NS + cname):
            for m in P.recs[c]['methods']:
                if m.get('acc', 0) == 0 and not m['params'] and not m.get('ctor') and m['n'] not in NOT_INDICATORS:
                    names.add(m['n'])
        for name in sorted(names):
            for fn in methods(P, NS + cname, name, 0)[:1]:
                if P.width(fn['ret']) != 1:
                    continue
                g = Getter(W, fn, 4)
                k = B.is_var(g.I.to_bv(g.value, 1).b[0])
                if k is None:
                    continue
                chk.count('distinct indicator readers')
                if k in seen and seen[k] != name:
                    chk.violation('%s::%s=%s/shared' % (cname, seen[k], name), W.where(fn),
                                  '%s and %s of %s read the same wire bit' % (seen[k], name, cname))
                seen[k] = name
    for a, b in MIRROR:
        WA, WB = WireClass(P, NS + a), WireClass(P, NS + b)
        for name in sorted(set(vita.INDICATORS[a]) & set(vita.INDICATORS[b])):
            ga, gb = Getter(WA, WA.method(name, 0), 4), Getter(WB, WB.method(name, 0), 4)
            chk.count('mirrored')
            chk.require(ga.bits(1) == gb.bits(1), '%s~%s::%s' % (a, b, name), WA.where(WA.method(name, 0)),
                        '%s and %s use different bits for %s' % (a, b, name))
