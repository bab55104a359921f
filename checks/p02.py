RULE = ('bit provenance of pack_into after unpack_from and one writer called with an arbitrary value of its '
        'parameter type: every wire bit outside the written subfield (and its own enable bit) must still be '
        'the bit that was decoded')
from packlib import *
import vita


def run(chk):
    P = prog()
    chk.floor('writers', 400)
    jobs = []
    for cname, (words, fields) in vita.STRUCTS.items():
        for name, word, msb, bits, kind in fields:
            jobs.append((cname, words * 4, name, wire_index(word, msb, bits), all_bits(cname)))
    for cname, g in vita.GATED.items():
        for name, (msb, bits, en) in g.items():
            own = wire_index(0, msb, bits)
            for e in en:
                own |= wire_index(0, e, 1)
            jobs.append((cname, 4, name, own, all_bits(cname)))
    for cname, ind in vita.INDICATORS.items():
        for name, bit in ind.items():
            jobs.append((cname, 4, name, wire_index(0, bit, 1), all_bits(cname)))
    for cname, n, name, own, every in sorted(jobs, key=lambda j: (j[0], j[2])):
        W = WireClass(P, NS + cname)
        fn = W.method(name, 1)
        chk.count('writers')
        oid, where = '%s::%s/isolation' % (cname, name), W.where(fn)
        try:
            s = Setter(W, fn, n)
        except Unsupported as e:
            chk.undecided(oid, where, str(e))
            continue
        bad = []
        for i in sorted(every - own):
            got, want = s.out[i // 8].b[7 - i % 8], s.wire[i // 8].b[7 - i % 8]
            if got != want:
                bad.append((i, got))
        chk.require(not bad, oid, where,
                    '%s::%s(value) changes bits of other subfields' % (cname, name),
                    '; '.join('wire bit %d (word %d bit %d) becomes %s' % (i, i // 32, 31 - i % 32, B.show(g)) for i, g in bad[:4]))


def all_bits(cname):
    out = set()
    if cname in vita.STRUCTS:
        for name, word, msb, bits, kind in vita.STRUCTS[cname][1]:
            out |= wire_index(word, msb, bits)
    if cname in vita.GATED:
        for msb, bits, en in vita.GATED[cname].values():
            out |= wire_index(0, msb, bits)
            for e in en:
                out |= wire_index(0, e, 1)
    for bit in vita.INDICATORS.get(cname, {}).values():
        out |= wire_index(0, bit, 1)
    return out
