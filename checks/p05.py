"""P05 list- and record-valued structures: size(), encoder and decoder agree for every number of elements."""
import itertools
from absint import *
from bits import B
from packlib import *

RULE = ('For every structure of the library that owns sequences (found by its fields, checked against the VITA layout table below): '
        '(1) with symbolic elements and every combination of small element counts, set through the by-value setter and through the '
        'mutable accessor, the abstract encoder writes exactly size() bytes, every one of them, with each element at the offset, width and '
        'byte order of VITA 49.2 and each count subfield equal to the number of elements; the abstract decoder run on exactly those bytes '
        'reads no byte outside them, rebuilds every sequence bit for bit and reports the same size(); '
        '(2) with sequences of symbolic length n, the affine extent written by the encoder equals the affine size() (all n at once).')

# sequence accessor order on the wire; count subfields (word, msb, bits, what)
LAYOUT = {
    'GPS_ASCII': dict(hdr=8, seqs=['ascii_sentences'], esz=[1], lens=[range(0, 10)], words=[(1, 31, 32, 'words:0')], pad=0),
    'ContextAssociationLists': dict(hdr=8, seqs=['source_list', 'system_list', 'vector_component_list', 'async_channel_list',
                                                 'async_channel_tag_list'], esz=[4] * 5,
                                    combos=[(0, 0, 0, 0, 0), (1, 0, 0, 0, 0), (0, 1, 0, 0, 0), (0, 0, 1, 0, 0), (0, 0, 0, 1, 0),
                                            (0, 0, 0, 1, 1), (0, 0, 0, 3, 3), (2, 3, 1, 0, 0), (3, 1, 2, 2, 0), (1, 2, 3, 2, 2), (5, 7, 6, 4, 4),
                                            (257, 3, 300, 2, 2), (2, 511, 1, 259, 0)],
                                    words=[(0, 24, 9, 'n:0'), (0, 8, 9, 'n:1'), (1, 31, 16, 'n:2'), (1, 15, 1, 'any:4'), (1, 14, 15, 'n:3')]),
    'IndexList<unsigned char>': dict(hdr=8, seqs=['entries'], esz=[1], lens=[list(range(0, 10)) + [259]],
                                     words=[(0, 31, 32, 'total'), (1, 31, 4, 'const:1'), (1, 19, 20, 'n:0')]),
    'IndexList<unsigned short>': dict(hdr=8, seqs=['entries'], esz=[2], lens=[list(range(0, 7)) + [130]],
                                      words=[(0, 31, 32, 'total'), (1, 31, 4, 'const:2'), (1, 19, 20, 'n:0')]),
    'IndexList<unsigned int>': dict(hdr=8, seqs=['entries'], esz=[4], lens=[list(range(0, 5)) + [257]],
                                    words=[(0, 31, 32, 'total'), (1, 31, 4, 'const:4'), (1, 19, 20, 'n:0')]),
    'SectorStepScan<vp::Record>': dict(hdr=12, seqs=['records'], esz=[8], lens=[list(range(0, 5)) + [131]],
                                       words=[(0, 31, 32, 'total'), (1, 23, 12, 'rec:0'), (1, 11, 12, 'n:0')]),
}


def sequences(P, rn):
    return [f for f, _ in P.all_fields(rn) if P.ty(f['t']).get('tn') == 'std::vector']


def short(rn):
    return rn.replace(NS, '')


def symvec(I, P, tid, name, n):
    ety = P.ty(tid)['ta'][0]['t']
    return Vec(ety, [I.sym_value(ety, (name, i)) for i in range(n)])


def accessor(P, rn, name):
    """(by-value setter, mutable reference getter, const getter)"""
    st = mut = cg = None
    for f in methods(P, rn, name, 1):
        st = f
    for f in methods(P, rn, name, 0):
        r = P.ty(f['ret'])
        if r['c'] == 'ref' and not P.ty(r['pt']).get('const'):
            mut = f
        else:
            cg = f
    return st, mut, cg


def vec_type(P, fn):
    t = fn['ret'] if not fn['params'] else fn['params'][0]['t']
    while P.ty(t)['c'] == 'ref':
        t = P.ty(t)['pt']
    return t


def rec_be_bytes(I, W, st, ety, v, esz):
    """the element's own wire bytes (records: their own encoder; integers: big-endian)"""
    P = I.p
    if P.ty(ety)['c'] == 'rec':
        E = WireClass(P, P.ty(ety)['rec'])
        st = st.copy()
        o = I.alloc(st, v)
        return [to8(I, x) for x in E.pack(I, st, o, esz, 'elem')]
    return [tuple(x) for x in reversed(I.to_bytes(v, esz))]


def to8(I, x):
    return tuple(x.b) if isinstance(x, BV) else tuple(I.to_bytes(x, 1)[0])


def one(chk, P, rn, L, lens, how):
    W = WireClass(P, rn)
    tag = '%s[%s] via %s' % (short(rn), ','.join(map(str, lens)), how)
    I, st = W.fresh()
    obj = W.default(I, st)
    vals = []
    where = W.where(W.method('pack_into', 1))
    for i, (s, n) in enumerate(zip(L['seqs'], lens)):
        setr, mut, cg = accessor(P, rn, s)
        fn = setr if how == 'setter' else mut
        if fn is None:
            chk.undecided('%s.%s' % (tag, s), where, 'no %s' % how)
            return
        v = symvec(I, P, vec_type(P, fn), s, n)
        vals.append(v)
        if how == 'setter':
            I.call(fn, obj, [I.alloc(st, v)], st)
        else:
            p = I.call(fn, obj, [], st)
            if not isinstance(p, Ptr):
                chk.undecided('%s.%s' % (tag, s), where, 'mutable accessor does not return a reference')
                return
            I.put(st, p.root, p.path, v)
    key = '%s' % short(rn)
    S = W.size(I, st, obj)
    if S is None:
        chk.undecided(tag, where, 'size not constant')
        return
    I.events = []
    out = [to8(I, x) for x in W.pack(I, st, obj, S, 'unwritten')]
    bad = [e for e in I.events if e.kind.startswith('oob') or e.kind == 'null-deref']
    chk.require(not bad, key + '.pack.extent', where,
                'encoder writes outside the %d bytes size() reports (%s): %s' % (S, tag, bad[:1]))
    holes = [i for i, b in enumerate(out) for x in b if any(k[0][0] == 'unwritten' for k in B.support(x))]
    chk.require(not holes, key + '.pack.complete', where,
                'encoder leaves %d of the %d bytes size() reports unwritten, first at offset %s (%s)'
                % (len(set(holes)), S, holes[:1], tag))
    # expected wire
    exp = []
    for v, e in zip(vals, L['esz']):
        for x in v.items:
            exp.extend(rec_be_bytes(I, W, st, v.ety, x, e))
    body = len(exp)
    while len(exp) % 4:
        exp.append((0,) * 8)
    chk.require(S == L['hdr'] + len(exp), key + '.size', W.where(W.method('size', 0)),
                'size() is %d for %s; VITA 49.2 layout takes %d bytes' % (S, tag, L['hdr'] + len(exp)))
    mis = [i for i in range(min(len(exp), S - L['hdr'])) if out[L['hdr'] + i] != exp[i]]
    if mis:
        i = mis[0]
        chk.violation(key + '.pack.elements', where,
                      'byte %d of the encoded sequence (%s) is %s, expected %s' % (i, tag, show8(out[L['hdr'] + i]), show8(exp[i])))
    else:
        chk.ok(key + '.pack.elements', where, tag)
    for w, msb, bits, what in L['words']:
        got = wire_bits([BV(x) for x in out], w, msb, bits)
        kind, _, arg = what.partition(':')
        want = {'n': lambda: lens[int(arg)], 'words': lambda: (lens[int(arg)] + 3) // 4, 'any': lambda: int(lens[int(arg)] > 0),
                'const': lambda: int(arg), 'total': lambda: (L['hdr'] + len(exp)) // 4,
                'rec': lambda: L['esz'][0] // 4 if lens[0] else None}[kind]()
        if want is None:
            continue
        chk.require(got == [(want >> k) & 1 for k in range(bits)], '%s.wire.word%d.bit%d' % (key, w, msb), where,
                    'count subfield word %d bits %d..%d holds %s for %s; the sequence needs %d'
                    % (w, msb, msb - bits + 1, show_bits(got), tag, want))
    # decode exactly those bytes
    I2 = I
    obj2 = W.default(I2, st)
    buf = I2.alloc(st, Vec(u8_type(P), [BV(x) for x in out]), 'in')
    I2.events = []
    un = W.method('unpack_from', 1)
    I2.call(un, obj2, [Ptr(buf.root)], st)
    bad = [e for e in I2.events if e.kind.startswith('oob') or e.kind == 'null-deref']
    chk.require(not bad, key + '.unpack.extent', W.where(un), 'decoder reads outside the encoded bytes (%s): %s' % (tag, bad[:1]))
    for s, v, e in zip(L['seqs'], vals, L['esz']):
        setr, mut, cg = accessor(P, rn, s)
        p = I2.call(cg or mut, obj2, [], st)
        v2 = I2.walk(st, p.root, p.path) if isinstance(p, Ptr) else p
        items = list(v.items)
        if rn.endswith('GPS_ASCII'):
            items += [const_bv(0, 8)] * (-len(items) % 4)
        if not isinstance(v2, Vec):
            chk.undecided('%s.%s.roundtrip' % (tag, s), W.where(un), 'decoded sequence is %r' % type(v2).__name__)
            continue
        if len(v2.items) != len(items):
            chk.violation('%s.%s.roundtrip' % (key, s), W.where(un), 'decoder finds %d elements, the encoder wrote %d (%s)' % (len(v2.items), len(items), tag))
            continue
        d = [i for i in range(len(items)) if I2.to_bytes(v2.items[i], e) != I2.to_bytes(items[i], e)]
        chk.require(not d, '%s.%s.roundtrip' % (key, s), W.where(un), 'element %s decodes to a different value than was encoded (%s)' % (d[:1], tag))
    S2 = W.size(I2, st, obj2)
    chk.require(S2 == S, key + '.unpack.size', W.where(un), 'decoded structure reports %s bytes, %d were encoded (%s)' % (S2, S, tag))
    chk.count('configurations')


def show8(b):
    c = BV(b).const()
    return '0x%02x' % c if c is not None else ' '.join(B.show(x) for x in reversed(b))


def generic(chk, P, rn, L):
    """affine extents for symbolic lengths"""
    W = WireClass(P, rn)
    tag = short(rn)
    try:
        I, st = W.fresh()
        obj = I.alloc(st, I.sym_value(W.tid, 'obj'))
        size = I.to_lin(I.call(W.method('size', 0), obj, [], st))
        buf = I.alloc(st, SVec(u8_type(P), size, 'out'))
        I.call(W.method('pack_into', 1), obj, [Ptr(buf.root)], st)
        v = st.mem[buf.root]
        if I.unknown_calls or not isinstance(v, SVec):
            raise Unsupported('opaque')
        end = Lin(0)
        for w in v.log:
            if w.off.subst(w.rep[0], Lin(0)).key() != end.key() if w.rep else w.off.key() != end.key():
                raise Unsupported('writes not consecutive')
            if w.rep:
                m = w.off.t.get(w.rep[0], 0)
                inner = sum(len(x.bytes) for x in v.log if x.rep and x.rep[0] == w.rep[0])
                if m != len(w.bytes) or inner != m:
                    raise Unsupported('stride')
                end = end.add(w.rep[1].mul(m))
            else:
                end = end.add(Lin(len(w.bytes)))
    except (Unsupported, Thrown) as e:
        chk.extra.setdefault('generic_n_not_summarised', []).append('%s: %s' % (tag, e))
        return
    chk.require(end.key() == size.key(), tag + '.extent.generic', W.where(W.method('pack_into', 1)),
                'for n elements the encoder writes %r bytes, size() is %r' % (end, size))
    chk.count('generic')


def run(chk):
    P = prog()
    chk.floor('structures', 6)
    chk.floor('configurations', 60)
    for rn in sorted(P.recs):
        if not rn.startswith(NS):
            continue
        r = P.recs[rn]
        own = sequences(P, rn)
        if not own or not methods(P, rn, 'pack_into', 1):
            continue
        L = LAYOUT.get(short(rn))
        if L is None:
            chk.undecided(short(rn), rel(r['file']), 'sequence-owning structure without a VITA layout table')
            continue
        chk.count('structures')
        combos = L.get('combos') or list(itertools.product(*L['lens']))
        for lens in combos:
            for how in ('setter', 'accessor'):
                try:
                    one(chk, P, rn, L, lens, how)
                except Unsupported as e:
                    chk.undecided('%s%s' % (short(rn), lens), rel(r['file']), str(e))
        generic(chk, P, rn, L)
