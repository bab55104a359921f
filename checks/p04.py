RULE = ('for every fixed-size structure: size() is the constant of the standard and bounds exactly the bytes '
        'pack_into writes and unpack_from reads; pack after unpack is the identity on every assigned wire bit; '
        'decoding the encoding of an arbitrary object restores every accessor; a default-constructed object '
        'encodes no uninitialised bit; every number wider than a byte is stored and loaded big-endian at its offset')
from packlib import *
import vita
from p02 import all_bits
import p01

GUARD = 8


def run(chk):
    P = prog()
    chk.floor('structures', 35)
    classes = {c: w for c, (w, _) in vita.STRUCTS.items()}
    classes.update({c: 1 for c in vita.GATED})
    classes.update({c: 1 for c in vita.INDICATORS})
    classes['::UUID'] = 4
    for cname, words in sorted(classes.items()):
        W = WireClass(P, 'vrtgen::UUID' if cname == '::UUID' else NS + cname)
        chk.count('structures')
        try:
            one(chk, W, cname.strip(':'), words * 4)
        except Unsupported as e:
            chk.undecided(cname, W.file, str(e))
    # numbers wider than a byte: most significant byte first, at the offset of the standard
    for cname, (words, fields) in sorted(vita.STRUCTS.items()):
        W = WireClass(P, NS + cname)
        for name, word, msb, bits, kind in fields:
            if bits > 8:
                chk.count('multi-byte numbers')
                p01.reader(chk, W, cname, words * 4, name, word, msb, bits, kind)
                p01.writer(chk, W, cname, words * 4, name, word, msb, bits, kind)


def one(chk, W, cname, n):
    P = W.P
    szf, pkf, upf = W.method('size', 0), W.method('pack_into', 1), W.method('unpack_from', 1)
    # size
    I, st = W.fresh()
    obj = I.alloc(st, I.sym_value(W.tid, 'obj'))
    sz = W.size(I, st, obj)
    if sz is None:
        return chk.undecided(cname + '/size', W.where(szf), 'size() is not constant')
    chk.require(sz == n, cname + '/size', W.where(szf), '%s::size() is %d bytes, VITA 49.2 encodes %d' % (cname, sz, n))
    # bytes written
    I, st = W.fresh()
    obj = I.alloc(st, I.sym_value(W.tid, 'obj'))
    out = W.pack(I, st, obj, n + GUARD, 'before')
    written = [i for i, by in enumerate(out) if not all(B.is_var(x) == (('before', i), j) for j, x in enumerate(by.b))]
    chk.require(written == list(range(n)), cname + '/pack-extent', W.where(pkf),
                '%s::pack_into writes bytes %s of a %d byte structure' % (cname, spans(written), n))
    oob(chk, I, cname + '/pack-bounds', W.where(pkf))
    # bytes read
    I, st = W.fresh()
    o1 = W.default(I, st)
    buf = W.buffer(I, st, n + GUARD, 'wire')
    W.unpack(I, st, o1, buf)
    deps = support(st.mem[o1.root])
    read = sorted({k[0][1] for k in deps if isinstance(k[0], tuple) and k[0][0] == 'wire'})
    chk.require(all(i < n for i in read), cname + '/unpack-extent', W.where(upf),
                '%s::unpack_from reads bytes %s of a %d byte structure' % (cname, spans(read), n))
    # identity on the wire
    want = st.mem[buf.root].items
    out = W.pack(I, st, o1, n)
    bits = all_bits(cname) or set(range(n * 8))
    bad = [i for i in sorted(bits) if out[i // 8].b[7 - i % 8] != want[i // 8].b[7 - i % 8]]
    chk.require(not bad, cname + '/wire-identity', W.where(pkf),
                '%s: encoding a decoded structure changes wire bits %s' % (cname, spans(bad)),
                '; '.join('bit %d: %s' % (i, B.show(out[i // 8].b[7 - i % 8])) for i in bad[:3]))
    # every accessor restored
    I, st = W.fresh()
    a = I.alloc(st, I.sym_value(W.tid, 'obj'))
    buf = W.buffer(I, st, n)
    I.call(pkf, a, [Ptr(buf.root)], st)
    b = W.default(I, st)
    I.call(upf, b, [Ptr(buf.root)], st)
    diff = []
    for name in accessors(P, W.rn):
        fn = methods(P, W.rn, name, 0)[0]
        va, vb = I.call(fn, a, [], st), I.call(fn, b, [], st)
        chk.count('accessors restored')
        if va.key() != vb.key():
            diff.append(name)
    chk.require(not diff, cname + '/restore', W.where(upf),
                '%s: decoding an encoded object does not restore %s' % (cname, ', '.join(diff)))
    # initialisation
    I, st = W.fresh()
    obj = W.default(I, st)
    out = W.pack(I, st, obj, n)
    bad = [i for i in range(n * 8) if any(is_undef(k) for k in B.deep_support(out[i // 8].b[7 - i % 8]))]
    chk.require(not bad, cname + '/initialised', W.file and rel(W.file),
                'a default-constructed %s encodes uninitialised memory at wire bits %s' % (cname, spans(bad)))


def oob(chk, I, oid, where):
    ev = [e for e in I.events if e.kind.startswith('oob')]
    chk.require(not ev, oid, where, 'access outside the buffer', str(ev[:2]))


def is_undef(k):
    s = k[0]
    while isinstance(s, tuple) and s:
        if s[0] == 'undef':
            return True
        s = s[0] if isinstance(s[0], tuple) else (s[1] if len(s) > 1 and isinstance(s[1], tuple) else None)
    return False


def accessors(P, rn):
    names = []
    for c in [rn] + P.all_bases(rn):
        for m in P.recs[c]['methods']:
            if (m.get('acc', 0) == 0 and not m['params'] and not m.get('ctor') and not m.get('dtor')
                    and m['n'] not in names and not m['n'].startswith('reset_') and m['n'] not in ('get',)
                    and not m.get('static') and methods(P, rn, m['n'], 0)):
                if m.get('const'):
                    names.append(m['n'])
    return names


def support(v):
    out = set()
    todo = [v]
    while todo:
        x = todo.pop()
        if isinstance(x, BV):
            for b in x.b:
                out |= B.deep_support(b)
        elif isinstance(x, Rec):
            todo.extend(x.f.values())
        elif isinstance(x, Vec):
            todo.extend(x.items)
        elif isinstance(x, Opt):
            out |= B.deep_support(x.p)
            if x.v is not None:
                todo.append(x.v)
        elif isinstance(x, Flt):
            todo.extend(BV(t[1]) for t in walk(x.k) if isinstance(t, tuple) and t and t[0] == 'int')
    return out


def walk(k):
    if isinstance(k, tuple):
        yield k
        for x in k:
            for y in walk(x):
                yield y


def spans(xs):
    xs = sorted(xs)
    out = []
    for x in xs:
        if out and out[-1][1] == x - 1:
            out[-1][1] = x
        else:
            out.append([x, x])
    return ','.join('%d' % a if a == b else '%d-%d' % (a, b) for a, b in out[:6]) + ('...' if len(out) > 6 else '') or 'none'
