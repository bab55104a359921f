"""Generated classes of user-defined subfields (discrete I/O words, stream identifiers, trailers): every accessor uses the bits the
declaration order gives its subfield."""
import os
from absint import *
from common import Broken, Uncompilable, scratch
from packlib import *
import genlib, genmodel
from genlib import Packet, Job
from genmodel import be

# kind -> (yaml text after the name, width, extra enable bit)
SEQ = lambda n: '!!seq\n' + ''.join('        - v%d\n' % i for i in range(n))


def enum_bits(n):
    return max(1, (n - 1).bit_length())


DIO = {'bool': ('bool\n', 1), 'ind': ('enable_indicator\n', 1)}
for n in (2, 3, 4, 5, 6):       # other counts get more bits than they need (ceil(n/2)): a layout choice, not a defect
    DIO['seq%d' % n] = (SEQ(n).replace('v', 'e%d_' % n), enum_bits(n))
for b in (1, 7, 8, 9, 16, 17):
    DIO['int%d' % b] = ('!!int %d\n' % b, b)


def subfields(kinds):
    """[(name, kind, lsb, width, enable bit or None)]: the declaration allocates from bit 0 upwards"""
    out, pos = [], 0
    for i, k in enumerate(kinds):
        w = DIO[k][1]
        out.append(('sub%d' % i, k, pos, w, pos + w if k == 'ind' else None))
        pos += w + (k == 'ind')
    return out, pos


def dio_packets():
    ks = list(DIO)
    out, n = [], 0
    for size in (32, 64):
        lists = [[a, b] for a in ks for b in ks] if size == 32 else [[a, b, 'int16', ks[(i + 3) % len(ks)]] for i, a in enumerate(ks) for b in ks[i % 3::3]]
        lists += [[k] for k in ks] + ([['int8', 'int16', 'int8'], ['bool'] * 32, ['ind'] * 16] if size == 32 else [['int16'] * 4, ['ind'] * 32, ['bool'] * 63])
        for l in lists:
            subs, total = subfields(l)
            if total > size:
                continue
            text = '!DiscreteIO%d\n      mode: %s\n' % (size, ['required', 'optional'][n % 2])
            for name, k, lsb, w, en in subs:
                text += '      %s: %s' % (name + k, DIO[k][0])
            p = Packet('Dio%d' % n, 'Context', cif={1: {'discrete_io_%d' % size: text.rstrip('\n')}})
            p.subs, p.size, p.rec = [(nm + k, k, lo, w, en) for nm, k, lo, w, en in subs], size // 8, 'DiscreteIO%d' % size
            out.append(p)
            n += 1
    return out


def sid_packets():
    out = []
    for n, ws in enumerate(([10, 7], [16, 16], [1, 31], [8, 8, 8, 8], [32], [1], [5, 1, 2, 9, 15], [3, 29], [31, 1], [7, 8, 9])):
        text = ''.join('\n    part%d: !IntegerType\n      bits: %d' % (i, w) for i, w in enumerate(ws))
        p = Packet('Sid%d' % n, ['Data', 'Context', 'Control'][n % 3], stream=text, cam={'action_mode': 'execute'} if n % 3 == 2 else None)
        p.subs, pos = [], 0
        for i, w in enumerate(ws):
            p.subs.append(('part%d' % i, 'int', pos, w, None))
            pos += w
        p.size, p.rec = 4, 'StreamIdentifier'
        out.append(p)
    return out


def trailer_packets():
    forms = {'ind': ('enable_indicator', 1), 'seq2': ('!!seq\n      - a\n      - b', 1), 'seq3': ('!!seq\n      - a\n      - b\n      - c', 2),
             'seq4': ('!!seq\n      - a\n      - b\n      - c\n      - d', 2), 'seq5': ('!!seq\n' + '\n'.join('      - x%d' % i for i in range(5)), 3),
             'seq9': ('!!seq\n' + '\n'.join('      - x%d' % i for i in range(9)), 4)}
    lists = [[]]
    for _ in range(4):
        lists += [l + [k] for l in lists for k in forms]
    seen, out = set(), []
    for l in lists:
        if not l or tuple(l) in seen or sum(forms[k][1] for k in l) > 4:
            continue
        seen.add(tuple(l))
        n = len(out)
        tr = {'user_defined_%d' % (i + 1): forms[k][0] for i, k in enumerate(l)}
        p = Packet('Utr%d' % n, 'Data', stream='', trailer=tr)
        p.subs, pos = [], 0
        for i, k in enumerate(l):
            w = forms[k][1]
            p.subs.append(('user_defined_%d' % (i + 1), k, 8 + pos, w, (20 + pos, w)))
            pos += w
        p.size, p.rec = 4, 'Trailer'
        out.append(p)
    return out


def run(chk, what=('dio', 'sid', 'trailer')):
    chk.floor('user-defined classes', 15)
    groups = {'dio': dio_packets, 'sid': sid_packets, 'trailer': trailer_packets}
    J = []
    for w in what:
        ps = groups[w]()
        for k in range(0, len(ps), 30):
            j = Job('user_%s%d' % (w, k), ''.join(p.yaml() + '\n' for p in ps[k:k + 30]))
            j.packets, j.what = ps[k:k + 30], w
            J.append(j)
    root = os.path.join(scratch(), 'user')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)

    def one(c, j):
        ok, d, files, packets = res[j.tag]
        if not ok:
            c.undecided('generate.' + j.tag, 'specification ' + j.tag, str(files)[:200])
            return
        try:
            P = genmodel.program(d, [x for x in os.listdir(d) if not x.startswith('vp_all')])
        except Uncompilable:
            c.undecided('compile.' + j.tag, 'specification ' + j.tag, 'the generated code does not compile (P16)')
            return
        for p in j.packets:
            sn = ''.join('_' + ch.lower() if ch.isupper() else ch for ch in p.name).lstrip('_')
            pre = 'gen::packets::%s::structs::' % sn
            rn = [r for r in P.recs if r.startswith(pre)]
            if len(rn) != 1:
                raise Broken('user class of %s: %s' % (p.name, rn))
            c.count('user-defined classes')
            try:
                check(c, P, rn[0], p, j.what)
            except (Unsupported, Vanished) as e:
                c.undecided('user.%s.%s' % (j.what, p.name), rn[0], str(e)[:200])
    chk.spread(J, one)


def flat(items):
    """value bits, LSB first, of big-endian bytes"""
    return tuple(x for b in reversed(items) for x in b)


def unopt(v):
    return v.v if isinstance(v, Opt) else v


def value_bits(I, v, w):
    while isinstance(v, Rec) or isinstance(v, Opt):
        v = v.v if isinstance(v, Opt) else list(v.f.values())[0]
    return tuple(I.to_bv(v, max(w, 1)).b)[:max(w, 1)], tuple(I.to_bv(v, 64).b)[w:]


def check(c, P, rn, p, what):
    """each accessor against the bits of its subfield, over a word of symbolic bits"""
    W = WireClass(P, rn)
    key = 'user.' + what
    pack = [m for m in methods(P, rn, 'pack_into', 1)] or None
    where = '%s of %s' % (rn, ', '.join('%s:%s' % (k, w) for _, k, _, w, _ in p.subs))

    def fresh(force=()):
        I, st = Interp(P), State()
        o = W.default(I, st)
        bits = [None] * (p.size * 8)
        for i in range(p.size * 8):
            bits[i] = src_bv(('rx', i), 1).b[0]
        for i, b in force:
            bits[i] = b
        r = I.alloc(st, Vec(u8_type(P), [BV(b) for b in be(bits)]), 'rx')
        W.unpack(I, st, o, r)
        return I, st, o, bits

    def wire(I, st, o):
        got = flat([genmodel.to8(I, x) for x in W.pack(I, st, o, p.size, 'unwritten')])
        return got
    I, st, o, bits = fresh()
    c.require(wire(I, st, o) == tuple(bits), key + '.roundtrip', where, 'a received word is not serialised as it was received')
    S = W.size(I, st, W.default(I, st))
    c.require(S == p.size, key + '.size', where, 'the class declares %s bytes; the word has %d' % (S, p.size))
    for name, kind, lsb, w, en in p.subs:
        k2 = '%s.%s' % (key, 'indicator' if kind == 'ind' else kind.rstrip('0123456789'))
        enb = [(b, 1) for b in range(en[0], en[0] + en[1])] if isinstance(en, tuple) else []
        g, s = methods(P, rn, name, 0), methods(P, rn, name, 1)
        c.require(bool(g) and bool(s), k2 + '.accessor', where, '%s has no reader or no writer' % name)
        if not g or not s:
            continue
        # reader
        I, st, o, bits = fresh(enb)
        v = I.call(g[0], o, [], st)
        if isinstance(v, Opt):
            c.require(v.p == 1, k2 + '.present', where, '%s has no value although its enable bits are set' % name)
            v = v.v
        got, rest = value_bits(I, v, w)
        c.require(got == tuple(bits[lsb:lsb + w]) and not any(rest), k2 + '.read', where, '%s() does not read bits %d..%d' % (name, lsb + w - 1, lsb))
        # writer
        I, st, o, bits = fresh()
        t = s[0]['params'][0]['t']
        while P.ty(t)['c'] == 'ref':
            t = P.ty(t)['pt']
        val = I.sym_value(t, ('set', name))
        vb = tuple(I.to_bv(val, 64).b)[:w]
        I.call(s[0], o, [I.alloc(st, val) if P.ty(s[0]['params'][0]['t'])['c'] == 'ref' else val], st)
        exp = list(bits)
        exp[lsb:lsb + w] = vb
        for b, x in enb:
            exp[b] = x
        out = wire(I, st, o)
        if kind == 'ind' and not isinstance(en, tuple):
            exp[en] = out[en]                # either form of gating: the indicator proper is compared below
        c.require(out == tuple(exp), k2 + '.write', where, '%s(value) does not write bits %d..%d, or changes others (bits %s)' %
                  (name, lsb + w - 1, lsb, [i for i in range(p.size * 8) if out[i] != exp[i]][:8]))
        if isinstance(en, tuple):
            enable_checks(c, P, W, rn, p, name, lsb, w, en, k2, where, fresh, wire)
        elif kind == 'ind':
            n2 = name + '_enable'
            g, s = methods(P, rn, n2, 0), methods(P, rn, n2, 1)
            c.require(bool(g) and bool(s), k2 + '.enable', where, '%s has no reader or no writer' % n2)
            if g and s:
                I, st, o, bits = fresh()
                b1 = I.to_bv(I.call(g[0], o, [], st), 1).b[0]
                c.require(b1 == bits[en], k2 + '.enable', where, '%s() does not read bit %d' % (n2, en))
                v = src_bv(('en', name), 8).b[0]
                t = P.width(s[0]['params'][0]['t']) or 1
                I.call(s[0], o, [BV((v,) + (0,) * (t - 1))], st)
                exp = list(bits)
                exp[en] = v
                c.require(wire(I, st, o) == tuple(exp), k2 + '.enable', where, '%s(value) does not write exactly bit %d' % (n2, en))


def enable_checks(c, P, W, rn, p, name, lsb, w, en, k2, where, fresh, wire):
    eb = range(en[0], en[0] + en[1])
    g = methods(P, rn, name, 0)[0]
    I, st, o, bits = fresh([(b, 0) for b in eb])
    v = I.call(g, o, [], st)
    c.require(isinstance(v, Opt) and v.p == 0, k2 + '.absent', where, '%s() has a value although its enable bits are clear' % name)
    g, s, r = methods(P, rn, name + '_enable', 0), methods(P, rn, name + '_enable', 1), methods(P, rn, 'reset_' + name, 0)
    for val in (1, 0):
        if g:
            I, st, o, bits = fresh([(b, val) for b in eb])
            x = I.to_bv(I.call(g[0], o, [], st), 1).b[0]
            c.require(x == val, k2 + '.enable', where, '%s_enable() is not what its bits say' % name)
        if s:
            I, st, o, bits = fresh()
            I.call(s[0], o, [const_bv(val, P.width(s[0]['params'][0]['t']) or 1)], st)
            exp = list(bits)
            for b in eb:
                exp[b] = val
            c.require(wire(I, st, o) == tuple(exp), k2 + '.enable', where, '%s_enable(%s) does not write exactly bits %d..%d' % (name, bool(val), eb[-1], eb[0]))
    if r:
        I, st, o, bits = fresh()
        I.call(r[0], o, [], st)
        exp = list(bits)
        for b in list(eb) + list(range(lsb, lsb + w)):
            exp[b] = 0
        c.require(wire(I, st, o) == tuple(exp), k2 + '.reset', where, 'reset_%s() does not clear exactly its value and enable bits' % name)
