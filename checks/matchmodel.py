"""Identification and decoding of received packets (P20, P21): the generated match functions and decoding constructors are interpreted on
received bytes in which everything the definition leaves open is symbolic."""
import os, sys
from absint import *
from common import Broken, Uncompilable, scratch
from packlib import *
import genlib, genmodel, gencheck, specs
from genmodel import Explorer, Found, be

HDR = {'packet type': range(28, 32), 'class id indicator': (27,)}


class Receiver:
    """received forms of one packet definition"""

    def __init__(self, P, ns, S, F, vx):
        self.reported = S.fields
        if vx:
            S.fields, S.cifs = [], []            # warnings and errors instead of fields
        self.X = Explorer(P, ns, S, F)
        self.P, self.S, self.F, self.I, self.vx = P, S, F, self.X.I, vx
        self.rn = self.X.rn
        self.runs = 0
        ms = [m for m in methods(P, self.rn, 'match', 1) if m.get('body') is not None]
        if not ms:
            raise Vanished('match of ' + self.rn)
        self.fn = ms[0]
        self.offset, pos = {}, 0
        for p in S.parts:
            self.offset[p.name] = pos
            pos += p.size
        self.prologue = pos

    def own(self):
        """bytes of a fresh packet of the definition (kinds of acknowledgement set as a controlled node does)"""
        X = self.X
        o = X.construct()
        if self.vx:
            X.call(o, 'ack_v' if X.has('ack_v', 1) else 'ack_x', bool_bv(1))
        elif self.S.ack and X.has('ack_s', 1):
            X.call(o, 'ack_s', bool_bv(1))
        return X.serialise(o)

    def word(self, got, part, k):
        """(byte, bit) of bit k (from the least significant) of a part"""
        size = [p.size for p in self.S.parts if p.name == part][0]
        return self.offset[part] + size - 1 - k // 8, k % 8

    def fixed(self):
        """[(property, part, bits)]: what the definition fixes"""
        S, d = self.S, self.S.d
        out = [('packet type', 'header', range(28, 32)), ('class id indicator', 'header', (27,))]
        if S.tsi is not None:
            out.append(('tsi', 'header', (22, 23)))
        if S.tsf is not None:
            out.append(('tsf', 'header', (20, 21)))
        if S.data:
            out.append(('trailer indicator', 'header', (26,)))
        if S.ctx and d.tsm in ('coarse', 'fine'):
            out.append(('tsm', 'header', (24,)))
        if S.cmd:
            out.append(('acknowledge indicator', 'header', (26,)))
            out.append(('cancellation indicator', 'header', (24,)))
        if d.class_id is not None:
            c = d.class_id
            if 'oui' in c:
                out.append(('oui', 'class_id', range(32, 56)))
            if 'information_code' in c:
                out.append(('information_code', 'class_id', range(16, 32)))
            if 'packet_code' in c:
                out.append(('packet_code', 'class_id', range(0, 16)))
        if S.cmd:
            cam = d.cam or {}
            for k, en, fo in (('controllee', 31, 30), ('controller', 29, 28)):
                out.append((k + ' identifier', 'cam', (en, fo) if getattr(d, k) else (en,)))
            if not S.ack:
                for k, b in genmodel.CAMBITS.items():
                    if cam.get(k) == 'true' and not k.startswith('nack'):
                        out.append((k, 'cam', (b,)))
                if 'action_mode' in cam and cam['action_mode'] not in ('required', 'optional'):
                    out.append(('action_mode', 'cam', (23, 24)))
        return out

    def open(self):
        """[(property, part, bits)]: what the definition leaves open"""
        S, d = self.S, self.S.d
        out = [('packet count', 'header', range(16, 20))]
        if S.tsi is None:
            out.append(('tsi', 'header', (22, 23)))
        if S.tsf is None:
            out.append(('tsf', 'header', (20, 21)))
        if S.ctx and d.tsm == 'any':
            out.append(('tsm', 'header', (24,)))
        for p in S.parts:
            if p.kind in ('u32', 'u64', 'user', 'uuid') and p.name not in ('header', 'class_id', 'cam'):
                out.append((p.name, p.name, range(p.size * 8)))
        if d.class_id is not None:
            out.append(('class id pad bits', 'class_id', range(59, 64)))
        if S.cmd:
            cam = d.cam or {}
            done = {'controllee': (30,), 'controller': (28,)}
            for k, b in genmodel.CAMBITS.items():
                if not S.ack and (k not in cam or cam[k] == 'optional') and k not in ('nack', 'nack_only'):
                    out.append((k, 'cam', (b,)))
            if S.ack:
                out += [('warning flag', 'cam', (17,)), ('error flag', 'cam', (16,)), ('partial action', 'cam', (11,)), ('scheduled or executed', 'cam', (10,))]
        return out

    def received(self, got, free=True, flip=()):
        bs = [list(b) for b in got]
        if free:
            for name, part, bits in self.open():
                for k in bits:
                    i, j = self.word(got, part, k)
                    bs[i][j] = src_bv(('rx', name, k), 1).b[0]
            last = len(bs) - (4 if self.S.trailer is not None else 0)
            for i in range(self.prologue + 4 * len(self.S.cifs), last):
                bs[i] = list(src_bv(('rx', i), 8).b)
        for part, k in flip:
            i, j = self.word(got, part, k)
            bs[i][j] = 1 - bs[i][j]
        return [tuple(b) for b in bs]

    def match(self, bs, n=None):
        """(verdict, events): 0 accepted, 1 refused, otherwise a condition"""
        I, st = self.I, State()
        r = I.alloc(st, Vec(self.X.u8, [BV(b) for b in bs]), 'rx')
        k = len(I.events)
        self.runs += 1
        try:
            v = I.call(self.fn, None, [Span(Ptr(r.root), Lin(len(bs) if n is None else n), self.X.u8)], st)
        finally:
            ev = I.events[k:]
            del I.events[k:]
        if not isinstance(v, Opt):
            raise Unsupported('match() returns %r' % (v,))
        return v.p, ev

    # ------------------------------------------------------------ P20
    def identity(self):
        F, got = self.F, self.own()
        bs = self.received(got)
        p, _ = self.match(bs)
        F.n += 1
        if p == 1:
            F.hit((20,), 'own', '%s::match refuses a packet the definition itself produced' % self.rn)
            return
        if p != 0:
            # name what it depends on
            for name, part, bits in self.open():
                b2 = [list(b) for b in got]
                for k in bits:
                    i, j = self.word(got, part, k)
                    b2[i][j] = src_bv(('rx', name, k), 1).b[0]
                F.n += 1
                if self.match([tuple(b) for b in b2])[0] != 0:
                    F.hit((20,), 'open.' + name.replace(' ', '_'), '%s::match compares the %s, which the definition leaves open' % (self.rn, name))
        for name, part, bits in self.fixed():
            for k in bits:
                for free in (True, False):
                    F.n += 1
                    q, _ = self.match(self.received(got, free, [(part, k)]))
                    if q == 1:
                        break
                else:
                    F.hit((20,), 'fixed.' + name.replace(' ', '_'), '%s::match accepts a packet whose %s differs (bit %d of the %s)' %
                          (self.rn, name, k, part))
                    break
        # kinds of acknowledgement
        if self.S.ack:
            kinds = {'v': 20, 'x': 19} if self.vx else {'s': 18}
            for a in ('', 'v', 'x', 's'):
                b2 = [list(b) for b in self.received(got)]
                for x, k in (('v', 20), ('x', 19), ('s', 18)):
                    i, j = self.word(got, 'cam', k)
                    b2[i][j] = int(x == a)
                q, _ = self.match([tuple(b) for b in b2])
                F.n += 1
                if q != int(a not in kinds):
                    F.hit((20,), 'kind', '%s::match %s an acknowledgement of kind %s' % (self.rn, 'refuses' if a in kinds else 'accepts', a or 'none'))
        if self.S.data and self.S.trailer and any(k.startswith('user') for k in self.S.trailer):
            self.trailer(got)

    def trailer(self, got):
        """required user-defined indicators are enabled in every packet of the definition"""

    # ------------------------------------------------------------ P21
    def bounds(self):
        F, got = self.F, self.own()
        full = self.received(got)
        L = len(got)
        bad = lambda ev: [e for e in ev if e.kind in ('oob', 'oob-unproved', 'null-deref')]
        # buffers cut short
        for n in range(L):
            p, ev = self.match(full[:n])
            F.n += 1
            if bad(ev):
                F.hit((21,), 'match.read', '%s::match reads past the end of a buffer of %d bytes' % (self.rn, n))
                break
            if p != 1:
                F.hit((21,), 'match.short', '%s::match accepts a buffer of %d bytes although the packet takes %d' % (self.rn, n, L))
                break
        # declared lengths that are wrong
        for words in sorted({0, 1, 2, L // 4 - 1, L // 4 + 1, L // 4 + 7, 0x7fff, 0xffff}):
            if words < 0 or words == L // 4:
                continue
            b2 = [list(b) for b in full]
            for k in range(16):
                i, j = self.word(got, 'header', k)
                b2[i][j] = words >> k & 1
            p, ev = self.match([tuple(b) for b in b2])
            F.n += 1
            if bad(ev):
                F.hit((21,), 'match.read', '%s::match reads past the end of a buffer whose header declares %d words' % (self.rn, words))
            elif p != 1 and words * 4 > L:
                F.hit((21,), 'match.declared', '%s::match accepts a buffer of %d bytes whose header declares %d' % (self.rn, L, words * 4))
            elif p != 1:
                F.hit((21,), 'match.minimum', '%s::match accepts a packet of %d declared bytes; the definition needs %d' % (self.rn, words * 4, L))
        # decoding
        ctor = [m for m in self.P.fns.values() if m.get('rec') == self.rn and m.get('ctor') and len(m['params']) == 1 and
                m.get('body') is not None and m['ctor'] not in ('copy', 'move')]
        if not ctor:
            raise Vanished('decoding constructor of ' + self.rn)
        self.ctor = ctor[0]
        for n in list(range(0, L, 1 if L < 64 else 3)) + [L]:
            for words in sorted({0, 1, L // 4, L // 4 + 1, n // 4, 0x7fff}):
                b2 = [[1 if x == 1 else 0 for x in b] for b in got[:n]]
                if n >= 4:
                    for k in range(16):
                        i, j = self.word(got, 'header', k)
                        b2[i][j] = words >> k & 1
                ev, _ = self.decode(b2)
                F.n += 1
                if ev:
                    F.hit((21,), 'decode.read', '%s: decoding a buffer of %d bytes whose header declares %d words reads past the end (%s)' % (self.rn, n, words, ev[0].msg))
                    return
        self.lying(got)

    def decode(self, b2, get=None):
        """(accesses outside the buffer while decoding these bytes, packet or None)"""
        I, st = self.I, State()
        r = I.alloc(st, Vec(self.X.u8, [BV(tuple(b)) for b in b2]), 'rx')
        k = len(I.events)
        self.runs += 1
        o = None
        try:
            o = I.construct(self.rn, self.X.tid, self.ctor, [Span(Ptr(r.root), Lin(len(b2)), self.X.u8)], st)
            if get and self.X.has(get, 0):
                I.call(self.X.meth(get, 0), I.alloc(st, o, 'obj'), [], st)
        except Thrown:
            pass
        except BaseException:
            del I.events[k:]
            raise
        ev = [e for e in I.events[k:] if e.kind in ('oob', 'oob-unproved', 'null-deref')]
        del I.events[k:]
        return ev, o

    def lying(self, got):
        """packets whose presence bits and counts announce more than the packet holds, or exactly what it holds"""
        F, S = self.F, self.S
        own = [sum((1 if x == 1 else 0) << j for j, x in enumerate(b)) for b in got]
        word = lambda i: int.from_bytes(bytes(own[i:i + 4]), 'big')
        head = own[:self.prologue]
        forms = []                              # (name, cam bits to set, indicator words)
        if self.vx:
            fs = self.reported
            for bits in ((17,), (16,), (17, 16)):
                cases = [('no field', {0: 0})] + [(f.name, {0: 1 << f.ind} if not f.n else {0: 1 << f.n, f.n: 1 << f.ind}) for f in fs]
                every = {0: 0}
                for f in fs:
                    every[f.n] = every.get(f.n, 0) | 1 << f.ind
                    if f.n:
                        every[0] |= 1 << f.n
                cases.append(('every field', every))
                for name, w in cases:
                    ws = [w[n] for n in sorted(w)]
                    forms.append((name, bits, ws * len(bits) if len(ws) == 1 else ws + (ws if len(bits) > 1 else [])))
        elif S.cifs:
            base, pos = {}, self.prologue
            for n in S.cifs:
                if n == 0 or S.sticky(n):
                    base[n] = word(pos)
                    pos += 4
            forms.append(('no optional field', (), [base[n] for n in sorted(base)]))
            every = dict(base)
            for f in S.fields:
                w = dict(base)
                for x in (w, every):
                    x[f.n] = x.get(f.n, 0) | 1 << f.ind
                    if f.n:
                        x[0] |= 1 << f.n
                if f.optional or f.kind == genmodel.VAR:
                    forms.append((f.name, (), [w[n] for n in sorted(w)]))
            forms.append(('every field', (), [every[n] for n in sorted(every)]))
            for f in S.fields:
                if not f.optional and base.get(f.n, 0) >> f.ind & 1:
                    # a field the definition requires, left out
                    w = dict(base)
                    w[f.n] &= ~(1 << f.ind)
                    forms.append((f.name, (), [w[n] for n in sorted(w)]))
                    if f.n:
                        forms.append((f.name, (), [base[0] & ~(1 << f.n)]))
                    else:
                        forms.append((f.name, (), [0]))
        for name, cam, ws in forms:
            h = list(head)
            for k in cam:
                i, j = self.word(got, 'cam', k)
                h[i] |= 1 << j
            fills = ((0, 0, 0, 0), (0, 0, 0, 1), (0, 1, 0, 1), (255,) * 4) if not self.vx else ((0, 0, 0, 1),)
            for m in range(len(ws) + 1):
                # the packet ends within the indicator words or after them
                ks = (0,) if m < len(ws) else (0, 1, 2, 3, 4, 8, 13) if not self.vx else (0, 1)
                for extra in ks:
                    for fill in fills if extra else fills[:1]:
                        bs = list(h)
                        for w in ws[:m]:
                            bs += list(w.to_bytes(4, 'big'))
                        bs += list(fill) * extra
                        n = len(bs) // 4
                        bs[2], bs[3] = n >> 8 & 255, n & 255
                        ev, _ = self.decode([tuple(b >> j & 1 for j in range(8)) for b in bs], None if ' ' in name or self.vx else name)
                        F.n += 1
                        if ev:
                            F.hit((21,), 'decode.announced', '%s: decoding a packet of %d bytes that announces %s reads past the end (%s)' %
                                  (self.rn, len(bs), name, ev[0].msg))
                            return


def run(chk, tag):
    sys.setrecursionlimit(20000)
    chk.floor('packet classes', 380)
    chk.floor('received forms', 5000)
    J = gencheck.pick(specs.jobs(), chk.tier)
    root = os.path.join(scratch(), 'rx')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)
    J.sort(key=lambda j: -(('all_' in j.tag) * 1000 + len(j.packets)))

    def one(c, j):
        ok, d, files, packets = res[j.tag]
        if not ok:
            c.undecided('generate.' + j.tag, 'specification ' + j.tag, 'the generator refuses the specification')
            return
        try:
            P = genmodel.program(d, [x for x in os.listdir(d) if not x.startswith('vp_all')])
        except Uncompilable:
            c.undecided('compile.' + j.tag, 'specification ' + j.tag, 'the generated code does not compile (P16)')
            return
        c.count('specifications')
        ns = j.options.get('namespace_', 'gen')
        for suf, S in genmodel.shapes(j, P, ns):
            explore(c, tag, P, ns, j, S, suf == 'VX')
    chk.spread(J, one)


def explore(c, tag, P, ns, j, S, vx):
    c.count('packet classes')
    F = Found('')
    where = 'packet %s of specification %s' % (S.cls, j.tag)
    R = None
    try:
        R = Receiver(P, ns, S, F, vx)
        R.identity() if tag == 20 else R.bounds()
    except Broken:
        raise
    except Exception as e:
        if type(e).__name__ not in ('Unsupported', 'Vanished', 'Thrown', 'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'ValueError', 'RecursionError'):
            raise
        if os.environ.get('VP_DEBUG'):
            raise
        c.undecided('explore.%s' % S.cls, where, '%s: %s' % (type(e).__name__, str(e)[:200]))
    c.count('received forms', R.runs if R else 0)
    c.count('comparisons', F.n)
    c.ok(S.cls + '@' + j.tag, where, '%d received forms' % (R.runs if R else 0))
    for t, k, m in F.items:
        if tag in t:
            c.violation('%s.%s' % ('AckVX' if vx else S.role(), k), where, m)
    for k, why in set(F.undec):
        c.undecided('%s.%s' % (S.cls, k), where, why)
