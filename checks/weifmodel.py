"""Warnings and errors of acknowledgements (P23): every generated validation/execution acknowledgement is taken through every operation
that reports or clears a warning or an error, from many states, and what it serialises is compared with what has been reported."""
import itertools, os, sys
from absint import *
from common import Broken, Uncompilable, scratch
from packlib import *
import genlib, genmodel, gencheck, specs
from genmodel import CAMBITS, Explorer, Found, Obj, be

SIDES = (('warnings', 'wif', 'req_w', 17), ('errors', 'eif', 'req_er', 16))


class Slot:
    def __init__(self, side, f):
        self.side, self.f, self.n = side, f, f.n
        self.name = '%s_%s' % (f.name, side)

    def __repr__(self):
        return self.name


class Weif(Explorer):
    def __init__(self, P, ns, S, F, tier):
        fields = S.fields
        S.fields, S.cifs = [], []
        super().__init__(P, ns, S, F, tier)
        cam = S.d.cam or {}
        self.sides = [s for s in SIDES if cam.get(s[2]) in ('true', 'required')]
        self.light = False
        self.slots = []
        self.missing = []
        for side, word, req, bit in self.sides:
            for f in fields:
                s = Slot(side, f)
                (self.slots if self.has(s.name, 1) else self.missing).append(s)

    # ------------------------------------------------------------ expectation
    def initial(self):
        M = super().initial()
        M['rep'] = {}
        return M

    def side(self, M, side):
        return [s for s in self.slots if s.side == side and s.name in M['rep']]

    def words(self, M, side):
        """{n: 32 bits} of the indicator words that are present"""
        on = self.side(M, side)
        if not on:
            return {}
        w = {0: [0] * 32}
        for s in on:
            w.setdefault(s.n, [0] * 32)[s.f.ind] = 1
            if s.n:
                w[0][s.n] = 1
        return w

    def expect(self, M):
        M['cam'] = dict(M['cam'])
        for side, word, req, bit in SIDES:
            M['cam'][bit] = int(bool(self.side(M, side)))
        seg, total = super().expect(M)
        for side, word, req, bit in self.sides:
            for n, w in sorted(self.words(M, side).items()):
                seg.append(('%s_%d' % (word, n), be(w)))
        for side, word, req, bit in self.sides:
            for s in self.side(M, side):
                seg.append((s.name, M['rep'][s.name]))
        total = sum(len(b) for _, b in seg)
        h = [x for b in reversed(seg[0][1]) for x in b]
        for k in range(16):
            h[k] = total // 4 >> k & 1
        seg[0] = ('header', be(h))
        return seg, total

    def mismatch(self, o, label, exp, got, pos, how, tags):
        if label == 'cam':
            diff = [k for k in range(32) if len(got) == 4 and got[3 - k // 8][k % 8] != exp[3 - k // 8][k % 8]]
            if set(diff) & {16, 17}:
                self.F.hit((23,), 'flag.' + '.'.join(s for s, _, _, b in SIDES if b in diff),
                           '%s%s: the acknowledge word does not tell whether the packet has %s' %
                           (self.rn, how, ' and '.join(s for s, _, _, b in SIDES if b in diff)))
                return
        if label[:4] in ('wif_', 'eif_'):
            self.F.hit((23,), 'indicator.' + label, '%s%s: indicator word %s does not say what is reported' % (self.rn, how, label))
            return
        if label in {s.name for s in self.slots}:
            self.F.hit((23,), 'place.' + label, '%s%s: the bytes at %d..%d are not those of %s' % (self.rn, how, pos, pos + len(exp), label))
            return
        super().mismatch(o, label, exp, got, pos, how, tags)

    # ------------------------------------------------------------ operations
    def value(self, s):
        if s.name not in self.fieldtype:
            self.fieldtype[s.name] = self.value_type(self.meth(s.name, 1))
        return self.make_struct(self.fieldtype[s.name], self.fresh_name(s.name))

    def report(self, o, s, via='setter'):
        v, exp = self.value(s)
        if via == 'setter':
            self.call(o, s.name, v)
            o.hist.append('%s(value)' % s.name)
        else:
            p = self.opt(o, s)
            if p is None:
                return False
            self.I.put(o.st, p.root, p.path, Opt(1, v))
            o.hist.append('%s() = value' % s.name)
        o.M['rep'][s.name] = exp
        return True

    def opt(self, o, s):
        if not self.has(s.name, 0):
            return None
        p = self.call(o, s.name)
        return p if isinstance(p, Ptr) and isinstance(self.I.walk(o.st, p.root, p.path), Opt) and not self.const(s.name) else None

    def const(self, name):
        t = self.meth(name, 0)['ret']
        return self.P.ty(t)['c'] != 'ref' or bool(self.P.ty(self.P.ty(t)['pt']).get('const'))

    def clear(self, o, s, via='resetter'):
        if via == 'resetter':
            if not self.has('reset_' + s.name, 0):
                return False
            self.call(o, 'reset_' + s.name)
            o.hist.append('reset_%s()' % s.name)
        else:
            p = self.opt(o, s)
            if p is None:
                return False
            self.I.put(o.st, p.root, p.path, Opt(0, None))
            o.hist.append('%s().reset()' % s.name)
        o.M['rep'].pop(s.name, None)
        return True

    def wipe(self, o, word, n):
        nm = 'reset_%s_%d' % (word, n)
        if not self.has(nm, 0):
            return False
        self.call(o, nm)
        o.hist.append(nm + '()')
        side = 'warnings' if word == 'wif' else 'errors'
        for s in self.slots:
            if s.side == side and (n == 0 or s.n == n):
                o.M['rep'].pop(s.name, None)
        return True

    def operations(self, slots):
        out = []
        for s in slots:
            out += [lambda o, s=s: self.report(o, s), lambda o, s=s: self.clear(o, s), lambda o, s=s: self.report(o, s, 'ref'),
                    lambda o, s=s: self.clear(o, s, 'ref')]
        for side, word, req, bit in self.sides:
            for n in sorted({0} | {s.n for s in slots if s.side == side}):
                out.append(lambda o, word=word, n=n: self.wipe(o, word, n))
        return out

    # ------------------------------------------------------------ reading
    def read(self, o, how):
        I, F = self.I, self.F
        self.read_prologue(o, how)
        for i, s in enumerate(self.slots):
            if not self.has(s.name, 0) or len(self.slots) > 24 and i % 8 != self.states % 8:
                continue
            v, fn = self.deref(o, s.name)
            F.n += 1
            want = o.M['rep'].get(s.name)
            if not isinstance(v, Opt) or v.p not in (0, 1):
                F.unsure('read.' + s.name, repr(v)[:80])
            elif v.p != int(want is not None):
                F.hit((23,), 'read.' + s.name, '%s%s: %s() says the opposite of the packet' % (self.rn, how, s.name))
            elif want is not None and self.packed(self.fieldtype.get(s.name) or self.value_type(self.meth(s.name, 1)), o.st, v.v) != want:
                F.hit((23,), 'read.' + s.name, '%s%s: %s() is not what the packet holds' % (self.rn, how, s.name))
        for side, word, req, bit in self.sides:
            ws = self.words(o.M, side)
            for n in range(3):
                nm = '%s_%d' % (word, n)
                if not self.has(nm, 0):
                    continue
                v, fn = self.deref(o, nm)
                if not isinstance(v, Opt) or v.p not in (0, 1):
                    F.unsure('read.' + nm, repr(v)[:80])
                    continue
                F.n += 1
                if v.p != int(n in ws):
                    F.hit((23,), 'read.' + nm, '%s%s: %s() says the opposite of the packet' % (self.rn, how, nm))
                elif v.p:
                    if self.packed(type_of(self.P, v.v.ty), o.st, v.v) != be(ws[n]):
                        F.hit((23,), 'read.' + nm, '%s%s: %s() is not the indicator word of the packet' % (self.rn, how, nm))

    def check(self, o, how=None):
        self.verify(o, (23,))
        self.read(o, how or ' after ' + ', '.join(o.hist[-4:]))

    def redecode(self, o):
        got = self.serialise(o)
        d = self.decode(got, o.M, 'a packet with ' + (', '.join(o.M['rep']) or 'nothing reported'))
        d.M['rep'] = dict(o.M['rep'])
        return d

    # ------------------------------------------------------------ exploration
    def run(self):
        base = self.construct()
        for nm, bit in (('ack_v', 20), ('ack_x', 19)):
            base.M['cam'] = dict(base.M['cam'])
            if self.has(nm, 1):
                self.call(base, nm, BV((0,) * (self.P.width(self.meth(nm, 1)['params'][0]['t']) or 1)))
                base.M['cam'][bit] = 0
        self.check(base, ' when constructed')
        base.hist = []
        for side, word, req, bit in SIDES:
            if side not in [s[0] for s in self.sides]:
                continue
        self.set_prologue(base)
        for nm, bit in (('ack_v', 20), ('ack_x', 19)):
            if self.has(nm, 1):
                w = self.P.width(self.meth(nm, 1)['params'][0]['t']) or 1
                b = src_bv(self.fresh_name(nm), w).b[0]
                self.call(base, nm, BV((b,) + (0,) * (w - 1)))
                base.M['cam'] = dict(base.M['cam'])
                base.M['cam'][bit] = b
        self.check(base, ' after setting the prologue')
        d = self.redecode(base)
        self.check(d)
        base.hist = []
        if not self.slots:
            return
        quick = self.tier == 'quick'
        big = len(self.slots) > 24
        some = self.slots if not big else [s for i, s in enumerate(self.slots) if i % 8 == 0] if quick else self.slots[::2]
        # each one alone, in every way
        for s in self.slots:
            for via in ('setter', 'ref'):
                for back in ('resetter', 'ref'):
                    if (via == 'ref') != (back == 'ref') and quick or via == 'ref' and s not in some:
                        continue
                    o = base.fork()
                    if self.report(o, s, via):
                        self.check(o)
                        if self.clear(o, s, back):
                            self.check(o)
        # all of them, in either order, decoded, wiped word by word
        for seq in (self.slots, self.slots[::-1]):
            o = base.fork()
            for s in seq:
                self.report(o, s)
            self.check(o)
            d = self.redecode(o)
            self.check(d)
            for s in seq[:3]:
                self.report(d, s)
            self.check(d)
            for op in self.operations([s for s in some if s.n][:6 if quick else 40]):
                if op(d):
                    self.check(d)
            for side, word, req, bit in self.sides:
                for n in (2, 1, 0):
                    e = o.fork()
                    if self.wipe(e, word, n):
                        self.check(e)
                        self.report(e, seq[0])
                        self.check(e)
        # every subset of a few from different words and sides, every operation (and pair of operations) on it
        for few in self.choices() if not (quick and self.cam) else []:
            ops = self.operations(few)
            for k in range(1 << len(few)):
                if quick and self.light and k not in (0, 5, (1 << len(few)) - 1):
                    continue
                o = base.fork()
                for i, s in enumerate(few):
                    if k >> i & 1:
                        self.report(o, s)
                for start in (o, self.redecode(o)):
                    for i, a in enumerate(ops):
                        if quick and ((self.light and (i + k) % 3) or start is not o and (i + k) % 2):
                            continue
                        e = start.fork()
                        if not a(e):
                            continue
                        self.check(e) if i % 4 == 0 and not big else self.verify(e, (23,), not quick)
                        if not quick or not self.light and k == 1 << (len(few) - 1) and not big and start is o:
                            for b in ops:
                                e2 = e.fork()
                                if b(e2):
                                    self.verify(e2, (23,), not quick)

    def choices(self):
        by = {}
        for s in self.slots:
            by.setdefault((s.side, s.n), []).append(s)
        first = [l[0] for l in by.values()]
        last = [l[-1] for l in by.values()]
        lim = 6 if self.tier != 'quick' else 4
        top = max(x.n for x in first)
        first.sort(key=lambda s: (s.n not in (0, top), s.n))
        out = [first[:lim]]
        if not self.light and any(len(l) > 1 for l in by.values()):
            l = max(by.values(), key=len)
            out.append([l[0], l[-1]] + [x[-1] for k, x in by.items() if x is not l][:1])
        if last != first and self.tier != 'quick':
            out.append(last[:6])
        return out


def run(chk):
    sys.setrecursionlimit(20000)
    chk.floor('acknowledgement classes', 50)
    chk.floor('abstract packet states', 4000)
    J = [j for j in gencheck.pick(specs.jobs(), chk.tier) if j.tag.startswith(('cam', 'weif'))]
    root = os.path.join(scratch(), 'weif')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)
    J.sort(key=lambda j: -(('all' in j.tag) * 1000 + len(j.packets)))

    todo = []
    for j in J:
        ok, d, files, packets = res[j.tag]
        if not ok:
            chk.undecided('generate.' + j.tag, 'specification ' + j.tag, 'the generator refuses the specification')
            continue
        chk.count('specifications')
        n = sum('Ack' in p.kind for p in j.packets)
        todo += [(j, range(h, n, 2)) for h in (0, 1) if h < n] if j.tag.startswith('weif') else [(j, range(n))]
    todo.sort(key=lambda it: not it[0].tag.startswith('weif_0'))
    cache = {}

    def one(c, it):
        j, k = it
        try:
            if j.tag not in cache:
                cache.clear()
                d = res[j.tag][1]
                cache[j.tag] = genmodel.program(d, [x for x in os.listdir(d) if not x.startswith('vp_all')])
            P = cache[j.tag]
        except Uncompilable:
            c.undecided('compile.' + j.tag, 'specification ' + j.tag, 'the generated code does not compile (P16)')
            return
        ns = j.options.get('namespace_', 'gen')
        acks = [p for p in j.packets if 'Ack' in p.kind]
        for suf, S in genmodel.shapes(j, P, ns):
            if suf == 'VX' and any(S.p is acks[i] for i in k):
                explore(c, P, ns, j, S)
    chk.spread(todo, one)


def explore(c, P, ns, j, S):
    c.count('acknowledgement classes')
    F = Found('')
    where = 'packet %s of specification %s' % (S.cls, j.tag)
    X = None
    try:
        X = Weif(P, ns, S, F, c.tier)
        X.cam = j.tag.startswith('cam')
        X.light = j.tag.startswith(('cam', 'weif_f'))
        X.run()
    except Broken:
        raise
    except Exception as e:
        if type(e).__name__ not in ('Unsupported', 'Vanished', 'Thrown', 'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'ValueError', 'RecursionError'):
            raise
        if os.environ.get('VP_DEBUG'):
            raise
        if type(e).__name__ == 'Thrown':
            F.hit((23,), 'throws', '%s: an operation on an acknowledgement throws' % X.rn)
        else:
            c.undecided('explore.%s' % S.cls, where, '%s: %s' % (type(e).__name__, str(e)[:200]))
    if X:
        c.count('abstract packet states', X.states)
        c.count('warning and error fields', len(X.slots))
        c.count('fields without a warning or error', len(X.missing))
    c.count('comparisons', F.n)
    c.ok(S.cls + '@' + j.tag, where, '%d states' % (X.states if X else 0))
    for t, k, m in F.items:
        c.violation('AckVX.' + k, where, m)
    for k, why in set(F.undec):
        c.undecided('%s.%s' % (S.cls, k), where, why)
