"""What a generated packet class has to do, and the abstract exploration of the generated code against it.

`Shape` is the wire layout VITA 49.2 gives for a packet definition (independent of the generator).  `Explorer`
interprets the generated class (constructors, setters, resets, references, serialisation, decoding) in the
bit-provenance domain: field values stay symbolic, presence sets and operation orders are enumerated."""
import os
import re
from absint import *
from bits import B
from common import REPO, Broken, dump, rel
from packlib import *
from p05 import to8
from genlib import F0, F1, F2, SPECIAL, U, FX, ST, VAR, UU
import vita

IND = {0: vita.IND0, 1: vita.IND1, 2: vita.IND2}
FORMS = {0: F0, 1: F1, 2: F2}
TSI = {'none': 0, 'utc': 1, 'gps': 2, 'other': 3, 'any': None}
TSF = {'none': 0, 'samples': 1, 'picoseconds': 2, 'free_running': 3, 'any': None}
PKT = {'Context': 4, 'ExtensionContext': 5, 'Control': 6, 'Ack': 6, 'ExtensionControl': 7, 'ExtensionAck': 7}
ACTION = {'none': 0, 'dry-run': 1, 'execute': 2}
CAMBITS = {'permit_partial': 27, 'permit_warnings': 26, 'permit_errors': 25, 'nack': 22, 'nack_only': 22,
           'req_v': 20, 'req_x': 19, 'req_s': 18, 'req_w': 17, 'req_er': 16}


class Field:
    def __init__(self, name, n, mode, form):
        self.name, self.n, self.mode = name, n, mode
        self.kind = form[0]
        self.bits = form[1] if form[0] in (U, FX) else None
        self.radix = form[2] if form[0] == FX else None
        self.cls = form[1] if form[0] in (ST, VAR) else None
        self.ind = IND[n].get(name)
        self.scalar = self.kind in (U, FX)
        self.size = max(4, self.bits // 8) if self.scalar else None

    @property
    def optional(self):
        return self.mode == 'optional'


class Part:
    """one prologue part: size and how it is represented"""

    def __init__(self, name, size, kind, literal=None):
        self.name, self.size, self.kind, self.literal = name, size, kind, literal


class Shape:
    def __init__(self, p, ctl=None, cls=None, ackbits=()):
        """p: packet definition; ctl: the control a response belongs to; cls: generated class name"""
        d = ctl or p
        self.p, self.d, self.cls = p, d, cls or p.name
        self.kind, self.ackbits = p.kind, ackbits
        self.ack = ctl is not None
        self.data = p.kind == 'Data'
        self.ctx = 'Context' in p.kind
        self.cmd = not (self.data or self.ctx)
        parts = [Part('header', 4, 'header')]
        s = d.stream
        self.stream_user = bool(s) and '\n' in s
        if not self.data or s is not None:
            parts.append(Part('stream_id', 4, 'user' if self.stream_user else 'u32', int(s, 0) if s and not self.stream_user else 0))
        if d.class_id is not None:
            parts.append(Part('class_id', 8, 'class_id'))
        ts = d.ts or {}
        self.tsi, self.tsf = TSI[ts.get('integer', 'none')], TSF[ts.get('fractional', 'none')]
        if self.tsi != 0:
            parts.append(Part('integer_timestamp', 4, 'u32', 0))
        if self.tsf != 0:
            parts.append(Part('fractional_timestamp', 8, 'u64', 0))
        self.query = False
        if self.cmd:
            parts.append(Part('cam', 4, 'cam'))
            parts.append(Part('message_id', 4, 'u32', 0))
            for k in ('controllee', 'controller'):
                v = getattr(d, k)
                if v:
                    parts.append(Part(k + '_id', 4 if v == 'word' else 16, 'u32' if v == 'word' else 'uuid', 0))
            self.query = not self.ack and (d.cam or {}).get('action_mode') == 'none'
        self.parts = parts
        self.fields = []
        self.cifs = []
        if not self.data:
            # an extension command has no indicator words unless the definition gives it some
            self.cifs = [0] + sorted(n for n in d.cif if n) if d.cif or d.kind != 'ExtensionControl' else []
            for n in sorted(d.cif):
                fs = []
                for name, mode in d.cif[n].items():
                    if name not in IND[n]:
                        raise Broken('no indicator bit known for %s' % name)
                    form = FORMS[n].get(name)
                    if name == 'buffer_size':
                        form = (FX, 64, None)        # placement only: the standard gives it no scale
                    if mode not in ('required', 'optional'):
                        if mode.startswith('!DIFI1p2Ref'):
                            form = (ST, None)
                        elif mode.startswith('!DIFI1p2Buf'):
                            form = (ST, None)
                        elif mode.startswith('!DiscreteIO'):
                            form = (ST, None)
                        elif mode.startswith('!IndexList'):
                            form = (VAR, None)
                        else:
                            raise Broken('unmodelled field form %s' % mode)
                        mode = 'optional' if 'mode: optional' in mode else 'required'
                    fs.append(Field(name, n, mode, form))
                self.fields += sorted(fs, key=lambda f: -f.ind)
        self.cif7 = d.cif7
        self.trailer = d.trailer if self.data else None
        if any(f.n and f.n not in self.cifs for f in self.fields):
            raise Broken('field outside its indicator word')
        self.byname = {f.name: f for f in self.fields}

    def role(self):
        return ('Ack' if self.ack else '') + {'Data': 'Data', 'Context': 'Context', 'ExtensionContext': 'Context'}.get(self.kind, 'State' if self.ack else
                                                                                                                  'Query' if self.query else 'Control')

    def sticky(self, n):
        """the extension word is always there: it has a required field"""
        return any(f.n == n and not f.optional for f in self.fields)

    def header_bits(self):
        """{bit: 0/1} of a fresh header that the definition fixes (size and count aside)"""
        d = self.d
        if self.data:
            t = 1 if any(x.name == 'stream_id' for x in self.parts) else 0
        else:
            t = PKT[self.kind]
        out = {}
        for k in range(4):
            out[28 + k] = t >> k & 1
        out[27] = int(d.class_id is not None)
        for k in range(2):
            out[22 + k] = (self.tsi or 0) >> k & 1
            out[20 + k] = (self.tsf or 0) >> k & 1
        out[26] = out[25] = out[24] = 0
        if self.data:
            out[26] = int(self.trailer is not None)
        if self.cmd:
            out[26] = int(self.ack)
        if self.ctx:
            if d.tsm == 'coarse':
                out[24] = 1
            # beyond V49.0: any indicator word besides CIF0
            out[25] = int(any(n for n in d.cif) or bool(d.cif7))
        if self.data and 'sample_frame' in (self.trailer or {}):
            out[25] = 1
        return out

    def cam_bits(self):
        cam, out = self.d.cam or {}, {b: 0 for b in range(32)}
        for k, (en, fo) in (('controllee', (31, 30)), ('controller', (29, 28))):
            v = getattr(self.d, k)
            if v:
                out[en], out[fo] = 1, int(v == 'uuid')
        for k, v in cam.items():
            if k in CAMBITS and v == 'true' and not (self.ack and k.startswith('req_')):
                out[CAMBITS[k]] = 1
        for b in self.ackbits:
            out[b] = 1
        a = ACTION[cam.get('action_mode', 'none')]
        out[24], out[23] = a >> 1, a & 1
        return out


class Found:
    """collects findings; .tags say which properties a finding belongs to"""

    def __init__(self, where):
        self.where, self.items, self.undec, self.n = where, [], [], 0

    def hit(self, tags, key, msg):
        self.items.append((frozenset(tags), key, msg))

    def unsure(self, key, why):
        self.undec.append((key, why))

    # the interface of common.Check the scaling predicates use
    def require(self, cond, key, where, msg, detail=''):
        self.n += 1
        if not cond:
            self.hit((19,), key, msg)
        return cond

    def violation(self, key, where, msg, detail=''):
        self.n += 1
        self.hit((19,), key, msg)

    def undecided(self, key, where, why):
        self.unsure(key, why)


def be(bits):
    """bytes (LSB-first bit tuples), most significant byte first"""
    bits = tuple(bits)
    return [bits[k:k + 8] for k in range(len(bits) - 8, -1, -8)]


def atoms(bs):
    out = set()
    for b in bs:
        for x in b:
            out |= {k for k in B.deep_support(x)}
    return out


def root_of(k):
    """name of the symbolic value a bit atom comes from"""
    while isinstance(k, tuple) and k and isinstance(k[0], tuple):
        k = k[0]
    return k


class Pend(list):
    """bytes of a scaled value that has been set but not serialised yet"""

    def __init__(self, f, name, again):
        super().__init__([(0,) * 8] * f.size)
        self.f, self.name, self.again = f, name, again


class Obj:
    """one abstract packet object together with what its bytes have to be"""

    def __init__(self, X, st, ptr, M, hist):
        self.X, self.st, self.ptr, self.M, self.hist = X, st, ptr, M, hist

    def fork(self):
        M = {k: (dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else v) for k, v in self.M.items()}
        return Obj(self.X, self.st.copy(), self.ptr, M, list(self.hist))


class Explorer:
    def __init__(self, P, ns, shape, F, tier='quick'):
        self.P, self.S, self.F, self.tier = P, shape, F, tier
        self.rn = (ns + '::packets::' if ns else '') + shape.cls
        if self.rn not in P.recs:
            raise Broken('class %s not generated' % self.rn)
        self.tid = type_of(P, self.rn)
        self.I = Interp(P)
        self.u8 = u8_type(P)
        self.serial = 0
        self.states = 0
        self.ops = 0
        self.checked = set()
        self.fieldtype = {}
        self.m_data = [f['id'] for f, _ in P.all_fields(self.rn) if f['n'] == 'm_data']

    # ------------------------------------------------------------ plumbing
    def methods(self, name, nargs):
        return methods(self.P, self.rn, name, nargs)

    def meth(self, name, nargs):
        ms = self.methods(name, nargs)
        if not ms:
            raise Vanished('%s::%s/%d' % (self.rn, name, nargs))
        return ms[0]

    def has(self, name, nargs):
        return bool(self.methods(name, nargs))

    def fresh_name(self, what):
        self.serial += 1
        return '%s#%d' % (what, self.serial)

    def call(self, o, name, *args):
        fn = self.meth(name, len(args))
        a = []
        for p, v in zip(fn['params'], args):
            a.append(self.I.alloc(o.st, v) if self.P.ty(p['t'])['c'] == 'ref' else v)
        self.ops += 1
        n = len(self.I.events)
        try:
            return self.I.call(fn, o.ptr, a, o.st)
        finally:
            self.events(n, '%s' % name)

    def events(self, n, during):
        for e in self.I.events[n:]:
            if e.kind in ('oob', 'null-deref', 'missing-key', 'nullopt', 'throw'):
                what = {'oob': 'reaches outside the packet bytes', 'null-deref': 'dereferences a null pointer',
                        'missing-key': 'looks up the position of a part that has none', 'nullopt': 'uses the value of an absent part',
                        'throw': 'throws'}[e.kind]
                self.F.hit((17, 18), 'memory.%s' % e.kind, '%s of %s %s (%s)' % (during, self.rn, what, e.msg))
            elif e.kind in ('oob-unproved', 'symbolic-offset', 'nullopt-possible', 'throw-possible'):
                self.F.unsure('memory.%s' % e.kind, e.msg)
        del self.I.events[n:]

    def bytes_of(self, st, p, n):
        return [tuple(x) for x in self.I.read_bytes(st, p, n)]

    # ------------------------------------------------------------ values
    def W(self, tid):
        return WireClass(self.P, self.P.ty(tid)['rec'])

    def value_type(self, fn):
        t = fn['params'][0]['t']
        while self.P.ty(t)['c'] == 'ref':
            t = self.P.ty(t)['pt']
        return t

    def packed(self, tid, st, v):
        """the type's own encoding of a value"""
        W = self.W(tid)
        st = st.copy()
        o = self.I.alloc(st, v)
        n = len(self.I.events)
        S = W.size(self.I, st, o)
        if S is None:
            raise Unsupported('size of %s' % W.rn)
        out = [to8(self.I, x) for x in W.pack(self.I, st, o, S, 'unwritten')]
        del self.I.events[n:]
        return out

    def make_struct(self, tid, name, count=2):
        """(value, encoding) of a symbolic structure"""
        from p05 import LAYOUT, symvec, accessor, vec_type, short
        P, I = self.P, self.I
        W = self.W(tid)
        st = State()
        o = W.default(I, st)
        sn = short(W.rn)
        seqs = LAYOUT.get(sn, {}).get('seqs')
        n0 = len(I.events)
        if seqs:
            for i, s in enumerate(seqs):
                n = count + i % 2 if sn == 'ContextAssociationLists' else count
                if s == 'async_channel_tag_list':
                    n = count + (i - 1) % 2
                setr, mut, cg = accessor(P, W.rn, s)
                v = symvec(I, P, vec_type(P, setr or mut), (name, s), n)
                if setr:
                    I.call(setr, o, [I.alloc(st, v)], st)
                else:
                    r = I.call(mut, o, [], st)
                    I.put(st, r.root, r.path, v)
        else:
            S = W.size(I, st, o)
            buf = W.buffer(I, st, S, name)
            W.unpack(I, st, o, buf)
        del I.events[n0:]
        v = st.mem[o.root]
        return v, self.packed(tid, st, v)

    def default_bytes(self, tid):
        st = State()
        v = self.I.construct_default(tid, st)
        return v, self.packed(tid, st, v)

    def field_type(self, f):
        if f.name not in self.fieldtype:
            self.fieldtype[f.name] = self.value_type(self.meth(f.name, 1))
        return self.fieldtype[f.name]

    # ------------------------------------------------------------ expectation
    def initial(self):
        S = self.S
        M = {'hdr': S.header_bits(), 'count': 0, 'change': 0, 'fields': {}, 'parts': {}, 'cam': S.cam_bits() if S.cmd else None,
             'ind': set(), 'payload': [], 'trailer': None}
        for p in S.parts:
            if p.kind in ('u32', 'u64'):
                M['parts'][p.name] = be(tuple(p.literal >> k & 1 for k in range(p.size * 8)))
            elif p.kind in ('user', 'uuid'):
                M['parts'][p.name] = [(0,) * 8] * p.size
            elif p.kind == 'class_id':
                c = S.d.class_id
                v = (int(c['oui'].replace('-', ''), 16) if 'oui' in c else 0) << 32
                v |= int(c.get('information_code', '0'), 0) << 16 | int(c.get('packet_code', '0'), 0)
                M['parts'][p.name] = be(tuple(v >> k & 1 for k in range(64)))
        for f in S.fields:
            if not f.optional:
                if S.query:
                    M['ind'].add(f.name)
                elif f.scalar:
                    M['fields'][f.name] = [(0,) * 8] * f.size
                else:
                    M['fields'][f.name] = self.default_bytes(self.field_type(f))[1]
        if S.trailer is not None:
            M['trailer'] = [(0,) * 8] * 4
        return M

    def present(self, M):
        return M['ind'] if self.S.query else set(M['fields'])

    def expect(self, M):
        """[(label, [byte bits])] of the whole packet"""
        S = self.S
        seg = []
        on = self.present(M)
        for p in S.parts:
            if p.kind == 'header':
                seg.append((p.name, None))
            elif p.kind == 'cam':
                seg.append((p.name, be(tuple(M['cam'][k] for k in range(32)))))
            else:
                seg.append((p.name, M['parts'][p.name]))
        if S.cifs:
            words = {n: [0] * 32 for n in S.cifs}
            words[0][31] = M['change']
            for f in S.fields:
                if f.name in on:
                    words[f.n][f.ind] = 1
            shown = [0]
            for n in S.cifs[1:]:
                if any(words[n]) or S.sticky(n):
                    words[0][n] = 1
                    shown.append(n)
            for n in shown:
                seg.append(('cif_%d' % n, be(words[n])))
        if not S.query:
            for f in S.fields:
                if f.name in M['fields']:
                    seg.append((f.name, M['fields'][f.name]))
        if S.data:
            pl = list(M['payload'])
            while len(pl) % 4:
                pl.append((0,) * 8)
            if pl:
                seg.append(('payload', pl))
            if M['trailer'] is not None:
                seg.append(('trailer', M['trailer']))
        total = sum(len(b) if b else 4 for _, b in seg)
        h = [M['hdr'].get(k, 0) for k in range(32)]
        words = (total + 3) // 4
        for k in range(16):
            h[k] = words >> k & 1
        cnt = M['count']
        for k in range(4):
            h[16 + k] = (cnt >> k & 1) if isinstance(cnt, int) else cnt[k]
        seg[0] = ('header', be(h))
        return seg, total

    def offsets(self, M):
        out, pos = {}, 0
        for l, b in self.expect(M)[0]:
            out[l] = (pos, len(b))
            pos += len(b)
        return out

    # ------------------------------------------------------------ comparing
    def serialise(self, o):
        d = self.call(o, 'data')
        if not isinstance(d, Span):
            raise Unsupported('data() is %r' % (d,))
        l = self.I.to_lin(d.n) if not isinstance(d.n, Lin) else d.n
        if not l.isconst():
            raise Unsupported('length of data()')
        n = len(self.I.events)
        out = self.bytes_of(o.st, d.p, l.c)
        self.events(n, 'data()')
        return out

    def verify(self, o, tags=(17, 18), again=True):
        """serialise and compare with the expectation; tags: the properties the last step concerns"""
        self.states += 1
        how = ' after ' + ', '.join(o.hist[-4:]) if o.hist else ' when constructed'
        got = self.serialise(o)
        seg, total = self.expect(o.M)
        self.F.n += 1
        S = self.S
        if len(got) != total:
            self.F.hit((17, 18), 'size', '%s%s serialises %d bytes; its parts take %d' % (self.rn, how, len(got), total))
        pos = 0
        for label, exp in seg:
            g = got[pos:pos + len(exp)]
            self.F.n += 1
            if isinstance(exp, Pend):
                self.settle(o, exp, g, pos, how)
            elif g != exp:
                self.mismatch(o, label, exp, g, pos, how, tags)
            pos += len(exp)
        if again:
            n = self.serialise(o)
            if n != got:
                self.F.hit((18,), 'idempotent', '%s%s: serialising twice gives different bytes' % (self.rn, how))
        return got

    def settle(self, o, pend, g, pos, how):
        f = pend.f
        w = f.bits // 8
        raw = g[f.size - w:]
        flat = tuple(x for b in reversed(raw) for x in b)
        if len(flat) == f.bits and pend.name in repr(atoms(raw)):
            from p06 import check_write
            if f.radix is not None:
                check_write(self.F, 'write.' + f.name, '', flat, f.bits, f.radix, True)
            if any(x != 0 for b in g[:f.size - w] for x in b):
                self.F.hit((17, 19), 'place.' + f.name, '%s%s: the reserved half of %s is not zero' % (self.rn, how, f.name))
        else:
            self.F.hit((17, 19) + ((18,) if pend.again else ()), 'place.' + f.name, '%s%s: the bytes at %d..%d do not hold the value given to %s' %
                       (self.rn, how, pos, pos + f.size, f.name))
        o.M['fields'][f.name] = list(g)

    def mismatch(self, o, label, exp, got, pos, how, tags):
        F = self.F
        if label == 'header':
            diff = [k for k in range(32) if len(got) == 4 and got[3 - k // 8][k % 8] != exp[3 - k // 8][k % 8]]
            if len(got) != 4 or any(k < 16 for k in diff):
                F.hit((18,), 'header.packet_size', '%s%s: the header does not declare the length of the packet' % (self.rn, how))
            rest = [k for k in diff if k >= 16]
            if rest:
                F.hit((19,), 'header.bit', '%s%s: header bits %s are not those of the definition' % (self.rn, how, rest))
            return
        if label.startswith('cif_'):
            diff = [k for k in range(32) if len(got) == 4 and got[3 - k // 8][k % 8] != exp[3 - k // 8][k % 8]]
            F.hit((18,) + ((17,) if len(got) != 4 else ()), 'indicator.' + label,
                  '%s%s: indicator word %s does not say what the packet contains (bits %s)' % (self.rn, how, label, diff))
            return
        want, have = atoms(exp), atoms(got)
        if label in ('cam', 'class_id', 'stream_id') and not want and not have:
            F.hit((19,), 'literal.' + label, '%s%s: %s does not carry the declared constant' % (self.rn, how, label))
        elif want and {root_of(k) for k in have} == {root_of(k) for k in want} and len(got) == len(exp):
            F.hit((19,) if label in self.S.byname and self.S.byname[label].scalar else (17, 19), 'form.' + label,
                  '%s%s: %s is not stored big-endian in its own width' % (self.rn, how, label))
        else:
            F.hit(set(tags) | {17, 19}, 'place.' + label, '%s%s: the bytes at %d..%d are not those of %s' %
                  (self.rn, how, pos, pos + len(exp), label))

    # ------------------------------------------------------------ operations
    def construct(self):
        st = State()
        n = len(self.I.events)
        ptr = self.I.alloc(st, self.I.construct_default(self.tid, st), 'obj')
        self.events(n, 'the constructor')
        return Obj(self, st, ptr, self.initial(), [])

    def decode(self, o_bytes, M, how):
        """object decoded from received bytes that spell M"""
        I = self.I
        st = State()
        ctor = [m for m in self.P.fns.values() if m.get('rec') == self.rn and m.get('ctor') and len(m['params']) == 1 and
                m.get('body') is not None and m['ctor'] not in ('copy', 'move')]
        if not ctor:
            raise Vanished('decoding constructor of ' + self.rn)
        buf = I.alloc(st, Vec(self.u8, [BV(b) for b in o_bytes]), 'rx')
        n = len(I.events)
        v = I.construct(self.rn, self.tid, ctor[0], [Span(Ptr(buf.root), Lin(len(o_bytes)), self.u8)], st)
        self.events(n, 'decoding (%s)' % how)
        M2 = {k: (dict(x) if isinstance(x, dict) else set(x) if isinstance(x, set) else x) for k, x in M.items()}
        return Obj(self, st, I.alloc(st, v, 'obj'), M2, ['decoding ' + how])

    def set_field(self, o, f, count=2, via='setter', tags=(17, 18)):
        """assign a new symbolic value"""
        I, S = self.I, self.S
        name = self.fresh_name(f.name)
        tid = self.field_type(f)
        again = f.name in o.M['fields']
        if f.scalar:
            v = I.sym_value(tid, name)
            self.call(o, f.name, v)
            o.hist.append('%s(value)' % f.name)
            if f.kind == U:
                exp = be(I.to_bv(v, f.bits).b)
                w = self.P.width(tid)
                if w != f.bits:
                    self.F.hit((19,), 'width.' + f.name, '%s::%s takes %s bits; the field has %d' % (self.rn, f.name, w, f.bits))
                exp = [(0,) * 8] * (f.size - len(exp)) + list(exp)
            else:
                exp = Pend(f, name, again)
        else:
            v, exp = self.make_struct(tid, name, count)
            if via == 'setter':
                self.call(o, f.name, v)
                o.hist.append('%s(value)' % f.name)
            else:
                p = self.call(o, f.name)
                if not isinstance(p, Ptr):
                    raise Unsupported('%s() is no reference' % f.name)
                cur = I.walk(o.st, p.root, p.path)
                I.put(o.st, p.root, p.path, Opt(1, v) if isinstance(cur, Opt) else v)
                o.hist.append('%s() = value' % f.name)
        o.M['fields'][f.name] = exp
        return again

    def reset(self, o, f):
        self.call(o, 'reset_' + f.name)
        o.hist.append('reset_%s()' % f.name)
        o.M['fields'].pop(f.name, None)
        o.M['ind'].discard(f.name)

    def enable(self, o, f, val):
        self.call(o, f.name + '_enabled', const_bv(int(val), 1))
        o.hist.append('%s_enabled(%s)' % (f.name, 'true' if val else 'false'))
        (o.M['ind'].add if val else o.M['ind'].discard)(f.name)

    def set_prologue(self, o):
        """every prologue accessor, one symbolic value each"""
        I, S, P = self.I, self.S, self.P
        for p in S.parts:
            if p.kind in ('u32', 'u64', 'user', 'uuid') and self.has(p.name, 1):
                fn = self.meth(p.name, 1)
                tid = self.value_type(fn)
                name = self.fresh_name(p.name)
                if p.kind in ('u32', 'u64'):
                    v = I.sym_value(tid, name)
                    if P.width(tid) != p.size * 8:
                        self.F.hit((19,), 'width.' + p.name, '%s::%s takes %s bits' % (self.rn, p.name, P.width(tid)))
                    exp = be(I.to_bv(v, p.size * 8).b)
                else:
                    v, exp = self.make_struct(tid, name)
                self.call(o, p.name, v)
                o.hist.append('%s(value)' % p.name)
                o.M['parts'][p.name] = exp
        if self.has('packet_count', 1):
            v = src_bv(self.fresh_name('packet_count'), 8)
            for k in range(4, 8):
                v = BV(v.b[:4] + (0,) * 4)
            self.call(o, 'packet_count', v)
            o.M['count'] = v.b[:4]
            o.hist.append('packet_count(value)')
        for nm, bit, w, known in (('tsm', 24, 1, S.ctx), ('tsi', 22, 2, S.tsi is None), ('tsf', 20, 2, S.tsf is None)):
            if known and self.has(nm, 1):
                t = P.width(self.meth(nm, 1)['params'][0]['t']) or 8
                b = src_bv(self.fresh_name(nm), t).b[:w]
                self.call(o, nm, BV(b + (0,) * (t - w)))
                for k in range(w):
                    o.M['hdr'][bit + k] = b[k]
                o.hist.append('%s(value)' % nm)
        if 'class_id' in o.M['parts']:
            for nm, lo, w in (('pad_bits', 59, 5), ('information_code', 16, 16)):
                if self.has(nm, 1):
                    t = P.width(self.meth(nm, 1)['params'][0]['t']) or 8
                    b = src_bv(self.fresh_name(nm), t).b[:w]
                    self.call(o, nm, BV(b + (0,) * (t - w)))
                    flat = [x for y in reversed(o.M['parts']['class_id']) for x in y]
                    flat[lo:lo + w] = b
                    o.M['parts']['class_id'] = be(flat)
                    o.hist.append('%s(value)' % nm)
        if S.cmd:
            cam = [(n, b) for n, b in CAMBITS.items() if not S.ack] + ([('partial_action', 11), ('scheduled_or_executed', 10)] if S.ack else [])
            for nm, bit in cam:
                if self.has(nm, 1):
                    v = src_bv(self.fresh_name(nm), self.P.width(self.meth(nm, 1)['params'][0]['t']) or 1)
                    b = v.b[0]
                    self.call(o, nm, BV((b,) + (0,) * (len(v.b) - 1)))
                    o.M['cam'] = dict(o.M['cam'])
                    o.M['cam'][bit] = b
                    o.hist.append('%s(value)' % nm)
            if self.has('timing_control', 1):
                t = self.P.width(self.meth('timing_control', 1)['params'][0]['t']) or 8
                b = src_bv(self.fresh_name('timing_control'), t).b[:3]
                self.call(o, 'timing_control', BV(b + (0,) * (t - 3)))
                o.M['cam'] = dict(o.M['cam'])
                for k in range(3):
                    o.M['cam'][12 + k] = b[k]
                o.hist.append('timing_control(value)')
        if S.cifs and self.has('change_indicator', 1):
            v = src_bv(self.fresh_name('change_indicator'), self.P.width(self.meth('change_indicator', 1)['params'][0]['t']) or 1)
            self.call(o, 'change_indicator', BV((v.b[0],) + (0,) * (len(v.b) - 1)))
            o.M['change'] = v.b[0]
            o.hist.append('change_indicator(value)')

    # ------------------------------------------------------------ reading
    def deref(self, o, name):
        fn = self.meth(name, 0)
        v = self.call(o, name)
        if isinstance(v, Ptr):
            v = self.I.walk(o.st, v.root, v.path)
        return v, fn

    def read_back(self, o, how):
        """every reader against the expected bytes"""
        S, F = self.S, self.F
        on = self.present(o.M)
        for f in S.fields:
            if S.query:
                nm = f.name + '_enabled'
                if not self.has(nm, 0):
                    continue
                v, _ = self.deref(o, nm)
                self.F.n += 1
                t = self.I.truth(v, o.st) if not isinstance(v, BV) else None
                bit = v.b[0] if isinstance(v, BV) else t
                if bit != int(f.name in on):
                    F.hit((18,), 'read.' + nm, '%s%s: %s() is not its indicator' % (self.rn, how, nm))
                continue
            if not self.has(f.name, 0):
                continue
            v, fn = self.deref(o, f.name)
            F.n += 1
            if f.optional:
                if not isinstance(v, Opt):
                    F.unsure('read.' + f.name, repr(v)[:80])
                    continue
                if v.p != int(f.name in on):
                    F.hit((18,), 'presence.' + f.name, '%s%s: %s() %s a value although the packet %s it' %
                          (self.rn, how, f.name, 'has' if v.p == 1 else 'has no', 'contains' if f.name in on else 'does not contain'))
                    continue
                if f.name not in on:
                    continue
                v = v.v
            exp = o.M['fields'][f.name]
            if f.scalar:
                w = f.bits // 8
                flat = tuple(x for b in reversed(exp[f.size - w:]) for x in b)
                if f.kind == U:
                    got = self.I.to_bv(v, f.bits).b
                    if tuple(got) != flat:
                        same = {root_of(k) for k in atoms([got])} == {root_of(k) for k in atoms([flat])}
                        F.hit((19,) if same else (17, 19), 'read.' + f.name, '%s%s: %s() does not return the bytes of the field' % (self.rn, how, f.name))
                elif atoms([flat]):
                    self.read_fx(o, f, v, flat, how)
            else:
                tid = self.field_type(f)
                if isinstance(v, Rec):
                    got = self.packed(tid, o.st, v)
                    if got != exp:
                        F.hit((17, 19), 'read.' + f.name, '%s%s: %s() is not the structure in the packet' % (self.rn, how, f.name))
                else:
                    F.unsure('read.' + f.name, repr(v)[:80])
        self.read_prologue(o, how)

    def read_fx(self, o, f, v, flat, how):
        from p06 import check_read
        F = self.F
        if isinstance(v, Flt):
            k = v.k
            while k and k[0] in ('scale', 'f32', 'conv'):
                k = k[1]
            if k and k[0] == 'int':
                s = strip_ext(k[1], f.bits, k[2])
                if s is None or tuple(s[0]) != flat:
                    got = k[1]
                    same = {root_of(x) for x in atoms([got])} == {root_of(x) for x in atoms([flat])}
                    F.hit((19,) if same else (17, 19), 'read.' + f.name,
                          '%s%s: %s() does not return the bytes of the field' % (self.rn, how, f.name))
                    return
        if f.radix is not None:
            check_read(F, 'read.' + f.name, '', v, flat, f.bits, f.radix, True)

    def read_prologue(self, o, how):
        S, F, I = self.S, self.F, self.I

        def cmp(nm, bits, tag=(19,)):
            if not self.has(nm, 0):
                return
            v, fn = self.deref(o, nm)
            F.n += 1
            if not isinstance(v, BV):
                v = I.to_bv(v, len(bits))
            got = tuple(v.b)
            want = tuple(bits) + (0,) * (len(got) - len(bits))
            if got[:len(want)] != want[:len(got)] or len(got) < len(bits):
                F.hit(tag, 'read.' + nm, '%s%s: %s() does not return the bits of the packet' % (self.rn, how, nm))
        for p in S.parts:
            if p.kind in ('u32', 'u64'):
                cmp(p.name, tuple(x for b in reversed(o.M['parts'][p.name]) for x in b), (17, 19))
            elif p.kind in ('user', 'uuid') and self.has(p.name, 0):
                v, fn = self.deref(o, p.name)
                t = fn['ret']
                while self.P.ty(t)['c'] == 'ref':
                    t = self.P.ty(t)['pt']
                F.n += 1
                if isinstance(v, Rec):
                    if self.packed(t, o.st, v) != o.M['parts'][p.name]:
                        F.hit((17, 19), 'read.' + p.name, '%s%s: %s() is not the identifier in the packet' % (self.rn, how, p.name))
                else:
                    F.unsure('read.' + p.name, repr(v)[:80])
        cnt = o.M['count']
        cmp('packet_count', tuple(cnt >> k & 1 for k in range(4)) if isinstance(cnt, int) else cnt)
        if S.ctx:
            cmp('tsm', (o.M['hdr'][24],))
        if S.tsi is None:
            cmp('tsi', (o.M['hdr'][22], o.M['hdr'][23]))
        if S.tsf is None:
            cmp('tsf', (o.M['hdr'][20], o.M['hdr'][21]))
        if 'class_id' in o.M['parts']:
            flat = tuple(x for b in reversed(o.M['parts']['class_id']) for x in b)
            cmp('pad_bits', flat[59:64])
            cmp('information_code', flat[16:32])
        if S.cmd:
            for nm, bit in list(CAMBITS.items()) + [('partial_action', 11), ('scheduled_or_executed', 10)]:
                cmp(nm, (o.M['cam'][bit],))
            cmp('timing_control', tuple(o.M['cam'][12 + k] for k in range(3)))
            cmp('action_mode', (o.M['cam'][23], o.M['cam'][24]))
        if S.cifs:
            cmp('change_indicator', (o.M['change'],))
        if S.data and self.has('payload', 0):
            v = self.call(o, 'payload')
            F.n += 1
            pl = list(o.M['payload'])
            while len(pl) % 4:
                pl.append((0,) * 8)
            if isinstance(v, Span) and (v.n.isconst() if isinstance(v.n, Lin) else False):
                n = len(I.events)
                got = self.bytes_of(o.st, v.p, v.n.c) if v.n.c else []
                self.events(n, 'payload()')
                if got != pl:
                    F.hit((17, 19), 'read.payload', '%s%s: payload() is not the payload of the packet' % (self.rn, how))
            else:
                F.unsure('read.payload', repr(v)[:80])

    # ------------------------------------------------------------ scenarios
    def wire_model(self, on, count=2):
        """a model whose every byte is an independent symbolic received byte"""
        S = self.S
        M = self.initial()
        nm = self.fresh_name('rx')
        for p in S.parts:
            if p.kind in ('u32', 'u64'):
                M['parts'][p.name] = [src_bv((nm, p.name, i), 8).b for i in range(p.size)]
            elif p.kind in ('user', 'uuid') and self.has(p.name, 0):
                t = self.meth(p.name, 0)['ret']
                while self.P.ty(t)['c'] == 'ref':
                    t = self.P.ty(t)['pt']
                M['parts'][p.name] = self.make_struct(t, (nm, p.name))[1]
        if 'class_id' in M['parts']:
            M['parts']['class_id'] = [src_bv((nm, 'class_id', i), 8).b for i in range(8)]
            b = M['parts']['class_id'][0]
            M['parts']['class_id'][0] = (0, 0, 0) + b[3:]
        if S.cmd:
            for b in list(CAMBITS.values()) + ([11, 10] if S.ack else []) + [12, 13, 14]:
                if M['cam'][b] == 0:
                    M['cam'][b] = src_bv((nm, 'cam', b), 1).b[0]
        M['count'] = src_bv((nm, 'count'), 4).b
        M['change'] = src_bv((nm, 'change'), 1).b[0] if S.cifs else 0
        if S.ctx:
            M['hdr'][24] = src_bv((nm, 'tsm'), 1).b[0]
        for k, v in (('tsi', 22), ('tsf', 20)):
            if getattr(S, k) is None:
                b = src_bv((nm, k), 2).b
                M['hdr'][v], M['hdr'][v + 1] = b
        for f in S.fields:
            if f.optional and f.name not in on:
                M['fields'].pop(f.name, None)
                M['ind'].discard(f.name)
                continue
            if S.query:
                M['ind'].add(f.name)
            elif f.scalar:
                w = f.bits // 8
                M['fields'][f.name] = [(0,) * 8] * (f.size - w) + [src_bv((nm, f.name, i), 8).b for i in range(w)]
            else:
                M['fields'][f.name] = self.make_struct(self.field_type(f), (nm, f.name), count)[1]
        return M

    def received(self, on, how, count=2, extra=0, payload=0):
        M = self.wire_model(on, count)
        if payload:
            nm = self.fresh_name('payload')
            M['payload'] = [src_bv((nm, i), 8).b for i in range(payload)]
        if M['trailer'] is not None:
            t = self.meth('trailer', 0)['ret']
            while self.P.ty(t)['c'] == 'ref':
                t = self.P.ty(t)['pt']
            M['trailer'] = self.make_struct(t, self.fresh_name('trailer'))[1]
        seg, total = self.expect(M)
        bs = [b for _, x in seg for b in x]
        bs += [src_bv((self.fresh_name('beyond'), i), 8).b for i in range(extra)]
        return self.decode(bs, M, how)

    def run(self):
        S, F = self.S, self.F
        base = self.construct()
        mb = [m for m in methods(self.P, self.rn, 'min_bytes', 0, public=False)]
        if mb:
            n = len(self.I.events)
            l = self.I.to_lin(self.I.call(mb[0], base.ptr, [], base.st))
            del self.I.events[n:]
            F.n += 1
            want = self.expect(base.M)[1]
            if l.isconst() and l.c != want:
                F.hit((17,), 'min_bytes', '%s::min_bytes() is %d; the required parts take %d' % (self.rn, l.c, want))
        self.verify(base)
        self.read_back(base, ' when constructed')
        v = self.call(base, 'size')
        l = self.I.to_lin(v)
        if l.isconst() and l.c != self.expect(base.M)[1]:
            F.hit((18,), 'size()', '%s::size() is not the number of bytes of the packet' % self.rn)
        o = base.fork()
        self.set_prologue(o)
        self.verify(o)
        self.read_back(o, ' after setting the prologue')
        req = [f for f in S.fields if not f.optional]
        opt = [f for f in S.fields if f.optional]
        if S.data:
            self.data_walk(o)
        elif S.query:
            self.query_walk(o, opt)
        else:
            few = req if len(req) <= 30 or self.tier != 'quick' else [f for i, f in enumerate(req) if i % 4 == 0 or not f.scalar]
            for f in req:
                self.set_field(o, f)
                if f in few:
                    self.verify(o)
            self.read_back(o, ' after setting every required field')
            for f in few:
                o2 = o.fork()
                self.set_field(o2, f, count=3)
                self.verify(o2)
                self.set_field(o2, f, count=1)
                self.verify(o2)
                if not f.scalar:
                    o2 = o.fork()
                    self.set_field(o2, f, via='reference')
                    self.verify(o2)
                    self.set_field(o2, f, via='reference', count=1)
                    self.verify(o2)
                    self.read_back(o2, ' after changing %s in place' % f.name)
            if opt:
                self.optional_walk(o, opt)
            self.decode_walk(req, opt)

    def optional_walk(self, base, opt):
        S = self.S
        # a packet with every field there is: its states are expensive, so the quick tier samples the positions
        big = len(opt) > 30 and self.tier == 'quick'
        ch = self.chosen(opt) if big else opt
        for f in ch:
            o = base.fork()
            self.set_field(o, f)
            self.verify(o)
            self.read_back(o, ' after ' + o.hist[-1])
            o2 = o.fork()
            for c in (3, 1):
                self.set_field(o2, f, count=c)
                self.verify(o2)
            self.reset(o, f)
            self.verify(o)
            self.reset(o, f)
            self.verify(o)
            if not f.scalar:
                o = base.fork()
                self.set_field(o, f, via='reference')
                self.verify(o)
                self.read_back(o, ' after ' + o.hist[-1])
                self.set_field(o, f, via='reference', count=3)
                self.verify(o)
                self.set_field(o, f, via='reference', count=1)
                self.verify(o)
                self.reset(o, f)
                self.verify(o)
        orders = [opt, opt[::-1]]
        full = None
        for seq in orders:
            o = base.fork()
            for i, f in enumerate(seq):
                self.set_field(o, f)
                if not big or i % 8 == 7 or f in ch or i + 1 == len(seq):
                    self.verify(o, again=False)
            self.read_back(o, ' with every optional field')
            full = o if full is None else full
            for rs in (seq, seq[::-1]):
                q = o.fork()
                for i, f in enumerate(rs):
                    self.reset(q, f)
                    if not big or i % 8 == 7 or i + 1 == len(rs):
                        self.verify(q, again=False)
            # the same without serialising in between
            q = base.fork()
            for f in seq:
                self.set_field(q, f)
            self.verify(q)
            for f in seq[::2]:
                self.reset(q, f)
            self.verify(q)
            for f in seq[::2]:
                self.set_field(q, f, count=1)
            self.verify(q)
        # in place, everything at once
        q = base.fork()
        for f in opt:
            self.set_field(q, f, via='setter' if f.scalar else 'reference')
        self.verify(q)
        self.read_back(q, ' with every optional field')
        for i, f in enumerate(ch):
            o = full.fork()
            if not f.scalar:
                o2 = o.fork()
                for c in (3, 1):
                    self.set_field(o2, f, count=c)
                    self.verify(o2)
                    self.set_field(o2, f, count=c + 1, via='reference')
                    self.verify(o2)
            self.reset(o, f)
            self.verify(o)
            self.read_back(o, ' after ' + o.hist[-1])
            self.set_field(o, f)
            self.verify(o)
        for n in S.cifs[1:]:
            if self.has('reset_cif_%d' % n, 0):
                for start in (full, base):
                    o = start.fork()
                    self.call(o, 'reset_cif_%d' % n)
                    o.hist.append('reset_cif_%d()' % n)
                    if not S.sticky(n):
                        for f in opt:
                            if f.n == n:
                                o.M['fields'].pop(f.name, None)
                    self.verify(o)
                    for f in [x for x in opt if x.n == n][:2]:
                        self.set_field(o, f)
                        self.verify(o)
        self.pairs(base, full, opt)

    def chosen(self, opt):
        if len(opt) <= 9 or self.tier != 'quick':
            return opt
        k = {0, len(opt) - 1} if len(opt) > 30 else {0, 1, len(opt) - 2, len(opt) - 1, len(opt) // 2}
        for n in (0, 1, 2):
            l = [i for i, f in enumerate(opt) if f.n == n]
            if l:
                k |= {l[0], l[-1]}
            k |= set([i for i in l if not opt[i].scalar][:1])
        return [opt[i] for i in sorted(k)]

    def pairs(self, base, full, opt):
        ch = self.chosen(opt)
        big = len(opt) > 30 and self.tier == 'quick'
        for f in ch:
            for g in ch:
                o = base.fork()
                self.set_field(o, f)
                if f is g:
                    self.reset(o, f)
                    self.set_field(o, f)
                    self.verify(o)
                    continue
                self.set_field(o, g)
                self.reset(o, f)
                self.verify(o)
                if not big:
                    o = full.fork()
                    self.reset(o, f)
                    self.reset(o, g)
                    self.set_field(o, f)
                    self.verify(o)
                o = base.fork()
                self.set_field(o, f)
                self.reset(o, f)
                self.set_field(o, g)
                self.verify(o)

    def decode_walk(self, req, opt):
        names = [f.name for f in opt]
        some = [f.name for f in self.chosen(opt)] if len(opt) > 30 and self.tier == 'quick' else names
        sets = [set(), set(names)] + [{n} for n in (names[::3] if some is not names else names)] + [set(names) - {n} for n in some]
        done = set()
        for on in sets:
            if frozenset(on) in done:
                continue
            done.add(frozenset(on))
            how = 'a packet with %s' % (', '.join(sorted(on)) if len(on) <= 2 else '%d of %d optional fields' % (len(on), len(names)))
            for count, extra in ((2, 0), (3, 8)):
                o = self.received(on, how, count, extra)
                self.verify(o)
                self.read_back(o, ' after decoding ' + how)
                ch = self.chosen(opt) if len(on) in (0, len(opt)) else [f for f in opt if f.name in on][:2]
                for f in ch:
                    q = o.fork()
                    if f.name in on:
                        self.reset(q, f)
                        self.verify(q)
                    self.set_field(q, f, count=1)
                    self.verify(q)
                for f in (req if len(req) < 12 or self.tier != 'quick' else req[::5]):
                    q = o.fork()
                    self.set_field(q, f, count=1)
                    self.verify(q)
                if not len(on) in (0, len(opt)):
                    break
        for n in self.S.cifs[1:]:
            if self.has('reset_cif_%d' % n, 0) and not self.S.sticky(n):
                o = self.received(set(names), 'a packet with every optional field')
                self.call(o, 'reset_cif_%d' % n)
                o.hist.append('reset_cif_%d()' % n)
                for f in opt:
                    if f.n == n:
                        o.M['fields'].pop(f.name, None)
                self.verify(o)

    def query_walk(self, base, opt):
        allf = self.S.fields
        for f in allf:
            if not self.has(f.name + '_enabled', 1):
                self.F.hit((18,), 'enable.' + f.name, '%s cannot enable %s' % (self.rn, f.name))
        allf = [f for f in allf if self.has(f.name + '_enabled', 1) and f.optional]
        for seq in (allf, allf[::-1]):
            o = base.fork()
            for f in seq:
                q = base.fork()
                self.enable(q, f, True)
                self.verify(q)
                self.read_back(q, ' after ' + q.hist[-1])
                self.enable(q, f, True)
                self.verify(q)
                self.enable(q, f, False)
                self.verify(q)
                self.enable(o, f, True)
                self.verify(o)
            for f in seq:
                q = o.fork()
                self.reset(q, f) if self.has('reset_' + f.name, 0) else self.enable(q, f, False)
                self.verify(q)
                self.enable(o, f, False)
                self.verify(o)
        on = {f.name for f in allf}
        for s in [set(), on] + [{n} for n in on]:
            o = self.received(s, 'a query of %d fields' % len(s))
            self.verify(o)
            self.read_back(o, ' after decoding')
            for f in allf[:4]:
                q = o.fork()
                self.enable(q, f, f.name not in s)
                self.verify(q)

    def put_payload(self, o, n):
        nm = self.fresh_name('payload')
        bs = [src_bv((nm, i), 8).b for i in range(n)]
        r = self.I.alloc(o.st, Vec(self.u8, [BV(b) for b in bs]), 'payload')
        fn = self.meth('payload', 1)
        k = len(self.I.events)
        self.I.call(fn, o.ptr, [Span(Ptr(r.root), Lin(n), self.u8)], o.st)
        self.events(k, 'payload(%d bytes)' % n)
        o.hist.append('payload(%d bytes)' % n)
        o.M['payload'] = bs

    def set_trailer(self, o):
        p = self.call(o, 'trailer')
        if not isinstance(p, Ptr):
            raise Unsupported('trailer() is no reference')
        t = self.meth('trailer', 0)['ret']
        while self.P.ty(t)['c'] == 'ref':
            t = self.P.ty(t)['pt']
        v, exp = self.make_struct(t, self.fresh_name('trailer'))
        self.I.put(o.st, p.root, p.path, v)
        o.hist.append('trailer() = value')
        o.M['trailer'] = exp

    def data_walk(self, base):
        lens = [0, 1, 2, 3, 4, 5, 8, 12, 64]
        for a in lens:
            o = base.fork()
            self.put_payload(o, a)
            self.verify(o)
            self.read_back(o, ' after ' + o.hist[-1])
            if self.S.trailer is not None:
                self.set_trailer(o)
                self.verify(o)
            for b in lens:
                q = o.fork()
                self.put_payload(q, b)
                self.verify(q)
                self.read_back(q, ' after ' + ', '.join(q.hist[-2:]))
                self.set_prologue(q)
                self.verify(q)
        for n, extra in ((0, 0), (4, 0), (8, 0), (8, 12), (64, 4)):
            o = self.received(set(), 'a packet with %d payload bytes' % n, extra=extra, payload=n)
            self.verify(o)
            self.read_back(o, ' after decoding')
            for b in (0, 3, 8, 12):
                q = o.fork()
                self.put_payload(q, b)
                self.verify(q)
                if self.S.trailer is not None:
                    self.set_trailer(q)
                    self.verify(q)
                self.read_back(q, ' after ' + q.hist[-1])


def program(where, files):
    """one translation unit with every generated source of a job"""
    tu = os.path.join(where, 'vp_all_%d.cpp' % os.getpid())
    whole = set()
    with open(tu, 'w') as f:
        for x in sorted(files):
            if x.endswith('.cpp') and x != 'main.cpp' and not x.startswith('vp_all'):
                f.write('#include "%s"\n' % x)
            if x.endswith('.hpp'):
                with open(os.path.join(where, x)) as g:
                    whole |= set(re.findall(r'vrtgen::packing::IndexList<\w+>', g.read()))
        for w in sorted(whole):         # every member, whether the packet calls it or not
            f.write('template class %s;\n' % w)
    return dump(tu, roots=[where], incs=[where])


def shapes(job, P, ns='gen'):
    """the packet classes of a job that have a byte layout of their own: [(Shape, class name)]"""
    out = []
    ctl = {p.name: p for p in job.packets}
    for p in job.packets:
        if 'Ack' in p.kind:
            c = ctl[p.responds]
            for suf in ('S', 'VX'):
                rn = (ns + '::packets::' if ns else '') + p.name + 'Ack' + suf
                for nm in (p.name + suf, p.name + 'Ack' + suf):
                    if (ns + '::packets::' if ns else '') + nm in P.recs:
                        out.append((suf, Shape(p, c, nm, (18,) if suf == 'S' else ())))
        else:
            out.append(('', Shape(p)))
    return out
