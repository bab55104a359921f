"""Generated controllers and controllees (P22, P27, P29): every path of the node code with the packet classes, the messaging client
and the system calls opaque."""
import os, re, sys
from flow import *
from common import dump, Broken, Uncompilable, rel, scratch
from sockmodel import SysModel, endpoint_state
import genlib, specs

KINDS = ('v', 'x', 's')
NATS = 'vrtgen::nats::'


def snake(n):
    return re.sub(r'(?<=[a-z0-9])([A-Z])|(?<=[A-Z])([A-Z])(?=[a-z])', lambda m: '_' + m.group(0), n).lower()


def opaque(rec):
    """library values the node code only passes on"""
    return rec.startswith('vrtgen::') and not rec.startswith('vrtgen::socket::')


class NodeModel(SysModel):
    """packets, messages and descriptors of a node"""

    def __init__(self, N, choices=True):
        SysModel.__init__(self, False)
        self.N = N
        self.serial = 0
        self.io = False            # system calls may fail
        self.node = None
        self.role = 'caller'
        self.sizes = False         # a decoded packet may be shorter than the data
        self.one = True            # at most one definition matches the data
        self.flags = None          # answers of the running flag

    # ---------------------------------------------------------- packets
    def owns_record(self, m, rec):
        return rec in self.N.packets or rec in self.N.aux or opaque(rec)

    def packet(self, rec, origin='default'):
        self.serial += 1
        o = Obj(rec)
        o.d.update(pid=self.serial, attrs={}, origin=origin, ver=0)
        return o

    def make_record(self, m, rec, tid):
        if rec in self.N.packets:
            return self.packet(rec)
        o = Obj(rec)
        self.serial += 1
        o.d.update(attr=('fresh', self.serial), sub={})
        return o

    def copy(self, m, v):
        if 'pid' in v.d:
            o = Obj(v.ty)
            o.d.update(v.d, attrs=dict(v.d['attrs']))
            o.d.pop('self', None)
            return o
        if 'attr' in v.d:
            o = Obj(v.ty)
            o.d.update(v.d, sub=dict(v.d['sub']))
            o.d.pop('self', None)
            return o
        return None

    move = copy

    def construct(self, m, e, f, rec):
        if rec == NATS + 'message' or not self.owns_record(m, rec or ''):
            return None
        a = e['a']
        if e['ck'] in ('copy', 'move'):
            c = m.lv(a[0])
            v = m.target(c)
            return self.copy(m, v) if isinstance(v, Obj) else v
        return self.construct_from(m, rec, [m.lv(x) for x in a])

    def construct_from(self, m, rec, cells):
        if not self.owns_record(m, rec):
            return None
        if rec in self.N.packets:
            if not cells:
                return self.packet(rec)
            v = cells[0].v
            if isinstance(v, Obj) and v.ty == rec:
                return self.copy(m, v)
            s = m.as_span([v])
            ok = m.choose('decoding %s' % short(rec), ['succeeds', 'throws'], None)
            o = self.packet(rec, 'decoded')
            o.d['from'] = s
            m.event('decode', rec=rec, span=s, got=received(s), ok=ok == 'succeeds', packet=o)
            if ok != 'succeeds':
                raise Throw('std::length_error')
            return o
        if len(cells) == 1 and isinstance(cells[0].v, (Obj, Sym)):
            return cells[0].v
        return self.make_record(m, rec, None)

    def token(self, v):
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, Obj):
            return v.d.get('val', v.d.get('attr', ('object', id(v))))
        if isinstance(v, Sym):
            return v.name
        return key(v)

    def attribute(self, m, o, n, tid):
        """value of attribute n of packet o"""
        t = m.p.ty(tid)
        isref = t['c'] == 'ref'
        if isref:
            tid = t['pt']
            t = m.p.ty(tid)
        if n not in o.d['attrs']:
            name = ('attr', o.d['pid'], n)
            if t['c'] == 'rec' and self.owns_record(m, t['rec']):
                v = Obj(t['rec'])
                v.d.update(attr=name, sub={})
            elif t['c'] == 'bool':
                v = Sym(name, 0, 1)
            elif t['c'] == 'rec':
                v = m.value_of_type(tid, n)
            else:
                v = Sym(name)
            o.d['attrs'][n] = v
        v = o.d['attrs'][n]
        if isref:
            return Cell(v, n)
        return self.copy(m, v) if isinstance(v, Obj) and 'attr' in v.d else v

    def data(self, m, o, tid):
        b = Buffer(('data of', o.d['pid'], o.d['ver'], len(m.trace)), Sym(('bytes of', o.d['pid'], o.d['ver']), 8, 262140))
        b.content = ('packet', o.ty, o.d['pid'], {k: self.token(v) for k, v in o.d['attrs'].items()}, o)
        if m.tn(tid) == 'std::span':
            return Span(BufPtr(b, 0), b.size)
        return b if m.p.ty(tid)['c'] != 'ref' else Cell(b, 'data')

    def call(self, m, e, f, obj):
        rec = f.get('rec', '')
        N = self.N
        if rec in N.packets:
            return self.packet_call(m, e, f, obj, rec)
        if rec.startswith(NATS):
            return self.nats_call(m, e, f, obj)
        if rec in N.aux or opaque(rec):
            return self.aux_call(m, e, f, obj, rec)
        fn = m.p.fns.get(f['id'])
        if obj is not None and f.get('virtual') and (fn is None or fn.get('body') is None) and rec in N.records and f['n'] != 'operator=':
            args = [m.lv(x) for x in e['a']]
            ret = m.make(f['ret']) if m.p.ty(f['ret'])['c'] != 'void' else VOID
            outs = [ret] if not isinstance(ret, Obj) or 'items' not in ret.d else [c.v for c in ret.d['items']]
            for i, o in enumerate(outs):
                if isinstance(o, Obj) and 'pid' in o.d:
                    o.d['origin'] = ('returned by', f['n'], i)
            m.event('handler', name=f['n'], args=[m.target(a) for a in args], results=[o.d.get('pid') if isinstance(o, Obj) else None for o in outs])
            return ret
        return None

    def packet_call(self, m, e, f, obj, rec):
        n = f['n']
        if n == 'match' and (obj is None or f.get('static')):
            s = m.as_span([m.rv(e['a'][0])])
            k = ('match', rec, key(s))
            if k in m.memo:
                yes = m.memo[k]
            elif self.one and any(x[0] == 'match' and x[2] == key(s) and v for x, v in m.memo.items() if isinstance(x, tuple)):
                yes = False
            else:
                yes = m.choose('%s::match' % short(rec), [True, False], k)
            m.event('match', rec=rec, span=s, got=received(s), ok=yes)
            r = m.lib_make(e['t'])
            r.d['has'] = not yes
            r.d['cell'].v = Str(('why not', short(rec)))
            return r
        o = m.target(obj)
        if not (isinstance(o, Obj) and 'pid' in o.d):
            raise Unmodelled('packet method on %r' % (o,))
        if n == 'operator=':
            v = m.target(m.lv(e['a'][0]))
            o.d.update(pid=v.d['pid'], attrs=dict(v.d['attrs']), origin=v.d['origin'], ver=v.d['ver'])
            o.d['from'] = v.d.get('from')
            return obj
        args = [m.lv(x) for x in e['a']]
        args = [self.copy(m, a.v) if isinstance(a.v, Obj) and 'attr' in a.v.d else m.read(a) for a in args]
        if n == 'data':
            return self.data(m, o, e['t'] if m.p.ty(f['ret'])['c'] == 'ref' else f['ret'])
        if n == 'size':
            return self.packet_size(m, o, True)
        if not args and m.p.ty(f['ret'])['c'] != 'void':
            return self.attribute(m, o, n, f['ret'])
        if len(args) == 1:
            o.d['attrs'][n] = args[0]
            o.d['ver'] += 1
            m.event('attr', packet=o, name=n, value=args[0])
            return m.value_of_type(f['ret'], n)
        o.d['ver'] += 1
        return m.value_of_type(f['ret'], n)

    def packet_size(self, m, o, ask=False):
        s = o.d.get('from')
        if s is None:
            return Sym(('bytes of', o.d['pid'], o.d['ver']), 8, 262140)
        k = ('fills', o.d['pid'])
        if self.sizes and (m.choose('more data follows the packet', [False, True], k) if ask else m.memo.get(k)):
            return add(s.n, Sym(('rest after', o.d['pid']), 1), -1)
        return s.n

    def aux_call(self, m, e, f, obj, rec):
        if obj is None:
            return None
        o = m.target(obj)
        n = f['n']
        if not isinstance(o, Obj):
            return None
        o.d.setdefault('sub', {})
        args = [m.rv(x) for x in e['a']]
        if n == 'operator=':
            v = args[0]
            if isinstance(v, Obj):
                o.d['val'] = self.token(v)
            return obj
        if n.startswith('pack') and args:
            p = args[0]
            if isinstance(p, CellPtr):
                p.cell.v = Sym(('packed', self.token(o)))
            return m.value_of_type(f['ret'], n)
        if n.startswith('unpack') and args:
            p = args[0]
            v = p.cell.v if isinstance(p, CellPtr) else None
            o.d['val'] = v.name[1] if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == 'packed' else ('unpacked', key(v))
            return m.value_of_type(f['ret'], n)
        if not args:
            if n in o.d['sub']:
                return o.d['sub'][n]
            t = m.p.ty(f['ret'])
            if t['c'] == 'bool':
                return Sym(self.name(o) + (n,), 0, 1)
            if t['c'] in ('int', 'enum'):
                return Sym(self.name(o) + (n,))
            return m.value_of_type(f['ret'], n)
        o.d['sub'][n] = args[0]
        return m.value_of_type(f['ret'], n)

    def name(self, o):
        t = self.token(o)
        return t if isinstance(t, tuple) else (t,)

    # ---------------------------------------------------------- messaging
    def nats_call(self, m, e, f, obj):
        n = f['n']
        o = m.target(obj) if obj is not None else None
        if f['rec'] == NATS + 'message':
            if n == 'data':
                b = Buffer(('message', o.d['k']), Sym(('length of message', o.d['k']), 1))
                b.content = ('received', o.d['k'])
                return Span(BufPtr(b, 0), b.size)
            if n == 'reply_subject':
                return Str(('reply subject of', o.d['k']))
            return None
        args = [m.rv(x) for x in e['a']]
        if n in ('next_msg', 'next_inbox_msg'):
            p = m.lib_make(e['t'])
            got = m.choose(n, ['a message', 'none'])
            if got == 'a message':
                self.serial += 1
                msg = Obj(NATS + 'message')
                msg.d.update(k=(n, self.serial), attr=('message', self.serial), sub={})
                p.d['p'] = CellPtr(Cell(msg, 'message'))
                m.event('received', token=(n, self.serial), name=n)
            else:
                m.event('not-received', name=n)
            return p
        if n in ('connect', 'subscribe', 'queue_subscribe', 'new_inbox', 'publish', 'unsubscribe'):
            ok = m.choose(n, ['succeeds', 'fails'], ('send',) if n == 'publish' and self.role == 'worker' else None) if self.io or n != 'publish' and self.setup else 'succeeds'
            r = 0 if ok == 'succeeds' else Sym(('status', m.fresh(n)), 1)
            m.event('nats', name=n, args=args, result=r, failed=ok != 'succeeds')
            return r
        if n in ('inbox', 'subject', 'url'):
            return Str((n, 'of the client'))
        if n in ('is_connected',):
            return True
        return None

    setup = False

    # ---------------------------------------------------------- system calls
    def extern(self, m, name, f, args, e):
        if name in ('recvfrom', 'read', 'recv'):
            opts = ['data', 'fails'] + (['returns 0'] if name != 'recvfrom' else [])
            what = m.choose(name, opts) if self.io else 'data'
            r = -1 if what == 'fails' else 0 if what != 'data' else m.sym(name, 1, args[2] if isinstance(args[2], int) else None)
            if what == 'data' and isinstance(args[1], BufPtr):
                args[1].buf.content = ('received', r)
                args[1].buf.writes.append((args[1].off, r, m.ctx))
            if name == 'recvfrom' and len(args) > 4 and what == 'data':
                self.fill(args[4], ('sender of', r.name))
            ev = self.sys(m, name, args, r)
            m.event('received' if what == 'data' else 'not-received', token=r, name=name, fd=args[0], at=args[1])
            return r
        if name in ('sendto', 'write', 'send'):
            opts = ['all', 'fails'] + (['part'] if name != 'sendto' and self.role != 'worker' else [])
            what = m.choose(name, opts, ('send',) if self.role == 'worker' else None) if self.io else 'all'
            n = args[2]
            r = -1 if what == 'fails' else n if what == 'all' else add(n, Sym(('unsent', m.fresh(name)), 1), -1)
            self.sys(m, name, args, r)
            return r
        if name in ('bind', 'connect', 'listen', 'setsockopt') and self.setup:
            r = {'succeeds': 0, 'fails': -1}[m.choose(name, ['succeeds', 'fails'])] if name != 'setsockopt' else 0
            self.sys(m, name, args, r)
            return r
        return SysModel.extern(self, m, name, f, args, e)

    def read(self, m, c):
        if self.role == 'worker' and isinstance(c.v, Obj) and kind(c.v) in ('atomic', 'atomic_bool', 'atomic_flag'):
            self.reads = getattr(self, 'reads', 0) + 1
            if self.flags is not None:
                return self.flags(m, c)
            return m.choose('%s while running' % c.name, [True, False], ('flag', self.reads))
        return None


class Nodes:
    """the node classes of one specification"""

    def __init__(self, c, job, d):
        self.c, self.job = c, job
        self.tag = job.tag
        tu = os.path.join(d, 'vp_nodes_%d.cpp' % os.getpid())
        self.files = sorted(x for x in os.listdir(d) if x.endswith('.hpp'))
        self.node_files = [x for x in self.files if x.startswith('Control')]
        with open(tu, 'w') as f:
            for x in self.node_files:
                f.write('#include "%s"\n' % x)
        self.P = P = dump(tu, roots=[d], incs=[d])
        self.packets, self.aux, self.records = set(), set(), set()
        for n, r in P.recs.items():
            b = os.path.basename(r.get('file', ''))
            if not r.get('file', '').startswith(d + '/'):
                continue
            if b in self.node_files:
                self.records.add(n)
            elif any(x['n'] == 'match' and x['static'] for x in r['methods']):
                self.packets.add(n)
            else:
                self.aux.add(n)
        for n in list(self.packets):
            for b in P.all_bases(n):
                if b in self.aux:
                    self.aux.discard(b)
                    self.packets.add(b)
        self.ns = job.options.get('namespace_', 'gen')
        self.sock = job.options.get('cmd_socket', 'nats')
        self.controls = [p for p in job.packets if p.kind == 'Control']
        self.datas = [p for p in job.packets if p.kind in ('Data', 'Context')]
        self.where = 'specification %s (%s)' % (job.tag, self.sock)

    def record(self, method=None, file=None):
        """the node record declaring a method"""
        for n in sorted(self.records):
            r = self.P.recs[n]
            if file is not None and os.path.basename(r['file']) != file:
                continue
            if method is None or any(x['n'] == method for x in r['methods']):
                return n
        return None

    def fn(self, rec, name, params=None):
        for r in [rec] + self.P.all_bases(rec):
            for g in self.P.methods.get((r, name), []):
                if g.get('body') is not None and (params is None or len(g['params']) == params):
                    return g
        return None

    def tid(self, rec):
        for i, t in enumerate(self.P.types):
            if t and t.get('c') == 'rec' and t.get('rec') == rec and not t.get('const'):
                return i
        raise Broken('no type ' + rec)

    def cls(self, name):
        return (self.ns + '::packets::' if self.ns else '') + name

    def asks(self, p):
        """acknowledgements a definition may request"""
        cam = p.cam or {}
        return [k for k in KINDS if str(cam.get('req_' + k, '')).lower() in ('true', 'optional', 'required')]

    # ---------------------------------------------------------- running
    def args(self, m, fn):
        """arguments standing for what a caller passes"""
        P = self.P
        out = []
        for p in fn['params']:
            t = P.ty(p['t'])
            ref = t['c'] == 'ref'
            if ref:
                t = P.ty(t['pt'])
            if t['c'] == 'rec' and 'socket_endpoint' in t.get('tn', ''):
                v = m.default_obj(t['rec'])
                g = [x for x in m.fns_of(t['rec']) if x.get('ctor') == 'default']
                m.run_ctor(g[0], v, []) if g else None
                s = endpoint_state(v)
                if s is None:
                    raise Broken('an endpoint without a socket address')
                s.d['origin'] = 'given'
            elif t['c'] == 'rec' and t.get('tn', '') in STRING:
                v = Str(('given', p['n']))
            elif t['c'] == 'rec' and t['rec'] in self.packets:
                v = m.m.packet(t['rec'], 'given')
            elif t['c'] == 'rec' and t.get('tn', '') == 'std::function':
                v = Obj('std::function')
                v.d['fn'] = Sym(('listener given', p['n']))
            elif t['c'] == 'rec':
                v = m.m.make_record(m, t['rec'], None)
                v.d['val'] = ('given', p['n'])
            else:
                v = Sym(('given', p['n']))
            out.append(Cell(v, p['n']) if ref else v)
        return out

    def build(self, m, rec):
        cs = [f for f in self.P.fns.values() if f.get('rec') == rec and f.get('ctor') in ('default', 'other') and (f.get('body') is not None or f.get('inits') is not None)]
        cs.sort(key=lambda f: f['ctor'] != 'other')
        if not cs:
            o = m.construct_default(self.tid(rec))
        else:
            o = m.default_obj(rec)
            m.run_ctor(cs[0], o, self.args(m, cs[0]))
        o.d['self'] = Cell(o, 'this')
        return o

    def call(self, m, o, name, params=None):
        g = self.fn(o.ty, name, params)
        if g is None:
            raise Unmodelled('no ' + name)
        m.last_args = self.args(m, g)
        return m.invoke(g, o, m.last_args)

    def paths(self, what, body, limit=60000, rounds=2):
        """(machine, result, thrown) of body(machine) on every path; what was not modelled is undecided"""
        def one(choose):
            model = NodeModel(self)
            m = Machine(self.P, model, choose, rounds)
            m.stack.append(Frame({'qn': what, 'params': [], 'ret': -1}, None))
            try:
                return m, body(m), None
            except Throw as t:
                return m, None, t
            except Blocked as b:
                return m, None, b
            except Stop:
                return None
        try:
            for r, n in explore(one, limit):
                if r is not None:
                    self.c.count('paths')
                    yield r
        except Unmodelled as u:
            self.c.undecided('%s/%s' % (self.sock, what), self.where, 'not modelled: %s' % str(u)[:200])

    def path(self, m):
        return ', '.join('%s: %s' % d for d in m.decided)[-600:]

    def at(self, fn):
        f = fn.get('file', '')
        return '%s generated for %s' % (os.path.basename(f), self.where) if not f.startswith('/repo') else '%s:%s' % (rel(f), fn.get('line'))


def tk(x):
    return x if isinstance(x, tuple) else key(x)


def same(a, b):
    d = add(a, b, -1) if lin(a) is not None and lin(b) is not None else None
    l = lin(d) if d is not None else None
    return l is not None and not l.t and l.c == 0


def received(span):
    """(token, offset, rest) when a span lies in received data: rest is received length - end of the span"""
    p = span.ptr
    if not isinstance(p, BufPtr) or not isinstance(p.buf.content, tuple) or p.buf.content[0] != 'received':
        return None
    tok = p.buf.content[1]
    total = tok if isinstance(tok, Sym) else p.buf.size
    return tok, p.off, add(total, add(p.off, span.n), -1)


def requested(m, pid):
    """{kind: True/False/None}: request bits as the path decided them"""
    out = {}
    for k in KINDS:
        out[k] = m.memo.get(('truth', key(Sym(('attr', pid, 'cam', 'req_' + k), 0, 1))))
    return out


# ------------------------------------------------------------------ P22
def sends(m, N, lo, hi=None):
    """[(event, destination, content or None)] of everything sent"""
    out = []
    for i, e in enumerate(m.trace[lo:hi]):
        if e.kind == 'sys' and e.name in ('sendto', 'write', 'send'):
            p, n = e.args[1], e.args[2]
            content = p.buf.content if isinstance(p, BufPtr) and same(p.off, 0) and same(n, p.buf.size) else None
            if e.name == 'sendto':
                a = e.args[4]
                a = a.cell.v if isinstance(a, CellPtr) else a
                dst = a.d.get('origin') if isinstance(a, Obj) else key(a)
            else:
                dst = ('connection', key(e.args[0]))
            out.append((lo + i, e, dst, content))
        if e.kind == 'nats' and e.name == 'publish':
            s = e.args[1]
            s = Span(BufPtr(s, 0), s.size) if isinstance(s, Buffer) else s
            content = s.ptr.buf.content if isinstance(s, Span) and isinstance(s.ptr, BufPtr) and same(s.ptr.off, 0) and same(s.n, s.ptr.buf.size) else None
            out.append((lo + i, e, ('subject', key(e.args[0])), content))
    return out


class Controllee:
    def __init__(self, N):
        self.N, self.c = N, N.c

    def run(self):
        N, c = self.N, self.c
        rec = N.record('vrt_listen')
        if rec is None:
            if N.controls:
                raise Broken('no listening controllee is generated for ' + N.tag)
            return
        c.count('controllees')
        self.rec = rec
        start = N.fn(rec, 'vrt_listen')
        self.line = N.at(start)
        self.base = '%s/%s' % (N.sock, 'controllee')

        def body(m):
            o = N.build(m, rec)
            m.trace = []
            N.call(m, o, 'vrt_listen')
            st = [e for e in m.trace if e.kind == 'thread-start']
            if not st:
                raise Broken('vrt_listen starts no thread')
            m.trace, m.decided = [], []
            m.m.io, m.m.role = True, 'worker'
            m.node = o
            a = [x.v if isinstance(x, Cell) else x for x in st[0].args]
            m.call_value(a[0], a[1:])
            return o
        n = 0
        for m, o, thrown in N.paths('listener thread', body, rounds=2):
            n += 1
            self.check(m, thrown)
        c.count('listener paths', n)
        for p in N.controls:
            c.ok('%s@%s' % (p.name, N.tag), N.where, 'answered as requested on %d paths' % n)

    def bad(self, what, msg, m):
        self.c.violation('%s/%s' % (self.base, what), self.line, msg, 'path: ' + self.N.path(m))

    def check(self, m, thrown):
        N = self.N
        if thrown is not None and not isinstance(thrown, Blocked):
            self.bad('thread-ends', 'an exception (%s) leaves the listener thread and ends the program' % thrown.ty, m)
            return
        # split at receives
        marks = [i for i, e in enumerate(m.trace) if e.kind == 'received' and e.ctx == m.ctx]
        out0 = sends(m, N, 0, marks[0] if marks else None)
        if out0 or any(e.kind == 'handler' for e in m.trace[:marks[0] if marks else None]):
            self.bad('unasked', 'a handler is called or something sent although nothing was received', m)
        for a, b in zip(marks, marks[1:] + [len(m.trace)]):
            self.message(m, m.trace[a], a, b)

    def message(self, m, got, lo, hi):
        """one received message"""
        N = self.N
        # anything after a later failed receive is not caused by this message
        for i in range(lo + 1, hi):
            if m.trace[i].kind == 'not-received':
                if any(e.kind in ('handler', 'decode', 'match') or e.kind == 'sys' and e.name in ('sendto', 'write', 'send') for e in m.trace[i:hi]):
                    self.bad('stale', 'a failed receive is processed like a message', m)
                hi = i
                break
        ev = m.trace[lo:hi]
        tok = got.token
        for e in ev:
            if e.kind in ('match', 'decode'):
                r = e.got
                if r is None or tk(r[0]) != tk(tok):
                    self.bad('bytes', 'a packet is identified or decoded from bytes that are not the received message', m)
                    return
                if not same(r[1], 0) or not same(r[2], 0):
                    self.bad('bytes', 'a packet is identified or decoded from more, fewer or other bytes than were received', m)
                    return
        # every control packet is looked for
        hs = [(lo + i, e) for i, e in enumerate(ev) if e.kind == 'handler']
        ss = sends(m, N, lo, hi)
        used_h, used_s = set(), set()
        ids = {}
        for p in N.controls:
            rn = N.cls(p.name)
            asks = N.asks(p)
            if not asks:
                continue
            mt = [e for e in ev if e.kind == 'match' and e.rec == rn]
            if not mt:
                self.bad('dispatch', 'a received message is never compared with control packet definition %s' % p.name, m)
                continue
            if not mt[0].ok:
                continue
            dec = [e for e in ev if e.kind == 'decode' and e.rec == rn]
            if not dec:
                self.bad('dispatch', 'a received control packet is not decoded', m)
                continue
            if not dec[0].ok:
                continue
            pid = dec[0].packet.d['pid']
            req = requested(m, pid)
            sn = snake(p.name)
            want = []            # (kind, handler name, index of the result)
            # a request bit the path never looked at may be set
            blind = {k for k in asks if req[k] is None}
            req.update({k: True for k in blind})
            if 'v' in asks and req['v']:
                want.append(('v', 'validate_' + sn, 0))
            if 'x' in asks and req['x']:
                want.append(('x', 'execute_' + sn, 0))
            if 's' in asks and req['s']:
                want.append(('s', 'execute_' + sn, 1 if 'x' in asks else 0))
            self.c.count('requests')
            # handlers
            for name in sorted({w[1] for w in want}):
                calls = [(i, e) for i, e in hs if e.name == name and e.args and isinstance(e.args[0], Obj) and e.args[0].d.get('pid') == pid]
                if not calls:
                    self.bad('handler/%s' % name.split('_')[0], '%s() is not called for a packet that requests %s' % (name.split('_')[0], ', '.join(
                        'req_' + w[0] for w in want if w[1] == name)), m)
                if len(calls) > 1:
                    self.bad('handler/%s' % name.split('_')[0], '%s() is called %d times for one packet' % (name.split('_')[0], len(calls)), m)
                used_h |= {i for i, e in calls}
            # acknowledgements in the order the controller waits for them
            pos = -1
            for k, name, idx in want:
                calls = [e for i, e in hs if e.name == name]
                if not calls or len(calls[0].results) <= idx:
                    continue
                ack = calls[0].results[idx]
                mine = [x for x in ss if x[3] is not None and x[3][0] == 'packet' and x[3][2] == ack]
                quiet = N.sock == 'nats' and m.memo.get(('empty', key(Str(('reply subject of', got.token))))) is True
                if not mine and quiet:
                    continue
                if not mine:
                    self.bad('answer/' + k, 'the %s acknowledgement of a packet that requests it is not sent' % NAME[k], m)
                    continue
                used_s |= {x[0] for x in mine}
                if len(mine) > 1:
                    self.bad('answer/' + k, 'the %s acknowledgement is sent %d times' % (NAME[k], len(mine)), m)
                if k in blind:
                    self.bad('unasked/' + k, 'the %s acknowledgement is sent whether it is requested or not' % NAME[k], m)
                i, e, dst, content = mine[0]
                if i < pos:
                    self.bad('order/' + k, 'the %s acknowledgement is sent before one the controller reads first' % NAME[k], m)
                pos = i
                self.address(m, got, e, dst, k)
                self.contents(m, p, pid, content[3], k)
        for i, e in hs:
            if i not in used_h:
                self.bad('unasked/' + e.name.split('_')[0], '%s() is called for a packet that does not request it' % e.name.split('_')[0], m)
        for i, e, dst, content in ss:
            if i not in used_s:
                self.bad('unasked/send', 'something is sent that was not requested', m)

    def address(self, m, got, e, dst, k):
        N = self.N
        self.c.count('answers')
        if N.sock == 'udp':
            ok = dst == ('sender of', got.token.name)
        elif N.sock == 'tcp':
            ok = dst == ('connection', key(got.fd))
        else:
            ok = dst == ('subject', key(Str(('reply subject of', got.token))))
        if not ok:
            self.bad('address/' + k, 'the %s acknowledgement is not sent to the requester but to %s' % (NAME[k], str(dst)[:80]), m)

    def contents(self, m, p, pid, attrs, k):
        want = {'message_id': 'message_id'}
        if p.stream is not None:
            want['stream_id'] = 'stream_id'
        if p.controllee:
            want['controllee_id'] = 'controllee_id'
        if p.controller:
            want['controller_id'] = 'controller_id'
        for a, b in want.items():
            if attrs.get(a) != ('attr', pid, b):
                self.bad('content/%s/%s' % (k, a), 'the %s acknowledgement does not carry the %s of the request' % (NAME[k], a.replace('_', ' ')), m)
        if k in 'vx':
            if attrs.get('ack_' + k) not in (1, True):
                self.bad('content/%s/ack_%s' % (k, k), 'the %s acknowledgement is not marked as such' % NAME[k], m)
            other = 'x' if k == 'v' else 'v'
            if attrs.get('ack_' + other) in (1, True):
                self.bad('content/%s/ack_%s' % (k, other), 'the %s acknowledgement claims to be another kind' % NAME[k], m)


NAME = {'v': 'validation', 'x': 'execution', 's': 'state'}


# ------------------------------------------------------------------ P27
class Commands:
    """send_<control>() of the controller"""

    def __init__(self, N):
        self.N, self.c = N, N.c

    def run(self):
        N, c = self.N, self.c
        self.rec = None
        for p in N.controls:
            rec = N.record('send_' + snake(p.name))
            if rec is None:
                raise Broken('no controller sends ' + p.name + ' of ' + N.tag)
            self.rec = rec
            self.command(p)

    def bad(self, what, msg, m):
        self.c.violation('%s/controller/%s' % (self.N.sock, what), self.line, msg, 'path: ' + self.N.path(m))

    def command(self, p):
        N, c = self.N, self.c
        fn = N.fn(self.rec, 'send_' + snake(p.name), 1)
        if fn is None:
            raise Broken('send_%s vanished' % snake(p.name))
        self.line = N.at(fn)
        asks = N.asks(p)
        ids = []

        def body(m):
            o = N.build(m, self.rec)
            dst = N.fn(o.ty, 'controllee_endpoint', 1)
            if dst is not None:
                m.invoke(dst, o, N.args(m, dst))
            cid = N.fn(o.ty, 'controller_id', 1)
            if cid is not None:
                m.invoke(cid, o, N.args(m, cid))
            m.node = o
            m.trace, m.decided = [], []
            m.m.io, m.m.one, m.m.sizes = True, False, True
            pk = m.m.packet(N.cls(p.name), 'given')
            m.packet = pk
            return m.invoke(fn, o, [Cell(pk, 'packet')])
        n = 0
        for m, res, thrown in N.paths('send_' + snake(p.name), body):
            n += 1
            self.check(p, asks, m, res, thrown)
        c.count('command paths', n)
        c.count('commands')
        c.ok('%s@%s' % (p.name, N.tag), N.where, '%d paths' % n)
        self.twice(p, fn)

    def twice(self, p, fn):
        """consecutive commands, also of other definitions, have different message ids"""
        N = self.N
        order = [(p, fn), (p, fn)]
        for q in N.controls:
            g = N.fn(self.rec, 'send_' + snake(q.name), 1)
            if q is not p and g is not None:
                order += [(q, g), (p, fn)]

        def body(m):
            o = N.build(m, self.rec)
            m.trace, m.decided = [], []
            out = []
            for q, g in order:
                pk = m.m.packet(N.cls(q.name), 'given')
                for k in KINDS:
                    m.memo[('truth', key(Sym(('attr', pk.d['pid'], 'cam', 'req_' + k), 0, 1)))] = False
                m.invoke(g, o, [Cell(pk, 'packet')])
                out.append(pk.d['attrs'].get('message_id'))
            return out
        for m, res, thrown in N.paths('send_%s repeatedly' % snake(p.name), body):
            if thrown is not None or any(x is None for x in res):
                continue
            self.c.count('message identifiers', len(res))
            for i in range(len(res)):
                for j in range(i):
                    if not isinstance(res[i], (int, Sym, Lin)) or same(res[i], res[j]):
                        self.bad('message-id', 'two commands are sent with the same message identifier', m)
                        return

    def check(self, p, asks, m, res, thrown):
        N, c = self.N, self.c
        pid = m.packet.d['pid']
        req = requested(m, pid)
        ss = sends(m, N, 0)
        for e in m.trace:
            if e.kind in ('terminate', 'null-deref', 'empty-optional'):
                self.bad('crash', 'the command crashes (%s)' % e.d.get('what', e.kind), m)
                return
        if isinstance(thrown, Blocked):
            self.bad('blocked', 'the command never returns', m)
            return
        # what is sent, where
        stream = N.sock == 'tcp'
        total, first = 0, None
        for i, e, dst, content in ss:
            data = e.args[1]
            data = data.ptr if isinstance(data, Span) else BufPtr(data, 0) if isinstance(data, Buffer) else data
            body = data.buf.content if isinstance(data, BufPtr) else None
            if body is None or body[0] != 'packet' or body[2] != pid:
                self.bad('sent/other', 'what is sent is not the packed command', m)
                return
            first = first or (i, e, data.buf)
            if N.sock == 'nats':
                n = e.args[1].n if isinstance(e.args[1], Span) else data.buf.size
            else:
                n = e.args[2]
            if not same(data.off, total):
                self.bad('sent/part', 'the command is not sent in one piece from its beginning', m)
                return
            if not e.failed and stream:
                total = add(total, e.result, 1)
            if not same(add(data.off, n, 1), data.buf.size):
                self.bad('sent/part', 'not the whole packed command is sent', m)
                return
            want = {'udp': 'given', 'nats': ('subject', None)}.get(N.sock)
            if N.sock == 'udp' and dst != 'given':
                self.bad('sent/to', 'the command is sent to %s, not to the configured controllee' % str(dst)[:60], m)
            if N.sock == 'nats' and 'given' not in str(dst[1]):
                self.bad('sent/to', 'the command is published to %s, not to the configured subject' % str(dst[1])[:60], m)
            if N.sock == 'nats':
                rep = e.args[2] if len(e.args) > 2 else None
                if not (isinstance(rep, Str) and rep.k == ('inbox', 'of the client')):
                    self.bad('sent/reply', 'the command does not ask for replies to the inbox of the client', m)
            at = body[3]
            if at.get('message_id') is None:
                self.bad('message-id', 'the command is sent without a message identifier of its own', m)
            if p.controller and at.get('controller_id') is None or p.controller and 'given' not in str(at.get('controller_id')):
                self.bad('controller-id', 'the command is sent without the controller identifier that was set', m)
            c.count('commands sent')
        reads = [(i, e) for i, e in enumerate(m.trace) if e.kind in ('received', 'not-received')]
        if not stream:
            done = any(not e.failed for i, e, dst, content in ss)
        else:
            done = first is not None and same(total, first[2].size)
        if thrown is None and not done:
            self.bad('not-sent', 'the command returns normally although it was not sent (completely)', m)
            return
        if reads and (not ss or reads[0][0] < ss[0][0]):
            self.bad('early', 'a reply is awaited before the command is sent', m)
        # destination unchanged
        if N.sock == 'udp':
            for cc in m.node.fields.values():
                if isinstance(cc.v, Obj) and 'datagram_socket' in cc.v.ty:
                    for d in cc.v.fields.values():
                        if d.name == 'm_dst' and isinstance(d.v, Obj):
                            s = endpoint_state(d.v)
                            if s is not None and isinstance(s.d.get('origin'), tuple) and s.d['origin'][0] == 'sender of':
                                self.bad('redirected', 'receiving a reply changes where later commands are sent', m)
        # decoding
        use = {}
        for e in m.trace:
            if e.kind == 'match' or e.kind == 'decode':
                r = e.got
                if r is None:
                    self.bad('bytes', 'an acknowledgement is identified or decoded from bytes that were not received', m)
                    return
                t, off, rest = r
                if not same(rest, 0):
                    self.bad('bytes', 'an acknowledgement is identified or decoded from more or fewer bytes than were received', m)
                    return
                if not same(off, use.get(tk(t), 0)):
                    self.bad('bytes', 'an acknowledgement is identified or decoded from other bytes than those not yet consumed', m)
                    return
            if e.kind == 'decode' and e.ok:
                mt = [x for x in m.trace if x.kind == 'match' and x.rec == e.rec and x.ok and key(x.span) == key(e.span)]
                if not mt:
                    self.bad('unmatched', 'data is decoded as an acknowledgement without having been identified as one', m)
                    return
                size = m.m.packet_size(m, e.packet)
                use[tk(e.got[0])] = add(e.got[1], size, 1) if size is not None else None
        if thrown is not None:
            c.count('failures reported')
            return
        if any(e.kind == 'match' and not e.ok for e in m.trace):
            self.bad('foreign', 'the command returns normally although a reply was not the acknowledgement awaited', m)
            return
        wanted = []
        for k in asks:
            if req[k] is None:
                self.bad('request-bit/' + k, 'the outcome does not depend on whether the %s acknowledgement is requested' % NAME[k], m)
                return
        items = self.items(res)
        if asks and items is None:
            self.c.undecided('%s/controller/result' % N.sock, self.line, 'form of the result: %r' % (res,))
            return
        if asks and len(items) != len(asks):
            self.c.undecided('%s/controller/result' % N.sock, self.line, 'form of the result: %r' % (res,))
            return
        seen = []
        for k, o in zip(asks, items or []):
            has = o.d['has'] is True
            if not req[k]:
                if has:
                    self.bad('engaged/' + k, 'the %s acknowledgement is reported although it was not requested' % NAME[k], m)
                continue
            c.count('acknowledgements')
            if not has:
                self.bad('absent/' + k, 'the command returns normally without the %s acknowledgement it requested' % NAME[k], m)
                continue
            v = o.d['cell'].v
            org = v.d.get('origin') if isinstance(v, Obj) else None
            if org != 'decoded':
                self.bad('made-up/' + k, 'the %s acknowledgement returned was not decoded from received data' % NAME[k], m)
                continue
            want = N.cls(p.name + ('AckS' if k == 's' else 'AckVX'))
            if v.ty != want:
                self.bad('kind/' + k, 'the %s acknowledgement returned is of another kind' % NAME[k], m)
            if v.d['pid'] in seen:
                self.bad('twice/' + k, 'one reply is returned as two acknowledgements', m)
            if seen and v.d['pid'] < seen[-1]:
                self.bad('order/' + k, 'acknowledgements are not returned in the order they arrived', m)
            seen.append(v.d['pid'])

    def items(self, res):
        if isinstance(res, Cell):
            res = res.v
        if not isinstance(res, Obj):
            return None
        vs = [c.v for c in res.d['items']] if 'items' in res.d else [c.v for c in res.fields.values()]
        if kind(res) == 'optional':
            vs = [res]
        vs = [v.v if isinstance(v, Cell) else v for v in vs]
        return vs if all(isinstance(v, Obj) and kind(v) == 'optional' for v in vs) else None


# ------------------------------------------------------------------ P29
STARTS = ('vrt_listen', 'enable_receive')
STOPS = ('disable_receive',)


class Lifecycle:
    """construction, the worker thread, destruction, data and context packets of a node"""

    def __init__(self, N):
        self.N, self.c = N, N.c

    def run(self):
        N = self.N
        for name in STARTS:
            rec = N.record(name)
            if rec is None:
                continue
            self.rec = self.final(rec)
            self.role = 'controllee' if name == 'vrt_listen' else 'controller'
            self.line = N.at(N.fn(rec, name, 0))
            self.start = name
            self.stops = [x for x in STOPS if N.fn(rec, x, 0) is not None]
            self.c.count('node classes')
            self.worker_fields()
            self.sequences()
            self.workers()
        for n in sorted(N.records):
            if self.final(n) != n:
                continue
            self.rec = n
            self.role = 'controllee' if any('ontrollee' in short(x) for x in [n] + N.P.all_bases(n)) else 'controller'
            self.line = '%s generated for %s' % (short(n), N.where)
            self.construction()
            self.endpoints()
        for p in N.datas:
            rec = N.record('send_' + snake(p.name))
            if rec is not None:
                self.rec, self.role = rec, 'controller'
                self.line = N.at(N.fn(rec, 'send_' + snake(p.name), 1))
                self.sending(p)
                self.receiving(p)

    def final(self, rec):
        for n in sorted(self.N.records):
            if rec in self.N.P.all_bases(n):
                return n
        return rec

    def bad(self, what, msg, m, more=''):
        self.c.violation('%s/%s/%s' % (self.N.sock, self.role, what), self.line, msg, (more + ' ' if more else '') + 'path: ' + self.N.path(m))

    # ---------------------------------------------------------- the worker thread
    def node(self, m):
        o = self.N.build(m, self.rec)
        m.trace, m.decided = [], []
        m.node = o
        return o

    def atomics(self, o):
        return {c.name: c.v.d['cell'].v for c in o.fields.values() if isinstance(c.v, Obj) and 'atomic' in c.v.ty and isinstance(c.v.d.get('cell'), Cell)}

    def watch(self, m, o):
        ev = m.event

        def event(kind_, **d):
            e = ev(kind_, **d)
            if kind_ in ('thread-start', 'join'):
                e.d['atomics'] = self.atomics(o)
            return e
        m.event = event

    def work(self, m, o, atoms, stop_after=None, io=True):
        """run the thread's function on o with the given flags; after stop_after flag reads the flags are False"""
        N = self.N
        a = [x.v if isinstance(x, Cell) else x for x in self.entry(m, o)]
        for c in o.fields.values():
            if c.name in atoms and isinstance(c.v, Obj) and isinstance(c.v.d.get('cell'), Cell):
                c.v.d['cell'].v = atoms[c.name]
        m.trace, m.decided = [], []
        m.m.role, m.m.io, m.m.reads = 'worker', io, 0
        m.m.flags = (lambda m_, c: None) if stop_after is None else (lambda m_, c: False if m_.m.reads > stop_after and atoms.get(c.name) is True else None)
        m.call_value(a[0], a[1:])

    def entry(self, m, o):
        self.N.call(m, o, self.start)
        st = [e for e in m.trace if e.kind == 'thread-start']
        if not st:
            raise Broken('%s starts no thread' % self.start)
        return st[-1].args

    def worker_fields(self):
        """fields the worker thread uses, and the virtual functions it calls"""
        N = self.N
        self.fields = set()

        def body(m):
            o = self.node(m)
            self.entry(m, o)
            self.listen(m, o)
            at = self.atomics(o)
            m2 = m
            m2.touched = set()
            self.work(m, o, at, 1, False)
            return m2.touched
        for m, res, thrown in N.paths('worker', body):
            self.fields |= m.touched or set()
        self.virtual = N.job.options.get('cmd_socket') is not None

    def listen(self, m, o):
        for p in self.N.datas:
            g = self.N.fn(o.ty, 'register_%s_listener' % snake(p.name), 1)
            if g is None:
                continue
            a = self.N.args(m, g)
            v = a[0].v if isinstance(a[0], Cell) else a[0]
            v.d['fn'] = Sym(('listener of', p.name))
            m.memo[('fnset', id(v))] = True
            m.keep = getattr(m, 'keep', []) + [v]
            m.invoke(g, o, a)
            for c in o.fields.values():
                if isinstance(c.v, Obj) and kind(c.v) == 'function' and key(c.v.d.get('fn')) == key(Sym(('listener of', p.name))):
                    m.memo[('fnset', id(c.v))] = True

    def sequences(self):
        """every sequence of starts and stops, then destruction"""
        N = self.N
        ops = [self.start] + self.stops
        seqs, level = [()], [()]
        for _ in range(4 if self.stops else 3):
            level = [s + (x,) for s in level for x in ops]
            seqs += level
        snaps = {'thread-start': {}, 'join': {}}
        for seq in seqs:
            def body(m):
                o = self.node(m)
                self.watch(m, o)
                marks = []
                for x in seq:
                    N.call(m, o, x, 0)
                    marks.append(len(m.trace))
                m.destroy(o)
                return o, marks
            for m, res, thrown in N.paths('start and stop', body):
                how = 'calls: ' + ', '.join(seq + ('destruction',)) + ';'
                self.c.count('lifecycles')
                for e in m.trace:
                    if e.kind in ('terminate', 'bad-join', 'null-deref'):
                        self.bad('ends-program', 'the node ends the program: %s' % e.d.get('what', e.kind), m, how)
                        return
                if thrown is not None:
                    self.bad('raises', 'starting or stopping the thread fails (%s)' % getattr(thrown, 'ty', thrown), m, how)
                    return
                o, marks = res
                if not self.running(seq, o, marks, m, how):
                    return
                for e in m.trace:
                    if e.kind in snaps and 'atomics' in e.d:
                        snaps[e.kind].setdefault(key(sorted(e.atomics.items())), e.atomics)
        self.snaps = snaps
        self.c.ok('lifecycle/%s@%s' % (self.role, N.tag), N.where, '%d sequences' % len(seqs))

    def running(self, seq, o, marks, m, how):
        live = 0
        at = 0
        own = self.N.records
        tests = self.overriders(o)
        for i, e in enumerate(m.trace):
            while at < len(marks) and i >= marks[at]:
                if not self.state(seq[at], live, m, how):
                    return False
                at += 1
            if e.kind == 'thread-start':
                live += 1
            elif e.kind in ('join',):
                live -= 1
            elif e.kind == 'detach':
                self.bad('detached', 'the thread is detached and may outlive the node', m, how)
                return False
            elif e.kind == 'field-dtor' and live and e.cell.owner is o:
                fid = next((k for k, c in o.fields.items() if c is e.cell), None)
                if fid in self.fields and 'thread' not in kind(e.cell.v or Obj('')):
                    self.bad('outlives/' + e.cell.name.strip('m_'), 'a member the thread uses is destroyed while the thread runs', m, how)
                    return False
            elif e.kind == 'dtor-end' and live and e.obj is o and e.rec in tests:
                self.bad('outlives/handlers', 'the class that defines the packet handlers is destroyed while the thread that calls them runs', m, how)
                return False
        while at < len(marks):
            if not self.state(seq[at], live if marks[at] >= len(m.trace) else live, m, how):
                return False
            at += 1
        if live:
            self.bad('outlives', 'the thread still runs after the node is destroyed', m, how)
            return False
        return True

    def state(self, op, live, m, how):
        if op == self.start and live != 1:
            self.bad('start', '%d threads run after %s()' % (live, op), m, how)
            return False
        if op != self.start and live:
            self.bad('stop', 'the thread still runs after %s()' % op, m, how)
            return False
        return True

    def overriders(self, o):
        """classes whose own methods override virtual functions of the node"""
        P = self.N.P
        out = set()
        for r in [o.ty] + P.all_bases(o.ty):
            for x in P.recs[r]['methods']:
                if x.get('virtual') and x['n'].startswith(('validate_', 'execute_')) and not x.get('pure'):
                    out.add(r)
        return out

    def workers(self):
        """what the flags say when the thread is started and joined decides whether it runs and ends"""
        N = self.N
        for k, at in getattr(self, 'snaps', {}).get('join', {}).items():
            def body(m):
                self.work(m, self.node(m), at)
            for m, res, thrown in N.paths('stopped worker', body, rounds=1):
                self.c.count('stopped threads')
                if isinstance(thrown, Blocked) or thrown is None and sum(e.kind in ('received', 'not-received') for e in m.trace) > 1:
                    self.bad('stop', 'the thread is waited for without having been told to end', m)
                    break
        for k, at in getattr(self, 'snaps', {}).get('thread-start', {}).items():
            def body(m):
                self.work(m, self.node(m), at, 1, False)
            for m, res, thrown in N.paths('started worker', body, rounds=3):
                self.c.count('started threads')
                if thrown is None and not any(e.kind in ('received', 'not-received') for e in m.trace):
                    self.bad('start', 'the thread ends without having received although it was started', m)
                    break

    # ---------------------------------------------------------- construction and endpoints
    def construction(self):
        N = self.N

        def body(m):
            m.m.setup = True
            return N.build(m, self.rec)
        for m, res, thrown in N.paths('construction', body):
            self.c.count('constructions')
            self.setup(m, thrown, 'construction')

    def setup(self, m, thrown, what):
        fails = [d for d in m.decided if d[1] == 'fails']
        if thrown is None and fails:
            self.bad('unreported/%s' % fails[0][0], '%s succeeds although %s failed' % (what, fails[0][0]), m)
        if isinstance(thrown, Throw) and not fails:
            self.bad('refused', '%s fails although every step succeeded' % what, m)
        if thrown is None:
            for e in m.trace:
                if e.kind == 'sys' and e.name in ('bind', 'connect'):
                    a = e.args[1]
                    a = a.cell.v if isinstance(a, CellPtr) else a
                    if isinstance(a, Obj) and a.d.get('origin') != 'given':
                        self.bad('address/' + e.name, 'the socket is not bound or connected to the endpoint given', m)
                if e.kind == 'nats' and e.name in ('connect', 'subscribe'):
                    if not e.args or 'given' not in str(key(e.args[0])):
                        self.bad('address/' + e.name, 'not the URL or subject given is used', m)

    def endpoints(self):
        N = self.N
        for name in ('controllee_endpoint', 'data_ctxt_src_endpoint', 'data_ctxt_dst_endpoint'):
            g = N.fn(self.rec, name, 1)
            if g is None:
                continue

            def body(m):
                o = self.node(m)
                m.m.setup = True
                m.invoke(g, o, N.args(m, g))
                return o
            for m, res, thrown in N.paths(name, body):
                self.c.count('endpoints set')
                self.setup(m, thrown, name + '()')
                if thrown is None and name == 'data_ctxt_src_endpoint' and not any(e.kind == 'sys' and e.name == 'bind' for e in m.trace):
                    self.bad('unbound', '%s() does not bind the socket' % name, m)

    # ---------------------------------------------------------- data and context packets
    def sending(self, p):
        N = self.N
        fn = N.fn(self.rec, 'send_' + snake(p.name), 1)
        dst = N.fn(self.rec, 'data_ctxt_dst_endpoint', 1)

        def body(m):
            o = self.node(m)
            if dst is not None:
                m.invoke(dst, o, N.args(m, dst))
            m.trace, m.decided = [], []
            m.m.io = True
            m.packet = m.m.packet(N.cls(p.name), 'given')
            return m.invoke(fn, o, [Cell(m.packet, 'packet')])
        for m, res, thrown in N.paths('send_' + snake(p.name), body):
            self.c.count('data packets sent')
            ss = sends(m, N, 0)
            if len(ss) != 1 and (thrown is None or len(ss) > 1):
                self.bad('data/sent', 'a packet is sent %d times' % len(ss), m)
                continue
            for i, e, to, content in ss:
                if content is None or content[0] != 'packet' or content[2] != m.packet.d['pid']:
                    self.bad('data/bytes', 'what is sent is not the whole packed packet', m)
                if to != 'given':
                    self.bad('data/to', 'the packet is sent to %s, not to the configured destination' % str(to)[:60], m)
                failed = same(e.result, -1)
                if failed and thrown is None:
                    self.bad('data/unreported', 'sending returns normally although the packet was not sent', m)
                if not failed and thrown is not None:
                    self.bad('data/refused', 'sending fails although the packet was sent', m)

    def receiving(self, p0):
        """the receiver thread hands every packet over once (all definitions at once, for the first)"""
        N = self.N
        if p0 is not N.datas[0]:
            return
        self.start = 'enable_receive'
        if N.fn(self.rec, self.start, 0) is None:
            raise Broken('no receiver in ' + N.tag)
        for registered in (True, False):
            def body(m):
                o = self.node(m)
                if registered:
                    self.listen(m, o)
                m.m.one = True
                self.work(m, o, self.started(m, o), 2)
                return o
            for m, res, thrown in N.paths('receiver thread', body):
                self.received(m, thrown, registered)

    def started(self, m, o):
        self.entry(m, o)
        return self.atomics(o)

    def received(self, m, thrown, registered):
        N, c = self.N, self.c
        if thrown is not None and not isinstance(thrown, Blocked):
            self.bad('thread-ends', 'an exception (%s) leaves the receive thread and ends the program' % thrown.ty, m)
            return
        cur, calls = None, {}

        def close():
            if cur is None:
                return
            for p in N.datas:
                rn = N.cls(p.name)
                evs = m.trace[cur[0]:i]
                mt = [e for e in evs if e.kind == 'match' and e.rec == rn]
                dec = [e for e in evs if e.kind == 'decode' and e.rec == rn]
                cb = [e for e in evs if e.kind == 'callback' and key(e.d['fn'].d.get('fn')) == key(Sym(('listener of', p.name)))]
                if not mt and registered:
                    self.bad('dispatch', 'received data is never compared with packet definition %s' % p.name, m)
                    return
                good = [e for e in dec if e.ok]
                if mt and mt[0].ok and not dec and registered:
                    self.bad('dispatch', 'a received packet is not decoded', m)
                    return
                for e in mt + dec:
                    if e.got is None or tk(e.got[0]) != tk(cur[1]) or not same(e.got[1], 0) or not same(e.got[2], 0):
                        self.bad('bytes', 'a packet is identified or decoded from more, fewer or other bytes than were received', m)
                        return
                if not registered:
                    continue
                c.count('packets received')
                if not good and cb:
                    self.bad('listener', 'a listener is called for data that is not its packet', m)
                    return
                if good and len(cb) != 1:
                    self.bad('listener', 'the listener is called %d times for one packet' % len(cb), m)
                    return
                if good:
                    a = cb[0].args[0]
                    a = a.v if isinstance(a, Cell) else a
                    if not isinstance(a, Obj) or a.d.get('pid') != good[0].packet.d['pid']:
                        self.bad('listener', 'the listener is not given the packet that was received', m)
                        return
        i = 0
        for i, e in enumerate(m.trace):
            if e.kind in ('received', 'not-received'):
                close()
                cur = (i, e.token) if e.kind == 'received' else None
            elif cur is None and e.kind in ('match', 'decode', 'callback'):
                self.bad('stale', 'a failed receive is processed like a packet', m)
                return
        i = len(m.trace)
        close()


# ------------------------------------------------------------------ driver
def over(chk, which):
    """run one family of rules over every specification with nodes"""
    J = [j for j in specs.jobs() if j.tag.startswith(('ctrl_', 'node_'))]
    root = os.path.join(scratch(), 'nodes')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)

    def one(c, j):
        ok, d = res[j.tag][:2]
        if not ok:
            c.undecided('generate', j.tag, 'not generated: %s' % str(res[j.tag])[:200])
            return
        try:
            N = Nodes(c, j, d)
        except Uncompilable as e:
            c.undecided('parse', j.tag, str(e)[-300:])
            return
        c.count('specifications')
        globals()[which](N).run()
    chk.spread(J, one)
