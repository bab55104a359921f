"""The messaging client (P24 schedules, P25 handles): typestate exploration of client and message with every outcome of the NATS calls."""
import copy
from flow import *
from common import Broken, rel
from sockmodel import Sockets, methods_of

STATUS_OK = 0
CREATE = ('Subscribe', 'Connect', 'Create', 'NextMsg', 'Request', 'Clone')


def pointee(m, f, i):
    """C type name of *param i when it is a pointer to pointer"""
    pt = f.get('pt') or []
    if i >= len(pt):
        return None
    t = m.p.ty(pt[i])
    if t['c'] != 'ptr':
        return None
    t = m.p.ty(t['pt'])
    if t['c'] != 'ptr':
        return None
    return m.p.ty(t['pt'])


class NatsModel(Model):
    """handles of the NATS C library"""

    def __init__(self):
        self.res = []
        self.role = 'caller'
        self.client = None

    def nats(self, m, name, args, result, **kw):
        failed = not (isinstance(result, int) and result == 0)
        return m.event('nats', name=name, args=args, result=result, failed=failed, **kw)

    def new(self, kind_, where):
        r = Res(kind_, max([x.n for x in self.res], default=0) + 1, where)
        self.res.append(r)
        return r

    def status(self, m, f, ok, label):
        return STATUS_OK if ok else Sym(('status', m.fresh(label)), 1)

    def extern(self, m, name, f, args, e):
        if not name.startswith(('nats', 'stan', 'js', 'kv')):
            return None
        handles = [a for a in args if isinstance(a, Res)]
        for a in handles:
            if not a.live and not name.endswith('_Destroy'):
                m.event('use-after-release', res=a, what=name)
        if name.endswith('_Destroy'):
            a = args[0]
            if isinstance(a, Res):
                if not a.live:
                    m.event('double-release', res=a, what=name)
                a.live = False
                m.event('release', res=a)
            elif not isinstance(a, Null):
                m.event('release-unknown', what=name, value=a)
            return VOID
        rt = m.p.ty(f['ret'])
        pp = pointee(m, f, 0)
        if pp is not None and isinstance(args[0], CellPtr):
            sub = any(x in name for x in ('Subscribe',))
            bad = any(isinstance(a, Null) for i, a in enumerate(args) if i and self.is_handle(m, f, i))
            ok = 'fails' if bad else m.choose(name, ['succeeds', 'fails'])
            if ok == 'fails':
                st = self.status(m, f, False, name)
                self.nats(m, name, args, st)
                return st
            r = self.new(name.split('_')[0] if not sub else 'subscription', name)
            if sub:
                fns = [a for a in args if isinstance(a, Fn)]
                r.info['callback'] = fns[0] if fns else None
                cl = args[args.index(fns[0]) + 1] if fns and args.index(fns[0]) + 1 < len(args) else None
                r.info['closure'] = cl
                r.info['conn'] = args[1]
            if name.endswith('NextMsg'):
                r.kind = 'message'
                r.info['via'] = args[1]
            if name.startswith('natsMsg'):
                r.kind = 'message'
            self.nats(m, name, args, STATUS_OK, created=r)
            m.write(args[0].cell, r)
            return STATUS_OK
        if name == 'natsMsg_GetData':
            a = args[0]
            if isinstance(a, Null):
                return NULL
            if m.choose('message has data', ['data', 'none'], ('data', key(a))) == 'none':
                return NULL
            return BufPtr(Buffer(('data of', key(a)), self.length(a)))
        if name == 'natsMsg_GetDataLength':
            a = args[0]
            if isinstance(a, Null):
                return 0
            return self.length(a)
        if rt['c'] == 'ptr':
            ok = m.choose(name, ['a string', 'none']) if not any(isinstance(a, Null) for a in args[:1]) else 'none'
            m.event('nats', name=name, args=args, result=ok, failed=False)
            return Str(('cstr', name, str(key(args[0])))) if ok == 'a string' else NULL
        if rt['c'] == 'enum' and 'natsStatus' in rt.get('rec', rt.get('s', '')):
            bad = args and isinstance(args[0], Null)
            ok = 'fails' if bad else m.choose(name, ['succeeds', 'fails'])
            st = self.status(m, f, ok == 'succeeds', name)
            if name == 'natsConnection_GetConnectedUrl' and ok == 'succeeds' and isinstance(args[1], BufPtr):
                args[1].buf.content = ('cstring', name)
            self.nats(m, name, args, st)
            return st
        m.event('nats', name=name, args=args, result=None, failed=False)
        return m.value_of_type(f['ret'], name)

    def length(self, a):
        return Sym(('length', key(a)), 0)

    def is_handle(self, m, f, i):
        pt = f.get('pt') or []
        if i >= len(pt):
            return False
        t = m.p.ty(pt[i])
        if t['c'] != 'ptr':
            return False
        t = m.p.ty(t['pt'])
        return t['c'] == 'rec' and 'nats' in t.get('rec', t['s'])

    def read(self, m, c):
        # what other threads may have set meanwhile
        if self.role == 'worker' and isinstance(c.v, Obj) and kind(c.v) in ('atomic', 'atomic_bool'):
            n = self.seen = getattr(self, 'seen', 0) + 1
            return m.choose('%s while running' % c.name, [True, False], ('seen', n))
        return None


SYNC = ('mutex', 'condition_variable')


def tyname(P, c):
    return P.ty(c.ty).get('tn', P.ty(c.ty).get('s', '')) if c.ty is not None else ''


ACCESS = {'read': 'r', 'write': 'w', 'q-read': 'r', 'q-access': 'r', 'q-push': 'w', 'q-pop': 'w', 'q-clear': 'w'}


class Client(Sockets):
    model = NatsModel
    blocking = True
    cls = 'client'

    def __init__(self, c, P):
        Sockets.__init__(self, c, P, 'nats')
        self.rec = 'vrtgen::nats::client'
        self.states = {}           # fingerprint -> ((object, res), history)
        self.wake = {}
        self.pred_of = {}          # queue field -> cv names
        self.roles = {}            # role -> [access]
        self.transitions = []      # for P24

    def arg(self, m, p, i):
        t = self.P.ty(p['t'])
        if t['c'] == 'bool':
            return m.choose(p['n'], [True, False])
        return Sockets.arg(self, m, p, i)

    # -------------------------------------------------------------- states
    def fingerprint(self, o):
        out = []
        for c in o.fields.values():
            v = c.v
            if isinstance(v, Res):
                out.append((c.name, 'live' if v.live else 'dead', v.where))
            elif isinstance(v, Null):
                out.append((c.name, 'null'))
            elif isinstance(v, (int, bool)):
                out.append((c.name, v))
            elif isinstance(v, Sym) and self.P.ty(c.ty)['c'] in ('bool', 'ptr'):
                out.append((c.name, 'any'))
            elif isinstance(v, Obj):
                k = kind(v)
                if k in ('thread', 'jthread'):
                    out.append((c.name, v.d['joinable']))
                elif k in ('atomic', 'atomic_bool', 'atomic_flag'):
                    x = v.d['cell'].v
                    out.append((c.name, x if isinstance(x, (bool, int)) else 'any'))
                elif k in ('queue', 'deque', 'list'):
                    out.append((c.name, len(v.d['q'])))
                elif k in ('optional', 'unique_ptr', 'shared_ptr'):
                    r = sorted(str(x.where) for x in self.held(v) if x.live)
                    out.append((c.name, tuple(r), str(v.d.get('has'))))
                elif v.d.get('fields'):
                    out.append((c.name, self.fingerprint(v)))
        return tuple(out)

    def queued(self, o):
        return sum(len(c.v.d['q']) for c in o.fields.values() if isinstance(c.v, Obj) and kind(c.v) in ('queue', 'deque', 'list'))

    def queues(self, o):
        return {c.name: [sorted(x.n for x in self.held(v)) for v in c.v.d['q']] for c in o.fields.values()
                if isinstance(c.v, Obj) and kind(c.v) in ('queue', 'deque', 'list')}

    def subs(self, model, o):
        """live subscriptions whose messages are delivered to this client by a callback"""
        out = []
        for r in model.res:
            if r.live and r.kind == 'subscription' and r.info.get('callback') is not None:
                out.append(r)
        return out

    def joinable(self, o):
        for c in o.fields.values():
            if isinstance(c.v, Obj) and kind(c.v) in ('thread', 'jthread') and c.v.d['joinable'] is not False:
                return c
        return None

    def names(self, locks):
        return frozenset(x.name for x in locks)

    def accesses(self, m, o, role, lo=0, hi=None):
        """[(field, r|w, locks, event)] to the client's own members"""
        out = []
        for i, e in enumerate(m.trace[lo:hi]):
            k = ACCESS.get(e.kind)
            if k is None:
                continue
            c = e.cell
            if c.owner is not o:
                continue
            t = tyname(self.P, c).split('::')[-1]
            if any(x in t for x in SYNC) or t in ('atomic', 'atomic_bool', 'atomic_flag') or self.P.ty(c.ty).get('const'):
                continue
            out.append((c.name, k, self.names(e.locks), e, lo + i))
        return out

    # -------------------------------------------------------------- exploration
    def explore_all(self):
        c, P, rec = self.c, self.P, self.rec
        ri = P.recs.get(rec)
        if ri is None:
            raise Broken('client class vanished')
        self.where0 = '%s:%s' % (rel(ri['file']), ri['line'])
        todo = []
        ctors = [f for f in P.fns.values() if f.get('rec') == rec and f.get('ctor') in ('default', 'other')]
        bodies = []
        for f in ctors:
            if f.get('body') is not None or f.get('inits') is not None:
                bodies.append((f, lambda m, o, f=f: self.construct(m, f)))
        if not any(f.get('ctor') == 'default' for f, _ in bodies):
            bodies.append((None, lambda m, o: m.construct_default(self.tid(rec))))
        for f, b in bodies:
            for m, model, o, res, thrown in self.run(None, 'constructor', b):
                self.checks('constructor', self.where(f) if f else self.where0, m, model, res, None, thrown, [])
                if thrown is None:
                    self.add(todo, res, model, ['constructor'] + ([self.path(m.decided)] if self.path(m.decided) else []))
        if not todo:
            raise Broken('client cannot be constructed')
        self.ops = [fn for owner, fn in methods_of(P, rec)]
        c.count('methods', len(self.ops))
        while todo:
            fp = todo.pop(0)
            state, hist = self.states[fp]
            if len(self.states) > 600:
                c.undecided('client/states', self.where0, 'too many states')
                break
            for fn in self.ops:
                def body(m, o):
                    m.stack[-1] = Frame({'qn': fn['n'], 'params': [], 'ret': -1}, None)
                    args = [self.arg(m, p, i) for i, p in enumerate(fn['params'])]
                    m.trace = []
                    m.args = args
                    return m.invoke(fn, o, args)
                for m, model, o, res, thrown in self.run(state, fn['n'], body):
                    self.step(todo, fp, fn['n'], self.where(fn), m, model, o, res, thrown, hist, fn=fn)
            # deliveries
            o0, res0 = state
            for i, r in enumerate(res0):
                if not (r.live and r.kind == 'subscription' and r.info.get('callback') is not None):
                    continue

                def body(m, o):
                    model = m.m
                    s = model.res[i]
                    msg = model.new('message', 'delivery')
                    msg.info['via'] = s
                    model.role = 'callback'
                    m.ctx = 'callback'
                    m.args = [msg]
                    return m.call_value(s.info['callback'], [s.info['conn'], s, msg, s.info['closure']])
                for m, model, o, res, thrown in self.run(state, 'delivery', body):
                    name = 'delivery by ' + r.where
                    self.role(('callback', r.info['callback'].fid), m, o)
                    self.step(todo, fp, name, self.where(P.fns[r.info['callback'].fid]) if r.info['callback'].fid in P.fns else self.where0, m, model, o, res, thrown, hist, role='callback')
            t = self.joinable(o0)
            if t is not None:
                def body(m, o):
                    tc = self.joinable(o)
                    m.m.role = 'worker'
                    m.ctx = 'worker'
                    a = list(tc.v.d.get('args') or [])
                    a = [x.v if isinstance(x, Cell) else x for x in a]
                    return m.call_value(a[0], a[1:])
                for m, model, o, res, thrown in self.run(state, 'worker thread', body):
                    self.role(('worker',), m, o)
                    self.step(todo, fp, 'worker thread', self.where0, m, model, o, res, thrown, hist, role='worker')
            # destruction
            for m, model, o, res, thrown in self.run(state, 'destructor', lambda m, o: m.destroy(o)):
                self.transitions.append(('destructor', fp, None, m, model, o, hist, self.where0, {'role': 'destructor'}))
                if not self.checks('destructor', self.where0, m, model, o, None, thrown, hist, final=True):
                    continue
        c.count('states', len(self.states))

    def construct(self, m, f):
        args = [self.arg(m, p, i) for i, p in enumerate(f['params'])]
        o = m.default_obj(self.rec)
        m.trace, m.decided = [], []
        m.run_ctor(f, o, args)
        return o

    def role(self, r, m, o):
        acc = self.roles.setdefault(r, {})
        for n, k, locks, e, i in self.accesses(m, o, r):
            acc.setdefault((n, k, locks), e)

    def add(self, todo, o, model, hist):
        if self.queued(o) > 2:
            return None
        o.d.pop('self', None)
        fp = self.fingerprint(o)
        if fp not in self.states:
            # released handles nothing refers to do not matter any more
            held = self.held(o)
            keep = [r for r in model.res if r.live or r in held]
            self.states[fp] = ((o, keep), hist)
            todo.append(fp)
        return fp

    def step(self, todo, fp, op, where, m, model, o, res, thrown, hist, role='caller', fn=None):
        c = self.c
        if isinstance(thrown, Blocked):
            self.transitions.append((op, fp, None, m, model, o, hist, where, {'role': role, 'thrown': thrown}))
            return
        c.count('transitions')
        self.checks(op, where, m, model, o, res, thrown, hist, role=role)
        info = {'res': sorted(x.n for x in self.held(res)) if isinstance(res, (Obj, Res)) else [], 'after': self.queues(o), 'thrown': thrown, 'role': role,
                'result': res, 'fn': fn}
        for e in m.trace:
            if e.kind == 'nats' and e.d.get('created') is not None:
                e.created.info['op'] = op
        n = len(m.trace)
        if isinstance(res, Val):
            m.destroy(res)
        nfp = self.add(todo, o, model, hist + [op + (' [%s]' % self.path(m.decided) if self.path(m.decided) else '')])
        del m.trace[n:]
        self.transitions.append((op, fp, nfp, m, model, o, hist, where, info))

    def held_objects(self, o):
        out, todo, seen = [], [o], set()
        while todo:
            v = todo.pop()
            if id(v) in seen or not isinstance(v, Obj):
                continue
            seen.add(id(v))
            out.append(v)
            todo += [c.v for c in v.fields.values()]
            todo += [x for x in v.d.get('q', ())] if isinstance(v.d.get('q'), list) else []
        return out

    # -------------------------------------------------------------- P25
    def checks(self, op, where, m, model, o, res, thrown, hist, final=False, role='caller'):
        c = self.c
        how = 'after %s: %s' % (' -> '.join(hist) or 'nothing', self.path(m.decided))
        name = 'client.' + op
        bad = False
        texts = {'double-release': 'releases a handle that is already released', 'use-after-release': 'uses a handle after its release',
                 'release-unknown': 'releases something that is not a handle', 'terminate': 'terminates the program:', 'bad-join': 'joins a thread that is not running',
                 'null-deref': 'dereferences a null pointer in'}
        for e in m.trace:
            if e.kind in texts:
                self.report(name + '/' + e.kind, self.at(e), '%s %s %s' % (op, texts[e.kind], e.d.get('what', '')), how)
                bad = True
        held = set()
        for x in (o, res):
            if isinstance(x, (Obj, Res, Cell)) and not (final and x is o):
                held |= self.held(x)
        # a running worker may still use what it received
        lost = [r for r in model.res if r.live and r not in held]
        if lost:
            self.report('%s/leak-%s' % (name, lost[0].where), where, '%s loses the %s obtained from %s without releasing it' % (op, lost[0].kind, lost[0].where), how)
            bad = True
            for r in lost:              # reported here, not again by every later step
                r.live = False
        if final:
            t = self.joinable(o)
            # callbacks and threads are gone before what they use
            live = None
            used = {n for r, acc in self.roles.items() for (n, k, l) in acc}
            gone = set()
            for e in m.trace:
                if e.kind == 'release':
                    gone.add(e.res)
                if e.kind == 'field-dtor' and e.cell.owner is o and e.cell.name in used:
                    subs = [r for r in model.res if r.kind == 'subscription' and r.info.get('callback') is not None and r not in gone]
                    if subs:
                        self.report(name + '/delivery-after-destruction', where,
                                    'members that deliveries use are destroyed while the subscription from %s still delivers' % subs[0].where, how)
                        bad = True
                        break
        if not bad:
            c.ok(name + '/handles', where, how)
        return not bad

    def report(self, key_, where, msg, how):
        self.c.violation(key_, where, msg, how)


def messages(c, P):
    """the message class: releases its handle once, shows exactly the data of its handle"""
    S = Client(c, P)
    rec = 'vrtgen::nats::message'
    ri = P.recs.get(rec)
    if ri is None:
        raise Broken('message class vanished')
    where = '%s:%s' % (rel(ri['file']), ri['line'])
    states = []
    for f in [f for f in P.fns.values() if f.get('rec') == rec and f.get('ctor') in ('default', 'other')]:
        def body(m, o):
            args = []
            for i, p in enumerate(f['params']):
                t = P.ty(p['t'])
                if t['c'] == 'ptr':
                    args.append(m.m.new('message', 'caller'))
                else:
                    args.append(S.arg(m, p, i))
            o = m.default_obj(rec)
            m.args = args
            m.run_ctor(f, o, args)
            return o
        for m, model, _, o, thrown in S.run(None, 'constructor', body):
            lost = [r for r in model.res if r.live and (o is None or r not in S.held(o))]
            c.require(not lost or thrown is not None and lost[0].where == 'caller', 'message.constructor/leak', S.where(f), 'a message handle is lost by construction', S.path(m.decided))
            if thrown is None:
                states.append((o, model.res, f))
                cr = [e for e in m.trace if e.kind == 'nats' and e.d.get('created') is not None]
                for e in cr:
                    given = [a for a in m.args]
                    c.require(any(isinstance(a, Str) and a.k == ('given', 'subject') or isinstance(a, Str) for a in e.args), 'message.constructor/subject', S.where(f),
                              'the message is not created for the given subject')
    if not states:
        raise Broken('no constructor of message')
    c.count('message states', len(states))
    for o, res, f in states:
        st = (o, res)
        held = [r for r in S.held(o) if r.live]
        for owner, fn in methods_of(P, rec):
            def body(m, o):
                args = [S.arg(m, p, i) for i, p in enumerate(fn['params'])]
                m.trace, m.decided = [], []
                return m.invoke(fn, o, args)
            for m, model, o2, r, thrown in S.run(st, fn['n'], body):
                bad = [e for e in m.trace if e.kind in ('use-after-release', 'double-release')]
                c.require(not bad, 'message.%s/handle' % fn['n'], S.where(fn), '%s uses a released handle' % fn['n'], S.path(m.decided))
                if isinstance(r, Span):
                    h = [x for x in S.held(o2) if x.live]
                    if isinstance(r.ptr, BufPtr):
                        okk = h and r.ptr.buf.name == ('data of', h[0].key()) and key(r.ptr.off) == 0 and key(r.n) == key(model.length(h[0]))
                        c.require(bool(okk), 'message.%s/bytes' % fn['n'], S.where(fn), '%s is not exactly the data of the message but %r' % (fn['n'], r), S.path(m.decided))
                    else:
                        lo, hi = rng(r.n)
                        nodata = m.memo.get(('data', key(h[0]))) == 'none' if h else True
                        zero = h and m.signs and any(('length' in str(k)) and any(s == 0 for _, s in v) for k, v in m.signs.items())
                        c.require(hi == 0 and bool(nodata or zero or not h), 'message.%s/bytes' % fn['n'], S.where(fn),
                                  '%s is empty although the message has data' % fn['n'], S.path(m.decided))
        for m, model, o2, r, thrown in S.run(st, 'destructor', lambda m, o: m.destroy(o)):
            dbl = [e for e in m.trace if e.kind == 'double-release']
            left = [x for x in model.res if x.live]
            c.require(not dbl and not left, 'message.destructor/once', where, 'destruction %s' % ('releases the message twice' if dbl else 'does not release the message'))
        ways = []
        if ri['copyable']:
            ways.append('copy construction')
        if ri['copyassignable']:
            ways.append('copy assignment')
        if [x for x in ri['methods'] if x.get('ctor') == 'move' and not x['deleted']]:
            ways.append('move construction')
        if [x for x in ri['methods'] if x.get('assign') == 'move' and not x['deleted']]:
            ways.append('move assignment')
        for w in ways:
            def body(m, o):
                x = None
                if 'construction' in w:
                    x = m.copy_object(o, w.startswith('move'))
                else:
                    x = m.default_obj(rec)
                    extra = m.m.new('message', 'second')
                    g = [g for g in P.fns.values() if g.get('rec') == rec and g.get('ctor') == 'other' and len(g['params']) == 1]
                    m.run_ctor(g[0], x, [extra])
                    g = [g for g in P.methods.get((rec, 'operator='), []) if g.get('body') is not None and not g.get('defaulted') and
                         P.ty(g['params'][0]['t']).get('rv', False) == w.startswith('move')]
                    if g:
                        m.invoke(g[0], x, [Cell(o, 'source')])
                    else:
                        m.assign_members(Cell(x), Cell(o), None)
                m.destroy(x)
                m.destroy(o)
                return x
            for m, model, o2, r, thrown in S.run(st, w, body):
                if thrown is not None:
                    continue
                dbl = [e for e in m.trace if e.kind == 'double-release']
                left = [x for x in model.res if x.live]
                tag = w.replace(' ', '-')
                c.require(not dbl, 'message/' + tag, where, '%s makes a second owner of the message: it is released twice' % w)
                c.require(not left, 'message/%s-leak' % tag, where, 'after %s and destruction a message is not released' % w)
        if not ways:
            c.ok('message/cannot be copied or moved', where)
    c.count('message rules')


class Schedules:
    """P24, on the explored transitions of a client"""

    def __init__(self, C):
        self.C, self.c, self.P = C, C.c, C.P

    def how(self, hist, m):
        return 'after %s: %s' % (' -> '.join(hist) or 'nothing', self.C.path(m.decided))

    def run(self):
        self.gather()
        self.consistent()
        self.races()
        self.wakeups()
        self.pushes()
        self.order()
        self.deadlocks()
        self.shared()

    # waits: what each waiting operation waits for
    def gather(self):
        C = self.C
        self.wake = {}            # state -> {(op, timed, cv, mutex): (values, fields)}
        self.waits = {}           # (op, cv) -> (mutex names, queue fields)
        self.reads = {}           # queue field -> cvs
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            for w, v, fields, qs in self.waits_of(m, o):
                if info['role'] == 'caller':
                    d = self.wake.setdefault(fp, {}).setdefault((op,) + w, (set(), set()))
                    d[0].add(v)
                    d[1].update(fields)
                for q in qs:
                    self.reads.setdefault(q, set()).add(w[1])
                k = self.waits.setdefault((op, w[1]), (set(), set()))
                k[0].add(w[2])
                k[1].update(qs)
        self.c.count('waiting operations', len({k[0] for k in self.waits}))

    def waits_of(self, m, o):
        out = []
        cur = None
        for e in m.trace:
            if e.kind == 'wait':
                cur = (e, set(), set())
                if not e.pred:
                    out.append(((e.timed, e.cv.name, e.mutex.name if e.mutex is not None else None), None, set(), set()))
            elif cur is not None and e.kind == 'predicate':
                w = cur[0]
                out.append(((w.timed, w.cv.name, w.mutex.name if w.mutex is not None else None), e.value, cur[1], cur[2]))
                cur = None
            elif cur is not None and e.kind in ('read', 'atomic-read', 'q-read', 'q-access') and e.cell.owner is o:
                cur[1].add(e.cell.name)
                if e.kind.startswith('q-'):
                    cur[2].add(e.cell.name)
        return out

    def at(self, e):
        return self.C.at(e)

    def consistent(self):
        """every access of a queue holds its mutex"""
        C, c = self.C, self.c
        acc = {}
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] == 'destructor':
                continue
            for n, k, locks, e, i in C.accesses(m, o, info['role']):
                if e.kind.startswith('q-'):
                    acc.setdefault(n, {}).setdefault((locks, op.split(' by ')[0], e.fn, e.line), (e, hist, m))
            for e in m.trace:
                if e.kind == 'wait':
                    c.require(e.held, 'client.%s/wait-without-lock' % op, self.at(e), '%s waits without holding the mutex' % op)
        if not acc:
            raise Broken('client has no message queues')
        for n, d in sorted(acc.items()):
            common = None
            for (locks, op, fn, line) in d:
                common = locks if common is None else common & locks
            c.count('queue accesses', len(d))
            if common:
                c.ok('client/%s/lock' % n, C.where0, 'always under ' + ', '.join(sorted(common)))
                continue
            byset = {}
            for (locks, op, fn, line), x in d.items():
                byset.setdefault(locks, []).append((op, line, x[0]))
            txt = '; '.join('%s under %s' % (', '.join(sorted({op for op, l, x in v})), ', '.join(sorted(k)) or 'no lock') for k, v in sorted(byset.items(), key=lambda kv: str(sorted(kv[0]))))
            e = min(byset.items(), key=lambda kv: len(kv[0]))[1][0][2]
            c.violation('client/%s/lock' % n, self.at(e), 'no lock protects every access of %s: %s' % (n, txt))

    def races(self):
        """members used by a delivery or by the worker while they run"""
        C, c = self.C, self.c
        worker_uses = {}
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] == 'worker':
                for e in m.trace:
                    if e.kind == 'nats':
                        worker_uses.setdefault(fp, set()).update(a.n for a in e.args if isinstance(a, Res))
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] not in ('caller', 'destructor'):
                continue
            o0, res0 = C.states[fp][0]
            actors = {}
            for r in res0:
                if r.live and r.kind == 'subscription' and r.info.get('callback') is not None:
                    actors[('sub', r.n)] = ('callback', r.info['callback'].fid)
            if C.joinable(o0) is not None:
                actors['worker'] = ('worker',)
            bad = False
            for e in m.trace:
                if e.kind == 'nats' and e.d.get('created') is not None and e.created.info.get('callback') is not None:
                    actors[('sub', e.created.n)] = ('callback', e.created.info['callback'].fid)
                elif e.kind == 'release':
                    if 'worker' in actors and e.res.n in worker_uses.get(fp, ()):
                        c.violation('client.%s/released-while-receiving' % op, self.at(e), '%s releases the %s that its running worker receives from' % (op, e.res.kind), self.how(hist, m))
                        bad = True
                    actors.pop(('sub', e.res.n), None)
                elif e.kind == 'join':
                    actors.pop('worker', None)
                elif e.kind == 'thread-start':
                    actors['worker'] = ('worker',)
                k = ACCESS.get(e.kind)
                if k is None or e.cell.owner is not o:
                    continue
                n = e.cell.name
                t = tyname(self.P, e.cell).split('::')[-1]
                if any(x in t for x in SYNC) or t.startswith('atomic') or t in ('thread', 'jthread') or self.P.ty(e.cell.ty).get('const'):
                    continue
                locks = C.names(e.locks)
                for who, role in actors.items():
                    for (n2, k2, l2), e2 in C.roles.get(role, {}).items():
                        if n2 == n and 'w' in (k, k2) and not (locks & l2):
                            c.violation('client.%s/%s-race' % (op, n), self.at(e), '%s %s %s while %s may %s it at %s, without a common lock' % (
                                op, 'writes' if k == 'w' else 'reads', n, 'a delivery' if role[0] == 'callback' else 'the worker',
                                'write' if k2 == 'w' else 'read', self.at(e2)), self.how(hist, m))
                            bad = True
            c.count('operations checked for races')
            if not bad:
                c.ok('client.%s/races' % op, where)
        rs = sorted(C.roles)
        for i, a in enumerate(rs):
            for b in rs[i + 1:]:
                for (n, k, l), e in C.roles[a].items():
                    for (n2, k2, l2), e2 in C.roles[b].items():
                        if n == n2 and 'w' in (k, k2) and not (l & l2):
                            c.violation('client/%s-race' % n, self.at(e), '%s is used by two deliveries without a common lock' % n, self.at(e2))

    def wakeups(self):
        """a change that ends a wait is made under the lock of the wait and announced afterwards"""
        C, c = self.C, self.c
        ended = {}
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] == 'destructor':
                after = self.after_end(o, model, m)
            else:
                after = self.wake.get(nfp)
            if after is None:
                continue
            for w, (vals, fields) in self.wake.get(fp, {}).items():
                if w not in after:
                    continue
                v2, f2 = after[w]
                if info['role'] == 'destructor':
                    c.require(v2 == {True}, 'client.%s/%s-not-ended' % (w[0], 'timed' if w[1] else 'blocking'), C.where0,
                              'a %scall of %s goes on waiting when the client stops' % ('timed ' if w[1] else '', w[0]), self.how(hist, m))
                if vals != {False} or v2 != {True}:
                    continue
                rel_ = fields | f2
                writes = [(i, e) for i, e in enumerate(m.trace) if e.kind in ('write', 'atomic-write', 'q-push', 'q-clear') and e.cell.owner is o and e.cell.name in rel_]
                if not writes:
                    continue
                c.count('wake-ups')
                key0 = 'client.%s/%s' % (op.split(' by ')[0], w[0])
                nolock = [e for i, e in writes if w[3] not in C.names(e.locks) and not self.same_value(e)]
                last = writes[-1][0]
                push = writes[-1][1].kind == 'q-push'
                notes = [e for e in m.trace[last:] if e.kind == 'notify' and e.cv.name == w[2] and (e.all or push)]
                if not notes and push:
                    notes = self.before(m, last, w)
                c.require(bool(notes), key0 + '/not-woken', where, '%s ends the wait of %s without waking it' % (op, w[0]), self.how(hist, m))
                c.require(not nolock, key0 + '/lost-wakeup', self.at(nolock[0]) if nolock else where,
                          '%s changes %s, which %s waits for, without holding %s: the wake-up can be lost' % (op, nolock[0].cell.name if nolock else '', w[0], w[3]), self.how(hist, m))

    def same_value(self, e):
        return e.kind == 'write' and key(e.d.get('old')) == key(e.d.get('value')) and not isinstance(e.d.get('value'), Sym)

    def before(self, m, i, w):
        """notification given earlier in the same critical section as event i"""
        out = []
        for e in m.trace[:i][::-1]:
            if e.kind == 'lock' and e.mutex.name == w[3]:
                break
            if e.kind == 'notify' and e.cv.name == w[2]:
                out.append(e)
        return out

    def after_end(self, o, model, m0):
        """what waiting operations find once the destructor has run"""
        C = self.C
        out = {}
        for v in C.held_objects(o):
            v.dead = False
        for fn in C.ops:
            if fn['n'] not in {k[0] for k in self.waits}:
                continue

            def body(m, o):
                args = [C.arg(m, p, i) for i, p in enumerate(fn['params'])]
                m.trace, m.decided = [], []
                return m.invoke(fn, o, args)
            o.d.pop('self', None)
            for m, mo, o2, r, t in C.run((o, []), fn['n'], body):
                for w, v, fields, qs in self.waits_of(m, o2)[:1]:
                    d = out.setdefault((fn['n'],) + w, (set(), set()))
                    d[0].add(v)
                    d[1].update(fields)
        return out

    def pushes(self):
        """every message put into a queue is announced to those who wait for that queue"""
        C, c = self.C, self.c
        n = 0
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] == 'destructor':
                continue
            for i, e in enumerate(m.trace):
                if e.kind != 'q-push' or e.cell.owner is not o:
                    continue
                n += 1
                q = e.cell.name
                cvs = self.reads.get(q, set())
                c.require(bool(cvs), 'client/%s/never-awaited' % q, self.at(e), 'no operation waits for %s' % q)
                for cv in cvs:
                    others = {x for x, s in self.reads.items() if cv in s}
                    w = [k for k in self.waits if k[1] == cv]
                    mx = next(iter(self.waits[w[0]][0]), None) if w else None
                    notes = [x for x in m.trace[i:] if x.kind == 'notify' and x.cv.name == cv]
                    notes += self.before(m, i, (None, None, cv, mx)) if mx in C.names(e.locks) else []
                    if len(others) > 1:
                        notes = [x for x in notes if x.all]
                    c.require(bool(notes), 'client/%s/push-not-announced' % q, self.at(e), 'a message is put into %s and no waiter is woken' % q, self.how(hist, m))
        c.count('messages queued', n)
        if not n:
            raise Broken('no delivery queues a message')

    def order(self):
        """first in, first out, each message to one caller"""
        C, c = self.C, self.c
        consumer = {}
        for (op, cv), (mx, qs) in self.waits.items():
            for q in qs:
                consumer.setdefault(op, set()).add(q)
        if not {'next_msg', 'next_inbox_msg'} <= set(consumer):
            raise Broken('next_msg and next_inbox_msg do not wait for queues')
        for op in ('next_msg', 'next_inbox_msg'):
            if len(consumer[op]) != 1:
                c.undecided('client.%s/queue' % op, C.where0, 'waits for several queues')
                return
        c.require(consumer['next_msg'] != consumer['next_inbox_msg'], 'client/queues', C.where0, 'messages and replies share one queue')
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            if info['role'] == 'destructor' or info.get('thrown') is not None:
                continue
            before, after = C.queues(C.states[fp][0][0]), info['after']
            how = self.how(hist, m)
            key0 = 'client.%s/' % op.split(' by ')[0]
            if op in consumer and info['role'] == 'caller':
                q = list(consumer[op])[0]
                if before[q]:
                    c.require(info['res'] == before[q][0], key0 + 'first', where, '%s does not return the oldest message of %s' % (op, q), how)
                    c.require(after[q] == before[q][1:], key0 + 'rest', where, '%s does not leave the other messages as they were' % op, how)
                else:
                    c.require(not info['res'] and not after[q], key0 + 'none', where, '%s returns a message although none is queued' % op, how)
                for x in after:
                    if x != q:
                        c.require(after[x] == before[x], key0 + 'other-queue', where, '%s changes %s' % (op, x), how)
                continue
            if info['role'] in ('callback', 'worker'):
                new = [r for r in model.res if r.kind == 'message' and r.n not in {y for v in before.values() for x in v for y in x}]
                reply = any(r.info.get('via') is not None and getattr(r.info['via'], 'info', {}).get('op') == 'new_inbox' for r in new)
                want = list(consumer['next_inbox_msg' if reply else 'next_msg'])[0]
                kept = [r.n for r in new if not self.no_data(m, r)]
                for x in after:
                    if x == want:
                        c.require(after[x] == before[x] + [[n] for n in kept], key0 + 'delivered', where,
                                  '%s does not append exactly the messages received to %s' % (op, x), how)
                    else:
                        c.require(after[x] == before[x], key0 + 'other-queue', where, '%s changes %s' % (op, x), how)
                continue
            for x in after:
                c.require(after[x] == before[x] or not after[x], key0 + 'queues', where, '%s reorders or drops single messages of %s' % (op, x), how)

    def no_data(self, m, r):
        if m.memo.get(('data', r.key())) == 'none':
            return True
        ln = Sym(('length', r.key()), 0)
        return m.memo.get(('sign', lin(ln).key())) == 0

    def deadlocks(self):
        C, c = self.C, self.c
        edges = {}
        wl = set()
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            for e in m.trace:
                if e.kind == 'relock':
                    c.violation('client.%s/relock' % op, self.at(e), '%s locks %s again while holding it' % (op, e.mutex.name), self.how(hist, m))
                elif e.kind == 'unlock-not-held':
                    c.violation('client.%s/unlock' % op, self.at(e), '%s unlocks %s without holding it' % (op, e.mutex.name), self.how(hist, m))
                elif e.kind == 'lock':
                    for h in e.held:
                        edges.setdefault((h.name, e.mutex.name), e)
                    if info['role'] == 'worker':
                        wl.add(e.mutex.name)
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            for e in m.trace:
                if e.kind == 'join':
                    c.require(not (C.names(e.locks) & wl), 'client.%s/join-deadlock' % op, self.at(e),
                              '%s joins the worker while holding a lock that the worker needs' % op, self.how(hist, m))
        for (a, b), e in edges.items():
            c.require((b, a) not in edges, 'client/lock-order', self.at(e), '%s and %s are locked in both orders' % (a, b))
        c.count('lock order edges', len(edges))

    def shared(self):
        """variables common to all clients"""
        C, c = self.C, self.c
        seen = set()
        for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
            for e in m.trace:
                if e.kind != 'static' or not e.name.startswith('vrtgen'):
                    continue
                if any(x in e.type for x in SYNC) or 'atomic' in e.type:
                    continue
                seen.add(e.name)
                okk = any(l.owner is None for l in e.locks)
                c.require(okk, 'client.%s/%s-shared' % (op, e.name.split('::')[-1]), self.at(e),
                          '%s uses %s, which all clients share, without a lock common to them' % (op, e.name))
        c.count('shared variables', len(seen))


def transparent(C):
    """P28: what callers pass reaches the NATS library unchanged and its outcome reaches the caller"""
    c, P = C.c, C.P
    OUT = {'natsConnection_Subscribe': ('subscribe', 'new_inbox'), 'natsConnection_SubscribeSync': ('subscribe',),
           'natsConnection_QueueSubscribe': ('queue_subscribe',), 'natsConnection_QueueSubscribeSync': ('queue_subscribe',)}
    for op, fp, nfp, m, model, o, hist, where, info in C.transitions:
        fn = info.get('fn')
        if fn is None or info.get('thrown') is not None and isinstance(info['thrown'], Blocked):
            continue
        how = 'after %s: %s' % (' -> '.join(hist) or 'nothing', C.path(m.decided))
        key0 = 'client.' + op
        res = info['result']
        calls = [e for e in m.trace if e.kind == 'nats']
        acts = [e for e in calls if not isinstance(e.result, (str, type(None)))]
        o0, res0 = C.states[fp][0]
        rt = P.ty(fn['ret'])
        if info['thrown'] is not None:
            c.violation(key0 + '/throws', where, '%s throws' % op, how)
            continue
        given = {p['n']: a for p, a in zip(fn['params'], m.args)}
        given = {n: a.v if isinstance(a, Cell) else a for n, a in given.items()}
        strs = [a for a in given.values() if isinstance(a, Str)]
        flags = [a for a in given.values() if isinstance(a, bool)]
        # status
        if rt['c'] == 'enum' and 'natsStatus' in rt.get('rec', rt.get('s', '')):
            failed = [e for e in acts if e.failed]
            if failed:
                c.require(key(res) == key(failed[-1].result), key0 + '/failure', where, '%s returns %r although %s failed' % (op, res, failed[-1].name), how)
            elif acts:
                c.require(res == 0, key0 + '/success', where, '%s returns %r although %s succeeded' % (op, res, acts[-1].name), how)
            else:
                c.require(isinstance(res, int) and res != 0 or not isinstance(res, int), key0 + '/refused', where, '%s reports success without doing anything' % op, how)
                empties = [l for l, v in m.decided if 'is empty' in str(l) and v is True]
                c.require(bool(empties), key0 + '/refused-valid', where, '%s refuses valid arguments' % op, how)
            c.count('statuses')
        conns = {x.n for x in C.held(o0) if x.kind == 'natsConnection' and x.live}
        main = None
        for e in acts:
            a = e.args
            # which connection
            for i, x in enumerate(a):
                if isinstance(x, Res) and x.kind == 'natsConnection':
                    c.require(x.n in conns, key0 + '/connection', where, '%s does not use the connection of the client' % e.name, how)
            if e.name in ('natsConnection_Publish', 'natsConnection_PublishRequest', 'natsConnection_PublishString', 'natsConnection_PublishRequestString'):
                main = e
                spans = [x for x in given.values() if isinstance(x, Span)]
                ptrs = [(i, x) for i, x in enumerate(a) if isinstance(x, (BufPtr, Sym)) or x is (spans[0].ptr if spans else None)]
                subject = given.get('subject')
                c.require(isinstance(subject, Str) and key(a[1]) == key(subject), key0 + '/subject', where, '%s is not given the subject' % e.name, how)
                if spans:
                    c.require(any(key(a[i]) == key(spans[0].ptr) and i + 1 < len(a) and key(a[i + 1]) == key(spans[0].n) for i in range(2, len(a) - 1)),
                              key0 + '/data', where, '%s is not given exactly the data' % e.name, how)
                reply = given.get('reply')
                if reply is not None:
                    empty = reply.k == '' or m.memo.get(('empty', key(reply))) is True
                    got = key(a[2]) == key(reply) if e.name.startswith('natsConnection_PublishRequest') else None
                    c.require(got is True or got is None and (empty or m.memo.get(('empty', key(reply))) is None and False), key0 + '/reply', where,
                              '%s does not carry the reply subject' % e.name, how)
            if e.name in OUT and op in OUT[e.name]:
                main = e
                if strs:
                    for i, sx in enumerate(strs):
                        c.require(len(a) > 2 + i and key(a[2 + i]) == key(sx), key0 + '/subject', where, '%s is not given the %s' % (e.name, list(given)[i]), how)
                if op != 'new_inbox' and flags:
                    c.require(flags[0] == e.name.endswith('Sync'), key0 + '/mode', where, '%s although %s was asked for' % (e.name, 'a synchronous subscription' if flags[0] else 'deliveries by callback'), how)
                if not e.name.endswith('Sync'):
                    cl = e.created.info.get('closure') if e.d.get('created') is not None else None
                    if e.d.get('created') is not None:
                        t = cl.cell.v if isinstance(cl, CellPtr) else cl
                        c.require(t is o, key0 + '/closure', where, 'the subscription does not deliver to this client', how)
            elif e.name in ('natsConnection_ConnectTo',):
                main = e
                c.require(bool(strs) and key(a[1]) == key(strs[0]), key0 + '/url', where, 'the connection is not made to the given URL', how)
        if op in ('publish', 'subscribe', 'queue_subscribe', 'connect', 'new_inbox') and not main and acts:
            c.undecided(key0 + '/calls', where, 'uses NATS calls without a rule: %s' % ', '.join(sorted({e.name for e in acts})))
        # reports about the state
        if op == 'url':
            okk = [e for e in calls if e.name == 'natsConnection_GetConnectedUrl' and not e.failed]
            if okk:
                b = okk[-1].args[1]
                b = b.buf if isinstance(b, BufPtr) else None
                txt = isinstance(res, Str) and isinstance(res.k, tuple) and res.k[0] == 'from'
                cstr = txt and len(res.k) == 2 and b is not None and res.k[1] == str(key(BufPtr(b, 0)))
                c.require(cstr, key0 + '/text', where, 'the text of the URL does not end where the URL ends', how)
                n = okk[-1].args[2]
                c.require(b is None or not isinstance(n, int) or not isinstance(b.size, int) or n <= b.size, key0 + '/size', where, 'a size larger than the buffer is passed', how)
            else:
                c.require(isinstance(res, Str) and res.k == '', key0 + '/unconnected', where, 'the URL is %r without a connection' % (res,), how)
        if op in ('subject', 'inbox'):
            mine = [x for x in C.held(o0) if x.kind == 'subscription' and x.live and (x.info.get('op') == 'new_inbox') == (op == 'inbox')]
            q = [e for e in calls if e.name == 'natsSubscription_GetSubject']
            if q and q[-1].result == 'a string':
                x = q[-1].args[0]
                c.require(isinstance(x, Res) and mine and x.n == mine[0].n and isinstance(res, Str) and str(x.key()) in str(res.k), key0 + '/name', where,
                          '%s is not the name of the right subscription' % op, how)
            else:
                c.require(isinstance(res, Str) and res.k == '', key0 + '/none', where, '%s is %r without a name' % (op, res), how)
                c.require(bool(q) or not mine, key0 + '/empty', where, '%s is empty although there is a subscription' % op, how)
        if op == 'is_connected':
            q = [e for e in calls if e.name == 'natsConnection_Status']
            c.require(bool(q) or not conns, key0 + '/status', where, 'the state of the connection is not looked at', how)
        c.ok(key0 + '/' + (C.path(m.decided) or 'plain'), where, how)
        c.count('operations')
