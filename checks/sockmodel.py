"""Sockets (P26): every history of the socket classes is followed by typestate exploration; every system call can fail."""
import copy, os, sys
from flow import *
from common import dump, Broken, Uncompilable, VERIF, REPO, rel

IO = {'sendto', 'recvfrom', 'read', 'write', 'send', 'recv', 'sendmsg', 'recvmsg'}
SETUP = {'bind', 'connect', 'listen', 'setsockopt', 'shutdown', 'getsockopt', 'getsockname', 'getpeername', 'fcntl', 'ioctl'}
MAKE = {'socket': 'socket()', 'accept': 'accept()', 'accept4': 'accept()', 'dup': 'dup()'}


class SysModel(Model):
    """system calls on descriptors"""

    def __init__(self, fail=True):
        self.res = []
        self.fail = fail

    def sys(self, m, name, args, result, **kw):
        return m.event('sys', name=name, args=args, result=result, failed=isinstance(result, int) and result < 0, **kw)

    def use(self, m, fd, name):
        if isinstance(fd, Res) and not fd.live:
            m.event('use-after-close', res=fd, what=name)

    def extern(self, m, name, f, args, e):
        if name in MAKE:
            if name != 'socket':
                self.use(m, args[0], name)
            ok = m.choose(name, ['succeeds', 'fails'] if self.fail else ['succeeds'])
            if ok == 'fails' or name != 'socket' and isinstance(args[0], int):
                self.sys(m, name, args, -1)
                return -1
            r = Res('descriptor', len(self.res) + 1, MAKE[name])
            self.res.append(r)
            if name.startswith('accept') and len(args) > 1:
                self.fill(args[1], 'peer of %r' % r)
            self.sys(m, name, args, r)
            return r
        if name == 'close':
            fd = args[0]
            if isinstance(fd, Res):
                if not fd.live:
                    m.event('double-close', res=fd)
                fd.live = False
            m.event('close', res=fd)
            return m.choose('close', [0]) if not isinstance(fd, int) else -1
        if name in SETUP:
            self.use(m, args[0], name)
            bad = isinstance(args[0], int) and args[0] < 0
            r = -1 if bad else {'succeeds': 0, 'fails': -1}[m.choose(name, ['succeeds', 'fails'] if self.fail else ['succeeds'])]
            kw = {}
            if name == 'setsockopt' and len(args) > 3 and isinstance(args[3], CellPtr) and isinstance(args[3].cell.v, Obj):
                kw['option'] = {c.name: c.v for c in args[3].cell.v.fields.values()}
            self.sys(m, name, args, r, **kw)
            return r
        if name in IO:
            self.use(m, args[0], name)
            bad = isinstance(args[0], int) and args[0] < 0
            inp = name.startswith('re')
            what = 'fails' if bad else m.choose(name, ['succeeds', 'fails'] + (['returns 0'] if inp else []) if self.fail else ['succeeds'])
            n = args[2] if len(args) > 2 else None
            r = -1 if what == 'fails' else 0 if what == 'returns 0' else m.sym(name, 1, n if isinstance(n, int) else None)
            if inp and len(args) > 1 and isinstance(args[1], BufPtr) and not isinstance(r, int):
                args[1].buf.writes.append((args[1].off, r, m.ctx))
                args[1].buf.content = ('received', r)
            if name == 'recvfrom' and len(args) > 4 and what == 'succeeds':
                self.fill(args[4], ('sender of', r.name))
            self.sys(m, name, args, r)
            return r
        if name == 'inet_pton':
            r = {'succeeds': 1, 'fails': 0}[m.choose('inet_pton', ['succeeds', 'fails'] if self.fail else ['succeeds'])]
            if isinstance(args[2], CellPtr) and r == 1:
                args[2].cell.v = Sym(('address', str(key(args[1]))))
            m.event('sys', name=name, args=args, result=r, failed=r != 1)
            return r
        if name == 'inet_ntop':
            return m.choose('inet_ntop', [Str(('text', 'address')), NULL])
        if name in ('htons', 'ntohs', 'htonl', 'ntohl', '__bswap_16', '__bswap_32', '__builtin_bswap16', '__builtin_bswap32'):
            v = args[0]
            if isinstance(v, Sym) and isinstance(v.name, tuple) and v.name[0] == 'swapped':
                return v.name[1]
            return Sym(('swapped', v), 0, 65535)
        if name == '__errno_location':
            return CellPtr(Cell(m.sym('errno'), 'errno'))
        if name == 'strerror':
            return Str(('of', m.fresh('strerror')))
        if name in ('memset', '__builtin_memset', 'bzero'):
            p = args[0]
            o = p.cell.v if isinstance(p, CellPtr) else None
            if isinstance(o, Obj):
                o.fields.clear()
                o.d['pod0'] = True
                o.d.pop('origin', None)
            elif isinstance(p, CellPtr):
                p.cell.v = 0
            return p
        if name in ('memcpy', 'memmove', '__builtin_memcpy'):
            d, s = args[0], args[1]
            if isinstance(d, CellPtr) and isinstance(s, CellPtr):
                d.cell.v = m.lib_copy(s.cell.v) if isinstance(s.cell.v, Obj) else s.cell.v
            return d
        return None

    def fill(self, p, what):
        if isinstance(p, CellPtr) and isinstance(p.cell.v, Obj):
            p.cell.v.d['origin'] = what


def methods_of(P, rec):
    """public instance methods of rec and its bases with a body: [(declaring record, facts)]"""
    out, seen = [], set()
    for r in [rec] + P.all_bases(rec):
        ri = P.recs.get(r)
        for x in (ri['methods'] if ri else ()):
            fn = P.fns.get(x['id'])
            if x['acc'] != 0 or x.get('ctor') or x.get('dtor') or x['static'] or x['n'].startswith('operator') or x['deleted']:
                continue
            if fn is None or fn.get('body') is None:
                continue
            k = (x['n'], tuple(P.ty(p['t'])['s'] for p in fn['params']), x['const'])
            if k not in seen:
                seen.add(k)
                out.append((r, fn))
    return out


def endpoint_state(ep):
    """sockaddr object inside an endpoint (or a copy of one)"""
    for c in ep.fields.values():
        if isinstance(c.v, Obj) and 'sockaddr' in c.v.ty:
            return c.v
    return None


class Sockets:
    model = SysModel
    blocking = False           # paths that end in an endless wait are reported too

    def __init__(self, c, P, label):
        self.c, self.P, self.label = c, P, label

    def path(self, ds):
        return ', '.join('%s %s' % d for d in ds if isinstance(d[1], str))

    def arg(self, m, p, i):
        """argument standing for anything a caller may pass"""
        P = self.P
        t = P.ty(p['t'])
        ref = t['c'] == 'ref'
        if ref:
            t = P.ty(t['pt'])
        if t['c'] == 'rec' and 'socket_endpoint' in t.get('tn', ''):
            v = m.construct_from(self.tid(t['rec']), [])
            s = endpoint_state(v)
            if s is None:
                raise Broken('an endpoint without a socket address')
            s.d['origin'] = 'given'
        elif t['c'] == 'rec' and t.get('tn', '') in STRING:
            v = Str(('given', p['n']))
        elif t['c'] == 'ptr':
            v = BufPtr(Buffer('given ' + p['n'], Sym('given length', 0)))
        elif t['c'] == 'int':
            v = Sym(('given', i), 0 if not t.get('sg') else None)
        elif t['c'] == 'rec':
            v = m.make(self.tid(t['rec']))
        else:
            v = Sym(('given', i))
        return Cell(v, p['n']) if ref else v

    def tid(self, rec):
        for i, t in enumerate(self.P.types):
            if t and t.get('c') == 'rec' and t.get('rec') == rec and not t.get('const'):
                return i
        for i, t in enumerate(self.P.types):
            if t and t.get('c') == 'rec' and t.get('rec') == rec:
                return i
        raise Broken('no type ' + rec)

    # -------------------------------------------------------------- typestate
    def fingerprint(self, o):
        out = []
        for c in o.fields.values():
            v = c.v
            if isinstance(v, Res):
                out.append((c.name, 'live' if v.live else 'closed', v.where))
            elif isinstance(v, (int, bool)):
                out.append((c.name, v))
            elif isinstance(v, Obj) and v.d.get('fields') is None and kind(v) in ('optional', 'unique_ptr'):
                out.append((c.name, str(v.d.get('has')), str(v.d.get('p'))[:3]))
        return tuple(out)

    def held(self, o, seen=None):
        """resources reachable from o"""
        out = set()
        todo = [o]
        seen = set()
        while todo:
            v = todo.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, Res):
                out.add(v)
            elif isinstance(v, Obj):
                todo += [c.v for c in v.fields.values()]
                for x in v.d.values():
                    if isinstance(x, (list, tuple)):
                        todo += list(x)
                    else:
                        todo.append(x)
            elif isinstance(v, Cell):
                todo.append(v.v)
            elif isinstance(v, CellPtr):
                todo.append(v.cell.v)
        return out

    def run(self, state, what, body, limit=4000):
        """body(machine, object) on copies of state for every path.  Yields (machine, model, object, result, thrown)"""
        def one(choose):
            model = self.model()
            m = Machine(self.P, model, choose)
            o = None
            if state is not None:
                o, model.res = copy.deepcopy(state)
                o.d['self'] = Cell(o, 'this')
            m.stack.append(Frame({'qn': what, 'params': [], 'ret': -1}, None))
            try:
                return m, model, o, body(m, o), None
            except Throw as t:
                return m, model, o, None, t
            except Blocked as b:
                return (m, model, o, None, b) if self.blocking else None
            except Stop:
                return None
        for r, _ in explore(one, limit):
            if r is not None:
                self.c.count('paths')
                yield r

    def common(self, cls, op, where, m, model, o, thrown, history):
        """rules for every path: (ok)"""
        bad = False
        how = 'after %s: %s' % (' -> '.join(history) or 'construction', self.path(m.decided))
        for e in m.trace:
            if e.kind == 'double-close':
                self.c.violation('%s.%s/double-close' % (cls, op), self.at(e), '%s closes a descriptor that is already closed' % op, how)
                bad = True
            elif e.kind == 'use-after-close':
                self.c.violation('%s.%s/use-after-close' % (cls, op), self.at(e), '%s uses a descriptor after it was closed (%s)' % (op, e.what), how)
                bad = True
        for r in m.unmodelled:
            pass
        return not bad

    def at(self, e):
        return '%s:%s' % (rel(e.file), e.line)

    def where(self, fn):
        return '%s:%s' % (rel(fn.get('file', '')), fn.get('line'))

    def leaked(self, model, o):
        held = self.held(o) if o is not None else set()
        return [r for r in model.res if r.live and r not in held]

    def explore_class(self, rec):
        c, P = self.c, self.P
        cls = '%s<%s>' % (short(rec), self.label)
        ri = P.recs[rec]
        where = '%s:%s' % (rel(ri['file']), ri['line'])
        states, todo = {}, []
        # construction
        n = 0
        for m, model, o, res, thrown in self.run(None, cls, lambda m, o: m.construct_default(self.tid(rec))):
            n += 1
            self.common(cls, 'constructor', where, m, model, res, thrown, [])
            calls = [e for e in m.trace if e.kind == 'sys']
            failed = [e for e in calls if e.failed]
            lost = self.leaked(model, res)
            c.require(not lost, cls + '.constructor/leak', where,
                      'construction %s leaves a descriptor open that nothing owns' % ('that fails' if thrown else ''), self.path(m.decided))
            if failed and not thrown:
                c.violation('%s.constructor/%s-ignored' % (cls, failed[-1].name), self.at(failed[-1]),
                            'construction goes on although %s failed' % failed[-1].name, self.path(m.decided))
            elif thrown and not failed:
                c.violation(cls + '.constructor/throws', where, 'construction fails although every system call succeeded')
            else:
                c.ok(cls + '.constructor/' + (self.path(m.decided) or 'plain'), where)
            if thrown is None and res is not None:
                res.d.pop('self', None)
                fp = self.fingerprint(res)
                if fp not in states:
                    states[fp] = ((res, model.res), [])
                    todo.append(fp)
        if not todo:
            raise Broken('%s cannot be constructed' % cls)
        ops = methods_of(P, rec)
        c.count('methods', len(ops))
        while todo:
            fp = todo.pop()
            state, hist = states[fp]
            if len(states) > 60:
                c.undecided(cls + '/states', where, 'too many states')
                break
            for owner, fn in ops:
                ref = P.ty(fn['ret'])['c'] == 'ref'
                if fn['n'] in ('dst', 'src', 'native_handle') and not fn['params']:
                    continue
                op = fn['n']
                box = {}

                def body(m, o):
                    m.stack[-1] = Frame({'qn': op, 'params': [], 'ret': -1}, None)
                    args = [self.arg(m, p, i) for i, p in enumerate(fn['params'])]
                    box['args'] = args
                    m.trace, m.decided = [], []
                    return m.invoke(fn, o, args)
                for m, model, o, res, thrown in self.run(state, op, body):
                    self.after(cls, rec, fn, m, model, o, res, thrown, hist, box['args'])
                    o.d.pop('self', None)
                    nfp = self.fingerprint(o)
                    c.count('transitions')
                    if nfp not in states:
                        states[nfp] = ((o, model.res), hist + [op + (' [%s]' % self.path(m.decided) if m.decided else '')])
                        todo.append(nfp)
            self.open_rule(cls, rec, state, hist)
            self.end(cls, rec, state, hist, where)
            self.copies(cls, rec, ri, state, hist, where)
        c.count('states', len(states))

    def after(self, cls, rec, fn, m, model, o, res, thrown, hist, args):
        c, P, op = self.c, self.P, fn['n']
        where = self.where(fn)
        if not self.common(cls, op, where, m, model, o, thrown, hist):
            return
        how = 'after %s: %s' % (' -> '.join(hist) or 'construction', self.path(m.decided))
        lost = self.leaked(model, o)
        if lost:
            c.violation('%s.%s/leak' % (cls, op), where, '%s loses a descriptor from %s without closing it' % (op, lost[0].where), how)
            return
        last = {}
        for e in m.trace:
            if e.kind == 'sys':
                last[e.name] = e
        failed = [e for e in last.values() if e.failed]
        rt = P.ty(fn['ret'])
        if not last:
            c.ok('%s.%s/no system call' % (cls, op), where)
            return
        c.count('system call outcomes', len(last))
        io = [e for e in m.trace if e.kind == 'sys' and e.name in IO]
        key0 = '%s.%s' % (cls, op)
        if thrown is not None:
            c.require(bool(failed), key0 + '/throws-on-success', where, '%s reports a failure although every system call succeeded' % op, how)
        elif rt['c'] == 'bool':
            got = res if isinstance(res, bool) else m.truth(res)
            if failed:
                c.require(got is False, key0 + '/failure-as-success', where,
                          '%s returns true although %s failed' % (op, failed[0].name), how)
            else:
                c.require(got is True, key0 + '/success-as-failure', where, '%s returns false although it succeeded' % op, how)
        elif io:
            e = io[-1]
            if e.failed:
                lo, hi = rng(res) if lin(res) is not None else (None, None)
                c.require(hi is not None and hi < 0, key0 + '/failure-as-data', where, '%s returns %r although %s failed' % (op, res, e.name), how)
            else:
                total = 0
                for x in io:
                    if not x.failed:
                        total = add(total, x.result)
                c.require(key(res) == key(e.result) or key(res) == key(total), key0 + '/count', where,
                          '%s returns %r where %s transferred %r bytes' % (op, res, e.name, e.result), how)
        else:
            c.require(not failed, key0 + '/failure-ignored', where, '%s does not report that %s failed' % (op, failed[0].name if failed else ''), how)
        self.arguments(cls, rec, fn, m, o, thrown, args, where, how, failed)

    def arguments(self, cls, rec, fn, m, o, thrown, args, where, how, failed):
        """operations apply to the address, the bytes and the descriptor they are given"""
        c, op = self.c, fn['n']
        key0 = '%s.%s' % (cls, op)
        given = [a for a in args if isinstance(a, Cell) and isinstance(a.v, Obj) and 'socket_endpoint' in a.v.ty]
        bufs = [a for a in args if isinstance(a, BufPtr)]
        ints = [a for a in args if isinstance(a, Sym)]
        fds = [x for x in self.held(o) if x.live]
        accepted = [x for x in fds if x.where == 'accept()']
        for e in m.trace:
            if e.kind != 'sys':
                continue
            n, a = e.name, e.args
            ptr = {'bind': 1, 'connect': 1, 'sendto': 4, 'recvfrom': 4, 'accept': 1, 'accept4': 1}.get(n)
            if ptr is not None and n in ('bind', 'connect', 'sendto', 'recvfrom') and given:
                s = a[ptr].cell.v if isinstance(a[ptr], CellPtr) and isinstance(a[ptr].cell.v, Obj) else None
                want = endpoint_state(given[0].v)
                okk = s is not None and (s is want or n in ('bind', 'connect', 'sendto') and s.d.get('origin') == 'given' or
                                         n == 'recvfrom' and want is not None and want.d.get('origin') == s.d.get('origin'))
                if n == 'recvfrom' and e.failed:
                    okk = s is not None
                c.require(okk, key0 + '/address', where, '%s is not applied to the endpoint that was given' % n, how)
                ln = a[ptr + 1]
                lv = ln.cell.v if isinstance(ln, CellPtr) else ln
                size = {'IPv4': 16, 'IPv6': 28}[self.label]
                c.require(lin(lv) is not None and (lv == size or not isinstance(lv, int)), key0 + '/address-length', where,
                          '%s is given an address length of %r instead of %d' % (n, lv, size), how)
            if n in IO and bufs:
                same = isinstance(a[1], BufPtr) and a[1].buf.name == bufs[0].buf.name
                whole = same and (key(a[1].off) == 0 and ints and key(a[2]) == key(ints[0]) or
                                  ints and key(add(a[1].off, a[2])) == key(ints[0]) if same else False)
                c.require(bool(whole), key0 + '/bytes', where, '%s is not given the bytes the caller passed' % n, how)
            if n in IO and isinstance(a[0], Res) and accepted:
                c.require(a[0] in accepted, key0 + '/peer', where, '%s ignores the accepted connection' % n, how)
            if n == 'setsockopt' and e.d.get('option') and ints and len(args) == 1:
                vs = [v for v in e.d['option'].values()]
                c.require(any(key(v) == key(ints[0]) for v in vs), key0 + '/option', where,
                          '%s is not given the value that was passed' % n, how)
            if n == 'shutdown' and ints:
                c.require(key(a[1]) == key(ints[0]), key0 + '/argument', where, 'shutdown is not given the value that was passed', how)
        # what the socket remembers
        names = {'bind': 'src', 'connect': 'dst', 'accept': 'dst'}
        done = [e for e in m.trace if e.kind == 'sys' and e.name in names]
        if done:
            e = done[-1]
            get = [f for r, f in methods_of(self.P, rec) if f['n'] == names[e.name] and not f['params']]
            if get and (given or e.name == 'accept'):
                r = Machine(self.P, SysModel(False), lambda k: 0)
                r.stack.append(Frame({'qn': 'getter', 'params': [], 'ret': -1}, None))
                v = r.target(r.invoke(get[0], o, []))
                s = endpoint_state(v) if isinstance(v, Obj) else None
                org = s.d.get('origin') if s is not None else None
                if not e.failed and thrown is None:
                    okk = org == 'given' if e.name != 'accept' else str(org).startswith('peer')
                    c.require(okk, key0 + '/' + names[e.name], where, '%s() is not the endpoint after %s succeeded' % (names[e.name], e.name), how)
                elif e.failed:
                    c.require(org != 'given', key0 + '/' + names[e.name] + '-on-failure', where,
                              '%s() names the endpoint although %s failed' % (names[e.name], e.name), how)

    def open_rule(self, cls, rec, state, hist):
        c = self.c
        fs = [f for r, f in methods_of(self.P, rec) if f['n'] == 'is_open']
        if not fs:
            return
        for m, model, o, res, thrown in self.run(state, 'is_open', lambda m, o: m.invoke(fs[0], o, [])):
            live = any(r.live and r.where == 'socket()' for r in model.res)
            got = m.truth(res)
            c.require(got == live, cls + '.is_open/' + ('closed' if not live else 'open'), self.where(fs[0]),
                      'a socket that is %s reports itself as %s' % ('open' if live else 'closed', 'open' if got else 'not open'),
                      ' -> '.join(hist))

    def end(self, cls, rec, state, hist, where):
        """destruction from this state releases everything once"""
        c = self.c
        for m, model, o, res, thrown in self.run(state, 'destructor', lambda m, o: m.destroy(o)):
            if not self.common(cls, 'destructor', where, m, model, o, thrown, hist):
                continue
            left = [r for r in model.res if r.live]
            c.require(not left, cls + '.destructor/leak-' + (left[0].where if left else ''), where,
                      'destruction leaves the descriptor from %s open' % (left[0].where if left else ''), ' -> '.join(hist))
            c.require(thrown is None, cls + '.destructor/throws', where, 'the destructor throws', ' -> '.join(hist))

    def copies(self, cls, rec, ri, state, hist, where):
        """an owner cannot be duplicated into a second owner of the same descriptor"""
        c, P = self.c, self.P
        ways = []
        if ri['copyable']:
            ways.append('copy construction')
        if ri['copyassignable']:
            ways.append('copy assignment')
        mv = [x for x in ri['methods'] if x.get('ctor') == 'move' and not x['deleted']]
        if mv:
            ways.append('move construction')
        ma = [x for x in ri['methods'] if x.get('assign') == 'move' and not x['deleted']]
        if ma:
            ways.append('move assignment')
        if not ways:
            c.ok(cls + '/cannot be copied or moved', where)
        for w in ways:
            def body(m, o):
                if 'construction' in w:
                    x = m.copy_object(o, w.startswith('move'))
                else:
                    x = m.construct_default(self.tid(rec))
                    g = [f for f in P.methods.get((rec, 'operator='), []) if f.get('body') is not None and
                         P.ty(f['params'][0]['t']).get('rv', False) == w.startswith('move')]
                    if g:
                        m.invoke(g[0], x, [Cell(o, 'source')])
                    else:
                        m.assign_members(Cell(x), Cell(o), None)
                m.destroy(x)
                m.destroy(o)
                return x
            for m, model, o, res, thrown in self.run(state, w, body):
                if thrown is not None:
                    continue
                dbl = [e for e in m.trace if e.kind == 'double-close']
                use = [e for e in m.trace if e.kind == 'use-after-close']
                left = [r for r in model.res if r.live]
                tag = w.replace(' ', '-')
                c.require(not dbl and not use, '%s/%s' % (cls, tag), where, '%s makes a second owner of the descriptor: it is closed twice' % w, ' -> '.join(hist))
                c.require(not left, '%s/%s-leak' % (cls, tag), where, 'after %s and destruction a descriptor stays open' % w, ' -> '.join(hist))

    # -------------------------------------------------------------- endpoints
    def endpoints(self, rec):
        c, P = self.c, self.P
        cls = 'endpoint<%s>' % self.label
        dom, size = {'IPv4': (2, 16), 'IPv6': (10, 28)}[self.label]
        where = '%s:%s' % (rel(P.recs[rec]['file']), P.recs[rec]['line'])

        def field(s, suffix):
            for x in s.fields.values():
                if x.name.endswith(suffix):
                    return x.v
            return 0 if s.d.get('pod0') else None
        ip, port = Str(('given', 'ip')), Sym(('given', 'port'), 0, 65535)
        ctors = [f for f in self.P.fns.values() if f.get('rec') == rec and f.get('ctor') in ('default', 'other') and (f.get('body') is not None or f.get('inits'))]
        seen = 0
        for f in ctors:
            kinds = [P.ty(p['t']) for p in f['params']]
            kinds = [P.ty(t['pt']) if t['c'] == 'ref' else t for t in kinds]
            args = []
            hasip = hasport = False
            for t in kinds:
                if t.get('tn') in STRING:
                    args.append(Cell(ip))
                    hasip = True
                elif t['c'] == 'int':
                    args.append(port)
                    hasport = True
                else:
                    args = None
                    break
            if args is None:
                continue
            seen += 1

            def body(m, o):
                o = m.default_obj(rec)
                m.run_ctor(f, o, list(args))
                return o
            for m, model, _, o, thrown in self.run(None, cls, body):
                self.endpoint_rules(cls, '.constructor(%d)' % len(args), self.where(f), m, o, thrown, ip if hasip else None, port if hasport else 0, field, dom, size)
        if not seen:
            raise Broken('no constructor of ' + rec)
        c.count('endpoint constructors', seen)

        def base(m):
            return m.construct_default(self.tid(rec))
        for owner, f in methods_of(P, rec):
            if len(f['params']) != 1:
                continue
            t = P.ty(f['params'][0]['t'])
            t = P.ty(t['pt']) if t['c'] == 'ref' else t
            isip = t.get('tn') in STRING
            if not isip and t['c'] != 'int':
                continue

            def body(m, o):
                o = base(m)
                m.trace, m.decided = [], []
                box['o'] = o
                m.invoke(f, o, [Cell(ip) if isip else port])
                return o
            box = {}
            for m, model, _, o, thrown in self.run(None, f['n'], body):
                self.endpoint_rules(cls, '.' + f['n'], self.where(f), m, o, thrown, ip if isip else None, 0 if isip else port, field, dom, size)
                c.count('endpoint setters')
        for owner, f in methods_of(P, rec):
            if f['n'] == 'port' and not f['params']:
                def body(m, o):
                    o = base(m)
                    for g in [g for r, g in methods_of(P, rec) if g['n'] == 'port' and len(g['params']) == 1]:
                        m.invoke(g, o, [port])
                    return m.invoke(f, o, [])
                for m, model, _, r, thrown in self.run(None, 'port', body):
                    c.require(key(r) == key(port), cls + '.port/round-trip', self.where(f), 'port() returns %r, not the port that was set' % (r,))

    def endpoint_rules(self, cls, op, where, m, o, thrown, ip, port, field, dom, size):
        c = self.c
        pton = [e for e in m.trace if e.kind == 'sys' and e.name == 'inet_pton']
        bad = [e for e in pton if e.failed]
        how = self.path(m.decided)
        if bad:
            s = endpoint_state(o) if o is not None else None
            av = field(s, '_addr') if s is not None else None
            zero = av == 0 or isinstance(av, Obj) and bool(av.d.get('pod0'))
            if 'constructor' in op:
                c.require(thrown is not None, cls + op + '/bad-address', where, 'an address that cannot be parsed is not reported', how)
            else:
                c.require(thrown is not None or zero, cls + op + '/bad-address', where,
                          'an address that cannot be parsed is not reported and leaves something other than the unspecified address', how)
            return
        if thrown is not None:
            c.violation(cls + op + '/throws', where, 'fails for a valid address', how)
            return
        s = endpoint_state(o)
        if s is None:
            raise Broken('an endpoint without a socket address')
        c.require(field(s, '_family') == dom, cls + op + '/family', where, 'the address family is %r' % (field(s, '_family'),), how)
        pv = field(s, '_port')
        want = key(Sym(('swapped', port))) if isinstance(port, Sym) else 0
        got = key(pv)
        okp = got == want or not isinstance(port, Sym) and (pv == 0 or isinstance(pv, Sym) and pv.name == ('swapped', 0))
        c.require(okp, cls + op + '/port', where, 'the port is %r' % (pv,), how)
        empty = any(l.startswith("str") and v is True for l, v in m.decided)
        if ip is not None and not empty:
            c.require(len(pton) >= 1 and key(pton[-1].args[1]) == key(ip) and pton[-1].args[0] == dom, cls + op + '/parse', where,
                      'the given address is not parsed as an %s address' % self.label, how)
            av = field(s, '_addr')
            c.require(isinstance(av, Sym) and av.name == ('address', str(key(ip))), cls + op + '/address', where,
                      'the parsed address does not end up in the endpoint', how)
        for x in o.fields.values():
            if x.name.endswith('len') or 'socklen' in x.name:
                c.require(x.v == size, cls + op + '/length', where, 'the address length is %r instead of %d' % (x.v, size), how)


def check(c, item):
    label, dom = item
    src = os.path.join(VERIF, 'tus', 'sockets.cpp')
    try:
        P = dump(src, defs=['DOMAIN=' + dom])
    except Uncompilable as e:
        lines = [l for l in str(e).split('\n') if ' error: ' in l and '/include/vrtgen/socket' in l]
        if label == 'IPv6' and lines:
            l = lines[0]
            c.violation('IPv6/instantiation', rel(l.split(': error')[0]), 'the IPv6 socket and endpoint types cannot be used: ' + l.split('error: ')[1])
            return
        raise
    S = Sockets(c, P, label)
    recs = [r for r in P.recs if r.startswith(('vrtgen::socket::stream_socket<', 'vrtgen::socket::datagram_socket<'))]
    if len(recs) != 2:
        raise Broken('socket classes vanished: %r' % recs)
    for r in recs:
        S.explore_class(r)
    eps = [r for r in P.recs if r.startswith('vrtgen::socket::socket_endpoint<')]
    if not eps:
        raise Broken('endpoint class vanished')
    for r in eps[:1]:
        S.endpoints(r)
