"""Path-enumerating abstract interpreter over factdump facts, for code whose properties are about the order and pairing of
events (locks, handles, descriptors, sends) rather than about bits.

Every branch on something the source does not determine, and every way an external call can turn out, is a choice; `explore`
re-runs the function under a different outcome of some choice until all have been taken.  Values are concrete where the source makes them
so and opaque (Sym, Lin) otherwise; loops whose condition stays undetermined are followed a bounded number of rounds.  Nothing of the program
under analysis is executed.
"""
from fractions import Fraction


class Throw(Exception):
    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val


class Stop(Exception):
    """this path is infeasible or beyond the loop bound"""


class Blocked(Stop):
    """the thread sleeps in a wait that nothing in this exploration ends"""


class Unmodelled(Exception):
    """a construct the interpreter has no rule for"""


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


class _Ret(Exception):
    def __init__(self, v):
        self.v = v


# ------------------------------------------------------------------ values
class Val:
    pass


class Null(Val):
    def __repr__(self):
        return 'null'


NULL = Null()


class Void(Val):
    def __repr__(self):
        return 'void'


VOID = Void()


class Sym(Val):
    """opaque value; .lo/.hi bound it when it is a number"""
    n = 0

    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi

    def key(self):
        return ('sym', self.name)

    def __repr__(self):
        return '<%s>' % (self.name if isinstance(self.name, str) else '/'.join(str(x) for x in self.name))


class Lin(Val):
    """c + sum of coefficient * Sym"""

    def __init__(self, c, t):
        self.c, self.t = c, t              # t: {name: (Sym, coefficient)}

    def key(self):
        return ('lin', self.c, tuple(sorted(((str(k), v[1]) for k, v in self.t.items()))))

    def __repr__(self):
        return '+'.join([str(self.c)] + ['%d*%r' % (v[1], v[0]) for v in self.t.values()])


def lin(v):
    if isinstance(v, bool):
        return Lin(int(v), {})
    if isinstance(v, int):
        return Lin(v, {})
    if isinstance(v, Sym):
        return Lin(0, {v.name: (v, 1)})
    if isinstance(v, Lin):
        return v
    return None


def norm(l):
    t = {k: v for k, v in l.t.items() if v[1]}
    if not t:
        return l.c
    if l.c == 0 and len(t) == 1:
        s, k = list(t.values())[0]
        if k == 1:
            return s
    return Lin(l.c, t)


def add(a, b, m=1):
    a, b = lin(a), lin(b)
    if a is None or b is None:
        return None
    t = dict(a.t)
    for k, (s, c) in b.t.items():
        t[k] = (s, (t[k][1] if k in t else 0) + m * c)
    return norm(Lin(a.c + m * b.c, t))


def rng(v):
    v = lin(v)
    if v is None:
        return None, None
    lo = hi = v.c
    for s, c in v.t.values():
        a, b = (s.lo, s.hi) if c > 0 else (s.hi, s.lo)
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


class Str(Val):
    """a std::string value (or C string) known only by what it was built from"""

    def __init__(self, k):
        self.k = k

    def key(self):
        return ('str', self.k)

    def __repr__(self):
        return 'str%r' % (self.k,)


class Buffer(Val):
    """an array or vector of bytes"""
    n = 0

    def __init__(self, name, size, content=None):
        self.name, self.size, self.content = name, size, content
        self.writes = []             # (event index, content)

    def key(self):
        return ('buf', self.name)

    def __repr__(self):
        return 'buffer(%s)' % (self.name,)


class BufPtr(Val):
    def __init__(self, buf, off=0):
        self.buf, self.off = buf, off

    def key(self):
        return ('bp', self.buf.key(), key(self.off))

    def __repr__(self):
        return '%r+%r' % (self.buf, self.off)


class CellPtr(Val):
    def __init__(self, cell):
        self.cell = cell

    def key(self):
        return ('cp', id(self.cell))

    def __repr__(self):
        return '&%s' % (self.cell.name,)


class Span(Val):
    def __init__(self, ptr, n):
        self.ptr, self.n = ptr, n

    def key(self):
        return ('span', key(self.ptr), key(self.n))

    def __repr__(self):
        return 'span(%r, %r)' % (self.ptr, self.n)


class Res(Val):
    """a resource obtained from outside: handle or descriptor"""

    def __init__(self, kind, n, where=''):
        self.kind, self.n, self.where = kind, n, where
        self.live = True
        self.info = {}

    def key(self):
        return ('res', self.kind, self.n)

    def __repr__(self):
        return '%s#%s' % (self.kind, self.n)


class Obj(Val):
    """an object of class type.  Records of the repository have fields (name -> Cell); library types keep state in .d"""

    def __init__(self, ty, fields=None):
        self.ty = ty
        self.fields = fields if fields is not None else {}
        self.d = {}
        self.dead = False

    def __repr__(self):
        return '%s{%s}' % (self.ty.split('<')[0], ','.join('%s=%r' % kv for kv in list(self.d.items())[:4]))


class Fn(Val):
    """a function or a closure"""

    def __init__(self, fid, caps=None, this=None, f=None, cells=()):
        self.fid, self.caps, self.this, self.f, self.cells = fid, caps or {}, this, f, list(cells)

    def __repr__(self):
        return 'fn#%s' % self.fid


class Cell:
    """a memory location"""
    __slots__ = ('v', 'name', 'owner', 'ty')

    def __init__(self, v, name='', owner=None, ty=None):
        self.v, self.name, self.owner, self.ty = v, name, owner, ty


def key(v):
    if isinstance(v, (int, str, bool, type(None))):
        return v
    k = getattr(v, 'key', None)
    return k() if k else id(v)


class Event:
    __slots__ = ('kind', 'd', 'fn', 'line', 'file', 'locks', 'ctx')

    def __init__(self, kind, d, fn, line, file, locks, ctx):
        self.kind, self.d, self.fn, self.line, self.file, self.locks, self.ctx = kind, d, fn, line, file, locks, ctx

    def __getattr__(self, n):
        d = object.__getattribute__(self, 'd')
        if n in d:
            return d[n]
        raise AttributeError(n)

    def __repr__(self):
        return '%s(%s)@%s:%s' % (self.kind, ', '.join('%s=%r' % kv for kv in self.d.items()), self.fn, self.line)


class Frame:
    def __init__(self, fn, this):
        self.fn, self.this = fn, this
        self.env, self.caps = {}, {}
        self.scopes = [[]]
        self.temps = []


def explore(run, limit=20000):
    """run(choose) for every outcome of its choices; run returns anything.  Yields (result, choices taken).
    choose(n) -> 0..n-1"""
    prefix = []
    n = 0
    while True:
        taken = []

        def choose(k):
            i = len(taken)
            c = prefix[i] if i < len(prefix) else 0
            taken.append((c, k))
            return c
        res = run(choose)
        n += 1
        yield res, list(taken)
        if n >= limit:
            raise Unmodelled('more than %d paths' % limit)
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            return
        c, k = taken.pop()
        prefix = [x for x, _ in taken] + [c + 1]


STRING = {'std::basic_string', 'std::string', 'std::basic_string_view'}
SEQ = {'std::vector', 'std::array'}
IGNORED = {'std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::ostream', 'std::basic_ios'}


class Machine:
    """one path.  model: hooks (see Model)"""

    def __init__(self, prog, model, choose, rounds=2):
        self.p, self.m, self._choose = prog, model, choose
        self.rounds = rounds
        self.trace = []
        self.memo = {}
        self.signs = {}
        self.decided = []          # (label, outcome) for reports
        self.stack = []
        self.locks = []            # mutex cells held by the thread under analysis
        self.globals = {}
        self.serial = 0
        self.steps = 0
        self.ctx = 'main'
        self.unmodelled = []
        self.unwinding = 0

    # -------------------------------------------------------------- bookkeeping
    def fresh(self, hint='t'):
        self.serial += 1
        return '%s#%d' % (hint, self.serial)

    def sym(self, hint, lo=None, hi=None):
        return Sym(self.fresh(hint), lo, hi)

    def choose(self, label, options, k=None):
        """one of options; the same key always gets the same answer on a path"""
        if k is not None and k in self.memo:
            return self.memo[k]
        if len(options) == 1:
            r = options[0]
        else:
            r = options[self._choose(len(options))]
            self.decided.append((label, r))
        if k is not None:
            self.memo[k] = r
        return r

    def event(self, kind, **d):
        fr = self.stack[-1] if self.stack else None
        e = Event(kind, d, fr.fn['qn'] if fr else '', self.line, fr.fn.get('file', '') if fr else '', tuple(self.locks), self.ctx)
        self.trace.append(e)
        return e

    line = 0
    touched = None                 # ids of the fields evaluated

    # -------------------------------------------------------------- truth and numbers
    def sign(self, v, label=''):
        """-1, 0 or 1"""
        l = lin(v)
        if l is None:
            raise Unmodelled('sign of %r' % (v,))
        if not l.t:
            return (l.c > 0) - (l.c < 0)
        lo, hi = rng(l)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        flip = 1
        first = sorted(l.t.items(), key=lambda kv: str(kv[0]))[0][1][1]
        if first < 0:
            l = Lin(-l.c, {k: (s, -c) for k, (s, c) in l.t.items()})
            flip = -1
            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        opts = [s for s in (-1, 0, 1) if not (s < 0 and lo is not None and lo >= 0) and not (s > 0 and hi is not None and hi <= 0)]
        # what earlier answers about the same combination with another constant imply
        base = tuple(sorted((str(k), c) for k, (s, c) in l.t.items()))
        for c0, s0 in self.signs.get(base, ()):
            # base + c0 has sign s0; now base + l.c
            d = l.c - c0
            if s0 == 0:
                opts = [(d > 0) - (d < 0)]
            elif s0 > 0 and d >= 0:
                opts = [s for s in opts if s > 0]
            elif s0 < 0 and d <= 0:
                opts = [s for s in opts if s < 0]
        if not opts:
            raise Stop()
        s = self.choose(label or 'sign', opts, ('sign', l.key()))
        self.signs.setdefault(base, []).append((l.c, s))
        return flip * s

    def truth(self, v, label=''):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Null):
            return False
        if isinstance(v, (BufPtr, CellPtr, Fn, Str)):
            return True
        if isinstance(v, Res):
            return True
        if isinstance(v, (Sym, Lin)):
            lo, hi = rng(v)
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return True
            return self.choose(label or repr(v), [True, False], ('truth', key(v)))
        if isinstance(v, Obj):
            return self.obj_truth(v)
        raise Unmodelled('truth of %r' % (v,))

    def obj_truth(self, o):
        k = kind(o)
        if k in ('unique_ptr', 'shared_ptr'):
            return not isinstance(o.d['p'], Null)
        if k == 'optional':
            return self.has_value(o)
        if k == 'function':
            if o.d.get('fn') is None:
                return False
            return True if isinstance(o.d['fn'], Fn) else self.choose('callback set', [True, False], ('fnset', id(o)))
        if k == 'unique_lock':
            return o.d['owns']
        raise Unmodelled('truth of ' + o.ty)

    def has_value(self, o):
        if o.d['has'] not in (True, False):
            o.d['has'] = self.truth(o.d['has'])
        return o.d['has']

    def same(self, a, b, label=''):
        """is a == b"""
        if isinstance(a, (bool, int, Sym, Lin)) and isinstance(b, (bool, int, Sym, Lin)) and (lin(a) is not None and lin(b) is not None):
            return self.sign(add(a, b, -1), label) == 0
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Null):
                if isinstance(y, Null):
                    return True
                if isinstance(y, Sym):
                    return not self.truth(y)
                if isinstance(y, Obj):
                    return not self.obj_truth(y)
                return False
        ka, kb = key(a), key(b)
        if ka == kb:
            return True
        if isinstance(a, Res) and isinstance(b, (int, Res)) or isinstance(b, Res) and isinstance(a, int):
            return False
        if isinstance(a, Str) and isinstance(b, Str):
            return self.choose('strings equal', [True, False], ('streq',) + tuple(sorted((str(ka), str(kb)))))
        return self.choose(label or 'equal', [True, False], ('eq',) + tuple(sorted((str(ka), str(kb)))))

    # -------------------------------------------------------------- objects
    def tn(self, tid):
        t = self.p.ty(tid)
        if t['c'] == 'ref':
            t = self.p.ty(t['pt'])
        return t.get('tn', '')

    def make(self, tid, name='', init=True):
        """default value of a type"""
        t = self.p.ty(tid)
        c = t['c']
        if c == 'rec':
            if self.m.owns_record(self, t['rec']):
                return self.m.make_record(self, t['rec'], tid)
            if t['rec'] in self.p.recs:
                return self.default_obj(t['rec'])
            return self.lib_make(tid)
        if c == 'arr':
            return self.buffer(name or 'array', t['n'])
        return self.sym(name or 'uninitialised')

    def zero(self, tid):
        t = self.p.ty(tid)
        c = t['c']
        if c in ('int', 'enum'):
            return 0
        if c == 'bool':
            return False
        if c in ('ptr', 'nullptr'):
            return NULL
        if c == 'float':
            return 0
        if c == 'void':
            return VOID
        return self.make(tid)

    def buffer(self, name, size):
        return Buffer(self.fresh(name), size)

    def default_obj(self, rec, run_ctor=True):
        o = Obj(rec)
        o.d['fields'] = True
        for r in self.p.all_bases(rec)[::-1] + [rec]:
            ri = self.p.recs.get(r)
            for f in (ri['fields'] if ri else ()):
                o.fields[f['id']] = Cell(None, f['n'], o, f['t'])
        return o

    def init_fields(self, o, rec, frame, given=()):
        """default member initialisers of the fields of rec (bases excluded)"""
        ri = self.p.recs[rec]
        for f in ri['fields']:
            if f['id'] in given:
                continue
            c = o.fields[f['id']]
            if f.get('init') is not None:
                c.v = self.init_value(f['init'], f['t'], frame)
            else:
                t = self.p.ty(f['t'])
                c.v = self.construct_default(f['t']) if t['c'] in ('rec', 'arr') else self.sym('uninitialised ' + f['n'])

    def construct_default(self, tid):
        t = self.p.ty(tid)
        if t['c'] == 'rec' and t['rec'] in self.p.recs and not self.m.owns_record(self, t['rec']):
            cs = [f for f in self.p.methods.get((t['rec'], short(t['rec'])), []) if f.get('ctor') == 'default']
            o = self.default_obj(t['rec'])
            if cs:
                self.run_ctor(cs[0], o, [])
            else:
                for b in self.p.recs[t['rec']]['bases']:
                    self.construct_base(o, b['rec'], None)
                self.init_fields(o, t['rec'], self.stack[-1] if self.stack else None)
            return o
        return self.make(tid)

    def construct_base(self, o, rec, args):
        cs = [f for f in self.fns_of(rec) if f.get('ctor') == 'default']
        if cs:
            self.run_ctor(cs[0], o, [])
        elif rec in self.p.recs:
            for b in self.p.recs[rec]['bases']:
                self.construct_base(o, b['rec'], None)
            self.init_fields(o, rec, self.stack[-1])

    def fns_of(self, rec):
        return [f for (r, n), fs in self.p.methods.items() if r == rec for f in fs]

    def lib_make(self, tid):
        t = self.p.ty(tid)
        tn = t.get('tn', '')
        n = tn.split('::')[-1]
        if tn in STRING:
            return Str('')
        if tn == 'std::array':
            size = t['ta'][1].get('i') if len(t.get('ta', ())) > 1 else None
            return self.buffer('array', int(size) if size else self.sym('size'))
        if tn == 'std::vector':
            return self.buffer('vector', 0)
        if tn == 'std::span':
            return Span(NULL, 0)
        o = Obj(t.get('rec', tn))
        o.d['tid'] = tid
        if n in ('unique_ptr', 'shared_ptr'):
            o.d['p'] = NULL
        elif n == 'optional':
            o.d.update(has=False, cell=Cell(None, 'value', o))
        elif n == 'tuple' or n == 'pair':
            o.d['items'] = [Cell(self.zero(a['t']) if self.p.ty(a['t'])['c'] != 'ref' else None, 'element', o, a['t']) for a in flat(t.get('ta', ()))]
        elif n in ('queue', 'deque', 'list'):
            o.d['q'] = []
        elif n in ('thread', 'jthread'):
            o.d['joinable'] = False
        elif n in ('atomic', '__atomic_base', 'atomic_bool', 'atomic_flag'):
            o.d['cell'] = Cell(False, 'atomic', o)
        elif n == 'function':
            o.d['fn'] = None
        elif n in ('unique_lock',):
            o.d.update(m=None, owns=False)
        elif n in ('duration', 'time_point'):
            return self.sym('duration')
        return o

    # -------------------------------------------------------------- destruction
    def destroy(self, v, why=''):
        if not isinstance(v, Obj) or v.dead:
            return
        v.dead = True
        if self.m.destroy(self, v):
            return
        k = kind(v)
        if v.d.get('fields'):
            self.destroy_record(v, v.ty)
            return
        if k in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'):
            if k != 'unique_lock' or v.d['owns']:
                for m in (v.d['ms'] if 'ms' in v.d else [v.d['m']]):
                    self.unlock(m)
        elif k == 'unique_ptr':
            p = v.d['p']
            if isinstance(p, CellPtr):
                self.delete(p, v)
        elif k == 'optional':
            if v.d['has'] is True and v.d['cell'].v is not None:
                self.destroy(v.d['cell'].v)
        elif k in ('tuple', 'pair'):
            for c in v.d['items'][::-1]:
                if c is not None and self.p.ty(c.ty)['c'] != 'ref' if c is not None and c.ty is not None else c is not None:
                    self.destroy(c.v)
        elif k in ('queue', 'deque', 'vector', 'list'):
            for x in v.d.get('q', ()):
                self.destroy(x)
        elif k == 'thread':
            if v.d['joinable']:
                self.event('terminate', what='a thread that is still joinable is destroyed')
        elif k == 'jthread':
            if v.d['joinable']:
                self.event('join', thread=v)
        elif k == 'future':
            self.event('join', thread=v)
        elif k == 'function':
            pass

    def destroy_record(self, o, rec):
        ds = [f for f in self.fns_of(rec) if f.get('dtor')]
        if ds and ds[0].get('body') is not None:
            self.unwinding += 1
            try:
                self.invoke(ds[0], o, [])
            finally:
                self.unwinding -= 1
        self.event('dtor-end', rec=rec, obj=o)
        ri = self.p.recs.get(rec)
        if ri:
            for f in ri['fields'][::-1]:
                c = o.fields[f['id']]
                self.event('field-dtor', cell=c)
                self.destroy(c.v)
            for b in ri['bases'][::-1]:
                self.destroy_record(o, b['rec'])

    def delete(self, p, owner=None):
        dele = owner.d.get('deleter') if owner is not None else None
        if dele is not None:
            self.call_value(dele, [p])
            return
        if isinstance(p, CellPtr):
            self.destroy(p.cell.v)

    # -------------------------------------------------------------- locks
    def lock(self, *mcells):
        """acquire; several at once are acquired without a fixed order (std::lock)"""
        held = tuple(self.locks)
        for mcell in mcells:
            if any(m is mcell for m in self.locks):
                self.event('relock', mutex=mcell)
            self.locks.append(mcell)
            self.event('lock', mutex=mcell, held=held)

    def unlock(self, mcell):
        for i in range(len(self.locks) - 1, -1, -1):
            if self.locks[i] is mcell:
                del self.locks[i]
                self.event('unlock', mutex=mcell)
                return
        self.event('unlock-not-held', mutex=mcell)

    # -------------------------------------------------------------- memory
    def read(self, c):
        if c.owner is not None:
            self.event('read', cell=c)
        v = self.m.read(self, c)
        if v is not None:
            return v
        if c.v is None:
            c.v = self.sym('undefined ' + c.name)
        return c.v

    def write(self, c, v):
        old = c.v
        c.v = v
        if c.owner is not None:
            self.event('write', cell=c, value=v, old=old)
        self.m.written(self, c, old, v)

    # -------------------------------------------------------------- expressions
    def ev(self, e):
        self.steps += 1
        if self.steps > 400000:
            raise Unmodelled('too many steps')
        if e.get('l'):
            self.line = e['l']
        f = getattr(self, 'e_' + e['k'], None)
        if f is None:
            raise Unmodelled('expression ' + e['k'])
        return f(e)

    def isgl(self, e):
        return e.get('lv') or e.get('xv') or e['k'] == 'mat'

    def rv(self, e):
        v = self.ev(e)
        if self.isgl(e):
            if isinstance(v, Cell):
                return self.read(v)
            return v
        return v

    def lv(self, e):
        """a Cell (temporaries are materialised)"""
        v = self.ev(e)
        if isinstance(v, Cell):
            return v
        c = Cell(v, 'temporary')
        if self.stack:
            self.stack[-1].temps.append(c)
        return c

    def fr(self):
        return self.stack[-1]

    def e_const(self, e):
        t = self.p.ty(e['t'])
        if 'v' in e:
            n = int(e['v'])
            return bool(n) if t['c'] == 'bool' else n
        if 'fv' in e:
            return self.sym('float')
        return self.sym('constant')

    def e_str(self, e):
        return Str(('lit', e['v']))

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.zero(e['t'])

    def e_this(self, e):
        t = self.fr().this
        return CellPtr(t.d['self']) if isinstance(t, Obj) and 'self' in t.d else self.this_ptr(t)

    def this_ptr(self, o):
        if not isinstance(o, Obj):
            return o
        if 'self' not in o.d:
            o.d['self'] = Cell(o, 'this')
        return CellPtr(o.d['self'])

    def e_ref(self, e):
        fr = self.fr()
        c = fr.env.get(e['id'])
        if c is None:
            c = fr.caps.get(e['id'])
        if c is None:
            c = self.globals.get(e['id'])
        if c is None:
            v = None
            if e.get('ginit') is not None:
                v = self.ev(e['ginit'])
                if isinstance(v, Cell):
                    v = v.v
            if v is None:
                t = self.p.ty(e['t'])
                n = e.get('global', e.get('n', ''))
                if t['c'] == 'rec':
                    v = self.lib_make(e['t']) if t['rec'] not in self.p.recs else self.default_obj(t['rec'])
                    if isinstance(v, Str):
                        v = Str(('global', n))
                    elif isinstance(v, Obj):
                        v.d['global'] = n
                else:
                    v = Sym(('global', n))
            c = Cell(v, e.get('n', ''), None, e['t'])
            if e.get('global'):
                c.name = e['global']
            self.globals[e['id']] = c
        if e.get('global'):
            self.static_access(e, c)
        return c

    def static_access(self, e, c):
        if not self.p.ty(e['t']).get('const') and e.get('ginit') is None and not e.get('tls'):
            self.event('static', name=e['global'], type=self.p.ty(e['t'])['s'], cell=c)

    def e_fref(self, e):
        return Fn(e['f']['id'], f=e['f'])

    def e_memf(self, e):
        return Fn(e['f']['id'], f=e['f'])

    def e_mem(self, e):
        if 'global' in e:
            self.ev(e['b'])
            c = self.globals.get(e['id'])
            if c is None:
                v = self.ev(e['ginit']) if e.get('ginit') is not None else None
                if isinstance(v, Cell):
                    v = v.v
                c = self.globals[e['id']] = Cell(Sym(('global', e['global'])) if v is None else v, e['global'])
            self.static_access(e, c)
            return c
        b = self.rv(e['b']) if e.get('arrow') else self.lv(e['b'])
        o = self.target(b)
        if isinstance(o, Obj) and e['id'] in o.fields:
            if self.touched is not None:
                self.touched.add(e['id'])
            c = o.fields[e['id']]
            info = self.p.fieldinfo.get(e['id'])
            if info and self.p.ty(info[1]['t'])['c'] == 'ref' and isinstance(c.v, Cell):
                return c.v
            return c
        r = self.m.member(self, o, e)
        if r is not None:
            return r
        if isinstance(o, Obj):
            if e['id'] not in o.fields:
                o.fields[e['id']] = Cell(self.zero(e['t']) if o.d.get('pod0') else Sym(('field', self.fresh(e['n']))), e['n'], o, e['t'])
            return o.fields[e['id']]
        if isinstance(o, (Sym, Null)):
            if isinstance(o, Null):
                self.event('null-deref', what=e['n'])
            return Cell(self.sym(e['n']), e['n'])
        raise Unmodelled('member %s of %r' % (e['n'], o))

    def target(self, b):
        """object behind a cell or pointer"""
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, CellPtr):
            b = b.cell.v
        if isinstance(b, Cell):
            b = b.v
        return b

    def e_mat(self, e):
        v = self.ev(e['e'])
        if isinstance(v, Cell):
            if e['e'].get('lv') or e['e'].get('xv'):
                return v
            v = v.v
        c = Cell(v, 'temporary', None, e['t'])
        self.fr().temps.append(c)
        return c

    def e_stdinit(self, e):
        return self.ev(e['e'])

    def e_init(self, e):
        t = self.p.ty(e['t'])
        if t['c'] == 'rec':
            tn = t.get('tn', '')
            if t['rec'] in self.p.recs:
                o = self.default_obj(t['rec'])
                ri = self.p.recs[t['rec']]
                ms = list(ri['fields'])
                if ri['bases']:
                    raise Unmodelled('aggregate with bases')
                for f, x in zip(ms, e['a']):
                    o.fields[f['id']].v = self.ev(x) if self.p.ty(f['t'])['c'] == 'ref' else self.init_value(x, f['t'], self.fr())
                for f in ms[len(e['a']):]:
                    o.fields[f['id']].v = self.zero(f['t'])
                return o
            for x in e['a']:
                if tn not in SEQ:
                    self.rv(x)
            v = self.lib_make(e['t'])
            if isinstance(v, Obj) and not v.d.get('tid'):
                v.d['pod0'] = True
            elif isinstance(v, Obj) and kind(v) not in KNOWN:
                v.d['pod0'] = True
            return v
        if t['c'] == 'arr':
            for x in e['a'][:64]:
                self.rv(x)
            return self.buffer('array', t['n'])
        if e['a']:
            return self.rv(e['a'][0])
        return self.zero(e['t'])

    def e_lambda(self, e):
        caps, this, own = {}, None, []
        fr = self.fr()
        for c in e['cap']:
            if c.get('this'):
                this = fr.this
                continue
            if 'id' not in c:
                continue
            src = fr.env.get(c['id']) or fr.caps.get(c['id'])
            if c.get('byref'):
                if src is None and c.get('e'):
                    src = self.lv(c['e'])
                caps[c['id']] = src
            else:
                v = self.rv(c['e']) if c.get('e') else (self.read(src) if src is not None else self.sym('capture'))
                cell = Cell(v, c.get('n', 'capture'))
                own.append(cell)
                caps[c['id']] = cell
        return Fn(e.get('f'), caps, this, cells=own)

    def e_throw(self, e):
        v = self.rv(e['e']) if e.get('e') else None
        ty = v.ty if isinstance(v, Obj) else 'exception'
        self.event('throw', type=ty)
        raise Throw(ty, v)

    def e_new(self, e):
        v = self.rv(e['e']) if e.get('e') else self.make(e['at'])
        return CellPtr(Cell(v, 'heap'))

    def e_delete(self, e):
        p = self.rv(e['e'])
        self.delete(p)
        return VOID

    def e_opaque(self, e):
        out = None
        for x in e.get('a') or []:
            if isinstance(x, dict):
                out = self.rv(x)
        if isinstance(e.get('e'), dict):
            out = self.rv(e['e'])
        if e.get('why') == 'arrayinitloop':
            return out
        return self.value_of_type(e['t'], e.get('why', 'opaque'))

    def value_of_type(self, tid, hint):
        t = self.p.ty(tid)
        if t['c'] == 'void':
            return VOID
        if t['c'] == 'ref':
            return Cell(self.value_of_type(t['pt'], hint), hint)
        if t['c'] == 'rec':
            v = self.make(tid)
            if isinstance(v, Str):
                return Str(('of', self.fresh(hint)))
            if isinstance(v, Buffer):
                v.size = self.sym('size')
            return v
        if t['c'] == 'int' and not t.get('sg'):
            return self.sym(hint, 0, None)
        return self.sym(hint)

    def e_cond(self, e):
        c = self.truth(self.rv(e['c']), 'condition')
        return self.ev(e['a'] if c else e['b'])

    def e_idx(self, e):
        a, b = self.rv(e['a']), self.rv(e['b'])
        if isinstance(a, BufPtr):
            return Cell(self.sym('byte', 0, 255), 'element')
        return Cell(self.sym('element'), 'element')

    def e_un(self, e):
        op, x = e['op'], e['e']
        if op == '&':
            if x['k'] in ('fref', 'memf'):
                return self.ev(x)
            v = self.ev(x)
            if isinstance(v, Cell):
                if isinstance(v.v, Obj) and v.v.d.get('self') is None and not isinstance(v.v, Fn):
                    v.v.d['self'] = v
                return CellPtr(v)
            if isinstance(v, Fn):
                return v
            return CellPtr(self.lv(x))
        if op == '*':
            v = self.rv(x)
            if isinstance(v, Fn):
                return v
            if isinstance(v, CellPtr):
                return v.cell
            if isinstance(v, Null):
                self.event('null-deref', what='*')
            return Cell(self.sym('pointee'), 'pointee')
        if op in ('++', '--'):
            c = self.lv(x)
            old = self.read(c)
            d = 1 if op == '++' else -1
            new = self.arith('+', old, d, e['t'])
            self.write(c, new)
            return old if e.get('post') else (c if e.get('lv') else new)
        v = self.rv(x)
        if op == '!':
            return not self.truth(v)
        if op == '-':
            r = add(0, v, -1) if lin(v) is not None else None
            return r if r is not None else self.sym('negated')
        if op == '+':
            return v
        if op == '~':
            return ~v if isinstance(v, int) else self.sym('complement')
        raise Unmodelled('operator ' + op)

    def e_bin(self, e):
        op = e['op']
        if op == ',':
            x = self.ev(e['a'])
            return self.ev(e['b'])
        if op == '&&':
            return self.truth(self.rv(e['a'])) and self.truth(self.rv(e['b']))
        if op == '||':
            return self.truth(self.rv(e['a'])) or self.truth(self.rv(e['b']))
        if e.get('assign'):
            if op == '=':
                v = self.rv(e['b'])
                c = self.lv(e['a'])
                self.write(c, v)
                return c
            c = self.lv(e['a'])
            old = self.read(c)
            b = self.rv(e['b'])
            self.write(c, self.wrap(self.arith(op[:-1], old, b, e.get('ct', e['t'])), e['a']['t']))
            return c
        a, b = self.rv(e['a']), self.rv(e['b'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e['t'])

    def compare(self, op, a, b):
        if op in ('==', '!='):
            return self.same(a, b) == (op == '==')
        if isinstance(a, Res) or isinstance(b, Res):          # descriptors are not negative
            if isinstance(a, Res) and isinstance(b, int) and b <= 0:
                return op in ('>', '>=') if not (b == 0 and op == '>') else self.truth(self.sym('cmp'))
            if isinstance(b, Res) and isinstance(a, int) and a <= 0:
                return op in ('<', '<=')
            return self.truth(self.sym('cmp'))
        if isinstance(a, BufPtr) and isinstance(b, BufPtr) and a.buf is b.buf:
            a, b = a.off, b.off
        if lin(a) is None or lin(b) is None:
            return self.truth(Sym(('cmp', op, str(key(a)), str(key(b)))))
        s = self.sign(add(a, b, -1), '%r %s %r' % (a, op, b))
        return {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0}[op]

    def arith(self, op, a, b, tid):
        if isinstance(a, BufPtr) and lin(b) is not None and op in '+-':
            return BufPtr(a.buf, add(a.off, b, 1 if op == '+' else -1))
        if isinstance(b, BufPtr) and op == '+':
            return BufPtr(b.buf, add(b.off, a))
        if isinstance(a, BufPtr) and isinstance(b, BufPtr) and op == '-' and a.buf is b.buf:
            return add(a.off, b.off, -1)
        la, lb = lin(a), lin(b)
        if la is not None and lb is not None:
            if op == '+':
                return add(a, b)
            if op == '-':
                return add(a, b, -1)
            if not la.t and not lb.t:
                x, y = la.c, lb.c
                try:
                    return {'*': lambda: x * y, '/': lambda: int(Fraction(x, y)), '%': lambda: x - y * int(Fraction(x, y)),
                            '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
                except (KeyError, ZeroDivisionError):
                    pass
            if op == '*' and (not la.t or not lb.t):
                l, k = (lb, la.c) if not la.t else (la, lb.c)
                return norm(Lin(l.c * k, {n: (s, c * k) for n, (s, c) in l.t.items()}))
        return self.value_of_type(tid, 'arith')

    def wrap(self, v, tid):
        t = self.p.ty(tid)
        if t['c'] == 'int' and isinstance(v, int) and not isinstance(v, bool):
            w = t['w']
            v &= (1 << w) - 1
            if t.get('sg') and v >> (w - 1):
                v -= 1 << w
        return v

    PASS = {'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast', 'ConstructorConversion',
            'UserDefinedConversion', 'FunctionToPointerDecay', 'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'BuiltinFnToFnPtr'}

    def e_cast(self, e):
        ck, x = e['ck'], e['e']
        if ck == 'LValueToRValue':
            v = self.ev(x)
            return self.read(v) if isinstance(v, Cell) else v
        if ck in self.PASS:
            return self.ev(x)
        if ck == 'ArrayToPointerDecay':
            v = self.ev(x)
            if isinstance(v, Cell):
                v = v.v
            return BufPtr(v) if isinstance(v, Buffer) else v
        v = self.rv(x)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                return self.wrap(v, e['t'])
            t, ft = self.p.ty(e['t']), self.p.ty(x['t'])
            lo, hi = rng(v) if lin(v) is not None else (0, 0)
            if not t.get('sg', True) and t['c'] == 'int' and ft.get('sg') and (lo is None or lo < 0):
                if self.sign(v, '%r < 0' % (v,)) < 0:
                    return Sym(('wrapped', str(key(v))), 1 << (t.get('w', 32) - 1), 1 << t.get('w', 32))
            return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean', 'FloatingToBoolean'):
            return self.truth(v)
        if ck in ('NullToPointer', 'NullToMemberPointer'):
            return NULL
        if ck == 'ToVoid':
            return VOID
        if ck in ('IntegralToPointer', 'PointerToIntegral'):
            return v
        return self.value_of_type(e['t'], 'cast')

    # -------------------------------------------------------------- calls
    def arg(self, x, pt):
        """argument for a parameter of type pt: Cell for references, value otherwise"""
        if self.p.ty(pt)['c'] == 'ref':
            return self.lv(x)
        return self.init_value(x, pt, self.fr())

    def init_value(self, x, tid, frame):
        """value that initialises a new object of type tid"""
        pushed = False
        if frame is not None and (not self.stack or self.stack[-1] is not frame):
            self.stack.append(frame)
            pushed = True
        try:
            if self.p.ty(tid)['c'] == 'ref':
                return self.lv(x)
            v = self.rv(x)
            if self.isgl(x):
                v = self.copy_value(v)
            return v
        finally:
            if pushed:
                self.stack.pop()

    def copy_value(self, v):
        return v

    def e_call(self, e):
        f = e.get('f')
        if f is None:
            fn = self.rv(e['ce'])
            args = [self.lv(x) if x.get('lv') else self.rv(x) for x in e['a']]
            return self.call_value(fn, args, e)
        obj = None
        if 'obj' in e:
            if e.get('arrow'):
                obj = self.rv(e['obj'])
                if isinstance(obj, Null):
                    self.event('null-deref', what=f['n'])
                    raise Stop()
                if isinstance(obj, CellPtr):
                    obj = obj.cell
            else:
                obj = self.lv(e['obj']) if self.isgl(e['obj']) else self.lv(e['obj'])
        line = e.get('l', 0)
        # closures and local functions
        o = self.target(obj) if obj is not None else None
        if isinstance(o, Fn) and f['n'] == 'operator()':
            fn = self.p.fns.get(f['id'])
            if fn is not None and fn.get('body') is not None:
                args = [self.arg(x, fn['params'][i]['t']) for i, x in enumerate(e['a'])]
                self.line = line
                return self.invoke(fn, o.this, args, o.caps)
            return self.call_value(o, [self.lv(x) if x.get('lv') else self.rv(x) for x in e['a']], e)
        r = self.m.call(self, e, f, obj)
        if r is not None:
            return r
        fn = self.p.fns.get(f['id'])
        if fn is not None and obj is not None and f.get('virtual') and not e.get('qualified') and isinstance(o, Obj) and o.d.get('fields'):
            fn = self.override(fn, o.ty) or fn
        if fn is not None and fn.get('body') is not None and not self.is_std(f):
            args = [self.arg(x, fn['params'][i]['t'] if i < len(fn['params']) else x['t']) for i, x in enumerate(e['a'])]
            self.line = line
            this = o
            return self.invoke(fn, this, args)
        if fn is not None and fn.get('defaulted') and obj is not None and f['n'] == 'operator=':
            return self.assign_members(obj, self.lv(e['a'][0]), fn)
        if obj is not None and f['n'] == 'operator=' and isinstance(o, Obj) and o.d.get('fields'):
            return self.assign_members(obj, self.lv(e['a'][0]), None)
        return self.lib_call(e, f, obj)

    def assign_members(self, dst, src, fn):
        a, b = self.target(dst), self.target(src)
        if isinstance(a, Obj) and isinstance(b, Obj):
            for k, c in a.fields.items():
                if k in b.fields:
                    v = b.fields[k].v
                    if isinstance(v, Obj) and v.d.get('fields') and isinstance(c.v, Obj):
                        m = [x for x in self.fns_of(v.ty) if x['n'] == 'operator=' and x.get('body') is not None]
                        self.assign_members(c, b.fields[k], None) if not m else self.invoke(m[0], c.v, [b.fields[k]])
                    else:
                        self.write(c, self.lib_copy(v))
        return dst

    def is_std(self, f):
        return f['qn'].startswith('std::') or f['qn'].startswith('__gnu')

    def override(self, fn, rec):
        for r in [rec] + self.p.all_bases(rec):
            for g in self.p.methods.get((r, fn['n']), []):
                if g.get('body') is not None and len(g['params']) == len(fn['params']) and not g.get('pure'):
                    if r == fn.get('rec') or fn.get('rec') in self.p.all_bases(r) or r in self.p.all_bases(fn.get('rec', '')):
                        return g
        return None

    def call_value(self, fn, args, e=None):
        if isinstance(fn, Cell):
            fn = fn.v
        if isinstance(fn, CellPtr):
            fn = fn.cell.v
        if isinstance(fn, Obj) and kind(fn) == 'function':
            self.event('callback', fn=fn, args=args)
            if 'fn' in fn.d and fn.d['fn'] is None:
                self.event('empty-call')
                raise Throw('std::bad_function_call')
            fn = fn.d.get('fn')
        if isinstance(fn, Fn):
            fi = self.p.fns.get(fn.fid)
            if fi is not None and fi.get('body') is not None:
                this = fn.this
                if fi.get('rec') and not fi.get('static') and this is None and args and not fn.caps:
                    t = args[0]
                    this = self.target(t)
                    args = args[1:]
                out = []
                for p, a in zip(fi['params'], args):
                    if self.p.ty(p['t'])['c'] == 'ref':
                        out.append(a if isinstance(a, Cell) else Cell(a, 'argument'))
                    else:
                        out.append(a.v if isinstance(a, Cell) else a)
                return self.invoke(fi, this, out, fn.caps)
            if fn.f is not None:
                r = self.m.extern(self, fn.f['n'], fn.f, [a.v if isinstance(a, Cell) else a for a in args], {'t': fn.f['ret'], 'l': self.line, 'a': []})
                if r is not None:
                    return r
        r = self.m.call_unknown(self, fn, args)
        if r is not None:
            return r
        return self.value_of_type(e['t'], 'indirect') if e else self.sym('indirect')

    def invoke(self, fn, this, args, caps=None):
        if len(self.stack) > 60:
            raise Unmodelled('recursion')
        fr = Frame(fn, this)
        fr.caps = caps or {}
        for p, a in zip(fn['params'], args):
            if self.p.ty(p['t'])['c'] == 'ref':
                fr.env[p['id']] = a if isinstance(a, Cell) else Cell(a, p['n'])
            else:
                c = Cell(a.v if isinstance(a, Cell) else a, p['n'], None, p['t'])
                fr.env[p['id']] = c
                fr.scopes[0].append(c)
        self.stack.append(fr)
        line = self.line
        ret = VOID
        try:
            try:
                self.ex(fn['body'])
            except _Ret as r:
                ret = r.v
            self.leave(fr)
        except Throw:
            self.leave(fr)
            raise
        finally:
            self.stack.pop()
            self.line = line
        return ret

    def leave(self, fr, depth=0):
        while len(fr.scopes) > depth:
            for c in fr.scopes.pop()[::-1]:
                self.destroy(c.v)

    # constructors
    def e_ctor(self, e):
        f = e['f']
        t = self.p.ty(e['t'])
        rec = e.get('rec')
        r = self.m.construct(self, e, f, rec)
        if r is not None:
            return r
        if rec in self.p.recs:
            fn = self.p.fns.get(f['id'])
            o = self.default_obj(rec)
            if fn is not None and (fn.get('body') is not None or fn.get('inits')):
                args = [self.arg(x, fn['params'][i]['t']) if i < len(fn['params']) else self.rv(x) for i, x in enumerate(e['a'])]
                self.run_ctor(fn, o, args)
                return o
            if e['ck'] in ('copy', 'move'):
                src = self.target(self.lv(e['a'][0]))
                self.copy_members(o, src, e['ck'] == 'move')
                return o
            for b in self.p.recs[rec]['bases']:
                self.construct_base(o, b['rec'], None)
            self.init_fields(o, rec, self.fr() if self.stack else None)
            return o
        return self.lib_ctor(e, f, t)

    def copy_members(self, o, src, move=False):
        for k, c in o.fields.items():
            if k in src.fields:
                v = src.fields[k].v
                if isinstance(v, Obj) and v.d.get('fields'):
                    c.v = self.copy_object(v, move)
                else:
                    c.v = self.lib_move(src.fields[k]) if move else self.lib_copy(v)

    def copy_object(self, v, move=False):
        for g in self.fns_of(v.ty):
            if g.get('ctor') == ('move' if move else 'copy') and (g.get('body') is not None and (g.get('inits') or g['body'].get('s'))):
                o = self.default_obj(v.ty)
                self.run_ctor(g, o, [Cell(v, 'source')])
                return o
        o = self.default_obj(v.ty)
        self.copy_members(o, v, move)
        return o

    def run_ctor(self, fn, o, args):
        fr = Frame(fn, o)
        for p, a in zip(fn['params'], args):
            if self.p.ty(p['t'])['c'] == 'ref':
                fr.env[p['id']] = a if isinstance(a, Cell) else Cell(a, p['n'])
            else:
                c = Cell(a.v if isinstance(a, Cell) else a, p['n'], None, p['t'])
                fr.env[p['id']] = c
                fr.scopes[0].append(c)
        self.stack.append(fr)
        line = self.line
        done = []               # constructed subobjects, for unwinding
        rec = fn['rec']
        ri = self.p.recs[rec]
        try:
            inits = fn.get('inits') or []
            if any(i.get('deleg') for i in inits):
                i = [i for i in inits if i.get('deleg')][0]
                x = i['e']
                g = self.p.fns.get(x['f']['id'])
                if g is None:
                    raise Unmodelled('delegating constructor')
                self.run_ctor(g, o, [self.arg(y, g['params'][k]['t']) for k, y in enumerate(x['a'])])
                done.append(('self', rec))
            else:
                bases = {i['base']: i for i in inits if i.get('base')}
                for b in ri['bases']:
                    i = bases.get(b['rec'])
                    if i is not None and i['e'] is not None and i['e'].get('k') == 'ctor':
                        g = self.p.fns.get(i['e']['f']['id'])
                        if g is not None and (g.get('body') is not None or g.get('inits')):
                            self.run_ctor(g, o, [self.arg(y, g['params'][k]['t']) for k, y in enumerate(i['e']['a'])])
                        elif i['e']['ck'] in ('copy', 'move'):
                            src = self.target(self.lv(i['e']['a'][0]))
                            for ff in self.p.recs[b['rec']]['fields']:
                                v = src.fields[ff['id']].v
                                o.fields[ff['id']].v = self.copy_object(v) if isinstance(v, Obj) and v.d.get('fields') else self.lib_copy(v)
                        else:
                            self.construct_base(o, b['rec'], None)
                    else:
                        self.construct_base(o, b['rec'], None)
                    done.append(('base', b['rec']))
                fields = {i['id']: i for i in inits if i.get('field') is not None}
                for f in ri['fields']:
                    i = fields.get(f['id'])
                    c = o.fields[f['id']]
                    if i is not None and i['e'] is not None:
                        c.v = self.init_value(i['e'], f['t'], fr)
                        if isinstance(c.v, Cell) and self.p.ty(f['t'])['c'] != 'ref':
                            c.v = c.v.v
                    elif f.get('init') is not None:
                        c.v = self.init_value(f['init'], f['t'], fr)
                    else:
                        tt = self.p.ty(f['t'])
                        c.v = self.construct_default(f['t']) if tt['c'] in ('rec', 'arr') else self.sym('uninitialised ' + f['n'])
                    self.end_full()
                    done.append(('field', f['id']))
            self.event('constructed', obj=o)
            if fn.get('body') is not None:
                try:
                    self.ex(fn['body'])
                except _Ret:
                    pass
            self.leave(fr)
        except Throw:
            self.leave(fr)
            for k, x in done[::-1]:
                if k == 'field':
                    self.destroy(o.fields[x].v)
                else:
                    self.destroy_record(o, x)
            raise
        finally:
            self.stack.pop()
            self.line = line

    # -------------------------------------------------------------- statements
    def end_full(self, keep=None):
        """temporaries die at the end of the full expression"""
        fr = self.stack[-1]
        ts, fr.temps = fr.temps, []
        for c in ts[::-1]:
            if c is not keep:
                self.destroy(c.v)

    def ex(self, s):
        if s is None:
            return
        self.steps += 1
        if s.get('l'):
            self.line = s['l']
        f = getattr(self, 's_' + s['k'], None)
        if f is None:
            raise Unmodelled('statement ' + s['k'] + ' ' + s.get('why', ''))
        f(s)

    def scoped(self, body):
        fr = self.stack[-1]
        d = len(fr.scopes)
        fr.scopes.append([])
        try:
            body()
        except (_Brk, _Cont, _Ret):
            self.leave(fr, d)
            raise
        except Throw:
            ts, fr.temps = fr.temps, []
            for c in ts[::-1]:
                self.destroy(c.v)
            self.leave(fr, d)
            raise
        self.leave(fr, d)

    def s_block(self, s):
        def body():
            for x in s['s']:
                self.ex(x)
        self.scoped(body)

    def s_null(self, s):
        pass

    def s_expr(self, s):
        v = self.ev(s['e'])
        if isinstance(v, Obj) and not self.isgl(s['e']):
            self.destroy(v)
        self.end_full()

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.stack[-1]
        t = self.p.ty(v['t'])
        init = v.get('init')
        if v.get('static'):
            if v['id'] in self.globals:
                return
            self.globals[v['id']] = Cell(self.rv(init) if init else self.zero(v['t']), v['n'])
            return
        if t['c'] == 'ref' and not v.get('bind'):
            c = self.lv(init)
            fr.env[v['id']] = c
            if any(x is c for x in fr.temps):
                fr.temps = [x for x in fr.temps if x is not c]
                fr.scopes[-1].append(c)           # lifetime extended
            self.end_full()
            return
        if v.get('bind'):
            if t['c'] == 'ref':
                c = self.lv(init)
                if any(x is c for x in fr.temps):
                    fr.temps = [x for x in fr.temps if x is not c]
                    fr.scopes[-1].append(c)
            else:
                c = Cell(self.init_value(init, v['t'], fr), v['n'], None, v['t'])
                fr.scopes[-1].append(c)
            fr.env[v['id']] = c
            for b in v['bind']:
                hv = b.get('hv')
                if hv is not None:
                    x = self.ev(hv['init'])
                    x = x if isinstance(x, Cell) else Cell(x, b['n'])
                    fr.env[b['id']] = fr.env[hv['id']] = x
                elif b.get('e') is not None:
                    fr.env[b['id']] = self.lv(b['e'])
            self.end_full()
            return
        if init is not None:
            val = self.init_value(init, v['t'], fr)
            if isinstance(val, Cell):
                val = val.v
        elif t['c'] in ('rec', 'arr'):
            val = self.construct_default(v['t'])
        else:
            val = self.sym('uninitialised ' + v['n'])
        c = Cell(val, v['n'], None, v['t'])
        if isinstance(val, Obj):
            val.d['self'] = c
        fr.env[v['id']] = c
        fr.scopes[-1].append(c)
        self.end_full()

    def s_ret(self, s):
        v = VOID
        if s.get('e') is not None:
            rt = self.p.ty(self.fr().fn['ret'])
            if rt['c'] == 'ref':
                v = self.lv(s['e'])
            else:
                v = self.init_value(s['e'], self.fr().fn['ret'], self.fr())
                if isinstance(v, Cell):
                    v = v.v
        self.m.returning(self, v)
        self.end_full()
        raise _Ret(v)

    def s_break(self, s):
        raise _Brk()

    def s_continue(self, s):
        raise _Cont()

    def cond(self, s):
        if s.get('cv') is not None:
            self.declare(s['cv'])
        c = self.truth(self.rv(s['c']))
        self.end_full()
        return c

    def s_if(self, s):
        def body():
            if s.get('init') is not None:
                self.ex(s['init'])
            if self.cond(s):
                self.ex(s['a'])
            elif s.get('b') is not None:
                self.ex(s['b'])
        self.scoped(body)

    def s_switch(self, s):
        def body():
            if s.get('init') is not None:
                self.ex(s['init'])
            if s.get('cv') is not None:
                self.declare(s['cv'])
            v = self.rv(s['c'])
            self.end_full()
            parts = s['a']['s'] if s['a']['k'] == 'block' else [s['a']]
            flat, start, dflt = [], None, None
            for x in parts:
                labels = []
                while x is not None and x['k'] in ('case', 'default'):
                    labels.append(x['v'] if x['k'] == 'case' else None)
                    x = x['a']
                for l in labels:
                    if l is None:
                        dflt = len(flat)
                    elif start is None and self.same(v, self.rv(l)):
                        start = len(flat)
                flat.append(x)
            if start is None:
                start = dflt
            if start is None:
                return
            try:
                for x in flat[start:]:
                    self.ex(x)
            except _Brk:
                pass
        self.scoped(body)

    def loop(self, s, test, inc, body, post=False):
        n = 0
        while True:
            if not (post and n == 0):
                before = len(self.decided)
                if not test():
                    return
                if len(self.decided) > before:
                    n += 1
                    if n > self.rounds:
                        raise Stop()
                elif n == 0:
                    pass
            n2 = self.steps
            try:
                self.scoped(lambda: self.ex(body))
            except _Brk:
                return
            except _Cont:
                pass
            if post and n == 0:
                n = 1
            if inc is not None:
                self.ev(inc)
                self.end_full()
            self.iters = getattr(self, 'iters', 0) + 1
            if self.iters > 5000:
                raise Unmodelled('loop bound')

    def s_for(self, s):
        def whole():
            if s.get('init') is not None:
                self.ex(s['init'])
            self.loop(s, (lambda: self.cond(s)) if s.get('c') is not None else (lambda: True), s.get('inc'), s['a'])
        self.scoped(whole)

    def s_while(self, s):
        def whole():
            self.loop(s, lambda: self.cond(s), None, s['a'])
        self.scoped(whole)

    def s_do(self, s):
        self.loop(s, lambda: self.cond(s), None, s['a'], post=True)

    def s_rfor(self, s):
        def whole():
            if s.get('init') is not None:
                self.ex(s['init'])
            r = self.lv(s['range'])
            o = r.v
            items = o.d.get('q') if isinstance(o, Obj) else None
            if items is None:
                items = [self.sym('item') for _ in range(self.choose('range length', [0, 1, 2]))]
            for x in list(items):
                def one():
                    self.fr().env[s['v']['id']] = Cell(x, s['v']['n'])
                    self.ex(s['a'])
                try:
                    self.scoped(one)
                except _Brk:
                    break
                except _Cont:
                    pass
        self.scoped(whole)

    def s_try(self, s):
        fr = self.stack[-1]
        depth = len(self.stack)
        try:
            self.ex(s['a'])
        except Throw as t:
            del self.stack[depth:]
            for h in s['h']:
                if h.get('v') is None or self.catches(h['v'], t.ty):
                    def body():
                        if h.get('v') is not None:
                            fr.env[h['v']['id']] = Cell(t.val if t.val is not None else Obj(t.ty), h['v']['n'])
                        self.event('caught', type=t.ty)
                        self.ex(h['a'])
                    self.scoped(body)
                    return
            raise

    EXC = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::length_error': 'std::logic_error',
           'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error', 'std::system_error': 'std::runtime_error',
           'std::bad_alloc': 'std::exception', 'std::future_error': 'std::logic_error', 'std::bad_optional_access': 'std::exception'}

    def catches(self, var, ty):
        t = self.p.ty(var['t'])
        if t['c'] == 'ref':
            t = self.p.ty(t['pt'])
        want = t.get('rec') or t.get('s', '')
        while ty:
            if ty == want:
                return True
            ty = self.EXC.get(ty)
        return False

    def s_opaque(self, s):
        raise Unmodelled('statement ' + s.get('why', ''))

    # -------------------------------------------------------------- the library
    def lib_copy(self, v):
        if isinstance(v, Buffer):
            b = Buffer(self.fresh('copy'), v.size, v.content)
            b.writes = list(v.writes)
            return b
        if isinstance(v, Obj) and not v.d.get('fields'):
            k = kind(v)
            if k in ('unique_ptr', 'thread', 'unique_lock', 'future'):
                return v
            r = self.m.copy(self, v)
            if r is not None:
                return r
            o = Obj(v.ty)
            o.d = {x: y for x, y in v.d.items() if x != 'self'}
            o.fields = {a: Cell(self.lib_copy(c.v), c.name, o, c.ty) for a, c in v.fields.items()}
            if k == 'optional':
                o.d['cell'] = Cell(self.copy_any(v.d['cell'].v), 'value', o)
            elif k in ('tuple', 'pair'):
                o.d['items'] = [Cell(self.copy_any(c.v), c.name, o, c.ty) for c in v.d['items']]
            elif k in ('queue', 'deque', 'list'):
                o.d['q'] = list(v.d['q'])
            elif k == 'atomic':
                o.d['cell'] = Cell(v.d['cell'].v, 'atomic', o)
            return o
        return v

    def copy_any(self, v, move=False):
        if isinstance(v, Obj) and v.d.get('fields'):
            return self.copy_object(v, move)
        return self.lib_copy(v)

    def lib_move(self, c):
        """value moved out of cell c"""
        v = c.v
        if isinstance(v, Obj) and not v.d.get('fields'):
            k = kind(v)
            r = self.m.move(self, v)
            if r is not None:
                return r
            o = Obj(v.ty)
            o.d = {x: y for x, y in v.d.items() if x != 'self'}
            o.fields = v.fields
            if k in ('unique_ptr', 'shared_ptr'):
                v.d['p'] = NULL
            elif k in ('thread', 'jthread'):
                v.d['joinable'] = False
            elif k == 'unique_lock':
                v.d['owns'] = False
            elif k == 'optional':
                o.d['cell'] = Cell(self.copy_any(v.d['cell'].v, True) if v.d['cell'].v is not None else None, 'value', o)
            elif k in ('tuple', 'pair'):
                o.d['items'] = [Cell(self.lib_move(x), x.name, o, x.ty) for x in v.d['items']]
            elif k in ('queue', 'deque', 'list'):
                o.d['q'] = v.d['q']
                v.d['q'] = []
            elif k == 'future':
                v.dead = True
            return o
        if isinstance(v, Obj):
            return self.copy_object(v, True)
        return v

    def lib_ctor(self, e, f, t):
        a = e['a']
        tn = t.get('tn', '')
        n = tn.split('::')[-1]
        ck = e['ck']
        if ck in ('copy', 'move') and len(a) == 1:
            c = self.lv(a[0])
            if isinstance(c.v, Fn):
                return c.v
            return self.lib_move(c) if ck == 'move' else self.lib_copy(c.v)
        if tn in STRING:
            vs = [self.rv(x) for x in a]
            vs = [v for v in vs if not (isinstance(v, Obj) and 'allocator' in v.ty)]
            if not vs:
                return Str('')
            v = vs[0]
            if isinstance(v, Str) and len(vs) == 1:
                if v.k == ('lit', ''):
                    return Str('')
                return v
            if isinstance(v, Null):
                self.event('null-deref', what='string')
            return Str(('from',) + tuple(str(key(x)) for x in vs))
        if tn == 'std::span':
            vs = [self.rv(x) for x in a]
            return self.as_span(vs)
        if tn == 'std::vector':
            vs = [self.rv(x) for x in a]
            b = self.buffer('vector', self.sym('size', 0) if vs else 0)
            if len(vs) >= 2 and isinstance(vs[0], BufPtr) and isinstance(vs[1], BufPtr) and vs[0].buf is vs[1].buf:
                b.size = add(vs[1].off, vs[0].off, -1)
                b.content = ('slice', vs[0].buf, vs[0].off)
            elif vs and lin(vs[0]) is not None:
                b.size = vs[0]
            return b
        o = self.lib_make(e['t'])
        if not isinstance(o, Obj):
            for x in a:
                self.rv(x)
            return o
        if n in ('lock_guard', 'unique_lock', 'scoped_lock', 'shared_lock'):
            ms = [self.lv(x) for x in a]
            ms = [m for m in ms if 'mutex' in (self.p.ty(m.ty).get('s', '') if m.ty is not None else '') or isinstance(m.v, Obj) and 'mutex' in m.v.ty]
            defer = any(self.p.ty(x['t']).get('s', '').find('defer_lock') >= 0 for x in a)
            adopt = any(self.p.ty(x['t']).get('s', '').find('adopt_lock') >= 0 for x in a)
            if not ms:
                raise Unmodelled('lock without a mutex')
            o.d.update(m=ms[0], ms=ms, owns=not defer)
            if not defer and not adopt:
                self.lock(*ms)
            return o
        if n in ('thread', 'jthread'):
            args = [self.lv(x) if self.isgl(x) else self.rv(x) for x in a]
            if args:
                o.d.update(joinable=True, args=args)
                self.event('thread-start', args=args, obj=o)
            return o
        if n == 'function':
            vs = [self.rv(x) for x in a]
            o.d['fn'] = None if not vs or isinstance(vs[0], Null) else (vs[0].d.get('fn') if isinstance(vs[0], Obj) else vs[0])
            return o
        if n in ('unique_ptr', 'shared_ptr'):
            vs = [self.rv(x) for x in a]
            if vs:
                v = vs[0]
                if isinstance(v, Obj) and kind(v) == 'unique_ptr':
                    o.d['p'] = v.d['p']
                    o.d['deleter'] = v.d.get('deleter')
                    v.d['p'] = NULL
                else:
                    o.d['p'] = v
                if len(vs) > 1:
                    o.d['deleter'] = vs[1]
            if len(t.get('ta', ())) > 1 and o.d.get('deleter') is None:
                d = self.p.ty(t['ta'][1].get('t'))
                if d['c'] == 'rec' and d['rec'] in self.p.recs:
                    g = [x for x in self.fns_of(d['rec']) if x['n'] == 'operator()']
                    if g:
                        o.d['deleter'] = Fn(g[0]['id'], this=Obj(d['rec']))
            return o
        if n == 'optional':
            if not a:
                return o
            x = a[0]
            s = self.p.ty(x['t']).get('s', '')
            if 'nullopt_t' in s:
                self.rv(x)
                return o
            if 'in_place' in s:
                self.rv(x)
                o.d['has'] = True
                o.d['cell'].v = self.emplace(t['ta'][0]['t'], a[1:])
                return o
            c = self.lv(x) if self.isgl(x) else Cell(self.rv(x), 'value')
            v = c.v
            o.d['has'] = True
            if isinstance(v, Obj) and kind(v) == 'optional':
                o.d['has'] = v.d['has']
                v = v.d['cell'].v
            o.d['cell'].v = self.copy_any(v, bool(x.get('xv') or x['k'] == 'mat')) if isinstance(v, Obj) else v
            return o
        if n in ('tuple', 'pair'):
            if a:
                o.d['items'] = []
                for x, ta in zip(a, flat(t.get('ta', ()))):
                    if self.p.ty(ta['t'])['c'] == 'ref':
                        o.d['items'].append(Cell(self.lv(x), 'element', o, ta['t']))
                    else:
                        c = self.lv(x) if self.isgl(x) else None
                        v = self.rv(x) if c is None else (self.lib_move(c) if x.get('xv') or x['k'] == 'mat' else self.copy_any(c.v))
                        o.d['items'].append(Cell(v, 'element', o, ta['t']))
            return o
        if n in ('atomic', '__atomic_base', 'atomic_bool') and a:
            o.d['cell'].v = self.rv(a[0])
            return o
        if n in ('duration', 'time_point'):
            vs = [self.rv(x) for x in a]
            return vs[0] if vs else self.sym('duration')
        o.d['args'] = [self.rv(x) for x in a]
        return o

    def emplace(self, tid, exprs):
        """construct a T from argument expressions already seen as forwarding references"""
        cells = [self.lv(x) for x in exprs]
        return self.construct_from(tid, cells)

    def construct_from(self, tid, cells):
        t = self.p.ty(tid)
        if t['c'] != 'rec':
            return cells[0].v if cells else self.zero(tid)
        r = self.m.construct_from(self, t['rec'], cells)
        if r is not None:
            return r
        if t['rec'] in self.p.recs:
            if len(cells) == 1 and isinstance(cells[0].v, Obj) and cells[0].v.ty == t['rec']:
                return self.copy_object(cells[0].v, True)
            cs = [g for g in self.fns_of(t['rec']) if g.get('ctor') and len(g['params']) >= len(cells) and (g.get('body') is not None or g.get('inits'))]
            cs = [g for g in cs if g['ctor'] not in ('copy', 'move')] if cells else [g for g in cs if g['ctor'] == 'default']
            cs.sort(key=lambda g: len(g['params']))
            if len(cs) > 1:
                cs = [g for g in cs if all(self.fits(c, p['t']) for c, p in zip(cells, g['params']))] or cs
            o = self.default_obj(t['rec'])
            if cs:
                self.run_ctor(cs[0], o, [c if self.p.ty(p['t'])['c'] == 'ref' else c.v for c, p in zip(cells, cs[0]['params'])])
                return o
            return self.construct_default(tid)
        v = self.lib_make(tid)
        if isinstance(v, Str) and cells:
            return cells[0].v
        if cells and isinstance(v, Obj) and isinstance(cells[0].v, Obj) and cells[0].v.ty == v.ty:
            return self.lib_move(cells[0])
        if isinstance(v, Obj) and kind(v) in ('thread', 'jthread') and cells:
            v.d.update(joinable=True, args=cells)
            self.event('thread-start', args=cells, obj=v)
        if isinstance(v, Obj) and kind(v) in ('lock_guard', 'unique_lock') and cells:
            v.d.update(m=cells[0], ms=[cells[0]], owns=True)
            self.lock(cells[0])
        return v

    def fits(self, c, tid):
        t = self.p.ty(tid)
        if t['c'] == 'ref':
            t = self.p.ty(t['pt'])
        v = c.v
        if isinstance(v, Obj):
            return t.get('rec') == v.ty
        if isinstance(v, Str):
            return 'string' in t['s'] or t['c'] == 'ptr'
        if isinstance(v, (Res, Null, BufPtr, CellPtr)):
            return t['c'] == 'ptr' or t['c'] == 'int'
        if isinstance(v, Span):
            return 'span' in t['s']
        return t['c'] in ('int', 'bool', 'enum', 'float')

    def as_span(self, vs):
        if not vs:
            return Span(NULL, 0)
        v = vs[0]
        if isinstance(v, Cell):
            v = v.v
        if len(vs) >= 2 and not isinstance(v, (Buffer, Span)):
            n = vs[1]
            if isinstance(n, BufPtr) and isinstance(v, BufPtr):
                n = add(n.off, v.off, -1)
            return Span(v, n)
        if isinstance(v, Span):
            return v
        if isinstance(v, Buffer):
            return Span(BufPtr(v, 0), v.size)
        if isinstance(v, Str):
            return Span(v, Sym(('len', str(v.k)), 0))
        return Span(v, self.sym('size', 0))

    def lib_call(self, e, f, obj):
        n, qn = f['n'], f['qn']
        a = e['a']
        if obj is not None:
            o = self.target(obj)
            cell = obj if isinstance(obj, Cell) else Cell(o, 'object')
            while isinstance(cell.v, (CellPtr, Cell)):
                cell = cell.v.cell if isinstance(cell.v, CellPtr) else cell.v
            r = self.lib_method(e, f, n, cell, o, a)
            if r is not None:
                return r
            vs = [self.rv(x) for x in a]
            self.unmodelled.append(qn)
            self.event('unmodelled', what=qn)
            return self.value_of_type(e['t'], n)
        r = self.lib_function(e, f, n, qn, a)
        if r is not None:
            return r
        vs = [self.ev(x) if self.isgl(x) else self.rv(x) for x in a]
        args = [v.v if isinstance(v, Cell) and not x.get('lv') else v for v, x in zip(vs, a)]
        r = self.m.extern(self, n, f, args, e)
        if r is not None:
            return r
        self.unmodelled.append(qn)
        self.event('unmodelled', what=qn)
        return self.value_of_type(e['t'], n)

    def lib_function(self, e, f, n, qn, a):
        if qn in ('std::move', 'std::forward', 'std::as_const', 'std::addressof'):
            c = self.lv(a[0])
            return CellPtr(c) if n == 'addressof' else c
        if qn in ('std::make_unique', 'std::make_shared'):
            tid = f['ta'][0]['t']
            cells = [self.lv(x) for x in a]
            o = self.lib_make(e['t'])
            o.d['p'] = CellPtr(Cell(self.construct_from(tid, cells), 'heap'))
            return o
        if qn == 'std::get':
            c = self.lv(a[0])
            o = self.target(c)
            i = f['ta'][0].get('i')
            if i is None:
                raise Unmodelled('get by type')
            r = self.m.get(self, o, int(i))
            if r is not None:
                return r
            if isinstance(o, Obj) and 'items' in o.d:
                x = o.d['items'][int(i)]
                return x.v if isinstance(x.v, Cell) else x
            return Cell(self.sym('element'), 'element')
        if qn in ('std::make_tuple', 'std::make_pair', 'std::tie', 'std::forward_as_tuple'):
            o = self.lib_make(e['t'])
            o.d['items'] = []
            t = self.p.ty(e['t'])
            for x, ta in zip(a, flat(t.get('ta', ()))):
                c = self.lv(x)
                o.d['items'].append(Cell(c if self.p.ty(ta['t'])['c'] == 'ref' else self.copy_any(c.v, not x.get('lv')), 'element', o, ta['t']))
            return o
        if qn in ('std::make_optional',):
            o = self.lib_make(e['t'])
            o.d['has'] = True
            o.d['cell'].v = self.construct_from(self.p.ty(e['t'])['ta'][0]['t'], [self.lv(x) for x in a])
            return o
        if qn == 'std::async':
            cells = [self.lv(x) for x in a]
            fn = [c for c in cells if isinstance(c.v, Fn)]
            o = self.lib_make(e['t'])
            self.event('async', obj=o)
            # evaluated where it is started; whether it is ready in time is a choice of wait_for
            o.d['error'] = None
            o.d['value'] = VOID
            try:
                o.d['value'] = self.call_value(fn[0].v, [c for c in cells[cells.index(fn[0]) + 1:]]) if fn else self.sym('async')
            except Throw as t:
                o.d['error'] = t
            return o
        if qn in ('std::swap', 'std::exchange') and len(a) == 2:
            c1 = self.lv(a[0])
            if n == 'exchange':
                old = self.read(c1)
                self.write(c1, self.rv(a[1]))
                return old
            c2 = self.lv(a[1])
            c1v, c2v = self.read(c1), self.read(c2)
            self.write(c1, c2v)
            self.write(c2, c1v)
            return VOID
        if qn in ('std::min', 'std::max'):
            x, y = self.lv(a[0]), self.lv(a[1])
            s = self.sign(add(self.read(x), self.read(y), -1))
            return x if (s <= 0) == (n == 'min') else y
        if qn == 'std::invoke':
            cells = [self.lv(x) for x in a]
            return self.call_value(cells[0].v, cells[1:], e)
        if n in ('operator<<', 'getline', 'endl', 'flush'):
            cs = [self.lv(x) if self.isgl(x) else Cell(self.rv(x)) for x in a]
            return cs[0] if cs else VOID
        if n == 'operator+' and self.tn(e['t']) in STRING:
            vs = [self.rv(x) for x in a]
            return Str(('cat',) + tuple(str(key(v)) for v in vs))
        if n in ('operator==', 'operator!=') and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            if isinstance(y, Obj) and 'nullopt' in y.ty or isinstance(y, Sym) and 'nullopt' in str(y.name):
                r = not self.obj_truth(x)
            else:
                if 'nullopt' in self.p.ty(a[1]['t']).get('s', '') and isinstance(x, Obj):
                    r = not self.obj_truth(x)
                else:
                    r = self.same(x, y)
            return r == (n == 'operator==')
        if n == 'operator<=>' or n in ('operator<', 'operator>', 'operator<=', 'operator>='):
            x, y = self.rv(a[0]), self.rv(a[1])
            return self.value_of_type(e['t'], n)
        if n.startswith('operator""'):
            return Sym(('duration', n, self.p.ty(e['t']).get('s', ''), str(f.get('ta', ''))), 0)
        if n in ('duration_cast', 'time_point_cast', 'now'):
            for x in a:
                self.rv(x)
            return self.sym(n)
        if n == 'to_string':
            return Str(('to_string', str(key(self.rv(a[0])))))
        if n in ('memset', 'memcpy', 'memmove', 'memcmp', '__builtin_memset', '__builtin_memcpy'):
            return None
        if n in ('begin', 'end', 'cbegin', 'cend', 'data', 'size', 'empty', 'ssize') and len(a) == 1 and qn.startswith('std::'):
            c = self.lv(a[0])
            r = self.seq_method(n, c, c.v)
            if r is not None:
                return r
        if n in ('copy', 'copy_n', 'fill', 'fill_n', 'transform', 'for_each', 'remove', 'reverse', 'sort', 'find'):
            for x in a:
                self.rv(x)
            return self.value_of_type(e['t'], n)
        return None

    def seq_method(self, n, cell, o):
        if isinstance(o, Buffer):
            if n in ('data', 'begin', 'cbegin'):
                return BufPtr(o, 0)
            if n in ('end', 'cend'):
                return BufPtr(o, o.size)
            if n in ('size', 'ssize', 'max_size', 'length'):
                return o.size
            if n == 'empty':
                return self.sign(o.size, 'size') <= 0
        if isinstance(o, Span):
            if n in ('data', 'begin', 'cbegin'):
                return o.ptr
            if n in ('size', 'size_bytes', 'ssize'):
                return o.n
            if n in ('end', 'cend'):
                return self.arith('+', o.ptr, o.n, None) if isinstance(o.ptr, BufPtr) else o.ptr
            if n == 'empty':
                return self.sign(o.n, 'size of the data') == 0
        return None

    def lib_method(self, e, f, n, cell, o, a):
        rec = f['qn'].rsplit('::', 1)[0]
        if isinstance(o, (Buffer, Span)):
            r = self.seq_method(n, cell, o)
            if r is not None:
                for x in a:
                    self.rv(x)
                return r
            if isinstance(o, Span) and n in ('first', 'last', 'subspan'):
                vs = [self.rv(x) for x in a]
                if n == 'first':
                    return Span(o.ptr, vs[0])
                if n == 'last':
                    return Span(self.arith('+', o.ptr, add(o.n, vs[0], -1), None), vs[0])
                cnt = vs[1] if len(vs) > 1 and not (isinstance(vs[1], int) and vs[1] >= 1 << 60) else add(o.n, vs[0], -1)
                return Span(self.arith('+', o.ptr, vs[0], None), cnt)
            if n in ('resize', 'reserve', 'assign', 'insert', 'push_back', 'fill', 'clear', 'shrink_to_fit', 'erase'):
                vs = [self.rv(x) for x in a]
                if n == 'resize':
                    o.size = vs[0]
                elif n == 'clear':
                    o.size = 0
                elif n not in ('reserve', 'fill', 'shrink_to_fit'):
                    o.size = self.sym('size', 0)
                return self.value_of_type(e['t'], n)
            if n in ('operator[]', 'at', 'front', 'back'):
                vs = [self.rv(x) for x in a]
                return Cell(self.sym('byte', 0, 255), 'element')
            if n == 'operator=':
                v = self.rv(a[0])
                self.write(cell, self.lib_copy(v))
                return cell
        if isinstance(o, Str) or rec in STRING:
            if n in ('c_str', 'data'):
                return o
            if n == 'empty':
                if isinstance(o, Str) and o.k == '':
                    return True
                return self.choose('%r is empty' % (o,), [False, True], ('empty', key(o)))
            if n in ('size', 'length'):
                return Sym(('len', str(key(o))), 0)
            if n in ('operator+=', 'append', 'push_back', 'insert', 'assign', 'operator=', 'replace', 'erase', 'resize', 'clear'):
                vs = [self.rv(x) for x in a]
                if n in ('operator=', 'assign') and len(vs) == 1:
                    self.write(cell, vs[0] if isinstance(vs[0], Str) else Str(('from', str(key(vs[0])))))
                elif n == 'clear':
                    self.write(cell, Str(''))
                elif isinstance(o, Str) and isinstance(o.k, tuple) and o.k[0] == 'built':
                    pass
                else:
                    self.write(cell, Str(('built', self.fresh('string'))))
                return cell
            vs = [self.rv(x) for x in a]
            return self.value_of_type(e['t'], n)
        if not isinstance(o, Obj):
            if isinstance(o, Fn) and n == 'operator()':
                return self.call_value(o, [self.lv(x) for x in a], e)
            if isinstance(o, Sym) and n == 'operator=':
                v = self.rv(a[0])
                self.write(cell, v)
                return cell
            vs = [self.rv(x) for x in a]
            return self.value_of_type(e['t'], n)
        k = kind(o)
        if k in ('unique_ptr', 'shared_ptr'):
            if n in ('operator->', 'get'):
                return o.d['p']
            if n == 'operator*':
                p = o.d['p']
                if isinstance(p, CellPtr):
                    return p.cell
                self.event('null-deref', what='unique_ptr')
                raise Stop()
            if n == 'operator bool':
                return self.obj_truth(o)
            if n == 'release':
                p = o.d['p']
                o.d['p'] = NULL
                return p
            if n in ('reset', 'operator='):
                old = o.d['p']
                if a:
                    c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
                    v = c.v
                    if isinstance(v, Obj) and kind(v) == 'unique_ptr':
                        new = v.d['p']
                        v.d['p'] = NULL
                    else:
                        new = v
                else:
                    new = NULL
                o.d['p'] = new
                if cell.owner is not None:
                    self.event('write', cell=cell, value=new, old=old)
                if isinstance(old, CellPtr) and old is not new:
                    self.delete(old, o)
                return cell if n == 'operator=' else VOID
        if k == 'optional':
            if n in ('has_value', 'operator bool'):
                return self.has_value(o)
            if n in ('value', 'operator*', 'operator->'):
                if not self.has_value(o):
                    self.event('empty-optional', what=n)
                    if n == 'value':
                        raise Throw('std::bad_optional_access')
                    raise Stop()
                if o.d['cell'].v is None:
                    o.d['cell'].v = self.value_of_type(self.p.ty(o.d['tid'])['ta'][0]['t'], 'value') if 'tid' in o.d else self.sym('value')
                return CellPtr(o.d['cell']) if n == 'operator->' else o.d['cell']
            if n in ('operator=', 'emplace'):
                if n == 'operator=' and 'nullopt' in self.p.ty(a[0]['t']).get('s', ''):
                    o.d['has'] = False
                    self.event('optional', obj=o, value=None)
                    return cell
                if n == 'operator=':
                    c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
                    v = c.v
                    if isinstance(v, Obj) and kind(v) == 'optional':
                        o.d['has'] = v.d['has']
                        if v.d['has'] is not False:
                            o.d['cell'].v = self.copy_any(v.d['cell'].v, True)
                        self.event('optional', obj=o, value=o.d['cell'].v if o.d['has'] else None)
                        return cell
                    v = self.copy_any(v, True)
                else:
                    v = self.emplace(self.p.ty(o.d['tid'])['ta'][0]['t'], a)
                o.d['has'] = True
                o.d['cell'].v = v
                self.event('optional', obj=o, value=v)
                return cell if n == 'operator=' else o.d['cell']
            if n == 'reset':
                o.d['has'] = False
                self.event('optional', obj=o, value=None)
                return VOID
            if n == 'value_or':
                d = self.rv(a[0])
                return o.d['cell'].v if self.has_value(o) else d
        if k in ('queue', 'deque', 'list'):
            return self.queue_method(e, n, cell, o, a)
        if k in ('unique_lock', 'lock_guard', 'scoped_lock', 'shared_lock'):
            if n == 'unlock':
                self.unlock(o.d['m'])
                o.d['owns'] = False
                return VOID
            if n in ('lock', 'try_lock'):
                self.lock(o.d['m'])
                o.d['owns'] = True
                return VOID if n == 'lock' else True
            if n in ('owns_lock', 'operator bool'):
                return o.d['owns']
            if n == 'operator=':
                c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
                if o.d.get('owns'):
                    self.unlock(o.d['m'])
                o.d.update(m=c.v.d['m'], ms=c.v.d.get('ms'), owns=c.v.d['owns'])
                c.v.d['owns'] = False
                return cell
        if 'mutex' in k:
            if n in ('lock', 'try_lock', 'lock_shared'):
                self.lock(cell)
                return VOID if n != 'try_lock' else True
            if n in ('unlock', 'unlock_shared'):
                self.unlock(cell)
                return VOID
        if k.startswith('condition_variable'):
            return self.cv_method(e, n, cell, o, a)
        if k in ('thread', 'jthread'):
            if n == 'joinable':
                self.event('read', cell=cell)
                if o.d['joinable'] not in (True, False):
                    o.d['joinable'] = self.truth(o.d['joinable'])
                return o.d['joinable']
            if n == 'join' or n == 'detach':
                if o.d['joinable'] not in (True, False):
                    o.d['joinable'] = self.truth(o.d['joinable'])
                if not o.d['joinable']:
                    self.event('bad-join', what=n)
                    raise Throw('std::system_error')
                self.event(n, thread=o, cell=cell)
                o.d['joinable'] = False
                return VOID
            if n == 'operator=':
                c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
                if o.d['joinable'] not in (True, False):
                    o.d['joinable'] = self.truth(o.d['joinable'])
                if o.d['joinable']:
                    self.event('terminate', what='a running thread is replaced')
                o.d['joinable'] = c.v.d['joinable']
                o.d['args'] = c.v.d.get('args')
                c.v.d['joinable'] = False
                if cell.owner is not None:
                    self.event('write', cell=cell, value=o, old=o)
                return cell
            if n == 'get_id':
                return self.sym('id')
        if k in ('atomic', '__atomic_base', 'atomic_bool', 'atomic_flag'):
            ac = o.d['cell']
            own = cell if cell.owner is not None else ac
            if n in ('load', 'test') or n.startswith('operator ') or n.startswith('operator bool'):
                self.event('atomic-read', cell=own)
                v = self.m.read(self, own)
                return v if v is not None else ac.v
            if n in ('store', 'operator='):
                v = self.rv(a[0])
                ac.v = v
                self.event('atomic-write', cell=own, value=v)
                return VOID if n == 'store' else v
            if n in ('exchange', 'test_and_set', 'clear'):
                new = self.rv(a[0]) if n == 'exchange' else n == 'test_and_set'
                v = self.m.read(self, own)
                old = v if v is not None else ac.v
                ac.v = new
                self.event('atomic-write', cell=own, value=new)
                return old if n != 'clear' else VOID
            if n in ('compare_exchange_strong', 'compare_exchange_weak'):
                exp = self.lv(a[0])
                new = self.rv(a[1])
                v = self.m.read(self, own)
                old = v if v is not None else ac.v
                if self.same(old, exp.v):
                    ac.v = new
                    self.event('atomic-write', cell=own, value=new)
                    return True
                exp.v = old
                return False
        if k == 'future':
            if n in ('wait_for', 'wait_until'):
                for x in a:
                    self.rv(x)
                r = self.choose('answer in time', ['ready', 'timeout'], ('ready', id(o)))
                self.event('future-wait', obj=o, result=r)
                return self.future_status(e, r)
            if n == 'wait':
                return VOID
            if n == 'get':
                self.event('join', thread=o)
                if o.d.get('error') is not None:
                    t = o.d['error']
                    raise Throw(t.ty, t.val)
                return o.d.get('value', VOID)
            if n == 'valid':
                return True
            if n == 'operator=':
                c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
                o.d.update({x: y for x, y in c.v.d.items() if x != 'self'})
                c.v.dead = True
                return cell
        if k == 'function':
            if n == 'operator()':
                return self.call_value(o, [self.lv(x) for x in a], e) or VOID
            if n == 'operator bool':
                return self.obj_truth(o)
            if n == 'operator=':
                v = self.rv(a[0])
                o.d['fn'] = v.d.get('fn') if isinstance(v, Obj) and kind(v) == 'function' else v
                if cell.owner is not None:
                    self.event('write', cell=cell, value=v, old=None)
                return cell
        if k in ('tuple', 'pair') and n == 'operator=':
            v = self.rv(a[0])
            if isinstance(v, Obj) and 'items' in v.d:
                for x, y in zip(o.d['items'], v.d['items']):
                    d = x.v if isinstance(x.v, Cell) else x
                    d.v = y.v.v if isinstance(y.v, Cell) else y.v
            return cell
        if n == 'operator=' and a:
            v = self.rv(a[0])
            self.write(cell, self.lib_copy(v))
            return cell
        if n in ('what', 'str', 'operator<<', 'operator()', 'count', 'imbue', 'precision', 'flush', 'put', 'write', 'time_since_epoch', 'good', 'fail'):
            vs = [self.rv(x) for x in a]
            if n == 'operator<<':
                return cell
            return self.value_of_type(e['t'], n)
        return None

    def future_status(self, e, r):
        # enumerators of std::future_status: ready 0, timeout 1, deferred 2
        return {'ready': 0, 'timeout': 1}[r]

    def queue_method(self, e, n, cell, o, a):
        q = o.d['q']
        if n in ('empty', 'size'):
            self.event('q-read', cell=cell, what=n)
            self.m.queue_state(self, cell, o)
            return (not q) if n == 'empty' else len(q)
        if n in ('push', 'push_back', 'emplace', 'emplace_back', 'push_front', 'emplace_front'):
            c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
            v = self.lib_move(c) if (a[0].get('xv') or not self.isgl(a[0]) or a[0]['k'] == 'mat') else self.lib_copy(c.v)
            if n.endswith('front'):
                q.insert(0, v)
            else:
                q.append(v)
            self.event('q-push', cell=cell, value=v, end='front' if n.endswith('front') else 'back')
            return VOID
        if n in ('front', 'back'):
            self.event('q-access', cell=cell, end=n)
            self.m.queue_state(self, cell, o)
            if not q:
                self.event('q-empty-access', cell=cell)
                raise Stop()
            return QCell(self, cell, o, n)
        if n in ('pop', 'pop_front', 'pop_back'):
            self.m.queue_state(self, cell, o)
            if not q:
                self.event('q-empty-access', cell=cell)
                raise Stop()
            v = q.pop(-1 if n == 'pop_back' else 0)
            self.event('q-pop', cell=cell, value=v, end='back' if n == 'pop_back' else 'front')
            self.destroy(v)
            return VOID
        if n == 'clear':
            vs = list(q)
            del q[:]
            self.event('q-clear', cell=cell, n=len(vs))
            for v in vs:
                self.destroy(v)
            return VOID
        if n in ('operator=', 'swap'):
            c = self.lv(a[0]) if self.isgl(a[0]) else Cell(self.rv(a[0]))
            self.event('q-clear', cell=cell, n=len(q))
            if n == 'swap':
                o.d['q'], c.v.d['q'] = c.v.d['q'], o.d['q']
            else:
                o.d['q'] = c.v.d['q']
            return cell if n == 'operator=' else VOID
        return None

    def cv_method(self, e, n, cell, o, a):
        if n in ('notify_one', 'notify_all'):
            self.event('notify', cv=cell, all=n == 'notify_all')
            return VOID
        if n in ('wait', 'wait_for', 'wait_until'):
            lk = self.lv(a[0])
            m = lk.v.d.get('m') if isinstance(lk.v, Obj) else None
            rest = a[1:] if n == 'wait' else a[2:]
            timed = n != 'wait'
            if timed:
                self.rv(a[1])
            pred = self.lv(rest[0]) if rest else None
            self.event('wait', cv=cell, mutex=m, timed=timed, pred=pred is not None, held=any(x is m for x in self.locks))

            def holds():
                r = self.truth(self.call_value(pred.v, []))
                self.event('predicate', cv=cell, mutex=m, value=r, timed=timed)
                return r
            if pred is None:
                # may also wake for no reason
                self.m.havoc(self, cell)
                if timed:
                    return self.choose('wait timed out', [0, 1])
                return VOID
            if holds():
                return True if timed else VOID
            # sleeps: others run while the mutex is free
            if timed:
                if self.choose('wait ends', ['woken', 'timed out']) == 'timed out':
                    return False
            self.m.havoc(self, cell)
            if holds():
                return True if timed else VOID
            raise Blocked()
        return None


KNOWN = {'unique_ptr', 'shared_ptr', 'optional', 'tuple', 'pair', 'queue', 'deque', 'list', 'thread', 'jthread', 'atomic', 'function', 'unique_lock',
         'lock_guard', 'scoped_lock', 'future'}


class QCell(Cell):
    """element of a queue seen through front() or back()"""

    def __init__(self, mach, cell, o, end):
        q = o.d['q']
        Cell.__init__(self, q[0] if end == 'front' else q[-1], 'queue element')


def kind(o):
    return o.ty.split('<')[0].split('::')[-1]


def short(rec):
    d, out = 0, ''
    for ch in rec:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out.split('::')[-1]


def flat(ta):
    out = []
    for x in ta:
        if 'p' in x:
            out += flat(x['p'])
        else:
            out.append(x)
    return out


class Model:
    """hooks of one analysis; None means: no opinion"""

    def owns_record(self, m, rec):
        return False

    def make_record(self, m, rec, tid):
        return None

    def call(self, m, e, f, obj):
        return None

    def construct(self, m, e, f, rec):
        return None

    def construct_from(self, m, rec, cells):
        return None

    def extern(self, m, name, f, args, e):
        return None

    def call_unknown(self, m, fn, args):
        return None

    def member(self, m, o, e):
        return None

    def read(self, m, c):
        return None

    def written(self, m, c, old, new):
        pass

    def destroy(self, m, o):
        return False

    def copy(self, m, o):
        return None

    def move(self, m, o):
        return None

    def get(self, m, o, i):
        return None

    def queue_state(self, m, cell, o):
        pass

    def havoc(self, m, cv):
        pass

    def returning(self, m, v):
        pass
