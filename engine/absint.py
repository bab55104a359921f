"""Abstract interpreter over the facts dumped by factdump.

Nothing is executed: program values are abstract (see bits.py and the classes below), unknown
conditions join both branches, loops are unrolled only when their trip count is a definite constant
and are otherwise summarised (affine induction) or given up (Unsupported).

Value domain (all immutable):
  BV    vector of bit provenances (LSB first)
  Lin   affine form over non-negative symbolic atoms (sizes, offsets, counts)
  Flt   symbolic floating value: source, constant, scaled, rounded, from-integer
  Ptr   address: root object + access path + affine byte offset (also used for lvalues)
  Rec   record with one value per field, Opt optional, Vec sequence, Map string->value, Str
  SVec  sequence of symbolic length whose i-th element is a template in i
  Lam   closure, Top anything, Undef-bits are BV over ('undef',..) variables
"""
import json
from fractions import Fraction
from bits import B, show_src


class Unsupported(Exception):
    pass


class Vanished(Exception):
    pass


class Thrown(Exception):
    pass


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class BV(V):
    __slots__ = ('b', 'sg')

    def __init__(self, b, sg=False):
        self.b = tuple(b)
        self.sg = sg

    def key(self):
        return ('BV', self.b)

    def __repr__(self):
        c = self.const()
        if c is not None:
            return 'BV%d(%d)' % (len(self.b), c)
        return 'BV%d<%s>' % (len(self.b), ' '.join(B.show(x) for x in reversed(self.b)))

    def const(self):
        n = 0
        for i, x in enumerate(self.b):
            if x == 1:
                n |= 1 << i
            elif x != 0:
                return None
        if self.sg and self.b and self.b[-1] == 1 and len(self.b) > 1:
            n -= 1 << len(self.b)
        return n


class Lin(V):
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c = c
        self.t = {k: v for k, v in (t or {}).items() if v != 0}

    def key(self):
        return ('Lin', self.c, tuple(sorted(self.t.items(), key=repr)))

    def __repr__(self):
        s = [str(self.c)] if self.c or not self.t else []
        for k, v in sorted(self.t.items(), key=repr):
            s.append(('%d*' % v if v != 1 else '') + show_atom(k))
        return ' + '.join(s)

    def add(self, o, m=1):
        t = dict(self.t)
        for k, v in o.t.items():
            t[k] = t.get(k, 0) + m * v
        return Lin(self.c + m * o.c, t)

    def mul(self, n):
        return Lin(self.c * n, {k: v * n for k, v in self.t.items()})

    def isconst(self):
        return not self.t

    def subst(self, atom, lin):
        if atom not in self.t:
            return self
        t = dict(self.t)
        m = t.pop(atom)
        return Lin(self.c, t).add(lin, m)


def show_atom(k):
    if isinstance(k, tuple):
        if not k:
            return '()'
        if k[0] == 'if':
            return '[%s]' % B.show(k[1])
        if k[0] == 'bv':
            return 'int(%s)' % ','.join(B.show(x) for x in reversed(k[1]))
        return '.'.join(show_atom(x) for x in k)
    return str(k)


class Flt(V):
    __slots__ = ('k',)
    # k: ('src',name) ('const',Fraction) ('scale',k,Fraction) ('round',k) ('int',bits,signed)
    #    ('ite',c,a,b) ('opaque',n) ('f32',k)

    def __init__(self, k):
        self.k = k

    def key(self):
        return ('Flt', self.k)

    def __repr__(self):
        return 'Flt(%s)' % (self.k,)


class Ptr(V):
    __slots__ = ('root', 'path', 'off')

    def __init__(self, root, path=(), off=None):
        self.root = root
        self.path = path
        self.off = off if off is not None else Lin(0)

    def key(self):
        return ('Ptr', self.root, self.path, self.off.key())

    def __repr__(self):
        return '&%s%s+%r' % (self.root, list(self.path), self.off)

    def field(self, step):
        return Ptr(self.root, self.path + (step,))

    def plus(self, lin):
        return Ptr(self.root, self.path, self.off.add(lin))


NULL = Ptr('null')


class Rec(V):
    __slots__ = ('ty', 'f', 'ck')

    def __init__(self, ty, f):
        self.ty = ty
        self.f = f
        self.ck = None

    def key(self):
        if self.ck is None:
            self.ck = ('Rec', self.ty, tuple(sorted((k, v.key()) for k, v in self.f.items())))
        return self.ck

    def set(self, k, v):
        f = dict(self.f)
        f[k] = v
        return Rec(self.ty, f)

    def __repr__(self):
        return 'Rec<%s>%r' % (self.ty, self.f)


class Opt(V):
    __slots__ = ('p', 'v')

    def __init__(self, p, v):
        self.p = p
        self.v = v

    def key(self):
        return ('Opt', self.p, self.v.key() if self.v is not None else None)

    def __repr__(self):
        return 'Opt(%s,%r)' % (B.show(self.p), self.v)


class Vec(V):
    __slots__ = ('ety', 'items', 'fixed', 'ck')

    def __init__(self, ety, items, fixed=False):
        self.ety = ety
        self.items = tuple(items)
        self.fixed = fixed
        self.ck = None

    def key(self):
        if self.ck is None:
            self.ck = ('Vec', self.ety, tuple(x.key() for x in self.items))
        return self.ck

    def __repr__(self):
        return 'Vec%r' % (list(self.items),)


class SVec(V):
    """length n (Lin); element i (atom `ivar`) is `tmpl`; log = byte-level writes for buffers"""
    __slots__ = ('ety', 'n', 'name', 'ivar', 'tmpl', 'log')

    def __init__(self, ety, n, name, ivar=None, tmpl=None, log=()):
        self.ety = ety
        self.n = n
        self.name = name
        self.ivar = ivar
        self.tmpl = tmpl
        self.log = tuple(log)

    def key(self):
        return ('SVec', self.ety, self.n.key(), self.name, self.ivar,
                self.tmpl.key() if self.tmpl is not None else None, self.log_key())

    def log_key(self):
        return tuple(w.key() for w in self.log)

    def __repr__(self):
        return 'SVec(n=%r,%s,%s->%r,log=%r)' % (self.n, self.name, self.ivar, self.tmpl, self.log)


class Write:
    """bytes stored at off; when rep is (ivar, n) it stands for i = 0 .. n-1"""
    __slots__ = ('off', 'bytes', 'rep', 'line')

    def __init__(self, off, bytes_, rep=None, line=0):
        self.off = off
        self.bytes = tuple(bytes_)
        self.rep = rep
        self.line = line

    def key(self):
        return (self.off.key(), self.bytes, self.rep if self.rep is None else (self.rep[0], self.rep[1].key()))

    def __repr__(self):
        return 'W(%r len %d%s)' % (self.off, len(self.bytes),
                                   '' if not self.rep else ' for %s<%r' % (self.rep[0], self.rep[1]))


class Map(V):
    __slots__ = ('d', 'open', 'vty')

    def __init__(self, d, open_=False, vty=None):
        self.d = d
        self.open = open_
        self.vty = vty

    def key(self):
        return ('Map', tuple(sorted((k, v.key()) for k, v in self.d.items())), self.open)

    def __repr__(self):
        return 'Map%r' % (self.d,)


class Str(V):
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def key(self):
        return ('Str', self.s)

    def __repr__(self):
        return 'Str(%r)' % (self.s,)


class Lam(V):
    __slots__ = ('fid', 'caps', 'this')

    def __init__(self, fid, caps, this):
        self.fid = fid
        self.caps = caps
        self.this = this

    def key(self):
        return ('Lam', self.fid, tuple(sorted((k, v.key()) for k, v in self.caps.items())))


class FnRef(V):
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def key(self):
        return ('FnRef', self.f['id'])


class Span(V):
    __slots__ = ('p', 'n', 'ety')

    def __init__(self, p, n, ety):
        self.p = p
        self.n = n
        self.ety = ety

    def key(self):
        return ('Span', self.p.key(), self.n.key())

    def __repr__(self):
        return 'Span(%r,%r)' % (self.p, self.n)


class Top(V):
    __slots__ = ('why',)

    def __init__(self, why=''):
        self.why = why

    def key(self):
        return ('Top',)

    def __repr__(self):
        return 'Top(%s)' % self.why


VOID = Str('<void>')


def const_bv(n, w, sg=False):
    return BV([(n >> i) & 1 for i in range(w)], sg)


def src_bv(name, w, sg=False, nbits=None):
    return BV([B.var((name, i)) for i in range(w)], sg)


def bool_bv(bit):
    return BV((bit,), False)


# ------------------------------------------------------------------ program
class Prog:
    def __init__(self, *paths):
        assert len(paths) == 1
        d = json.load(open(paths[0]))
        self.types = d['types']
        self.fns = {f['id']: f for f in d['functions']}
        self.recs = {r['n']: r for r in d['records']}
        self.enums = {e['n']: e for e in d['enums']}
        self.fieldinfo = {}
        for r in d['records']:
            for f in r['fields']:
                self.fieldinfo[f['id']] = (r['n'], f)
        self.methods = {}
        for f in d['functions']:
            if f.get('rec'):
                self.methods.setdefault((f['rec'], f['n']), []).append(f)

    def ty(self, i):
        return self.types[i] if i is not None and i >= 0 else {'c': 'other', 's': '?'}

    def width(self, i):
        t = self.ty(i)
        c = t['c']
        if c in ('int', 'enum'):
            return t.get('w')
        if c == 'bool':
            return 1
        return None

    def size(self, i):
        """sizeof in bytes"""
        t = self.ty(i)
        c = t['c']
        if c in ('int', 'enum', 'bool'):
            return t['w'] // 8
        if c == 'float':
            return t['w'] // 8
        if c in ('ptr', 'ref', 'nullptr'):
            return 8
        return t.get('sz')

    def all_bases(self, rn):
        r = self.recs.get(rn)
        out = []
        if r:
            for b in r['bases']:
                out.append(b['rec'])
                out.extend(self.all_bases(b['rec']))
        return out

    def all_fields(self, rn, off=0):
        """[(field, byte offset)] including bases"""
        r = self.recs.get(rn)
        out = []
        if r:
            for b in r['bases']:
                out.extend(self.all_fields(b['rec'], off + max(b['off'], 0)))
            for f in r['fields']:
                out.append((f, off + f['off']))
        return out

    def method_table(self, rn):
        """name -> [function facts] visible in rn (own + inherited, hiding ignored)"""
        out = {}
        for c in [rn] + self.all_bases(rn):
            r = self.recs.get(c)
            if not r:
                continue
            for m in r['methods']:
                out.setdefault(m['n'], []).append((c, m))
        return out


class State:
    __slots__ = ('mem', 'pc', 'facts', 'thrown')

    def __init__(self):
        self.mem = {}
        self.pc = 1
        self.facts = ()      # Lin values known to be >= 0

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.facts = self.facts
        return s

    def take(self, o):
        self.mem = o.mem
        self.pc = o.pc
        self.facts = o.facts


class Frame:
    def __init__(self, fn, this=None):
        self.fn = fn
        self.this = this
        self.env = {}         # var id -> Ptr (root of local)
        self.rets = []        # (pc, value, state)
        self.brk = []
        self.cont = []
        self.caps = {}


class Event:
    def __init__(self, kind, msg, fn, line, pc, file=''):
        self.kind, self.msg, self.fn, self.line, self.pc, self.file = kind, msg, fn, line, pc, file

    def __repr__(self):
        return '%s: %s at %s:%s in %s' % (self.kind, self.msg, self.file, self.line, self.fn)


MAXITER = 4096


def replace_atom(t, old, new):
    if t == old:
        return new
    if isinstance(t, tuple):
        return tuple(replace_atom(x, old, new) for x in t)
    return t


SEQ = ('std::vector', 'std::array', 'std::basic_string', 'std::initializer_list')


class Interp:
    def __init__(self, prog, max_depth=60):
        self.p = prog
        self.events = []
        self.n = 0
        self.depth = 0
        self.max_depth = max_depth
        self.unknown_calls = {}
        self.stack = []
        self.visited = set()
        self.ge0reg = {}
        self.atom_ub = {}
        self.steps = 0
        self.hooks = {}          # qualified name -> fn(interp, st, frame, e, obj, args)
        self.trace_calls = None

    # ------------------------------------------------------------ helpers
    def fresh(self, hint='t'):
        self.n += 1
        return (hint, self.n)

    def alloc(self, st, v, hint='t'):
        r = self.fresh(hint)
        st.mem[r] = v
        return Ptr(r)

    def event(self, kind, msg, st, line=0):
        fn = self.stack[-1] if self.stack else None
        self.events.append(Event(kind, msg, fn['qn'] if fn else '?', line, st.pc, fn['file'] if fn else ''))

    def is_seq(self, tid):
        t = self.p.ty(tid)
        return t['c'] == 'arr' or (t['c'] == 'rec' and t.get('tn') in SEQ)

    def targ(self, t, i=0):
        """i-th type template argument's type id"""
        return t['ta'][i]['t']

    # ------------------------------------------------------------ value construction
    def zero_value(self, tid):
        t = self.p.ty(tid)
        c = t['c']
        w = self.p.width(tid)
        if w:
            return const_bv(0, w, t.get('sg', False))
        if c == 'float':
            return Flt(('const', Fraction(0)))
        if c in ('ptr', 'nullptr'):
            return NULL
        if c == 'arr':
            return Vec(t['pt'], [self.zero_value(t['pt'])] * t['n'], True)
        if c == 'rec':
            return self.default_rec(tid, zero=True)
        return Top('zero')

    def undef_value(self, tid, name):
        t = self.p.ty(tid)
        w = self.p.width(tid)
        if w:
            return BV([B.var((('undef', name), i)) for i in range(w)], t.get('sg', False))
        if t['c'] == 'float':
            return Flt(('src', ('undef', name)))
        if t['c'] == 'arr':
            return Vec(t['pt'], [self.undef_value(t['pt'], (name, i)) for i in range(t['n'])], True)
        if t['c'] == 'ptr':
            return Top('undef')
        if t['c'] == 'rec' and t.get('tn') == 'std::array':
            n = int(t['ta'][1]['i'])
            return Vec(t['ta'][0]['t'], [self.undef_value(t['ta'][0]['t'], (name, i)) for i in range(n)], True)
        return Top('undef')

    def sym_value(self, tid, name):
        t = self.p.ty(tid)
        c = t['c']
        w = self.p.width(tid)
        if w:
            return src_bv(name, w, t.get('sg', False))
        if c == 'float':
            return Flt(('src', name))
        if c == 'arr':
            return Vec(t['pt'], [self.sym_value(t['pt'], (name, i)) for i in range(t['n'])], True)
        if c == 'rec':
            tn = t.get('tn')
            if tn == 'std::optional':
                return Opt(B.var(((name, '?'), 0)), self.sym_value(self.targ(t), (name, 'v')))
            if tn == 'std::vector':
                return SVec(self.targ(t), Lin(0, {(name, 'n'): 1}), name)
            if tn == 'std::array':
                n = int(t['ta'][1]['i'])
                return Vec(t['ta'][0]['t'], [self.sym_value(t['ta'][0]['t'], (name, i)) for i in range(n)], True)
            if tn == 'std::bitset':
                return src_bv(name, int(t['ta'][0]['i']))
            if tn == 'std::basic_string':
                return Top('str')
            if tn == 'std::map':
                return Map({}, True)
            r = self.p.recs.get(t['rec'])
            if r is not None:
                return Rec(t['rec'], {f['id']: self.sym_value(f['t'], (name, f['n']))
                                      for f, _ in self.p.all_fields(t['rec'])})
        return Top('sym')

    def default_rec(self, tid, zero=False):
        t = self.p.ty(tid)
        tn = t.get('tn')
        if tn == 'std::vector':
            return Vec(self.targ(t), [])
        if tn == 'std::optional':
            return Opt(0, None)
        if tn in ('std::map', 'std::unordered_map'):
            return Map({}, False, t['ta'][1]['t'])
        if tn == 'std::basic_string':
            return Str('')
        if tn == 'std::bitset':
            return const_bv(0, int(t['ta'][0]['i']))
        if tn == 'std::array':
            n = int(t['ta'][1]['i'])
            ety = t['ta'][0]['t']
            if zero:
                return Vec(ety, [self.zero_value(ety)] * n, True)
            return self.undef_value(tid, 'array')
        if tn == 'std::span':
            return Span(NULL, Lin(0), self.targ(t))
        r = self.p.recs.get(t['rec'])
        if r is None:
            return Top('rec ' + t['s'])
        fs = {}
        for f, _ in self.p.all_fields(t['rec']):
            fs[f['id']] = self.zero_value(f['t']) if zero else self.undef_value(f['t'], t['rec'] + '.' + f['n'])
        return Rec(t['rec'], fs)

    # ------------------------------------------------------------ conversions
    def to_bv(self, v, w, sg=False):
        if isinstance(v, BV):
            b = v.b
            if len(b) == w:
                return BV(b, sg)
            if len(b) > w:
                return BV(b[:w], sg)
            ext = b[-1] if v.sg and b else 0
            return BV(b + (ext,) * (w - len(b)), sg)
        if isinstance(v, Lin):
            if v.isconst():
                return const_bv(v.c, w, sg)
            if v.c == 0 and len(v.t) == 1:
                (k, m), = v.t.items()
                if k[0] == 'bv' and m == 1:
                    return self.to_bv(BV(k[1]), w, sg)
                if k[0] == 'if' and m == 1:
                    return self.to_bv(BV((k[1],)), w, sg)
                if k[0] == 'bv' and m > 0 and m & (m - 1) == 0:
                    s = m.bit_length() - 1
                    return self.to_bv(BV((0,) * s + k[1]), w, sg)
            if len(v.t) == 1:
                (k, m), = v.t.items()
                if k[0] in ('bv', 'sbv', 'if') and m > 0 and m & (m - 1) == 0 and w <= 64:
                    a = (k[1],) if k[0] == 'if' else k[1]
                    fill = a[-1] if k[0] == 'sbv' else 0
                    a = (0,) * (m.bit_length() - 1) + tuple(a)
                    a = (a + (fill,) * w)[:w]
                    return BV(self.add_bits(a, [(v.c >> i) & 1 for i in range(w)]), sg)
            return src_bv(('lin', v.key()), w, sg)
        if isinstance(v, Opt):
            return BV((v.p,) + (0,) * (w - 1))
        if isinstance(v, Ptr):
            return BV((0 if v.root == 'null' else 1,) + (0,) * (w - 1))
        return BV([B.opaque('top') for _ in range(w)], sg)

    def add_bits(self, a, b):
        out, c = [], 0
        for x, y in zip(a, b):
            t = B.XOR(x, y)
            out.append(B.guard(B.XOR(t, c)))
            c = B.guard(B.OR(B.AND(x, y), B.AND(t, c)))
        return out

    def to_lin(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, BV):
            c = v.const()
            if c is not None:
                return Lin(c)
            b = v.b
            if v.sg and b[-1] != 0:
                return Lin(0, {('sbv', b): 1})
            while b and b[-1] == 0:
                b = b[:-1]
            if len(b) == 1:
                return Lin(0, {('if', b[0]): 1})
            # single shared bit multiplied by a constant
            nz = [(i, x) for i, x in enumerate(b) if x != 0]
            if len({x for _, x in nz}) == 1 and nz[0][1] != 1:
                return Lin(0, {('if', nz[0][1]): sum(1 << i for i, _ in nz)})
            s = 0
            while b[s] == 0:
                s += 1
            return Lin(0, {('bv', b[s:]): 1 << s})
        return Lin(0, {('top', self.fresh()): 1})

    def ub(self, atom):
        if atom[0] == 'if':
            return 1
        if atom[0] == 'bv':
            return (1 << len(atom[1])) - 1
        return self.atom_ub.get(atom)

    def minval(self, l):
        s = l.c
        for k, m in l.t.items():
            if k[0] in ('top', 'sbv'):
                return None
            if m < 0:
                u = self.ub(k)
                if u is None:
                    return None
                s += m * u
        return s

    def nonneg(self, l, st):
        m = self.minval(l)
        if m is not None and m >= 0:
            return True
        for f in st.facts:
            m = self.minval(l.add(f, -1))
            if m is not None and m >= 0:
                return True
        fs = st.facts[-8:]
        for i, f in enumerate(fs):
            for g in fs[i:]:
                m = self.minval(l.add(f, -1).add(g, -1))
                if m is not None and m >= 0:
                    return True
        return False

    def ge0(self, l, st):
        if self.nonneg(l, st):
            return 1
        if self.nonneg(Lin(-1).add(l, -1), st):
            return 0
        key = (('ge0', l.key()), 0)
        self.ge0reg[key] = l
        return B.var(key)

    def eq0(self, l, st):
        if l.isconst():
            return 1 if l.c == 0 else 0
        lo = self.minval(l)
        hi = self.minval(l.mul(-1))
        if (lo is not None and lo > 0) or (hi is not None and hi > 0):
            return 0
        if self.nonneg(l.add(Lin(1), -1), st) or self.nonneg(Lin(-1).add(l, -1), st):
            return 0
        k = l.key()
        n = l.mul(-1).key()
        if repr(n) < repr(k):
            l = l.mul(-1)
            k = n
        key = (('eq0', k), 0)
        self.ge0reg[key] = l
        return B.var(key)

    def refine(self, st, c):
        """add the affine facts implied by the branch condition c"""
        facts = list(st.facts)
        for k in B.support(c):
            if k in self.ge0reg:
                l = self.ge0reg[k]
                x = B.constrain(B.var(k), c)
                if k[0][0] == 'ge0':
                    if x == 1:
                        facts.append(l)
                    elif x == 0:
                        facts.append(Lin(-1).add(l, -1))
                elif x == 1:
                    facts.append(l)
                    facts.append(l.mul(-1))
        st.facts = tuple(facts)

    def truth(self, v, st):
        """value -> condition bit"""
        if isinstance(v, BV):
            r = 0
            for x in v.b:
                r = B.OR(r, x)
            r = B.guard(r)
        elif isinstance(v, Lin):
            r = B.NOT(self.eq0(v, st))
        elif isinstance(v, Opt):
            r = v.p
        elif isinstance(v, Ptr):
            r = 0 if v.root == 'null' else 1
        elif isinstance(v, Lam):
            r = 1
        else:
            r = B.opaque('cond')
        return B.constrain(r, st.pc)

    # ------------------------------------------------------------ join
    def mux(self, c, a, b):
        if a is b or c == 1:
            return a
        if c == 0:
            return b
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, BV) and isinstance(b, BV):
            n = max(len(a.b), len(b.b))
            if len(a.b) != len(b.b):
                a, b = self.to_bv(a, n, a.sg), self.to_bv(b, n, b.sg)
            return BV([B.ite(c, x, y) for x, y in zip(a.b, b.b)], a.sg)
        if isinstance(a, (BV, Lin)) and isinstance(b, (BV, Lin)):
            la, lb = self.to_lin(a), self.to_lin(b)
            d = la.add(lb, -1)
            if not d.isconst():
                # branch on l == 0: where both branches agree when l is zero, one expression covers both
                k = B.is_var(c)
                n = B.is_var(B.NOT(c)) if k is None else None
                if (k or n) in self.ge0reg and (k or n)[0][0] == 'eq0':
                    l = self.ge0reg[k or n]
                    if self.multiple(d, l):
                        return lb if k else la
            if d.isconst():
                if d.c == 0:
                    return la
                if d.c > 0:
                    return lb.add(Lin(0, {('if', c): d.c}))
                return la.add(Lin(0, {('if', B.NOT(c)): -d.c}))
            return Lin(0, {('ite', c, la.key(), lb.key()): 1})
        if type(a) is not type(b):
            return Top('join')
        if a.key() == b.key():
            return a
        if isinstance(a, Rec) and a.ty == b.ty:
            f = {}
            for k in a.f:
                f[k] = self.mux(c, a.f[k], b.f[k]) if k in b.f else a.f[k]
            return Rec(a.ty, f)
        if isinstance(a, Opt):
            p = B.ite(c, a.p, b.p)
            if a.v is None or a.p == 0:
                v = b.v
            elif b.v is None or b.p == 0:
                v = a.v
            else:
                v = self.mux(c, a.v, b.v)
            return Opt(p, v)
        if isinstance(a, Vec) and len(a.items) == len(b.items):
            return Vec(a.ety, [self.mux(c, x, y) for x, y in zip(a.items, b.items)], a.fixed)
        if isinstance(a, Map):
            d = {}
            op = a.open or b.open
            for k in set(a.d) | set(b.d):
                if k in a.d and k in b.d:
                    d[k] = self.mux(c, a.d[k], b.d[k])
                else:
                    op = True
            return Map(d, op, a.vty)
        if isinstance(a, Ptr) and a.root == b.root and a.path == b.path:
            return Ptr(a.root, a.path, self.to_lin(self.mux(c, a.off, b.off)))
        if isinstance(a, Flt):
            return Flt(('ite', c, a.k, b.k))
        if isinstance(a, Span) and a.p.root == b.p.root and a.p.path == b.p.path:
            return Span(self.mux(c, a.p, b.p), self.to_lin(self.mux(c, a.n, b.n)), a.ety)
        if isinstance(a, SVec) and a.name == b.name and a.ety == b.ety:
            if a.log_key() == b.log_key() and (a.tmpl is b.tmpl):
                return SVec(a.ety, self.to_lin(self.mux(c, a.n, b.n)), a.name, a.ivar, a.tmpl, a.log)
        return Top('join')

    def multiple(self, d, l):
        if not l.t:
            return False
        a, m = next(iter(l.t.items()))
        x = d.t.get(a, 0)
        return x % m == 0 and d.key() == l.mul(x // m).key()

    def join(self, c, a, b):
        s = State()
        s.mem = {}
        for r in a.mem:
            if r in b.mem:
                x, y = a.mem[r], b.mem[r]
                s.mem[r] = x if x is y else self.mux(c, x, y)
            else:
                s.mem[r] = a.mem[r]
        for r in b.mem:
            if r not in a.mem:
                s.mem[r] = b.mem[r]
        s.pc = B.OR(a.pc, b.pc)
        bk = {f.key() for f in b.facts}
        s.facts = tuple(f for f in a.facts if f.key() in bk)
        return s

    def merge(self, outs):
        """outs: [(pc, value, state)] with disjoint pcs -> (value, state)"""
        pc, v, s = outs[-1]
        for pc2, v2, s2 in reversed(outs[:-1]):
            v = self.mux(pc2, v2, v)
            s = self.join(pc2, s2, s)
        return v, s

    # ------------------------------------------------------------ memory
    def walk(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            return Top('root')
        for s in path:
            v = self.step(v, s)
        return v

    def step(self, v, s):
        if isinstance(v, Top):
            return v
        if isinstance(s, int):
            if isinstance(v, Rec) and s in v.f:
                return v.f[s]
            return Top('field')
        if s == 'v':
            if isinstance(v, Opt):
                return v.v if v.v is not None else Top('empty optional')
            return Top('optional')
        if s[0] == 'i':
            if isinstance(v, Vec):
                if isinstance(s[1], int) and 0 <= s[1] < len(v.items):
                    return v.items[s[1]]
                return Top('index')
            if isinstance(v, SVec):
                return self.selem(v, s[1])
            return Top('index')
        if s[0] == 'm':
            if isinstance(v, Map):
                return v.d.get(s[1], Top('key'))
            return Top('map')
        return Top('step')

    def selem(self, v, idx):
        if isinstance(idx, int):
            idx = Lin(idx)
        if isinstance(idx, tuple):
            idx = self.lin_of_key(idx)
        if v.tmpl is not None:
            if v.ivar is None:
                return v.tmpl
            if idx.c == 0 and list(idx.t.values()) == [1]:
                (k,) = idx.t
                return self.subst_value(v.tmpl, v.ivar, k)
            return Top('svec index')
        return self.sym_value(v.ety, (v.name, 'elem', idx.key()))

    def lin_of_key(self, k):
        return Lin(k[1], dict(k[2]))

    def subst_value(self, v, old, new):
        if old == new:
            return v
        if isinstance(v, BV):
            return BV([self.subst_bit(x, old, new) for x in v.b], v.sg)
        if isinstance(v, Lin):
            return Lin(v.c, {replace_atom(k, old, new): m for k, m in v.t.items()})
        if isinstance(v, Rec):
            return Rec(v.ty, {k: self.subst_value(x, old, new) for k, x in v.f.items()})
        if isinstance(v, Flt):
            return Flt(replace_atom(v.k, old, new))
        return v

    def subst_bit(self, b, old, new):
        if b < 2:
            return b
        k = B.is_var(b)
        if k is not None:
            return B.var(replace_atom(k, old, new))
        n = B.is_var(B.NOT(b))
        if n is not None:
            return B.NOT(B.var(replace_atom(n, old, new)))
        return B.opaque('subst', b)

    def put(self, st, root, path, val):
        st.mem[root] = self._put(st.mem.get(root, Top('root')), path, val)

    def _put(self, v, path, val):
        if not path:
            return val
        s = path[0]
        if isinstance(v, Top):
            return v
        if isinstance(s, int):
            if isinstance(v, Rec):
                return v.set(s, self._put(v.f.get(s, Top('field')), path[1:], val))
            return Top('put')
        if s == 'v':
            if isinstance(v, Opt):
                return Opt(v.p, self._put(v.v if v.v is not None else Top('empty'), path[1:], val))
            return Top('put')
        if s[0] == 'i':
            if isinstance(v, Vec) and isinstance(s[1], int) and 0 <= s[1] < len(v.items):
                it = list(v.items)
                it[s[1]] = self._put(it[s[1]], path[1:], val)
                return Vec(v.ety, it, v.fixed)
            if isinstance(v, SVec):
                idx = s[1] if not isinstance(s[1], int) else Lin(s[1]).key()
                idx = self.lin_of_key(idx)
                if idx.c == 0 and list(idx.t.values()) == [1]:
                    (k,) = idx.t
                    old = self.selem(v, idx)
                    return SVec(v.ety, v.n, v.name, k, self._put(old, path[1:], val), v.log)
                raise Unsupported('store to symbolic element')
            return Top('put')
        if s[0] == 'm':
            if isinstance(v, Map):
                d = dict(v.d)
                d[s[1]] = self._put(d.get(s[1], Top('key')), path[1:], val)
                return Map(d, v.open, v.vty)
            return Top('put')
        return Top('put')

    def load(self, st, p, tid, line=0):
        if isinstance(p, Top):
            return Top('load')
        if not isinstance(p, Ptr):
            return p
        if p.root == 'null':
            self.event('null-deref', 'null pointer read', st, line)
            return Top('null')
        v = self.walk(st, p.root, p.path)
        t = self.p.ty(tid)
        if t['c'] == 'ref':
            return self.load(st, v, t['pt'], line) if isinstance(v, Ptr) else v
        if isinstance(v, (Vec, SVec)) and not self.is_seq(tid):
            return self.load_elem(st, p, v, tid, line)
        if p.off.isconst() and p.off.c == 0:
            w = self.p.width(tid)
            if w and isinstance(v, BV) and len(v.b) != w:
                return self.to_bv(v, w, t.get('sg', False))
            return v
        if isinstance(v, Top):
            return v
        n = self.p.size(tid)
        if n is None:
            return Top('byte load')
        return self.from_bytes(self.read_bytes(st, p, n, line), tid)

    def load_elem(self, st, p, v, tid, line):
        esz = self.p.size(v.ety)
        n = self.p.size(tid)
        if isinstance(v, Vec) and p.off.isconst() and esz and esz == n and p.off.c % esz == 0:
            i = p.off.c // esz
            if 0 <= i < len(v.items):
                return v.items[i]
            self.event('oob', 'element %d of %d' % (i, len(v.items)), st, line)
            return Top('oob')
        if isinstance(v, SVec) and esz == n and self.p.ty(v.ety)['c'] == 'rec':
            idx = self.ldiv(p.off, esz)
            if idx is not None:
                return self.selem(v, idx)
        if n is None:
            return Top('elem')
        if p.off.isconst() or isinstance(v, SVec):
            return self.from_bytes(self.read_bytes(st, p, n, line), tid)
        return Top('elem')

    def store(self, st, p, val, tid, line=0):
        if not isinstance(p, Ptr):
            return
        if p.root == 'null':
            self.event('null-deref', 'null pointer write', st, line)
            return
        v = self.walk(st, p.root, p.path)
        w = self.p.width(tid)
        if w and isinstance(val, BV) and len(val.b) != w:
            val = self.to_bv(val, w, self.p.ty(tid).get('sg', False))
        elif w and isinstance(val, BV):
            val = BV(val.b, self.p.ty(tid).get('sg', False))
        if isinstance(v, (Vec, SVec)) and not self.is_seq(tid):
            esz = self.p.size(v.ety)
            n = self.p.size(tid)
            if isinstance(v, Vec) and p.off.isconst() and esz == n and p.off.c % esz == 0:
                i = p.off.c // esz
                if 0 <= i < len(v.items):
                    it = list(v.items)
                    it[i] = val
                    self.put(st, p.root, p.path, Vec(v.ety, it, v.fixed))
                else:
                    self.event('oob', 'write of element %d of %d' % (i, len(v.items)), st, line)
                return
            if n:
                self.write_bytes(st, p, self.to_bytes(val, n), line)
            return
        if p.off.isconst() and p.off.c == 0:
            self.put(st, p.root, p.path, val)
            return
        n = self.p.size(tid)
        if n:
            self.write_bytes(st, p, self.to_bytes(val, n), line)

    # bytes: list of 8-bit tuples
    def to_bytes(self, v, n):
        if isinstance(v, Lin):
            v = self.to_bv(v, 8 * n)
        if isinstance(v, BV):
            b = self.to_bv(v, 8 * n, v.sg).b
            return [b[8 * i:8 * i + 8] for i in range(n)]
        if isinstance(v, Flt):
            return [tuple(B.var((('fltbytes', v.k), 8 * i + j)) for j in range(8)) for i in range(n)]
        if isinstance(v, Vec):
            out = []
            esz = self.p.size(v.ety)
            for x in v.items:
                out.extend(self.to_bytes(x, esz))
            return out[:n]
        if isinstance(v, Rec):
            out = [None] * n
            for f, off in self.p.all_fields(v.ty):
                sz = self.p.size(f['t'])
                if sz is None:
                    continue
                bs = self.to_bytes(v.f.get(f['id'], Top('f')), sz)
                for i, x in enumerate(bs):
                    if off + i < n:
                        out[off + i] = x
            return [x if x is not None else tuple(B.var((('undef', ('padding', v.ty, i)), j)) for j in range(8))
                    for i, x in enumerate(out)]
        return [tuple(B.opaque('bytes') for _ in range(8)) for _ in range(n)]

    def from_bytes(self, bs, tid):
        t = self.p.ty(tid)
        bits = []
        for x in bs:
            bits.extend(x)
        c = t['c']
        if c == 'bool':
            return BV((bits[0],))
        if c in ('int', 'enum'):
            return BV(bits[:t['w']], t.get('sg', False))
        if c == 'float':
            k = B.is_var(bits[0]) if bits else None
            if k and k[0][0] == 'fltbytes':
                ok = all(B.is_var(b) == (k[0], i) for i, b in enumerate(bits))
                if ok:
                    return Flt(k[0][1])
            return Flt(('frombits', tuple(bits)))
        if c == 'arr':
            esz = self.p.size(t['pt'])
            return Vec(t['pt'], [self.from_bytes(bs[i * esz:(i + 1) * esz], t['pt']) for i in range(t['n'])], True)
        if c == 'rec':
            if t.get('tn') == 'std::bitset':
                return BV(bits[:int(t['ta'][0]['i'])])
            if t.get('tn') == 'std::array':
                esz = self.p.size(t['ta'][0]['t'])
                return Vec(t['ta'][0]['t'], [self.from_bytes(bs[i * esz:(i + 1) * esz], t['ta'][0]['t'])
                                             for i in range(int(t['ta'][1]['i']))], True)
            if t['rec'] in self.p.recs:
                f = {}
                for fd, off in self.p.all_fields(t['rec']):
                    sz = self.p.size(fd['t'])
                    f[fd['id']] = self.from_bytes(bs[off:off + sz], fd['t'])
                return Rec(t['rec'], f)
        return Top('frombytes')

    def valtype_bytes(self, v):
        if isinstance(v, BV):
            return max(1, len(v.b) // 8)
        if isinstance(v, Vec):
            return len(v.items) * (self.p.size(v.ety) or 1)
        if isinstance(v, Rec):
            r = self.p.recs.get(v.ty)
            return r['size'] if r else None
        if isinstance(v, Flt):
            return 16
        return None

    def read_bytes(self, st, p, n, line=0):
        if not isinstance(p, Ptr) or p.root == 'null':
            if isinstance(p, Ptr):
                self.event('null-deref', 'read through null', st, line)
            return [tuple(B.opaque('rb') for _ in range(8)) for _ in range(n)]
        v = self.walk(st, p.root, p.path)
        if isinstance(v, SVec):
            esz = self.p.size(v.ety) or 1
            if not self.nonneg(v.n.mul(esz).add(p.off, -1).add(Lin(n), -1), st) or not self.nonneg(p.off, st):
                self.event('oob-unproved', 'read [%r,+%d) of %r bytes %s' % (p.off, n, v.n.mul(esz), v.name), st, line)
            return self.svec_read(v, p.off, n)
        if p.off.isconst():
            sz = self.valtype_bytes(v)
            if sz is not None:
                o = p.off.c
                if o < 0 or o + n > sz:
                    self.event('oob', 'read [%d,%d) of %d bytes' % (o, o + n, sz), st, line)
                    bs = self.to_bytes(v, sz)
                    return [bs[i] if 0 <= i < sz else tuple(B.opaque('oob') for _ in range(8))
                            for i in range(o, o + n)]
                if isinstance(v, Vec) and self.p.size(v.ety) == 1:
                    out = []
                    for i in range(o, o + n):
                        it = v.items[i]
                        out.append(it.b if isinstance(it, BV) and len(it.b) == 8 else self.to_bytes(it, 1)[0])
                    return out
                return self.to_bytes(v, sz)[o:o + n]
        elif isinstance(v, Vec):
            self.event('symbolic-offset', 'read at %r' % (p.off,), st, line)
        return [tuple(B.opaque('rb') for _ in range(8)) for _ in range(n)]

    def svec_read(self, v, off, n):
        out = []
        for i in range(n):
            o = off.add(Lin(i))
            out.append(self.svec_byte(v, o))
        return out

    def svec_byte(self, v, o):
        for w in reversed(v.log):
            if w.rep:
                d = o.add(w.off, -1)
                if w.off.t.get(w.rep[0]) and d.isconst() and 0 <= d.c < len(w.bytes):
                    return w.bytes[d.c]
                return tuple(B.opaque('svec') for _ in range(8))
            d = o.add(w.off, -1)
            if d.isconst():
                if 0 <= d.c < len(w.bytes):
                    return w.bytes[d.c]
                continue
            return tuple(B.opaque('svec') for _ in range(8))
        esz = self.p.size(v.ety) or 1
        if v.tmpl is not None and esz:
            q = self.ldivmod(o, esz)
            if q is not None:
                return self.to_bytes(self.selem(v, q[0]), esz)[q[1]]
        if esz > 1:
            q = self.ldivmod(o, esz)
            if q is not None:
                return self.to_bytes(self.selem(v, q[0]), esz)[q[1]]
        k = o.key()
        return tuple(B.var(((v.name, 'byte', k), j)) for j in range(8))

    def ldiv(self, l, d):
        r = self.ldivmod(l, d)
        return r[0] if r is not None and r[1] == 0 else None

    def ldivmod(self, l, d):
        if any(m % d for m in l.t.values()):
            return None
        q, r = divmod(l.c, d)
        return Lin(q, {k: m // d for k, m in l.t.items()}), r

    def write_bytes(self, st, p, bs, line=0):
        if not isinstance(p, Ptr):
            return
        if p.root == 'null':
            self.event('null-deref', 'write through null', st, line)
            return
        v = self.walk(st, p.root, p.path)
        n = len(bs)
        if isinstance(v, SVec):
            esz = self.p.size(v.ety) or 1
            if not self.nonneg(v.n.mul(esz).add(p.off, -1).add(Lin(n), -1), st) or not self.nonneg(p.off, st):
                self.event('oob-unproved', 'write [%r,+%d) of %r bytes %s' % (p.off, n, v.n.mul(esz), v.name), st, line)
            self.put(st, p.root, p.path,
                     SVec(v.ety, v.n, v.name, v.ivar, v.tmpl, v.log + (Write(p.off, bs, None, line),)))
            return
        if isinstance(v, Top):
            return
        sz = self.valtype_bytes(v)
        if sz is None:
            return
        if not p.off.isconst():
            self.event('symbolic-offset', 'write at %r' % (p.off,), st, line)
            self.put(st, p.root, p.path, Top('symbolic write'))
            return
        o = p.off.c
        if o < 0 or o + n > sz:
            self.event('oob', 'write [%d,%d) of %d bytes' % (o, o + n, sz), st, line)
            bs = bs[:max(0, sz - o)]
            n = len(bs)
            if o < 0:
                return
        if isinstance(v, Vec) and self.p.size(v.ety) == 1:
            it = list(v.items)
            for i in range(n):
                it[o + i] = BV(bs[i])
            self.put(st, p.root, p.path, Vec(v.ety, it, v.fixed))
            return
        all_ = self.to_bytes(v, sz)
        all_[o:o + n] = bs
        if isinstance(v, BV):
            bits = []
            for x in all_:
                bits.extend(x)
            self.put(st, p.root, p.path, BV(bits[:len(v.b)], v.sg))
        elif isinstance(v, Vec):
            esz = self.p.size(v.ety)
            self.put(st, p.root, p.path,
                     Vec(v.ety, [self.from_bytes(all_[i * esz:(i + 1) * esz], v.ety) for i in range(len(v.items))], v.fixed))
        elif isinstance(v, Rec):
            f = {}
            for fd, off in self.p.all_fields(v.ty):
                s2 = self.p.size(fd['t'])
                f[fd['id']] = self.from_bytes(all_[off:off + s2], fd['t'])
            self.put(st, p.root, p.path, Rec(v.ty, f))
        elif isinstance(v, Flt):
            bits = []
            for x in all_:
                bits.extend(x)
            k = B.is_var(bits[0])
            if k and k[0][0] == 'fltbytes':
                self.put(st, p.root, p.path, Flt(k[0][1]))
            else:
                self.put(st, p.root, p.path, Flt(('frombits', tuple(bits[:8 * n]))))
        else:
            self.put(st, p.root, p.path, Top('write'))

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, a, b, tid, oty, st):
        """integer arithmetic; tid result type, oty operand type"""
        t = self.p.ty(tid)
        w = self.p.width(tid) or 64
        sg = t.get('sg', False)
        ot = self.p.ty(oty)
        osg = ot.get('sg', False)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, a, b, osg, st)
        if isinstance(a, Top) or isinstance(b, Top):
            return Top('arith')
        if isinstance(a, Opt) or isinstance(b, Opt):
            return Top('arith')
        if not isinstance(a, (BV, Lin)) or not isinstance(b, (BV, Lin)):
            return Top('arith')
        ca = a.const() if isinstance(a, BV) else (a.c if a.isconst() else None)
        cb = b.const() if isinstance(b, BV) else (b.c if b.isconst() else None)
        if ca is not None and cb is not None:
            r = self.carith(op, ca, cb, w)
            if r is None:
                return Top('arith')
            if isinstance(a, Lin) or isinstance(b, Lin):
                if 0 <= r < (1 << w):
                    return Lin(r)
            return const_bv(r, w, sg)
        lin = isinstance(a, Lin) or isinstance(b, Lin)
        if op in ('&', '|', '^') and not (lin and op == '&' and False):
            x, y = self.to_bv(a, w, sg), self.to_bv(b, w, sg)
            f = {'&': B.AND, '|': B.OR, '^': B.XOR}[op]
            return BV([B.guard(f(p, q)) for p, q in zip(x.b, y.b)], sg)
        if op in ('<<', '>>'):
            if cb is None:
                return Top('shift')
            if isinstance(a, Lin):
                if op == '<<':
                    return a.mul(1 << cb)
                q = self.floordiv(a, 1 << cb)
                return q
            bits = self.to_bv(a, w, sg).b
            if cb >= w:
                return const_bv(0, w, sg) if not (sg and op == '>>') else Top('shift')
            if op == '<<':
                return BV((0,) * cb + bits[:w - cb], sg)
            fill = bits[-1] if sg else 0
            return BV(bits[cb:] + (fill,) * cb, sg)
        if op == '+' and not lin:
            x, y = self.to_bv(a, w, sg), self.to_bv(b, w, sg)
            if all(p == 0 or q == 0 for p, q in zip(x.b, y.b)):
                return BV([B.OR(p, q) for p, q in zip(x.b, y.b)], sg)
        if op in ('*',) and not lin:
            c, o = (ca, b) if ca is not None else (cb, a)
            if c is not None and c > 0 and c & (c - 1) == 0:
                s = c.bit_length() - 1
                bits = self.to_bv(o, w, sg).b
                return BV((0,) * s + bits[:w - s], sg)
            if c == 0:
                return const_bv(0, w, sg)
        if op in ('/', '%') and not lin and cb is not None and cb > 0 and cb & (cb - 1) == 0 and not (sg and self.to_bv(a, w, sg).b[-1] != 0):
            s = cb.bit_length() - 1
            bits = self.to_bv(a, w, sg).b
            return BV(bits[s:] + (0,) * s, sg) if op == '/' else BV(bits[:s] + (0,) * (w - s), sg)
        la, lb = self.to_lin(a), self.to_lin(b)
        if op == '+':
            return la.add(lb)
        if op == '-':
            return la.add(lb, -1)
        if op == '*':
            if cb is not None:
                return la.mul(cb)
            if ca is not None:
                return lb.mul(ca)
            return Lin(0, {('mul', la.key(), lb.key()): 1})
        if op == '/' and cb:
            return self.floordiv(la, cb)
        if op == '%' and cb:
            if all(m % cb == 0 for m in la.t.values()):
                return Lin(la.c % cb)
            k = ('mod', la.key(), cb)
            self.atom_ub[k] = cb - 1
            return Lin(0, {k: 1})
        return Top('arith ' + op)

    def floordiv(self, l, d):
        if d == 1:
            return l
        if all(m % d == 0 for m in l.t.values()):
            return Lin(l.c // d, {k: m // d for k, m in l.t.items()})
        # split off the divisible part
        q = Lin(0, {k: m // d for k, m in l.t.items() if m % d == 0})
        r = Lin(l.c, {k: m for k, m in l.t.items() if m % d})
        return q.add(Lin(0, {('div', r.key(), d): 1}))

    def carith(self, op, a, b, w):
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b == 0:
                    return None
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if op == '%':
                if b == 0:
                    return None
                return a - b * self.carith('/', a, b, w)
            if op == '&':
                return a & b
            if op == '|':
                return a | b
            if op == '^':
                return a ^ b
            if op == '<<':
                return a << b if 0 <= b < 128 else None
            if op == '>>':
                return a >> b if 0 <= b else None
        except Exception:
            return None
        return None

    def compare(self, op, a, b, sg, st):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.root == b.root and a.path == b.path:
                a, b = a.off, b.off
            elif 'null' in (a.root, b.root):
                return bool_bv({'==': 0, '!=': 1}.get(op, 0))
            else:
                return bool_bv(B.opaque('ptrcmp'))
        if isinstance(a, Flt) or isinstance(b, Flt):
            if isinstance(a, Flt) and isinstance(b, Flt) and a.k[0] == 'const' and b.k[0] == 'const':
                x, y = a.k[1], b.k[1]
                return bool_bv(int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]))
            ka = a.key() if isinstance(a, V) else a
            kb = b.key() if isinstance(b, V) else b
            if ka == kb:
                return bool_bv({'==': 1, '!=': 0}.get(op, 0))
            k = (('fcmp', op, ka, kb), 0)
            return bool_bv(B.var(k))
        if not isinstance(a, (BV, Lin)) or not isinstance(b, (BV, Lin)):
            return bool_bv(B.opaque('cmp'))
        if isinstance(a, BV) and isinstance(b, BV):
            n = max(len(a.b), len(b.b))
            x, y = self.to_bv(a, n, a.sg).b, self.to_bv(b, n, b.sg).b
            if op in ('==', '!='):
                r = 1
                for p, q in zip(x, y):
                    r = B.AND(r, B.NOT(B.XOR(p, q)))
                    if r == 0:
                        break
                r = B.guard(r)
                return bool_bv(r if op == '==' else B.NOT(r))
            if op in ('>', '<='):
                x, y = y, x
            if sg:
                x = x[:-1] + (B.NOT(x[-1]),)
                y = y[:-1] + (B.NOT(y[-1]),)
            nv = sum(1 for p in x + y if p > 1)
            if nv <= 40 and (all(p < 2 for p in x) or all(p < 2 for p in y)):
                lt = 0
                for p, q in zip(x, y):        # LSB first
                    lt = B.ite(B.XOR(p, q), B.AND(B.NOT(p), q), lt)
                return bool_bv(lt if op in ('<', '>') else B.NOT(lt))
            x, y = (BV(x), BV(y))
            if sg:
                return bool_bv(B.opaque('scmp', *[q for q in x.b + y.b]))
            if op in ('>', '<='):
                a, b = y, x
            else:
                a, b = x, y
        la, lb = self.to_lin(a), self.to_lin(b)
        d = la.add(lb, -1)
        if op == '==':
            return bool_bv(self.eq0(d, st))
        if op == '!=':
            return bool_bv(B.NOT(self.eq0(d, st)))
        if op == '>=':
            return bool_bv(self.ge0(d, st))
        if op == '<':
            return bool_bv(B.NOT(self.ge0(d, st)))
        if op == '<=':
            return bool_bv(self.ge0(d.mul(-1), st))
        return bool_bv(B.NOT(self.ge0(d.mul(-1), st)))

    def fscale(self, v, f):
        if f == 1:
            return v
        k = v.k
        if k[0] == 'const':
            return Flt(('const', k[1] * f))
        if k[0] == 'scale':
            return self.fscale(Flt(k[1]), k[2] * f) if k[2] * f == 1 else Flt(('scale', k[1], k[2] * f))
        return Flt(('scale', k, f))

    def farith(self, op, a, b):
        if not isinstance(a, Flt) or not isinstance(b, Flt):
            return Flt(('opaque', self.fresh()))
        ca = a.k[1] if a.k[0] == 'const' else None
        cb = b.k[1] if b.k[0] == 'const' else None
        if ca is not None and cb is not None:
            if op == '+':
                return Flt(('const', ca + cb))
            if op == '-':
                return Flt(('const', ca - cb))
            if op == '*':
                return Flt(('const', ca * cb))
            if op == '/' and cb:
                return Flt(('const', ca / cb))
        if op == '*' and cb is not None:
            return self.fscale(a, cb)
        if op == '*' and ca is not None:
            return self.fscale(b, ca)
        if op == '/' and cb:
            return self.fscale(a, 1 / cb)
        return Flt(('op', op, a.k, b.k))

    def f2i(self, v, w, sg):
        if isinstance(v, Flt):
            k = v.k
            if k[0] == 'round':
                i = k[1]
                mode = 'fix'
            else:
                i = k
                mode = 'trunc'
            if i[0] == 'const':
                x = i[1]
                n = int(x + Fraction(1, 2)) if x >= 0 else -int(-x + Fraction(1, 2))
                if mode == 'trunc':
                    n = int(x)
                lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
                if not lo <= n <= hi:
                    return BV([B.var((('fpoverflow', str(x), w), j)) for j in range(w)], sg)
                return const_bv(n, w, sg)
            if i[0] == 'scale':
                return src_bv((mode, i[1], i[2], w, sg), w, sg)
            return src_bv((mode, i, Fraction(1), w, sg), w, sg)
        return BV([B.opaque('f2i') for _ in range(w)], sg)

    def i2f(self, v, tid):
        if isinstance(v, Lin):
            if v.isconst():
                return Flt(('const', Fraction(v.c)))
            v = self.to_bv(v, 64)
        if isinstance(v, BV):
            c = v.const()
            if c is not None:
                return Flt(('const', Fraction(c)))
            # int(fix(x,f)) with all bits in order  ==  round(x*f)
            k = B.is_var(v.b[0])
            if k and isinstance(k[0], tuple) and k[0][0] == 'fix' and all(B.is_var(x) == (k[0], i) for i, x in enumerate(v.b)):
                return Flt(('int', v.b, v.sg))
            return Flt(('int', v.b, v.sg))
        return Flt(('opaque', self.fresh()))

    # ------------------------------------------------------------ conversions between types
    def conv(self, v, from_t, to_t):
        ft, tt = self.p.ty(from_t), self.p.ty(to_t)
        if ft['c'] == 'ref':
            ft = self.p.ty(ft['pt'])
        fi, ti = ft['c'] in ('int', 'enum', 'bool'), tt['c'] in ('int', 'enum', 'bool')
        if tt['c'] == 'bool' and fi:
            return bool_bv(B.guard(self._or(v)))
        if fi and ti:
            return self.icast(v, ft.get('sg', False), tt)
        if fi and tt['c'] == 'float':
            return self.i2f(v, to_t)
        if ft['c'] == 'float' and ti:
            return self.f2i(v, tt['w'], tt.get('sg', False))
        if tt['c'] == 'rec' and tt.get('tn') == 'std::optional' and not isinstance(v, Opt):
            return Opt(1, self.conv(v, from_t, self.targ(tt)))
        return v

    def _or(self, v):
        if isinstance(v, BV):
            r = 0
            for x in v.b:
                r = B.OR(r, x)
            return r
        if isinstance(v, Lin):
            return B.NOT(self.eq0(v, State()))
        return B.opaque('bool')

    def icast(self, v, fsg, tt):
        w = tt.get('w') if tt['c'] != 'bool' else 1
        sg = tt.get('sg', False)
        if isinstance(v, BV):
            return self.to_bv(BV(v.b, fsg if len(v.b) > 1 else False), w, sg)
        if isinstance(v, Lin):
            if v.isconst():
                if 0 <= v.c < (1 << w):
                    return v
                return const_bv(v.c, w, sg)
            if w >= 32:
                return v
            return self.to_bv(v, w, sg)
        return v

    # ------------------------------------------------------------ expressions
    def ev(self, e, st, fr):
        self.steps += 1
        return getattr(self, 'e_' + e['k'], self.e_default)(e, st, fr)

    def rv(self, e, st, fr):
        """evaluate and, for glvalues, load"""
        v = self.ev(e, st, fr)
        if e.get('lv') or e.get('xv') or e['k'] == 'mat':
            return self.load(st, v, e['t'], e.get('l', 0))
        return v

    def lv(self, e, st, fr):
        """evaluate to an address; prvalues are materialised"""
        v = self.ev(e, st, fr)
        if e.get('lv') or e.get('xv') or e['k'] == 'mat':
            return v if isinstance(v, Ptr) else self.alloc(st, v)
        return self.alloc(st, v)

    def e_default(self, e, st, fr):
        for x in e.get('a') or []:
            if isinstance(x, dict):
                self.ev(x, st, fr)
        return Top('expr ' + e['k'] + ' ' + str(e.get('why', '')))

    def e_const(self, e, st, fr):
        t = self.p.ty(e['t'])
        if 'fv' in e:
            s = e['fv']
            try:
                return Flt(('const', Fraction(s)))
            except Exception:
                return Flt(('opaque', s))
        if 'v' in e:
            n = int(e['v'])
            if t['c'] == 'bool':
                return bool_bv(n & 1)
            return const_bv(n, t.get('w', 32), t.get('sg', False))
        return Top('const')

    def e_str(self, e, st, fr):
        return Str(e['v'])

    def e_null(self, e, st, fr):
        return NULL

    def e_zero(self, e, st, fr):
        return self.zero_value(e['t'])

    def e_this(self, e, st, fr):
        return fr.this if fr.this is not None else Top('this')

    def e_ref(self, e, st, fr):
        p = fr.env.get(e['id'])
        if p is None:
            p = fr.caps.get(e['id'])
        if p is None:
            g = ('g', e['id'])
            if g not in st.mem:
                if e.get('ginit') is not None:
                    v = self.ev(e['ginit'], st, fr)
                    if e['ginit'].get('lv') or e['ginit']['k'] == 'mat':
                        v = self.load(st, v, e['t'])
                    st.mem[g] = v
                elif self.p.ty(e['t']).get('s', '').find('nullopt_t') >= 0:
                    st.mem[g] = Str('<nullopt>')
                else:
                    st.mem[g] = Top('global ' + e.get('n', ''))
            p = Ptr(g)
        return p

    def bind_ref(self, st, fr, vid, ptr):
        fr.env[vid] = ptr

    def e_fref(self, e, st, fr):
        return FnRef(e['f'])

    def e_mem(self, e, st, fr):
        b = e['b']
        base = self.rv(b, st, fr) if e.get('arrow') else self.lv(b, st, fr)
        if not isinstance(base, Ptr):
            return Top('mem of ' + repr(base)[:40])
        if 'global' in e:
            return Top('static member')
        p = base
        v = self.walk(st, base.root, base.path)
        if isinstance(v, Vec) or isinstance(v, SVec):      # pointer into a sequence of records
            esz = self.p.size(v.ety)
            if isinstance(v, Vec) and base.off.isconst():
                p = Ptr(base.root, base.path + (('i', base.off.c // esz),))
            else:
                q = self.ldiv(base.off, esz)
                if q is None:
                    return Top('mem')
                p = Ptr(base.root, base.path + (('i', q.key()),))
        r = Ptr(p.root, p.path + (e['id'],))
        info = self.p.fieldinfo.get(e['id'])
        if info and self.p.ty(info[1]['t'])['c'] == 'ref':
            v = self.walk(st, r.root, r.path)
            return v
        return r

    def e_memf(self, e, st, fr):
        return FnRef(e['f'])

    def e_mat(self, e, st, fr):
        v = self.ev(e['e'], st, fr)
        if e['e'].get('lv') or e['e'].get('xv'):
            return v
        return self.alloc(st, v)

    def e_stdinit(self, e, st, fr):
        v = self.rv(e['e'], st, fr)
        return v

    def e_init(self, e, st, fr):
        t = self.p.ty(e['t'])
        if t['c'] == 'arr':
            items = [self.rv(x, st, fr) for x in e['a']]
            fill = e.get('fill')
            while len(items) < t['n']:
                items.append(self.rv(fill, st, fr) if fill else self.zero_value(t['pt']))
            return Vec(t['pt'], items, True)
        if t['c'] == 'rec':
            if t.get('tn') == 'std::array':
                if len(e['a']) == 1 and isinstance(e['a'][0], dict) and self.p.ty(e['a'][0]['t'])['c'] == 'arr':
                    v = self.rv(e['a'][0], st, fr)
                    return Vec(v.ety, v.items, True) if isinstance(v, Vec) else v
                return self.zero_value(e['t'])
            v = self.default_rec(e['t'], zero=True)
            if isinstance(v, Rec):
                r = self.p.recs[t['rec']]
                members = [('b', b) for b in r['bases']] + [('f', f) for f in r['fields']]
                for (k, m), x in zip(members, e['a']):
                    if k == 'f':
                        y = self.lv(x, st, fr) if self.p.ty(m['t'])['c'] == 'ref' else self.rv(x, st, fr)
                        v = v.set(m['id'], y)
                    else:
                        y = self.rv(x, st, fr)
                        if isinstance(y, Rec):
                            for kk, vv in y.f.items():
                                v = v.set(kk, vv)
                return v
            return v
        if e['a']:
            return self.rv(e['a'][0], st, fr)
        return self.zero_value(e['t'])

    def e_lambda(self, e, st, fr):
        caps = {}
        this = None
        for c in e['cap']:
            if c.get('this'):
                this = fr.this
                continue
            if 'id' not in c:
                continue
            src = fr.env.get(c['id']) or fr.caps.get(c['id'])
            if c.get('byref'):
                if src is not None:
                    caps[c['id']] = src
            else:
                v = self.rv(c['e'], st, fr) if c.get('e') else (self.load(st, src, -1) if src else Top('cap'))
                caps[c['id']] = self.alloc(st, v, 'cap')
        return Lam(e.get('f'), caps, this)

    def e_throw(self, e, st, fr):
        if e.get('e'):
            self.ev(e['e'], st, fr)
        self.event('throw', 'throw expression', st, e.get('l', 0))
        raise Thrown()

    def e_new(self, e, st, fr):
        v = self.rv(e['e'], st, fr) if e.get('e') else self.undef_value(e['at'], 'new')
        return self.alloc(st, v, 'heap')

    def e_delete(self, e, st, fr):
        self.ev(e['e'], st, fr)
        return VOID

    def e_opaque(self, e, st, fr):
        return self.e_default(e, st, fr)

    def e_stmtexpr(self, e, st, fr):
        raise Unsupported('statement expression')

    def e_cond(self, e, st, fr):
        c = self.truth(self.rv(e['c'], st, fr), st)
        get = self.ev
        if c == 1:
            return get(e['a'], st, fr)
        if c == 0:
            return get(e['b'], st, fr)
        s1 = st.copy()
        s1.pc = B.AND(st.pc, c)
        self.refine(s1, c)
        s2 = st.copy()
        s2.pc = B.AND(st.pc, B.NOT(c))
        self.refine(s2, B.NOT(c))
        dead1 = dead2 = False
        a = b = None
        try:
            a = get(e['a'], s1, fr)
        except Thrown:
            dead1 = True
        try:
            b = get(e['b'], s2, fr)
        except Thrown:
            dead2 = True
        if dead1 and dead2:
            raise Thrown()
        if dead1:
            st.take(s2)
            return b
        if dead2:
            st.take(s1)
            return a
        if e.get('lv') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.key() != b.key():
            a, b = self.load(s1, a, e['t']), self.load(s2, b, e['t'])
            st.take(self.join(c, s1, s2))
            return self.alloc(st, self.mux(c, a, b))
        st.take(self.join(c, s1, s2))
        return self.mux(c, a, b)

    def e_idx(self, e, st, fr):
        a, b = self.rv(e['a'], st, fr) if not e['a'].get('lv') else self.lv(e['a'], st, fr), self.rv(e['b'], st, fr)
        if not isinstance(a, Ptr):
            return Top('idx')
        n = self.p.size(e['t']) or 1
        return self.elem_ptr(st, a.plus(self.to_lin(b).mul(n)), e['t'])

    def elem_ptr(self, st, p, tid):
        """normalise an address inside a sequence of records/scalars to an element path"""
        v = self.walk(st, p.root, p.path)
        if isinstance(v, Vec) and p.off.isconst():
            esz = self.p.size(v.ety)
            if esz and esz == self.p.size(tid) and p.off.c % esz == 0 and 0 <= p.off.c // esz < len(v.items):
                if self.p.ty(v.ety)['c'] == 'rec':
                    return Ptr(p.root, p.path + (('i', p.off.c // esz),))
        if isinstance(v, SVec) and self.p.ty(v.ety)['c'] == 'rec':
            esz = self.p.size(v.ety)
            q = self.ldiv(p.off, esz) if esz else None
            if q is not None:
                return Ptr(p.root, p.path + (('i', q.key()),))
        return p

    def e_un(self, e, st, fr):
        op = e['op']
        x = e['e']
        if op == '&':
            v = self.lv(x, st, fr)
            return v
        if op == '*':
            p = self.rv(x, st, fr)
            if isinstance(p, FnRef):
                return p
            if isinstance(p, Ptr):
                return self.elem_ptr(st, p, e['t'])
            return Top('deref')
        if op in ('++', '--'):
            p = self.lv(x, st, fr)
            old = self.load(st, p, x['t'], e.get('l', 0))
            d = 1 if op == '++' else -1
            new = self.addptr_or_int(old, d, x['t'], st)
            self.store(st, p, new, x['t'], e.get('l', 0))
            if e.get('post'):
                return old
            return p if e.get('lv') else new
        v = self.rv(x, st, fr)
        t = self.p.ty(e['t'])
        if op == '!':
            return bool_bv(B.NOT(self.truth_raw(v, st)))
        if op == '-':
            if isinstance(v, Flt):
                return self.fscale(v, Fraction(-1))
            if isinstance(v, BV) and v.const() is not None:
                return const_bv(-v.const(), t['w'], t.get('sg', False))
            return Top('neg')
        if op == '~':
            v = self.to_bv(v, t['w'], t.get('sg', False))
            return BV([B.NOT(b) for b in v.b], v.sg)
        if op == '+':
            return v
        return Top('un ' + op)

    def truth_raw(self, v, st):
        if isinstance(v, BV) and len(v.b) == 1:
            return v.b[0]
        return self.truth(v, st)

    def addptr_or_int(self, v, d, tid, st):
        t = self.p.ty(tid)
        if t['c'] == 'ref':
            tid = t['pt']
            t = self.p.ty(tid)
        if isinstance(v, Ptr):
            if t['c'] == 'ptr':
                n = self.p.size(t['pt']) or 1
            else:
                n = self.seq_esz(st, v)
            return v.plus(Lin(d * n))
        if isinstance(v, Flt):
            return self.farith('+', v, Flt(('const', Fraction(d))))
        if isinstance(v, Lin):
            return v.add(Lin(d))
        if isinstance(v, BV):
            c = v.const()
            if c is not None:
                return const_bv(c + d, len(v.b), v.sg)
            return self.to_lin(v).add(Lin(d))
        return Top('inc')

    def seq_esz(self, st, p):
        v = self.walk(st, p.root, p.path)
        if isinstance(v, (Vec, SVec)):
            return self.p.size(v.ety) or 1
        return 1

    def e_bin(self, e, st, fr):
        op = e['op']
        if op == ',':
            self.ev(e['a'], st, fr)
            return self.ev(e['b'], st, fr)
        if op in ('&&', '||'):
            ca = self.truth(self.rv(e['a'], st, fr), st)
            if op == '&&' and ca == 0:
                return bool_bv(0)
            if op == '||' and ca == 1:
                return bool_bv(1)
            if (op == '&&' and ca == 1) or (op == '||' and ca == 0):
                return bool_bv(self.truth_raw(self.rv(e['b'], st, fr), st))
            c = ca if op == '&&' else B.NOT(ca)
            s1 = st.copy()
            s1.pc = B.AND(st.pc, c)
            self.refine(s1, c)
            vb = self.truth(self.rv(e['b'], s1, fr), s1)
            s2 = st.copy()
            s2.pc = B.AND(st.pc, B.NOT(c))
            st.take(self.join(c, s1, s2))
            return bool_bv(B.guard(B.AND(ca, vb) if op == '&&' else B.OR(ca, vb)))
        if e.get('assign'):
            return self.assign(e, st, fr)
        a, b = self.rv(e['a'], st, fr), self.rv(e['b'], st, fr)
        return self.binop(op, a, b, e['a']['t'], e['b']['t'], e['t'], st)

    def binop(self, op, a, b, ta, tb, tr, st):
        A, Bt = self.p.ty(ta), self.p.ty(tb)
        if A['c'] == 'ptr' or Bt['c'] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == '+':
                if isinstance(b, Ptr):
                    a, b, A = b, a, Bt
                if isinstance(a, Ptr):
                    n = (self.p.size(A['pt']) or 1) if A['c'] == 'ptr' else self.seq_esz(st, a)
                    return a.plus(self.to_lin(b).mul(n))
                return Top('ptr+')
            if op == '-':
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    if a.root == b.root and a.path == b.path:
                        n = (self.p.size(A['pt']) or 1) if A['c'] == 'ptr' else self.seq_esz(st, a)
                        d = a.off.add(b.off, -1)
                        q = self.ldiv(d, n)
                        return q if q is not None else self.floordiv(d, n)
                    return Top('ptr-')
                if isinstance(a, Ptr):
                    n = (self.p.size(A['pt']) or 1) if A['c'] == 'ptr' else self.seq_esz(st, a)
                    return a.plus(self.to_lin(b).mul(-n))
                return Top('ptr-')
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.compare(op, a, b, False, st)
        if A['c'] == 'float' or Bt['c'] == 'float' or isinstance(a, Flt) or isinstance(b, Flt):
            if op in ('==', '!=', '<', '>', '<=', '>='):
                return self.compare(op, a, b, False, st)
            return self.farith(op, a, b)
        return self.arith(op, a, b, tr, ta, st)

    def assign(self, e, st, fr):
        op = e['op']
        if op == '=':
            val = self.rv(e['b'], st, fr)
            p = self.lv(e['a'], st, fr)
            self.store(st, p, val, e['a']['t'], e.get('l', 0))
            return p
        p = self.lv(e['a'], st, fr)
        old = self.load(st, p, e['a']['t'], e.get('l', 0))
        b = self.rv(e['b'], st, fr)
        ct = e.get('ct', e['a']['t'])
        clt = e.get('clt', e['a']['t'])
        a = self.conv(old, e['a']['t'], clt)
        r = self.binop(op[:-1], a, b, clt, e['b']['t'], ct, st)
        r = self.conv(r, ct, e['a']['t'])
        self.store(st, p, r, e['a']['t'], e.get('l', 0))
        return p

    PASS = {'NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'LValueBitCast',
            'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'FunctionToPointerDecay',
            'Dynamic', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'BuiltinFnToFnPtr'}

    def e_cast(self, e, st, fr):
        ck = e['ck']
        x = e['e']
        if ck == 'LValueToRValue':
            p = self.ev(x, st, fr)
            return self.load(st, p, x['t'], e.get('l', 0)) if isinstance(p, Ptr) else p
        if ck == 'ArrayToPointerDecay':
            return self.lv(x, st, fr) if x['k'] != 'str' else self.ev(x, st, fr)
        if ck in self.PASS:
            return self.ev(x, st, fr)
        v = self.rv(x, st, fr)
        t = self.p.ty(e['t'])
        ft = self.p.ty(x['t'])
        if ck == 'IntegralCast' or ck == 'BooleanToSignedIntegral':
            return self.icast(v, ft.get('sg', False), t)
        if ck == 'IntegralToBoolean':
            return bool_bv(self._or(v))
        if ck == 'IntegralToFloating':
            return self.i2f(v, e['t'])
        if ck == 'FloatingToIntegral':
            return self.f2i(v, t['w'], t.get('sg', False))
        if ck == 'FloatingCast':
            return v
        if ck == 'FloatingToBoolean':
            return bool_bv(B.opaque('f2b'))
        if ck == 'NullToPointer':
            return NULL
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return bool_bv(self.truth(v, st))
        if ck == 'ToVoid':
            return VOID
        return Top('cast ' + ck)

    # ------------------------------------------------------------ statements
    # return True when control falls through
    def ex(self, s, st, fr):
        if s is None:
            return True
        self.steps += 1
        try:
            return getattr(self, 's_' + s['k'])(s, st, fr)
        except Thrown:
            return False

    def s_block(self, s, st, fr):
        for x in s['s']:
            if not self.ex(x, st, fr):
                return False
        return True

    def s_null(self, s, st, fr):
        return True

    def s_opaque(self, s, st, fr):
        raise Unsupported('statement ' + s.get('why', ''))

    def s_expr(self, s, st, fr):
        self.ev(s['e'], st, fr)
        return not self.noreturn(s['e'])

    def noreturn(self, e):
        return e['k'] == 'call' and e.get('f', {}).get('noreturn', False)

    def s_decl(self, s, st, fr):
        for v in s['v']:
            self.declare(v, st, fr)
        return True

    def declare(self, v, st, fr):
        t = self.p.ty(v['t'])
        init = v.get('init')
        if v.get('bind'):
            val = self.rv(init, st, fr)
            base = self.alloc(st, val, 'dec')
            fr.env[v['id']] = base
            for b in v['bind']:
                fr.env[b['id']] = self.alloc(st, Top('binding'))
                if b.get('e') is not None:
                    fr.env[b['id']] = self.lv(b['e'], st, fr)
            return
        if t['c'] == 'ref':
            fr.env[v['id']] = self.lv(init, st, fr) if init else self.alloc(st, Top('ref'))
            return
        if init is None:
            val = self.undef_value(v['t'], v['n']) if t['c'] != 'rec' or t.get('tn') == 'std::array' else self.construct_default(v['t'], st)
        else:
            val = self.rv(init, st, fr)
            w = self.p.width(v['t'])
            if w and isinstance(val, BV) and len(val.b) != w:
                val = self.to_bv(val, w, t.get('sg', False))
        fr.env[v['id']] = self.alloc(st, val, 'v_' + v['n'])

    def s_ret(self, s, st, fr):
        v = VOID
        if s.get('e') is not None:
            e = s['e']
            rt = self.p.ty(fr.fn['ret'])
            if rt['c'] == 'ref':
                v = self.lv(e, st, fr)
            else:
                v = self.rv(e, st, fr)
        fr.rets.append((st.pc, v, st.copy()))
        return False

    def s_break(self, s, st, fr):
        fr.brk.append((st.pc, None, st.copy()))
        return False

    def s_continue(self, s, st, fr):
        fr.cont.append((st.pc, None, st.copy()))
        return False

    def branch(self, c, st, fr, f1, f2):
        """f1/f2: callables(state)->alive"""
        c = B.constrain(c, st.pc)
        if c == 1:
            return f1(st)
        if c == 0:
            return f2(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = B.guard(B.AND(st.pc, c))
        s2.pc = B.guard(B.AND(st.pc, B.NOT(c)))
        self.refine(s1, c)
        self.refine(s2, B.NOT(c))
        a1 = f1(s1)
        a2 = f2(s2)
        if a1 and a2:
            st.take(self.join(c, s1, s2))
            return True
        if a1:
            st.take(s1)
            return True
        if a2:
            st.take(s2)
            return True
        return False

    def s_if(self, s, st, fr):
        if s.get('init') is not None:
            if not self.ex(s['init'], st, fr):
                return False
        if s.get('cv') is not None:
            self.declare(s['cv'], st, fr)
        c = self.truth(self.rv(s['c'], st, fr), st)
        return self.branch(c, st, fr, lambda x: self.ex(s['a'], x, fr), lambda x: self.ex(s.get('b'), x, fr))

    def flat_switch(self, body):
        out = []        # [(labels, stmt)]

        def add(x):
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(int(x['v']['v']) if x['k'] == 'case' and 'v' in x['v'] else (None if x['k'] == 'default' else '?'))
                x = x['a']
            out.append((labels, x))
        for x in (body['s'] if body['k'] == 'block' else [body]):
            add(x)
        return out

    def s_switch(self, s, st, fr):
        if s.get('init') is not None:
            self.ex(s['init'], st, fr)
        if s.get('cv') is not None:
            self.declare(s['cv'], st, fr)
        v = self.rv(s['c'], st, fr)
        parts = self.flat_switch(s['a'])
        labels = [(i, l) for i, (ls, _) in enumerate(parts) for l in ls]
        saved = fr.brk
        fr.brk = []
        outs = []

        def run_from(i, x):
            for _, b in parts[i:]:
                if b is not None and not self.ex(b, x, fr):
                    return False
            return True
        cc = v.const() if isinstance(v, BV) else (v.c if isinstance(v, Lin) and v.isconst() else None)
        if cc is not None:
            tgt = [i for i, l in labels if l == cc] or [i for i, l in labels if l is None]
            if tgt:
                if run_from(tgt[0], st):
                    outs.append((st.pc, None, st.copy()))
            else:
                outs.append((st.pc, None, st.copy()))
        else:
            rest = st.copy()
            alive_rest = True
            dflt = None
            for i, l in labels:
                if l is None:
                    dflt = i
                    continue
                if l == '?':
                    raise Unsupported('case label')
                if isinstance(v, BV):
                    k = const_bv(l, len(v.b), v.sg)
                else:
                    k = Lin(l)
                c = B.constrain(self.compare('==', v, k, False, rest).b[0], rest.pc)
                if c == 0:
                    continue
                x = rest.copy()
                x.pc = B.AND(rest.pc, c)
                self.refine(x, c)
                if run_from(i, x):
                    outs.append((x.pc, None, x))
                if c == 1:
                    alive_rest = False
                    break
                rest.pc = B.AND(rest.pc, B.NOT(c))
                self.refine(rest, B.NOT(c))
            if alive_rest:
                if dflt is not None:
                    if run_from(dflt, rest):
                        outs.append((rest.pc, None, rest))
                else:
                    outs.append((rest.pc, None, rest))
        outs = outs + fr.brk
        fr.brk = saved
        if not outs:
            return False
        _, m = self.merge(outs)
        st.take(m)
        return True

    # ---- loops
    def run_body(self, body, st, fr):
        """returns (alive_for_next_iteration, list of break states)"""
        sb, sc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        alive = self.ex(body, st, fr)
        outs = fr.cont + ([(st.pc, None, st.copy())] if alive else [])
        br = fr.brk
        fr.brk, fr.cont = sb, sc
        if outs:
            if len(outs) > 1 or not alive:
                _, m = self.merge(outs)
                st.take(m)
            return True, br
        return False, br

    def finish_loop(self, exits, st):
        if not exits:
            return False
        _, m = self.merge(exits)
        st.take(m)
        return True

    def s_for(self, s, st, fr):
        if s.get('init') is not None:
            if not self.ex(s['init'], st, fr):
                return False
        return self.loop(s, st, fr, s.get('c'), s.get('inc'), s['a'], False)

    def s_while(self, s, st, fr):
        return self.loop(s, st, fr, s['c'], None, s['a'], False)

    def s_do(self, s, st, fr):
        return self.loop(s, st, fr, s['c'], None, s['a'], True)

    def loop(self, s, st, fr, cond, inc, body, post):
        exits = []
        it = 0
        while True:
            if not (post and it == 0):
                if cond is not None:
                    c = self.truth(self.rv(cond, st, fr), st)
                else:
                    c = 1
                if c == 0:
                    exits.append((st.pc, None, st.copy()))
                    break
                if c != 1:
                    if it == 0 and not post:
                        self.accelerate(s, st, fr, cond, inc, body)
                        return True
                    raise Unsupported('loop with indefinite condition at line %s' % s.get('l'))
            it += 1
            if it > MAXITER:
                raise Unsupported('loop bound')
            alive, br = self.run_body(body, st, fr)
            exits.extend(br)
            if not alive:
                break
            if br:
                # after an indefinite break the remaining state continues under its own pc
                pass
            if inc is not None:
                self.ev(inc, st, fr)
        return self.finish_loop(exits, st)

    def leaves(self, a, b, path=()):
        """[(path, old, new)] of differing leaves"""
        if a is b:
            return []
        if isinstance(a, Rec) and isinstance(b, Rec) and a.ty == b.ty:
            out = []
            for k in b.f:
                if k in a.f:
                    out.extend(self.leaves(a.f[k], b.f[k], path + (k,)))
                else:
                    out.append((path + (k,), None, b.f[k]))
            return out
        if a.key() == b.key():
            return []
        return [(path, a, b)]

    def numeric(self, v):
        return isinstance(v, Lin) or isinstance(v, BV)

    def accelerate(self, s, st, fr, cond, inc, body, rng=None):
        """affine loop summary with a symbolic trip count"""
        pre = st.copy()
        ev0 = len(self.events)

        def one(x):
            if rng is not None:
                rng(x)
            alive, br = self.run_body(body, x, fr)
            if br or not alive:
                raise Unsupported('break in summarised loop')
            if inc is not None:
                self.ev(inc, x, fr)
        nrets = len(fr.rets)
        probe = pre.copy()
        k = ('k', self.fresh('k')[1])
        if rng is None:
            c = self.truth(self.rv(cond, probe, fr), probe)
            probe.pc = B.AND(probe.pc, c)
            self.refine(probe, c)
        else:
            rng.index = Lin(0)
            probe.facts = probe.facts + (rng.n.add(Lin(-1)),)
        one(probe)
        changed = []
        for r, v in pre.mem.items():
            nv = probe.mem.get(r)
            if nv is None or nv is v:
                continue
            for path, a, b in self.leaves(v, nv):
                changed.append((r, path, a, b))
        gen = pre.copy()
        ind = []
        unk = []
        bufs = []
        for r, path, a, b in changed:
            if isinstance(a, SVec) and isinstance(b, SVec):
                bufs.append((r, path, a))
                continue
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.path == b.path:
                d = b.off.add(a.off, -1)
                if d.isconst():
                    ind.append((r, path, a, d.c))
                    self.put(gen, r, path, a.plus(Lin(0, {k: d.c})))
                    continue
            if self.numeric(a) and self.numeric(b):
                d = self.to_lin(b).add(self.to_lin(a), -1)
                if d.isconst():
                    ind.append((r, path, a, d.c))
                    self.put(gen, r, path, self.to_lin(a).add(Lin(0, {k: d.c})))
                    continue
            unk.append((r, path))
            self.put(gen, r, path, Top('loop'))
        self.events = self.events[:ev0]
        del fr.rets[nrets:]
        if rng is None:
            cb = self.truth(self.rv(cond, gen, fr), gen)
            n = self.trip(cb, k)
            if n is None:
                raise Unsupported('trip count at line %s' % s.get('l'))
            gen.facts = gen.facts + (n.add(Lin(-1)).add(Lin(0, {k: 1}), -1),)
            gen.pc = pre.pc
        else:
            rng.index = Lin(0, {k: 1})
            n = rng.n
            gen.facts = gen.facts + (n.add(Lin(-1)).add(Lin(0, {k: 1}), -1),)
        one(gen)
        for r, path, a, d in ind:
            v = self.walk(gen, r, path)
            if isinstance(a, Ptr):
                ok = isinstance(v, Ptr) and v.root == a.root and v.path == a.path and \
                    v.off.key() == a.off.add(Lin(d, {k: d})).key()
            else:
                ok = self.numeric(v) and self.to_lin(v).key() == self.to_lin(a).add(Lin(d, {k: d})).key()
            if not ok:
                raise Unsupported('non-affine loop at line %s' % s.get('l'))
        gchanged = []
        for r, v in pre.mem.items():
            nv = gen.mem.get(r)
            if nv is None or nv is v:
                continue
            for path, a, b in self.leaves(v, nv):
                gchanged.append((r, path, a, b))
        done = {(r, p) for r, p, _, _ in ind} | set(unk)
        for r, path, a, d in ind:
            new = a.plus(n.mul(d)) if isinstance(a, Ptr) else self.to_lin(a).add(n.mul(d))
            self.put(st, r, path, new)
        for r, path in unk:
            self.put(st, r, path, Top('loop'))
        for r, path, a, b in gchanged:
            if (r, path) in done:
                continue
            if isinstance(a, SVec) and isinstance(b, SVec) and b.name == a.name and b.n.key() == a.n.key():
                new = []
                for w in b.log[len(a.log):]:
                    if w.rep is not None:
                        raise Unsupported('nested symbolic loop')
                    new.append(Write(w.off, w.bytes, (k, n), w.line))
                self.put(st, r, path, SVec(b.ety, b.n, b.name, b.ivar, b.tmpl, a.log + tuple(new)))
                continue
            raise Unsupported('loop effect at line %s' % s.get('l'))
        del fr.rets[nrets:]

    def trip(self, cb, k):
        """cond bit in the generic iteration -> trip count"""
        key = B.is_var(cb)
        neg = False
        if key is None:
            key = B.is_var(B.NOT(cb))
            neg = True
        if key is None or key not in self.ge0reg:
            return None
        l = self.ge0reg[key]
        kind = key[0][0]
        if kind == 'ge0':
            L = Lin(-1).add(l, -1) if neg else l        # cond <=> L >= 0
            m = L.t.get(k, 0)
            if m >= 0:
                return None
            rest = L.subst(k, Lin(0))
            q = self.floordiv(rest, -m).add(Lin(1)) if m != -1 else rest.add(Lin(1))
            return q
        if kind == 'eq0' and neg:
            m = l.t.get(k, 0)
            if m == 0:
                return None
            rest = l.subst(k, Lin(0))
            if m > 0:
                rest = rest.mul(-1)
            return self.ldiv(rest, abs(m))
        return None

    def s_rfor(self, s, st, fr):
        if s.get('init') is not None:
            self.ex(s['init'], st, fr)
        rp = self.lv(s['range'], st, fr)
        rt = s['range']['t']
        v = self.load(st, rp, rt) if isinstance(rp, Ptr) else rp
        var = s['v']
        vt = self.p.ty(var['t'])
        base = rp
        if isinstance(v, Span):
            base = v.p
            n = v.n
            ety = v.ety
        elif isinstance(v, Vec):
            n = Lin(len(v.items))
            ety = v.ety
        elif isinstance(v, SVec):
            n = v.n
            ety = v.ety
        elif isinstance(v, Map):
            raise Unsupported('range over map')
        else:
            raise Unsupported('range over %r' % (v,))
        esz = self.p.size(ety) or 1

        def bind(x, idx):
            src = self.walk(x, base.root, base.path)
            if idx.isconst() and isinstance(src, Vec) and not (base.off.t or base.off.c):
                p = Ptr(base.root, base.path + (('i', idx.c),))
            elif isinstance(src, SVec) and self.p.ty(ety)['c'] == 'rec':
                p = Ptr(base.root, base.path + (('i', idx.key()),))
            else:
                p = base.plus(idx.mul(esz))
            if vt['c'] == 'ref':
                fr.env[var['id']] = p
            else:
                val = self.load(x, p, ety) if not isinstance(p.path[-1] if p.path else None, tuple) or not p.path[-1][0] == 'i' \
                    else self.walk(x, p.root, p.path)
                val = self.conv(val, ety, var['t'])
                fr.env[var['id']] = self.alloc(x, val, 'v_' + var['n'])
        if n.isconst():
            exits = []
            for i in range(n.c):
                bind(st, Lin(i))
                alive, br = self.run_body(s['a'], st, fr)
                exits.extend(br)
                if not alive:
                    return self.finish_loop(exits, st)
            exits.append((st.pc, None, st.copy()))
            return self.finish_loop(exits, st)

        class R:
            pass
        r = R()

        class Rng:
            def __init__(q):
                q.n = n
                q.index = None

            def __call__(q, x):
                bind(x, q.index)
        self.accelerate(s, st, fr, None, None, s['a'], Rng())
        return True

    def s_try(self, s, st, fr):
        return self.ex(s['a'], st, fr)

    def s_case(self, s, st, fr):
        return self.ex(s['a'], st, fr)

    def s_default(self, s, st, fr):
        return self.ex(s['a'], st, fr)

    # ------------------------------------------------------------ calls
    def find_fn(self, f):
        fn = self.p.fns.get(f['id'])
        return fn

    def dispatch(self, f, fn, objp, st, qualified):
        """virtual dispatch on the record's dynamic type when known"""
        if not f.get('virtual') or qualified or not isinstance(objp, Ptr):
            return fn
        v = self.walk(st, objp.root, objp.path)
        if not isinstance(v, Rec):
            return fn
        order = [v.ty] + self.p.all_bases(v.ty)
        for c in order:
            for m in self.p.methods.get((c, f['n']), []):
                if len(m['params']) == f['np'] and m.get('virtual') and m.get('body') is not None:
                    return m
        return fn

    def e_call(self, e, st, fr):
        f = e.get('f')
        line = e.get('l', 0)
        if f is None:
            ce = e.get('ce')
            cal = self.rv(ce, st, fr) if ce else Top('callee')
            args = [self.rv(a, st, fr) for a in e['a']]
            if isinstance(cal, FnRef):
                f = cal.f
            else:
                self.unknown_calls['<indirect>'] = self.unknown_calls.get('<indirect>', 0) + 1
                return Top('indirect call')
            return Top('indirect call')
        objp = None
        if e.get('obj') is not None:
            o = e['obj']
            objp = self.rv(o, st, fr) if e.get('arrow') else self.lv(o, st, fr)
        qn = f['qn']
        if self.trace_calls is not None:
            self.trace_calls.append((qn, line, st.pc))
        if qn in self.hooks:
            r = self.hooks[qn](self, e, st, fr, objp)
            if r is not NotImplemented:
                return r
        if objp is not None and f['n'] == 'operator()':
            ov = self.walk(st, objp.root, objp.path) if isinstance(objp, Ptr) else objp
            if isinstance(ov, Lam) and ov.fid in self.p.fns:
                fn = self.p.fns[ov.fid]
                args = self.eval_args(f, e['a'], st, fr)
                return self.invoke(fn, ov.this, args, st, ov.caps)
            # generic lambda instantiation
            if isinstance(ov, Lam):
                fn = self.p.fns.get(f['id'])
                if fn is not None and fn.get('body') is not None:
                    args = self.eval_args(f, e['a'], st, fr)
                    return self.invoke(fn, ov.this, args, st, ov.caps)
        fn = self.find_fn(f)
        if fn is not None:
            fn = self.dispatch(f, fn, objp, st, e.get('qualified'))
            if fn.get('body') is not None and not (fn.get('defaulted') or fn.get('implicit')):
                args = self.eval_args(f, e['a'], st, fr)
                return self.invoke(fn, objp if f.get('member') else None, args, st)
            if f['n'] == 'operator=' and objp is not None:
                val = self.rv(e['a'][0], st, fr)
                if isinstance(objp, Ptr):
                    cur = self.walk(st, objp.root, objp.path)
                    if isinstance(cur, Rec) and isinstance(val, Rec) and cur.ty != val.ty:
                        nv = cur
                        for k, x in val.f.items():
                            nv = nv.set(k, x)
                        val = nv
                    self.put(st, objp.root, objp.path, val)
                return objp
        return self.model(f, qn, e, objp, st, fr, line)

    def eval_args(self, f, exprs, st, fr):
        out = []
        for i, a in enumerate(exprs):
            pt = f['pt'][i] if i < len(f.get('pt', [])) else a['t']
            if self.p.ty(pt)['c'] == 'ref':
                out.append(self.lv(a, st, fr))
            else:
                v = self.rv(a, st, fr)
                w = self.p.width(pt)
                if w and isinstance(v, BV) and len(v.b) != w:
                    v = self.to_bv(v, w, self.p.ty(pt).get('sg', False))
                out.append(v)
        return out

    def invoke(self, fn, this, args, st, caps=None):
        if self.depth > self.max_depth:
            raise Unsupported('call depth in ' + fn['qn'])
        self.visited.add(fn['id'])
        fr = Frame(fn, this)
        if caps:
            fr.caps = caps
        for p, a in zip(fn['params'], args):
            if self.p.ty(p['t'])['c'] == 'ref':
                fr.env[p['id']] = a if isinstance(a, Ptr) else self.alloc(st, a)
            else:
                fr.env[p['id']] = self.alloc(st, a, 'p_' + p['n'])
        self.depth += 1
        self.stack.append(fn)
        try:
            if fn.get('ctor'):
                self.run_inits(fn, st, fr)
            alive = self.ex(fn['body'], st, fr)
        finally:
            self.depth -= 1
            self.stack.pop()
        outs = fr.rets
        if alive:
            outs = outs + [(st.pc, VOID, st.copy())]
        if not outs:
            raise Thrown()
        pc0 = st.pc
        v, m = self.merge(outs)
        st.take(m)
        return v

    # ---- construction
    def run_inits(self, fn, st, fr):
        this = fr.this
        for i in fn.get('inits', []):
            e = i.get('e')
            if 'field' in i:
                info = self.p.fieldinfo.get(i['id'])
                p = this.field(i['id'])
                if info and self.p.ty(info[1]['t'])['c'] == 'ref':
                    self.put(st, p.root, p.path, self.lv(e, st, fr))
                else:
                    v = self.rv(e, st, fr)
                    w = self.p.width(info[1]['t']) if info else None
                    if w and isinstance(v, BV) and len(v.b) != w:
                        v = self.to_bv(v, w, self.p.ty(info[1]['t']).get('sg', False))
                    self.put(st, p.root, p.path, v)
            elif 'base' in i or i.get('deleg'):
                if e['k'] == 'ctor':
                    self.construct_at(e, st, fr, this)
                else:
                    self.ev(e, st, fr)

    def construct_at(self, e, st, fr, this):
        """run a constructor on an existing (base sub)object"""
        f = e['f']
        fn = self.p.fns.get(f['id'])
        if fn is None:
            return
        cur = self.walk(st, this.root, this.path)
        dyn = cur.ty if isinstance(cur, Rec) else None
        if e.get('ck') in ('copy', 'move') and (fn.get('defaulted') or fn.get('implicit')):
            v = self.rv(e['a'][0], st, fr)
            if isinstance(v, Rec) and isinstance(cur, Rec):
                for k, x in v.f.items():
                    cur = cur.set(k, x)
                self.put(st, this.root, this.path, cur)
            return
        args = self.eval_args(f, e['a'], st, fr)
        if isinstance(cur, Rec):
            self.put(st, this.root, this.path, Rec(e['rec'], cur.f))
        if fn.get('body') is not None:
            self.invoke(fn, this, args, st)
        else:
            frm = Frame(fn, this)
            self.run_inits(fn, st, frm)
        cur = self.walk(st, this.root, this.path)
        if isinstance(cur, Rec) and dyn:
            self.put(st, this.root, this.path, Rec(dyn, cur.f))

    def construct_default(self, tid, st):
        """value of `T x;` / `T x{}` for a record type"""
        t = self.p.ty(tid)
        if t['c'] != 'rec':
            return self.undef_value(tid, 'default')
        if t['rec'] not in self.p.recs:
            return self.default_rec(tid)
        ctor = None
        for m in self.p.fns.values():
            if m.get('rec') == t['rec'] and m.get('ctor') == 'default':
                ctor = m
                break
        return self.construct(t['rec'], tid, ctor, [], st)

    def construct(self, rec, tid, ctor, args, st, zero=False):
        fs = {}
        for f, _ in self.p.all_fields(rec):
            fs[f['id']] = self.zero_value(f['t']) if zero else self.undef_field(f, rec)
        tmp = self.alloc(st, Rec(rec, fs), 'obj')
        if ctor is not None and (ctor.get('body') is not None or ctor.get('inits')):
            if ctor.get('body') is not None:
                self.invoke(ctor, tmp, args, st)
            else:
                self.run_inits(ctor, st, Frame(ctor, tmp))
        else:
            fr = Frame({'qn': rec, 'file': '', 'ret': -1}, tmp)
            for b in self.p.recs[rec]['bases']:
                bv = self.construct_default(b['t'], st)
                if isinstance(bv, Rec):
                    cur = st.mem[tmp.root]
                    for k, x in bv.f.items():
                        cur = cur.set(k, x)
                    st.mem[tmp.root] = cur
            for f in self.p.recs[rec]['fields']:
                if f.get('init') is not None:
                    v = self.rv(f['init'], st, fr)
                    w = self.p.width(f['t'])
                    if w and isinstance(v, BV):
                        v = self.to_bv(v, w, self.p.ty(f['t']).get('sg', False))
                    st.mem[tmp.root] = st.mem[tmp.root].set(f['id'], v)
                elif self.p.ty(f['t'])['c'] == 'rec' and self.p.ty(f['t']).get('tn') != 'std::array':
                    st.mem[tmp.root] = st.mem[tmp.root].set(f['id'], self.construct_default(f['t'], st))
        v = st.mem.pop(tmp.root)
        return v

    def undef_field(self, f, rec):
        t = self.p.ty(f['t'])
        if t['c'] == 'rec' and t.get('tn') != 'std::array':
            if t['rec'] in self.p.recs:
                return Rec(t['rec'], {g['id']: self.undef_field(g, t['rec']) for g, _ in self.p.all_fields(t['rec'])})
            return self.default_rec(f['t'])
        return self.undef_value(f['t'], rec + '::' + f['n'])

    def e_ctor(self, e, st, fr):
        f = e['f']
        t = self.p.ty(e['t'])
        rec = e['rec']
        if rec in self.p.recs:
            fn = self.p.fns.get(f['id'])
            if e['ck'] in ('copy', 'move') and e['a'] and (fn is None or fn.get('defaulted') or fn.get('implicit') or fn.get('body') is None):
                v = self.rv(e['a'][0], st, fr)
                if isinstance(v, Rec) and v.ty != rec:
                    keep = {g['id'] for g, _ in self.p.all_fields(rec)}
                    v = Rec(rec, {k: x for k, x in v.f.items() if k in keep})
                return v
            args = self.eval_args(f, e['a'], st, fr)
            if e.get('zero') and fn is None:
                return self.zero_value(e['t'])
            return self.construct(rec, e['t'], fn, args, st, bool(e.get('zero')))
        return self.std_ctor(e, t, st, fr)

    def std_ctor(self, e, t, st, fr):
        tn = t.get('tn', '')
        a = e['a']
        if e['ck'] in ('copy', 'move') and a:
            return self.rv(a[0], st, fr)
        if tn == 'std::optional':
            if not a:
                return Opt(0, None)
            at = self.p.ty(a[0]['t'])
            if at.get('s', '').replace('const ', '') in ('std::nullopt_t',) or at.get('rec') == 'std::nullopt_t':
                return Opt(0, None)
            v = self.rv(a[0], st, fr)
            if isinstance(v, Opt):
                return v
            if isinstance(v, Str) and v.s == '<nullopt>':
                return Opt(0, None)
            return Opt(1, self.conv(v, a[0]['t'], self.targ(t)))
        if tn == 'std::vector':
            ety = self.targ(t)
            args = [self.rv(x, st, fr) for x in a if not self.is_alloc(x)]
            return self.make_vector(ety, args, st)
        if tn in ('std::map', 'std::unordered_map'):
            return Map({}, False, t['ta'][1]['t'])
        if tn == 'std::basic_string':
            args = [self.rv(x, st, fr) for x in a if not self.is_alloc(x)]
            if not args:
                return Str('')
            if len(args) == 1 and isinstance(args[0], Str):
                return args[0]
            return Top('string')
        if tn == 'std::bitset':
            n = int(t['ta'][0]['i'])
            if not a:
                return const_bv(0, n)
            v = self.rv(a[0], st, fr)
            if isinstance(v, BV):
                return self.to_bv(BV(v.b), n)
            return BV([B.opaque('bitset') for _ in range(n)])
        if tn == 'std::array':
            return self.zero_value(e['t']) if e.get('zero') else self.undef_value(e['t'], 'array')
        if tn == 'std::span':
            args = [self.ev_ptr(x, st, fr) for x in a]
            return self.make_span(args, t, st)
        if tn == '__gnu_cxx::__normal_iterator':
            return self.rv(a[0], st, fr) if a else Top('iter')
        if tn == 'std::initializer_list':
            return self.rv(a[0], st, fr) if a else Top('il')
        if tn in ('std::pair', 'std::tuple'):
            for x in a:
                self.rv(x, st, fr)
            return Top(tn)
        for x in a:
            self.ev(x, st, fr)
        return Top('ctor ' + tn)

    def is_alloc(self, x):
        return self.p.ty(x['t']).get('tn', '') == 'std::allocator' or 'allocator' in self.p.ty(x['t']).get('s', '')[:24]

    def ev_ptr(self, x, st, fr):
        """argument value; sequences are passed by address"""
        t = self.p.ty(x['t'])
        if (x.get('lv') or x.get('xv') or x['k'] == 'mat') and self.is_seq(x['t']):
            return self.lv(x, st, fr)
        return self.rv(x, st, fr)

    def make_span(self, args, t, st):
        ety = self.targ(t)
        if not args:
            return Span(NULL, Lin(0), ety)
        a = args[0]
        if len(args) == 1:
            if isinstance(a, Span):
                return a
            if isinstance(a, Ptr):
                v = self.walk(st, a.root, a.path)
                if isinstance(v, Vec):
                    return Span(a, Lin(len(v.items)), ety)
                if isinstance(v, SVec):
                    return Span(a, v.n, ety)
                if isinstance(v, Span):
                    return v
            if isinstance(a, (Vec, SVec)):
                p = self.alloc(st, a)
                return Span(p, Lin(len(a.items)) if isinstance(a, Vec) else a.n, ety)
            return Top('span')
        if isinstance(a, Ptr) and isinstance(args[1], Ptr):
            esz = self.p.size(ety) or 1
            return Span(a, self.ldiv(args[1].off.add(a.off, -1), esz) or Lin(0), ety)
        if isinstance(a, Ptr):
            return Span(a, self.to_lin(args[1]), ety)
        return Top('span')

    def make_vector(self, ety, args, st):
        if not args:
            return Vec(ety, [])
        a = args[0]
        if len(args) == 1 and isinstance(a, (Vec, SVec)):
            return Vec(ety, a.items) if isinstance(a, Vec) else a
        if len(args) == 2 and isinstance(a, Ptr) and isinstance(args[1], Ptr):
            return self.vec_from_range(ety, a, args[1], st)
        if isinstance(a, (BV, Lin)):
            n = self.to_lin(a)
            fill = args[1] if len(args) > 1 else (self.zero_value(ety) if self.p.ty(ety)['c'] != 'rec' else self.construct_default(ety, st))
            if n.isconst():
                return Vec(ety, [fill] * n.c)
            return SVec(ety, n, ('vec', self.fresh()), None, fill)
        return Top('vector')

    def vec_from_range(self, ety, a, b, st):
        esz = self.p.size(ety) or 1
        if a.root == b.root and a.path == b.path:
            n = b.off.add(a.off, -1)
            if n.isconst() and a.off.isconst():
                bs = self.read_bytes(st, a, n.c)
                return Vec(ety, [self.from_bytes(bs[i:i + esz], ety) for i in range(0, n.c, esz)])
            q = self.ldiv(n, esz)
            v = self.walk(st, a.root, a.path)
            if q is not None and isinstance(v, SVec):
                nm = ('copyof', v.name, a.off.key()) if (a.off.t or a.off.c) else v.name
                if not self.nonneg(v.n.mul(esz).add(b.off, -1), st):
                    self.event('oob-unproved', 'copy [%r,%r) of %r bytes %s' % (a.off, b.off, v.n.mul(esz), v.name), st)
                return SVec(ety, q, nm, v.ivar, v.tmpl, v.log if not (a.off.t or a.off.c) else ())
        return Top('range')

    # ------------------------------------------------------------ library models
    def model(self, f, qn, e, objp, st, fr, line):
        a = e['a']
        n = f['n']
        rec = f.get('rec', '')
        base = qn.rsplit('::', 1)[0] if '::' in qn else ''
        if base == '' or base == 'std' or qn.startswith('__builtin') or qn.startswith('std::ranges'):
            r = self.model_free(n, f, e, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base == 'std::vector' or base == 'std::_Vector_base' or base == 'std::basic_string' and False:
            r = self.model_vector(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base in ('std::array',):
            r = self.model_vector(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base.startswith('std::optional') or base.startswith('std::_Optional'):
            r = self.model_optional(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base in ('std::map', 'std::unordered_map'):
            r = self.model_map(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base == 'std::span':
            r = self.model_span(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base == 'std::bitset':
            r = self.model_bitset(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if '__normal_iterator' in base or n in ('operator+', 'operator-', 'operator==', 'operator!=', 'operator<'):
            r = self.model_iter(n, f, e, objp, a, st, fr, line)
            if r is not NotImplemented:
                return r
        if base == 'std::initializer_list':
            v = self.load(st, objp, e['obj']['t']) if isinstance(objp, Ptr) else objp
            if isinstance(v, Vec):
                if n == 'size':
                    return Lin(len(v.items))
                p = objp
                if n == 'begin':
                    return p
                if n == 'end':
                    return p.plus(Lin(len(v.items) * (self.p.size(v.ety) or 1)))
        if base == 'std::basic_string' or base.startswith('std::basic_string<') or base == 'std::__cxx11::basic_string':
            v = self.load(st, objp, -1) if isinstance(objp, Ptr) else Top('')
            args = [self.rv(x, st, fr) for x in a]
            if n == 'operator=' and isinstance(objp, Ptr):
                self.put(st, objp.root, objp.path, args[0] if isinstance(args[0], Str) else Top('str'))
                return objp
            if n in ('append', 'operator+=', 'push_back', 'clear', 'resize') and isinstance(objp, Ptr):
                self.put(st, objp.root, objp.path, Top('str'))
                return objp
            if n == 'size' or n == 'length':
                if isinstance(v, Str):
                    return Lin(len(v.s))
                return Lin(0, {('strlen', self.fresh()): 1})
            if n == 'empty':
                return bool_bv(B.opaque('strempty'))
            return Top('string::' + n)
        if 'stream' in rec or 'stream' in base or n == 'operator<<':
            for x in a:
                self.ev(x, st, fr)
            return objp if objp is not None else (Top('stream'))
        return self.unknown(f, qn, e, objp, st, fr)

    def unknown(self, f, qn, e, objp, st, fr):
        self.unknown_calls[qn] = self.unknown_calls.get(qn, 0) + 1
        for i, x in enumerate(e['a']):
            pt = f['pt'][i] if i < len(f.get('pt', [])) else x['t']
            t = self.p.ty(pt)
            v = self.lv(x, st, fr) if t['c'] == 'ref' else self.rv(x, st, fr)
            if t['c'] in ('ref', 'ptr') and not self.p.ty(t.get('pt', -1)).get('const') and isinstance(v, Ptr) and v.root != 'null':
                if x.get('lv') or t['c'] == 'ptr':
                    self.put(st, v.root, v.path, Top('written by ' + qn))
        if f.get('noreturn'):
            self.event('throw', 'noreturn call ' + qn, st, e.get('l', 0))
            raise Thrown()
        return Top('call ' + qn)

    def model_free(self, n, f, e, a, st, fr, line):
        if n in ('memcpy', 'memmove', '__builtin_memcpy', '__builtin_memmove', '__builtin___memcpy_chk'):
            d, s, k = self.rv(a[0], st, fr), self.rv(a[1], st, fr), self.to_lin(self.rv(a[2], st, fr))
            self.copy_bytes(st, d, s, k, line)
            return d
        if n in ('memset', '__builtin_memset'):
            d, v, k = self.rv(a[0], st, fr), self.rv(a[1], st, fr), self.to_lin(self.rv(a[2], st, fr))
            if k.isconst():
                byte = self.to_bv(v, 8).b
                self.write_bytes(st, d, [byte] * k.c, line)
            elif isinstance(d, Ptr):
                raise Unsupported('memset of symbolic size')
            return d
        if n in ('copy', 'copy_n', 'reverse_copy', 'copy_backward', 'fill', 'fill_n', 'transform', 'reverse',
                 'for_each', 'swap', 'equal', 'accumulate'):
            return self.model_algo(n, f, e, a, st, fr, line)
        if n in ('__bswap_16', '__bswap_32', '__bswap_64', '__builtin_bswap16', '__builtin_bswap32',
                 '__builtin_bswap64', 'byteswap', '_byteswap_ulong', 'htonl', 'htons', 'ntohl', 'ntohs',
                 'htobe16', 'htobe32', 'htobe64', 'be16toh', 'be32toh', 'be64toh'):
            v = self.rv(a[0], st, fr)
            w = self.p.ty(f['ret'])['w']
            v = self.to_bv(v, w)
            by = [v.b[i:i + 8] for i in range(0, w, 8)]
            out = ()
            for x in reversed(by):
                out += x
            return BV(out, self.p.ty(f['ret']).get('sg', False))
        if n in ('round', 'roundf', 'roundl', 'rint', 'nearbyint', '__builtin_round', 'lround', 'llround', 'rintl',
                 'nearbyintl', 'lrint', 'llrint'):
            v = self.rv(a[0], st, fr)
            r = Flt(('round', v.k)) if isinstance(v, Flt) else Flt(('opaque', self.fresh()))
            if isinstance(v, Flt) and v.k[0] == 'const':
                x = v.k[1]
                i = int(x + Fraction(1, 2)) if x >= 0 else -int(-x + Fraction(1, 2))
                r = Flt(('const', Fraction(i)))
            if n in ('lround', 'llround', 'lrint', 'llrint'):
                return self.f2i(r, self.p.ty(f['ret'])['w'], True)
            return r
        if n in ('ldexp', 'ldexpl', 'scalbn', 'scalbnl'):
            v, k = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            c = k.const() if isinstance(k, BV) else None
            if isinstance(v, Flt) and c is not None:
                return self.fscale(v, Fraction(2) ** c)
            return Flt(('opaque', self.fresh()))
        if n in ('pow', 'powl', 'exp2', 'exp2l'):
            vs = [self.rv(x, st, fr) for x in a]
            if all(isinstance(v, Flt) and v.k[0] == 'const' for v in vs):
                try:
                    r = Fraction(2) ** vs[0].k[1] if n.startswith('exp2') else vs[0].k[1] ** vs[1].k[1]
                    return Flt(('const', Fraction(r)))
                except Exception:
                    pass
            return Flt(('opaque', self.fresh()))
        if n in ('move', 'forward', 'as_const', 'addressof', '__addressof', 'launder'):
            return self.lv(a[0], st, fr)
        if n in ('min', 'max'):
            ps = [self.lv(x, st, fr) for x in a[:2]]
            vs = [self.load(st, p, x['t']) for p, x in zip(ps, a)]
            t = a[0]['t']
            op = '<' if n == 'min' else '>'
            if len(vs) == 2 and all(isinstance(v, (BV, Lin)) for v in vs):
                c = B.constrain(self.compare(op, vs[1], vs[0], self.p.ty(t).get('sg', False), st).b[0], st.pc)
                if c in (0, 1):
                    return ps[1] if c else ps[0]
                la, lb = self.to_lin(vs[0]), self.to_lin(vs[1])
                r = Lin(0, {(n, la.key(), lb.key()): 1})
                if n == 'min':
                    st.facts = st.facts + (la.add(r, -1), lb.add(r, -1))
                else:
                    st.facts = st.facts + (r.add(la, -1), r.add(lb, -1))
                return self.alloc(st, r)
            return self.alloc(st, Top(n))
        if n in ('begin', 'cbegin', 'data') and a:
            p = self.lv(a[0], st, fr)
            v = self.walk(st, p.root, p.path)
            return v.p if isinstance(v, Span) else p
        if n in ('end', 'cend') and a:
            p = self.lv(a[0], st, fr)
            v = self.walk(st, p.root, p.path)
            if isinstance(v, Span):
                return v.p.plus(v.n.mul(self.p.size(v.ety) or 1))
            ln = self.seqlen(v)
            return p.plus(ln.mul(self.p.size(v.ety) or 1)) if ln is not None else Top('end')
        if n in ('size', 'ssize') and a:
            p = self.lv(a[0], st, fr)
            v = self.walk(st, p.root, p.path)
            if isinstance(v, Span):
                return v.n
            return self.seqlen(v) or Top('size')
        if n in ('next', 'prev'):
            p = self.rv(a[0], st, fr)
            k = self.to_lin(self.rv(a[1], st, fr)) if len(a) > 1 else Lin(1)
            if isinstance(p, Ptr):
                return p.plus(k.mul(self.seq_esz(st, p) * (1 if n == 'next' else -1)))
            return Top('next')
        if n == 'distance':
            p, q = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
            if isinstance(p, Ptr) and isinstance(q, Ptr) and p.root == q.root:
                return self.ldiv(q.off.add(p.off, -1), self.seq_esz(st, p)) or Top('distance')
            return Top('distance')
        if n == 'advance':
            p = self.lv(a[0], st, fr)
            v = self.load(st, p, a[0]['t'])
            k = self.to_lin(self.rv(a[1], st, fr))
            if isinstance(v, Ptr):
                self.store(st, p, v.plus(k.mul(self.seq_esz(st, v))), a[0]['t'])
            return VOID
        if n == 'bit_cast':
            v = self.lv(a[0], st, fr)
            k = self.p.size(f['ret'])
            return self.from_bytes(self.read_bytes(st, v, k), f['ret'])
        if n == 'to_underlying':
            return self.rv(a[0], st, fr)
        if n == 'exchange':
            p = self.lv(a[0], st, fr)
            old = self.load(st, p, a[0]['t'])
            self.store(st, p, self.rv(a[1], st, fr), a[0]['t'])
            return old
        if n in ('to_string', 'make_pair', 'make_tuple', 'tie', 'quoted', 'setw', 'hex'):
            for x in a:
                self.rv(x, st, fr)
            return Top(n)
        if n == 'make_optional':
            v = self.rv(a[0], st, fr)
            return Opt(1, v)
        if n in ('isnan', '__builtin_isnan', 'abs', 'fabs', 'toupper', 'tolower', 'strlen', 'strcmp'):
            for x in a:
                self.rv(x, st, fr)
            t = self.p.ty(f['ret'])
            if t['c'] == 'bool':
                return bool_bv(B.opaque(n))
            return Top(n)
        if n in ('__builtin_expect', '__builtin_constant_p'):
            return self.rv(a[0], st, fr)
        if n == 'operator==' or n == 'operator!=':
            return NotImplemented
        return NotImplemented

    def copy_bytes(self, st, d, s, k, line):
        if k.isconst():
            bs = self.read_bytes(st, s, k.c, line)
            self.write_bytes(st, d, bs, line)
            return
        # symbolic length
        if isinstance(d, Ptr) and isinstance(s, Ptr) and 'null' not in (d.root, s.root):
            sv, dv = self.walk(st, s.root, s.path), self.walk(st, d.root, d.path)
            sl, dl = self.bytelen(sv), self.bytelen(dv)
            if sl is not None and not self.nonneg(sl.add(s.off, -1).add(k, -1), st):
                self.event('oob-unproved', 'copy of %r bytes from offset %r of %r' % (k, s.off, sl), st, line)
            if dl is not None and not self.nonneg(dl.add(d.off, -1).add(k, -1), st):
                self.event('oob-unproved', 'copy of %r bytes into offset %r of %r' % (k, d.off, dl), st, line)
            if isinstance(dv, SVec):
                if isinstance(sv, (SVec, Vec)):
                    kk = ('k', self.fresh('k')[1])
                    o = Lin(0, {kk: 1})
                    if isinstance(sv, SVec):
                        byte = self.svec_byte(sv, s.off.add(o))
                    else:
                        byte = tuple(B.opaque('sym') for _ in range(8))
                    w = Write(d.off.add(o), [byte], (kk, k), line)
                    self.put(st, d.root, d.path, SVec(dv.ety, dv.n, dv.name, dv.ivar, dv.tmpl, dv.log + (w,)))
                    return
            self.put(st, d.root, d.path, Top('symbolic memcpy'))
            return

    def bytelen(self, v):
        if isinstance(v, SVec):
            return v.n.mul(self.p.size(v.ety) or 1)
        n = self.valtype_bytes(v)
        return Lin(n) if n is not None else None

    def seqlen(self, v):
        if isinstance(v, Vec):
            return Lin(len(v.items))
        if isinstance(v, SVec):
            return v.n
        if isinstance(v, Str):
            return Lin(len(v.s))
        return None

    def model_algo(self, n, f, e, a, st, fr, line):
        v = [self.rv(x, st, fr) for x in a]
        if n in ('copy', 'reverse_copy') and len(v) == 3 and all(isinstance(x, Ptr) for x in v):
            s, s2, d = v
            if s.root == s2.root and s.path == s2.path:
                k = s2.off.add(s.off, -1)
                if n == 'copy':
                    self.copy_bytes(st, d, s, k, line)
                    return d.plus(k)
                if k.isconst():
                    bs = self.read_bytes(st, s, k.c, line)
                    esz = self.p.size(self.p.ty(a[0]['t']).get('pt', -1)) or 1
                    grp = [bs[i:i + esz] for i in range(0, len(bs), esz)]
                    out = []
                    for g in reversed(grp):
                        out.extend(g)
                    self.write_bytes(st, d, out, line)
                    return d.plus(k)
        if n == 'copy_n' and isinstance(v[0], Ptr) and isinstance(v[2], Ptr):
            esz = self.p.size(self.p.ty(a[0]['t']).get('pt', -1)) or self.seq_esz(st, v[0])
            k = self.to_lin(v[1]).mul(esz)
            self.copy_bytes(st, v[2], v[0], k, line)
            return v[2].plus(k)
        if n == 'reverse' and all(isinstance(x, Ptr) for x in v) and len(v) == 2:
            k = v[1].off.add(v[0].off, -1)
            if k.isconst():
                esz = self.p.size(self.p.ty(a[0]['t']).get('pt', -1)) or self.seq_esz(st, v[0])
                bs = self.read_bytes(st, v[0], k.c, line)
                out = []
                for i in range(len(bs) - esz, -1, -esz):
                    out.extend(bs[i:i + esz])
                self.write_bytes(st, v[0], out, line)
                return VOID
        if n == 'fill' and len(v) == 3 and isinstance(v[0], Ptr) and isinstance(v[1], Ptr):
            k = v[1].off.add(v[0].off, -1)
            esz = self.seq_esz(st, v[0])
            if k.isconst():
                self.write_bytes(st, v[0], self.to_bytes(v[2], esz) * (k.c // esz), line)
                return VOID
        if n == 'fill_n' and isinstance(v[0], Ptr):
            k = self.to_lin(v[1])
            esz = self.seq_esz(st, v[0])
            if k.isconst():
                self.write_bytes(st, v[0], self.to_bytes(v[2], esz) * k.c, line)
                return v[0].plus(k.mul(esz))
        if n == 'swap' and len(a) == 2:
            p, q = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
            if isinstance(p, Ptr) and isinstance(q, Ptr):
                x, y = self.load(st, p, a[0]['t']), self.load(st, q, a[1]['t'])
                self.store(st, p, y, a[0]['t'])
                self.store(st, q, x, a[1]['t'])
                return VOID
        raise Unsupported('algorithm std::%s' % n)

    def model_vector(self, n, f, e, objp, a, st, fr, line):
        if not isinstance(objp, Ptr):
            for x in a:
                self.ev(x, st, fr)
            return Top('vector')
        v = self.walk(st, objp.root, objp.path)
        if not isinstance(v, (Vec, SVec)):
            if n == 'operator=':
                val = self.rv(a[0], st, fr)
                self.put(st, objp.root, objp.path, val)
                return objp
            for x in a:
                self.ev(x, st, fr)
            if n in ('size', 'capacity'):
                return Lin(0, {('top', self.fresh()): 1})
            return Top('vector of ' + repr(v)[:30])
        ety = v.ety
        esz = self.p.size(ety) or 1
        ln = self.seqlen(v)
        if n == 'size':
            return ln
        if n == 'empty':
            return bool_bv(self.eq0(ln, st))
        if n in ('data', 'begin', 'cbegin'):
            return objp
        if n in ('end', 'cend'):
            return objp.plus(ln.mul(esz))
        if n in ('operator[]', 'at'):
            i = self.to_lin(self.rv(a[0], st, fr))
            if n == 'at' and not self.nonneg(ln.add(i, -1).add(Lin(-1)), st):
                self.event('throw-possible', 'vector::at index %r of %r' % (i, ln), st, line)
            p = objp.plus(i.mul(esz))
            q = self.elem_ptr(st, p, ety)
            if q.path == p.path and isinstance(v, Vec) and i.isconst() and 0 <= i.c < len(v.items):
                return Ptr(objp.root, objp.path + (('i', i.c),))
            if isinstance(v, Vec) and i.isconst() and not 0 <= i.c < len(v.items):
                self.event('oob', 'element %d of %d' % (i.c, len(v.items)), st, line)
            return q
        if n in ('front', 'back'):
            i = Lin(0) if n == 'front' else ln.add(Lin(-1))
            if not self.nonneg(ln.add(Lin(-1)), st):
                self.event('oob', '%s() of a possibly empty sequence' % n, st, line)
            p = objp.plus(i.mul(esz))
            q = self.elem_ptr(st, p, ety)
            if q.path == p.path and isinstance(v, Vec) and i.isconst() and 0 <= i.c < len(v.items):
                return Ptr(objp.root, objp.path + (('i', i.c),))
            return q
        if n == 'operator=':
            val = self.rv(a[0], st, fr)
            self.put(st, objp.root, objp.path, val if isinstance(val, (Vec, SVec)) else Top('assign'))
            return objp
        if n == 'clear':
            self.put(st, objp.root, objp.path, Vec(ety, []))
            return VOID
        if n in ('reserve', 'shrink_to_fit'):
            for x in a:
                self.rv(x, st, fr)
            return VOID
        if n == 'resize':
            k = self.to_lin(self.rv(a[0], st, fr))
            fill = self.rv(a[1], st, fr) if len(a) > 1 else (
                self.zero_value(ety) if self.p.ty(ety)['c'] != 'rec' else self.construct_default(ety, st))
            if isinstance(v, Vec) and k.isconst():
                it = list(v.items[:k.c]) + [fill] * max(0, k.c - len(v.items))
                self.put(st, objp.root, objp.path, Vec(ety, it))
            else:
                if isinstance(v, SVec):
                    if not (v.n.key() == k.key()):
                        nv = SVec(ety, k, ('resized', v.name, k.key()), None, None if self.p.ty(ety)['c'] != 'rec' else fill, v.log)
                    else:
                        nv = v
                else:
                    nv = SVec(ety, k, ('resized', self.fresh()), None, fill if self.p.ty(ety)['c'] == 'rec' else None)
                self.put(st, objp.root, objp.path, nv)
            return VOID
        if n == 'assign':
            args = [self.rv(x, st, fr) for x in a]
            self.put(st, objp.root, objp.path, self.make_vector(ety, args, st))
            return VOID
        if n in ('push_back', 'emplace_back'):
            x = self.rv(a[0], st, fr) if a else self.zero_value(ety)
            if isinstance(v, Vec):
                x = self.conv(x, a[0]['t'], ety) if a else x
                self.put(st, objp.root, objp.path, Vec(ety, v.items + (x,)))
                return VOID
            raise Unsupported('push_back on symbolic vector')
        if n == 'pop_back' and isinstance(v, Vec):
            self.put(st, objp.root, objp.path, Vec(ety, v.items[:-1]))
            return VOID
        if n == 'insert':
            args = [self.rv(x, st, fr) for x in a]
            pos = args[0]
            if isinstance(v, Vec) and isinstance(pos, Ptr) and pos.off.isconst():
                i = pos.off.c // esz
                if not 0 <= i <= len(v.items):
                    self.event('oob', 'insert at %d of %d' % (i, len(v.items)), st, line)
                    i = max(0, min(i, len(v.items)))
                new = None
                if len(args) == 3 and isinstance(args[1], (BV, Lin)):
                    k = self.to_lin(args[1])
                    if k.isconst():
                        x = self.conv(args[2], a[2]['t'], ety)
                        new = [self.to_bv(x, esz * 8) if isinstance(x, BV) and self.p.width(ety) else x] * k.c
                elif len(args) == 3 and isinstance(args[1], Ptr) and isinstance(args[2], Ptr):
                    r = self.vec_from_range(ety, args[1], args[2], st)
                    if isinstance(r, Vec):
                        new = list(r.items)
                elif len(args) == 2 and isinstance(args[1], Vec):
                    new = list(args[1].items)
                elif len(args) == 2 and isinstance(args[1], (BV, Rec)):
                    new = [args[1]]
                if new is not None:
                    it = list(v.items)
                    it[i:i] = new
                    self.put(st, objp.root, objp.path, Vec(ety, it))
                    return objp.plus(Lin(i * esz))
            raise Unsupported('vector::insert with symbolic arguments')
        if n == 'erase':
            args = [self.rv(x, st, fr) for x in a]
            if isinstance(v, Vec) and all(isinstance(x, Ptr) and x.off.isconst() for x in args):
                i = args[0].off.c // esz
                j = args[1].off.c // esz if len(args) > 1 else i + 1
                if not 0 <= i <= j <= len(v.items):
                    self.event('oob', 'erase [%d,%d) of %d' % (i, j, len(v.items)), st, line)
                    i = max(0, min(i, len(v.items)))
                    j = max(i, min(j, len(v.items)))
                it = list(v.items)
                del it[i:j]
                self.put(st, objp.root, objp.path, Vec(ety, it))
                return objp.plus(Lin(i * esz))
            raise Unsupported('vector::erase with symbolic arguments')
        if n == 'swap':
            q = self.lv(a[0], st, fr)
            w = self.walk(st, q.root, q.path)
            self.put(st, objp.root, objp.path, w)
            self.put(st, q.root, q.path, v)
            return VOID
        if n == 'fill' and isinstance(v, Vec):
            x = self.rv(a[0], st, fr)
            self.put(st, objp.root, objp.path, Vec(ety, [x] * len(v.items), v.fixed))
            return VOID
        return NotImplemented

    def model_optional(self, n, f, e, objp, a, st, fr, line):
        if not isinstance(objp, Ptr):
            return Top('optional')
        v = self.walk(st, objp.root, objp.path)
        t = self.p.ty(e['obj']['t']) if e.get('obj') else {}
        if n == 'operator=':
            x = self.rv(a[0], st, fr)
            at = self.p.ty(a[0]['t'])
            if isinstance(x, Str) and x.s == '<nullopt>' or at.get('rec') == 'std::nullopt_t':
                x = Opt(0, None)
            if not isinstance(x, Opt):
                if t.get('tn') == 'std::optional':
                    x = self.conv(x, a[0]['t'], self.targ(t))
                x = Opt(1, x)
            self.put(st, objp.root, objp.path, x)
            return objp
        if not isinstance(v, Opt):
            for x in a:
                self.ev(x, st, fr)
            if n in ('has_value', 'operator bool'):
                return bool_bv(B.opaque('opt'))
            if n in ('value', 'operator*', 'operator->'):
                return Ptr(objp.root, objp.path + ('v',))
            return Top('optional')
        if n in ('has_value', 'operator bool', '_M_is_engaged'):
            return bool_bv(v.p)
        if n in ('operator*', 'operator->', 'value'):
            p = B.constrain(v.p, st.pc)
            if p != 1:
                self.event('nullopt' if p == 0 else 'nullopt-possible', 'access to empty optional', st, line)
            return Ptr(objp.root, objp.path + ('v',))
        if n == 'value_or':
            d = self.rv(a[0], st, fr)
            if v.p == 0 or v.v is None:
                return self.conv(d, a[0]['t'], self.targ(t)) if t.get('tn') == 'std::optional' else d
            return self.mux(v.p, v.v, self.conv(d, a[0]['t'], self.targ(t)) if t.get('tn') == 'std::optional' else d)
        if n == 'reset':
            self.put(st, objp.root, objp.path, Opt(0, None))
            return VOID
        if n == 'emplace':
            if a:
                x = self.rv(a[0], st, fr)
            else:
                x = self.construct_default(self.targ(t), st) if self.p.ty(self.targ(t))['c'] == 'rec' else self.zero_value(self.targ(t))
            self.put(st, objp.root, objp.path, Opt(1, x))
            return Ptr(objp.root, objp.path + ('v',))
        return NotImplemented

    def model_map(self, n, f, e, objp, a, st, fr, line):
        if not isinstance(objp, Ptr):
            return Top('map')
        v = self.walk(st, objp.root, objp.path)
        if not isinstance(v, Map):
            return Top('map')
        if n in ('operator[]', 'at', 'count', 'contains', 'erase', 'find'):
            k = self.rv(a[0], st, fr)
            if not isinstance(k, Str):
                self.event('map-key', 'unresolved key', st, line)
                return Top('map key')
            k = k.s
            if n == 'operator[]':
                if k not in v.d:
                    d = dict(v.d)
                    d[k] = Lin(0) if v.vty is None else self.zero_value(v.vty)
                    self.put(st, objp.root, objp.path, Map(d, v.open, v.vty))
                return Ptr(objp.root, objp.path + (('m', k),))
            if n == 'at':
                if k not in v.d:
                    if v.open:
                        return Ptr(objp.root, objp.path + (('m', k),))
                    self.event('missing-key', 'at("%s") but the key was never inserted' % k, st, line)
                    raise Thrown()
                return Ptr(objp.root, objp.path + (('m', k),))
            if n in ('count', 'contains'):
                r = 1 if k in v.d else 0
                return bool_bv(r) if n == 'contains' else const_bv(r, 64)
            if n == 'erase':
                d = dict(v.d)
                d.pop(k, None)
                self.put(st, objp.root, objp.path, Map(d, v.open, v.vty))
                return Top('n')
        if n in ('insert_or_assign', 'emplace', 'try_emplace', 'insert'):
            if len(a) >= 2:
                k, x = self.rv(a[0], st, fr), self.rv(a[1], st, fr)
                if isinstance(k, Str):
                    d = dict(v.d)
                    if n == 'insert_or_assign' or k.s not in d:
                        d[k.s] = x
                    self.put(st, objp.root, objp.path, Map(d, v.open, v.vty))
                    return Top('pair')
        if n == 'clear':
            self.put(st, objp.root, objp.path, Map({}, False, v.vty))
            return VOID
        if n == 'size':
            return Lin(len(v.d))
        if n == 'empty':
            return bool_bv(0 if v.d else 1)
        return NotImplemented

    def model_span(self, n, f, e, objp, a, st, fr, line):
        v = self.walk(st, objp.root, objp.path) if isinstance(objp, Ptr) else objp
        if n == 'operator=' and isinstance(objp, Ptr):
            x = self.rv(a[0], st, fr)
            self.put(st, objp.root, objp.path, x)
            return objp
        if not isinstance(v, Span):
            for x in a:
                self.ev(x, st, fr)
            if n in ('size', 'size_bytes'):
                return Lin(0, {('top', self.fresh()): 1})
            return Top('span')
        esz = self.p.size(v.ety) or 1
        if n == 'size':
            return v.n
        if n == 'size_bytes':
            return v.n.mul(esz)
        if n in ('data', 'begin', 'cbegin'):
            return v.p
        if n in ('end', 'cend'):
            return v.p.plus(v.n.mul(esz))
        if n == 'empty':
            return bool_bv(self.eq0(v.n, st))
        if n in ('operator[]', 'front', 'back'):
            i = self.to_lin(self.rv(a[0], st, fr)) if n == 'operator[]' else (Lin(0) if n == 'front' else v.n.add(Lin(-1)))
            return self.elem_ptr(st, v.p.plus(i.mul(esz)), v.ety)
        if n == 'subspan':
            o = self.to_lin(self.rv(a[0], st, fr))
            k = self.rv(a[1], st, fr) if len(a) > 1 else None
            c = k.const() if isinstance(k, BV) else (k.c if isinstance(k, Lin) and k.isconst() else None)
            if k is None or c == (1 << 64) - 1 or c == -1:
                k = v.n.add(o, -1)
            else:
                k = self.to_lin(k)
            if not self.nonneg(v.n.add(o, -1).add(k, -1), st):
                self.event('oob-unproved', 'subspan beyond the end', st, line)
            return Span(v.p.plus(o.mul(esz)), k, v.ety)
        if n in ('first', 'last'):
            k = self.to_lin(self.rv(a[0], st, fr)) if a else Lin(0)
            if not self.nonneg(v.n.add(k, -1), st):
                self.event('oob-unproved', n + ' beyond the end', st, line)
            return Span(v.p if n == 'first' else v.p.plus(v.n.add(k, -1).mul(esz)), k, v.ety)
        return NotImplemented

    def model_bitset(self, n, f, e, objp, a, st, fr, line):
        v = self.walk(st, objp.root, objp.path) if isinstance(objp, Ptr) else objp
        if n == 'operator=' and isinstance(objp, Ptr):
            self.put(st, objp.root, objp.path, self.rv(a[0], st, fr))
            return objp
        args = [self.rv(x, st, fr) for x in a]
        if not isinstance(v, BV):
            return Top('bitset')
        if n in ('to_ulong', 'to_ullong'):
            return self.to_bv(v, 64)
        if n == 'size':
            return Lin(len(v.b))
        if n in ('test', 'operator[]') and args:
            i = self.to_lin(args[0])
            if i.isconst() and 0 <= i.c < len(v.b):
                return bool_bv(v.b[i.c])
        if n in ('none', 'any'):
            r = self._or(v)
            return bool_bv(r if n == 'any' else B.NOT(r))
        return Top('bitset::' + n)

    def model_iter(self, n, f, e, objp, a, st, fr, line):
        """vector iterators are addresses"""
        if objp is not None:
            p = self.load(st, objp, e['obj']['t']) if isinstance(objp, Ptr) else objp
            w = self.walk(st, objp.root, objp.path) if isinstance(objp, Ptr) else objp
            if isinstance(w, Ptr):
                p = w
            if n in ('operator++', 'operator--'):
                if isinstance(p, Ptr) and isinstance(objp, Ptr):
                    q = p.plus(Lin((1 if n == 'operator++' else -1) * self.seq_esz(st, p)))
                    self.put(st, objp.root, objp.path, q)
                    return p if a else objp
                return Top('iter')
            if n in ('operator+', 'operator-', 'operator+=', 'operator-='):
                k = self.rv(a[0], st, fr)
                if isinstance(p, Ptr) and not isinstance(k, Ptr):
                    q = p.plus(self.to_lin(k).mul(self.seq_esz(st, p) * (1 if '+' in n else -1)))
                    if n.endswith('='):
                        self.put(st, objp.root, objp.path, q)
                        return objp
                    return q
                return Top('iter')
            if n in ('operator*', 'operator->', 'base'):
                if isinstance(p, Ptr):
                    if n == 'base':
                        return p
                    v = self.walk(st, p.root, p.path)
                    if isinstance(v, (Vec, SVec)):
                        q = self.elem_ptr(st, p, v.ety)
                        if q.path == p.path and isinstance(v, Vec) and p.off.isconst():
                            i = p.off.c // (self.p.size(v.ety) or 1)
                            if 0 <= i < len(v.items):
                                return Ptr(p.root, p.path + (('i', i),))
                        return q
                    return p
                return Top('iter')
        vs = []
        for x in a:
            vs.append(self.rv(x, st, fr))
        if objp is not None and len(vs) == 1:
            w = self.load(st, objp, e['obj']['t']) if isinstance(objp, Ptr) else objp
            vs = [w] + vs
        if len(vs) == 2:
            x, y = vs
            if n in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
                op = n[8:]
                if isinstance(x, Opt) or isinstance(y, Opt):
                    return self.opt_compare(op, x, y, st)
                if isinstance(x, Str) and isinstance(y, Str):
                    return bool_bv(int((x.s == y.s) == (op == '==')))
                if isinstance(x, V) and isinstance(y, V) and isinstance(x, (Ptr, BV, Lin, Flt)) and isinstance(y, (Ptr, BV, Lin, Flt)):
                    return self.compare(op, x, y, False, st)
                return bool_bv(B.opaque(n))
            if n == 'operator-' and isinstance(x, Ptr) and isinstance(y, Ptr):
                return self.ldiv(x.off.add(y.off, -1), self.seq_esz(st, x)) or Top('iter-')
            if n == 'operator-' and isinstance(x, Ptr):
                return x.plus(self.to_lin(y).mul(-self.seq_esz(st, x)))
            if n == 'operator+' and isinstance(x, Ptr):
                return x.plus(self.to_lin(y).mul(self.seq_esz(st, x)))
            if n == 'operator+' and isinstance(y, Ptr):
                return y.plus(self.to_lin(x).mul(self.seq_esz(st, y)))
            if n == 'operator+' and isinstance(x, Str) and isinstance(y, Str):
                return Str(x.s + y.s)
        if n == 'operator+':
            return Top('string')
        return NotImplemented

    def opt_compare(self, op, x, y, st):
        if not isinstance(x, Opt):
            x, y = y, x
        if isinstance(y, Str) and y.s == '<nullopt>':
            r = B.NOT(x.p)
        elif isinstance(y, Opt):
            if x.p == 0 or y.p == 0:
                r = B.AND(B.NOT(x.p), B.NOT(y.p))
            elif isinstance(x.v, (BV, Lin)) and isinstance(y.v, (BV, Lin)):
                eq = self.compare('==', x.v, y.v, False, st).b[0]
                r = B.OR(B.AND(B.AND(x.p, y.p), eq), B.AND(B.NOT(x.p), B.NOT(y.p)))
            else:
                r = B.opaque('optcmp')
        elif isinstance(y, (BV, Lin)) and isinstance(x.v, (BV, Lin)):
            r = B.AND(x.p, self.compare('==', x.v, y, False, st).b[0])
        else:
            r = B.opaque('optcmp')
        return bool_bv(r if op == '==' else B.NOT(r))

    # ------------------------------------------------------------ public API for the checks
    def call(self, fn, this, args, st):
        """invoke a function by its facts; args are values (or Ptr for reference parameters)"""
        self.events_mark = len(self.events)
        return self.invoke(fn, this, args, st)
