"""Abstract interpreter for the Python subset the specification model is written in.

It reads the sources under /repo/src as syntax trees and never imports them.  Constants are folded exactly;
inputs are abstract: `Unk` stands for every value of a class of inputs (for example every string that is none of
the literals of the program).  A condition that the abstraction does not decide splits the analysis: both
successors are analysed (trace partitioning, see `traces`) and the caller requires the rule on each of them.
Objects are identified by allocation so aliasing is tracked exactly."""
import ast
import copy as _copy
import math
import os
import re as _re
import builtins as _b

SRC = None


class Undecided(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc, node=None, mod=None):
        self.exc = exc
        self.where = (mod.path if mod else '?', getattr(node, 'lineno', 0))

    @property
    def cls(self):
        return self.exc.cls

    @property
    def cname(self):
        return self.cls.name if isinstance(self.cls, Cls) else self.cls.__name__

    def __str__(self):
        return '%s(%s)' % (self.cname, ', '.join(map(show, self.exc.attrs.get('args', ()))))


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Unk:
    """every value of an input class; kind in str,int,bool,list,dict,any"""
    def __init__(self, kind='any', tag='', other=False):
        self.kind, self.tag, self.other = kind, tag, other

    def __repr__(self):
        return '<any %s %s>' % (self.kind, self.tag)


class Cls:
    def __init__(self, name, bases, ns, mod, node=None, kw=None):
        self.name, self.bases, self.ns, self.mod, self.node = name, bases, ns, mod, node
        self.kw = kw or {}
        self.dc = None          # own dataclass field list [(name, default, factory)]
        self.is_dc = False
        self.members = None     # enums
        self.meta = None
        self.mro = c3(self)

    def find(self, name):
        for c in self.mro:
            if isinstance(c, Cls):
                if name in c.ns:
                    return c, c.ns[name]
        return None, None

    def sub(self, other):
        return other in self.mro

    @property
    def is_enum(self):
        return any(isinstance(c, Cls) and c.name == 'Enum' and c.mod is None for c in self.mro)

    def dc_fields(self):
        out = {}
        for c in reversed(self.mro):
            if isinstance(c, Cls) and c.dc is not None:
                for f in c.dc:
                    out[f[0]] = f
        return list(out.values())

    def __repr__(self):
        return '<class %s>' % self.name


def c3(cls):
    def mro_of(b):
        return list(b.mro) if isinstance(b, Cls) else [x for x in b.__mro__]
    seqs = [mro_of(b) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Undecided('inconsistent class hierarchy of ' + cls.name)
        out.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class Obj:
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        n = self.attrs.get('name')
        return '<%s%s>' % (self.cls.name if isinstance(self.cls, Cls) else self.cls.__name__, ' ' + repr(n) if n else '')


class EM:
    """enum member"""
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value
        self.int = any(isinstance(c, Cls) and c.name == 'IntEnum' and c.mod is None for c in cls.mro)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, EM):
            return self.int and o.int and self.value == o.value
        return self.int and not isinstance(o, (Obj, Unk)) and self.value == o

    def __hash__(self):
        return hash(self.value) if self.int else id(self)

    def __repr__(self):
        return '<%s.%s: %r>' % (self.cls.name, self.name, self.value)


class Fn:
    def __init__(self, node, env, mod, cls=None, defaults=(), kwdefaults=()):
        self.node, self.env, self.mod, self.cls = node, env, mod, cls
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.name = getattr(node, 'name', '<lambda>')

    def __repr__(self):
        return '<function %s>' % self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class Static:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class Native:
    """a modelled library function; f(interp, args, kwargs)"""
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return '<native %s>' % self.name


class Mod:
    def __init__(self, name, path=None):
        self.name, self.path, self.ns = name, path, {'__name__': name}

    def __repr__(self):
        return '<module %s>' % self.name


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Opaque:
    """a library object only its identity matters of"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<lib %s>' % self.name


class FieldDef:
    def __init__(self, default=None, factory=None, has_default=False, init=True):
        self.default, self.factory, self.has_default, self.init = default, factory, has_default, init


NODEFAULT = object()


def show(v):
    if isinstance(v, EM):
        return '%s.%s' % (v.cls.name, v.name)
    return repr(v)


def descr(d, name):
    if isinstance(d, Obj) and isinstance(d.cls, Cls):
        f = d.cls.find(name)[1]
        if isinstance(f, Fn):
            return f
    return None


class Env:
    def __init__(self, vars, parent=None, glob=None, cls=None):
        self.vars, self.parent, self.glob, self.cls = vars, parent, glob, cls
        self.globals_decl = set()
        self.nonlocals = set()
        self.selfobj = None


def is_sub(c, d):
    """issubclass over interpreted and builtin classes"""
    if isinstance(d, tuple):
        return any(is_sub(c, x) for x in d)
    if c is d:
        return True
    if isinstance(c, Cls):
        if d in c.mro:
            return True
        if d is object:
            return True
        return any(isinstance(x, type) and isinstance(d, type) and issubclass(x, d) for x in c.mro)
    if isinstance(c, type) and isinstance(d, type):
        return issubclass(c, d)
    return False


UNKTYPES = {'str': str, 'int': int, 'bool': bool, 'list': list, 'dict': dict}


class Interp:
    def __init__(self, root):
        self.root = root            # .../src
        self.mods = {}
        self.decisions = []         # decision vector of the current trace
        self.pos = 0
        self.prints = []
        self.calls = []             # qualified names of interpreted functions entered (coverage)
        self.depth = 0
        self.steps = 0
        self.natives = {}
        self.lib = lib_modules()
        self.log = []
        self.registered = {}        # yaml tag -> constructor
        self.files = {}             # file name -> function giving the document yaml.load returns
        self.events = []            # library effects, in order
        self.watch = {}             # id of a function's syntax node -> event kind logged on entry
        self.fault = None           # (event kind, nth, exception) injected

    def event(self, kind, *args):
        self.events.append((kind,) + args)
        if self.fault and self.fault[0] == kind:
            n = sum(1 for e in self.events if e[0] == kind)
            if n == self.fault[1]:
                raise PyRaise(self.fault[2])

    # ---- undecided branches ------------------------------------------------------------------
    def choose(self, what=''):
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.decisions.append(d)
        self.pos += 1
        if self.pos > 14:
            raise Undecided('too many undecided conditions (%s)' % what)
        return d

    # ---- modules ------------------------------------------------------------------------------
    def import_module(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
            if name in self.mods:
                return self.mods[name]
        else:
            parent = None
        base = os.path.join(self.root, *name.split('.'))
        path = None
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            m = Mod(name, p if os.path.exists(p) else None)
            m.pkg = name
            path = p if os.path.exists(p) else None
        elif os.path.exists(base + '.py'):
            m = Mod(name, base + '.py')
            m.pkg = name.rsplit('.', 1)[0] if '.' in name else ''
            path = base + '.py'
        else:
            lib = self.lib.get(name)
            if lib is None:
                m = Mod(name)
                m.lib = True
            else:
                m = Mod(name)
                m.ns.update(lib)
                m.lib = True
            self.mods[name] = m
            return m
        self.mods[name] = m
        if path:
            m.ns.update({'__name__': name, '__package__': m.pkg, '__file__': path})
            tree = ast.parse(open(path, encoding='utf-8').read(), path)
            m.tree = tree
            env = Env(m.ns, None, m)
            self.block(tree.body, env)
        if parent is not None:
            parent.ns[name.rsplit('.', 1)[1]] = m
        return m

    # ---- statements ---------------------------------------------------------------------------
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 3000000:
            raise Undecided('analysis budget exhausted')
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Undecided('statement %s at %s:%d' % (type(s).__name__, env.glob.path, s.lineno))
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                self.store_name(a.name.split('.')[0], self.import_module(a.name.split('.')[0]), env)

    def s_ImportFrom(self, s, env):
        name = s.module or ''
        if s.level:
            pkg = env.glob.pkg.split('.')
            pkg = pkg[:len(pkg) - (s.level - 1)]
            name = '.'.join(pkg + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                names = m.ns.get('__all__')
                if names is None:
                    names = [n for n in m.ns if not n.startswith('_')]
                for n in names:
                    self.store_name(n, m.ns[n], env)
                continue
            if a.name in m.ns:
                v = m.ns[a.name]
            elif getattr(m, 'lib', False):
                v = Opaque(name + '.' + a.name)
            else:
                full = name + '.' + a.name
                try:
                    v = self.import_module(full)
                    if getattr(v, 'lib', False):
                        self.rais(ImportError, 'cannot import name %s' % a.name)
                except KeyError:
                    self.rais(ImportError, a.name)
            self.store_name(a.asname or a.name, v, env)

    def s_FunctionDef(self, s, env):
        a = s.args
        fn = Fn(s, env, env.glob, env.cls, [self.ev(d, env) for d in a.defaults],
                [self.ev(d, env) if d is not None else NODEFAULT for d in a.kw_defaults])
        v = fn
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.store_name(s.name, v, env)

    def decorate(self, d, v, env):
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.ev(d.value, env)
            return Prop(p.fget, v)
        dec = self.ev(d, env)
        return self.call(dec, [v], {}, d, env)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        for b in bases:
            if not isinstance(b, (Cls, type)):
                raise Undecided('base class %r' % (b,))
        kw = {k.arg: self.ev(k.value, env) for k in s.keywords}
        meta = kw.pop('metaclass', None)
        ns = {'__qualname__': s.name, '__module__': env.glob.name}
        if s.body and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Constant) \
                and isinstance(s.body[0].value.value, str):
            ns['__doc__'] = s.body[0].value.value
        else:
            ns['__doc__'] = None
        cls = Cls(s.name, bases, ns, env.glob, s, kw)
        for b in bases:
            if isinstance(b, Cls) and b.meta is not None:
                cls.meta = b.meta
        if meta is not None:
            cls.meta = meta
        cenv = Env(ns, env, env.glob, cls)
        cenv.is_class = True
        cls.ann = []
        self.block(s.body, cenv)
        for st in s.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                cls.ann.append((st.target.id, st.value is not None, st))
        if cls.is_enum:
            self.make_enum(cls)
        for n, d in list(ns.items()):
            f = descr(d, '__set_name__')
            if f is not None:
                self.call_fn(f, [d, cls, n], {})
        if kw:
            c, f = self.super_find(cls, cls, '__init_subclass__')
            if f is not None:
                fn = f.fn if isinstance(f, ClassM) else f
                self.call_fn(fn, [cls], dict(kw))
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.store_name(s.name, v, env)

    def super_find(self, cls, start, name):
        mro = cls.mro
        i = mro.index(start) + 1
        for c in mro[i:]:
            if isinstance(c, Cls) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def make_enum(self, cls):
        members = {}
        last = 0
        for k, v in list(cls.ns.items()):
            if k.startswith('_') or isinstance(v, (Fn, Prop, Static, ClassM, Cls)):
                continue
            if isinstance(v, Opaque) and v.name == 'auto()':
                v = last + 1
            if isinstance(v, EM):
                continue
            alias = next((m for m in members.values() if not isinstance(v, (Obj, Unk)) and m.value == v), None)
            if isinstance(v, int):
                last = v
            members[k] = alias or EM(cls, k, v)
            cls.ns[k] = members[k]
        cls.members = members

    def s_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value is not None else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        if isinstance(s.target, ast.Name):
            cur = self.e_Name(s.target, env)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, env)
            cur = self.getattr(o, s.target.attr, s, env)
        else:
            cur = self.ev(ast.Subscript(s.target.value, s.target.slice, ast.Load()), env)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(v, (list, tuple)):
            cur.extend(v)
            r = cur
        else:
            r = self.binop(type(s.op).__name__, cur, v, s, env)
        self.assign(s.target, r, env)

    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_For(self, s, env):
        broke = False
        for v in self.iterate(self.ev(s.iter, env), s, env):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 10000:
                raise Undecided('loop bound')
            try:
                self.block(s.body, env)
            except _Break:
                return
            except _Continue:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise _Break()

    def s_Continue(self, s, env):
        raise _Continue()

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = getattr(self, 'handling', [])
            if not cur:
                self.rais(RuntimeError, 'No active exception to reraise', s, env)
            raise cur[-1]
        e = self.ev(s.exc, env)
        if isinstance(e, Cls) or (isinstance(e, type) and issubclass(e, BaseException)):
            e = self.call(e, [], {}, s, env)
        if not isinstance(e, Obj):
            self.rais(TypeError, 'exceptions must derive from BaseException', s, env)
        raise PyRaise(e, s, env.glob)

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, env)
                        ok = is_sub(e.cls, tuple(t) if isinstance(t, (list, tuple)) else t)
                    if ok:
                        if h.name:
                            self.store_name(h.name, e.exc, env)
                        self.handling = getattr(self, 'handling', [])
                        self.handling.append(e)
                        try:
                            self.block(h.body, env)
                        finally:
                            self.handling.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            if s.finalbody:
                self.block(s.finalbody, env)

    def s_With(self, s, env):
        self.with_items(s, list(s.items), env)

    def with_items(self, s, items, env):
        if not items:
            self.block(s.body, env)
            return
        it = items.pop(0)
        v = self.ev(it.context_expr, env)
        if isinstance(v, Suppress):
            try:
                self.with_items(s, items, env)
            except PyRaise as e:
                if not is_sub(e.cls, tuple(v.excs)):
                    raise
            return
        if isinstance(v, Obj) and isinstance(v.cls, Cls):
            g, x = v.cls.find('__enter__')[1], v.cls.find('__exit__')[1]
            if not isinstance(g, Fn) or not isinstance(x, Fn):
                raise Undecided('with over %r' % (v,))
            r = self.call_fn(g, [v], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
            try:
                self.with_items(s, items, env)
            except PyRaise as e:
                if not self.truth(self.call_fn(x, [v, e.cls, e.exc, None], {})):
                    raise
            else:
                self.call_fn(x, [v, None, None, None], {})
            return
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        self.with_items(s, items, env)

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.rais(AssertionError, '', s, env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev(t.slice, env)
                try:
                    del o[k]
                except (KeyError, IndexError) as e:
                    self.rais(type(e), k, s, env)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                o.attrs.pop(t.attr, None)

    def s_Global(self, s, env):
        env.globals_decl |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    # ---- assignment ---------------------------------------------------------------------------
    def store_name(self, n, v, env):
        if n in env.globals_decl:
            env.glob.ns[n] = v
        elif n in env.nonlocals:
            e = env.parent
            while e is not None:
                if n in e.vars:
                    e.vars[n] = v
                    return
                e = e.parent
        else:
            env.vars[n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v, t, env)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(o, (dict, list)):
                if isinstance(k, Unk):
                    raise Undecided('store under an unknown key')
                o[self.key(k)] = v
            elif isinstance(o, DictView):
                o.obj.attrs[k] = v
            else:
                raise Undecided('store into %r' % (o,))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v, t, env))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                n = len(t.elts) - 1
                for e, x in zip(t.elts[:i], vs):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - (n - i)], env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - (n - i):]):
                    self.assign(e, x, env)
                return
            if len(vs) != len(t.elts):
                self.rais(ValueError, 'unpack', t, env)
            for e, x in zip(t.elts, vs):
                self.assign(e, x, env)
        else:
            raise Undecided('assignment target ' + type(t).__name__)

    def setattr(self, o, name, v, node=None, env=None):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                c, d = o.cls.find(name)
                if isinstance(d, Prop):
                    if d.fset is None:
                        self.rais(AttributeError, "can't set attribute " + name, node, env)
                    self.call_fn(d.fset, [o, v], {})
                    return
                f = descr(d, '__set__')
                if f is not None:
                    self.call_fn(f, [d, o, v], {})
                    return
            o.attrs[name] = v
        elif isinstance(o, Cls):
            o.ns[name] = v
        elif isinstance(o, Mod):
            o.ns[name] = v
        elif isinstance(o, Opaque):
            pass
        elif o is None or isinstance(o, (int, str, float, EM, tuple, list, dict)):
            self.rais(AttributeError, name, node, env)
        else:
            raise Undecided('attribute store on %r' % (o,))

    # ---- expressions --------------------------------------------------------------------------
    def ev(self, e, env):
        self.steps += 1
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Undecided('expression %s at %s:%s' % (type(e).__name__, env.glob.path, getattr(e, 'lineno', '?')))
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        n = e.id
        if n in env.globals_decl:
            if n in env.glob.ns:
                return env.glob.ns[n]
        x = env
        first = True
        while x is not None:
            if n in x.vars and (first or not getattr(x, 'is_class', False)):
                return x.vars[n]
            x = x.parent
            first = False
        if n in env.glob.ns:
            return env.glob.ns[n]
        if n in BUILTINS:
            return BUILTINS[n]
        if hasattr(_b, n) and isinstance(getattr(_b, n), type):
            return getattr(_b, n)
        self.rais(NameError, n, e, env)

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr, e, env)

    def getattr(self, o, name, node=None, env=None, default=NODEFAULT):
        try:
            return self.getattr_(o, name, node, env)
        except PyRaise as x:
            if default is not NODEFAULT and is_sub(x.cls, AttributeError):
                return default
            raise

    def getattr_(self, o, name, node, env):
        if isinstance(o, Obj):
            if isinstance(o.cls, Cls):
                c, d = o.cls.find(name)
                if isinstance(d, Prop):
                    return self.call_fn(d.fget, [o], {})
                f = descr(d, '__get__')
                if f is not None and (descr(d, '__set__') is not None or name not in o.attrs):
                    return self.call_fn(f, [d, o, o.cls], {})
                if name in o.attrs:
                    return o.attrs[name]
                if name == '__dict__':
                    return DictView(o)
                if name == '__class__':
                    return o.cls
                if c is not None:
                    return self.bind(d, o, o.cls)
            else:
                if name in o.attrs:
                    return o.attrs[name]
                if name == '__class__':
                    return o.cls
            self.rais(AttributeError, name, node, env)
        if isinstance(o, EM):
            if name in ('name', '_name_'):
                return o.name
            if name in ('value', '_value_'):
                return o.value
            if name == '__class__':
                return o.cls
            c, d = o.cls.find(name)
            if isinstance(d, Prop):
                return self.call_fn(d.fget, [o], {})
            if c is not None:
                return self.bind(d, o, o.cls)
            if o.int and name in ('bit_length',):
                return Native(name, lambda i, a, k: o.value.bit_length())
            self.rais(AttributeError, name, node, env)
        if isinstance(o, Cls):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__members__':
                return dict(o.members or {})
            if name == '__mro__':
                return tuple(o.mro)
            if name == '__dict__':
                return dict(o.ns)
            c, d = o.find(name)
            if c is not None:
                if isinstance(d, Static):
                    return d.fn
                if isinstance(d, ClassM):
                    return Bound(d.fn, o)
                f = descr(d, '__get__')
                if f is not None:
                    return self.call_fn(f, [d, None, o], {})
                return d
            if o.meta is not None and isinstance(o.meta, Cls):
                c, d = o.meta.find(name)
                if isinstance(d, Fn):
                    return Bound(d, o)
            if name == '__init_subclass__':
                return Native(name, lambda i, a, k: None)
            self.rais(AttributeError, '%s.%s' % (o.name, name), node, env)
        if isinstance(o, Mod):
            if name in o.ns:
                return o.ns[name]
            if getattr(o, 'lib', False):
                return Opaque(o.name + '.' + name)
            sub = o.name + '.' + name
            if sub in self.mods:
                return self.mods[sub]
            self.rais(AttributeError, '%s.%s' % (o.name, name), node, env)
        if isinstance(o, Super):
            cls = o.obj.cls if isinstance(o.obj, (Obj, EM)) else o.obj
            if isinstance(o.obj, Cls) and o.cls not in cls.mro:
                cls = o.obj.meta
            c, d = self.super_find(cls, o.cls, name)
            if c is not None:
                if isinstance(d, Prop):
                    return self.call_fn(d.fget, [o.obj], {})
                return self.bind(d, o.obj, cls)
            return self.builtin_super(o, name)
        if isinstance(o, Unk):
            if o.kind in ('int', 'bool'):
                if name in ('name', 'casefold', 'lower', 'startswith', 'enabled', 'items'):
                    self.rais(AttributeError, name, node, env)
                raise Undecided('attribute %s of unknown int' % name)
            if o.kind == 'str':
                if hasattr('', name):
                    return Native('str.' + name, lambda i, a, k: self.unk_str(o, name, a))
                self.rais(AttributeError, name, node, env)
            if o.kind in ('list', 'dict'):
                if not hasattr(UNKTYPES[o.kind], name):
                    self.rais(AttributeError, name, node, env)
            raise Undecided('attribute %s of %r' % (name, o))
        if isinstance(o, Opaque):
            if (o.name + '.' + name) in OPAQUE_CALLS:
                return Native(o.name + '.' + name, OPAQUE_CALLS[o.name + '.' + name])
            return Opaque(o.name + '.' + name)
        if isinstance(o, type):
            if name == '__name__':
                return o.__name__
            if o is object and name == '__setattr__':
                return Native('object.__setattr__', lambda i, a, k: a[0].attrs.__setitem__(a[1], a[2]))
            if hasattr(o, name):
                f = getattr(o, name)
                return Native(o.__name__ + '.' + name, lambda i, a, k: f(*a, **k))
            self.rais(AttributeError, name, node, env)
        if isinstance(o, DictView):
            return Native('dict.' + name, lambda i, a, k: self.method(o.obj.attrs, name, a, k, node, env))
        if isinstance(o, Fn):
            if name in ('__name__', '__qualname__'):
                return o.name
            if name == '__doc__':
                return ast.get_docstring(o.node) if not isinstance(o.node, ast.Lambda) else None
            self.rais(AttributeError, name, node, env)
        if isinstance(o, LibObj):
            return o.getattr(self, name)
        if isinstance(o, (str, int, float, list, dict, tuple, set, frozenset, bytes, Gen)) or o is None:
            if name == '__class__':
                return type(o)
            probe = [] if isinstance(o, Gen) else o
            if hasattr(probe, name):
                return Native('%s.%s' % (type(o).__name__, name),
                              lambda i, a, k: self.method(o, name, a, k, node, env))
            self.rais(AttributeError, "'%s' object has no attribute '%s'" % (type(o).__name__, name), node, env)
        raise Undecided('attribute %s of %r' % (name, o))

    def builtin_super(self, o, name):
        if name in ('__init_subclass__', '__post_init__', '__init__'):
            if name == '__post_init__':
                self.rais(AttributeError, name)
            if name == '__init__':
                cls = o.obj.cls if isinstance(o.obj, Obj) else None
                if cls is not None and cls.is_dc:
                    return Native(name, lambda i, a, k: i.dc_init(o.obj, a, k))
            return Native(name, lambda i, a, k: None)
        if name == '__call__' and isinstance(o.obj, Cls):
            return Native(name, lambda i, a, k: i.enum_call(o.obj, a, k))
        if name == '__setattr__':
            return Native(name, lambda i, a, k: o.obj.attrs.__setitem__(a[0], a[1]))
        if name == '__eq__':
            return Native(name, lambda i, a, k: i.eq(o.obj, a[0]))
        self.rais(AttributeError, 'super has no ' + name)

    def bind(self, d, obj, cls):
        if isinstance(d, Fn):
            return Bound(d, obj)
        if isinstance(d, Static):
            return d.fn
        if isinstance(d, ClassM):
            return Bound(d.fn, cls)
        return d

    def unk_str(self, o, name, a):
        if name in ('casefold', 'lower', 'strip', 'lstrip', 'rstrip'):
            return Unk('str', o.tag, o.other)
        if name in ('upper', 'title', 'format', 'replace', 'join', 'capitalize'):
            return Unk('str', o.tag)
        if name in ('startswith', 'endswith', 'isalnum', 'isdigit', 'isnumeric', 'isupper', 'islower', 'isalpha',
                    'isidentifier', 'isdecimal'):
            return self.choose('%s of an arbitrary string' % name)
        if name in ('split', 'splitlines', 'encode', 'partition'):
            raise Undecided(name + ' of an arbitrary string')
        raise Undecided('str.%s' % name)

    def method(self, o, name, a, k, node, env):
        if isinstance(o, Gen):
            raise Undecided('generator method')
        if isinstance(o, str) and name in ('format', 'join') or isinstance(o, str) and any(isinstance(x, Unk) for x in a):
            if name == 'join':
                xs = list(self.iterate(a[0], node, env))
                for x in xs:
                    if not isinstance(x, (str, Unk)):
                        self.rais(TypeError, 'join', node, env)
                if any(isinstance(x, Unk) for x in xs):
                    return Unk('str')
                return o.join(xs)
            if name == 'format':
                try:
                    return o.format(*[self.fmt(x) for x in a], **{n: self.fmt(x) for n, x in k.items()})
                except (ValueError, IndexError, KeyError, TypeError):
                    return Unk('str')
            if name in ('startswith', 'endswith'):
                return self.choose(name)
            return Unk('str')
        if isinstance(o, list) and name == 'sort' or isinstance(o, list) and name == 'index':
            if name == 'sort':
                o[:] = self.sorted(o, k)
                return None
        if isinstance(o, dict):
            if name in ('get', 'pop', 'setdefault') and isinstance(a[0], Unk):
                u = a[0]
                if not u.other:
                    raise Undecided('lookup of an unknown key')
                if name == 'setdefault':
                    raise Undecided('setdefault with an unknown key')
                if len(a) > 1:
                    return a[1]
                if name == 'get':
                    return k.get('default')
                self.rais(KeyError, u, node, env)
            if name == 'update':
                for x in a:
                    o.update(x.obj.attrs if isinstance(x, DictView) else dict(x))
                o.update(k)
                return None
        if isinstance(o, (list, tuple)) and name in ('index', 'count', 'remove'):
            for i, x in enumerate(o):
                if self.eq(x, a[0]):
                    if name == 'index':
                        return i
                    if name == 'remove':
                        del o[i]
                        return None
            if name == 'count':
                return sum(1 for x in o if self.eq(x, a[0]))
            self.rais(ValueError, 'not in list', node, env)
        if name in ('extend',) and isinstance(o, list):
            o.extend(self.iterate(a[0], node, env))
            return None
        if isinstance(o, (set, frozenset)) and name in ('update', 'union', 'intersection', 'difference', 'issubset', 'issuperset'):
            a = [set(self.iterate(x, node, env)) for x in a]
        try:
            f = getattr(o, name)
            return f(*[self.key(x) if isinstance(o, (dict, set)) else x for x in a], **k)
        except (KeyError, ValueError, TypeError, IndexError, AttributeError) as e:
            self.rais(type(e), str(e), node, env)

    def fmt(self, x):
        if isinstance(x, Unk):
            return '<%s>' % x.tag
        if isinstance(x, EM):
            return x.value if x.int else x.name
        if isinstance(x, (Obj, Cls, Fn)):
            return repr(x)
        return x

    def key(self, k):
        return k

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, env) if e.slice.lower else None
            hi = self.ev(e.slice.upper, env) if e.slice.upper else None
            st = self.ev(e.slice.step, env) if e.slice.step else None
            if isinstance(o, Unk):
                return Unk(o.kind)
            if isinstance(o, Gen):
                o = o.items
            return o[lo:hi:st]
        k = self.ev(e.slice, env)
        if isinstance(o, DictView):
            o = o.obj.attrs
        if isinstance(o, Unk):
            if o.kind in ('int', 'bool'):
                self.rais(TypeError, 'not subscriptable', e, env)
            return Unk('str' if o.kind == 'str' else 'any')
        if isinstance(o, (Cls, type)):
            if isinstance(o, Cls) and o.members is not None:
                if isinstance(k, Unk):
                    if k.other:
                        self.rais(KeyError, k, e, env)
                    raise Undecided('enum lookup')
                if k in o.members:
                    return o.members[k]
                self.rais(KeyError, k, e, env)
            return o                       # List[Field]
        if isinstance(o, Opaque):
            return o
        if isinstance(o, LibObj):
            return o.getitem(self, k)
        if isinstance(k, Unk):
            if isinstance(o, dict):
                if k.other:
                    self.rais(KeyError, k, e, env)
                if k.kind in ('int', 'list', 'dict') and all(isinstance(x, str) for x in o):
                    self.rais(KeyError if k.kind == 'int' else TypeError, k, e, env)
            raise Undecided('lookup of an unknown key')
        try:
            return o[k]
        except (KeyError, IndexError, TypeError) as x:
            self.rais(type(x), k, e, env)

    def e_Index(self, e, env):
        return self.ev(e.value, env)

    def e_List(self, e, env):
        return self.elts(e, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e, env))

    def e_Set(self, e, env):
        return set(self.elts(e, env))

    def elts(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env), x, env))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env)
                out.update(d.obj.attrs if isinstance(d, DictView) else d)
            else:
                out[self.ev(k, env)] = self.ev(v, env)
        return out

    def e_BoolOp(self, e, env):
        for x in e.values[:-1]:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v if not isinstance(v, Unk) else False
            if isinstance(e.op, ast.Or) and t:
                return v if not isinstance(v, Unk) or v.kind != 'bool' else True
        return self.ev(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Unk):
            return Unk('int')
        if isinstance(v, EM):
            v = v.value
        return {'USub': lambda: -v, 'UAdd': lambda: +v, 'Invert': lambda: ~v}[type(e.op).__name__]()

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env), e, env)

    def binop(self, op, a, b, node, env):
        if isinstance(a, EM) and a.int:
            a = a.value
        if isinstance(b, EM) and b.int:
            b = b.value
        if isinstance(a, Unk) or isinstance(b, Unk):
            ka, kb = kind(a), kind(b)
            if 'any' in (ka, kb):
                return Unk('any')
            if op == 'Mod' and ka == 'str':
                return Unk('str')
            num = ('int', 'bool', 'float')
            if ka in num and kb in num:
                return Unk('int')
            if op == 'Add' and ka == kb and ka in ('str', 'list'):
                return Unk(ka)
            if op == 'Mult' and ('str' in (ka, kb) or 'list' in (ka, kb)) and (ka in num or kb in num):
                return Unk('str' if 'str' in (ka, kb) else 'list')
            self.rais(TypeError, 'unsupported operand type(s) for %s: %s and %s' % (op, ka, kb), node, env)
        if isinstance(a, DictView):
            a = a.obj.attrs
        if isinstance(b, DictView):
            b = b.obj.attrs
        if op == 'Mod' and isinstance(a, str):
            try:
                return a % (tuple(map(self.fmt, b)) if isinstance(b, tuple) else self.fmt(b))
            except (TypeError, ValueError):
                return Unk('str')
        if isinstance(a, (Obj, Cls, Opaque)) or isinstance(b, (Obj, Cls, Opaque)):
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                return Opaque('expr')
            if op == 'BitOr':
                return Opaque('union')
            self.rais(TypeError, 'unsupported operand types for ' + op, node, env)
        if isinstance(a, Gen) or isinstance(b, Gen):
            raise Undecided('operator on a generator')
        try:
            return BINOPS[op](a, b)
        except (TypeError, ValueError, ZeroDivisionError) as x:
            self.rais(type(x), str(x), node, env)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            if not self.compare(type(op).__name__, left, right, e, env):
                return False
            left = right
        return True

    def compare(self, op, a, b, node, env):
        if op == 'Is':
            return self.same(a, b)
        if op == 'IsNot':
            return not self.same(a, b)
        if op == 'Eq':
            return self.eq(a, b)
        if op == 'NotEq':
            return not self.eq(a, b)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, node, env)
            return r if op == 'In' else not r
        if isinstance(a, EM) and a.int:
            a = a.value
        if isinstance(b, EM) and b.int:
            b = b.value
        if isinstance(a, Unk) or isinstance(b, Unk):
            ka, kb = kind(a), kind(b)
            num = ('int', 'bool', 'float', 'any')
            if (ka in num) != (kb in num):
                self.rais(TypeError, 'ordering of %s and %s' % (ka, kb), node, env)
            return self.choose('ordering of an unknown value')
        try:
            return {'Lt': lambda: a < b, 'LtE': lambda: a <= b, 'Gt': lambda: a > b, 'GtE': lambda: a >= b}[op]()
        except TypeError as x:
            self.rais(TypeError, str(x), node, env)

    def same(self, a, b):
        if isinstance(a, Unk) or isinstance(b, Unk):
            u, o = (a, b) if isinstance(a, Unk) else (b, a)
            if u is o:
                return True
            if o is None and u.kind != 'any':
                return False
            if isinstance(o, bool) and u.kind not in ('any', 'bool'):
                return False
            return self.choose('identity of an unknown value')
        if isinstance(a, (int, str, float)) and not isinstance(a, bool):
            return type(a) is type(b) and a == b
        return a is b

    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Unk) or isinstance(b, Unk):
            u, o = (a, b) if isinstance(a, Unk) else (b, a)
            if u.other:
                return False
            ko = kind(o)
            num = ('int', 'bool', 'float')
            if u.kind != 'any' and ko != 'any' and u.kind != ko and not (u.kind in num and ko in num):
                return False
            return self.choose('comparison with an unknown value')
        if isinstance(a, DictView):
            a = a.obj.attrs
        if isinstance(b, DictView):
            b = b.obj.attrs
        if isinstance(a, EM) or isinstance(b, EM):
            return (a == b) if isinstance(a, EM) else (b == a)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if isinstance(a.cls, Cls):
                c, d = a.cls.find('__eq__')
                if isinstance(d, Fn):
                    return self.truth(self.call_fn(d, [a, b], {}))
                if a.cls is b.cls and a.cls.is_dc:
                    return all(self.eq(a.attrs.get(f[0]), b.attrs.get(f[0])) for f in a.cls.dc_fields())
            return False
        if isinstance(a, (Obj, Cls, Fn, Opaque)) or isinstance(b, (Obj, Cls, Fn, Opaque)):
            return a is b
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        try:
            return a == b
        except Exception:
            return False

    def contains(self, c, x, node, env):
        if isinstance(c, DictView):
            c = c.obj.attrs
        if isinstance(c, Unk):
            if c.kind == 'str':
                if not isinstance(x, str) and kind(x) != 'str':
                    self.rais(TypeError, 'in <string>', node, env)
                return self.choose('substring of an unknown string')
            if c.kind in ('int', 'bool'):
                self.rais(TypeError, 'argument of type int is not iterable', node, env)
            return self.choose('membership in an unknown value')
        if c is None or isinstance(c, (int, float)):
            self.rais(TypeError, 'argument is not iterable', node, env)
        if isinstance(c, str):
            if isinstance(x, Unk):
                return self.choose('substring')
            if not isinstance(x, str):
                self.rais(TypeError, 'in <string>', node, env)
            return x in c
        if isinstance(c, (dict, set, frozenset)):
            if isinstance(x, Unk):
                if x.other:
                    return False
                if all(kind(k) not in (x.kind, 'any') for k in c) and x.kind != 'any':
                    return False
                return self.choose('membership of an unknown key')
            if isinstance(x, (list, dict)):
                self.rais(TypeError, 'unhashable', node, env)
            return x in c
        if isinstance(c, Cls) and c.members is not None:
            return any(self.eq(m, x) for m in c.members.values())
        return any(self.eq(v, x) for v in self.iterate(c, node, env))

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_Lambda(self, e, env):
        return Fn(e, env, env.glob, env.cls, [self.ev(d, env) for d in e.args.defaults],
                  [self.ev(d, env) if d is not None else NODEFAULT for d in e.args.kw_defaults])

    def e_JoinedStr(self, e, env):
        out = ''
        unk = False
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
            else:
                x = self.ev(v.value, env)
                if isinstance(x, Unk):
                    unk = True
                    continue
                spec = ''
                if v.format_spec is not None:
                    spec = self.ev(v.format_spec, env)
                    if isinstance(spec, Unk):
                        unk = True
                        continue
                if v.conversion == 114:
                    x = repr(self.fmt(x))
                try:
                    out += format(self.fmt(x), spec) if not isinstance(x, (list, dict, tuple, set)) or spec else str(x)
                except (ValueError, TypeError) as ex:
                    self.rais(type(ex), str(ex), e, env)
        return Unk('str') if unk else out

    def e_FormattedValue(self, e, env):
        return self.fmt(self.ev(e.value, env))

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Starred(self, e, env):
        raise Undecided('starred expression')

    def comp(self, gens, env, emit, i=0):
        if i == 0:
            env = Env({}, env, env.glob, env.cls)
        g = gens[i]
        for v in list(self.iterate(self.ev(g.iter, env), g.iter, env)):
            self.assign(g.target, v, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                if i + 1 < len(gens):
                    self.comp(gens, env, emit, i + 1)
                else:
                    emit(env)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, env, lambda en: out.append(self.ev(e.elt, en)))
        return out

    def e_GeneratorExp(self, e, env):
        return Gen(self.e_ListComp(e, env))

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out = {}

        def emit(en):
            k = self.ev(e.key, en)
            out[k] = self.ev(e.value, en)
        self.comp(e.generators, env, emit)
        return out

    def e_Yield(self, e, env):
        f = env
        while f is not None and not hasattr(f, 'yields'):
            f = f.parent
        f.yields.append(self.ev(e.value, env) if e.value is not None else None)

    def e_YieldFrom(self, e, env):
        f = env
        while f is not None and not hasattr(f, 'yields'):
            f = f.parent
        f.yields.extend(self.iterate(self.ev(e.value, env), e, env))

    def iterate(self, v, node, env):
        if isinstance(v, DictView):
            return list(v.obj.attrs)
        if isinstance(v, Gen):
            items, v.items = v.items, []
            return items
        if isinstance(v, (list, tuple, str, range)):
            return v
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (set, frozenset)):
            self.log.append(('set-iteration', env.glob.path if env else '?', getattr(node, 'lineno', 0)))
            return sorted(v, key=repr)
        if isinstance(v, Cls) and v.members is not None:
            seen = []
            for m in v.members.values():
                if m not in seen:
                    seen.append(m)
            return seen
        if isinstance(v, Unk):
            if v.kind in ('int', 'bool'):
                self.rais(TypeError, 'not iterable', node, env)
            raise Undecided('iteration over an unknown value')
        if v is None or isinstance(v, (int, float, EM, Fn)):
            self.rais(TypeError, 'not iterable', node, env)
        if hasattr(v, '__iter__') and not isinstance(v, (Obj, Opaque)):
            return list(v)
        raise Undecided('iteration over %r' % (v,))

    def truth(self, v):
        if isinstance(v, Unk):
            if v.kind == 'str' and v.other:
                return True
            return self.choose('truth of an unknown value')
        if isinstance(v, Obj):
            if isinstance(v.cls, Cls):
                c, d = v.cls.find('__bool__')
                if isinstance(d, Fn):
                    return self.truth(self.call_fn(d, [v], {}))
                c, d = v.cls.find('__len__')
                if isinstance(d, Fn):
                    return self.truth(self.call_fn(d, [v], {}))
            return True
        if isinstance(v, EM):
            return bool(v.value) if v.int else True
        if isinstance(v, Gen):
            return True
        if isinstance(v, DictView):
            return bool(v.obj.attrs)
        if isinstance(v, (Cls, Fn, Bound, Native, Mod, Opaque, Prop, Static)):
            return True
        return bool(v)

    # ---- calls --------------------------------------------------------------------------------
    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in env.vars:
            if e.args:
                return Super(self.ev(e.args[0], env), self.ev(e.args[1], env))
            x = env
            while x is not None and getattr(x, 'defcls', None) is None:
                x = x.parent
            return Super(x.defcls, x.selfobj)
        f = self.ev(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.ev(a.value, env), a, env))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if isinstance(d, DictView):
                    d = d.obj.attrs
                if not isinstance(d, dict):
                    if isinstance(d, Unk):
                        raise Undecided('** of an unknown value')
                    self.rais(TypeError, 'argument after ** must be a mapping', e, env)
                for n in d:
                    if not isinstance(n, (str, Unk)):
                        self.rais(TypeError, 'keywords must be strings', e, env)
                kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw, e, env)

    def call(self, f, args, kw, node=None, env=None):
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.self] + list(args), kw, node, env)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw, node, env)
        if isinstance(f, Native):
            try:
                return f.f(self, list(args), dict(kw))
            except (PyRaise, Undecided, _Return, _Break, _Continue):
                raise
            except RecursionError:
                raise Undecided('recursion')
            except (TypeError, ValueError, KeyError, IndexError, AttributeError) as x:
                self.rais(type(x), str(x), node, env)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, node, env)
        if isinstance(f, Static):
            return self.call(f.fn, args, kw, node, env)
        if isinstance(f, type):
            return self.builtin_type(f, args, kw, node, env)
        if isinstance(f, Opaque):
            g = OPAQUE_CALLS.get(f.name)
            if g:
                return g(self, list(args), dict(kw))
            self.event('call', f.name)
            return Opaque(f.name + '()')
        if isinstance(f, Obj) and isinstance(f.cls, Cls):
            c, d = f.cls.find('__call__')
            if isinstance(d, Fn):
                return self.call_fn(d, [f] + list(args), kw, node, env)
        if isinstance(f, LibObj):
            return f.call(self, args, kw)
        if isinstance(f, Unk):
            raise Undecided('call of an unknown value')
        self.rais(TypeError, '%r is not callable' % (f,), node, env)

    def instantiate(self, c, args, kw, node=None, env=None):
        if c.is_enum:
            if isinstance(c.meta, Cls):
                _, d = c.meta.find('__call__')
                if isinstance(d, Fn):
                    return self.call_fn(d, [c] + list(args), kw)
            return self.enum_call(c, args, kw)
        if any(isinstance(x, type) and x is not object and not issubclass(x, BaseException) for x in c.mro):
            if any(x in c.mro for x in (dict, list, str, int)):
                raise Undecided('subclass of a builtin container: ' + c.name)
        o = Obj(c)
        k, d = c.find('__new__')
        if isinstance(d, Fn):
            raise Undecided('__new__ of ' + c.name)
        k, d = c.find('__init__')
        dk = next((x for x in c.mro if isinstance(x, Cls) and x.is_dc), None)
        if isinstance(d, Fn) and (dk is None or c.mro.index(k) <= c.mro.index(dk)):
            self.call_fn(d, [o] + list(args), kw, node, env)
        elif dk is not None:
            self.dc_init(o, args, kw, node, env)
        elif any(isinstance(x, type) and issubclass(x, BaseException) for x in c.mro):
            o.attrs['args'] = tuple(args)
        elif args or kw:
            self.rais(TypeError, c.name + '() takes no arguments', node, env)
        return o

    def dc_init(self, o, args, kw, node=None, env=None):
        fs = o.cls.dc_fields()
        args, kw = list(args), dict(kw)
        if len(args) > len(fs):
            self.rais(TypeError, '__init__() takes %d positional arguments' % len(fs), node, env)
        for name, default, factory in fs:
            if args:
                if name in kw:
                    self.rais(TypeError, 'multiple values for ' + name, node, env)
                v = args.pop(0)
            elif name in kw:
                v = kw.pop(name)
            elif factory is not None:
                v = self.call(factory, [], {}, node, env)
            elif default is not NODEFAULT:
                v = default
            else:
                self.rais(TypeError, "__init__() missing argument '%s'" % name, node, env)
            self.setattr(o, name, v, node, env)
        if kw:
            self.rais(TypeError, '__init__() got an unexpected keyword argument %s' % sorted(map(str, kw))[0], node, env)
        c, d = o.cls.find('__post_init__')
        if isinstance(d, Fn):
            self.call_fn(d, [o], {}, node, env)

    def enum_call(self, c, args, kw):
        args = list(args)
        names = args[1] if len(args) > 1 else kw.get('names')
        if names is not None:
            n = Cls(args[0] if isinstance(args[0], str) else '<user>', [c], {'__doc__': None}, c.mod)
            n.meta = c.meta
            if isinstance(names, str):
                names = names.replace(',', ' ').split()
            if isinstance(names, (list, tuple)):
                names = {x: i + 1 for i, x in enumerate(names)} if not names or isinstance(names[0], str) else dict(names)
            for k, v in names.items():
                n.ns[k] = v
            self.make_enum(n)
            return n
        if not args:
            if 'value' in kw:
                args = [kw['value']]
            else:
                self.rais(TypeError, 'missing value')
        v = args[0]
        if isinstance(v, EM) and v.cls is c:
            return v
        if isinstance(v, Unk):
            self.rais(ValueError, 'not a valid ' + c.name) if v.other else None
            raise Undecided('enum of an unknown value')
        for m in (c.members or {}).values():
            if not isinstance(v, (Obj, Cls)) and m.value == (v.value if isinstance(v, EM) and v.int else v):
                return m
        self.rais(ValueError, '%r is not a valid %s' % (v, c.name))

    def builtin_type(self, t, args, kw, node, env):
        if issubclass(t, BaseException):
            return Obj(t, {'args': tuple(args)})
        a = args[0] if args else None
        if t is type:
            if len(args) == 1:
                return self.typeof(a)
            n = Cls(args[0], list(args[1]), dict(args[2]), env.glob if env else None)
            return n
        if t is object:
            return Opaque('object()')
        if t in (list, tuple, set, frozenset):
            return t(self.iterate(a, node, env)) if args else t()
        if t is dict:
            d = {}
            if args:
                if isinstance(a, DictView):
                    d.update(a.obj.attrs)
                elif isinstance(a, dict):
                    d.update(a)
                else:
                    for p in self.iterate(a, node, env):
                        k, v = self.iterate(p, node, env)
                        d[k] = v
            d.update(kw)
            return d
        if t is str:
            if not args:
                return ''
            if isinstance(a, Unk):
                return Unk('str', a.tag, a.other)
            if isinstance(a, Obj) and isinstance(a.cls, Cls):
                c, d = a.cls.find('__str__')
                if isinstance(d, Fn):
                    return self.call_fn(d, [a], {})
                return repr(a)
            if isinstance(a, EM):
                return '%s.%s' % (a.cls.name, a.name)
            return str(a)
        if t is bool:
            return self.truth(a) if args else False
        if t in (int, float):
            if isinstance(a, Unk):
                if a.kind in ('str', 'any'):
                    if self.choose('conversion of an unknown value to a number'):
                        return Unk('int', a.tag)
                    self.rais(ValueError, 'invalid literal', node, env)
                if a.kind in ('list', 'dict'):
                    self.rais(TypeError, 'int()', node, env)
                return Unk('int', a.tag)
            if isinstance(a, EM):
                a = a.value
            if isinstance(a, (Obj, Cls)) or a is None and args:
                self.rais(TypeError, 'int() argument', node, env)
            try:
                return t(*([a] + list(args[1:]) if args else []), **kw)
            except (ValueError, TypeError) as x:
                self.rais(type(x), str(x), node, env)
        if t is range:
            return list(range(*[x.value if isinstance(x, EM) else x for x in args]))
        if t is enumerate:
            return Gen([(i + (args[1] if len(args) > 1 else kw.get('start', 0)), x)
                        for i, x in enumerate(self.iterate(a, node, env))])
        if t is zip:
            return Gen(list(zip(*[self.iterate(x, node, env) for x in args])))
        if t is reversed:
            return Gen(list(reversed(list(self.iterate(a, node, env)))))
        if t is map:
            return Gen([self.call(a, list(x), {}, node, env)
                        for x in zip(*[self.iterate(y, node, env) for y in args[1:]])])
        if t is filter:
            return Gen([x for x in self.iterate(args[1], node, env)
                        if self.truth(x if a is None else self.call(a, [x], {}, node, env))])
        if t is property:
            return Prop(args[0], args[1] if len(args) > 1 else None)
        if t is staticmethod:
            return Static(a)
        if t is classmethod:
            return ClassM(a)
        if t is bytes:
            return Unk('any')
        raise Undecided('call of builtin %s' % t.__name__)

    def typeof(self, a):
        if isinstance(a, (Obj, EM)):
            return a.cls
        if isinstance(a, Unk):
            if a.kind in UNKTYPES:
                return UNKTYPES[a.kind]
            raise Undecided('type of an unknown value')
        if isinstance(a, Cls):
            return a.meta or type
        if isinstance(a, (Fn, Bound, Native)):
            return type(lambda: 0)
        return type(a)

    def isinstance(self, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(t, Opaque):
            if t.name.startswith('yaml.') and isinstance(v, LibObj):
                return v.libtype == t.name or (t.name == 'yaml.Node')
            return False
        if isinstance(v, Unk):
            if v.kind == 'any':
                return self.choose('type of an unknown value')
            return is_sub(UNKTYPES[v.kind], t) if isinstance(t, type) else False
        if isinstance(v, (Obj, EM)):
            if isinstance(v, EM) and v.int and t is int:
                return True
            return is_sub(v.cls, t)
        if isinstance(v, Cls):
            return t is type or (v.meta is not None and is_sub(v.meta, t))
        if isinstance(t, Cls):
            return False
        if isinstance(v, (DictView,)):
            return t is dict
        try:
            return isinstance(v, t)
        except TypeError:
            self.rais(TypeError, 'isinstance() arg 2')

    def call_fn(self, f, args, kw, node=None, env=None):
        if isinstance(f, Native):
            return f.f(self, list(args), dict(kw))
        if not isinstance(f, Fn):
            return self.call(f, args, kw, node, env)
        self.depth += 1
        if self.depth > 150:
            self.depth = 0
            raise Undecided('recursion depth')
        try:
            return self.call_fn_(f, args, kw, node, env)
        finally:
            self.depth -= 1

    def call_fn_(self, f, args, kw, node, env):
        if self.watch:
            w = self.watch.get(id(f.node))
            if w:
                self.event(w)
        a = f.node.args
        kw = dict(kw)
        vars = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        fe = Env(vars, f.env, f.mod, f.cls)
        if f.env is not None and getattr(f.env, 'is_class', False):
            fe.parent = f.env.parent
            fe.defcls = f.cls
            fe.selfobj = args[0] if args else None
        for i, p in enumerate(params):
            if i < len(args):
                if p in kw:
                    self.rais(TypeError, '%s() got multiple values for argument %s' % (f.name, p), node, env)
                vars[p] = args[i]
            elif p in kw:
                vars[p] = kw.pop(p)
            else:
                j = i - (len(params) - len(f.defaults))
                if j < 0:
                    self.rais(TypeError, "%s() missing argument '%s'" % (f.name, p), node, env)
                vars[p] = f.defaults[j]
        if len(args) > len(params):
            if a.vararg is None:
                self.rais(TypeError, '%s() takes %d positional arguments but %d were given' % (f.name, len(params), len(args)), node, env)
            vars[a.vararg.arg] = tuple(args[len(params):])
        elif a.vararg is not None:
            vars[a.vararg.arg] = ()
        for p, d in zip(a.kwonlyargs, f.kwdefaults):
            if p.arg in kw:
                vars[p.arg] = kw.pop(p.arg)
            elif d is NODEFAULT:
                self.rais(TypeError, '%s() missing keyword argument' % f.name, node, env)
            else:
                vars[p.arg] = d
        if a.kwarg is not None:
            vars[a.kwarg.arg] = kw
        elif kw:
            self.rais(TypeError, '%s() got an unexpected keyword argument %s' % (f.name, list(kw)[0]), node, env)
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, fe)
        self.calls.append((f.mod.name, f.name, f.node.lineno))
        if is_generator(f.node):
            fe.yields = []
            try:
                self.block(f.node.body, fe)
            except _Return:
                pass
            return Gen(fe.yields)
        try:
            self.block(f.node.body, fe)
        except _Return as r:
            return r.v
        return None

    def rais(self, cls, msg='', node=None, env=None):
        raise PyRaise(Obj(cls, {'args': (msg,)}), node, env.glob if env is not None else None)

    def sorted(self, xs, kw):
        xs = list(xs)
        key = kw.get('key')
        ks = [self.call(key, [x], {}) if key is not None else x for x in xs]
        ks = [k.value if isinstance(k, EM) else k for k in ks]
        if any(isinstance(k, Unk) for k in ks):
            raise Undecided('sort by unknown keys')
        order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get('reverse')))
        return [xs[i] for i in order]


class Gen:
    def __init__(self, items):
        self.items = items


class DictView:
    """obj.__dict__"""
    def __init__(self, obj):
        self.obj = obj


class LibObj:
    """a modelled object of a library (yaml nodes and loaders, compiled expressions)"""
    libtype = ''

    def getattr(self, interp, name):
        raise Undecided('attribute %s of %s' % (name, self.libtype))

    def call(self, interp, a, k):
        raise Undecided('call of ' + self.libtype)

    def getitem(self, interp, k):
        raise Undecided('subscript of ' + self.libtype)


class Regex(LibObj):
    libtype = 're.Pattern'

    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags

    def getattr(self, interp, name):
        if name == 'pattern':
            return self.pattern
        if name in ('match', 'fullmatch', 'search'):
            return Native('re.' + name, lambda i, a, k: i.regex_match(self, name, a[0]))
        raise Undecided('regex ' + name)


def regex_match(self, rx, how, s):
    self.log.append(('regex', rx, how, s))
    if isinstance(s, Unk):
        if self.choose('match of an arbitrary string'):
            return Match(rx, s)
        return None
    # folding a constant expression: both the pattern and the subject are literals
    if not isinstance(s, str):
        self.rais(TypeError, 'expected string or bytes-like object')
    m = getattr(_re.compile(rx.pattern, rx.flags), how)(s)
    return None if m is None else CMatch(m)


class CMatch(LibObj):
    libtype = 're.Match'

    def __init__(self, m):
        self.m = m

    def getattr(self, interp, name):
        if name in ('group', 'groups', 'start', 'end', 'span'):
            return Native(name, lambda i, a, k: getattr(self.m, name)(*a))
        raise Undecided('match ' + name)

    def getitem(self, interp, k):
        return self.m[k]


Interp.regex_match = regex_match


class Match(LibObj):
    libtype = 're.Match'

    def __init__(self, rx, s):
        self.rx, self.s = rx, s

    def getattr(self, interp, name):
        if name == 'groups':
            return Native(name, lambda i, a, k: tuple(Unk('str', 'group%d' % (j + 1)) for j in range(ngroups(self.rx.pattern))))
        if name == 'group':
            return Native(name, lambda i, a, k: Unk('str', 'group'))
        raise Undecided('match ' + name)


def ngroups(p):
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    return sp.parse(p).state.groups - 1


def is_generator(node):
    if getattr(node, '_gen', None) is None:
        node._gen = False
        todo = list(node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                node._gen = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))
    return node._gen


def kind(v):
    if isinstance(v, Unk):
        return v.kind
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int) or isinstance(v, EM) and v.int:
        return 'int'
    if isinstance(v, float):
        return 'float'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, (list,)):
        return 'list'
    if isinstance(v, dict):
        return 'dict'
    return 'obj'


import operator as _op
BINOPS = {'Add': _op.add, 'Sub': _op.sub, 'Mult': _op.mul, 'Div': _op.truediv, 'FloorDiv': _op.floordiv, 'Mod': _op.mod,
          'Pow': _op.pow, 'LShift': _op.lshift, 'RShift': _op.rshift, 'BitOr': _op.or_, 'BitAnd': _op.and_,
          'BitXor': _op.xor}


def _print(i, a, k):
    i.prints.append(a)


def _len(i, a, k):
    v = a[0]
    if isinstance(v, Unk):
        if v.kind in ('int', 'bool'):
            raise TypeError('len() of int')
        return Unk('int', 'len ' + v.tag)
    if isinstance(v, DictView):
        return len(v.obj.attrs)
    if isinstance(v, Cls) and v.members is not None:
        return len(v.members)
    if isinstance(v, Obj):
        c, d = v.cls.find('__len__') if isinstance(v.cls, Cls) else (None, None)
        if isinstance(d, Fn):
            return i.call_fn(d, [v], {})
        raise TypeError('no len()')
    return len(v)


def _deepcopy(i, a, k):
    memo = {}

    def go(v):
        if id(v) in memo:
            return memo[id(v)][1]
        if isinstance(v, Obj):
            n = Obj(v.cls)
            memo[id(v)] = (v, n)
            n.attrs = {x: go(y) for x, y in v.attrs.items()}
            return n
        if isinstance(v, list):
            n = []
            memo[id(v)] = (v, n)
            n.extend(go(x) for x in v)
            return n
        if isinstance(v, dict):
            n = {}
            memo[id(v)] = (v, n)
            for x, y in v.items():
                n[x] = go(y)
            return n
        if isinstance(v, set):
            n = set(v)
            memo[id(v)] = (v, n)
            return n
        if isinstance(v, tuple):
            return tuple(go(x) for x in v)
        return v
    return go(a[0])


def _copy_shallow(i, a, k):
    v = a[0]
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.attrs))
    if isinstance(v, (list, dict, set)):
        return type(v)(v)
    return v


def _getattr(i, a, k):
    if isinstance(a[1], Unk):
        if a[1].other:
            if len(a) > 2:
                return a[2]
            i.rais(AttributeError, a[1])
        raise Undecided('getattr with an unknown name')
    return i.getattr(a[0], a[1], default=a[2] if len(a) > 2 else NODEFAULT)


def _hasattr(i, a, k):
    if isinstance(a[1], Unk):
        if a[1].other:
            return False
        raise Undecided('hasattr with an unknown name')
    try:
        i.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if is_sub(e.cls, AttributeError):
            return False
        raise


def _next(i, a, k):
    g = a[0]
    if isinstance(g, Gen):
        if g.items:
            return g.items.pop(0)
        if len(a) > 1:
            return a[1]
        i.rais(StopIteration)
    raise Undecided('next')


def _iter(i, a, k):
    return Gen(list(i.iterate(a[0], None, None)))


def _minmax(f):
    def g(i, a, k):
        xs = list(i.iterate(a[0], None, None)) if len(a) == 1 else a
        if any(isinstance(x, Unk) for x in xs):
            return Unk('int')
        if not xs and 'default' in k:
            return k['default']
        key = k.get('key')
        return f(xs, key=(lambda x: i.call(key, [x], {})) if key else None)
    return g


def _issub(i, a, k):
    t = a[1]
    if not isinstance(a[0], (Cls, type)):
        i.rais(TypeError, 'issubclass() arg 1 must be a class')
    return is_sub(a[0], t)


BUILTINS = {
    'print': Native('print', _print), 'len': Native('len', _len),
    'isinstance': Native('isinstance', lambda i, a, k: i.isinstance(a[0], a[1])),
    'issubclass': Native('issubclass', _issub),
    'getattr': Native('getattr', _getattr), 'hasattr': Native('hasattr', _hasattr),
    'setattr': Native('setattr', lambda i, a, k: i.setattr(a[0], a[1], a[2])),
    'any': Native('any', lambda i, a, k: any(i.truth(x) for x in i.iterate(a[0], None, None))),
    'all': Native('all', lambda i, a, k: all(i.truth(x) for x in i.iterate(a[0], None, None))),
    'sorted': Native('sorted', lambda i, a, k: i.sorted(i.iterate(a[0], None, None), k)),
    'sum': Native('sum', lambda i, a, k: sum((x.value if isinstance(x, EM) else x for x in i.iterate(a[0], None, None)), *a[1:])),
    'min': Native('min', _minmax(min)), 'max': Native('max', _minmax(max)),
    'next': Native('next', _next), 'iter': Native('iter', _iter),
    'vars': Native('vars', lambda i, a, k: DictView(a[0])),
    'callable': Native('callable', lambda i, a, k: isinstance(a[0], (Fn, Bound, Native, Cls, type))),
    'repr': Native('repr', lambda i, a, k: Unk('str') if isinstance(a[0], Unk) else repr(a[0])),
    'id': Native('id', lambda i, a, k: id(a[0])),
    'hash': Native('hash', lambda i, a, k: hash(a[0])),
    'hex': Native('hex', lambda i, a, k: Unk('str') if isinstance(a[0], Unk) else hex(a[0].value if isinstance(a[0], EM) else a[0])),
    'bin': Native('bin', lambda i, a, k: Unk('str') if isinstance(a[0], Unk) else bin(a[0])),
    'abs': Native('abs', lambda i, a, k: Unk('int') if isinstance(a[0], Unk) else abs(a[0])),
    'round': Native('round', lambda i, a, k: Unk('int') if isinstance(a[0], Unk) else round(*a)),
    'divmod': Native('divmod', lambda i, a, k: (Unk('int'), Unk('int')) if any(isinstance(x, Unk) for x in a) else divmod(*a)),
    'pow': Native('pow', lambda i, a, k: pow(*a)),
    'ord': Native('ord', lambda i, a, k: ord(a[0])), 'chr': Native('chr', lambda i, a, k: chr(a[0])),
    'format': Native('format', lambda i, a, k: Unk('str') if any(isinstance(x, Unk) for x in a) else format(*map(i.fmt, a))),
    'open': Native('open', lambda i, a, k: _open(i, a, k)),
    'NotImplemented': None, 'Ellipsis': None, '__debug__': True,
    'dir': Native('dir', lambda i, a, k: sorted(a[0].attrs)),
    'input': Native('input', lambda i, a, k: Unk('str')),
}


class Suppress(LibObj):
    libtype = 'contextlib.suppress'

    def __init__(self, excs):
        self.excs = excs


class File(LibObj):
    libtype = 'file'

    def __init__(self, name, mode):
        self.name, self.mode = name, mode

    def getattr(self, interp, name):
        if name in ('__enter__', '__exit__', 'close', 'flush'):
            return Native(name, lambda i, a, k: self)
        if name in ('write', 'writelines'):
            def w(i, a, k):
                i.event('write', self.name, a[0])
            return Native(name, w)
        if name == 'name':
            return self.name
        raise Undecided('file.' + name)


def _open(i, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    i.event('open', a[0], mode)
    return File(a[0], mode)


def _yaml_load(i, a, k):
    src = a[0]
    name = src.name if isinstance(src, File) else src
    i.event('load', name, None)
    doc = i.files.get(name) if isinstance(name, str) else None
    if doc is None:
        raise Undecided('yaml.load of an unknown stream')
    return doc(i)


def _dataclass(i, a, k):
    def deco(cls):
        cls.is_dc = True
        cls.dc = []
        for name, has, st in cls.ann:
            v = cls.ns.get(name, NODEFAULT) if has else NODEFAULT
            if isinstance(v, FieldDef):
                if v.factory is not None:
                    cls.dc.append((name, NODEFAULT, v.factory))
                    cls.ns.pop(name, None)
                elif v.has_default:
                    cls.dc.append((name, v.default, None))
                    cls.ns[name] = v.default
                else:
                    cls.dc.append((name, NODEFAULT, None))
                    cls.ns.pop(name, None)
            else:
                if isinstance(v, (list, dict, set)):
                    i.rais(ValueError, 'mutable default for field %s is not allowed' % name)
                if v is NODEFAULT:
                    b, old = cls.find(name)
                    if b is not None and not isinstance(old, (Fn, Prop)):
                        v = old
                cls.dc.append((name, v, None))
        return cls
    if a:
        return deco(a[0])
    return Native('dataclass', lambda i, a, k: deco(a[0]))


def _field(i, a, k):
    return FieldDef(k.get('default'), k.get('default_factory'), 'default' in k)


def _asdict(i, a, k):
    return {f[0]: i.getattr(a[0], f[0]) for f in a[0].cls.dc_fields()}


def _fields(i, a, k):
    c = a[0] if isinstance(a[0], Cls) else a[0].cls
    if not isinstance(c, Cls) or not any(isinstance(x, Cls) and x.is_dc for x in c.mro):
        i.rais(TypeError, 'must be called with a dataclass type or instance')
    C = Cls('Field', [object], {}, None)
    return tuple(Obj(C, {'name': f[0], 'default': f[1], 'default_factory': f[2]}) for f in c.dc_fields())


def _replace(i, a, k):
    o = a[0]
    d = {f[0]: o.attrs[f[0]] for f in o.cls.dc_fields()}
    d.update(k)
    return i.instantiate(o.cls, [], d)


def _make_dataclass(i, a, k):
    name = a[0] if a else k['cls_name']
    fields = a[1] if len(a) > 1 else k['fields']
    bases = k.get('bases', ())
    ns = {'__doc__': None}
    ns.update(k.get('namespace') or {})
    c = Cls(name, list(bases) or [object], ns, None)
    c.is_dc = True
    c.dc = []
    for f in fields:
        f = (f, None) if isinstance(f, str) else f
        if len(f) < 3:
            c.dc.append((f[0], NODEFAULT, None))
        elif isinstance(f[2], FieldDef):
            if f[2].factory is not None:
                c.dc.append((f[0], NODEFAULT, f[2].factory))
            else:
                c.dc.append((f[0], f[2].default, None))
                c.ns[f[0]] = f[2].default
        else:
            c.dc.append((f[0], f[2], None))
            c.ns[f[0]] = f[2]
    return c


def _math(f):
    def g(i, a, k):
        if any(isinstance(x, Unk) for x in a):
            return Unk('int')
        return f(*[x.value if isinstance(x, EM) else x for x in a])
    return Native('math.' + f.__name__, g)


OPAQUE_CALLS = {
    'enum.auto': lambda i, a, k: Opaque('auto()'),
    're.compile': lambda i, a, k: Regex(a[0], a[1] if len(a) > 1 else 0),
    're.match': lambda i, a, k: i.regex_match(Regex(a[0]), 'match', a[1]),
    're.fullmatch': lambda i, a, k: i.regex_match(Regex(a[0]), 'fullmatch', a[1]),
    're.search': lambda i, a, k: i.regex_match(Regex(a[0]), 'search', a[1]),
    'inspect.isclass': lambda i, a, k: isinstance(a[0], (Cls, type)),
    'logging.getLogger': lambda i, a, k: Opaque('logger'),
}


def lib_modules():
    enum_cls = Cls('Enum', [object], {}, None)
    int_enum = Cls('IntEnum', [enum_cls], {}, None)
    enum_meta = Cls('EnumMeta', [object], {}, None)
    flag = Cls('Flag', [enum_cls], {}, None)
    abc_cls = Cls('ABC', [object], {}, None)
    ident = Native('identity', lambda i, a, k: a[0])
    def register(i, a, k):
        i.registered[a[0]] = a[1]
    safe = Cls('SafeLoader', [object], {'add_constructor': Native('add_constructor', register)}, None)
    return {
        'yaml': {'SafeLoader': safe, 'load': Native('yaml.load', _yaml_load)},
        'dataclasses': {'dataclass': Native('dataclass', _dataclass), 'field': Native('field', _field),
                        'asdict': Native('asdict', _asdict), 'fields': Native('fields', _fields),
                        'replace': Native('replace', _replace), 'make_dataclass': Native('make_dataclass', _make_dataclass),
                        'is_dataclass': Native('is_dataclass', lambda i, a, k: isinstance(a[0], Obj) and a[0].cls.is_dc)},
        'enum': {'Enum': enum_cls, 'IntEnum': int_enum, 'EnumMeta': enum_meta, 'EnumType': enum_meta, 'Flag': flag,
                 'auto': Native('auto', lambda i, a, k: Opaque('auto()')), 'unique': ident},
        'typing': {n: Opaque('typing.' + n) for n in ('List', 'Dict', 'Optional', 'Any', 'Union', 'Tuple', 'Set', 'Callable')},
        'copy': {'deepcopy': Native('deepcopy', _deepcopy), 'copy': Native('copy', _copy_shallow)},
        'math': {n: _math(getattr(math, n)) for n in ('ceil', 'floor', 'log', 'log2', 'sqrt', 'pow')},
        'contextlib': {'suppress': Native('suppress', lambda i, a, k: Suppress(list(a)))},
        'abc': {'ABC': abc_cls, 'abstractmethod': ident},
        'functools': {'wraps': Native('wraps', lambda i, a, k: Native('id', lambda i, b, k2: b[0])),
                      'lru_cache': Native('lru_cache', lambda i, a, k: a[0] if a and isinstance(a[0], Fn) else ident)},
    }


def traces(make, run, limit=256):
    """analyse run(interp, ctx) for every resolution of the conditions the abstraction leaves open.
    make() -> (interp, ctx) builds a fresh abstract state.  Yields (interp, ctx, result, exception)."""
    pending = [[]]
    n = 0
    while pending:
        vec = pending.pop()
        n += 1
        if n > limit:
            raise Undecided('too many traces')
        I, ctx = make()
        I.decisions, I.pos = list(vec), 0
        res = exc = None
        try:
            res = run(I, ctx)
        except PyRaise as e:
            exc = e
        used = I.decisions[:I.pos]
        for j in range(len(vec), len(used)):
            pending.append(used[:j] + [not used[j]])
        yield I, ctx, res, exc


# ---- yaml model -------------------------------------------------------------------------------
class Node(LibObj):
    def __init__(self, value, tag='!'):
        self.value, self.tag = value, tag
        self.libtype = 'yaml.MappingNode' if isinstance(value, dict) else \
            'yaml.SequenceNode' if isinstance(value, list) else 'yaml.ScalarNode'

    def getattr(self, interp, name):
        if name == 'value':
            return self.value
        if name == 'tag':
            return self.tag
        raise Undecided('node.' + name)


class Loader(LibObj):
    """construct_mapping without deep=True leaves plain lists and mappings unfilled while the constructor runs"""
    libtype = 'yaml.SafeLoader'

    def __init__(self):
        self.constructors = {}

    def getattr(self, interp, name):
        if name == 'construct_mapping':
            return Native(name, lambda i, a, k: self.mapping(a[0], k.get('deep', a[1] if len(a) > 1 else False)))
        if name == 'construct_scalar':
            return Native(name, lambda i, a, k: a[0].value)
        if name == 'construct_sequence':
            return Native(name, lambda i, a, k: list(a[0].value))
        if name == 'construct_object':
            return Native(name, lambda i, a, k: a[0].value)
        if name == 'add_constructor':
            def add(i, a, k):
                self.constructors[a[0]] = a[1]
            return Native(name, add)
        raise Undecided('loader.' + name)

    def mapping(self, node, deep):
        if not isinstance(node.value, dict):
            raise TypeError('expected a mapping node')
        if deep:
            return dict(node.value)
        return {k: (type(v)() if isinstance(v, (list, dict)) else v) for k, v in node.value.items()}


def reachable(v, skip=()):
    """objects reachable from v: id -> (object, path)"""
    out = {}
    todo = [(v, '')]
    while todo:
        x, p = todo.pop()
        if isinstance(x, (Obj, list, dict, set)) and id(x) not in out:
            out[id(x)] = (x, p)
            if isinstance(x, Obj):
                todo.extend((y, p + '.' + n) for n, y in x.attrs.items())
            elif isinstance(x, dict):
                todo.extend((y, '%s[%r]' % (p, n)) for n, y in x.items())
            else:
                todo.extend((y, '%s[%d]' % (p, n)) for n, y in enumerate(x))
        elif isinstance(x, tuple):
            todo.extend((y, '%s[%d]' % (p, n)) for n, y in enumerate(x))
    return out
