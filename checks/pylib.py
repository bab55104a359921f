"""The specification model (Python) seen through the abstract interpreter."""
import os
from pyeval import *
from common import REPO, Broken, rel

SRCROOT = os.path.join(REPO, 'src')
MODEL = 'vrtgen.parser.model.'


def interp():
    return Interp(SRCROOT)


def cls_of(I, dotted):
    mod, _, name = dotted.rpartition('.')
    m = I.import_module(mod)
    c = m.ns.get(name)
    if not isinstance(c, Cls):
        raise Broken('class %s not found' % dotted)
    return c


def where(c):
    n = getattr(c, 'node', None)
    m = getattr(c, 'mod', None)
    return '%s:%s' % (rel(m.path) if m and m.path else '?', getattr(n, 'lineno', 0))


def make(I, cls, **kw):
    try:
        return I.instantiate(cls, [], kw)
    except PyRaise as e:
        raise Broken('cannot construct %s: %s' % (cls.name, e))


def tag(o):
    """(position, bits, word) of a field object"""
    t = o.attrs.get('packed_tag')
    if not isinstance(t, Obj):
        return None
    return tuple(t.attrs.get(k) for k in ('position', 'bits', 'field_word'))


def is_inst(I, o, dotted):
    return isinstance(o, Obj) and I.isinstance(o, cls_of(I, dotted))


def packing(I, name):
    """the class of that name as exported by vrtgen.parser.model.types"""
    m = I.import_module('vrtgen.parser.model.types')
    c = m.ns.get(name)
    if not isinstance(c, Cls):
        raise Broken('class %s is not exported by vrtgen.parser.model.types' % name)
    return c


def constructors(I):
    """yaml tag -> constructor, as get_loader registers them"""
    if not I.registered:
        lm = I.import_module('vrtgen.parser.loader')
        f = lm.ns.get('get_loader')
        if f is None:
            raise Broken('get_loader not found in loader.py')
        I.call(f, [], {})
    return I.registered


def section(I, tag, value):
    """the object the loader builds for `!tag` over the given node content"""
    c = constructors(I).get(tag)
    if c is None:
        raise Broken('the loader registers no constructor for ' + tag)
    I.steps = 0
    return I.call(c, [Loader(), Node(value, tag)], {})


def snapshot(I, o):
    """leaf path -> value of everything reachable from o"""
    out = {}

    def go(v, p, stack):
        if isinstance(v, (Obj, list, dict)) and id(v) in stack:
            out[p] = ('cycle',)
            return
        st = stack | {id(v)}
        if isinstance(v, Obj):
            out[p + '!'] = v.cls.name
            for n, x in v.attrs.items():
                go(x, p + '.' + n if p else n, st)
        elif isinstance(v, (list, tuple)):
            out[p + '#'] = len(v)
            for i, x in enumerate(v):
                go(x, '%s[%d]' % (p, i), st)
        elif isinstance(v, dict):
            for n, x in v.items():
                go(x, '%s[%r]' % (p, n), st)
        elif isinstance(v, EM):
            out[p] = (v.cls.name, v.name)
        elif isinstance(v, Cls):
            # a user-defined enumeration is made anew by each evaluation
            out[p] = (v.name, tuple(sorted((n, m.value) for n, m in v.ns.items() if isinstance(m, EM))))
        elif isinstance(v, (Fn, Native, Opaque, Mod)):
            out[p] = type(v).__name__
        else:
            out[p] = v
    go(o, '', frozenset())
    return out


def diff(a, b):
    return sorted(k for k in set(a) | set(b) if k not in a or k not in b or not same(a[k], b[k]))


def same(x, y):
    return type(x) is type(y) and x == y


def yaml_stream(I, entries):
    """what parse_stream yields for a document; entries: name -> thunk building the value, evaluated in order"""
    m = I.import_module('vrtgen.parser')
    f = m.ns.get('parse_stream')
    if f is None:
        raise Broken('parse_stream not found in vrtgen.parser')
    I.files['<doc>'] = lambda i: {n: mk() for n, mk in entries.items()}
    I.steps = 0
    ld = I.call(I.import_module('vrtgen.parser.loader').ns['get_loader'], [], {})
    return [tuple(x) for x in I.iterate(I.call(f, ['<doc>', ld], {}), None, None)]


def fields_by_bit(I, o):
    """wire bit -> (attribute name, field) of an indicator word"""
    out = {}
    for n, f in o.attrs.items():
        if isinstance(f, Obj) and isinstance(f.attrs.get('packed_tag'), Obj) and not is_inst(I, f, MODEL + 'types.packing.PackedType'):
            out[f.attrs['packed_tag'].attrs['position']] = (n, f)
    return out
