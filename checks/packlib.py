"""Wire-level view of the packing library: every structure accessor composed, in the bit-provenance
domain, with the structure's own encoder / decoder."""
import os
from absint import *
from bits import B
from common import VERIF, Broken, dump, rel

NS = 'vrtgen::packing::'
_prog = None


def prog():
    global _prog
    if _prog is None:
        _prog = dump(os.path.join(VERIF, 'tus', 'lib.cpp'), roots=[os.path.join(VERIF, 'tus')])
    return _prog


def type_of(P, rn):
    best = None
    for i, t in enumerate(P.types):
        if t['c'] == 'rec' and t.get('rec') == rn:
            if not t.get('const'):
                return i
            best = i
    if best is None:
        raise Broken('type %s not found' % rn)
    return best


def methods(P, rn, name, nargs, public=True):
    """most derived methods of that name/arity: derived-class names hide base names"""
    for c in [rn] + P.all_bases(rn):
        r = P.recs.get(c)
        if not r:
            continue
        named = [m for m in r['methods'] if m['n'] == name]
        if named:
            out = []
            for m in named:
                f = P.fns.get(m['id'])
                if f is not None and len(f['params']) == nargs and f.get('body') is not None:
                    if not public or m.get('acc', 0) == 0:
                        out.append(f)
            return out
    return []


class WireClass:
    """one structure with pack_into / unpack_from / size"""

    def __init__(self, P, rn):
        self.P, self.rn = P, rn
        if rn not in P.recs:
            raise Broken('class %s not found' % rn)
        self.tid = type_of(P, rn)
        self.file = P.recs[rn]['file']

    def method(self, name, nargs, optional=False):
        ms = methods(self.P, self.rn, name, nargs)
        if not ms:
            if optional:
                return None
            raise Vanished('%s::%s/%d not found' % (self.rn, name, nargs))
        return ms[0]

    def where(self, fn):
        return '%s:%s' % (rel(fn['file']), fn['line'])

    # --- primitive operations on a state
    def fresh(self):
        I, st = Interp(self.P), State()
        return I, st

    def default(self, I, st):
        return I.alloc(st, I.construct_default(self.tid, st), 'obj')

    def buffer(self, I, st, n, name=None):
        u8 = u8_type(self.P)
        if name is None:
            items = [const_bv(0, 8)] * n
        else:
            items = [src_bv((name, i), 8) for i in range(n)]
        r = I.alloc(st, Vec(u8, items), 'buf')
        return r

    def unpack(self, I, st, obj, buf):
        I.call(self.method('unpack_from', 1), obj, [Ptr(buf.root)], st)

    def pack(self, I, st, obj, n, name='out'):
        buf = self.buffer(I, st, n, name)
        I.call(self.method('pack_into', 1), obj, [Ptr(buf.root)], st)
        return st.mem[buf.root].items

    def size(self, I, st, obj):
        v = I.call(self.method('size', 0), obj, [], st)
        l = I.to_lin(v)
        return l.c if l.isconst() else None


def u8_type(P):
    for i, t in enumerate(P.types):
        if t['c'] == 'int' and t.get('w') == 8 and not t.get('sg') and not t.get('const'):
            return i
    raise Broken('uint8_t not found')


def wire_bits(items, word, msb, bits):
    """wire bits LSB first; items are byte values; may span words"""
    first = word * 32 + (31 - msb)             # bit index from the start, most significant first
    out = []
    for k in range(first + bits - 1, first - 1, -1):
        by = items[k // 8]
        out.append(by.b[7 - k % 8] if isinstance(by, BV) else B.opaque('byte'))
    return out


def wire_index(word, msb, bits):
    first = word * 32 + (31 - msb)
    return set(range(first, first + bits))


def show_bits(bs):
    return '[%s]' % ' '.join(B.show(x) for x in reversed(bs))


def cond_in_range(v, bits, signed=False):
    """bits above the field width are zero"""
    c = 1
    if isinstance(v, BV):
        for x in v.b[bits:]:
            c = B.AND(c, B.NOT(x))
    return c


def same_under(a, b, c):
    return B.AND(B.XOR(a, b), c) == 0


# --------------------------------------------------------------- accessors composed with the codec
class Getter:
    """value returned by an accessor of an object decoded from n symbolic bytes"""

    def __init__(self, W, fn, n):
        self.W, self.fn = W, fn
        I, st = W.fresh()
        obj = W.default(I, st)
        buf = W.buffer(I, st, n, 'wire')
        W.unpack(I, st, obj, buf)
        self.wire = st.mem[buf.root].items
        v = I.call(fn, obj, [], st)
        if isinstance(v, Ptr):
            v = I.load(st, v, P_deref(W.P, fn['ret']))
        self.I, self.st, self.value, self.obj = I, st, v, obj

    def bits(self, width=None):
        w = width or self.W.P.width(P_deref(self.W.P, self.fn['ret'])) or 64
        return self.I.to_bv(self.value, w).b


class Setter:
    """bytes encoded after an accessor assigned a symbolic value to a decoded object"""

    def __init__(self, W, fn, n, fresh=False):
        self.W, self.fn = W, fn
        I, st = W.fresh()
        obj = W.default(I, st)
        buf = W.buffer(I, st, n, 'wire')
        self.wire = st.mem[buf.root].items
        if not fresh:
            W.unpack(I, st, obj, buf)
        if fn['params']:
            p = fn['params'][0]
            pt = W.P.ty(p['t'])
            if pt['c'] == 'ref':
                self.arg = I.sym_value(pt['pt'], 'value')
                a = I.alloc(st, self.arg)
            else:
                self.arg = a = I.sym_value(p['t'], 'value')
            I.call(fn, obj, [a], st)
        else:
            self.arg = None
            I.call(fn, obj, [], st)
        self.out = W.pack(I, st, obj, n)
        self.I, self.st = I, st


def P_deref(P, t):
    return P.ty(t)['pt'] if P.ty(t)['c'] == 'ref' else t


def strip_ext(bits, w, sg):
    """(bits, signed) with redundant extension beyond w removed; None when the extra bits carry data"""
    bits = tuple(bits)
    if len(bits) < w:
        return None
    hi = bits[w:]
    if not hi:
        return bits, sg
    if all(x == 0 for x in hi):
        return bits[:w], False
    if all(x == bits[w - 1] for x in hi):
        return bits[:w], True
    return None


def fix_source(bits):
    """(mode, float key, scale, conv width, conv signed) when bits are 0..n-1 of one conversion"""
    k = B.is_var(bits[0]) if bits else None
    if k is None or not isinstance(k[0], tuple) or k[0][0] not in ('fix', 'trunc'):
        return None
    for i, x in enumerate(bits):
        if B.is_var(x) != (k[0], i):
            return None
    return k[0]
