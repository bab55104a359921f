"""Bit provenance domain.

A bit is an integer: 0, 1, or a node of a shared, canonical decision graph over *provenance
variables* ("bit i of source s").  A 32-bit integer whose bit 5 is bit 0 of the parameter `value`
is therefore the vector [.., var(('value',0)) at 5, ..].  Joins at control-flow merges are the
multiplexer of the two bits under the (bit of the) branch condition.  Beyond a size cap a bit
degrades to a fresh opaque variable that remembers what it depends on, so every operation is total
and the domain stays finite.
"""
import sys
sys.setrecursionlimit(20000)

CAP = 4000


class Bits:
    def __init__(self):
        self.nodes = [None, None]           # id -> (var, lo, hi)
        self.uniq = {}
        self.varid = {}                     # key -> var index
        self.varkey = []                    # var index -> key
        self.memo = {}
        self.supp_memo = {}
        self.deps = {}                      # opaque var key -> frozenset of keys
        self.n_opaque = 0

    # ---- variables
    def var(self, key):
        i = self.varid.get(key)
        if i is None:
            i = len(self.varkey)
            self.varid[key] = i
            self.varkey.append(key)
        return self.mk(i, 0, 1)

    def opaque(self, why, *bits):
        d = frozenset()
        for b in bits:
            d |= self.support(b)
        self.n_opaque += 1
        key = (('opaque', why, self.n_opaque), 0)
        self.deps[key] = d
        return self.var(key)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.uniq.get(k)
        if n is None:
            n = len(self.nodes)
            self.nodes.append(k)
            self.uniq[k] = n
        return n

    def top(self, n):
        return self.nodes[n][0] if n > 1 else 1 << 60

    def cof(self, n, v):
        if n > 1 and self.nodes[n][0] == v:
            return self.nodes[n][1], self.nodes[n][2]
        return n, n

    # ---- operations
    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.top(c), self.top(a), self.top(b))
        c0, c1 = self.cof(c, v)
        a0, a1 = self.cof(a, v)
        b0, b1 = self.cof(b, v)
        r = self.mk(v, self.ite(c0, a0, b0), self.ite(c1, a1, b1))
        self.memo[k] = r
        return r

    def guard(self, r, *ins):
        if r > 1 and len(self.support(r)) > 72:
            return self.opaque('cap', r)
        return r

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def support(self, n):
        """set of variable keys a bit depends on"""
        if n < 2:
            return frozenset()
        r = self.supp_memo.get(n)
        if r is None:
            v, lo, hi = self.nodes[n]
            r = self.support(lo) | self.support(hi) | {self.varkey[v]}
            self.supp_memo[n] = r
        return r

    def deep_support(self, n):
        out, todo = set(), list(self.support(n))
        while todo:
            k = todo.pop()
            if k in out:
                continue
            out.add(k)
            todo.extend(self.deps.get(k, ()))
        return out

    def is_var(self, n):
        """key when the bit is exactly one variable, else None"""
        if n > 1:
            v, lo, hi = self.nodes[n]
            if lo == 0 and hi == 1:
                return self.varkey[v]
        return None

    def restrict(self, n, key, val):
        i = self.varid.get(key)
        if i is None or n < 2:
            return n
        memo = {}

        def go(x):
            if x < 2:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.nodes[x]
            if v == i:
                r = hi if val else lo
            else:
                r = self.ite(self.var(self.varkey[v]), go(hi), go(lo))
            memo[x] = r
            return r
        return go(n)

    def assume(self, n, cond):
        """simplify n under cond (cond==1), generalized cofactor for small cond"""
        return self.constrain(n, cond)

    def constrain(self, f, c):
        if c == 1 or f < 2:
            return f
        if c == 0:
            return f
        if f == c:
            return 1
        k = ('cn', f, c)
        r = self.memo.get(k)
        if r is not None:
            return r
        v = min(self.top(f), self.top(c))
        f0, f1 = self.cof(f, v)
        c0, c1 = self.cof(c, v)
        if c1 == 0:
            r = self.constrain(f0, c0)
        elif c0 == 0:
            r = self.constrain(f1, c1)
        else:
            r = self.mk(v, self.constrain(f0, c0), self.constrain(f1, c1))
        self.memo[k] = r
        return r

    def show(self, n):
        if n < 2:
            return str(n)
        k = self.is_var(n)
        if k is not None:
            return '%s[%s]' % (show_src(k[0]), k[1])
        v, lo, hi = self.nodes[n]
        if lo == 1 and hi == 0:
            k = self.varkey[v]
            return '!%s[%s]' % (show_src(k[0]), k[1])
        s = sorted('%s[%s]' % (show_src(k[0]), k[1]) for k in self.support(n))
        return 'f(%s)' % ','.join(s[:6]) + ('...' if len(s) > 6 else '')


def show_src(s):
    if isinstance(s, tuple):
        return '.'.join(show_src(x) for x in s)
    return str(s)


B = Bits()
