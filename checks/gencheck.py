"""Shared driver of P17, P18 and P19: one abstract exploration of every generated packet class; each property reports the findings
that concern it."""
import os, re, sys
from common import Broken, Uncompilable, scratch
import genlib, genmodel, specs

# the generator's output for these does not compile (known findings of P16); nothing can be analysed
UNCOMPILABLE = {'alone_sector_step_scan', 'alone_ctl_sector_step_scan', 'ids_and_cif2_ids'}


def pick(jobs, tier):
    out = []
    for j in jobs:
        if j.tag.startswith(('ctrl_', 'proj_', 'cif7_')) or j.tag in UNCOMPILABLE:
            continue            # the same packet forms are in the other jobs / not analysable
        out.append(j)
    return out


def run(chk, tag):
    sys.setrecursionlimit(20000)
    chk.floor('packet classes', 380)
    chk.floor('abstract packet states', 20000)
    chk.floor('specifications', 60)
    J = pick(specs.jobs(), chk.tier)
    root = os.path.join(scratch(), 'gen')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)
    cost = lambda j: -(('all_' in j.tag) * 1000 + len(j.packets))
    J.sort(key=cost)
    todo = []
    for j in J:
        ok, d, files, packets = res[j.tag]
        if not ok:
            chk.undecided('generate.' + j.tag, 'specification ' + j.tag, 'the generator refuses the specification')
            continue
        chk.count('specifications')
        todo.append(j)

    def one(c, it):
        j, k = it
        ok, d, files, packets = res[j.tag]
        try:
            P = prog(j, d)
        except Uncompilable:
            c.undecided('compile.' + j.tag, 'specification ' + j.tag, 'the generated code does not compile (P16)')
            return
        ns = j.options.get('namespace_', 'gen')
        for i, (suf, S) in enumerate(genmodel.shapes(j, P, ns)):
            if suf == 'VX' or (k is not None and i != k):
                continue
            explore(c, tag, P, ns, j, S)
    cache = {}

    def prog(j, d):
        if j.tag not in cache:
            cache.clear()
            # a directory of its own: several workers may look at one specification
            cache[j.tag] = genmodel.program(d, [x for x in os.listdir(d) if not x.startswith('vp_all')])
        return cache[j.tag]
    # the largest specifications are split by class
    items = []
    for j in todo:
        n = sum(3 if 'Ack' in p.kind else 1 for p in j.packets)
        items += [(j, k) for k in range(n)] if j.tag.startswith('all_') else [(j, None)]
    chk.spread(items, one)


def explore(c, tag, P, ns, j, S):
    c.count('packet classes')
    F = genmodel.Found('')
    X = None
    where = 'packet %s of specification %s' % (S.cls, j.tag)
    try:
        X = genmodel.Explorer(P, ns, S, F, c.tier)
        X.run()
    except Broken:
        raise
    except Exception as e:
        if type(e).__name__ not in ('Unsupported', 'Vanished', 'KeyError', 'TypeError', 'AttributeError', 'IndexError', 'ValueError', 'RecursionError'):
            raise
        c.undecided('explore.%s' % S.cls, where, '%s: %s' % (type(e).__name__, str(e)[:200]))
    c.count('abstract packet states', X.states if X else 0)
    c.count('operations interpreted', X.ops if X else 0)
    mine = [(k, m) for t, k, m in F.items if tag in t]
    c.count('comparisons', F.n)
    c.ok(S.cls + '@' + j.tag, where, '%d states, %d comparisons' % (X.states if X else 0, F.n))
    for k, m in mine:
        c.violation('%s.%s' % (S.role(), k), where, m)
    for k, why in set(F.undec):
        c.undecided('%s.%s' % (S.cls, k), where, why)
