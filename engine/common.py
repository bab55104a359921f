"""Shared plumbing of the checks: fact extraction, obligations, verdicts, evidence."""
import itertools, json, os, subprocess, sys, tempfile, time, shutil, atexit, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'
FACTDUMP = os.path.join(BUILD, 'factdump')


class Broken(Exception):
    """the analysis itself cannot answer (vanished anchor, parse failure ...)"""


class Uncompilable(Broken):
    """a translation unit does not compile"""


_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vp-')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def ensure_factdump():
    src = os.path.join(VERIF, 'engine', 'factdump.cpp')
    if os.path.exists(FACTDUMP) and os.path.getmtime(FACTDUMP) >= os.path.getmtime(src):
        return FACTDUMP
    os.makedirs(BUILD, exist_ok=True)
    tmp = FACTDUMP + '.%d' % os.getpid()
    subprocess.run(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I' + LLVM + '/include', src, '-o', tmp,
                    LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so.18.1'], check=True)
    os.rename(tmp, FACTDUMP)
    return FACTDUMP


_SERIAL = itertools.count()


def dump(tu, roots=(), incs=(), defs=()):
    """facts of one translation unit, as an absint.Prog"""
    from absint import Prog
    ensure_factdump()
    out = os.path.join(scratch(), 'facts-%d-%d.json' % (os.getpid(), next(_SERIAL)))
    cmd = [FACTDUMP, '-root', os.path.join(REPO, 'include')]
    for r in roots:
        cmd += ['-root', r]
    cmd += ['-o', out, tu, '--', '-std=c++20', '-I' + os.path.join(REPO, 'include'), '-resource-dir', LLVM + '/lib/clang/18']
    cmd += ['-I' + i for i in incs] + ['-D' + d for d in defs]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise Uncompilable('cannot parse %s:\n%s' % (tu, p.stderr[-4000:]))
    return Prog(out)


def rel(path):
    for base in (REPO, VERIF):
        if path.startswith(base + '/'):
            return path[len(base) + 1:]
    return path


class Check:
    def __init__(self, prop, tier, rule):
        self.prop, self.tier, self.rule = prop, tier, rule
        self.t0 = time.time()
        self.obl = []           # (id, ok|viol|undecided, where, detail)
        self.viol = []
        self.undec = []
        self.minimum = {}       # counter -> floor confirmed by hand
        self.counts = {}
        self.extra = {}
        self.assumptions = []
        self.seen = set()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        self.minimum[what] = n

    def ok(self, oid, where='', detail=''):
        self.obl.append((oid, 'ok', where, detail))

    def violation(self, key, where, msg, detail=''):
        """key identifies the failing construct independently of line numbers"""
        self.obl.append((key, 'violated', where, msg))
        if key in self.seen:
            return
        self.seen.add(key)
        self.viol.append({'key': key, 'where': where, 'message': msg, 'detail': detail})

    def undecided(self, oid, where, why):
        self.obl.append((oid, 'undecided', where, why))
        self.undec.append({'obligation': oid, 'where': where, 'why': why})

    def require(self, cond, key, where, msg, detail=''):
        if cond:
            self.ok(key, where)
        else:
            self.violation(key, where, msg, detail)
        return cond

    def spread(self, items, fn):
        """fn(check, item) for every item, in forked workers; results are merged in order"""
        import multiprocessing as mp
        items = list(items)
        global _job
        _job = (self.prop, self.tier, self.rule, fn, items)
        n = min(len(items), os.cpu_count() or 4)
        with mp.get_context('fork').Pool(n) as pool:
            res = pool.map(_work, range(len(items)), chunksize=1)
        broken = None
        for obl, viol, undec, counts, extra, exc in res:
            self.obl += obl
            for v in viol:
                if v['key'] not in self.seen:
                    self.seen.add(v['key'])
                    self.viol.append(v)
            self.undec += undec
            for k, n in counts.items():
                self.count(k, n)
            for k, v in extra.items():
                if isinstance(v, list):
                    self.extra[k] = self.extra.get(k, []) + v
                elif isinstance(v, (int, float)):
                    self.extra[k] = self.extra.get(k, 0) + v
                else:
                    self.extra[k] = v
            broken = broken or exc
        if broken:
            raise Broken(broken)

    def finish(self, level='other', explanation=None):
        known = load_known()
        fresh, old = [], []
        for v in self.viol:
            (old if (self.prop, v['key']) in known else fresh).append(v)
        wall = time.time() - self.t0
        n_ok = sum(1 for o in self.obl if o[1] == 'ok')
        cov = {'explanation': explanation or self.rule,
               'rule': self.rule,
               'obligations': len(self.obl),
               'discharged': n_ok,
               'undecided': self.undec[:60],
               'undecided_count': len(self.undec),
               'counts': self.counts,
               'known_findings_reported': [v['key'] for v in old],
               'samples': [' | '.join(str(x) for x in o) for o in sample(self.obl, 12)],
               'exhaustive': False}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
              'level': level, 'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(wall, 2),
              'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for v in old:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.prop, v['key'], v['message']))
        if fresh:
            rp = os.path.join(VERIF, 'evidence', self.prop + '.violations.json')
            with open(rp, 'w') as f:
                json.dump(fresh, f, indent=1)
            for v in fresh[:40]:
                print('%s: [%s] %s' % (v['where'], v['key'], v['message']))
                if v['detail']:
                    print('    ' + str(v['detail'])[:600])
            if len(fresh) > 40:
                print('... and %d more' % (len(fresh) - 40))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        low = ['%s=%d (expected at least %d)' % (k, self.counts.get(k, 0), n)
               for k, n in self.minimum.items() if self.counts.get(k, 0) < n]
        if low:
            print('ANALYSIS BROKEN: rule instances vanished: ' + '; '.join(low))
            return 3
        print('%s: %d obligations, %d discharged, %d undecided, %.1f s' % (self.prop, len(self.obl), n_ok, len(self.undec), wall))
        return 0


_job = None


def _work(i):
    prop, tier, rule, fn, items = _job
    c = Check(prop, tier, rule)
    exc = None
    try:
        fn(c, items[i])
    except Broken as e:
        exc = str(e)
    except Exception:
        exc = 'internal error: ' + traceback.format_exc()
    return c.obl, c.viol, c.undec, c.counts, c.extra, exc


def sample(xs, n):
    if len(xs) <= n:
        return xs
    step = len(xs) / float(n)
    return [xs[int(i * step)] for i in range(n)]


def load_known():
    """known_findings.txt: 'finding: property=Pxx key=<key> <what fails>' (fixed: lines suppress nothing)"""
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                w = l.split()
                out.add((w[1].split('=', 1)[1], w[2].split('=', 1)[1]))
    return out
