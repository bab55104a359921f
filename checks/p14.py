RULE = ('effect and information-flow analysis of the generator: by abstract evaluation of main(), every file opened for writing, created, '
        'copied, renamed or removed lies under the output directory whatever the packet and file names, is truncated, and what is '
        'rendered into it is the same in a second process, whatever exists on disk, and holds nothing derived from time, randomness, '
        'environment, object identity or set order; a syntactic taint pass over all Python and template code rejects those sources '
        'anywhere they can reach output')
import ast, os, sys
sys.path.append('/opt/vrtgen-venv/lib/python3.12/site-packages')
from pylib import *
from pymain import install
import p12
import p15

M = 'src/vrtgen/main.py'
G = 'src/vrtgen/backend/cpp/generator.py'
T = 'src/vrtgen/backend/cpp/templates'

SOURCES = ('time', 'datetime', 'random', 'secrets', 'uuid.uuid1', 'uuid.uuid4', 'uuid.getnode', 'os.environ', 'os.getenv', 'os.getpid',
           'os.getppid', 'os.urandom', 'os.listdir', 'os.scandir', 'os.walk', 'os.times', 'os.uname', 'os.getlogin', 'os.getuid',
           'os.stat', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime', 'os.path.getsize', 'os.cpu_count',
           'glob', 'getpass', 'socket', 'platform', 'tempfile', 'threading', 'multiprocessing', 'locale',
           'sys.hash_info', 'sys.flags', 'sys.getrefcount', 'gc')
PURE = ('time.strptime', 'random.Random', 'glob.escape', 'locale.normalize', 'datetime.timedelta', 'platform.python_version_tuple')
BUILT = ('id', 'hash', 'input')
ORDERLESS = ('sorted', 'any', 'all', 'len', 'sum', 'min', 'max', 'set', 'frozenset', 'bool')
QUIET = ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log')


def run(chk):
    chk.floor('runs', 12)
    chk.floor('files written', 60)
    chk.floor('python functions', 150)
    chk.floor('template nodes', 3000)
    effects(chk)
    views(chk)
    python_sources(chk)
    template_sources(chk)


def names_doc(D, weird):
    d = {n: D['X'] for n in weird}
    return lambda i: {n: mk() for n, mk in d.items()}


def effects(chk):
    I = p15.world()
    D = p12.docs(I)
    full = p15.doc(D, list(D))
    inf = p15.doc(D, ['X', 'C', 'A'], Info=p15.info(I, 3, ['X', 'C', 'A']))
    weird = ['../evil', '/abs', 'a/../../b', '..', 'nul\x00', 'sp ace', 'q"uote', 'dollar$', 'back\\slash', 'tilde~', '-dash', 'new\nline', 'C:x', '%s', '{x}']
    cases = []
    for f in ('spec.yaml', '/etc/spec.yaml', '../up/spec.yaml', 'spec', 'a.b.yaml', '..yaml'):
        for opts, out in (([], '/cwd'), (['--dir', 'out'], '/cwd/out'), (['--dir', '/x/y'], '/x/y'), (['-p', '--dir', 'o/p'], '/cwd/o/p'), (['-p'], '/cwd')):
            cases.append((['cpp'] + opts + [f], {f: full if f == 'spec.yaml' or chk.tier == 'thorough' else p15.doc(D, ['X', 'C', 'A'])}, out))
    for w in weird:
        cases.append((['cpp', '--dir', '/x/y', 's.yaml'], {'s.yaml': names_doc(D, [w])}, '/x/y'))
        cases.append((['cpp', '-p', '--dir', '/x/y', 's.yaml'], {'s.yaml': names_doc(D, [w])}, '/x/y'))
    for s in ('tcp', 'udp', 'nats'):
        cases.append((['cpp', '--dir', '/x/y', '--cmd-socket', s, '--namespace', 'a::b', 's.yaml'], {'s.yaml': inf}, '/x/y'))
        cases.append((['cpp', '--dir', '/x/y', '-p', '--cmd-socket', s, 's.yaml', 't.yaml'],
                      {'s.yaml': inf, 't.yaml': p15.doc(D, [], include=['/abs/u.yaml'], D=D['D']), '/abs/u.yaml': p15.doc(D, ['C2'])}, '/x/y'))
    chk.spread([cases[i::24] for i in range(24)], lambda c, cs: [one(c, I, *x) for x in cs])


def one(chk, I, argv, files, out):
    chk.count('runs')
    key = ' '.join(argv).encode('unicode_escape').decode() + '/' + ','.join(sorted(files))
    key = key.replace(' ', '_')
    try:
        o = p15.program(I, argv, files)
    except Undecided as u:
        chk.undecided(key, M, str(u))
        return
    if o.kind != 'ok':
        chk.ok(key, M)          # refused, and said so: P15
        return
    for e in o.events:
        wr = []
        if e[0] == 'open' and not (isinstance(e[2], str) and set(e[2]) <= set('rbtU')):
            wr = [e[1]]
            chk.count('files written')
            chk.require(isinstance(e[2], str) and ('w' in e[2] or 'x' in e[2]) and '+' not in e[2], key + '/truncate/%s' % (e[1],), G,
                        'output file %s is opened with mode %r: what it held before stays' % (e[1], e[2]))
        elif e[0] == 'open':
            chk.require(e[1] in files, key + '/reads/%s' % (e[1],), M, 'generation reads %s' % (e[1],))
        elif e[0] == 'fs' and e[1] in ('makedirs', 'mkdir', 'remove', 'unlink', 'rmdir', 'rmtree'):
            wr = [e[2]]
        elif e[0] == 'fs' and e[1] in ('copy', 'copy2', 'copyfile', 'copytree'):
            wr = [e[3]]
            chk.require(e[2] in files, key + '/copies/%s' % (e[2],), G, 'generation copies %s' % (e[2],))
        elif e[0] == 'fs' and e[1] in ('rename', 'replace', 'move'):
            wr = [e[2], e[3]]
        elif e[0] == 'fs' and e[1] == 'listdir':
            chk.violation(key + '/lists', G, 'generation looks at the directory %s' % (e[2],))
        for p in wr:
            if not isinstance(p, str):
                chk.undecided(key + '/path', G, 'the path written is not known: %r' % (p,))
                continue
            full = os.path.normpath(os.path.join('/cwd', p))
            chk.require(full == out or full.startswith(out.rstrip('/') + '/'), key + '/inside', G,
                        '"%s" writes %s, outside the output directory %s' % (' '.join(argv), p, out))
    f = p15.written(o)
    for path, ctxs in f.items():
        for c in ctxs:
            bad = tainted(I, c)
            chk.require(not bad, key + '/' + os.path.basename(path) + '/source', G, '%s is rendered from %s' % (path, bad[:2]))
    # the same again, with other files on disk
    for exists in (False, True):
        for m in ('os.path', 'os'):
            ns = I.mods[m].ns
            for n in ('exists', 'isfile', 'isdir'):
                if n in ns:
                    ns[n] = Native(n, lambda i, a, k, exists=exists: exists)
        try:
            o2 = p15.program(I, argv, files)
        except Undecided as u:
            chk.undecided(key + '/again', M, str(u))
            continue
        a, b = image(I, o), image(I, o2)
        d = sorted(set(a) ^ set(b)) or sorted(p for p in a if a[p] != b[p])
        chk.require(o2.kind == 'ok' and not d, key + '/disk', G, 'what is generated depends on what exists on disk or was generated before: %s' % d[:3])


def image(I, o):
    out = {}
    for path, ctxs in p15.written(o).items():
        out[path] = [snapshot(I, c) for c in ctxs]
    for e in o.events:
        if e[0] == 'fs' and e[1].startswith('copy'):
            out[str(e[3]) + '/' + os.path.basename(str(e[2]))] = e[2]
    return out


def tainted(I, ctx):
    out = []
    for p, v in snapshot(I, ctx).items():
        if isinstance(v, Unk) or isinstance(v, str) and '<lib ' in v:
            out.append('%s = %r' % (p, v))
    for i, (x, p) in reachable(ctx).items():
        vals = x.attrs.items() if isinstance(x, Obj) else x.items() if isinstance(x, dict) else enumerate(x)
        for n, v in vals:
            if isinstance(v, Opaque) and any(v.name == s or v.name.startswith(s + '.') or v.name.startswith(s + '()') for s in SOURCES):
                out.append('%s.%s = %r' % (p, n, v))
    return out


def views(chk):
    """what a template sees of a packet is the same in every process and does not come from the order of a set"""
    def look():
        I = interp()
        install(I, [])
        m = I.import_module('vrtgen.backend.cpp.generator')
        c = m.ns.get('CppGenerator')
        g = I.instantiate(c, [], {})
        D = p12.docs(I)
        for n, v in yaml_stream(I, D):
            if isinstance(v, Obj):
                I.call(I.getattr(g, 'generate'), [n, v], {})
        I.log.clear()
        out = {}
        kept = I.getattr(g, 'packets')
        for k in (kept.values() if isinstance(kept, dict) else kept):
            for p in sorted({n for b in k.cls.mro if isinstance(b, Cls) for n in b.ns}):
                if isinstance(k.cls.find(p)[1], Prop):
                    try:
                        out[k.attrs['name'], p] = snapshot(I, I.getattr(k, p))
                    except (PyRaise, Undecided):
                        continue
        return I, out
    I, a = look()
    J, b = look()
    chk.count('packet views', len(a))
    d = sorted(str(k) for k in set(a) | set(b) if a.get(k) != b.get(k))
    chk.require(not d, 'views', G, 'what a template sees differs between two evaluations: %s' % d[:3])
    for e in I.log:
        if e[0] == 'set-iteration':
            chk.violation('views/set', '%s:%d' % (rel(e[1]), e[2]), 'what a template sees depends on the order of a set')
    chk.ok('views/set', G)


# ---- syntactic taint ------------------------------------------------------------------------------
def imports(tree, pkg):
    """local name -> dotted library name"""
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level:
            for a in n.names:
                out[a.asname or a.name] = (n.module or '') + '.' + a.name
    return out


def dotted(e, imp):
    if isinstance(e, ast.Name):
        return imp.get(e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, imp)
        return b and b + '.' + e.attr
    return None


def is_source(e, imp):
    if isinstance(e, (ast.Name, ast.Attribute)) and isinstance(e.ctx, ast.Load):
        d = dotted(e, imp)
        if d and not any(d == p or d.startswith(p + '.') for p in PURE) and any(d == s or d.startswith(s + '.') for s in SOURCES):
            return d if not (d in SOURCES and '.' not in d) else None     # the bare module name is no value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in BUILT and e.func.id not in imp:
        return e.func.id + '()'
    return None


def is_log(c, imp):
    if not isinstance(c, ast.Call):
        return False
    if isinstance(c.func, ast.Name):
        return c.func.id == 'print'
    return isinstance(c.func, ast.Attribute) and c.func.attr in QUIET


def python_files():
    for b, _, fs in sorted(os.walk(os.path.join(SRCROOT, 'vrtgen'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.join(b, f)


KEYS = set()          # keys of dictionaries (and template variables) that hold a set


def set_valued(trees):
    """names of functions, properties and attributes that hold a set"""
    fns, attrs = set(), set()
    KEYS.clear()
    while True:
        n0 = len(fns) + len(attrs) + len(KEYS)
        for t in trees:
            for n in ast.walk(t):
                if isinstance(n, ast.FunctionDef):
                    loc = local_sets(n, fns, attrs)
                    for r in own(n):
                        if isinstance(r, ast.Return) and r.value is not None and is_set(r.value, loc, fns, attrs):
                            (attrs if any(getattr(d, 'id', '') in ('property', 'cached_property') for d in n.decorator_list) else fns).add(n.name)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None and is_set(n.value, set(), fns, attrs):
                    for tgt in n.targets if isinstance(n, ast.Assign) else [n.target]:
                        if isinstance(tgt, ast.Attribute):
                            attrs.add(tgt.attr)
                        elif isinstance(tgt, ast.Subscript) and isinstance(tgt.slice, ast.Constant) and isinstance(tgt.slice.value, str):
                            KEYS.add(tgt.slice.value)
                elif isinstance(n, ast.Dict):
                    for k, v in zip(n.keys, n.values):
                        if isinstance(k, ast.Constant) and isinstance(k.value, str) and is_set(v, set(), fns, attrs):
                            KEYS.add(k.value)
                elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'dict' or isinstance(n.func, ast.Attribute) and n.func.attr == 'render'):
                    for k in n.keywords:
                        if k.arg and is_set(k.value, set(), fns, attrs):
                            KEYS.add(k.arg)
        if len(fns) + len(attrs) + len(KEYS) == n0:
            return fns, attrs


def own(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def local_sets(fn, fns, attrs):
    loc = set()
    for _ in range(3):
        for n in own(fn):
            if isinstance(n, ast.Assign) and is_set(n.value, loc, fns, attrs):
                loc |= {t.id for t in n.targets if isinstance(t, ast.Name)}
            if isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name) and is_set(n.value, loc, fns, attrs):
                loc.add(n.target.id)
    for n in own(fn):           # a name that also holds something else is not known to be a set
        if isinstance(n, ast.Assign) and not is_set(n.value, loc, fns, attrs):
            loc -= {t.id for t in n.targets if isinstance(t, ast.Name)}
    return loc


def is_set(e, loc, fns, attrs):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Name):
        return e.id in loc
    if isinstance(e, ast.Attribute):
        return e.attr in attrs
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
        return e.slice.value in KEYS
    if isinstance(e, ast.IfExp):
        return is_set(e.body, loc, fns, attrs) or is_set(e.orelse, loc, fns, attrs)
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
        if isinstance(e.func, ast.Name) and n in ('set', 'frozenset'):
            return bool(e.args)
        if isinstance(e.func, ast.Attribute) and n in ('union', 'intersection', 'difference', 'symmetric_difference'):
            return is_set(e.func.value, loc, fns, attrs)
        return n in fns
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, loc, fns, attrs) or is_set(e.right, loc, fns, attrs) and not isinstance(e.op, ast.Sub)
    return False


def parents(tree):
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c.up = n


def python_sources(chk):
    trees = {}
    for p in python_files():
        try:
            trees[p] = ast.parse(open(p, encoding='utf-8').read(), p)
        except SyntaxError as e:
            raise Broken('%s: %s' % (p, e))
        parents(trees[p])
    fns, attrs = set_valued(trees.values())
    for p, t in trees.items():
        imp = imports(t, p)
        where = rel(p)
        for fn in [n for n in ast.walk(t) if isinstance(n, ast.FunctionDef)] + [t]:
            chk.count('python functions')
            name = getattr(fn, 'name', '<module>')
            flow(chk, fn, name, imp, where)
            orders(chk, fn, name, where, fns, attrs)
    chk.extra['set-valued'] = sorted(fns | attrs)


def flow(chk, fn, name, imp, where):
    """sources of the environment may be kept in locals and logged, nothing else"""
    taint = set()
    nodes = list(own(fn))
    if isinstance(fn, ast.Module):
        nodes = [n for n in nodes if not inside(n, ast.FunctionDef)]

    def hot(e):
        for x in ast.walk(e):
            if is_source(x, imp) or isinstance(x, ast.Name) and x.id in taint:
                yield x
    for _ in range(4):
        for n in nodes:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None and any(True for _ in hot(n.value)):
                for tg in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(tg, ast.Name):
                        taint.add(tg.id)
    for n in nodes:
        d = is_source(n, imp) or (isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in taint and 'the local ' + n.id)
        if not d:
            continue
        if isinstance(getattr(n, 'up', None), ast.Attribute) and is_source(n.up, imp):
            continue
        ok = False
        x = n
        while x is not None and x is not fn:
            if is_log(x, imp):
                ok = True
                break
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                tg = x.targets if isinstance(x, ast.Assign) else [x.target]
                ok = all(isinstance(t, ast.Name) for t in tg) and not isinstance(fn, ast.Module)
                break
            if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and (dotted(x.value.func, imp) or '').split('.')[0] in ('random', 'locale', 'gc'):
                ok = True
                break
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                ok = True
                break
            x = getattr(x, 'up', None)
        chk.count('environment sources')
        chk.require(ok, 'source/%s/%s/%s' % (where, name, d), '%s:%d' % (where, n.lineno),
                    '%s uses %s, which differs between runs, for more than logging' % (name, d))
    chk.ok('source/%s/%s' % (where, name), where)


def inside(n, kind):
    x = getattr(n, 'up', None)
    while x is not None:
        if isinstance(x, kind):
            return True
        x = getattr(x, 'up', None)
    return False


def orders(chk, fn, name, where, fns, attrs):
    loc = local_sets(fn, fns, attrs)
    nodes = list(own(fn))
    if isinstance(fn, ast.Module):
        nodes = [n for n in nodes if not inside(n, ast.FunctionDef)]
    for n in nodes:
        bad = None
        if isinstance(n, (ast.For, ast.AsyncFor)) and is_set(n.iter, loc, fns, attrs):
            bad = n.iter if ordered_body(n) else None
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            if any(is_set(g.iter, loc, fns, attrs) for g in n.generators):
                up = getattr(n, 'up', None)
                f = up.func.id if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) else ''
                bad = None if f in ORDERLESS else n
        elif isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if f in ('list', 'tuple', 'enumerate', 'iter', 'join', 'extend', 'zip', 'map', 'filter', 'next', 'str', 'repr', 'format') and \
                    any(is_set(a, loc, fns, attrs) for a in n.args):
                up = getattr(n, 'up', None)
                g = up.func.id if isinstance(up, ast.Call) and isinstance(up.func, ast.Name) else ''
                bad = None if g in ORDERLESS or inlog(n) else n
            elif f == 'pop' and isinstance(n.func, ast.Attribute) and is_set(n.func.value, loc, fns, attrs) and not n.args:
                bad = n
        elif isinstance(n, ast.Starred) and is_set(n.value, loc, fns, attrs):
            bad = n
        elif isinstance(n, ast.FormattedValue) and is_set(n.value, loc, fns, attrs) and not inlog(n):
            bad = n
        if bad is not None:
            chk.violation('order/%s/%s' % (where, name), '%s:%d' % (where, n.lineno), '%s uses the order of the set %s' % (name, ast.unparse(bad)[:60]))
    chk.ok('order/%s/%s' % (where, name), where)


def inlog(n):
    x = n
    while x is not None:
        if is_log(x, {}) or isinstance(x, ast.Raise):
            return True
        x = getattr(x, 'up', None)
    return False


def ordered_body(f):
    """does the loop leave anything that depends on the order of its rounds?"""
    for s in f.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'write', 'insert', 'render', 'setdefault'):
                return True
            if isinstance(x, (ast.Yield, ast.YieldFrom, ast.AugAssign, ast.Break)):
                return True
            if isinstance(x, ast.Return) and not (x.value is None or isinstance(x.value, ast.Constant)):
                return True
            if isinstance(x, (ast.Assign,)) and any(isinstance(t, ast.Subscript) for t in x.targets):
                return True
            if isinstance(x, ast.Assign) and any(isinstance(t, (ast.Name, ast.Attribute)) for t in x.targets) and not isinstance(x.value, ast.Constant):
                return True
    return False


# ---- templates ------------------------------------------------------------------------------------
def template_sources(chk):
    import jinja2
    from jinja2 import nodes
    I = interp()
    opts = I.import_module('vrtgen.backend.cpp.jinja').ns.get('JINJA_OPTIONS')
    if not isinstance(opts, dict):
        opts = I.import_module('vrtgen.backend.jinja').ns.get('JINJA_OPTIONS')
    if not isinstance(opts, dict):
        raise Broken('JINJA_OPTIONS not found')
    env = jinja2.Environment(extensions=['jinja2.ext.loopcontrols', 'jinja2.ext.do'], **opts)
    trees = [ast.parse(open(p, encoding='utf-8').read()) for p in python_files()]
    fns, attrs = set_valued(trees)
    attrs = attrs | KEYS
    base = os.path.join(REPO, T)
    for b, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith('.jinja2'):
                continue
            path = os.path.join(b, f)
            chk.count('templates')
            try:
                t = env.parse(open(path, encoding='utf-8').read())
            except jinja2.TemplateSyntaxError as e:
                chk.violation('template/%s/syntax' % f, '%s:%d' % (rel(path), e.lineno), 'template does not parse: %s' % e)
                continue
            loc = {}

            def held(x):
                """the name of the set an expression of the template yields"""
                if isinstance(x, nodes.Getattr):
                    return x.attr if x.attr in attrs else ''
                if isinstance(x, nodes.Getitem):
                    return x.arg.value if isinstance(x.arg, nodes.Const) and x.arg.value in attrs else ''
                if isinstance(x, nodes.Call):
                    n = x.node.attr if isinstance(x.node, nodes.Getattr) else x.node.name if isinstance(x.node, nodes.Name) else ''
                    return n if n in fns else ''
                if isinstance(x, nodes.Name):
                    return x.name if x.name in loc or x.name in attrs and x.name in given else ''
                return ''
            given = {n.name for n in t.find_all(nodes.Name) if n.ctx == 'load'} - {n.name for n in t.find_all(nodes.Name) if n.ctx != 'load'}
            for _ in range(2):
                for a in t.find_all(nodes.Assign):
                    if isinstance(a.target, nodes.Name) and held(a.node):
                        loc[a.target.name] = 1
            for n in t.find_all(nodes.Node):
                chk.count('template nodes')
                bad = None
                if isinstance(n, nodes.Filter) and n.name in ('random', 'shuffle'):
                    bad = 'the filter ' + n.name
                elif isinstance(n, nodes.Call) and isinstance(n.node, nodes.Name) and n.node.name in ('now', 'lipsum', 'id', 'hash'):
                    bad = n.node.name + '()'
                elif isinstance(n, nodes.For):
                    nm = held(n.iter)
                    if nm:
                        bad = 'the order of the set ' + nm
                elif isinstance(n, nodes.Filter) and n.name in ('list', 'join', 'first', 'last', 'map', 'select', 'reject', 'selectattr', 'rejectattr',
                                                                'batch', 'slice', 'groupby') and n.node is not None:
                    nm = held(n.node)
                    if nm:
                        bad = 'the order of the set ' + nm
                if bad:
                    chk.violation('template/%s/%s' % (f, bad.replace(' ', '_')), '%s:%d' % (rel(path), n.lineno), 'the template uses ' + bad)
            chk.ok('template/' + f, rel(path))
