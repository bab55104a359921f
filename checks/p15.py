RULE = ('exception flow of the command line program, by abstract evaluation of main() with modelled argument parsing, entry '
        'points, file system and templates: an exception injected at every library effect and at every function that raises ends '
        'main() in an exception or a non-zero SystemExit with a message; every malformed document, section or command line does; '
        'when main() returns, every packet of every file was rendered into files nothing overwrote; no handler that can receive '
        'a rule violation completes normally')
import ast
from pylib import *
from pymain import install, YAML_ERRORS, JINJA_ERRORS
import p11
import p12

M = 'src/vrtgen/main.py'
P = 'src/vrtgen/parser/__init__.py'
G = 'src/vrtgen/backend/cpp/generator.py'
EXC = [OSError, ValueError, KeyError, TypeError, RuntimeError, AttributeError, NotImplementedError, IndexError]
# and what else particular effects raise
ALSO = {'load': [c for cs in YAML_ERRORS.values() for c in cs] + [UnicodeDecodeError], 'open': [FileNotFoundError, PermissionError, IsADirectoryError],
        'render': JINJA_ERRORS, 'template': JINJA_ERRORS, 'write': [UnicodeEncodeError], 'fs': [FileNotFoundError, PermissionError]}
NAMED = {c.__name__: c for cs in ALSO.values() for c in cs}
QUIETFS = ('makedirs', 'mkdir', 'exists', 'isfile', 'isdir')


class Outcome:
    def __init__(self, kind, detail, events):
        self.kind, self.detail, self.events = kind, detail, events      # 'ok' | 'fail' | 'silent'


def program(I, argv, files, fault=None):
    """what the command line run comes to"""
    install_args(I, argv)
    I.files = dict(files)
    I.events.clear()
    I.fault = fault
    I.steps = 0
    I.depth = 0
    m = I.import_module('vrtgen.main')
    f = m.ns.get('main')
    if not isinstance(f, Fn):
        raise Broken('main() not found')
    try:
        r = I.call(f, [], {})
        if r in (None, 0, False):
            return Outcome('ok', r, list(I.events))
        return Outcome('fail', 'returned %r' % (r,), list(I.events))
    except PyRaise as e:
        if is_sub(e.cls, SystemExit):
            a = e.exc.attrs.get('args') or ()
            v = a[0] if a else None
            if v is None or v == 0 or v is False or v == '':
                return Outcome('silent', 'exits with status 0 (SystemExit(%s))' % ', '.join(map(repr, a)), list(I.events))
            return Outcome('fail', str(e), list(I.events))
        return Outcome('fail', str(e), list(I.events))
    finally:
        I.fault = None


def install_args(I, argv):
    I.argv = list(argv)
    s = I.mods.get('sys')
    if s is not None:
        s.ns['argv'] = ['vrtpktgen'] + list(argv)


def world():
    I = interp()
    install(I, [])
    I.import_module('vrtgen.main')
    I.import_module('vrtgen.backend.cpp')
    I.import_module('vrtgen.parser')
    constructors(I)
    return I


def raisers(I):
    """id of syntax node -> (label, exception classes it raises lexically)"""
    out = {}

    def add(label, fn):
        types = set()
        own = [n for n in walk_own(fn.node)]
        for n in own:
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                if isinstance(e, ast.Name) and isinstance(getattr(__builtins__, e.id, None) if not isinstance(__builtins__, dict) else __builtins__.get(e.id), type):
                    types.add(e.id)
                else:
                    types.add('ValueError')
        if any(isinstance(n, ast.Raise) for n in own):
            out[id(fn.node)] = (label, sorted(types | {'ValueError'}))
    for mn, m in sorted(I.mods.items()):
        if getattr(m, 'lib', False):
            continue
        for n, v in m.ns.items():
            if isinstance(v, Fn) and v.mod is m:
                add('%s.%s' % (mn, n), v)
            elif isinstance(v, Cls) and v.mod is m:
                for k, d in v.ns.items():
                    fn = getattr(d, 'fn', None) or getattr(d, 'fget', None) or d
                    if isinstance(fn, Fn):
                        add('%s.%s.%s' % (mn, n, k), fn)
    return out


def walk_own(fn):
    todo = list(getattr(fn, 'body', [])) if isinstance(getattr(fn, 'body', None), list) else []
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def by_section(I):
    """for each section, a document holding it in every option"""
    T = p11.tables(I)
    out = {}
    for tag, keys in sorted(T.items()):
        doc = {}
        for k, forms in sorted(keys.items()):
            for f in forms:
                doc['E%d' % len(doc)] = lambda tag=tag, k=k, f=f: p11.parse(I, tag, {k: f[0]})
        out[tag] = doc
    out['!StreamID'] = {'E0': lambda: section(I, '!StreamID', '5'),
                        'E1': lambda: section(I, '!StreamID', {'a': section(I, '!IntegerType', {'bits': 12})})}
    return out


def run(chk):
    I = world()
    chk.floor('injected faults', 200)
    chk.floor('bad documents', 15)
    chk.floor('bad command lines', 5)
    chk.floor('packets generated', 20)
    chk.floor('handlers', 10)
    D = p12.docs(I)
    succeed(chk, I, D)
    refuse(chk, I, D)
    faults(chk, I, D)
    handlers(chk, I)
    T = p11.tables(I)
    p11._I[:] = [I]
    chk.spread(sorted(T), lambda c, t: sections(c, I, T, t))
    p11.values(chk, I)


def sections(chk, I, T, tag):
    p11.unknown_keys(chk, I, tag, T[tag])
    p11.scalars(chk, I, tag)
    for k in sorted(T[tag]):
        p11.wrong_forms(chk, I, tag, T[tag], k)


def doc(D, names, /, **extra):
    d = {n: D[n] for n in names}
    d.update(extra)
    return lambda i: {n: (mk() if callable(mk) else mk) for n, mk in d.items()}


def info(I, code, names):
    return lambda: section(I, '!InformationClass', {'code': code, 'packet_classes': names})


def written(o):
    """final content of each output file: path -> contexts of the renderings in it"""
    out = {}
    for e in o.events:
        if e[0] == 'open' and isinstance(e[2], str) and e[2][:1] in 'wx':
            out[e[1]] = []
        elif e[0] == 'write' and isinstance(e[2], str):
            for n, ev in enumerate(o.events):
                if ev[0] == 'render' and '<text %d>' % n in e[2]:
                    out.setdefault(e[1], []).append(ev[2])
    return out


def packets_in(ctx):
    out = set()
    for v in ctx.values():
        for x in v if isinstance(v, (list, tuple)) else list(v.values()) if isinstance(v, dict) else [v]:
            if isinstance(x, Obj) and isinstance(x.attrs.get('config'), Obj):
                out.add(x.attrs.get('name'))
    return out


def succeed(chk, I, D):
    A = list(D)
    cases = {
        'plain': (['cpp', 'a'], {'a': doc(D, A)}, A),
        'output directory': (['cpp', '--dir', 'out', 'a'], {'a': doc(D, A)}, A),
        'project': (['cpp', '-p', 'a'], {'a': doc(D, A)}, A),
        'two files': (['cpp', 'a', 'b'], {'a': doc(D, ['D', 'X']), 'b': doc(D, ['C', 'A'])}, ['D', 'X', 'C', 'A']),
        'three files': (['cpp', '--dir', 'out', 'a', 'b', 'c'], {'a': doc(D, ['D']), 'b': doc(D, ['X']), 'c': doc(D, ['C2'])}, ['D', 'X', 'C2']),
        'files before options': (['cpp', 'a', 'b', '--namespace', 'n'], {'a': doc(D, ['D']), 'b': doc(D, ['X'])}, ['D', 'X']),
        'included': (['cpp', 'a'], {'a': doc(D, [], include=['b'], X=D['X']), 'b': doc(D, ['D', 'C'])}, ['D', 'C', 'X']),
        'acknowledgement of an included packet': (['cpp', 'a'], {'a': doc(D, [], include=['b'], A=D['A']), 'b': doc(D, ['C'])}, ['C', 'A']),
        'information class': (['cpp', 'a'], {'a': doc(D, ['X', 'C', 'A'], Info=info(I, 3, ['X', 'C', 'A']))}, ['X', 'C', 'A']),
        'hidden entry': (['cpp', 'a'], {'a': doc(D, ['X'], **{'.note': 'text'})}, ['X']),
        'packet named files': (['cpp', 'a'], {'a': doc(D, ['X'], files=D['D'])}, ['X', 'files']),
    }
    for s in ('tcp', 'udp', 'nats'):
        cases['command socket ' + s] = (['cpp', '--cmd-socket', s, 'a'], {'a': doc(D, ['C', 'A'])}, ['C', 'A'])
    for name, (argv, files, want) in cases.items():
        try:
            o = program(I, argv, files)
        except Undecided as u:
            chk.undecided('success/' + name, M, str(u))
            continue
        if not chk.require(o.kind == 'ok', 'success/' + name, M, 'a valid run (%s) fails: %s' % (name, o.detail)):
            continue
        fin = written(o)
        heads = {p for path, cs in fin.items() if path.endswith('.hpp') for c in cs for p in packets_in(c)}
        impls = {p for path, cs in fin.items() if path.endswith('.cpp') for c in cs for p in packets_in(c)}
        for n in want:
            chk.count('packets generated')
            chk.require(n in heads and n in impls, 'success/%s/%s' % (name, n), G,
                        'run "%s" of %s reports success without generating packet %s' % (' '.join(argv), sorted(files), n))


def refuse(chk, I, D):
    bad = {
        'entry that is a number': {'a': doc(D, ['X'], foo=3)},
        'entry that is text': {'a': doc(D, ['X'], foo='Data')},
        'empty entry': {'a': doc(D, ['X'], foo=None)},
        'entry that is a list': {'a': doc(D, ['X'], foo=['a'])},
        'entry without a tag': {'a': doc(D, ['X'], foo={'stream_id': 'required'})},
        'section as entry': {'a': doc(D, ['X'], foo=lambda: section(I, '!CIF0', {}))},
        'empty document': {'a': lambda i: None},
        'document that is a list': {'a': lambda i: ['X']},
        'document that is text': {'a': lambda i: 'X'},
        'packets whose files collide': {'a': doc(D, [], PktOne=D['X'], Pkt_One=D['D'])},
        'packets whose names collide': {'a': doc(D, [], **{'Pkt.One': D['X'], 'Pkt-One': D['D']})},
        'information class naming an unknown packet': {'a': doc(D, ['X'], Info=info(I, 3, ['Y']))},
        'information class before its packets': {'a': doc(D, [], Info=info(I, 3, ['X']), X=D['X'])},
        'acknowledgement without its control packet': {'a': doc(D, ['A'])},
        'acknowledgement before its control packet': {'a': doc(D, ['A', 'C'])},
        'acknowledgement of a data packet': {'a': doc(D, [], C=D['D'], A=D['A'])},
        'acknowledgement responding to nothing': {'a': doc(D, ['C'], A=lambda: section(I, '!Ack', {}))},
        'include that is not a list': {'a': doc(D, [], include='b'), 'b': doc(D, ['X'])},
        'included document with a bad entry': {'a': doc(D, [], include=['b']), 'b': doc(D, ['X'], foo=3)},
        'included document that breaks': {'a': doc(D, [], include=['b']), 'b': doc(D, [], X=lambda: section(I, '!Context', {'nonsense': 1}))},
        'packet that breaks a rule': {'a': doc(D, ['X'], Y=lambda: section(I, '!Data', {'cif_0': section(I, '!CIF0', {})}))},
    }
    for name, files in bad.items():
        for argv in (['cpp', 'a'], ['cpp', '-p', '--dir', 'out', 'a'], ['cpp', '-v', 'a']):
            chk.count('bad documents')
            outcome(chk, I, 'bad/%s/%s' % (name, ' '.join(argv)), name, argv, files)
    good = {'a': doc(D, ['X']), 'b': doc(D, ['X']), 'c': doc(D, ['D'], foo=3)}
    for name, argv in {
        'no arguments': [], 'no backend': ['-v'], 'unknown backend': ['python', 'a'], 'no file': ['cpp'],
        'unknown option': ['cpp', '--nonsense', 'a'], 'unknown command socket': ['cpp', '--cmd-socket', 'pipe', 'a'],
        'option without value': ['cpp', 'a', '--dir'],
        'one packet defined in two files': ['cpp', 'a', 'b'], 'same file twice': ['cpp', 'a', 'a'],
        'bad second file': ['cpp', 'a', 'c'], 'bad first file': ['cpp', 'c', 'a'],
    }.items():
        chk.count('bad command lines')
        outcome(chk, I, 'command/' + name, name, argv, good)


def outcome(chk, I, key, name, argv, files):
    try:
        o = program(I, argv, files)
    except Undecided as u:
        chk.undecided(key, M, str(u))
        return
    chk.require(o.kind == 'fail', key, M, '"%s" with %s %s' % (' '.join(argv), name, 'reports success' if o.kind == 'ok' else o.detail))


def faults(chk, I, D):
    R = raisers(I)
    kinds = {'fn ' + v[0]: v for v in R.values()}
    jobs = []
    runs = {
        'plain': (['cpp', 'a'], {'a': doc(D, ['C', 'A', 'D'])}),
        'project': (['cpp', '-p', '--dir', 'out', 'a', 'b'], {'a': doc(D, ['X', 'C', 'A'], Info=info(I, 3, ['X', 'C', 'A'])),
                                                              'b': doc(D, [], include=['c'], D2=D['D2']), 'c': doc(D, ['D'])}),
    }
    for name, (argv, files) in runs.items():
        I.watch = {k: 'fn ' + v[0] for k, v in R.items()}
        o = program(I, argv, files)
        I.watch = {}
        if o.kind != 'ok':
            chk.violation('run/' + name, M, 'a valid run (%s) fails: %s' % (name, o.detail))
            continue
        total, cnt = {}, {}
        for e in o.events:
            total[e[0]] = total.get(e[0], 0) + 1
        for e in o.events:
            k = e[0]
            n = cnt[k] = cnt.get(k, 0) + 1
            if k == 'call' and (e[1].startswith('logg') or '.log' in e[1]) or k == 'fs' and e[1] in QUIETFS:
                continue
            if k in kinds:
                if n in (1, total[k]):
                    jobs += [(name, argv, files, k, n, t, k[3:]) for t in kinds[k][1]]
            else:
                for t in ALSO.get(k, []) if n in (1, total[k]) or chk.tier == 'thorough' else []:
                    jobs.append((name, argv, files, k, n, t.__name__, '%s of %s' % (k, ' '.join(str(x) for x in e[1:3] if isinstance(x, str)))))
                for t in EXC if chk.tier == 'thorough' else [EXC[(len(jobs) + j) % len(EXC)] for j in (0, 3)] + [RuntimeError]:
                    jobs.append((name, argv, files, k, n, t.__name__, '%s of %s' % (k, ' '.join(str(x) for x in e[1:3] if isinstance(x, str)))))
    for tag, E in by_section(I).items():
        files = {'a': doc(E, list(E))}
        I.watch = {k: 'fn ' + v[0] for k, v in R.items()}
        o = program(I, ['cpp', 'a'], files)
        I.watch = {}
        for k in sorted({e[0] for e in o.events if e[0] in kinds}):
            jobs += [(tag, ['cpp', 'a'], files, k, 1, t, k[3:]) for t in kinds[k][1]]
    missed = sorted({v[0] for v in R.values()} - {j[6] for j in jobs})
    chk.extra['raising functions the runs do not enter'] = missed
    jobs = list({(j[0], j[3], j[4], j[5], j[6]): j for j in jobs}.values())
    chk.spread([jobs[i::32] for i in range(32)], lambda c, js: [inject(c, I, R, *j) for j in js])


def inject(chk, I, R, name, argv, files, kind, nth, typ, what):
    import builtins
    chk.count('injected faults')
    I.watch = {k: 'fn ' + v[0] for k, v in R.items()}
    exc = Obj(NAMED.get(typ) or getattr(builtins, typ), {'args': ('injected',)})
    key = 'fault/%s/%s/%d/%s' % (name, what.replace(' ', '_'), nth, typ)
    try:
        o = program(I, argv, files, (kind, nth, exc))
    except Undecided as u:
        chk.undecided(key, M, str(u))
        return
    chk.require(o.kind == 'fail', key, M, 'a %s in %s (occurrence %d) goes unnoticed: the program %s' %
                (typ, what, nth, 'reports success' if o.kind == 'ok' else o.detail))


# ---- handlers ---------------------------------------------------------------------------------------
def leaves(body):
    """does every path through these statements end in raise (or an exit call)?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            f = s.value.func
            n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if n in ('exit', '_exit', 'error') and not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and 'log' in f.value.id):
                return True
        if isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(s.orelse):
            return True
        if isinstance(s, ast.With) and leaves(s.body):
            return True
        if isinstance(s, ast.Try) and (leaves(s.finalbody) or leaves(s.body) and all(leaves(h.body) for h in s.handlers)):
            return True
    return False


def names_that_raise(I):
    """names of program functions that can raise a rule violation: lexically, or by calling one that can"""
    bodies = {}
    for mn, m in I.mods.items():
        if getattr(m, 'lib', False) or not getattr(m, 'tree', None):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                bodies.setdefault(n.name, []).append(n)
    bad = {n for n, fs in bodies.items() if any(isinstance(x, ast.Raise) for f in fs for x in walk_own(f))}
    while True:
        more = {n for n, fs in bodies.items() if n not in bad and any(calls(f) & bad for f in fs)}
        if not more:
            return bad
        bad |= more


def calls(f):
    out = set()
    for x in walk_own(f):
        if isinstance(x, ast.Call):
            g = x.func
            out.add(g.attr if isinstance(g, ast.Attribute) else getattr(g, 'id', ''))
    return out - {''}


def handlers(chk, I):
    bad = names_that_raise(I)
    for mn, m in sorted(I.mods.items()):
        if getattr(m, 'lib', False) or not getattr(m, 'tree', None):
            continue
        path = rel(m.path)
        for fn in [n for n in ast.walk(m.tree) if isinstance(n, ast.FunctionDef)]:
            k = 0
            for t in [x for x in walk_own(fn) if isinstance(x, ast.Try)]:
                may = set()
                for s in t.body:
                    for x in [s] + list(ast.walk(s)):
                        if isinstance(x, ast.Call):
                            g = x.func
                            n = g.attr if isinstance(g, ast.Attribute) else getattr(g, 'id', '')
                            if n in bad:
                                may.add(n)
                raised = any(isinstance(x, ast.Raise) for s in t.body for x in ast.walk(s))
                for h in t.handlers:
                    chk.count('handlers')
                    k += 1
                    key = 'handler/%s.%s/%d' % (mn, fn.name, k)
                    where = '%s:%d' % (path, h.lineno)
                    if leaves(h.body) or not may and not raised:
                        chk.ok(key, where)
                    elif h.type is not None and not general(h.type):
                        chk.undecided(key, where, 'a handler for %s completes normally around calls of %s' % (ast.unparse(h.type), sorted(may)))
                    else:
                        chk.violation(key, where, '%s swallows whatever %s raises' % (fn.name, ', '.join(sorted(may)) or 'its body'))


def general(t):
    """catches the exceptions rule violations are raised as"""
    names = [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]
    return any(n in ('Exception', 'BaseException', 'ValueError', 'TypeError', 'RuntimeError', 'SystemExit', 'NotImplementedError') for n in names)
