"""Library models the command line program needs: argument parsing, entry points, file system, templates.
Every call that touches the outside is an event of the interpreter (which may be made to fail there)."""
import os.path
from pyeval import *
from pyeval import OPAQUE_CALLS

BACKEND = ('vrtgen.backend.cpp', 'CppGenerator')


# the exceptions these libraries raise
class YAMLError(Exception): pass
class MarkedYAMLError(YAMLError): pass
class ReaderError(YAMLError): pass
class ScannerError(MarkedYAMLError): pass
class ParserError(MarkedYAMLError): pass
class ComposerError(MarkedYAMLError): pass
class ConstructorError(MarkedYAMLError): pass
class TemplateError(Exception): pass
class TemplateNotFound(TemplateError): pass
class TemplateSyntaxError(TemplateError): pass
class TemplateRuntimeError(TemplateError): pass
class UndefinedError(TemplateRuntimeError): pass
YAML_ERRORS = {'error': [YAMLError, MarkedYAMLError], 'reader': [ReaderError], 'scanner': [ScannerError], 'parser': [ParserError],
               'composer': [ComposerError], 'constructor': [ConstructorError]}
JINJA_ERRORS = [TemplateError, TemplateNotFound, TemplateSyntaxError, TemplateRuntimeError, UndefinedError]


class Namespace(LibObj):
    libtype = 'argparse.Namespace'

    def __init__(self):
        self.d = {}

    def getattr(self, interp, name):
        if name in self.d:
            return self.d[name]
        if name == '__dict__':
            return self.d
        interp.rais(AttributeError, "'Namespace' object has no attribute '%s'" % name)


def vars_of(o):
    return o.d


class Parser(LibObj):
    libtype = 'argparse.ArgumentParser'

    def __init__(self, i, parents=()):
        self.i = i
        self.args = []
        self.sub = None
        for p in parents:
            self.args += p.args

    def getattr(self, i, name):
        if name == 'add_argument':
            return Native(name, self.add)
        if name == 'add_subparsers':
            def sub(i, a, k):
                self.sub = Sub(k.get('dest'), bool(k.get('required')))
                return self.sub
            return Native(name, sub)
        if name in ('parse_args', 'parse_intermixed_args'):
            return Native(name, lambda i, a, k: self.parse_top(i, a[0] if a else k.get('args')))
        if name == 'error' or name == 'exit':
            return Native(name, lambda i, a, k: i.rais(SystemExit, 2 if name == 'error' else (a[0] if a else k.get('status', 0))))
        if name == 'set_defaults':
            def sd(i, a, k):
                for n, v in k.items():
                    self.args.append({'flags': [], 'dest': n, 'default': v})
            return Native(name, sd)
        if name in ('add_argument_group', 'add_mutually_exclusive_group'):
            return Native(name, lambda i, a, k: self)
        if name in ('print_help', 'print_usage', 'format_help'):
            return Native(name, lambda i, a, k: None)
        if name == 'prog':
            return 'vrtpktgen'
        raise Undecided('argparse.' + name)

    def add(self, i, a, k):
        flags = list(a)
        d = dict(k)
        d['flags'] = flags
        if 'dest' not in d:
            n = next((f for f in flags if f.startswith('--')), flags[0])
            d['dest'] = n.lstrip('-').replace('-', '_') if n.startswith('-') else n
        self.args.append(d)
        return d

    def parse_top(self, i, argv):
        ns = Namespace()
        rest = list(argv if argv is not None else i.argv)
        self.parse(i, rest, ns)
        if self.sub is not None and self.sub.dest and self.sub.dest not in ns.d:
            ns.d[self.sub.dest] = None
        return ns

    def fail(self, i):
        raise PyRaise(Obj(SystemExit, {'args': (2,)}))

    def default(self, a):
        if 'default' in a:
            return a['default']
        return False if a.get('action') == 'store_true' else True if a.get('action') == 'store_false' else None

    def value(self, i, a, v):
        t = a.get('type')
        if t is not None:
            v = i.call(t, [v], {})
        c = a.get('choices')
        if c is not None and v not in list(i.iterate(c, None, None)):
            self.fail(i)
        return v

    def parse(self, i, argv, ns):
        opts = {f: a for a in self.args for f in a['flags'] if f.startswith('-')}
        posn = [a for a in self.args if a['flags'] and not a['flags'][0].startswith('-')]
        for a in self.args:
            d = self.default(a)
            if not (isinstance(d, Opaque) and d.name.endswith('SUPPRESS')) and a.get('action') != 'version':
                if a in posn and a.get('nargs') == '*' and 'default' not in a:
                    d = []
                ns.d[a['dest']] = d
        pos = []
        seen = set()
        n = 0
        while n < len(argv):
            w = argv[n]
            n += 1
            if w.startswith('-') and len(w) > 1:
                if '=' in w and w.startswith('--'):
                    w, _, v = w.partition('=')
                    argv = argv[:n] + [v] + argv[n:]
                a = opts.get(w)
                if w in ('-h', '--help') and a is None:
                    raise PyRaise(Obj(SystemExit, {'args': (0,)}))
                if a is None:
                    self.fail(i)
                seen.add(id(a))
                act = a.get('action', 'store')
                if act == 'store_true':
                    ns.d[a['dest']] = True
                elif act == 'store_false':
                    ns.d[a['dest']] = False
                elif act == 'count':
                    ns.d[a['dest']] = (ns.d.get(a['dest']) or 0) + 1
                elif act == 'version':
                    raise PyRaise(Obj(SystemExit, {'args': (0,)}))
                elif act in ('store', 'append'):
                    if n >= len(argv) or argv[n].startswith('-'):
                        self.fail(i)
                    v = self.value(i, a, argv[n])
                    n += 1
                    if act == 'append':
                        ns.d[a['dest']] = list(ns.d.get(a['dest']) or []) + [v]
                    else:
                        ns.d[a['dest']] = v
                else:
                    raise Undecided('argparse action %r' % (act,))
                continue
            if self.sub is not None and not pos:
                # the sub-command takes the rest, except what the positionals after it need at least
                if w not in self.sub.parsers:
                    self.fail(i)
                if self.sub.dest:
                    ns.d[self.sub.dest] = w
                need = sum(1 if a.get('nargs') in ('+', None) else 0 for a in posn)
                rest = argv[n:]
                if need and (len(rest) < need or any(x.startswith('-') for x in rest[len(rest) - need:])
                             or len(rest) > need and rest[-need - 1] in self.sub.parsers[w].valued()):
                    self.fail(i)
                keep = rest[len(rest) - need:] if need else []
                self.sub.parsers[w].parse(i, rest[:len(rest) - need], ns)
                self.positionals(i, posn, keep, ns)
                return
            pos.append(w)
        for a in self.args:
            if a.get('required') and id(a) not in seen:
                self.fail(i)
        if self.sub is not None and self.sub.required:
            self.fail(i)
        self.positionals(i, posn, pos, ns)

    def valued(self):
        return {f for a in self.args for f in a['flags'] if f.startswith('-') and a.get('action', 'store') in ('store', 'append')}

    def positionals(self, i, posn, pos, ns):
        pos = list(pos)
        for j, a in enumerate(posn):
            nargs = a.get('nargs')
            after = sum(1 if b.get('nargs') in ('+', None) else 0 for b in posn[j + 1:])
            if nargs in ('+', '*'):
                take = pos[:len(pos) - after] if after else pos
                if nargs == '+' and not take:
                    self.fail(i)
                pos = pos[len(take):]
                ns.d[a['dest']] = [self.value(i, a, v) for v in take]
            elif nargs == '?':
                if len(pos) > after:
                    ns.d[a['dest']] = self.value(i, a, pos.pop(0))
            elif nargs is None:
                if not pos:
                    self.fail(i)
                ns.d[a['dest']] = self.value(i, a, pos.pop(0))
            else:
                raise Undecided('nargs %r' % (nargs,))
        if pos:
            self.fail(i)


class Sub(LibObj):
    libtype = 'argparse._SubParsersAction'

    def __init__(self, dest, required):
        self.dest, self.required, self.parsers = dest, required, {}

    def getattr(self, i, name):
        if name == 'add_parser':
            def add(i, a, k):
                p = Parser(i, list(k.get('parents') or ()))
                self.parsers[a[0]] = p
                return p
            return Native(name, add)
        if name == 'required':
            return self.required
        if name == 'choices':
            return self.parsers
        raise Undecided('argparse.' + name)


class EntryPoint(LibObj):
    libtype = 'EntryPoint'

    def __init__(self, i):
        self.i = i

    def getattr(self, i, name):
        if name == 'name':
            return 'cpp'
        if name == 'dist':
            return Opaque('dist')
        if name in ('load', 'resolve'):
            def load(i, a, k):
                i.event('call', 'EntryPoint.load')
                c = i.import_module(BACKEND[0]).ns.get(BACKEND[1])
                if c is None:
                    i.rais(ImportError, BACKEND[1])
                return c
            return Native(name, load)
        raise Undecided('EntryPoint.' + name)


class Template(LibObj):
    libtype = 'jinja2.Template'

    def __init__(self, name):
        self.name = name

    def getattr(self, i, name):
        if name == 'render':
            def r(i, a, k):
                i.event('render', self.name, dict(a[0]) if a and isinstance(a[0], dict) else dict(k))
                return '<text %d>' % (len(i.events) - 1)
            return Native(name, r)
        if name in ('generate', 'stream'):
            def g(i, a, k):
                i.event('render', self.name, dict(a[0]) if a and isinstance(a[0], dict) else dict(k))
                return ['<text %d>' % (len(i.events) - 1)]
            return Native(name, g)
        if name == 'name':
            return self.name
        raise Undecided('Template.' + name)


class Environment(LibObj):
    libtype = 'jinja2.Environment'

    def __init__(self):
        self.filters, self.globals, self.tests = {}, {}, {}

    def getattr(self, i, name):
        if name in ('filters', 'globals', 'tests'):
            return getattr(self, name)
        if name in ('get_template', 'select_template', 'from_string'):
            def g(i, a, k):
                i.event('template', a[0])
                return Template(a[0])
            return Native(name, g)
        if name in ('trim_blocks', 'lstrip_blocks', 'loader'):
            return Opaque('env.' + name)
        raise Undecided('Environment.' + name)


def members(i, a, k):
    c, out = a[0], []
    names = set()
    for b in c.mro if isinstance(c, Cls) else []:
        if isinstance(b, Cls):
            names |= set(b.ns)
    for n in sorted(names):
        v = i.getattr(c, n)
        if len(a) < 2 or i.truth(i.call(a[1], [v], {})):
            out.append((n, v))
    return out


def strs(f, ev=None):
    def g(i, a, k):
        if ev:
            i.event(ev, f.__name__, *a)
        if any(isinstance(x, (Unk, Opaque)) for x in a):
            return Opaque('path')
        return f(*a)
    return Native(f.__name__, g)


def fs(name, result=None):
    def g(i, a, k):
        i.event('fs', name, *a)
        return result
    return Native(name, g)


def leave(i, a, k):
    raise PyRaise(Obj(SystemExit, {'args': tuple(a)}))


def install(I, argv):
    I.argv = list(argv)
    path = {n: strs(getattr(os.path, n)) for n in ('join', 'splitext', 'basename', 'dirname', 'normpath', 'split', 'isabs')}
    path.update({'abspath': Native('abspath', lambda i, a, k: os.path.normpath(os.path.join('/cwd', a[0])) if isinstance(a[0], str) else a[0]),
                 'exists': fs('exists', True), 'isfile': fs('isfile', True), 'isdir': fs('isdir', True), 'sep': '/'})
    path['realpath'] = path['expanduser'] = path['abspath']
    lib = {
        'argparse': {'ArgumentParser': Native('ArgumentParser', lambda i, a, k: Parser(i, list(k.get('parents') or ())))},
        'pkg_resources': {'iter_entry_points': Native('iter_entry_points', lambda i, a, k: [EntryPoint(i)] if a[0] == 'vrtgen.backend.packet' else [])},
        'importlib.metadata': {'entry_points': Native('entry_points', lambda i, a, k: [EntryPoint(i)])},
        'inspect': {'getmembers': Native('getmembers', members)},
        'os': {'getcwd': Native('getcwd', lambda i, a, k: '/cwd'), 'makedirs': fs('makedirs'), 'mkdir': fs('mkdir'),
               'remove': fs('remove'), 'unlink': fs('unlink'), 'rename': fs('rename'), 'replace': fs('replace'), 'rmdir': fs('rmdir'),
               'listdir': fs('listdir', []), '_exit': Native('_exit', leave), 'sep': '/', 'linesep': '\n'},
        'os.path': path,
        'shutil': {n: fs(n) for n in ('copy', 'copy2', 'copyfile', 'rmtree', 'move', 'copytree')},
        'jinja2': {'Environment': Native('Environment', lambda i, a, k: Environment())},
        'sys': {'exit': Native('exit', leave), 'argv': ['vrtpktgen'] + list(argv), 'stderr': Opaque('stderr'), 'stdout': Opaque('stdout')},
    }
    lib['jinja2'].update({c.__name__: c for c in JINJA_ERRORS})
    lib['jinja2.exceptions'] = {c.__name__: c for c in JINJA_ERRORS}
    for n, cs in YAML_ERRORS.items():
        lib['yaml.' + n] = {c.__name__: c for c in cs}
    I.lib.update(lib)
    I.lib.setdefault('yaml', {}).update({c.__name__: c for c in YAML_ERRORS['error']})
    for n in YAML_ERRORS:
        I.import_module('yaml').ns[n] = I.import_module('yaml.' + n)
    m = I.import_module('os')
    p = I.import_module('os.path')
    m.ns['path'] = p
    return I
