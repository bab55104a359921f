RULE = ('type checking: the repository\'s own generator is run on a family of accepted specifications (every field of every section alone and '
        'together, required and optional, in every packet kind that has it; every prologue, trailer, identifier, acknowledgement, transport and '
        'project form) and each generated file is type-checked by the project\'s compiler as one translation unit per specification; over the '
        'typed syntax tree of the same units, every declared, non-deleted member function of a generated class has exactly one definition')
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import REPO, Broken, dump, scratch
import genlib, specs


def unit(d):
    """one source including every generated source and entry header of a directory"""
    allf = sorted(os.path.join(a, x) for a, _, c in os.walk(d) for x in c)
    src = [x for x in allf if x.endswith('.cpp') and not os.path.basename(x).startswith(('main', 'unit_', 'alone_'))]
    hdr = [x for x in allf if x.endswith(('.hpp', '.h')) and x not in src]
    tu = os.path.join(d, 'unit_.cpp')
    with open(tu, 'w') as f:
        f.write('#include <vrtgen/vrtgen.hpp>\n' + ''.join('#include "%s"\n' % x for x in src + hdr))
    mains = [x for x in allf if os.path.basename(x).startswith('main') and x.endswith('.cpp')]
    incs = sorted({os.path.dirname(x) for x in hdr} | {d})
    # a project is built file by file: each source and each header of a small directory also stands alone
    alone = []
    if len(src) + len(hdr) <= 8:
        for x in src + [y for y in hdr if y[:-4] + '.cpp' not in src]:
            a = os.path.join(d, 'alone_%d.cpp' % len(alone))
            with open(a, 'w') as f:
                f.write('#include "%s"\n' % x)
            alone.append((a, os.path.relpath(x, d)))
    return tu, mains, incs, len(src) + len(hdr), alone


def compile_(tu, incs):
    r = subprocess.run(['g++', '-std=c++20', '-fsyntax-only', '-w', '-I' + os.path.join(REPO, 'include')] + ['-I' + i for i in incs] + [tu],
                       capture_output=True, text=True)
    if r.returncode not in (0, 1):
        raise Broken('g++ did not run: ' + r.stderr[-500:])
    return r.returncode, r.stderr


def errors(err, d):
    out = []
    for l in err.splitlines():
        m = re.match(r'(.*?):(\d+):\d+: (?:fatal )?error: (.*)', l)
        if m:
            out.append((m.group(1)[len(d) + 1:] if m.group(1).startswith(d) else m.group(1), m.group(3)))
    return out


def run(chk):
    chk.floor('specifications', 130)
    chk.floor('generated files', 600)
    chk.floor('packet definitions', 500)
    chk.floor('member functions', 20000)
    J = specs.jobs()
    root = os.path.join(scratch(), 'gen')
    os.makedirs(root, exist_ok=True)
    res = genlib.generate(J, root)
    todo, whole = [], set()
    for tag, (ok, d, info, packets) in res.items():
        chk.count('specifications')
        if not chk.require(ok, 'accept.' + tag, 'specification ' + tag, 'a specification the parser accepts is generated without an error' if ok else
                           'the generator fails on an accepted specification: ' + str(info)):
            continue
        chk.count('packet definitions', len(packets))
        todo.append((tag, d) + unit(d))

    def one(t):
        tag, d, tu, mains, incs, n, alone = t
        out = [(x, compile_(x, incs)) for x in [tu] + mains]
        undef = None
        if out[0][1][0] == 0:
            undef = definitions(tu, d, incs)
        return t, out, undef

    with ThreadPoolExecutor(8) as ex:
        single = [(t, a, x) for t in todo for a, x in t[6]]
        firsts = ex.map(lambda s: compile_(s[1], s[0][4]), single)
        for t, out, undef in ex.map(one, todo):
            tag, d, tu, mains, incs, n, alone = t
            chk.count('generated files', n + len(mains))
            for x, (rc, err) in out:
                es = errors(err, d)
                if rc and not es:
                    raise Broken('g++ failed without a diagnostic on %s: %s' % (x, err[-500:]))
                if not rc:
                    chk.ok('compile.%s.%s' % (tag, os.path.basename(x)), tag, 'the code generated for %s type-checks' % tag)
                if rc:
                    chk.violation('compile.%s.%s' % (tag, os.path.basename(x).replace('unit_.cpp', 'packets')), '%s: %s' % (tag, es[0][0]),
                                  'the code generated from an accepted specification does not compile',
                                  '; '.join('%s: %s' % e for e in list(dict.fromkeys(es))[:6]))
            if undef is not None:
                if not out[0][1][0]:
                    whole.add(tag)
                total, missing = undef
                chk.count('member functions', total)
                chk.require(not missing, 'defined.' + tag, tag, 'every declared member function of the generated classes is defined' if not missing else
                            'declared but never defined: ' + ', '.join(sorted(set(missing))[:6]))
        for (t, a, x), (rc, err) in zip(single, firsts):
            chk.count('files compiled alone')
            if t[0] in whole:      # otherwise the directory is already reported
                chk.require(not rc, 'alone.%s.%s' % (t[0], x), '%s: %s' % (t[0], x), 'the generated file compiles by itself' if not rc else
                            'the generated file does not compile by itself, as a project builds it: ' +
                            '; '.join('%s: %s' % e for e in list(dict.fromkeys(errors(err, t[1])))[:4]))


def definitions(tu, d, incs):
    P = dump(tu, roots=[d], incs=incs)
    total, missing = 0, []
    for r in P.recs.values():
        if not (r.get('file') or '').startswith(d) or '<' in r['n']:   # a template's members are defined where they are used
            continue
        for m in r['methods']:
            if m['deleted'] or m['pure'] or m['implicit']:
                continue
            total += 1
            if not m['defined']:
                missing.append('%s::%s' % (r['n'], m['n']))
    return total, missing
