RULE = ('points-to analysis by abstract evaluation of the generator\'s Python: the mutable objects reachable from two '
        'definitions (built, parsed from one document, or handed to the back end) are disjoint from each other and from '
        'module, class and default-argument state; building, parsing or generating one leaves every other one and that '
        'state unchanged, and gives the same result whatever came before')
from pylib import *
import p11
import p13

L = 'src/vrtgen/parser/loader.py'
G = 'src/vrtgen/backend/cpp/generator.py'
PACKETS = p11.PACKETS


def shared_path(a, b):
    ra, rb = reachable(a), reachable(b)
    out = [ra[i][1] + ' = ' + rb[i][1] for i in ra if i in rb]
    return sorted(out, key=len)


def static_state(I):
    """(place, value) of everything that outlives a definition"""
    out = []
    for mn, m in sorted(I.mods.items()):
        if getattr(m, 'lib', False):
            continue
        for n, v in m.ns.items():
            if isinstance(v, (Obj, list, dict, set)):
                out.append(('%s.%s' % (mn, n), v))
            if isinstance(v, Fn) and v.mod is m:
                out.append(('%s.%s()' % (mn, n), fn_state(v)))
            if isinstance(v, Cls) and v.mod is m:
                for an, av in v.ns.items():
                    if isinstance(av, (Obj, list, dict, set)):
                        out.append(('%s.%s.%s' % (mn, n, an), av))
                    fn = getattr(av, 'fn', None) or getattr(av, 'fget', None) or av
                    if isinstance(fn, Fn):
                        out.append(('%s.%s.%s()' % (mn, n, an), fn_state(fn)))
                for f in getattr(v, 'dc', None) or []:
                    if isinstance(f[1], (Obj, list, dict, set)):
                        out.append(('%s.%s.%s' % (mn, n, f[0]), f[1]))
    return out


def fn_state(f):
    return list(f.defaults or ()) + list((f.kwdefaults or {}).values() if isinstance(f.kwdefaults, dict) else (f.kwdefaults or ()))


def freeze(I, st):
    s = {}
    for p, v in st:
        for q, x in snapshot(I, v).items():
            s[p + '|' + q] = x
    return s


def builders(I):
    """tag -> list of thunks, one per option"""
    out = {}
    for tag, keys in sorted(p11.tables(I).items()):
        b = [('', lambda tag=tag: section(I, tag, {}))]
        if tag in PACKETS:
            full = {k: f[0][0] for k, f in keys.items()}
            b.append(('all options', lambda tag=tag, full=full: p11.parse(I, tag, full)))
        else:
            for k, forms in sorted(keys.items()):
                for form, _, _ in forms:
                    b.append(('%s=%s' % (k, form), lambda tag=tag, k=k, form=form: p11.parse(I, tag, {k: form})))
        out[tag] = b
    out['!StreamID'] = [(str(v), lambda v=v: section(I, '!StreamID', v)) for v in ('', '5')] + \
        [('constituents', lambda: section(I, '!StreamID', {'a': section(I, '!IntegerType', {'bits': 12}), 'b': section(I, '!IntegerType', {'bits': 20})}))]
    return out


def run(chk):
    I = interp()
    I.import_module('vrtgen.backend.cpp.generator')
    I.import_module('vrtgen.parser')
    chk.floor('definitions', 300)
    chk.floor('static places', 100)
    chk.floor('packet views', 100)
    chk.floor('document pairs', 20)
    B = builders(I)
    constructors(I)
    st = static_state(I)
    chk.count('static places', len(st))
    before = freeze(I, st)
    ids = {}
    for p, v in st:
        for i, (x, q) in reachable(v).items():
            ids[i] = p + q

    jobs = sorted(B, key=lambda t: -len(B[t]))
    chk.spread(jobs, lambda c, tag: instances(c, I, tag, B[tag], ids, before))
    histories(chk, I, B)
    documents(chk, I)
    backend(chk, I)
    state_same(chk, I, before, 'all')


def state_same(chk, I, before, what):
    d = diff(before, freeze(I, static_state(I)))
    chk.require(not d, 'state/' + what, 'src/vrtgen/parser', 'building definitions changes %s' % d[:3])


def instances(chk, I, tag, bs, ids, before):
    ref = None
    for name, mk in bs:
        chk.count('definitions')
        key = '%s/%s' % (tag, name or 'empty')
        try:
            a = mk()
            sa = snapshot(I, a)
            b = mk()
        except PyRaise as e:
            chk.undecided(key, L, 'refused: %s' % e)      # P11
            continue
        except Undecided as u:
            chk.undecided(key, L, str(u))
            continue
        sh = shared_path(a, b)
        chk.require(not sh, key + '/shared', L, 'two %s sections share %s' % (tag, sh[:3]))
        r = [q + ' is ' + ids[i] for i, (x, q) in reachable(a).items() if i in ids]
        chk.require(not r, key + '/static', L, '%s holds state of the program: %s' % (tag, r[:3]))
        d = diff(sa, snapshot(I, a))
        chk.require(not d, key + '/undisturbed', L, 'building a second %s changes the first: %s' % (tag, d[:3]))
        d = diff(sa, snapshot(I, b))
        chk.require(not d, key + '/repeatable', L, 'a second %s differs from the first: %s' % (tag, d[:3]))
    state_same(chk, I, before, tag)


def histories(chk, I, B):
    """a definition is the same whatever was built before it"""
    tags = [t for t in B]
    fresh = {}
    for t in tags:
        J = interp()
        constructors(J)
        fresh[t] = snapshot(J, section(J, t, {} if t != '!StreamID' else ''))
    for t in tags:
        for name, mk in B[t][-2:]:
            try:
                mk()
            except (PyRaise, Undecided):
                pass
    for t in tags:
        chk.count('histories')
        d = diff(fresh[t], snapshot(I, section(I, t, {} if t != '!StreamID' else '')))
        chk.require(not d, t + '/history', L, 'an empty %s depends on the definitions before it: %s' % (t, d[:3]))


def docs(I):
    cam = lambda: section(I, '!ControlAcknowledgeMode', {'req_x': True, 'req_s': True, 'req_w': True})
    cid = lambda n: section(I, '!ClassID', {'oui': 'AC-DE-48', 'packet_code': n})
    return {
        'C': lambda: section(I, '!Control', {'cam': cam(), 'class_id': cid(1), 'timestamp': section(I, '!Timestamp', {'integer': 'utc'}),
                                             'controllee_id': 'uuid', 'stream_id': section(I, '!StreamID', ''),
                                             'cif_0': section(I, '!CIF0', {'bandwidth': 'required', 'gain': 'optional'}),
                                             'cif_1': section(I, '!CIF1', {'discrete_io_32': section(I, '!DiscreteIO32', {'a': ['x', 'y']})}),
                                             'cif_2': section(I, '!CIF2', {'bind': 'required'})}),
        'A': lambda: section(I, '!Ack', {'responds_to': 'C'}),
        'B': lambda: section(I, '!Ack', {'responds_to': 'C', 'class_id': cid(2)}),
        'D': lambda: section(I, '!Data', {'class_id': cid(3), 'trailer': section(I, '!Trailer', {'user_defined_1': ['a', 'b'], 'sample_frame': 'required'})}),
        'D2': lambda: section(I, '!Data', {'trailer': section(I, '!Trailer', {'user_defined_1': 'enable_indicator'})}),
        'X': lambda: section(I, '!Context', {'class_id': cid(4), 'cif_0': section(I, '!CIF0', {'temperature': 'required'})}),
        'C2': lambda: section(I, '!Control', {'cif_0': section(I, '!CIF0', {'gain': 'required'})}),
        'A2': lambda: section(I, '!Ack', {'responds_to': 'C2'}),
    }


def documents(chk, I):
    D = docs(I)
    full = yaml_stream(I, D)
    objs = {n: v for n, v in full if isinstance(v, Obj)}
    chk.require(set(objs) == set(D), 'document/all', 'src/vrtgen/parser/__init__.py', 'definitions lost: %s' % sorted(set(D) - set(objs)))
    names = [n for n in D if n in objs]
    for i, a in enumerate(names):
        for b in names[i + 1:]:
            chk.count('document pairs')
            sh = shared_path(objs[a], objs[b])
            chk.require(not sh, 'document/%s-%s' % (a, b), 'src/vrtgen/parser/__init__.py',
                        'the definitions %s and %s of one document share %s' % (a, b, sh[:3]))
    # alone, or next to others in another order
    deps = {'A': ['C'], 'B': ['C'], 'A2': ['C2']}
    for n in names:
        chk.count('documents')
        alone = dict(yaml_stream(I, {m: D[m] for m in deps.get(n, []) + [n]}))[n]
        d = diff(snapshot(I, alone), snapshot(I, objs[n]))
        chk.require(not d, 'document/%s/alone' % n, 'src/vrtgen/parser/__init__.py', 'definition %s differs when others come with it: %s' % (n, d[:3]))
    order = ['C2', 'X', 'D2', 'C', 'A2', 'D', 'B', 'A']
    other = dict(yaml_stream(I, {n: D[n] for n in order}))
    for n in names:
        d = diff(snapshot(I, other[n]), snapshot(I, objs[n]))
        chk.require(not d, 'document/%s/order' % n, 'src/vrtgen/parser/__init__.py', 'definition %s depends on the order: %s' % (n, d[:3]))
    # the control packet is what it would be without its acknowledgement
    alone = dict(yaml_stream(I, {'C': D['C']}))['C']
    d = diff(snapshot(I, alone), snapshot(I, objs['C']))
    chk.require(not d, 'document/C/unanswered', 'src/vrtgen/parser/model/command.py', 'an acknowledgement changes its control packet: %s' % d[:3])
    # an information class stamps its code on the packets it lists only
    E = {n: D[n] for n in ('X', 'D', 'C', 'A')}
    E['Info'] = lambda: section(I, '!InformationClass', {'code': 7, 'packet_classes': ['X', 'A']})
    r = yaml_stream(I, E)
    got = {n: snapshot(I, v).get('class_id.information_code.value') for n, v in r if n in D}
    chk.require(sorted(got) == ['A', 'X'] and set(got.values()) == {7}, 'document/information', 'src/vrtgen/parser/__init__.py',
                'information class of X and A yields %s' % got)


def backend(chk, I):
    """what the back end keeps of a definition is its own, and looking at one packet changes no other"""
    m = I.import_module('vrtgen.backend.cpp.generator')
    c = m.ns.get('CppGenerator')
    if not isinstance(c, Cls):
        raise Broken('CppGenerator not found')
    D = docs(I)
    objs = [(n, v) for n, v in yaml_stream(I, D) if isinstance(v, Obj)]
    try:
        g = I.instantiate(c, [], {})
        g2 = I.instantiate(c, [], {})
    except PyRaise as e:
        raise Broken('cannot construct CppGenerator: %s' % e)
    sh = [p for p in shared_path(g, g2) if 'loader' not in p.split(' = ')[0]]
    chk.require(not sh, 'generator/shared', G, 'two generators share %s' % sh[:3])
    snaps = [(n, snapshot(I, v)) for n, v in objs]
    for n, v in objs:
        I.call(I.getattr(g, 'generate'), [n, v], {})
    kept = I.getattr(g, 'packets')
    kept = list(kept.values()) if isinstance(kept, dict) else list(kept)
    chk.require(len(kept) == len(objs), 'generator/kept', G, 'the back end keeps %d of %d packets' % (len(kept), len(objs)))
    for (n, v), k in zip(objs, kept):
        chk.count('generated packets')
        sh = shared_path(v, k)
        chk.require(not sh, 'generator/%s/own' % n, G, 'the back end shares %s with the parsed definition %s' % (sh[:3], n))
    for i, a in enumerate(kept):
        for j, b in enumerate(kept[i + 1:]):
            sh = shared_path(a, b)
            chk.require(not sh, 'generator/pair', G, 'two packets of the back end share %s' % sh[:3])
    ks = [snapshot(I, k) for k in kept]
    for i, k in enumerate(kept):
        for p in sorted({n for b in k.cls.mro if isinstance(b, Cls) for n in b.ns}):
            if p.startswith('__') or not isinstance(k.cls.find(p)[1], Prop):
                continue
            chk.count('packet views')
            try:
                I.getattr(k, p)
            except (PyRaise, Undecided) as e:
                chk.count('packet views refused')
                continue
        for j, o in enumerate(kept):
            if j != i:
                d = diff(ks[j], snapshot(I, o))
                chk.require(not d, 'generator/%s/view' % objs[i][0], G, 'rendering %s changes %s: %s' % (objs[i][0], objs[j][0], d[:3]))
        ks[i] = snapshot(I, k)
    for (n, v), (_, s) in zip(objs, snaps):
        d = diff(s, snapshot(I, v))
        chk.require(not d, 'generator/%s/input' % n, G, 'generating changes the parsed definition %s: %s' % (n, d[:3]))
