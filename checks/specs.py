"""The family of packet definitions the generated-code checks quantify over: every field of every section required
and optional, alone and together, in every packet kind that has the section, with every combination of prologue
parts, identifier formats, acknowledgement requests and transports."""
from genlib import F0, F1, F2, SPECIAL, Packet, Job, info_class

FORMS = {0: F0, 1: F1, 2: F2}
CTRL = {'action_mode': 'execute'}
ACKS = {'action_mode': 'execute', 'req_v': 'optional', 'req_x': 'optional', 'req_s': 'optional'}
LISTS = {'index_list': '!IndexList\n      entry_size: 32',
         'sector_step_scan': '!SectorStepScan\n      subfield_cif: !SectorStepScanCIF\n        f2_stop_frequency: required'}
DIO32 = ('!DiscreteIO32\n      mode: %s\n      switchfield: bool\n      stream_enable: enable_indicator\n'
         '      test_enum: !!seq\n        - one\n        - two\n        - three\n      anint: !!int 8')
DIO64 = DIO32.replace('32', '64').replace('!!int 8', '!!int 32').replace('test_enum', 'test_enum64')


def pair(name, cam, cif=None, **kw):
    c = Packet(name, 'Control', cam=cam, cif=cif, **kw)
    return c, Packet(name + 'Ack', 'Ack', responds=name)


def all_of(mode, n=(0, 1, 2)):
    return {i: {f: mode for f in FORMS[i]} for i in n}


def field_packets():
    """every field alone, required and optional, in a context and in a control/ack pair"""
    out = []
    for n, forms in FORMS.items():
        for f in list(forms) + ([k for k in LISTS] if n == 1 else []):
            for mode in ('required', 'optional'):
                v = mode
                if f in LISTS:
                    v = LISTS[f]
                    if mode == 'optional':
                        continue
                nm = ''.join(x.capitalize() for x in f.split('_')) + mode.capitalize()[:3] + str(n)
                out.append((f, mode, Packet('C' + nm, 'Context', cif={n: {f: v}}), pair('K' + nm, ACKS, {n: {f: v}})))
    return out


def jobs():
    J = []

    def add(tag, packets, info=False, **opt):
        j = Job(tag, ''.join(p.yaml() + '\n' for p in packets) + (info_class('Info', packets) if info else ''), **opt)
        j.packets, j.info = list(packets), info
        J.append(j)

    # every field on its own
    by = {}
    for f, mode, ctx, ca in field_packets():
        if f in LISTS:
            add('alone_' + f, [ctx])
            add('alone_ctl_' + f, ca)
        else:
            by.setdefault((f in F0, f in F1, mode), []).append((ctx, ca))
    for k, (key, l) in enumerate(sorted(by.items())):
        for h in range(0, len(l), 8):
            add('ctx%d_%d' % (k, h), [x[0] for x in l[h:h + 8]])
            add('ctl%d_%d' % (k, h), [p for x in l[h:h + 8] for p in x[1]])
    # all together
    for mode in ('required', 'optional'):
        add('all_ctx_' + mode, [Packet('AllCtx', 'Context', stream='', class_id={'oui': 'FF-EE-DD'},
                                       ts={'integer': 'utc', 'fractional': 'picoseconds'}, cif=all_of(mode))])
        add('all_ctl_' + mode, list(pair('AllCtl', ACKS, all_of(mode), stream='', class_id={'oui': 'FF-EE-DD'},
                                         ts={'integer': 'utc', 'fractional': 'picoseconds'})))
    add('ids_and_cif2_ids', pair('IdsCtl', ACKS, {2: {'controllee_id': 'required', 'controller_id': 'optional'}}, controllee='word', controller='word'))
    # prologue combinations, data packets, extension packets, trailers
    pro = []
    k = 0
    for kind in ('Data', 'Context', 'ExtensionContext', 'Control', 'ExtensionControl'):
        for stream in (None, '', '0xDEADBEEF', '\n    thing1: !IntegerType\n      bits: 10\n    thing2: !IntegerType\n      bits: 7'):
            for cid in (None, {'oui': 'FF-EE-DD'}, {'oui': 'FF-EE-DD', 'information_code': '0x12', 'packet_code': '0x34'}):
                for ts in (None, {'integer': 'utc'}, {'integer': 'gps', 'fractional': 'picoseconds'}, {'fractional': 'samples'},
                           {'integer': 'any', 'fractional': 'any'}):
                    k += 1
                    if (k % 3) and kind.startswith('Ext'):
                        continue
                    pro.append(Packet('Pro%d' % k, kind, stream=stream, class_id=cid, ts=ts,
                                      cam=CTRL if 'Control' in kind else None,
                                      tsm=['fine', 'coarse', 'any', None][k % 4] if kind == 'Context' else None))
    for h in range(0, len(pro), 12):
        add('pro%d' % h, pro[h:h + 12])
    add('pro_none', [Packet('Ts%s%d' % (kind, i), kind, ts=ts, class_id={'oui': '01-02-03'}, cam=CTRL if 'Control' in kind else None)
                     for kind in ('Data', 'Context', 'Control')
                     for i, ts in enumerate(({'integer': 'none'}, {'fractional': 'none'}, {'integer': 'none', 'fractional': 'picoseconds'},
                                             {'integer': 'gps', 'fractional': 'none'}, {'integer': 'none', 'fractional': 'none'}))])
    for i, ts in enumerate(({'integer': 'any', 'fractional': 'picoseconds'}, {'integer': 'other', 'fractional': 'any'},
                            {'integer': 'any'}, {'fractional': 'any'}, {'integer': 'none', 'fractional': 'any'}, {'integer': 'any', 'fractional': 'none'})):
        add('pro_any%d' % i, [Packet('Any%s' % kind, kind, ts=ts, class_id={'oui': '01-02-03'}, stream='', cam=CTRL if 'Control' in kind else None)
                              for kind in ('Data', 'Context', 'Control')])
    tr = [None, {}, {'user_defined_1': 'enable_indicator', 'user_defined_2': 'enable_indicator'},
          {'user_defined_1': '!!seq\n      - zero\n      - one\n      - two'}, {'sample_frame': 'required'},
          {'sample_frame': 'required', 'user_defined_1': '!!seq\n      - zero\n      - one'}]
    for s in ('', None):
        add('trailer%d' % (s is None), [Packet('Tr%d' % i, 'Data', stream=s, trailer=t, class_id=None if i % 2 else {'oui': '01-02-03'})
                                       for i, t in enumerate(tr)])
    # difi and discrete I/O forms
    for m in ('required', 'optional'):
        for f, v in SPECIAL.items():
            n = 0 if f in F0 else 1
            add('difi_%s_%s' % (f, m), [Packet('Difi', 'Context', cif={n: {f: v % m}})] + list(pair('DifiC', ACKS, {n: {f: v % m}})))
        for f, v in (('discrete_io_32', DIO32), ('discrete_io_64', DIO64)):
            add('%s_%s' % (f, m), [Packet('Dio', 'Context', cif={1: {f: v % m}})])
            add('%s_ctl_%s' % (f, m), list(pair('Dio', ACKS, {1: {f: v % m}})))
    e = '      %s: !!seq\n        - one\n        - two\n        - three\n'
    for w in ('32', '64'):
        h = '!DiscreteIO%s\n      mode: optional\n' % w
        forms = [e % 'only', '      flag: bool\n' + e % 'last', e % 'first' + '      flag: bool\n', e % 'one_of' + e % 'two_of', '      flag: bool\n      count: !!int 5\n']
        add('discrete_enums_' + w, [Packet('DioE%d' % i, 'Context', cif={1: {'discrete_io_' + w: (h + f).rstrip('\n')}}) for i, f in enumerate(forms)])
    # cif 7
    add('cif7_req', [Packet('Cif7', 'Context', cif={0: {'bandwidth': 'required', 'gain': 'required'}},
                            cif7={'current_value': 'required', 'mean_value': 'required', 'belief': 'required'})])
    add('cif7_opt', [Packet('Cif7', 'Context', cif={0: {'bandwidth': 'optional', 'gain': 'optional'}},
                            cif7={'current_value': 'optional', 'mean_value': 'optional'})])
    # cam / acknowledgement combinations
    acks, k = [], 0
    for mode in ('execute', 'dry-run', 'none'):
        for v in (None, 'true', 'optional'):
            for x in (None, 'true', 'optional'):
                for s in (None, 'true', 'optional'):
                    for w in (None, 'true'):
                        if mode == 'none' and (v or x or w or s != 'true'):
                            continue
                        k += 1
                        cam = {'action_mode': mode}
                        for key, val in (('req_v', v), ('req_x', x), ('req_s', s), ('req_w', w), ('req_er', w),
                                         ('permit_partial', w), ('permit_warnings', w), ('permit_errors', w)):
                            if val:
                                cam[key] = val
                        acks += pair('Cam%d' % k, cam, {0: {'bandwidth': 'required', 'gain': 'optional'}, 1: {'phase_offset': 'optional', 'polarization': 'optional'},
                                                        2: {'cited_sid': ['required', 'optional'][k % 2]}},
                                     controllee=[None, 'word', 'uuid'][k % 3], controller=[None, 'word', 'uuid'][(k // 3) % 3],
                                     stream=[None, '', '0x12'][(k // 2) % 3])
    for h in range(0, len(acks), 12):
        add('cam%d' % h, acks[h:h + 12])
    # warnings and errors: which of them, over which indicator words
    few = {0: {'reference_point_id': 'required', 'gain': 'optional', 'context_association_lists': 'optional'},
           1: {'phase_offset': 'optional', 'health_status': 'required', 'buffer_size': 'optional'},
           2: {'bind': 'required', 'cited_sid': 'optional', 'rf_footprint': 'optional'}}
    k = 0
    for tag, ns in (('012', (0, 1, 2)), ('0', (0,)), ('1', (1,)), ('2', (2,)), ('01', (0, 1)), ('02', (0, 2)), ('12', (1, 2))):
        ps = []
        for w, e in (('true', 'true'), ('true', None), (None, 'true'), ('true', 'optional')):
            k += 1
            cam = {'action_mode': 'execute', ['req_v', 'req_x'][k % 2]: 'optional'}
            cam.update({key: v for key, v in (('req_w', w), ('req_er', e)) if v})
            ps += pair('We%d' % k, cam, {n: few[n] for n in ns}, controllee=[None, 'word', 'uuid'][k % 3], controller=[None, 'uuid'][k % 2],
                       ts={'integer': 'utc', 'fractional': 'picoseconds'} if k % 5 == 0 else None,
                       class_id={'oui': 'FF-EE-DD'} if k % 4 == 0 else None)
        add('weif_' + tag, ps)
    for n in (0, 1, 2):
        fs = [f for f in (F0, F1, F2)[n] if not f.endswith(('er_id', 'ee_id', '_uuid'))]
        m = (len(fs) + 7) // 8
        for h in range(m):
            add('weif_f%d_%d' % (n, h), list(pair('We%d%d' % (n, h), {'action_mode': 'execute', 'req_x': 'optional', 'req_w': 'true', 'req_er': 'true'},
                                                  {n: {f: 'optional' for f in fs[h::m]}})))
    # controllers and controllees
    for sock in ('tcp', 'udp', 'nats'):
        for c, (ce, cr) in enumerate([(None, None), ('word', 'uuid'), ('uuid', 'word'), ('word', None), (None, 'word')]):
            for m in range(4):
                cam = [dict(ACKS), {'action_mode': 'execute'}, {'action_mode': 'execute', 'req_x': 'true', 'req_w': 'true', 'req_er': 'true'},
                       {'action_mode': 'none', 'req_s': 'true'}][m]
                if (c * 4 + m) % 3 != {'tcp': 0, 'udp': 1, 'nats': 2}[sock] and m:
                    continue
                ps = [Packet('DataP', 'Data', stream='', class_id={'oui': '01-02-03'}), Packet('CtxP', 'Context', cif={0: {'bandwidth': 'optional'}})]
                ps += pair('CtlP', cam, {0: {'bandwidth': 'required', 'gain': 'optional'}, 1: {'phase_offset': 'optional'}},
                           controllee=ce, controller=cr, ts={'integer': 'utc', 'fractional': 'picoseconds'} if c % 2 else None,
                           stream='' if c != 3 else None)
                if c == 4:
                    ps += pair('CtlQ', ACKS, {0: {'bandwidth': 'optional'}})
                add('ctrl_%s_%d_%d' % (sock, c, m), ps, info=True, cmd_socket=sock)
        add('ctrl_%s_noctl' % sock, [Packet('DataP', 'Data', stream=''), Packet('CtxP', 'Context')], info=True, cmd_socket=sock)
        add('ctrl_%s_unacked' % sock, [Packet('CtlP', 'Control', cam=CTRL, cif={0: {'bandwidth': 'required'}})], info=True, cmd_socket=sock)
        add('proj_%s' % sock, [Packet('DataP', 'Data', stream=''), Packet('CtxP', 'Context')] + list(pair('CtlP', ACKS, {0: {'bandwidth': 'optional'}})),
            info=True, cmd_socket=sock, project=True)
        add('ctrl_%s_userstream' % sock, list(pair('CtlP', ACKS, {0: {'bandwidth': 'optional'}}, stream='\n    thing1: !IntegerType\n      bits: 10')), info=True, cmd_socket=sock)
    # two control packets asking for different acknowledgements, always or sometimes
    for i, sock in enumerate(('tcp', 'udp', 'nats')):
        for k, (a, b) in enumerate((('v', 'xs'), ('x', 'vs'), ('s', 'vx'), ('vxs', ''))):
            ps, ids = [], ['word', 'uuid', 'word', ['word', 'uuid', None][i]][k]
            for j, (name, req) in enumerate((('NodeA', a), ('NodeB', b))):
                cam = {'action_mode': 'execute'}
                cam.update({'req_' + r: ['optional', 'true'][(i + j + k) % 2] for r in req})
                kw = dict(controllee=ids if j == 0 or k != 3 else None, controller=ids, stream=['', None][(j + k) % 2])
                if req:
                    ps += pair(name, cam, {0: {'bandwidth': 'optional', 'gain': 'required'}}, **kw)
                else:
                    ps.append(Packet(name, 'Control', cam=cam, cif={0: {'bandwidth': 'optional'}}, **kw))
            add('node_%s_%d' % (sock, k), ps, info=True, cmd_socket=sock)
    add('nonamespace', [Packet('CtxP', 'Context', cif={0: {'bandwidth': 'optional'}})] + list(pair('CtlP', ACKS, {0: {'bandwidth': 'optional'}})), namespace_='')
    return J
