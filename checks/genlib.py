"""Generated packet classes: descriptions of packets, the YAML that asks for them, the repository's own
generator run on it, and an independent layout of what the generated class has to put on the wire."""
import json, os, subprocess, sys
from common import REPO, VERIF, Broken, scratch
import vita

PY = '/opt/vrtgen-venv/bin/python'
DRIVER = os.path.join(VERIF, 'tools', 'gendrive.py')

# field: (kind, bits / class, reserved bits before it in its word).  ANSI/VITA 49.2 section 9.
U, FX, ST, VAR, UU = 'u', 'fx', 'struct', 'var', 'uuid'
F0 = {
    'reference_point_id': (U, 32), 'bandwidth': (FX, 64, 20), 'if_ref_frequency': (FX, 64, 20),
    'rf_ref_frequency': (FX, 64, 20), 'rf_ref_frequency_offset': (FX, 64, 20), 'if_band_offset': (FX, 64, 20),
    'reference_level': (FX, 16, 7), 'gain': (ST, 'Gain'), 'over_range_count': (U, 32), 'sample_rate': (FX, 64, 20),
    'timestamp_adjustment': (U, 64), 'timestamp_calibration_time': (U, 32), 'temperature': (FX, 16, 6),
    'device_id': (ST, 'DeviceIdentifier'), 'state_event_indicators': (ST, 'StateEventIndicators'),
    'signal_data_format': (ST, 'PayloadFormat'), 'formatted_gps': (ST, 'Geolocation'),
    'formatted_ins': (ST, 'Geolocation'), 'ecef_ephemeris': (ST, 'Ephemeris'), 'relative_ephemeris': (ST, 'Ephemeris'),
    'ephemeris_ref_id': (U, 32), 'gps_ascii': (VAR, 'GpsAscii'), 'context_association_lists': (VAR, 'ContextAssociationLists')}
F1 = {
    'phase_offset': (FX, 16, 7), 'polarization': (ST, 'Polarization'), 'pointing_vector': (ST, 'PointingVector'),
    'spatial_scan_type': (U, 16), 'beam_width': (ST, 'BeamWidth'), 'range': (FX, 32, 6), 'ebno_ber': (ST, 'EbNoBER'),
    'threshold': (ST, 'Threshold'), 'compression_point': (FX, 16, 7), 'intercept_points': (ST, 'InterceptPoints'),
    'snr_noise_figure': (ST, 'SNRNoise'), 'aux_frequency': (FX, 64, 20), 'aux_gain': (ST, 'Gain'),
    'aux_bandwidth': (FX, 64, 20), 'spectrum': (ST, 'Spectrum'), 'discrete_io_32': (U, 32), 'discrete_io_64': (U, 64),
    'health_status': (U, 16), 'v49_spec_compliance': (U, 32), 'version_information': (ST, 'VersionInformation'),
    'buffer_size': (U, 64)}
F2 = {n: (U, 32) for n in vita.IND2}
F2['controllee_uuid'] = F2['controller_uuid'] = (UU, 128)
SPECIAL = {'reference_level': '!DIFI1p2ReferenceLevel\n      mode: %s', 'buffer_size': '!DIFI1p2BufferSize\n      mode: %s'}


class Packet:
    """One packet definition.  cif: {0: {field: 'required' | 'optional' | YAML text}, ...}."""

    def __init__(self, name, kind, stream=None, class_id=None, ts=None, cif=None, cam=None, controllee=None,
                 controller=None, trailer=None, responds=None, tsm=None, more='', cif7=None):
        self.name, self.kind, self.stream, self.class_id, self.ts = name, kind, stream, class_id, ts
        self.cif, self.cam, self.controllee, self.controller = cif or {}, cam, controllee, controller
        self.trailer, self.responds, self.tsm, self.more, self.cif7 = trailer, responds, tsm, more, cif7

    def yaml(self):
        o = ['%s: !%s' % (self.name, self.kind)]
        if self.responds:
            o.append('  responds_to: %s' % self.responds)
        if self.tsm is not None:
            o.append('  tsm: %s' % self.tsm)
        if self.stream is not None:
            o.append('  stream_id: !StreamID%s' % (' ' + self.stream if self.stream else ''))
        if self.class_id is not None:
            o.append('  class_id: !ClassID')
            o += ['    %s: %s' % kv for kv in self.class_id.items()]
        if self.ts is not None:
            o.append('  timestamp: !Timestamp')
            o += ['    %s: %s' % kv for kv in self.ts.items()]
        if self.cam is not None:
            o.append('  cam: !ControlAcknowledgeMode')
            o += ['    %s: %s' % kv for kv in self.cam.items()]
        for k in ('controllee', 'controller'):
            if getattr(self, k):
                o.append('  %s_id: %s' % (k, getattr(self, k)))
        for n in sorted(self.cif):
            o.append('  cif_%d: !CIF%d' % (n, n))
            o += ['    %s: %s' % kv for kv in self.cif[n].items()]
        if self.cif7:
            o.append('  cif_7: !CIF7')
            o += ['    %s: %s' % kv for kv in self.cif7.items()]
        if self.trailer is not None:
            o.append('  trailer: !Trailer')
            o += ['    %s: %s' % kv for kv in self.trailer.items()]
        if self.more:
            o.append(self.more)
        return '\n'.join(o) + '\n'


def info_class(name, packets):
    return '%s: !InformationClass\n  packet_classes:\n' % name + ''.join('    - %s\n' % p.name for p in packets)


class Job:
    def __init__(self, tag, text, **options):
        self.tag, self.text, self.options = tag, text, options


def generate(jobs, where=None):
    """Runs the generator on each job.  Returns {tag: (ok, directory, file names or error, packet names)}."""
    root = where or scratch()
    spec = []
    for j in jobs:
        d = os.path.join(root, j.tag)
        os.makedirs(d, exist_ok=True)
        y = os.path.join(root, j.tag + '.yaml')
        with open(y, 'w') as f:
            f.write(j.text)
        opts = dict(j.options)
        project = opts.pop('project', False)
        opts.setdefault('namespace_', 'gen')
        spec.append({'dir': d, 'files': [y], 'options': opts, 'project': project})
    n = min(os.cpu_count() or 1, 8, len(spec))
    runs = []
    for k in range(n):
        jf = os.path.join(root, 'jobs%d.json' % k)
        with open(jf, 'w') as f:
            json.dump(spec[k::n], f)
        runs.append((jf, subprocess.Popen([PY, '-W', 'ignore', DRIVER, os.path.join(REPO, 'src'), jf], stdout=subprocess.DEVNULL,
                                          stderr=subprocess.PIPE, text=True, cwd=root)))
    res = [None] * len(spec)
    for k, (jf, p) in enumerate(runs):
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(jf + '.out'):
            raise Broken('the generator could not be run: ' + err[-500:])
        with open(jf + '.out') as f:
            res[k::n] = json.load(f)
        os.unlink(jf + '.out')
    return {j.tag: ((True, s['dir'], x['files'], x['packets']) if x['ok'] else (False, s['dir'], x['error'], []))
            for j, s, x in zip(jobs, spec, res)}
