"""Runs the repository's parser and C++ back end on the jobs of a JSON file (no entry points needed): the
input preparation of the checks over generated code.  Usage: gendrive.py JOBS.json; answers in JOBS.json.out."""
import json
import logging
import os
import sys

logging.disable(logging.CRITICAL)
src, jobs = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path.insert(0, src)
from vrtgen import parser  # noqa: E402
from vrtgen.backend.cpp import CppGenerator  # noqa: E402

out = []
env = None
for job in json.load(open(jobs)):
    try:
        g = CppGenerator()
        env = env or g.env
        g.env = env  # one environment: the same templates are compiled once
        g.project = bool(job.get('project'))
        for attr, opt in g.get_options():
            if opt.default is not None:
                setattr(g, attr, opt.default)
        g.output_dir = job['dir']
        for k, v in job.get('options', {}).items():
            setattr(g, k, v)
        os.makedirs(job['dir'], exist_ok=True)
        for f in job['files']:
            g.start_file(f)
            for name, value in parser.parse_file(f, g.get_loader()):
                if name == 'files' and isinstance(value, list):
                    g.yamls = value
                else:
                    g.generate(name, value)
            g.end_file()
        out.append({'ok': True, 'packets': [p.name for p in g.packets], 'files': sorted(os.listdir(job['dir']))})
    except BaseException as e:  # noqa: B036 - SystemExit is a refusal too
        out.append({'ok': False, 'error': '%s: %s' % (type(e).__name__, e)})
json.dump(out, open(jobs + '.out', 'w'))
