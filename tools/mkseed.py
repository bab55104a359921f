#!/usr/bin/env python3
"""Create a planted bug: mkseed.py SPEC.py   (SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO[, CPP, FILES])
EDITS = [(file, old, new[, count])]; the edits are applied to /repo, the diff recorded, and undone."""
import json, os, re, runpy, subprocess, sys
R=os.environ.get('SEED_REPO','/repo'); ORIGINAL='c3aadf8'   # lines of later commits are not ours to change
V='/verif/seeded'
s=runpy.run_path(sys.argv[1])
d=f"{V}/{s['ID']}"
os.makedirs(d,exist_ok=True)
if subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout.strip():
    sys.exit('repo dirty')
for e in s['EDITS']:
    f=R+'/'+e[0]; t=open(f).read(); n=e[3] if len(e)>3 else 1
    if t.count(e[1])!=n: 
        subprocess.run(['git','-C',R,'checkout','--','.']); sys.exit(f'{e[0]}: {t.count(e[1])} matches of {e[1]!r}')
    open(f,'w').write(t.replace(e[1],e[2]))
diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
subprocess.run(['git','-C',R,'checkout','--','.'])
f=None
for l in diff.splitlines():
    m=re.match(r'--- a/(.*)',l)
    if m: f=m[1]; ol=set(subprocess.run(['git','-C',R,'show',ORIGINAL+':'+f],capture_output=True,text=True).stdout.splitlines())
    elif l.startswith('-') and l[1:].strip() and l[1:] not in ol: print('not an original line:',f,l)
open(d+'/patch.diff','w').write(diff)
json.dump({'property':s['PROPERTY'],'needs':s['NEEDS'],'what_it_breaks':s['BREAKS']},open(d+'/meta.json','w'),indent=1)
demo=s.get('DEMO')
if demo is None:
    demo='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -I"$PWD/include" "$here/demo.cpp" -o "$T/demo" || exit 3
"$T/demo"
'''
if 'SPEC' in s:
    demo='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cp "$here/spec.yaml" "$T/" && cd "$T" || exit 2
PYTHONPATH=$repo/src /opt/vrtgen-venv/bin/python -W ignore -m vrtgen.main cpp %s --dir out --namespace gen spec.yaml >gen.log 2>&1 || { cat gen.log; exit 3; }
g++ -std=c++20 -O1 -w -I$repo/include $(find "$PWD/out" -type d -printf '-I%%p ') "$here/demo.cpp" $(find "$PWD/out" -name '*.cpp' ! -name 'main*.cpp') -o demo %s || exit 3
./demo
''' % (s.get('OPTS',''), s.get('LIBS',''))
    open(d+'/spec.yaml','w').write(s['SPEC'])
open(d+'/demo.sh','w').write(demo); os.chmod(d+'/demo.sh',0o755)
if 'CPP' in s: open(d+'/demo.cpp','w').write(s['CPP'])
for n,c in s.get('FILES',{}).items(): open(d+'/'+n,'w').write(c)
print('wrote',d)
