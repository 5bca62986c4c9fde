#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads OLD/NEW pairs, needs, what, demo from a spec
file (python) and writes seeded/<ID>."""
import sys, os, subprocess, json, runpy, shutil, tempfile
spec = runpy.run_path(sys.argv[1])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for b in spec['BUGS']:
    d = os.path.join(ROOT, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    diff = ''
    files = {}
    for f, old, new in b['edits']:
        s = files.get(f) or open('/repo/' + f).read()
        assert old == '' or s.count(old) == 1, (b['id'], f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        os.makedirs(os.path.dirname(t + '/a/' + f), exist_ok=True)
        os.makedirs(os.path.dirname(t + '/b/' + f), exist_ok=True)
        shutil.copy('/repo/' + f, t + '/a/' + f)
        open(t + '/b/' + f, 'w').write(s)
        diff += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE).stdout.decode()
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Exits 0 when the behaviour is right, non-zero otherwise.  Run in the repository root.
here=$(cd "$(dirname "$0")" && pwd)
exe=$(mktemp)
trap 'rm -f "$exe"' EXIT
g++ -std=c++11 -O1 -include functional -I include -o "$exe" "$here/demo.cc" || exit 2
timeout 60 "$exe"
''')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
    print(b['id'], len(diff))
