#!/usr/bin/env python3
"""plant.py SPEC.py : make /verif/seeded/<id>/ from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO),
confirm it in /repo (build, stable tests, demo) and undo; says whether the check catches it."""
import json, os, subprocess, sys
REPO = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0: the guarantee holds in the built tree
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
b=/repo/_build
g++ -std=c++17 -O0 -w -I/repo/include -I/repo/mdflib/src -I/repo/mdflib -I"$b" "$d/demo.cpp" "$b/mdflib/libmdf.a" -lz -lexpat -lpthread -o "$t/demo" || exit 2
cd "$t" && TMPDIR="$t" timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def stable():
    sh('bash /opt/vp/test.sh /tmp/pl/o.json')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/pl/o.json'))
    return [x for x in b['stable'] if x not in o['passed']]


for spec in sys.argv[1:]:
    ns = {}
    exec(open(spec).read(), ns)
    d = '/verif/seeded/' + ns['ID']
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % REPO).stdout, 'repo dirty'
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh('git -C %s diff' % REPO).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.cpp', 'w').write(ns['DEMO'])
        open(d + '/demo.sh', 'w').write(DEMO_SH if not ns.get('DEMO_TAIL') else DEMO_SH[:DEMO_SH.index('g++')] + ns['DEMO_TAIL'].lstrip())
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(ns['ID'], 'BUILD FAILS', (b.stdout + b.stderr)[-800:]); continue
        miss = stable()
        dm = sh('bash %s/demo.sh' % d, cwd=REPO)
        ck = sh('python3 /verif/check.py %s' % ns['PROP'], cwd='/verif')
        line = [l for l in ck.stdout.splitlines() if 'VIOLATION' in l or 'ANALYSIS' in l][:2]
        patched = (miss, dm.returncode, dm.stdout[-200:] + dm.stderr[-300:])
    finally:
        sh('git -C %s checkout -- .' % REPO)
    b = sh('bash /opt/vp/build.sh')
    dc = sh('bash %s/demo.sh' % d, cwd=REPO)
    print(ns['ID'], 'tests missing', patched[0], 'demo patched', patched[1], patched[2].strip()[:300], '| clean', dc.returncode, dc.stdout[-200:] + dc.stderr[-300:] if dc.returncode else '', '| check', ck.returncode, line)
