#!/usr/bin/env python3
"""muts.py SPEC.py : SPEC has PROP and M = [(name, [(file, old, new)...] , expect)], expect 'hit'|'quiet'.
Applies each to /repo, runs the check, undoes it, prints unexpected results."""
import subprocess, sys, os
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
bad = 0
for name, edits, expect in ns['M']:
    if only and name not in only: continue
    if subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout: sys.exit('dirty repo')
    try:
        ok = True
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read()
            if old not in s: print(name, 'NOT FOUND', repr(old)); ok = False; break
            open(p, 'w').write(s.replace(old, new, 1))
        if not ok: bad += 1; continue
        for prop in ns['PROP'].split(','):
            r = subprocess.run(['python3', '/verif/check.py', prop], capture_output=True, text=True)
            exp = 1 if expect == 'hit' else 0
            t = (r.stdout + r.stderr[-400:]).strip().splitlines()
            if r.returncode != exp or only:
                bad += 1
                print('##', name, prop, 'exit', r.returncode, 'expected', exp, '|', '\n'.join(x[:260] for x in t[:6]))
            else:
                print('ok', name, prop, '|', next((x[:140] for x in t if 'VIOL' not in x), '') if exp else '')
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True)
print('unexpected:', bad)
