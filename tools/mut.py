#!/usr/bin/env python3
"""mut.py PROP FILE OLD NEW [FILE OLD NEW ...] : apply an edit to /repo, run the check, undo."""
import subprocess, sys
a = sys.argv[2:]
assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout
try:
    for i in range(0, len(a), 3):
        p = '/repo/' + a[i]; s = open(p).read()
        old = a[i + 1].encode().decode('unicode_escape'); new = a[i + 2].encode().decode('unicode_escape')
        n = s.count(old)
        if not n: print('NOT FOUND', old); sys.exit(2)
        open(p, 'w').write(s.replace(old, new, 1))
    for prop in sys.argv[1].split(','):
        r = subprocess.run(['python3', '/verif/check.py', prop], capture_output=True, text=True)
        print(prop, r.returncode, (r.stdout + r.stderr[-300:])[:600].strip())
finally:
    subprocess.run('git -C /repo checkout -- .', shell=True)
