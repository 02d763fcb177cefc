#!/usr/bin/env python3
"""seed.py SPEC.py: plants the bugs a spec file lists: bug(id, prop, pkg, needs, breaks, edits=[(file, old, new)], demo)."""
import sys, os, json, subprocess
M = '/tmp/m/repo'
def bug(id, prop, pkg, needs, breaks, edits, demo):
    if len(sys.argv) > 2 and id not in sys.argv[2:]: return
    S = f'/verif/seeded/{id}'
    os.makedirs(S, exist_ok=True)
    subprocess.run(['git', '-C', M, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in edits:
        s = open(f'{M}/{f}').read()
        if s.count(old) < 1:
            print(id, 'edit not found in', f, repr(old[:60])); return
        s = s.replace(old, new, 1)
        open(f'{M}/{f}', 'w').write(s)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{S}/meta.json', 'w'), indent=1)
    open(f'{S}/pkg', 'w').write(pkg)
    open(f'{S}/demo_test.go', 'w').write(demo.lstrip())
    r = subprocess.run(['bash', '/verif/tools/mkseed.sh', id], capture_output=True, text=True)
    os.remove(f'{S}/pkg')
    print(r.stdout.strip(), r.stderr.strip())
exec(open(sys.argv[1]).read())
