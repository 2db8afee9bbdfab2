"""Make one seeded change: mkseed.py spec.py  (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(path, old, new)], DEMO='c++ source', SHIM=bool, FLAGS)
Applies the edits to /repo, builds, runs the stable tests and the demo, runs the property's check, restores /repo, writes seeded/<ID>."""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
g = {}
exec(open(sys.argv[1]).read(), g)
ID = g['ID']
D = f'{ROOT}/seeded/{ID}'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout.strip() == '', 'dirty repo'
os.makedirs(D, exist_ok=True)
open(f'{D}/demo.cpp', 'w').write(g['DEMO'])
shims = (['shim'] if g.get('SHIM') else []) + g.get('SHIMS', [])
shim = ' '.join(f'-I"$here/{x}"' for x in shims)
for x in shims:
    shutil.copytree(f'{ROOT}/{x}', f'{D}/{x}', dirs_exist_ok=True)
open(f'{D}/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
clang++-18 -std=c++20 {g.get('FLAGS', '-O1 -march=x86-64-v3')} -I"$PWD/src" {shim} "$here/demo.cpp" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
''')
os.chmod(f'{D}/demo.sh', 0o755)
json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'], what_it_breaks=g['BREAKS']), open(f'{D}/meta.json', 'w'), indent=1)
ok = True
try:
    r = sh(f'bash {D}/demo.sh', cwd='/repo')
    print('demo clean:', r.returncode, r.stdout[-300:])
    ok &= r.returncode == 0
    for path, old, new in g['EDITS']:
        p = f'/repo/{path}' if path.startswith('extra/') else f'/repo/src/neo/{path}'
        s = open(p).read()
        assert s.count(old) >= 1, f'not found: {old}'
        open(p, 'w').write(s.replace(old, new, 1))
    open(f'{D}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    r = sh(f'bash {D}/demo.sh', cwd='/repo')
    print('demo bug:', r.returncode, r.stdout[-300:])
    ok &= r.returncode not in (0, 2)
    r = sh('bash /opt/vp/build.sh')
    print('build', r.returncode, r.stdout[-300:] if r.returncode else '')
    ok &= r.returncode == 0
    if r.returncode == 0:
        r = sh('bash /opt/vp/test.sh /tmp/seed_test.json')
        t = json.load(open('/tmp/seed_test.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        fails = {k: v for k, v in t.items() if k != 'passed'} if isinstance(t, dict) else t
        print('test', r.returncode, str({k: (len(v) if hasattr(v, '__len__') else v) for k, v in t.items()})[:200])
        if 'failed' in t and t['failed']:
            print('FAILED', str(t['failed'])[:300])
            ok = False
    r = sh(f"python3 {ROOT}/checks/{g['PROPERTY']}.py quick")
    print('check', r.returncode, '\n'.join(r.stdout.splitlines()[:3])[:500])
finally:
    sh('git -C /repo checkout -- .')
print(ID, 'OK' if ok else 'BAD', 'CAUGHT' if r.returncode == 1 else 'MISSED')
