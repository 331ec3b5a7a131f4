#!/usr/bin/env python3
"""seed.py fill <id>...: complete a planted bug's folder; seed.py test <id>...: confirm it in /repo (build, tests, demo, checks)."""
import sys, os, json, shutil, subprocess, time
V = '/verif'
def sh(c, **k): return subprocess.run(c, capture_output=True, text=True, **k)
def fill(i):
    d = f'{V}/seeded/{i}'
    extra = open(f'{d}/extra.toml').read() if os.path.exists(f'{d}/extra.toml') else ''
    s = open(f'{V}/tools/demo.sh.in').read().replace('@EXTRA@', extra.strip())
    open(f'{d}/demo.sh', 'w').write(s); os.chmod(f'{d}/demo.sh', 0o755)
    shutil.copy(f'{V}/harness/{"nat" if "native" in extra else "chk"}/Cargo.lock', f'{d}/demo.lock')
def tests():
    r = sh(['bash', '/opt/vp/build.sh'])
    if r.returncode: return 'build fails: ' + r.stderr[-600:]
    sh(['bash', '/opt/vp/test.sh', '/tmp/seed-t.json'])
    t = json.load(open('/tmp/seed-t.json')); b = json.load(open('/opt/vp/BASELINE.json'))
    st = b.get('stable') or b.get('passed') or b
    miss = [x for x in st if x not in t['passed']]
    return None if not miss else 'tests fail: ' + str(miss[:5])
def demo(i):
    r = sh(['bash', f'{V}/seeded/{i}/demo.sh'], cwd='/repo', env=dict(os.environ, DEMO_TARGET='/tmp/demo-target'))
    return r.returncode, (r.stdout + r.stderr).strip()[-300:]
def test(i, checks=True, full=True):
    d = f'{V}/seeded/{i}'; m = json.load(open(f'{d}/meta.json'))
    out = {}
    out['demo-clean'] = demo(i)
    r = sh(['git', '-C', '/repo', 'apply', f'{d}/patch.diff'])
    if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); return
    try:
        if full: out['tests'] = tests()
        out['demo-bug'] = demo(i)
        if checks:
            for p in [m['property']] + m.get('also', []):
                t = time.time(); r = sh([f'{V}/run.sh', p, 'quick'], env=dict(os.environ, VERIF_SEED='1'))
                v = [l for l in r.stdout.split('\n') if 'facet=' in l]
                out['check ' + p] = (r.returncode, round(time.time() - t), v[:3] or (r.stdout + r.stderr)[-200:])
    finally:
        sh(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    ok = out['demo-clean'][0] == 0 and out['demo-bug'][0] != 0 and out.get('tests') is None
    caught = out.get('check ' + m['property'], (None,))[0] == 1
    print(i, 'VALID' if ok else 'INVALID', 'CAUGHT' if caught else 'MISSED' if checks else '', flush=True)
    for k, v in out.items():
        if not (ok and caught) or k.startswith('check'): print('    ', k, str(v)[:500], flush=True)
cmd, ids = sys.argv[1], sys.argv[2:]
if not ids: ids = sorted(os.listdir(f'{V}/seeded'))
for i in ids:
    if cmd == 'fill': fill(i)
    elif cmd == 'test': fill(i); test(i)
    elif cmd == 'quick': test(i, full=False)
    elif cmd == 'demo': print(i, demo(i))
