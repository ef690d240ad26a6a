#!/usr/bin/env python3
"""Development aid: python3 vf/seed.py test ID [nocheck] -- applies seeded/ID to /repo, builds, runs the stable tests, the demo and the check, and undoes it.
python3 vf/seed.py new ID PROP  -- takes the current uncommitted change of /repo as the patch (and reverts it)."""
import sys, os, subprocess, json
V='/verif/seeded/'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
cmd, i = sys.argv[1], sys.argv[2]
d = V + i
if cmd == 'new':
    os.makedirs(d, exist_ok=True)
    p = sh('git -C /repo diff').stdout
    assert p.strip(), 'no change'
    open(d + '/patch.diff', 'w').write(p)
    sh('git -C /repo checkout -- .')
    sys.exit()
def restore():
    sh('git -C /repo checkout -- .'); r = sh('bash /opt/vp/build.sh')
    assert r.returncode == 0
try:
    restore()
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    print('demo on clean tree', r.returncode, r.stdout[-300:], r.stderr[-600:])
    a = sh('git -C /repo apply %s/patch.diff' % d); print('apply', a.returncode, a.stderr)
    b = sh('bash /opt/vp/build.sh'); print('build', b.returncode, b.stdout[-500:] if b.returncode else '')
    t = sh('bash /opt/vp/test.sh /tmp/st.json'); o = json.load(open('/tmp/st.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    ps = o.get('passed', o.get('pass', o))
    print('missing stable tests:', [x for x in base if x not in ps])
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    print('demo on patched tree', r.returncode, r.stdout[-300:], r.stderr[-600:])
    if len(sys.argv) < 4:
        m = json.load(open(d + '/meta.json'))
        r = sh('cd /verif && VERIF_SEED=1 timeout 900 python3 vf/runner.py %s quick' % m['property']); print('check', r.returncode); print('\n'.join(l for l in r.stdout.splitlines() if 'VIOL' in l or 'failed obl' in l or 'UNDEC' in l or l.startswith('C')), r.stderr[-300:])
finally:
    restore()
