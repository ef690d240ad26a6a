#!/usr/bin/env python3
"""Development aid: one verifier run of named units, all failed obligations printed."""
import sys, os, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import runner as R
prop = sys.argv[1]
for u in R.load_units():
    if u['prop'] == prop and (u['name'] in sys.argv[2:] or u['name'].split('/')[0] in sys.argv[2:]):
        wd = tempfile.mkdtemp(prefix='vftry-')
        v = {'label': u.get('kind', 'proof')}
        if os.environ.get('FB'):
            v.update(u.get('fallback', {})); v['noloops'] = True
        try:
            d = R.decide(u, v, wd, time.time() + int(os.environ.get('T', '300')))
            print(u['name'], d['verdict'], d['why'], '%ss solver %ss' % (d['time'], d['solver_s']), '%s/%s' % (d['discharged'], d['obligations']), d.get('reach'))
            for x in d.get('bad', [])[:40]:
                print('   ', R.failed_name(x))
        except (R.Build, R.Structural) as e:
            print(u['name'], repr(e)[-700:].replace('\\n', '\n'))
        if not os.environ.get('VF_KEEP'):
            R.shutil.rmtree(wd)
        else:
            print(wd)
