#!/usr/bin/env python3
"""Development aid: python3 vf/mutate.py WORKERS PER_FUNCTION PROP... -- changes one operator, constant or statement at a time in the functions under contract (in scratch copies under /tmp/mu) and lists the changes no unit notices."""
import sys, os, re, random, shutil, subprocess, tempfile, time, json, concurrent.futures as cf
W, PER = int(sys.argv[1]), int(sys.argv[2]); props = sys.argv[3:]
rnd = random.Random(7)
SRC = [f for f in os.listdir('/repo/src') if f.endswith('.c') and f != 'os_windows.c']
def find(fn):
    for f in SRC:
        t = open('/repo/src/' + f).read()
        for m in re.finditer(r'^[A-Za-z_][^;{}\n#]*\b%s\([^;{}]*\)\s*\{' % re.escape(fn), t, re.M):
            e = t.index('\n}', m.end())
            return f, m.end(), e, t
    return None
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'), (r'--', '++'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.])1(?![\w.])', '2'), (r'\+=', '-='), (r'-=', '+='), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'!(?=[a-z])', '')]
def mutants(f, s, e, t):
    body = t[s:e]; out = []
    for a, b in OPS:
        for m in re.finditer(a, body):
            ls = body.rfind('\n', 0, m.start()) + 1; line = body[ls:body.find('\n', m.end())]
            if line.strip().startswith(('//', '*', '/*', '#')) or '"' in body[ls:m.start()]: continue
            out.append((s + m.start(), s + m.end(), b))
    for m in re.finditer(r'\n[ \t]+((?!return|break|continue|case|else|int |char |size_t |bool |void |ssize_t |for |while |if )[A-Za-z_*(][^;{}\n]*;)', body):
        out.append((s + m.start(1), s + m.end(1), ';'))
    for m in re.finditer(r'\bif \((.*)\)( \{)?\n', body):
        out.append((s + m.start(1), s + m.end(1), '0')); 
        out.append((s + m.start(1), s + m.end(1), '1'))
    rnd.shuffle(out)
    return out[:PER]
def worker(k, jobs, log):
    d = '/tmp/mu/w%d' % k
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', 'built', 'build'))
    shutil.copytree('/verif/vf', d + '/vf'); shutil.copytree('/verif/units', d + '/units')
    r = open(d + '/vf/runner.py').read().replace("REPO = '/repo'", "REPO = '%s/repo'" % d).replace("'/repo/", "'%s/repo/" % d)
    open(d + '/vf/runner.py', 'w').write(r)
    code = '''
import sys, json, time, tempfile, shutil
sys.path.insert(0, %r)
import runner as R
for l in sys.stdin:
    j = json.loads(l); us = [u for u in R.load_units() if u['prop'] == j['prop'] and j['fn'] in u.get('functions', []) and not u.get('thorough_only') and u.get('kind') != 'finding']
    got = 'SURVIVED'; notes = []
    for u in us:
        wd = tempfile.mkdtemp(prefix='vfmu-')
        try:
            r = R.do_unit(u, 'quick', 1, wd, time.time() + 120)
            if r['status'] not in ('ok', 'held', 'proved', 'bounded', 'pass'):
                notes.append(u['name'] + ':' + r['status'] + ' ' + str(r.get('note', ''))[:100])
                if r['status'].startswith('viol'): got = 'killed'; break
        except Exception as e: notes.append(repr(e)[:200])
        finally: shutil.rmtree(wd, ignore_errors=True)
    if got != 'killed' and notes: got = 'UNDECIDED'
    print(json.dumps([got, notes]), flush=True)
''' % (d + '/vf')
    open(d + '/go.py', 'w').write(code)
    p = subprocess.Popen([sys.executable, d + '/go.py'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(d + '/err', 'w'), text=True)
    while True:
        try: j = jobs.pop()
        except IndexError: break
        path = d + '/repo/src/' + j['f']; t = j['t']
        open(path, 'w').write(t[:j['a']] + j['b'] + t[j['e']:])
        p.stdin.write(json.dumps({'prop': j['prop'], 'fn': j['fn']}) + '\n'); p.stdin.flush()
        o = p.stdout.readline()
        open(path, 'w').write(t)
        got, notes = json.loads(o) if o else ('CRASH', [])
        ln = t.count('\n', 0, j['a']) + 1
        line = t.split('\n')[ln - 1].strip()
        log.write('%s %s %s %s:%d  [%s -> %s]  %s  %s\n' % (got, j['prop'], j['fn'], j['f'], ln, t[j['a']:j['e']], j['b'], line, notes if got != 'killed' else '')); log.flush()
    p.stdin.close(); p.wait()
sys.path.insert(0, '/verif/vf')
import runner as R
jobs = []
for p in props:
    seen = set()
    for u in R.load_units():
        if u['prop'] != p: continue
        for fn in u.get('functions', []):
            if fn in seen: continue
            seen.add(fn); x = find(fn)
            if not x: print('not found', fn); continue
            f, s, e, t = x
            for a, b, c in mutants(f, s, e, t): jobs.append({'prop': p, 'fn': fn, 'f': f, 't': t, 'a': a, 'e': b, 'b': c})
rnd.shuffle(jobs)
print(len(jobs), 'changes')
log = open('/tmp/mu/log.%s' % '_'.join(props)[:60], 'w')
with cf.ThreadPoolExecutor(W) as ex:
    for f in [ex.submit(worker, k + (os.getpid() % 1000) * 10, jobs, log) for k in range(W)]: f.result()
