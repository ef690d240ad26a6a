#!/usr/bin/env python3
"""Contract runner: discharges the contracts of one property against /repo's
current sources with goto-cc / goto-instrument --dfcc / cbmc, and replays
counterexamples natively.  See DESIGN.md."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, time, tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CFLAGS = ['-std=gnu90', '-DUSE_DEBUG', '-DENABLE_ASSERTS', '-fno-strict-aliasing', '-w',
          '-include', '/opt/vp/notls/notls.h', '-I' + REPO + '/src', '-I' + REPO + '/include',
          '-I' + VERIF + '/vf', '-I' + VERIF + '/units']
CBMC_TIMEOUT = int(os.environ.get('VF_TIMEOUT', '420'))


def sh(cmd, timeout=None, cwd=None):
    """Returns (rc, stdout, stderr, seconds); rc None on time-out."""
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t


def load_units():
    units = []
    for f in sorted(glob.glob(VERIF + '/units/*.c')):
        src = open(f).read()
        m = re.search(r'/\*@vf(.*?)@\*/', src, re.S)
        if not m:
            continue
        for u in tomllib.loads(m.group(1)).get('unit', []):
            u['file'] = f
            u.setdefault('name', u['entry'].replace('harness_', ''))
            if u.get('each'):
                # one unit split by cases; the cases are exhaustive by construction
                for c in u['each'].split() + ['*' + x for x in u.get('thorough_each', '').split()]:
                    v = dict(u)
                    if c[0] == '*':
                        c = c[1:]
                        v['thorough_only'] = True
                    c, _, unw = c.partition('!')
                    if unw:
                        v['unwind'] = int(unw)
                    v['defs'] = u.get('defs', []) + c.split(',')
                    v['name'] = u['name'] + '/' + c
                    units.append(v)
            else:
                units.append(u)
    return units


class Build(Exception):
    pass


class Structural(Exception):
    pass


def resolve_loops(u, gb, wd):
    """Loop contracts are attached to the real function mechanically by
    (function, loop number); the names in them are resolved in the goto
    program's symbol table.  A name that is no longer there, or a loop that is
    no longer there, is a structural mismatch, never a violation."""
    rc, o, e, _ = sh(['goto-instrument', '--show-symbol-table', '--json-ui', gb], 120)
    syms = {}
    for x in json.loads(o):
        if isinstance(x, dict) and 'symbolTable' in x:
            syms = x['symbolTable']
    rc, o, e, _ = sh(['goto-instrument', '--show-loops', gb], 120)
    funcs = {}
    for l in u['loops']:
        fn = l['fn']
        nloops = len(re.findall(r'^Loop %s\.\d+:' % re.escape(fn), o, re.M))
        want = l.get('of')
        if l['id'] >= nloops or (want and nloops != want):
            raise Structural('%s has %d loops, contract names loop %d' % (fn, nloops, l['id']))
        smap = {}
        text = ' '.join([l.get('inv', ''), l.get('assigns', ''), l.get('dec', '')])
        for ident in set(re.findall(r'(?<![\w.>])[A-Za-z_]\w*', text)):
            if ident.startswith('__CPROVER') or ident in ('sizeof', 'char', 'int', 'size_t', 'uint8_t', 'unsigned', 'const', 'void', 'bool', 'long'):
                continue
            loc = [s for s in syms if s.startswith(fn + '::') and s.split('::')[-1] == ident]
            if len(loc) > 1:
                # the loop's own scope is ambiguous: keep the shallowest
                loc.sort(key=lambda s: s.count('::'))
            if loc:
                smap[ident] = loc[0]
            elif ident in syms:
                smap[ident] = ident
            else:
                raise Structural('%s: no symbol %s for the invariant of loop %d' % (fn, ident, l['id']))
        ent = {'loop_id': str(l['id']), 'invariants': l['inv'], 'symbol_map': ';'.join('%s,%s' % kv for kv in smap.items())}
        if 'assigns' in l:
            ent['assigns'] = l['assigns']
        if 'dec' in l:
            ent['decreases'] = l['dec']
        funcs.setdefault(fn, []).append(ent)
    p = wd + '/loops.json'
    json.dump({'sources': [u['file']], 'functions': [funcs], 'output': 'stdout'}, open(p, 'w'))
    return p


def build(u, wd, variant):
    gb = wd + '/a.gb'
    defs = ['-DH_' + u['entry'].replace('harness_', '')] + ['-D' + d for d in u.get('defs', []) + variant.get('defs', [])]
    entry = u['entry']
    rc, o, e, _ = sh(['goto-cc'] + CFLAGS + defs + ['--function', entry, u['file'], '-o', gb], 120)
    if rc != 0:
        raise Build('goto-cc failed:\n' + (o + e)[-3000:])
    use_loops = bool(u.get('loops')) and not variant.get('noloops')
    # functions given a stub body by the harness: the real body is removed and
    # calls are redirected to the stub
    if u.get('lib'):    # the verifier's libc models first: needed where a function pointer may also be one of them
        rc, o, e, _ = sh(['goto-instrument', '--add-library', '--no-malloc-may-fail', gb, wd + '/a0.gb'], 120)
        if rc != 0:
            raise Build('goto-instrument (library) failed:\n' + (o + e)[-3000:])
        gb = wd + '/a0.gb'
    pre = []
    if u.get('stub'):
        # fn:stub
        for s in u['stub']:
            a, b = s.split(':')
            if a.encode() in open(gb, 'rb').read():     # no longer there: nothing to replace
                pre += ['--replace-calls', a + ':' + b]
    if pre:
        rc, o, e, _ = sh(['goto-instrument'] + pre + [gb, wd + '/a1.gb'], 120)
        if rc != 0:
            raise Build('goto-instrument (stubs) failed:\n' + (o + e)[-3000:])
        gb = wd + '/a1.gb'
    if u.get('restrict'):
        a = []
        for r in u['restrict']:
            a += ['--restrict-function-pointer', r]
        rc, o, e, _ = sh(['goto-instrument'] + a + [gb, wd + '/a2.gb'], 120)
        if rc != 0:
            raise Build('goto-instrument (fp) failed:\n' + (o + e)[-3000:])
        gb = wd + '/a2.gb'
    if u.get('fponly'):
        # calls through pointers reach the unit's own functions only; any other
        # candidate loses its body, and reaching it leaves the unit undecided
        rc, o, e, _ = sh(['goto-instrument', '--remove-function-pointers', gb, wd + '/a25.gb'], 120)
        if rc != 0:
            raise Build('goto-instrument (pointers) failed:\n' + (o + e)[-3000:])
        gb = wd + '/a25.gb'
        rc, o, e, _ = sh(['goto-instrument', '--show-goto-functions', gb], 120)
        own = open(u['file']).read() + ''.join(open(os.path.dirname(u['file']) + '/' + h).read() for h in re.findall(r'#include "(\w+\.h)"', open(u['file']).read()) if os.path.exists(os.path.dirname(u['file']) + '/' + h))
        cand = {x for x in re.findall(r'IF [^\n]*?= (?:cast\()?address_of\((\w+)\)', o) if not re.search(r'\b%s\(' % x, own) and not any(f.split()[0] == x for f in u['functions'])}
        a = []
        for x in sorted(cand):
            a += ['--remove-function-body', x]
        if a:
            rc, o, e, _ = sh(['goto-instrument'] + a + [gb, wd + '/a3.gb'], 120)
            if rc != 0:
                raise Build('goto-instrument (candidates) failed:\n' + (o + e)[-3000:])
            gb = wd + '/a3.gb'
    if u.get('plain'):
        rc, o, e, _ = sh(['goto-instrument', '--drop-unused-functions', gb, wd + '/b.gb'], 120)
        if rc != 0:
            raise Build('goto-instrument failed:\n' + (o + e)[-3000:])
        gb = wd + '/b.gb'
    else:
        cmd = ['goto-instrument']
        if use_loops:
            lp = resolve_loops(u, gb, wd)
            cmd += ['--loop-contracts-file', lp]
        cmd += ['--dfcc', entry]
        for c in u.get('enforce', []):
            cmd += ['--enforce-contract', c]
        for c in u.get('replace', []):
            cmd += ['--replace-call-with-contract', c]
        if use_loops:
            cmd += ['--apply-loop-contracts', '--loop-contracts-no-unwind'] if u.get('noun') else ['--apply-loop-contracts']
        cmd += [gb, wd + '/b.gb']
        rc, o, e, _ = sh(cmd, 300)
        if rc != 0:
            msg = (o + e)[-3000:]
            if use_loops:
                raise Structural('loop contracts not applicable:\n' + msg)
            raise Build('goto-instrument failed:\n' + msg)
        gb = wd + '/b.gb'
    return gb


def cbmc_cmd(u, variant, gb):
    cmd = ['cbmc', gb, '--slice-formula', '--no-malloc-may-fail']
    unw = variant.get('unwind', u.get('unwind'))
    if unw:
        cmd += ['--unwind', str(unw)]
    us = variant.get('unwindset', u.get('unwindset'))
    if us:
        cmd += ['--unwindset', us]
    cmd += u.get('cbmc', [])
    be = variant.get('backend', '' if variant.get('label') == 'bounded' and u.get('kind') != 'bounded' else u.get('backend', ''))
    cmd += be.split()
    return cmd


def run_cbmc(u, variant, gb, extra=(), timeout=CBMC_TIMEOUT):
    rc, o, e, t = sh(cbmc_cmd(u, variant, gb) + ['--json-ui'] + list(extra), timeout)
    res = {'rc': rc, 'time': t, 'results': None, 'msgs': [], 'solver': 0.0, 'backend': 'SAT'}
    if rc is None:
        return res
    try:
        d = json.loads(o)
    except ValueError:
        res['msgs'] = [(o + e)[-2000:]]
        return res
    for x in d:
        if 'result' in x:
            res['results'] = x['result']
        if 'messageText' in x:
            mt = x['messageText']
            if x.get('messageType') == 'ERROR':
                res['msgs'].append(mt)
            m = re.search(r'Runtime Solver: ([\d.e+-]+)s', mt)
            if m:
                res['solver'] += float(m.group(1))
            m = re.search(r'Solving with (.*)', mt) or re.search(r'(?:Running|Passing problem to) (SMT2 .*)$', mt)
            if m:
                res['backend'] = m.group(1)[:60]
    return res


def leaves(path, v, out):
    """leaf path -> (bytes, text) of a CBMC JSON value"""
    if 'members' in v:
        for m in v['members']:
            if not m['name'].startswith('$pad'):
                leaves(path + '.' + m['name'], m['value'], out)
    elif 'elements' in v:
        for m in v['elements']:
            leaves('%s[%d]' % (path, m['index']), m['value'], out)
    else:
        b = v.get('binary')
        if b is None:
            out[path] = (b'\0' * 8, v.get('data'))
            return
        val = int(b, 2)
        if v.get('data') in ('TRUE', 'FALSE'):
            val = 1 if val else 0
        out[path] = (val.to_bytes(max(1, len(b) // 8), 'little'), v.get('data'))


def trace_inputs(result):
    out = {}
    for s in result.get('trace', []):
        if s.get('stepType') != 'assignment' or not s.get('sourceLocation', {}).get('function'):
            continue
        lhs = re.sub(r'\[(\d+)[ul]*\]', r'[\1]', s.get('lhs', ''))
        if lhs == 'vf_any' or lhs.startswith('vf_any.') or lhs.startswith('vf_any['):
            lhs = 'IN' + lhs[6:]
        if (lhs == 'IN' or re.match(r'IN[.\[]', lhs)) and '$pad' not in lhs and 'byte_extract' not in lhs:
            leaves(lhs, s['value'], out)
    return out or None


def compact(v):
    if 'members' in v:
        return {m['name']: compact(m['value']) for m in v['members'] if not m['name'].startswith('$pad')}
    if 'elements' in v:
        return [compact(m['value']) for m in v['elements']]
    return v.get('data')


def native_build(u, wd, variant, ub=False, setfile=None):
    exe = wd + ('/native_ub' if ub else '/native_set' if setfile else '/native')
    defs = ['-DH_' + u['entry'].replace('harness_', '')] + ['-D' + d for d in u.get('defs', []) + variant.get('defs', []) + u.get('ndefs', [])]
    if setfile:
        defs.append('-DVF_SETFILE="%s"' % setfile)
    san = '-fsanitize=address' + (',undefined' if ub else '')
    cc = ['gcc', '-g', '-O1'] + CFLAGS + ['-DVF_NATIVE', '-DVF_ENTRY=' + u['entry'], san, '-fno-sanitize-recover=all', '-fno-common']
    objs = []
    for f in (u['file'], VERIF + '/vf/native_main.c'):
        ob = exe + '-' + os.path.basename(f) + '.o'
        if u.get('stub') and f == u['file']:
            # the same call replacements as in the verifier run, made in the assembly
            asm = exe + '.s'
            rc, o, e, _ = sh([x if x != '-O1' else '-O0' for x in cc] + defs + ['-fno-inline', '-fkeep-static-functions', '-Dalways_inline=noinline', '-S', f, '-o', asm], 120)
            if rc != 0:
                return None, (o + e)[-2000:]
            m = dict(x.split(':') for x in u['stub'])
            t = open(asm).read()
            t = re.sub(r'(?m)^(\s+(?:call|jmp)\s+)(%s)(@PLT)?$' % '|'.join(m), lambda k: k.group(1) + m[k.group(2)], t)
            open(asm, 'w').write(t)
            rc, o, e, _ = sh(['gcc', '-c', asm, '-o', ob], 120)
        else:
            rc, o, e, _ = sh(cc + defs + ['-c', f, '-o', ob], 120)
        if rc != 0:
            return None, (o + e)[-2000:]
        objs.append(ob)
    link = ['gcc', san] + objs + ['-o', exe, '-Wl,--warn-unresolved-symbols', '-lpthread', '-latomic', '-ldl'] + u.get('nflags', [])
    rc, o, e, _ = sh(link, 120)
    und = sorted(set(re.findall(r"undefined reference to `([A-Za-z_]\w*)'", o + e)))
    if rc == 0 and und:
        # functions outside the unit: reaching one ends the replay unconfirmed
        open(exe + '-und.c', 'w').write('extern void _exit(int);\n' + ''.join('void %s(void) { _exit(96); }\n' % x for x in und))
        rc, o, e, _ = sh(link[:2] + ['-w', '-fno-builtin', exe + '-und.c'] + link[2:], 120)
    return (exe if rc == 0 else None), (o + e)[-2000:]


OKEXIT = (0, 77, 96, 97, 98, 99)


def native_run(exe, args, timeout):
    os.environ['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0'
    rc, o, e, t = sh([exe] + args, timeout)
    return rc, (o + e)[-3000:]


def failed_name(r):
    loc = r.get('sourceLocation', {})
    return '%s [%s] %s:%s %s' % (r.get('description', ''), r.get('property', ''), os.path.basename(loc.get('file', '?')), loc.get('line', '?'), loc.get('function', ''))


def classify(results):
    ok, bad, unw, reach, reach_bad, unk, nobody = [], [], [], [], [], [], []
    for r in results:
        d = r.get('description', '')
        st = r.get('status')
        if d.startswith('REACH:') or ' REACH:' in d:
            (reach if st == 'FAILURE' else reach_bad).append(r)
        elif st == 'SUCCESS':
            ok.append(r)
        elif st == 'FAILURE':
            if 'single_top_level_call' in r.get('property', ''):
                unk.append(r)
            elif d.startswith('no body for') or 'no-body' in r.get('property', ''):
                nobody.append(r)
            elif d.startswith('BOUND:') or 'unwinding assertion' in d or 'recursion' in r.get('property', ''):
                unw.append(r)
            else:
                bad.append(r)
        else:
            unk.append(r)
    return ok, bad, unw, reach, reach_bad, unk, nobody


def prio(r):
    d = r.get('description', '')
    p = r.get('property', '')
    if d.startswith('CHECK'):
        return 0
    if 'postcondition' in p or 'ensures' in d:
        return 1
    if 'assigns' in p:
        return 3
    return 2


def decide(u, variant, wd, deadline):
    """One verifier run of a unit.  verdict in proved / failed / undecided."""
    os.makedirs(wd, exist_ok=True)
    out = {'variant': variant.get('label', 'proof'), 'verdict': 'undecided', 'why': '', 'obligations': 0, 'discharged': 0, 'solver_s': 0, 'time': 0}
    gb = build(u, wd, variant)
    to = max(20, min(variant.get('timeout', u.get('timeout', CBMC_TIMEOUT)), deadline - time.time()))
    r = run_cbmc(u, variant, gb, timeout=to)
    out['time'] = round(r['time'], 2)
    out['solver_s'] = round(r['solver'], 2)
    out['backend'] = r['backend']
    out['cmd'] = ' '.join(cbmc_cmd(u, variant, os.path.basename(gb)))
    if r['results'] is None:
        out['why'] = 'verifier gave no result (%s) %s' % ('time-out %ds' % to if r['rc'] is None else 'rc %s' % r['rc'], ' '.join(r['msgs'])[-500:])
        return out
    ok, bad, unw, reach, reach_bad, unk, nobody = classify(r['results'])
    if nobody:
        # a callee this unit has neither a contract nor a body for: its result
        # is arbitrary, so nothing that fails after it is a violation
        out['why'] = 'calls outside the unit: ' + ', '.join(sorted(set(x.get('description', '') for x in nobody)))[:400]
        return out
    out['obligations'] = len(ok) + len(bad) + len(unw) + len(unk)
    out['discharged'] = len(ok)
    out['reach'] = '%d/%d' % (len(reach), len(reach) + len(reach_bad))
    byf = {}
    for x in ok:
        fn = x.get('sourceLocation', {}).get('function', '?')
        byf[fn] = byf.get(fn, 0) + 1
    out['byfn'] = byf
    out['samples'] = [failed_name(x) for x in sorted(ok, key=prio)[:3]]
    if bad:
        out['verdict'] = 'failed'
        out['bad'] = sorted(bad, key=prio)
        out['gb'] = gb
        return out
    if unw:
        out['why'] = 'unwinding bound not sufficient: ' + '; '.join(x['property'] for x in unw[:4])
        out['unwinding'] = True
        out['gb'] = gb
        return out
    if unk:
        out['why'] = 'verifier: unknown'
        return out
    if reach_bad or not out['obligations']:
        out['why'] = 'vacuous: ' + '; '.join(x['description'] for x in reach_bad) if reach_bad else 'no obligations'
        return out
    out['verdict'] = 'proved'
    return out


def confirm(u, variant, d, wd, deadline):
    """Counterexample of a failed run, replayed on the natively compiled real code."""
    info = {'obligations': [failed_name(x) for x in d['bad'][:8]], 'confirmed': False, 'native': ''}
    exe, err = native_build(u, wd, variant)
    if not exe:
        info['native'] = 'native build failed: ' + err
    tried = 0
    for r in d['bad'][:6]:
        if time.time() > deadline - 15:
            break
        extra = ['--trace', '--property', r['property']]
        t = run_cbmc(u, variant, d['gb'], extra, timeout=max(20, min(240, deadline - time.time())))
        rr = [x for x in (t['results'] or []) if x.get('property') == r['property']]
        if not rr:
            continue
        v = trace_inputs(rr[0])
        if 'verifier' not in info:
            st = [s for s in rr[0].get('trace', []) if s.get('stepType') == 'assignment' and not s.get('hidden')][-12:]
            info['verifier'] = {'obligation': failed_name(r), 'last_assignments': ['%s = %s (%s:%s)' % (s.get('lhs'), str(compact(s['value']))[:120], os.path.basename(s.get('sourceLocation', {}).get('file', '?')), s.get('sourceLocation', {}).get('line', '?')) for s in st]}
        if v is None or not exe:
            continue
        tried += 1
        p = '%s/in%d.bin' % (wd, tried)
        sf = '%s/set%d.h' % (wd, tried)
        open(sf, 'w').write('#define VF_SETS ' + ' '.join('VF_B(%s, %s)' % (k, ','.join(str(c) for c in b)) for k, (b, _) in v.items()) + '\n')
        exs, er = native_build(u, wd, variant, setfile=sf)
        if not exs:
            info['native'] = 'inputs not expressible natively: ' + er[-500:]
            continue
        native_run(exs, ['set', p], 20)
        if not os.path.exists(p):
            continue
        raw = open(p, 'rb').read()
        rc, o = native_run(exe, ['replay', p], 40)
        used = exe
        if rc == 0 and re.search(r'overflow|shift|division', r.get('description', '') + r.get('property', '')):
            exu, _ = native_build(u, wd, variant, ub=True)
            if exu:
                rc, o = native_run(exu, ['replay', p], 40)
                used = exu
        info.setdefault('replays', []).append({'obligation': failed_name(r), 'rc': rc, 'out': o[-600:]})
        if rc not in OKEXIT:
            info.update(confirmed=True, native=o, rc=rc, inputs={k: t for k, (_, t) in v.items()}, raw=raw.hex(), obligation=failed_name(r), how='verifier counterexample replayed')
            return info
    return info


def search(u, variant, wd, seed, seconds):
    exe, err = native_build(u, wd, variant)
    if not exe:
        return None
    p = wd + '/found.bin'
    rc, o = native_run(exe, ['search', str(seed), str(seconds), p], seconds + 60)
    if rc == 1 and os.path.exists(p):
        rc2, o2 = native_run(exe, ['replays', p], 40)
        if rc2 not in OKEXIT:
            return {'confirmed': True, 'native': o2, 'rc': rc2, 'raw': open(p, 'rb').read().hex(), 'how': 'native search after a failed obligation'}
    return None


def do_unit(u, tier, seed, root, deadline):
    wd = os.path.join(root, u['name'].replace('/', '-').replace(',', '-'))
    os.makedirs(wd, exist_ok=True)
    res = {'unit': u['name'], 'kind': u.get('kind', 'proof'), 'status': 'undecided', 'runs': [], 'note': ''}
    base = {'label': u.get('kind', 'proof')}
    if tier == 'thorough' and u.get('thorough'):
        base.update(u['thorough'])
    if u.get('kind') == 'finding':
        return do_finding(u, base, wd, res)
    variants = [base]
    try:
        try:
            d = decide(u, base, wd + '/p', deadline)
        except Structural as s:
            d = {'variant': 'proof', 'verdict': 'undecided', 'why': 'structural: ' + str(s), 'structural': True, 'obligations': 0, 'discharged': 0, 'solver_s': 0, 'time': 0}
        res['runs'].append(d)
        loop_unit = bool(u.get('loops'))
        if d['verdict'] == 'proved':
            res['status'] = 'bounded' if u.get('kind') == 'bounded' else 'proved'
            return res
        if d['verdict'] == 'failed' and not loop_unit:
            info = confirm(u, base, d, wd + '/p', deadline)
            if not info['confirmed']:
                f = search(u, base, wd + '/p', seed, 20)
                if f:
                    info.update(f)
            res['status'] = 'violated'
            res['info'] = info
            return res
        # loop-contract proof failed, or the proof is undecided: the bounded
        # run of the same contract, with the loops unrolled, decides
        fb = dict(u.get('fallback', {}))
        if fb or loop_unit or d.get('unwinding'):
            v = {'label': 'bounded', 'noloops': True}
            v.update(base if not loop_unit else {})
            v.update(fb)
            v['label'] = 'bounded'
            v['noloops'] = True
            if d.get('unwinding') and 'unwind' not in fb:
                v['unwind'] = int(u.get('unwind', 8)) * 2 + 2
                v.pop('unwindset', None)
            d2 = decide(u, v, wd + '/b', deadline)
            res['runs'].append(d2)
            if d2['verdict'] == 'failed':
                info = confirm(u, v, d2, wd + '/b', deadline)
                if not info['confirmed']:
                    f = search(u, v, wd + '/b', seed, 20)
                    if f:
                        info.update(f)
                res['status'] = 'violated'
                res['info'] = info
                return res
            if d['verdict'] == 'failed':
                f = search(u, v, wd + '/b', seed, 25)
                if f:
                    f['obligations'] = [failed_name(x) for x in d['bad'][:8]]
                    res['status'] = 'violated'
                    res['info'] = f
                    return res
            if d2['verdict'] == 'proved':
                res['status'] = 'bounded'
                res['note'] = 'loop-contract proof not discharged on this tree (%s); the same contract holds with loops unrolled to the bound' % (d['why'] or '; '.join(failed_name(x) for x in d.get('bad', [])[:3]))
                return res
            if d2.get('unwinding'):
                f = search(u, v, wd + '/b', seed, 20)
                if f:
                    f['obligations'] = [d2['why']]
                    res['status'] = 'violated'
                    res['info'] = f
                    return res
            res['note'] = 'undecided: %s / %s' % (d['why'], d2['why'])
            return res
        res['note'] = d['why']
        if not d.get('structural') and not d['why'].startswith('vacuous'):
            # undecided by the verifier: only a failing run of the real code counts
            f = search(u, base, wd + '/p', seed, 15)
            if f:
                f['obligations'] = ['undecided by the verifier: ' + d['why'][:200]]
                res['status'] = 'violated'
                res['info'] = f
        return res
    except (Build, Structural) as b:
        res['note'] = 'cannot be built: ' + str(b)
        res['nobuild'] = True
        return res


def do_finding(u, base, wd, res):
    """A recorded genuine defect: the failing input is run against the real code."""
    os.makedirs(wd, exist_ok=True)
    exe, err = native_build(u, wd, base)
    if not exe:
        res['note'] = 'native build failed: ' + err
        res['status'] = 'finding-nobuild'
        return res
    open(wd + '/z.bin', 'wb').close()
    rc, o = native_run(exe, ['replay', wd + '/z.bin'], 40) if False else native_run_entry(exe, wd)
    res['status'] = 'finding-present' if rc not in OKEXIT else 'finding-absent'
    res['note'] = o[-500:]
    return res


def native_run_entry(exe, wd):
    rc, o = native_run(exe, ['finding'], 40)
    return rc, o


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    limit = 820 if tier == 'quick' else 3000
    deadline = t0 + limit
    units = [u for u in load_units() if u['prop'] == prop and (not only or u['name'] in only)]
    if not units:
        print('no units for', prop)
        sys.exit(2)
    if tier != 'thorough':
        units = [u for u in units if not u.get('thorough_only')]
    kf = json.load(open(VERIF + '/known_findings.json')) if os.path.exists(VERIF + '/known_findings.json') else {'findings': []}
    root = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    results = []
    try:
        units.sort(key=lambda u: -u.get('weight', 1))
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            futs = [ex.submit(do_unit, u, tier, seed, root, deadline) for u in units]
            for u, f in zip(units, futs):
                try:
                    r = f.result()
                except Exception as e:          # a bug of the runner is an error of the check
                    import traceback
                    traceback.print_exc()
                    r = {'unit': u['name'], 'status': 'undecided', 'note': 'runner: %r' % e, 'runs': [], 'kind': u.get('kind', 'proof')}
                results.append((u, r))
    finally:
        if not os.environ.get('VF_KEEP'):
            shutil.rmtree(root, ignore_errors=True)
        else:
            print('kept', root)
    sys.exit(report(prop, tier, seed, t0, results, kf, only))


def report(prop, tier, seed, t0, results, kf, only):
    ev = {'property': prop, 'tier': tier, 'seed': seed}
    tot = {'proved': [0, 0], 'bounded': [0, 0]}
    rep = []
    bounded, undecided = [], []
    viol = 0
    trusted, functions = set(), {}
    solver = 0.0
    backends = set()
    for u, r in sorted(results, key=lambda x: x[1]['unit']):
        last = r['runs'][-1] if r['runs'] else {}
        st = r['status']
        for d in r['runs']:
            solver += d.get('solver_s', 0)
            if d.get('backend'):
                backends.add(d['backend'])
        if st in ('proved', 'bounded'):
            k = tot[st]
            k[0] += last['obligations']
            k[1] += last['discharged']
        for t in u.get('trusted', []):
            trusted.add(t)
        for f in u.get('functions', []):
            functions.setdefault(f, []).append('%s (%s)' % (r['unit'], st))
        ent = {'unit': r['unit'], 'what': u.get('what', ''), 'status': st, 'obligations': last.get('obligations', 0),
               'discharged': last.get('discharged', 0), 'reachability_guards': last.get('reach', ''), 'solver_s': last.get('solver_s', 0),
               'wall_s': last.get('time', 0), 'backend': last.get('backend', '')}
        if u.get('bound') and st == 'bounded':
            ent['bound'] = u['bound']
        if r.get('note'):
            ent['note'] = r['note'][:800]
        if last.get('samples'):
            ent['samples'] = last['samples']
        rep.append(ent)
        if st == 'bounded':
            bounded.append(r['unit'])
        if st == 'undecided':
            undecided.append(r['unit'])
            print('UNDECIDED unit=%s %s' % (r['unit'], r['note'][:1500].replace('\n', ' | ')))
        if st == 'violated':
            viol += 1
            info = r['info']
            rp = write_replay(prop, u, r, info)
            print('failed obligation: %s' % (info.get('obligation') or (info.get('obligations') or ['?'])[0]))
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if info['confirmed'] else ' no-failing-input-found'))
        if st == 'finding-present' and not any(f.get('unit') == u['name'] for f in kf['findings']):
            viol += 1
            os.makedirs(VERIF + '/evidence', exist_ok=True)
            rp = 'evidence/finding-%s-%s.txt' % (prop, u['name'])
            open(VERIF + '/' + rp, 'w').write(u['what'] + '\n' + r.get('note', ''))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        elif st == 'finding-present':
            print('KNOWN-FINDING: property=%s %s' % (prop, u['what']))
        print('unit %-28s %-10s obligations %4d discharged %4d  %6.1fs %s' % (r['unit'], st, ent['obligations'], ent['discharged'], sum(d.get('time', 0) for d in r['runs']), ('bound: ' + u['bound']) if u.get('bound') and st == 'bounded' else ''))
    ev['level'] = 'proof' if tot['proved'][0] else 'other'
    cov = {
        'obligations': tot['proved'][0], 'discharged': tot['proved'][1],
        'checker_cmd': 'goto-cc <unit> ; goto-instrument --dfcc <harness> --enforce-contract f/C_f [--replace-call-with-contract g/C_g] [--loop-contracts-file ...]; cbmc --slice-formula',
        'trusted_base': sorted(trusted) + ['cbmc 6.11 / goto-instrument dfcc and its SAT back end', 'goto-cc front end (x86_64 LP64 layout, little endian)'],
        'functions_under_contract': functions,
        'bounded_units': bounded, 'bounded_obligations': tot['bounded'][0], 'bounded_discharged': tot['bounded'][1],
        'undecided_units': undecided,
        'solver_s': round(solver, 2), 'back_ends': sorted(backends), 'units': rep,
    }
    if ev['level'] == 'other':
        cov['explanation'] = 'bounded checks only on this run'
    ev['coverage'] = cov
    ev['assumptions'] = sorted(trusted)
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = viol
    if not only:
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)
    print('%s: %d proved obligations, %d bounded, %d violation(s), %.0fs' % (prop, tot['proved'][1], tot['bounded'][1], viol, time.time() - t0))
    if viol:
        return 1
    real = [r for _, r in results if not r['status'].startswith('finding')]
    if real and all(r['status'] == 'undecided' for r in real):
        return 2
    return 0


def write_replay(prop, u, r, info):
    d = VERIF + '/evidence/replay'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s.json' % (d, prop, r['unit'].replace('/', '-').replace(',', '-'))
    o = {'property': prop, 'unit': r['unit'], 'what': u.get('what', ''), 'harness': u['file'], 'entry': u['entry'],
         'failed_obligations': info.get('obligations', []), 'confirmed_on_real_code': info['confirmed'],
         'how': info.get('how', 'no failing input found'), 'inputs': info.get('inputs'), 'input_bytes_hex': info.get('raw'),
         'native_exit': info.get('rc'), 'native_output': info.get('native'), 'verifier': info.get('verifier'), 'replays': info.get('replays'),
         'run': 'python3 vf/runner.py %s quick %s' % (prop, r['unit'])}
    json.dump(o, open(p, 'w'), indent=1)
    return p


if __name__ == '__main__':
    main()
