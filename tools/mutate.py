#!/usr/bin/env python3
"""Development tool: applies small edits to a scratch copy of the repository and reports which checks notice.
   mutate.py FILE [name...]   FILE defines MUTANTS = [(name, 'P1,P2', [(path, old, new), ...]), ...]
Never run by a check."""
import os, sys, subprocess, shutil, json, glob
W = os.environ.get('MUTDIR', '/tmp/w'); M, B = W + '/mrepo', W + '/mbuild'; os.makedirs(W, exist_ok=True)
subprocess.run(['rsync', '-a', '--delete', '/verif/sim', '/verif/known-findings.txt', W + '/v/'], check=True); sys.path.insert(0, W + '/v/sim'); import checks   # a copy, so that work can go on
ns = {}; exec(open(sys.argv[1]).read(), ns)
os.makedirs(B, exist_ok=True)
frac = float(os.environ.get('FRAC', '1'))
for name, props, edits in ns['MUTANTS']:
    if len(sys.argv) > 2 and name not in sys.argv[2:]: continue
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', (os.environ.get('MUTREPO') or '/repo') + '/', M], check=True)
    bad = False
    for p, a, b in edits:
        s = open(M + '/' + p).read()
        if s.count(a) != 1: print(name, 'edit matches', s.count(a), 'times in', p); bad = True; break
        open(M + '/' + p, 'w').write(s.replace(a, b))
    if bad: continue
    env = dict(os.environ, NOISE_REPO=M, NOISE_SIM_BUILD=B); os.environ['NOISE_GEN'] = '1'
    r = subprocess.run(['python3', W + '/v/sim/build.py', 'all'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: print(name, 'BUILD FAILS', r.stdout[-800:]); continue
    for prop in props.split(','):
        c = checks.CHECKS[prop]; sc = ','.join('%s:%d' % x for x in c['scenarios']); n = int(c['quick'] * frac)
        open(W + '/mo.known', 'w').write(''.join(l.split('class=')[1].split()[0] + '\n' for l in open(W + '/v/known-findings.txt') if l.startswith('finding: property=%s ' % prop)))
        ps = [subprocess.Popen([B + ('/conc/noisesim_conc' if c['program'] == 'conc' else '/noisesim'), 'run', '--prop', prop, '--scenarios', sc, '--seed', '1', '--start', str(i), '--stride', '8', '--count', str(n), '--budget', '600', '--out', W + '/mo.%d.json' % i, '--cpu', '60', '--known', W + '/mo.known'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for i in range(8)]
        for p in ps: p.wait()
        v = []; runs = 0
        for i in range(8):
            try: j = json.load(open(W + '/mo.%d.json' % i))
            except Exception: continue
            runs += j['runs']
            if j['rc']: v.append((j.get('violation') or {}).get('idx', -1)); w = (j.get('violation') or {}).get('class', j['error'][:100])
        print('%-40s %s %s' % (name, prop, 'CAUGHT idx<=%s (%d workers) %s' % (min(v), len(v), w) if v else 'MISSED (%d runs)' % runs), flush=True)
