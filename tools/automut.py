#!/usr/bin/env python3
"""Development tool: mechanical mutants of single lines, judged by all properties at once.
   automut.py FILE SCENARIOS COUNT N [seed]   e.g. automut.py src/protocol/cipherstate.c transport:2,obj:2 6000 30
Prints the mutants that no scenario notices.  Works on a scratch copy; never run by a check."""
import os, sys, re, random, subprocess, json, hashlib
W = os.environ.get('MUTDIR', '/tmp/w/am'); M, B = W + '/mrepo', W + '/mbuild'; os.makedirs(B, exist_ok=True)
KIND = os.environ.get('MUTKIND', 'main')
subprocess.run(['rsync', '-a', '--delete', '/verif/sim', '/verif/known-findings.txt', W + '/v/'], check=True)
open(W + '/known', 'w').write(''.join(l.split('class=')[1].split()[0] + '\n' for l in open(W + '/v/known-findings.txt') if l.startswith('finding:')))
f, scen, count, n = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]); seed = sys.argv[5] if len(sys.argv) > 5 else '1'
src = open('/repo/' + f).read().split('\n')
def strip(l): return re.sub(r'/\*.*?\*/', '', l)
muts = []; com = False; depth = 0
for i, l in enumerate(src):
    if '/*' in l and '*/' not in l[l.index('/*'):]: com = True
    if com:
        if '*/' in l: com = False
        continue
    s = strip(l).strip()
    if re.match(r'if \((!\(?\*?[\w>-]+\)?( \|\| )?)+\)( \{)?$', s) or 'NOISE_ERROR_INVALID_PARAM' in s: continue     # null pointer checks: no property is about them
    if not s or s[0] in '#*"{}' or l[:1] not in ' \t': continue
    if re.match(r'(int|size_t|uint\w+|const|static|char|struct|Noise\w+|unsigned|return 0|case|default|goto|break|extern|typedef)\b.*;$', s) and '(' not in s.split('=')[0] and not s.startswith('return'): 
        if '=' not in s: continue
    if s.endswith(';') and not s.startswith('return') and re.match(r'[\w\-\>\*\(\)\[\]\.]+.*[=(]', s) and not re.match(r'(int|size_t|uint\w+|const|static|char|struct|Noise\w+|unsigned)\s+\**\w+', s): muts.append((i, 'delete', re.sub(r'\S.*', ';', l, 1)))
    for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + ', ' - '), (' - ', ' + '), (' + 1', ''), (' - 1', '')):
        if a in l and not s.startswith('for (i') : muts.append((i, a.strip() + '->' + b.strip(), l.replace(a, b, 1)))
    m = re.match(r'(\s*(?:\} else )?if )\((.*)\)( \{)?$', l)
    if m: muts.append((i, 'if(0)', '%s(0 && (%s))%s' % (m.group(1), m.group(2), m.group(3) or ''))); muts.append((i, 'if(1)', '%s(1 || (%s))%s' % (m.group(1), m.group(2), m.group(3) or '')))
    m = re.match(r'(\s*return )(NOISE_ERROR_(?!NONE)\w+|err|result);', l)
    if m: muts.append((i, 'return ok', m.group(1) + 'NOISE_ERROR_NONE;'))
    m = re.search(r'\b([1-9]\d*)\b(?!\])', s)
    if m and s.endswith(';'): muts.append((i, 'const+1', re.sub(r'\b%s\b' % m.group(1), str(int(m.group(1)) + 1), l, 1)))
random.Random(seed).shuffle(muts); print(f, len(muts), 'possible', flush=True)
if not os.path.isdir(M): subprocess.run(['rsync', '-a', '--exclude', '_build', '--exclude', '.git', '/repo/', M], check=True)
env = dict(os.environ, NOISE_REPO=M, NOISE_SIM_BUILD=B)
if KIND == 'gen': os.environ['NOISE_GEN'] = '1'
caught = done = 0
for i, what, new in muts[:n]:
    x = list(src); x[i] = new; open(M + '/' + f, 'w').write('\n'.join(x))
    r = subprocess.run(['python3', W + '/v/sim/build.py'] + (['all'] if KIND != 'main' else []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: continue
    done += 1; exe = B + ('/conc/noisesim_conc' if KIND == 'conc' else '/noisesim')
    ps = [subprocess.Popen(['nice', '-n', '19', exe, 'run', '--prop', 'ANY', '--scenarios', scen, '--seed', '1', '--start', str(k), '--stride', '8', '--count', count, '--budget', '300', '--out', W + '/o.%d.json' % k, '--cpu', '30', '--known', W + '/known'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL) for k in range(8)]
    while True:      # one worker's finding is enough
        try: [p.wait(0.2) for p in ps if p.poll() is None][:1]
        except subprocess.TimeoutExpired: pass
        dead = [p for p in ps if p.poll() is not None]
        if any(p.returncode for p in dead) or len(dead) == 8: break
    bad = any(p.returncode for p in dead)
    for p in ps:
        if p.poll() is None: p.terminate()
    for p in ps: p.wait()
    subprocess.run(['pkill', '-9', '-f', exe + ' run'])
    if bad: caught += 1
    else: print('%s:%d %s | %s' % (f, i + 1, what, src[i].strip()), flush=True)
open(M + '/' + f, 'w').write('\n'.join(src))
print(f, done, 'built', caught, 'caught', flush=True)
