#!/usr/bin/env python3
"""Development tool: turns an edit into a planted bug and confirms it (never run by a check).
   plant.py ID            (re)confirm /verif/seeded/ID: demo clean/patched, build, stable tests, then the property's quick check
   plant.py ID --edit F   first create the patch from the python file F (a list EDITS of (path, old, new))
"""
import json, os, subprocess, sys
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def stable():
    o = sh('bash /opt/vp/test.sh /tmp/w/plant.json'); base = json.load(open('/opt/vp/BASELINE.json')); return o
def main():
    i = sys.argv[1]; d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
    assert sh('git status --porcelain -uno').stdout == ''
    try:
        if '--edit' in sys.argv:
            ns = {}; exec(open(sys.argv[sys.argv.index('--edit') + 1]).read(), ns)
            for p, a, b in ns['EDITS']:
                s = open(R + '/' + p).read()
                if s.count(a) != 1: print('edit matches', s.count(a), 'times in', p); return 1
                open(R + '/' + p, 'w').write(s.replace(a, b))
            open(d + '/patch.diff', 'w').write(sh('git diff').stdout); sh('git checkout -q -- .')
        sh('bash /opt/vp/build.sh')
        r = sh('bash %s/demo.sh' % d, timeout=300); print('demo clean:', r.returncode, r.stdout[-300:])
        if r.returncode: return 1
        r = sh('git apply %s/patch.diff' % d)
        if r.returncode: print('does not apply', r.stdout); return 1
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: print('does not build', r.stdout[-1500:]); return 1
        r = stable(); print('tests:', r.stdout.strip().splitlines()[-1])
        r = sh('bash %s/demo.sh' % d, timeout=300); print('demo patched:', r.returncode, r.stdout[-300:])
        for p in [json.load(open(d + '/meta.json'))['property']] + sys.argv[2:]:
            if p.startswith('-') or '/' in p: continue
            r = subprocess.run(['/verif/check', p, 'quick'], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('CHECK %s exit %d: %s' % (p, r.returncode, '\n'.join(x[:300] for x in r.stdout.splitlines()[-4:])))
    finally:
        sh('git checkout -q -- .'); sh('bash /opt/vp/build.sh')
sys.exit(main())
