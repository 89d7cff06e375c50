import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sim')
from checks import CHECKS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/na.json'))
checks = []
na = []
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            technique='deterministic simulation with fault injection (seeded search over schedules, inputs and faults)' + (c.get('tech') and '; ' + c['tech'] or ''),
            level='exploration', level_note=c.get('note', 'Seeded sampling of simulated executions of the real code with every source of nondeterminism simulated; each violation replays exactly from its file. Trusts the simulator, the oracle model and OpenSSL 3 primitives.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 sim/build.py all', hooks=dict(guard='NOISE_SIM', enable='No hook is needed: the checks compile the unmodified sources and redirect system and allocator calls at link time (ld --wrap)', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
