#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and the table in DESIGN.md from vlib/spec.py and vlib/props.py."""
import json, os, sys, re
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + '/vlib')
from spec import SPEC
from props import PROPS
NA = {}
try:
    from spec import NOT_APPLICABLE as NA
except ImportError:
    pass
with open(V + '/properties.jsonl', 'w') as f:
    for p in SPEC.values():
        d = {k: v for k, v in p.items() if k != 'how'}
        a = dict(d['anchors'])
        a['files'] = [x for x in a['files'] if os.path.exists('/repo/' + x)]
        a['observe_at'] = ['public C++ API of the listed classes, driven by harness/%s' % s for s in PROPS.get(p['id'], {}).get('src', [])] or ['public C++ API']
        a['hook_needed'] = None
        d['anchors'] = a
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for pid in SPEC:
    if pid in PROPS and not PROPS[pid].get('draft'):
        q = PROPS[pid]
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s quick' % pid, thorough_cmd='python3 check.py %s thorough' % pid,
                           evidence_file='evidence/%s.json' % pid,
                           technique=q.get('technique', 'runtime monitoring: randomised workloads on the ASan/UBSan-instrumented library with an independent online oracle'),
                           level='exploration',
                           level_note=q.get('note', 'Decides the property on every generated case of the run (seeded; counts in evidence); says nothing about inputs not generated. '
                                            'Trusts the oracle in harness/%s, clang 18 sanitizers and libm.' % q['src'][0])))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, 'No check built (yet) for this property.')))
json.dump(dict(version=1, setup_cmd='python3 check.py --setup', hooks=dict(guard='MERLIN_VERIF_HOOKS', enable='no hooks were needed: the checks use only the public API, so nothing is guarded', source_commits=[]),
               checks=checks, not_applicable=na,
               notes='MANIFEST.json and properties.jsonl are generated by gen.py from vlib/spec.py and vlib/props.py.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
D = open(V + '/DESIGN.md').read() if os.path.exists(V + '/DESIGN.md') else '<!--TABLE-->\n<!--/TABLE-->\n'
rows = ['| id | title | decided by | bounds and cost |', '|---|---|---|---|']
for pid, p in SPEC.items():
    q = PROPS.get(pid)
    rows.append('| %s | %s | %s | %s |' % (pid, p['title'], p['how'].replace('|', '/'), (q.get('cost') or q['rule']).replace('|', '/') if q else NA.get(pid, 'not claimed')))
D = re.sub(r'<!--TABLE-->.*<!--/TABLE-->', lambda m: '<!--TABLE-->\n' + '\n'.join(rows) + '\n<!--/TABLE-->', D, flags=re.S)
open(V + '/DESIGN.md', 'w').write(D)
print(len(checks), 'checks', len(na), 'not claimed')
