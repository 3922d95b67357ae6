#!/usr/bin/env python3
"""plant.py SPEC.py...: turn bug specifications into /verif/seeded/<id>/ and try them on a scratch copy of /repo.
A spec defines ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C++ source; exit code 0 = property holds)."""
import json, os, subprocess, sys, shutil
W = '/tmp/plant_wt'
DEMO_SH = '''#!/bin/bash
# run with cwd = /repo after the build; exit 0 if the property holds
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -w -I "$PWD/Merlin++" "$d/demo.cpp" -o "$t/demo" -L "$PWD/_build" -lmerlin++ -Wl,-rpath,"$PWD/_build" || exit 99
cd "$t" && ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    run_tests = '--notest' not in sys.argv
    for spec in [a for a in sys.argv[1:] if not a.startswith('--')]:
        ns = {}
        exec(open(spec).read(), ns)
        d = '/verif/seeded/' + ns['ID']
        assert not sh('git -C /repo status --porcelain -uno').stdout.strip(), 'dirty /repo'
        ok = True
        try:
            for f, old, new in ns['EDITS']:
                p = '/repo/Merlin++/' + f
                s = open(p).read()
                assert s.count(old) == 1, '%s: %d matches of %r' % (f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cpp', 'w').write(ns['DEMO'])
            open(d + '/demo.sh', 'w').write(ns.get('DEMO_SH', DEMO_SH))
            os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(ns['ID'], 'BUILD FAILED', b.stdout[-1500:]); ok = False; continue
            t = sh('bash %s/demo.sh' % d, cwd='/repo')
            print(ns['ID'], 'demo with patch rc=%d %s' % (t.returncode, t.stdout[-200:].strip()))
            ok &= t.returncode not in (0, 99)
            if run_tests:
                o = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
                base = json.load(open('/opt/vp/BASELINE.json'))['stable']
                r = json.load(open('/tmp/plant_out.json'))
                passed = set(r.get('passed', [])) if isinstance(r, dict) else set()
                miss = [x for x in base if x not in passed]
                print(ns['ID'], 'tests missing:', miss); ok &= not miss
            c = sh('python3 check.py %s quick' % ns['PROP'], cwd='/verif')
            print(ns['ID'], 'check rc=%d' % c.returncode, ' | '.join(c.stdout.strip().splitlines()[-3:])[:400])
        finally:
            sh('git -C /repo checkout -- .')
            if ok is not None:
                sh('bash /opt/vp/build.sh')
        t = sh('bash %s/demo.sh' % d, cwd='/repo')
        print(ns['ID'], 'demo unpatched rc=%d %s' % (t.returncode, t.stdout[-200:].strip()))
        if t.returncode or not ok:
            print(ns['ID'], 'REJECTED')


main()
