#!/usr/bin/env python3
"""addfix.py: append the /repo fix commits missing from known_findings.txt, oldest first; the property follows
from words of the subject (RULES, first match) or from the argument."""
import subprocess, sys
RULES = [('hollow electron lens', 'W04'), ('channels: ', 'L02'), ('BPM channels', 'W06'), ('monitor', 'W06'), ('feedback', 'W06'), ('NAN check', 'W06'), ('wake', 'W01'), ('coupler', 'W01'),
         ('radiation', 'W02'), ('photon', 'W02'), ('spin', 'W03'), ('accelerator errors', 'L03'), ('corrector windings', 'L02'), ('klystron', 'L02'), ('XTFF', 'I04'), ('physical constants', 'S01'), ('covariance', 'R01'), ('ground', 'A01'), ('ATL', 'A01'), ('macro-particle', 'T08'), ('MPI', 'P01'), ('crab', 'W05')]
have = open('/verif/known_findings.txt').read()
o = subprocess.check_output(['git', '-C', '/repo', 'log', '7325dda..HEAD', '--reverse', '--format=%h %s'], text=True)
with open('/verif/known_findings.txt', 'a') as f:
    for l in o.splitlines():
        h, s = l.split(' ', 1)
        if h not in have and s.startswith('fix: '):
            p = sys.argv[1] if len(sys.argv) > 1 else next((q for w, q in RULES if w.lower() in s.lower()), '?')
            f.write('fixed: property=%s %s %s\n' % (p, h, s[5:]))
            print(p, h, s[5:])
