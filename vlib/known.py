import os
from build import VERIF

PATH = os.path.join(VERIF, 'known_findings.txt')


def load(prop):
    """known: property=<id> key=<key> :: <description>"""
    d = {}
    if os.path.exists(PATH):
        for l in open(PATH):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                key, _, desc = rest.partition(' :: ')
                d[key[len('key='):]] = desc
    return d
