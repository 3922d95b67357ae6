"""Build /repo's library sources (current working tree) plus one harness, with sanitizers.
Objects are cached by content hash under /verif/.build (ignored by git); in a fresh copy
everything is compiled from scratch."""
import hashlib, os, re, subprocess, sys, glob, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MERLIN_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
VARIANTS = {
    # compiler, compile flags, link flags
    'san': ('clang++', ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                        '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'], ['-fsanitize=address,undefined']),
    # stricter: iterator checks, conversions out of range
    'dbg': ('clang++', ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer', '-fsanitize=address,undefined,float-cast-overflow',
                        '-fno-sanitize-recover=all', '-D_GLIBCXX_DEBUG', '-D_GLIBCXX_DEBUG_PEDANTIC'], ['-fsanitize=address,undefined']),
    'plain': ('clang++', ['-O1', '-gline-tables-only', '-fno-omit-frame-pointer'], []),
}
BASE = ['-std=c++14', '-w']


class BuildError(Exception):
    pass


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b'\0')
    return h.hexdigest()[:32]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def headers_hash():
    hs = sorted(glob.glob(REPO + '/Merlin++/*.h'))
    return _h(*[x for p in hs for x in (os.path.basename(p), _read(p))])


def compile_all(jobs, nproc=8):
    """jobs: list of (src, obj, cmd)"""
    todo = [j for j in jobs if not os.path.exists(j[1])]
    # biggest first gives a shorter tail
    todo.sort(key=lambda j: -os.path.getsize(j[0]))

    def one(j):
        tmp = j[1] + '.%d.tmp' % os.getpid()
        r = subprocess.run(j[2] + ['-c', j[0], '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            return '%s:\n%s' % (j[0], r.stdout.decode(errors='replace')[-3000:])
        os.rename(tmp, j[1])
        return None
    with cf.ThreadPoolExecutor(nproc) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError('\n'.join(errs[:5]))


def prune(maxn=12000):
    d = BUILD + '/obj'
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    if len(fs) > maxn:
        fs.sort(key=lambda f: os.path.getmtime(f))
        for f in fs[:len(fs) // 2]:
            try:
                os.unlink(f)
            except OSError:
                pass


def build(prop, harness_srcs, variant='san', extra=(), update_closure=False):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    prune()
    cxx, fl, ldfl = VARIANTS[variant]
    hh = headers_hash()
    vhh = _h(*[_read(p) for p in sorted(glob.glob(VERIF + '/harness/*.h'))])
    srcs = sorted(glob.glob(REPO + '/Merlin++/*.cpp'))
    if not srcs:
        raise BuildError('no sources in %s/Merlin++' % REPO)
    cmd = [cxx] + BASE + fl + ['-I' + REPO + '/Merlin++', '-I' + VERIF + '/harness']

    def libjob(s):
        return (s, '%s/obj/%s-%s.o' % (BUILD, os.path.basename(s)[:-4], _h(variant, ' '.join(cmd), hh, _read(s))), cmd)
    hcmd = cmd + list(extra)
    hjobs = [(s, '%s/obj/H-%s-%s.o' % (BUILD, os.path.basename(s)[:-4], _h(variant, ' '.join(hcmd), hh, vhh, _read(s))), hcmd)
             for s in harness_srcs]
    closure = os.path.join(VERIF, 'closure', prop + '.txt')
    exe = '%s/%s-%s-%d' % (BUILD, prop, variant, os.getpid())

    def link(jobs, trace=False):
        # library objects go into an archive so that both routes link the same members
        ar = exe + '.a'
        if os.path.exists(ar):
            os.unlink(ar)
        subprocess.run(['ar', 'crs', ar] + [j[1] for j in jobs], check=True)
        r = subprocess.run([cxx] + ldfl + [j[1] for j in hjobs] + [ar, '-o', exe, '-lpthread'] +
                           (['-Wl,-Map=' + exe + '.map'] if trace else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.unlink(ar)
        return r.returncode, r.stdout.decode(errors='replace')
    alljobs = [libjob(s) for s in srcs]
    hint = None
    if os.path.exists(closure) and not update_closure:
        names = set(open(closure).read().split())
        hint = [j for j in alljobs if os.path.basename(j[0])[:-4] in names]
        # sources the hint has never heard of are always compiled
        known = set(open(os.path.join(VERIF, 'closure', 'ALL.txt')).read().split())
        hint += [j for j in alljobs if os.path.basename(j[0])[:-4] not in known]
    if hint:
        compile_all(hjobs + hint)
        rc, o = link(hint)
        if rc == 0:
            return exe
    compile_all(hjobs + alljobs)
    rc, o = link(alljobs, trace=update_closure)
    if rc:
        raise BuildError('link failed:\n' + o[-4000:])
    if update_closure:
        mp = open(exe + '.map', errors='replace').read().split('Discarded input')[0]
        os.unlink(exe + '.map')
        used = sorted({m.rsplit('-', 1)[0] for m in re.findall(r'\.a\(([^)]+)\.o\)\s', mp)} & {os.path.basename(s)[:-4] for s in srcs})
        open(closure, 'w').write('\n'.join(used) + '\n')
        open(os.path.join(VERIF, 'closure', 'ALL.txt'), 'w').write(
            '\n'.join(sorted(os.path.basename(s)[:-4] for s in srcs)) + '\n')
    return exe
