"""Run the workloads of all checks under another instrument (strict sanitizers, valgrind) and
judge only what the instrument reports. Oracle verdicts of the harnesses are ignored here:
their own checks report those."""
import os, re, subprocess, time, concurrent.futures as cf
import build as B


def build_all(names, props, variant):
    """names: property ids. Returns {id: executable}; library compiled and archived once."""
    os.makedirs(B.BUILD + '/obj', exist_ok=True)
    B.prune()
    cxx, fl, ldfl = B.VARIANTS[variant]
    hh = B.headers_hash()
    vhh = B._h(*[B._read(p) for p in sorted(B.glob.glob(B.VERIF + '/harness/*.h'))])
    cmd = [cxx] + B.BASE + fl + ['-I' + B.REPO + '/Merlin++', '-I' + B.VERIF + '/harness']

    def job(s, pre, extra):
        return (s, '%s/obj/%s%s-%s.o' % (B.BUILD, pre, os.path.basename(s)[:-4], B._h(variant, ' '.join(cmd), hh, extra, B._read(s))), cmd)
    lib = [job(s, '', '') for s in sorted(B.glob.glob(B.REPO + '/Merlin++/*.cpp'))]
    main = job(B.VERIF + '/harness/vh_main.cpp', 'H-', vhh)
    hs = {n: job(B.VERIF + '/harness/' + props[n]['src'][0], 'H-', vhh) for n in names}
    B.compile_all([main] + list(hs.values()) + lib)
    base = '%s/multi-%s-%d' % (B.BUILD, variant, os.getpid())
    ar = base + '.a'
    if os.path.exists(ar):
        os.unlink(ar)
    subprocess.run(['ar', 'crs', ar] + [j[1] for j in lib], check=True)

    def link(n):
        exe = '%s-%s' % (base, n)
        r = subprocess.run([cxx] + ldfl + [hs[n][1], main[1], ar, '-o', exe, '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return n, exe, r.returncode, r.stdout.decode(errors='replace')
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            out = list(ex.map(link, names))
    finally:
        os.unlink(ar)
    for n, exe, rc, o in out:
        if rc:
            raise B.BuildError('link of %s failed:\n%s' % (n, o[-3000:]))
    return {n: exe for n, exe, rc, o in out}


def run_all(exes, work, seed, args, env, valgrind, deadline, each):
    """Each workload with one worker, eight at a time. Returns list of (id, returncode, output)."""
    def one(n):
        d = os.path.join(work, n)
        os.mkdir(d)
        cmd = [exes[n], '--out', d, '--seed', str(seed), '--workers', '1', '--limit', '600'] + args
        if valgrind:
            cmd = ['valgrind', '--tool=memcheck', '--leak-check=no', '--error-limit=no', '--num-callers=14', '--max-stackframe=20000000',
                   '--log-file=' + d + '/vg.%p'] + cmd
        p = subprocess.Popen(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            o = p.communicate(timeout=max(5, min(each, deadline - time.time())))[0]
            return n, p.returncode, o.decode(errors='replace')[-800:]
        except subprocess.TimeoutExpired:
            return n, 'timeout', ''
        finally:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, sorted(exes, key=lambda n: n)))


def parse_valgrind(d):
    """Errors of one workload: list of (key, case, text)."""
    out = []
    for fn in sorted(os.listdir(d)):
        if not fn.startswith('vg.'):
            continue
        block, pend = [], []

        def close():
            if block:
                pend.append(list(block))
            del block[:]
        for l in open(os.path.join(d, fn), errors='replace'):
            m = re.match(r'(?:==|\*\*)\d+(?:==|\*\*) ?(.*)', l.rstrip('\n'))
            t = m.group(1) if m else l.rstrip('\n')
            c = re.search(r'VHCASE (\S+)', t)
            if c:
                close()
                for b in pend:
                    k = vg_key(b)
                    if k:
                        out.append((k, c.group(1), ' | '.join(x.strip() for x in b[:7])))
                pend = []
            elif not t.strip():
                close()
            else:
                block.append(t)
        close()
        for b in pend:
            k = vg_key(b)
            if k:
                out.append((k, '?', ' | '.join(x.strip() for x in b[:7])))
    return out


KINDS = [('Conditional jump or move depends on uninitialised', 'uninitialised-decision'), ('Use of uninitialised value', 'uninitialised-use'),
         ('points to uninitialised', 'uninitialised-output'), ('Invalid read', 'invalid-read'), ('Invalid write', 'invalid-write'),
         ('Invalid free', 'invalid-free'), ('Mismatched free', 'mismatched-free'), ('Jump to the invalid', 'invalid-jump'),
         ('contains uninitialised', 'uninitialised-output'), ('Source and destination overlap', 'overlap'),
         ('Process terminating', 'crash')]


def vg_key(block):
    kind = next((k for t, k in KINDS if t in block[0]), None)
    if not kind:
        return None
    fr = [re.search(r'(?:at|by) 0x[0-9A-F]+: (.*) \(([^)]*)\)\s*$', x) for x in block[1:]]
    fr = [(m.group(1), m.group(2)) for m in fr if m]
    for f, p in fr:
        fl = re.sub(r':\d+$', '', p)
        if fl.endswith(('.cpp', '.h')) and os.path.exists(os.path.join(B.REPO, 'Merlin++', fl)):
            return '%s:%s:%s' % (kind, fl, re.sub(r'\(.*', '', f))
    for f, p in fr:
        if re.match(r'[a-z]\d\d\.cpp|vh', p):
            return '%s:%s' % (kind, re.sub(r':\d+$', '', p))
    return kind + ':' + (fr[0][0][:60] if fr else '?')
