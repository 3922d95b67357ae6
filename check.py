#!/usr/bin/env python3
"""Usage: check.py <property> [quick|thorough]
   Decide one property on /repo's working tree by running its monitored workloads.
   Exit 0 held / 1 VIOLATION / 2 no answer."""
import sys, os, json, re, shutil, subprocess, time, tempfile, collections
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import build as B, known
from props import PROPS

VERIF = B.VERIF


def san_key(text):
    """Stable key of a sanitizer / abort report: kind, file, function (no line numbers)."""
    m = re.search(r'SUMMARY: (\w+): ([\w-]+) ([^\s:]+)(?::\d+)*(?: in ([^\n]+))?', text)
    kind = fn = fl = ''
    u = re.search(r'([^\s:/]+\.(?:cpp|h)):\d+:\d+: runtime error: ([^\n]+)', text)
    a = re.search(r'(\S+): Assertion .(.+?). failed', text)
    frames = re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', text)
    lib = [(f, p) for f, p in frames if '/Merlin++/' in p]
    where = ''
    if lib:
        f, p = lib[0]
        where = os.path.basename(p) + ':' + re.sub(r'\(.*', '', f)
    if u:
        msg = re.sub(r'0x[0-9a-f]+|-?\d[\d.e+]*', 'N', u.group(2))
        msg = re.sub(r"'[^']*'", 'T', msg)[:60]
        return 'ubsan:%s:%s' % (msg.strip(), where or u.group(1))
    if m:
        return '%s:%s:%s' % ('asan', m.group(2), where)
    if a:
        return 'assert:' + where
    return 'abort:' + (where or 'unknown')


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        subprocess.run(['clang++', '--version'], check=True, stdout=subprocess.DEVNULL)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        print('toolchain present; every check builds what it needs from /repo')
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    args = sys.argv[3:]
    P = PROPS[prop]
    t0 = time.time()
    if P.get('multi'):
        return multi_main(prop, P, tier, seed, args, t0)
    work = tempfile.mkdtemp(prefix='vh-%s-' % prop)
    exe = None
    try:
        try:
            exe = B.build(prop, [os.path.join(VERIF, 'harness', f) for f in P['src']] +
                          [os.path.join(VERIF, 'harness', 'vh_main.cpp')], P.get('variant', 'san'),
                          P.get('extra', ()), '--update-closure' in args)
        except B.BuildError as e:
            print('BUILD-ERROR', e)
            return 2
        tb = time.time() - t0
        rep = [a for a in args if a.startswith('--case=')]
        env = dict(os.environ)
        env.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0'
                    ':detect_stack_use_after_return=1:detect_invalid_pointer_pairs=0',
                    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'})
        env.update(P.get('env', {}))
        if rep:
            return subprocess.call([exe, '--case', rep[0][7:], '--seed', str(seed)] + (['--thorough'] if tier == 'thorough' else []), env=env)
        cmd = [exe, '--out', work, '--seed', str(seed)]
        if tier == 'thorough':
            cmd.append('--thorough')
        for a in args:
            if a.startswith('--only='):
                cmd += ['--only', a[7:]]
            if a.startswith('--scale='):
                cmd += ['--scale', a[8:]]
        cmd += P.get('args', [])
        try:
            r = subprocess.run(cmd, env=env, timeout=(840 - tb) if tier == 'quick' else 6 * 3600,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            print('INCONCLUSIVE: workload did not finish')
            return 2
        return report(prop, P, tier, seed, work, r, t0, tb)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        if exe and os.path.exists(exe):
            os.unlink(exe)


def multi_main(prop, P, tier, seed, args, t0):
    import multi
    names = sorted(n for n in PROPS if not PROPS[n].get('multi') and not PROPS[n].get('own') and n not in P.get('skip', [])) + [prop]
    rep = [a[7:] for a in args if a.startswith('--case=')]
    only = [a[7:].split(',') for a in args if a.startswith('--only=')]
    if rep:
        names = [rep[0].split('/')[0]]
    elif only:
        names = only[0]
    vg = P['multi'] == 'plain'
    work = tempfile.mkdtemp(prefix='vh-%s-' % prop)
    exes = {}
    env = dict(os.environ)
    env.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=1:allocator_may_return_null=0:check_initialization_order=1'
                ':strict_init_order=1:strict_string_checks=1:detect_stack_use_after_return=1:max_uar_stack_size_log=20:quarantine_size_mb=64',
                'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1'})
    try:
        try:
            exes = multi.build_all(names, PROPS, P['multi'])
        except B.BuildError as e:
            print('BUILD-ERROR', e)
            return 2
        tb = time.time() - t0
        if rep:
            n = names[0]
            c = [exes[n], '--case', rep[0].split('/', 1)[1], '--seed', str(seed)]
            return subprocess.call((['valgrind', '--num-callers=14', '--track-origins=yes'] if vg else []) + c, env=env)
        th = tier == 'thorough'
        a = ['--scale', str(P['scale'][th]), '--budget', str(P['budget'][th])]
        deadline = t0 + (830 if not th else 6 * 3600)
        res = multi.run_all(exes, work, seed, a, env, vg, deadline, 7200 if th else 200)
        viol, ev, fam, dist, bad = collections.OrderedDict(), collections.Counter(), {}, set(), []
        for n, rc, o in res:
            d = os.path.join(work, n)
            ran = False
            for fn in sorted(os.listdir(d)):
                if fn.startswith('res.'):
                    for l in open(os.path.join(d, fn), errors='replace'):
                        t = l.rstrip('\n').split('\t')
                        if t[0] == 'F':
                            q = fam.setdefault(n + '/' + t[1], [0, 0, 0])
                            ran = True
                            for k in range(3):
                                q[k] += int(t[2 + k])
                        elif t[0] == 'E':
                            ev[n] += int(t[2])
                        elif t[0] == 'D':
                            dist.add(n + t[1])
                        elif t[0] == 'C' and t[3] != 'hang':
                            txt = ''
                            try:
                                txt = open(os.path.join(d, 'crash.' + t[5]), errors='replace').read()[-60000:]
                            except OSError:
                                pass
                            if t[3] == 'exit' and 'Sanitizer' not in txt and 'runtime error' not in txt and 'Error: ' not in txt:
                                continue   # the library ended the program: judged by the workload's own check
                            lines = [x for x in txt.splitlines() if 'ERROR' in x or 'runtime error' in x or ' in ' in x or 'Error: ' in x][:6]
                            if not vg:
                                viol.setdefault(san_key(txt), []).append((n + '/' + t[1], t[2], ' | '.join(lines)[:900]))
            if vg:
                for k, c, txt in multi.parse_valgrind(d):
                    viol.setdefault(k, []).append((n + '/' + c.split(':')[0], c.split(':')[-1], txt[:900]))
            if rc == 'timeout':
                print('NOTE: workload %s was stopped at its time limit' % n)
            elif rc != 0 and not ran:
                bad.append('%s %s %s' % (n, rc, o[-300:]))
        kn = known.load(prop)
        new = [k for k in viol if k not in kn]
        cases = sum(q[0] for q in fam.values())
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'),
                       'coverage': {'evaluations': cases, 'distinct_nontrivial': len(dist), 'rule': P['rule'],
                                    'samples': [{'family': k, 'case': 0, 'what': '%d cases under %s' % (q[0], 'valgrind memcheck' if vg else 'strict sanitizers')} for k, q in list(fam.items())[:8]],
                                    'monitor_evaluations': sum(q[1] for q in fam.values()), 'nontrivial_cases': sum(q[2] for q in fam.values()),
                                    'families': {k: {'cases': q[0], 'monitor_evaluations': q[1], 'nontrivial': q[2]} for k, q in sorted(fam.items())},
                                    'observed_events': dict(sorted(ev.items())), 'workloads': len(res), 'build_s': round(tb, 1)},
                       'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(new)}, f, indent=1)
        print('%s %s seed=%d: %d workloads, %d families, %d cases, %d distinct non-trivial, %.0f s (build %.0f s)' % (
            prop, tier, seed, len(res), len(fam), cases, len(dist), time.time() - t0, tb))
        for k in kn:
            print('KNOWN-FINDING: property=%s %s (key=%s%s)' % (prop, kn[k], k, '' if k in viol else '; not met in this run'))
        if new:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            for i, k in enumerate(new[:30]):
                path = os.path.join(rd, '%s_%d.txt' % (prop, i))
                w, c, m = viol[k][0]
                with open(path, 'w') as f:
                    f.write('key: %s\nproperty: %s\nreplay: cd /verif && VERIF_SEED=%d python3 check.py %s %s --case=%s:%s\n' % (k, prop, seed, prop, tier, w, c))
                    for v in viol[k][:5]:
                        f.write('case %s:%s  %s\n' % v)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('   key=%s (+%d more) case %s:%s: %s' % (k, len(viol[k]) - 1, w, c, m[:500]))
            return 1
        if bad:
            print('INCONCLUSIVE:', bad[:5])
            return 2
        if not dist or cases < P.get('mincases', 1):
            print('INCONCLUSIVE: only %d cases' % cases)
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        for e in exes.values():
            if os.path.exists(e):
                os.unlink(e)


def report(prop, P, tier, seed, work, r, t0, tb):
    viol = collections.OrderedDict()   # key -> list of (fam, idx, msg)
    ev = collections.Counter()
    fam = collections.defaultdict(lambda: [0, 0, 0])
    dist = set()
    samples = []
    notes = []
    more = collections.Counter()
    for fn in sorted(os.listdir(work)):
        if not fn.startswith('res.'):
            continue
        for l in open(os.path.join(work, fn), errors='replace'):
            t = l.rstrip('\n').split('\t')
            if t[0] == 'V' and len(t) >= 5:
                viol.setdefault(t[3], []).append((t[1], int(t[2]), t[4]))
            elif t[0] == 'E':
                ev[t[1]] += int(t[2])
            elif t[0] == 'F':
                for k in range(3):
                    fam[t[1]][k] += int(t[2 + k])
            elif t[0] == 'D':
                dist.add(t[1])
            elif t[0] == 'S':
                if len([s for s in samples if s['family'] == t[1]]) < 1:
                    samples.append({'family': t[1], 'case': int(t[2]), 'what': t[3]})
            elif t[0] == 'N':
                more[t[1]] += int(t[2])
            elif t[0] == 'X':
                notes.append(t[1])
            elif t[0] == 'C':
                txt = ''
                try:
                    txt = open(os.path.join(work, 'crash.' + t[5]), errors='replace').read()[-60000:]
                except OSError:
                    pass
                if t[3] == 'hang':
                    key = '%s/hang' % t[1]
                elif t[3] == 'exit' and 'Sanitizer' not in txt and 'runtime error' not in txt:
                    key = '%s/library-called-exit(%s)' % (t[1], t[4])
                else:
                    key = '%s/%s' % (t[1], san_key(txt))
                lines = [x for x in txt.splitlines() if 'ERROR' in x or 'runtime error' in x or ' in ' in x][:6]
                viol.setdefault(key, []).append((t[1], int(t[2]), ' | '.join(lines)[:900]))
    kn = known.load(prop)
    evaluations = sum(f[1] for f in fam.values())
    cases = sum(f[0] for f in fam.values())
    new = [k for k in viol if k not in kn]
    # a run that observed nothing is not an answer
    empty = [e for e in P.get('require', []) if sum(n for k, n in ev.items() if k == e or k.endswith(':' + e) or k.endswith('/' + e) or k.endswith('.' + e)) <= 0]
    cov = {
        'evaluations': cases,
        'distinct_nontrivial': len(dist),
        'rule': P['rule'],
        'samples': samples[:8],
        'monitor_evaluations': evaluations,
        'nontrivial_cases': sum(f[2] for f in fam.values()),
        'families': {k: {'cases': v[0], 'monitor_evaluations': v[1], 'nontrivial': v[2]} for k, v in sorted(fam.items())},
        'observed_events': dict(sorted(ev.items())),
        'build_s': round(tb, 1),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': P.get('level', 'exploration'), 'coverage': cov,
                   'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1),
                   'violations': len(new)}, f, indent=1)
    print('%s %s seed=%d: %d cases, %d monitor evaluations, %d distinct non-trivial, %.0f s (build %.0f s)' % (
        prop, tier, seed, cases, evaluations, len(dist), time.time() - t0, tb))
    for n in notes:
        print('note:', n)
    seen = [k for k in viol if k in kn]
    for k in kn:
        print('KNOWN-FINDING: property=%s %s (key=%s%s)' % (prop, kn[k], k, '' if k in seen else '; not met in this run'))
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, k in enumerate(new[:30]):
            path = os.path.join(rd, '%s_%d.txt' % (prop, n))
            f0, i0, m0 = viol[k][0]
            with open(path, 'w') as f:
                f.write('key: %s\nproperty: %s\nreplay: cd /verif && VERIF_SEED=%d python3 check.py %s %s --case=%s:%d\n' % (
                    k, prop, seed, prop, tier, f0, i0))
                for v in viol[k][:5]:
                    f.write('case %s:%d  %s\n' % v)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   key=%s (+%d more) case %s:%d: %s' % (k, more[k], f0, i0, m0[:500]))
        return 1
    if r.returncode != 0 or any('stopped' in n or 'killed' in n or 'failed' in n for n in notes):
        print('INCONCLUSIVE: harness failure', r.returncode, r.stdout.decode(errors='replace')[-500:])
        return 2
    if empty or not dist or not evaluations:
        print('INCONCLUSIVE: required events not observed:', empty)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
