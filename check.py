#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by seeded simulation
   check.py --build                        build the simulator only
   check.py --replay <file>                replay a recorded violation
The simulator is rebuilt from /repo's working tree; objects are keyed by the
contents of everything they are made from, so a changed tree is always seen."""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SEDAMAN_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
KNOWN = os.path.join(HERE, 'known_findings.txt')
CXX = 'g++'
COMMON = ['-std=c++20', '-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DNDEBUG',
          '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-I' + REPO + '/include', '-I' + REPO + '/src']
REPO_FLAGS = ['-w', '-fsanitize-coverage=trace-pc', '-ftrivial-auto-var-init=pattern']
SIM_FLAGS = ['-Wall', '-Wextra']
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def build():
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    repo_hdr = sorted(glob.glob(REPO + '/include/**/*', recursive=True) + glob.glob(REPO + '/src/**/*.h*', recursive=True))
    repo_hdr = [p for p in repo_hdr if os.path.isfile(p)]
    hdr_repo = sha(*[p + '\n' for p in repo_hdr], *[rd(p) for p in repo_hdr])
    sim_hdr = sorted(glob.glob(HERE + '/sim/*.hpp'))
    hdr_sim = sha(*[rd(p) for p in sim_hdr])
    srcs = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True))
    srcs = [s for s in srcs if '/pybind' not in s[len(REPO):] and b'pybind11' not in rd(s)]
    jobs, objs = [], []
    for s in srcs:
        k = sha(rd(s), hdr_repo, ' '.join(COMMON + REPO_FLAGS), s)
        o = os.path.join(BUILD, 'obj', 'repo_%s-%s.o' % (os.path.basename(s)[:-4], k))
        objs.append(o)
        jobs.append((s, o, COMMON + REPO_FLAGS))
    for s in sorted(glob.glob(HERE + '/sim/*.cpp')):
        k = sha(rd(s), hdr_repo, hdr_sim, ' '.join(COMMON + SIM_FLAGS))
        o = os.path.join(BUILD, 'obj', 'sim_%s-%s.o' % (os.path.basename(s)[:-4], k))
        objs.append(o)
        jobs.append((s, o, COMMON + SIM_FLAGS))
    todo = [j for j in jobs if not os.path.exists(j[1])]
    todo.sort(key=lambda j: -os.path.getsize(j[0]))

    def cc(j):
        t = j[1] + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX] + j[2] + ['-c', j[0], '-o', t], capture_output=True, text=True)
        if r.returncode:
            return '%s:\n%s' % (j[0], r.stderr[-4000:])
        os.replace(t, j[1])
        return None
    with cf.ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(cc, todo) if e]
    if errs:
        print('BUILD FAILED\n' + '\n'.join(errs))
        sys.exit(2)
    exe = os.path.join(BUILD, 'simdrv-' + sha('rdynamic', *objs))
    if not os.path.exists(exe):
        t = exe + '.tmp%d' % os.getpid()
        r = subprocess.run([CXX, '-fsanitize=address', '-rdynamic', '-o', t] + objs + ['-ldl', '-lpthread'], capture_output=True, text=True)
        if r.returncode:
            print('LINK FAILED\n' + r.stderr[-4000:])
            sys.exit(2)
        os.replace(t, exe)
    # keep the build directory small
    old = sorted(glob.glob(BUILD + '/simdrv-*'), key=os.path.getmtime)[:-3]
    for p in old:
        if p != exe:
            os.unlink(p)
    keep = set(objs)
    allobj = sorted(glob.glob(BUILD + '/obj/*.o'), key=os.path.getmtime)
    for p in allobj[:-150]:
        if p not in keep:
            os.unlink(p)
    return exe


def known_for(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'known: property=(\S+) kind=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def parse(path):
    d = {'scenario': {}, 'count': {}, 'known': {}}
    if not os.path.exists(path):
        return d
    for line in open(path, errors='replace'):
        p = line.rstrip('\n').split(' ', 1)
        if p[0] in ('scenario', 'count', 'known'):
            k, v = p[1].rsplit(' ', 1)
            d[p[0]][k] = int(v)
        elif p[0] == 'seconds':
            d['seconds'] = float(p[1])
        elif p[0] == 'slowest':
            d['slowest'] = [float(p[1].split()[0]), int(p[1].split()[1])]
        elif p[0] == 'violation':
            d['violation'] = p[1]
        elif len(p) == 2:
            d[p[0]] = int(p[1])
    return d


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == '--build':
        print('built', build())
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        exe = build()
        return subprocess.run([exe, 'replay', sys.argv[2], KNOWN]).returncode
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    sys.path.insert(0, HERE)
    from plan import PLAN
    plan = PLAN[prop]
    exe = build()
    t_build = time.time() - t0
    total = plan[tier]
    wall = plan.get(tier + '_wall', 100 if tier == 'quick' else 600)
    scratch = os.path.join(BUILD, 'run-%s-%d' % (prop, os.getpid()))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    replays = os.path.join(HERE, 'replays')
    os.makedirs(replays, exist_ok=True)
    procs = []
    for w in range(WORKERS):
        tape, out = '%s/tape%d' % (scratch, w), '%s/out%d' % (scratch, w)
        err = open('%s/err%d' % (scratch, w), 'wb')
        args = [exe, 'run', prop, str(seed), str(w), str(WORKERS), str(total), str(wall), tape, out, KNOWN]
        env = dict(os.environ, VERIF_COLD=str(plan['cold']))
        procs.append((w, subprocess.Popen(args, stdout=err, stderr=err, env=env), tape, out, args))
    failed, broken = [], []
    pending = list(procs)
    while pending:
        time.sleep(0.05)
        for p in list(pending):
            rc = p[1].poll()
            if rc is None:
                continue
            pending.remove(p)
            if rc == 0:
                continue
            (broken if rc in (3, 4) else failed).append((p, rc))
            # one failure is enough: stop the others
            for q in pending:
                q[1].terminate()
    if failed:
        broken = []
    stats = [parse(p[3]) for p in procs]
    agg = {'runs': 0, 'steps': 0, 'switches': 0, 'decisions': 0, 'rechecked': 0, 'mismatched': 0, 'cold': 0}
    counts, scen, kn = {}, {}, {}
    for s in stats:
        for k in agg:
            agg[k] += s.get(k, 0)
        for src, dst in (('count', counts), ('scenario', scen), ('known', kn)):
            for k, v in s[src].items():
                dst[k] = dst.get(k, 0) + v
    hashes, scheds = set(), set()
    for p in procs:
        for suffix, dst in (('.hash', hashes), ('.sched', scheds)):
            if os.path.exists(p[3] + suffix):
                b = rd(p[3] + suffix)
                dst.update(memoryview(b[:len(b) // 8 * 8]).cast('Q'))
    run_s = time.time() - t0 - t_build

    violations = 0
    vline = None
    if failed:
        # the failure with the fewest decisions is the easiest to minimise: take the first reported
        failed_real = [f for f in failed if f[1] != -15]
        for (p, rc) in failed_real:
            w, _, tape, out, args = p
            raw = '%s/raw%d' % (scratch, w)
            if rc == 1 or rc not in (0,):
                subprocess.run([exe, 'from-tape', prop, tape, raw])
            final = os.path.join(replays, '%s-%s-seed%d.replay' % (prop, tier, seed))
            r = subprocess.run([exe, 'shrink', raw, final, '25', KNOWN], capture_output=True, text=True)
            if 'SHRUNK' in r.stdout:
                chk = subprocess.run([exe, 'replay', final, KNOWN], capture_output=True, text=True, errors='replace')
                m = re.search(r'^REPLAYED (\S+) \| (.*)$', chk.stdout, re.M)
                if chk.returncode == 1 and m:
                    violations += 1
                    vline = (final, m.group(2), r.stdout.strip())
                    break
            # not reproduced by the decisions of that run alone: state left by earlier runs of the same process
            idx = None
            m = re.search(r'seed: \d+ run (\d+)', open(raw).read() if os.path.exists(raw) else '')
            if m:
                idx = int(m.group(1))
                n = 1
                while idx is not None:
                    start = max(idx - n * WORKERS, w)
                    a = list(args)
                    a[4], a[6], a[7] = str(start), str(idx + 1), '600'
                    a[8], a[9] = scratch + '/seqtape', scratch + '/seqout'
                    rc1 = subprocess.run(a, capture_output=True).returncode
                    rc2 = subprocess.run(a, capture_output=True).returncode
                    if rc1 not in (0, 3, 4) and rc1 == rc2:
                        violations += 1
                        what = parse(scratch + '/seqout').get('violation', 'process died with status %d' % rc1)
                        with open(final, 'w') as f:
                            f.write('property: %s\nkind: sequence\nviolation: %s\nsequence: %d %d %d %d\n' % (prop, what, seed, start, WORKERS, idx + 1))
                        vline = (final, what, 'sequence of %d runs' % (n + 1))
                        idx = None
                        break
                    if start == w:
                        break
                    n *= 4
                if vline:
                    break
            broken.append((p, rc))

    sample_notes = []
    # written-out samples: re-run three seeds verbosely
    for i in (0, 1, 2):
        r = subprocess.run([exe, 'show', prop, str(seed), str(i), KNOWN], capture_output=True, text=True, errors='replace')
        sample_notes.append({'run': i, 'history': r.stdout.splitlines()[:40]})
    faults = {k[6:]: v for k, v in counts.items() if k.startswith('fault.')}
    work = {k: v for k, v in counts.items() if not k.startswith('fault.')}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(hashes),
            'rule': 'one evaluation is one simulated run, fully determined by its seed: ' + plan['rule'] +
                    ' Two runs count as distinct when the 64-bit hash of their decision tape and of their system call history (operation, size, offset, result, fault) differs; every run executes library code on a generated workload.',
            'samples': sample_notes,
            'runs_per_hour': int(agg['runs'] / max(run_s, 1e-3) * 3600),
            'seeds_per_hour': int(agg['runs'] / max(run_s, 1e-3) * 3600),
            'simulated_io_steps': agg['steps'],
            'decisions_drawn': agg['decisions'],
            'context_switches': agg['switches'],
            'distinct_interleavings': len(scheds),
            'distinct_interleavings_measure': 'distinct hashes of the sequence (client, simulated step) of scheduling decisions',
            'simulated_time': 'the library reads no clock and sets no timer; simulated progress is counted in I/O steps',
            'faults_injected': faults,
            'workload_counters': work,
            'scenarios': scen,
            'runs_in_a_fresh_process': agg['cold'],
            'determinism_rechecks': agg['rechecked'],
            'determinism_rechecks_that_differed': agg['mismatched'],
            'real_code': 'all of /repo/src (except the Python bindings) and the libstdc++ file streams under it',
            'stubs': 'file system, file descriptors and the system calls fopen/read/write/lseek/close/...; task scheduler; allocator admission',
            'known_findings_seen': kn,
            'build_s': round(t_build, 1),
        },
        'assumptions': plan['assumptions'],
        'wall_s': round(time.time() - t0, 1),
        'violations': violations,
    }
    os.makedirs(HERE + '/evidence', exist_ok=True)
    with open('%s/evidence/%s.json' % (HERE, prop), 'w') as f:
        json.dump(ev, f, indent=1)
    for kind, what in known_for(prop):
        print('KNOWN-FINDING: property=%s %s (%s; seen in %d simulated runs)' % (prop, what, kind, kn.get(kind, 0)))
    slow = max(s.get('slowest', [0, 0]) for s in stats)
    print('%s %s seed=%d: %d runs (%d distinct), %d I/O steps, %d interleavings, build %.0fs, run %.0fs, slowest run %.1fs CPU (no. %d)' %
          (prop, tier, seed, agg['runs'], len(hashes), agg['steps'], len(scheds), t_build, run_s, slow[0], slow[1]))
    rcode = 0
    if vline:
        print('violation: %s' % vline[1][:1000])
        print('minimised: %s' % vline[2])
        print('VIOLATION property=%s replay=%s' % (prop, vline[0]))
        rcode = 1
    elif broken:
        for (p, rc) in broken:
            print('worker %d ended with %d: %s' % (p[0], rc, rd('%s/err%d' % (scratch, p[0]))[-2000:].decode(errors='replace')))
        rcode = 2
    shutil.rmtree(scratch, ignore_errors=True)
    return rcode


if __name__ == '__main__':
    sys.exit(main())
