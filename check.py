#!/usr/bin/env python3
"""check.py PROPERTY [--thorough] : decides one property by seeded simulation against /repo's working tree.
Exit 0: held on everything explored.  Exit 1: a VIOLATION line with a replay file.  Exit 2: the check itself failed."""
import os, sys, json, time, subprocess, glob, shutil, hashlib, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF)
import build as B
REPO = B.REPO
PIPE = {'P%02d' % i for i in range(1, 13)}
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
sys.path.insert(0, os.path.join(VERIF, 'run'))
PIPE_REAL = 'real code: the ucc driver, cpp and cc1 (all their sources from /repo/src, recompiled and run as coroutines in one process). Stubs: kernel (file system, processes, clock, pids, umask, fds), libc entry points that touch them (stdio, malloc, time, process, environment), as, ld, sh, cat, cp, mv, rm, -wrapper programs'
RULES = {
 'P01': ('random command lines over generated sources with 0-3 injected I/O or process faults; non-trivial: a fault fired, the output channel was unusable or the input was erroneous', 'fault'),
 'P02': ('as P01, judged on what is left of the outputs after a failing run; non-trivial: a fault fired, the output channel was unusable or the input was erroneous', 'fault'),
 'P03': ('as P01, judged on temporary files; non-trivial as P01', 'fault'),
 'P04': ('as P01, judged on a diff of the whole simulated file system; non-trivial as P01', 'fault'),
 'P05': ('as P01 with process deaths, failing fork/exec and inherited children; non-trivial as P01', 'fault'),
 'P06': ('one invocation executed under a canonical and under a randomised environment (heap layout and contents, stack contents, clock, pids, TMPDIR, unrelated variables, short reads); non-trivial: it compiled successfully', 'layout'),
 'P07': ('one allocation (or every allocation from it on) of one process fails; non-trivial: the fault fired', 'fault'),
 'P08': ('2-4 invocations in one directory interleaved at system-call granularity by a seeded scheduler, half with faults; non-trivial: more than two context switches', 'schedule'),
 'P09': ('histories of 1-4 invocations over the same paths with edits between them; non-trivial: not the first phase, or several files present', 'history'),
 'P10': ('include graphs of 1-8 headers with odd names and an edit history of 1-4 builds; all runs are non-trivial', 'history'),
 'P11': ('clock values near boundaries, clock advance and jumps during the run, file times, TZ and SOURCE_DATE_EPOCH values; all runs are non-trivial', 'clock'),
 'P12': ('stored bytes of a source or header cut, flipped, zeroed, duplicated or spliced, or a read failing; executed under two hostile memory layouts; all runs are non-trivial', 'damage'),
}
ASSUME_PIPE = ['the simulated kernel and libc behave like Linux/glibc for the calls ucc, cpp and cc1 make', 'as, ld, sh and the copying tools are stubs that honour their documented command lines', 'a clean batch is evidence, not proof: seeds are sampled']

def rules(pid):
    if pid in PIPE: return RULES[pid][0], PIPE_REAL, ASSUME_PIPE
    import runinfo
    return runinfo.RULES[pid], runinfo.REAL, runinfo.ASSUME

def known():
    out = []; p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l.startswith('known: '): continue
            w = l.split(' ', 4); d = dict(x.split('=', 1) for x in w[1:4]); d['what'] = w[4]; out.append(d)
    return out

def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    if not args: print(__doc__); return 2
    pid = args[0]; tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    secs = float(os.environ.get('VERIF_SECONDS', '0')) or (600 if tier == 'thorough' else 45)
    t0 = time.time(); bd = B.build()
    eng = os.path.join(bd, 'uccsim' if pid in PIPE else 'runsim')
    env = dict(os.environ, UCCSIM_INC=os.path.join(REPO, 'src/include'), UCCSIM_CORPUS=os.path.join(VERIF, 'corpus/cases.txt'), UCCSIM_BUILD=bd, UCCSIM_RUN=os.path.join(VERIF, 'run'), LC_ALL='C', TZ='UTC')
    for k in ('SOURCE_DATE_EPOCH', 'TMPDIR'): env.pop(k, None)
    tmp = tempfile.mkdtemp(prefix='vchk-'); rc = 0; violations = []; errors = []; kf_seen = set()
    rep = os.path.join(VERIF, 'replays'); os.makedirs(rep, exist_ok=True)
    def replay(f):
        try: r = subprocess.run([eng, 'replay', f, 'quiet'], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=240, cwd=tmp)
        except subprocess.TimeoutExpired: return 2, set(), 'timeout', ''
        cls = set(); msg = ''
        for l in r.stdout.splitlines():
            if l.startswith('violates '): c = l.split('[', 1)[1].split(']', 1)[0]; cls.add(c); msg = msg or l
        h = [l for l in r.stdout.splitlines() if l.startswith('trace-hash')]
        return r.returncode, cls, (h[0] if h else ''), msg
    kfs = [k for k in known() if k['property'] == pid]
    try:
        for k in kfs:      # the recorded findings themselves
            c, cls, _, msg = replay(os.path.join(VERIF, k['replay']))
            if k['class'] in cls: kf_seen.add(k['class']); print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        # scenarios kept from earlier failures (of repaired defects and of planted bugs)
        nreg = 0
        for f in sorted(glob.glob(os.path.join(VERIF, 'regress', pid, '*'))):
            nreg += 1; c, cls, h, msg = replay(f)
            if c == 1 and cls - set(k['class'] for k in kfs): violations.append({'seed': 'regress', 'class': sorted(cls)[0], 'message': msg, 'what': os.path.basename(f), 'file': f})
            elif c not in (0, 1): errors.append('replaying %s ended with %d' % (f, c))
        procs = []
        left = secs
        for w in range(WORKERS):
            out = os.path.join(tmp, 'w%d' % w)
            procs.append((out, subprocess.Popen([eng, 'run', pid, str(seed * 1000003 * 8 + w), str(WORKERS), '1000000000', str(left), out, '4'], env=env, cwd=tmp, stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'))))
        res = []
        for out, p in procs:
            try: p.wait(timeout=secs + 240)
            except subprocess.TimeoutExpired: p.kill(); errors.append('worker did not finish')
            if os.path.exists(out):
                try: res.append(json.load(open(out)))
                except Exception as e: errors.append('bad worker result: %s' % e)
            else: errors.append('worker failed (%s): %s' % (p.returncode, open(out + '.err').read()[-300:]))
        if any(r['nondeterministic'] for r in res): errors.append('a simulated run was not repeatable')
        for r in res:
            for v in r['violations']:
                if any(k['class'] == v['class'] for k in kfs): kf_seen.add(v['class']); continue
                violations.append(v)
        fps = set()
        for f in glob.glob(os.path.join(tmp, 'w*.fps')):
            b = open(f, 'rb').read(); fps.update(b[i:i+8] for i in range(0, len(b), 8))
        # gate: every violation must repeat in two fresh processes, identically
        good = []; percls = {}
        for v in violations:
            if percls.get(v['class'], 0) >= 3: continue
            a, b = replay(v['file']), replay(v['file'])
            if a[0] == 1 and b[0] == 1 and v['class'] in a[1] and v['class'] in b[1] and (a[2] == b[2] or v['class'] == 'hang'): percls[v['class']] = percls.get(v['class'], 0) + 1; v['message'] = v['message'] or a[3]; good.append(v)
            else: errors.append('violation [%s] %s does not replay identically' % (v['class'], v['message'][:200]))
        for v in good:
            d = open(v['file'], 'rb').read(); path = os.path.join(rep, '%s-%s.replay' % (pid, hashlib.sha256(d).hexdigest()[:10]))
            if os.path.realpath(v['file']).startswith(os.path.join(VERIF, 'regress')): path = v['file']
            else: open(path, 'wb').write(d)
            print('VIOLATION property=%s replay=%s' % (pid, path)); print('  class %s, seed %s\n  %s\n  %s' % (v['class'], v['seed'], v['message'][:700], v['what'][:700]))
        rule, real, assume = rules(pid)
        tot = lambda k: sum(r.get(k, 0) for r in res); wall = time.time() - t0
        merge = {}; fired = {}
        for r in res:
            for k, n in r['counts'].items(): merge[k] = merge.get(k, 0) + n
            for k, n in r['fired'].items(): fired[k] = fired.get(k, 0) + n
        run_s = max([r['wall'] for r in res] + [1e-9])
        samples = [s[:600] for r in res for s in r['samples']][:6]
        cov = {'evaluations': tot('sims'), 'distinct_nontrivial': min(len(fps), tot('nontrivial')) if fps else tot('nontrivial'), 'rule': 'One evaluation is one seeded scenario: ' + rule + '. Distinct: different fingerprints of the whole execution (every operation with its path, exec arguments, outputs, final file system).', 'samples': samples,
               'simulated_worlds': tot('worlds'), 'nontrivial_phases': tot('nontrivial'), 'distinct_execution_fingerprints': len(fps), 'runs_per_hour': int(tot('sims') / run_s * 3600), 'seeds_per_hour': int((tot('sims') + tot('nogen')) / run_s * 3600), 'simulated_operations': tot('ops'), 'simulated_seconds': round(tot('simsec'), 1), 'context_switches': tot('switches'),
               'faults_fired': fired, 'counts': merge, 'seeds_generating_no_scenario': tot('nogen'), 'runs_given_up': tot('skipped'), 'determinism_double_runs': tot('replayed'), 'regression_scenarios': nreg, 'components': real, 'workers': WORKERS, 'first_seed': seed * 1000003 * 8, 'known_findings_seen': sorted(kf_seen)}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov, 'assumptions': assume, 'wall_s': round(wall, 2), 'violations': len(good)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        print('%s %s: %d runs, %d distinct, %d non-trivial, %.0f runs/h, %d violations, %.0f s' % (pid, tier, tot('sims'), len(fps), tot('nontrivial'), tot('sims') / run_s * 3600, len(good), wall))
        for e in errors: print('ERROR: ' + e, file=sys.stderr)
        if good: rc = 1
        elif errors or not res or tot('sims') == 0: rc = 2
    finally: shutil.rmtree(tmp, ignore_errors=True)
    return rc
if __name__ == '__main__': sys.exit(main())
