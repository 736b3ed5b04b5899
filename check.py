#!/opt/veriftools/pyvenv/bin/python
"""check.py ID [--tier quick|thorough]: decides one property against /repo's working tree.
 1. proof: every function under contract for ID, from LLVM IR of the current sources.
 2. bounded: the executable form of the contracts, run against the same sources
    (replay search for the proof, stand-in for functions outside it).
exit 0 / exit 1 with VIOLATION line."""
import os, sys, time, json, subprocess, tempfile, shutil, argparse, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'engine'))
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.path.insert(0, VERIF)
import runner, props
REPO = runner.REPO
CLANG = '/usr/bin/clang-18'
LIB = props.LIBSRCS


def build_native(P, wd, env):
    """compile the library sources and the harness; returns (exe, error)"""
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=function']
    base = [CLANG, '-DHAVE_CONFIG_H', '-O1', '-g1', '-w', '-ffunction-sections', '-fdata-sections',
            '-I' + VERIF + '/native/include', '-I' + REPO + '/src', '-I' + REPO + '/judy/src', '-I' + VERIF + '/native'] + san
    jobs = []
    objs = []
    errs = []
    todo = [(REPO + '/src/' + s + '.c', wd + '/' + s + '.o', s) for s in LIB if s not in P.get('native_include', [])]
    hs = VERIF + '/native/' + P['native']
    todo.append((hs, wd + '/harness.o', 'harness'))
    running = []
    def reap(block):
        for t in list(running):
            if block or t[0].poll() is not None:
                out = t[0].communicate()[1]
                running.remove(t)
                if t[0].returncode != 0:
                    errs.append((t[2], out[-1500:]))
                else:
                    objs.append(t[1])
                return
    for src, obj, nm in todo:
        while len(running) >= 8:
            reap(False)
            time.sleep(0.005)
        running.append((subprocess.Popen(base + ['-c', src, '-o', obj], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), obj, nm))
    while running:
        reap(True)
    if any(e[0] == 'harness' for e in errs):
        return None, 'harness does not compile: ' + str(errs)
    exe = wd + '/harness'
    link = [CLANG] + san + sorted(objs) + ['-o', exe, '-Wl,--gc-sections', '-lm', '-lgsl', '-lgslcblas']
    r = subprocess.run(link, capture_output=True, text=True)
    if r.returncode != 0:
        r = subprocess.run(link + ['-Wl,--unresolved-symbols=ignore-all'], capture_output=True, text=True)
    if r.returncode != 0:
        return None, 'link failed: ' + r.stderr[-1500:] + str(errs)[:1500]
    return exe, None


def run_native(P, pid, tier, seed, rdir):
    """returns dict(status='ok'|'violation'|'error', ...)"""
    wd = tempfile.mkdtemp(prefix='vpn_')
    try:
        t0 = time.time()
        exe, err = build_native(P, wd, None)
        if err:
            return dict(status='error', error=err, secs=time.time() - t0)
        secs = P.get('secs', 20) if tier == 'quick' else P.get('tsecs', 240)
        nproc = P.get('procs', 7) if tier == 'quick' else 8
        procs = []
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=4' % P.get('leaks', 0),
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
        for k in range(nproc):
            d = '%s/run%d' % (wd, k)
            os.mkdir(d)
            out, st = d + '/replay.txt', d + '/stats.json'
            ef = open(d + '/stderr', 'w')
            p = subprocess.Popen([exe, '--seed', str(seed * 1000 + k), '--secs', str(secs), '--out', out, '--stats', st, '--prop', pid, '--tier', '1' if tier == 'thorough' else '0'],
                                 stdout=subprocess.DEVNULL, stderr=ef, cwd=d, env=env)
            procs.append((p, d, out, st))
        ev = di = 0
        samples = []
        viol = None
        deadline = time.time() + secs * 3 + 120
        for p, d, out, st in procs:
            try:
                p.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            if os.path.exists(st):
                j = json.load(open(st))
                ev += j['evaluations']
                di += j['distinct_nontrivial']
                samples += j['samples']
            elif os.path.exists(out) and viol is None:
                se = open(d + '/stderr', errors='replace').read()
                keep = se[:3000]
                i = se.find('ERROR: AddressSanitizer')
                if i > 3000:
                    keep = se[i:i + 3000]
                viol = open(out, errors='replace').read() + '\n--- stderr of the harness ---\n' + keep
            elif viol is None and p.returncode not in (0, None, -9):
                viol = 'harness ended with code %s\n' % p.returncode + open(d + '/stderr', errors='replace').read()[:4000]
        r = dict(status='violation' if viol else 'ok', evaluations=ev, distinct_nontrivial=di, samples=samples[:6], secs=time.time() - t0, detail=viol)
        if not viol and ev == 0:
            r = dict(status='error', error='the harness gave no answer', secs=time.time() - t0)
        return r
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-native', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    a = ap.parse_args()
    pid, tier = a.id, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = props.PROPS[pid]
    t0 = time.time()
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '_'):
            os.unlink(os.path.join(rdir, f))
    out = {}
    if not a.no_proof:
        cfg = dict(hints=runner.load_hints(), fto=P.get('fto', 150) * (1 if tier == 'quick' else 3), trace=False, slow=0)
        out = runner.verify_all(P['groups'], cfg, 8)
        runner.report(out)
    nat = dict(status='skipped')
    if P.get('native') and not a.no_native:
        nat = run_native(P, pid, tier, seed, rdir)
        print('bounded:', {k: v for k, v in nat.items() if k not in ('samples', 'detail')})
    again = [fn for fn, r in out.items() if not getattr(r, 'missing', False) and not runner.good(r) and not str(r.error or '').startswith('build:')]
    if again and nat.get('status') != 'violation' and len(again) <= 8 and time.time() - t0 < 330:
        # a solver that ran out of time on a busy machine is not a violation: once more, with more time
        print('again:', again)
        groups = [dict(g, fns=[f for f in (runner.fns_of(g)) if f in again]) for g in P['groups']]
        out2 = runner.verify_all([g for g in groups if g['fns']], dict(cfg, scale=3, maxfto=330 if tier == 'quick' else 1500), 8)
        runner.report(out2)
        for fn, r in out2.items():
            if runner.good(r) or len(r.failed) < len(out[fn].failed):
                out[fn] = r
    # ---- verdict
    obl = sum(r.obligations for r in out.values())
    dis = sum(r.discharged for r in out.values())
    bad = {}
    for fn, r in out.items():
        if getattr(r, 'missing', False):
            continue
        if r.error or r.failed or r.obligations != r.discharged or r.obligations == 0:
            bad[fn] = r
    assumptions = list(P.get('assumptions', []))
    for r in out.values():
        for x in r.assumptions:
            if x not in assumptions:
                assumptions.append(x)
    be = {}
    for r in out.values():
        for k, v in r.backends.items():
            be[k] = be.get(k, 0) + v
    missing = [fn for fn, r in out.items() if getattr(r, 'missing', False)]
    viol = []
    if nat.get('status') == 'violation':
        p = os.path.join(rdir, pid + '_input.txt')
        with open(p, 'w') as f:
            f.write(nat['detail'])
            f.write('\nrerun: VERIF_SEED=%d python3-vt %s/check.py %s --tier %s --no-proof\n' % (seed, VERIF, pid, tier))
        viol.append('VIOLATION property=%s replay=%s' % (pid, p))
        print(nat['detail'][:1500])
    if bad:
        p = os.path.join(rdir, pid + '_obligations.txt')
        with open(p, 'w') as f:
            f.write('property: %s\nobligations that the verifier did not discharge:\n' % pid)
            for fn, r in sorted(bad.items()):
                f.write('\n%s: %d of %d discharged\n' % (fn, r.discharged, r.obligations))
                if r.error:
                    f.write('  error: %s\n' % r.error)
                for x in r.failed:
                    f.write('  %s\n' % (x,))
            if nat.get('status') == 'violation':
                f.write('\nfailing input found: see %s_input.txt\n' % pid)
            else:
                f.write('\nno failing input found by the bounded search (%s cases)\n' % nat.get('evaluations'))
        if nat.get('status') != 'violation':
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    if nat.get('status') == 'error':
        p = os.path.join(rdir, pid + '_harness.txt')
        open(p, 'w').write(nat['error'])
        print('bounded part gave no answer:', nat['error'][:800])
        if not viol:
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, p))
    for l in props.known_findings(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'),
              coverage=dict(obligations=obl, discharged=dis,
                            checker_cmd='python3-vt %s/check.py %s --tier %s' % (VERIF, pid, tier),
                            trusted_base=props.TRUSTED_BASE + P.get('trusted', []),
                            functions_under_contract=sorted(fn for fn in out if fn not in missing),
                            contracts_without_function=missing,
                            per_function={fn: dict(obligations=r.obligations, discharged=r.discharged, solver_s=round(r.solver_s, 2), loops=len(r.loops)) for fn, r in sorted(out.items())},
                            backends=be, solver_s=round(sum(r.solver_s for r in out.values()), 2), queries=sum(r.queries for r in out.values()),
                            bounded=dict(functions=P.get('bounded', []), bound=P.get('bound', ''), evaluations=nat.get('evaluations', 0), distinct_nontrivial=nat.get('distinct_nontrivial', 0),
                                         samples=nat.get('samples', []), status=nat.get('status'), secs=round(nat.get('secs', 0), 1))),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in viol:
        print(v)
    if not viol:
        print('property %s: %d/%d obligations over %d functions, %s bounded cases; holds' % (pid, dis, obl, len(out) - len(missing), nat.get('evaluations', 0)))
    sys.exit(1 if viol else 0)


if __name__ == '__main__':
    main()
