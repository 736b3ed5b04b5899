import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':   # the order in which candidates and facts are met must not vary between runs
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
import re, time, json, subprocess, tempfile, hashlib, multiprocessing as mp, traceback
import ir
REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def includes():
    inc = [os.path.join(VERIF, 'native', 'include'), REPO + '/src', REPO + '/planarity', REPO + '/judy/src', REPO + '/src/planarity', REPO]
    return inc


def build_module(srcs, keep, workdir):
    lls = []
    for s in srcs:
        out = os.path.join(workdir, os.path.basename(s).replace('.c', '.ll'))
        rc, err = ir.compile_ll(os.path.join(REPO, 'src', s), out, includes())
        if rc != 0:
            raise RuntimeError('clang failed on %s: %s' % (s, err[:2000]))
        lls.append(out)
    if len(lls) > 1:
        lk = os.path.join(workdir, 'linked.ll')
        r = subprocess.run([ir.LINK, '-S'] + lls + ['-o', lk], capture_output=True, text=True)
        if r.returncode != 0:
            raise RuntimeError('llvm-link failed: ' + r.stderr[:2000])
    else:
        lk = lls[0]
    opt = os.path.join(workdir, 'opt.ll')
    rc, err = ir.optimise(lk, opt, keep)
    if rc != 0:
        raise RuntimeError('opt failed: ' + err[:2000])
    return opt


def _worker(job):
    optfile, mods, fn, cfg = job
    sys.path.insert(0, os.path.join(VERIF, 'engine'))
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    import vc, builtins_, importlib
    try:
        contracts = {}
        for m in mods:
            contracts.update(importlib.import_module(m).CONTRACTS)
        mod = load_mod(optfile)
        types = ir.Types(mod)
        eng = vc.Engine(mod, types, contracts, builtins_.BUILTINS, cfg)
        r = eng.verify(fn)
    except Exception as e:
        r = vc.Result(fn)
        r.error = 'engine: ' + traceback.format_exc()[-1500:]
    return r


_mods = {}


def load_mod(path):
    if path not in _mods:
        _mods[path] = ir.Module(open(path).read())
    return _mods[path]


def fns_of(g):
    import importlib
    return [k for k, v in importlib.import_module(g['mods'][-1]).CONTRACTS.items() if not v.assumed] if g['fns'] == '*' else g['fns']


def verify_all(groups, cfg=None, jobs=8):
    """groups: list of dict(srcs, mods, fns); fns '*': all of the last module. returns dict fn->Result"""
    import importlib
    groups = [dict(g, fns=fns_of(g)) for g in groups]
    cfg = cfg or {}
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    import importlib
    out = {}
    with tempfile.TemporaryDirectory(prefix='vp_') as wd:
        todo = []
        for gi, g in enumerate(groups):
            contracts = {}
            for m in g['mods']:
                contracts.update(importlib.import_module(m).CONTRACTS)
            d = os.path.join(wd, 'g%d' % gi)
            os.mkdir(d)
            import builtins_
            try:
                opt = build_module(g['srcs'], set(contracts) | set(builtins_.BUILTINS), d)
                load_mod(opt)
            except Exception as e:
                import vc
                for fn in g['fns']:
                    r = vc.Result(fn)
                    r.error = 'build: ' + str(e)[:1500]
                    out[fn] = r
                continue
            for fn in g['fns']:
                todo.append((opt, g['mods'], fn, cfg))
        if jobs == 1 or len(todo) == 1:
            for t in todo:
                out[t[2]] = _worker(t)
        elif todo:
            with mp.get_context('fork').Pool(min(jobs, len(todo)), maxtasksperchild=1) as pool:
                for r in pool.imap_unordered(_worker, todo, chunksize=1):
                    out[r.fn] = r
    return out


HINTS = os.path.join(VERIF, 'contracts', 'hints.json')


def load_hints():
    return json.load(open(HINTS)) if os.path.exists(HINTS) else {}


def good(r):
    return not r.failed and not r.error and r.obligations == r.discharged and r.obligations > 0


def report(out, verbose=True):
    for fn, r in sorted(out.items()):
        s = 'OK ' if not r.failed and not r.error and r.obligations == r.discharged and r.obligations > 0 else 'FAIL'
        print('%s %-34s obl %d/%d exits %d q %d t %.1fs/%.1fs %s %s' % (s, fn, r.discharged, r.obligations, r.exits, r.queries, r.wall, r.solver_s, dict(r.backends), r.error or ''))
        if verbose:
            for f in r.failed[:8]:
                print('      ', f)


if __name__ == '__main__':
    import argparse, importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('--mods')
    ap.add_argument('--srcs')
    ap.add_argument('--fns', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--slow', type=float, default=0)
    ap.add_argument('--fto', type=float, default=120)
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--learn', action='store_true')
    ap.add_argument('--nohints', action='store_true')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    mods = a.mods.split(',')
    C = {}
    for m in mods:
        C.update(importlib.import_module(m).CONTRACTS)
    fns = a.fns.split(',') if a.fns else [k for k, v in C.items() if not v.assumed]
    out = verify_all([dict(srcs=a.srcs.split(','), mods=mods, fns=fns)], dict(dumpreal=bool(os.environ.get('DUMPREAL')), slow=a.slow, trace=a.trace, fto=a.fto, hints={} if a.nohints or a.learn else load_hints()), a.jobs)
    report(out)
    if a.learn:
        h = load_hints()
        for fn, r in out.items():
            if good(r):
                h.pop(fn, None)
                if r.loops and r.wall > 8:
                    h[fn] = r.loops
        json.dump(h, open(HINTS, 'w'), indent=0, sort_keys=True)
    if a.v:
        for fn, r in out.items():
            print(fn, json.dumps(r.loops, indent=1), r.assumptions)
