#!/usr/bin/env python
"""Decides one property:  check.py C01 [--tier quick|thorough] [--only NAME] [--strict] | check.py --replay FILE

Exit 0: every harness was decided and held (or only listed known findings fail).  Exit 1: a replayed counterexample, with
a VIOLATION line.  Exit 2: error / nothing could be decided.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('MKL_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_DISABLE_JIT', '1')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

TRUSTED = ['symx (the symbolic executor in /verif/symx): term rewriting over the reals, numpy/scipy models',
           'z3 4.x (linear and non-linear real arithmetic)', 'CPython executing the code under test']


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def load_prop(pid):
    return importlib.import_module(f'props.{pid.lower()}')


def worker(args):
    pid, idx, seed, tier, budget, conn = args
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    from symx import engine
    mod = load_prop(pid)
    h = mod.HARNESSES[idx]
    try:
        r = engine.run_harness(h['name'], h['fn'], h.get('cfg', {}), seed=seed, maxpaths=h.get('maxpaths', 400),
                               samples=h.get('samples', 2) * (3 if tier == 'thorough' else 1), budget=budget,
                               known=[k['label'] for k in known_findings(pid) if matches(k, h['name'], k)])
        out = dict(idx=idx, name=r.name, status=r.status, violations=r.violations, error=r.error, functions=sorted(r.functions),
                   files=sorted(r.files), models=sorted(r.models), stats=r.stats, wall=r.wall, samples=r.samples)
    except BaseException as e:
        out = dict(idx=idx, name=h['name'], status='error', violations=[], error=f'{type(e).__name__}: {e}\n{traceback.format_exc()}',
                   functions=[], files=[], models=[], stats={}, wall=0, samples=0)
    conn.send(out)
    conn.close()


TOTAL = 660.0     # seconds for the harnesses of a quick run; what is left then is undecided


def run_all(pid, idxs, seed, tier, jobs, budget):
    """Own scheduler: one forked process per harness, killed when it overruns."""
    ctx = mp.get_context('fork')
    todo = list(idxs)
    running = {}
    res = {}
    mod = load_prop(pid)
    end = time.time() + (TOTAL if tier == 'quick' else 1e9)
    while todo or running:
        while todo and len(running) < jobs:
            i = todo.pop(0)
            if time.time() > end:
                res[i] = dict(idx=i, name=mod.HARNESSES[i]['name'], status='error', violations=[], error='no time left', functions=[],
                              files=[], models=[], stats={}, wall=0, samples=0)
                continue
            budget = min(budget, max(20.0, end - time.time()))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=((pid, i, seed, tier, budget, b),))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        done = []
        for i, (p, a, t) in running.items():
            if a.poll(0.02):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(idx=i, name=mod.HARNESSES[i]['name'], status='error', violations=[], error='worker died', functions=[],
                                  files=[], models=[], stats={}, wall=time.time() - t, samples=0)
                p.join()
                done.append(i)
            elif time.time() - t > budget + 90 or time.time() > end + 60:
                os.kill(p.pid, signal.SIGKILL)
                p.join()
                res[i] = dict(idx=i, name=mod.HARNESSES[i]['name'], status='error', violations=[], error='harness overran its time budget',
                              functions=[], files=[], models=[], stats={}, wall=time.time() - t, samples=0)
                done.append(i)
        for i in done:
            del running[i]
    return [res[i] for i in idxs]


def matches(k, harness, v):
    if k.get('harness') and k['harness'] != harness:
        return False
    return k['label'] == v['label']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--strict', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--inline', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if a.replay:
        return replay(a.replay)
    pid = a.property
    t0 = time.time()
    mod = load_prop(pid)
    tier = a.tier
    idxs = [i for i, h in enumerate(mod.HARNESSES) if tier == 'thorough' or h.get('tier', 'quick') == 'quick']
    if a.only:
        idxs = [i for i in idxs if a.only in mod.HARNESSES[i]['name']]
    # heaviest first
    idxs.sort(key=lambda i: -mod.HARNESSES[i].get('weight', 1))
    budget = getattr(mod, 'BUDGET', {}).get(tier, 300 if tier == 'quick' else 1500)
    if a.inline:
        class C:
            def send(self, o):
                self.o = o

            def close(self):
                pass
        results = []
        for i in idxs:
            c = C()
            worker((pid, i, seed, tier, budget, c))
            results.append(c.o)
    else:
        results = run_all(pid, idxs, seed, tier, a.jobs, budget)
    known = known_findings(pid)
    nviol, lines, undecided = 0, [], []
    rdir = os.path.join(HERE, 'evidence', 'replay')
    hit = set()
    for r in results:
        if a.verbose:
            print(f"  {r['status']:9s} {r['name']:45s} {r['wall']:6.1f}s paths={r['stats'].get('paths')} obl={r['stats'].get('obligations')} "
                  f"q={r['stats'].get('queries')} {r['error'] or ''}")
        for v in r['violations']:
            k = next((k for k in known if matches(k, r['name'], v)), None)
            if k is not None:
                hit.add(known.index(k))
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f'{pid}-{nviol}.json')
            with open(path, 'w') as f:
                json.dump(dict(property=pid, harness=r['name'], label=v['label'], msg=v['msg'], point=v['point']), f, indent=1)
            lines.append(f'VIOLATION property={pid} replay={path}')
            print(f'  {r["name"]}: {v["label"]}: {v["msg"]}')
        if r['status'] == 'error':
            undecided.append(r)
    for i in sorted(hit):
        print(f"KNOWN-FINDING: property={pid} {known[i]['what']}")
    for r in undecided:
        print(f"UNDECIDED {pid} {r['name']}: {(r['error'] or '').strip()[:600]}")
    write_evidence(pid, mod, tier, seed, results, undecided, nviol, time.time() - t0)
    ndec = len(results) - len(undecided)
    print(f'{pid} {tier}: {ndec}/{len(results)} harnesses decided, {sum(r["stats"].get("obligations", 0) for r in results)} obligations, '
          f'{sum(r["stats"].get("queries", 0) for r in results)} solver queries, {nviol} violations, {time.time() - t0:.1f}s')
    if nviol:
        for l in lines[:20]:
            print(l)
        return 1
    if undecided and (a.strict or ndec * 10 < len(results)):
        return 2
    return 0


def write_evidence(pid, mod, tier, seed, results, undecided, nviol, wall):
    tot = lambda k: sum(r['stats'].get(k, 0) for r in results)  # noqa: E731
    from symx import engine as _e; z3 = _e.z3
    ev = dict(
        property=pid, tier=tier, seed=seed, level='other', wall_s=round(wall, 2), violations=nviol,
        coverage=dict(
            explanation='Bounded symbolic execution of the functions below, taken from /repo at run time; every input is a real variable, '
                        'every branch on an input forks a path, and z3 decides each obligation for all values within the bounds. '
                        'Open obligations are turned into concrete inputs and replayed on the real code before they count.',
            bounds=getattr(mod, 'BOUNDS', ''), outside=getattr(mod, 'OUTSIDE', ''),
            harnesses=len(results), harnesses_decided=len(results) - len(undecided), undecided=[dict(name=r['name'], reason=(r['error'] or '')[:500]) for r in undecided],
            obligations=tot('obligations'), discharged=tot('obligations') - nviol if not undecided else sum(r['stats'].get('obligations', 0) for r in results if r['status'] == 'ok'),
            paths=tot('paths'), solver_queries=tot('queries'), solver_unsat=tot('unsat'), solver_sat=tot('sat'), solver_unknown=tot('unknown'),
            nonlinear_queries=tot('nra'), solver_seconds=round(tot('solver_s'), 3), solver='z3 ' + z3.get_version_string(),
            concrete_replays=tot('replays'), encoding_validation_runs=sum(r['samples'] for r in results),
            functions_encoded=sorted({f for r in results for f in r['functions']}),
            files=sorted({os.path.relpath(f, os.environ.get('VERIF_REPO', '/repo')) for r in results for f in r['files']}),
            library_models_used=sorted({f for r in results for f in r['models']}),
            per_harness=[dict(name=r['name'], status=r['status'], paths=r['stats'].get('paths'), obligations=r['stats'].get('obligations'),
                              queries=r['stats'].get('queries'), solver_s=round(r['stats'].get('solver_s', 0), 3), wall_s=round(r['wall'], 2)) for r in results],
            trusted_base=TRUSTED,
        ),
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
    )
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    from symx import engine
    with open(path) as f:
        d = json.load(f)
    mod = load_prop(d['property'])
    h = next(h for h in mod.HARNESSES if h['name'] == d['harness'])
    fails, env = engine.run_concrete(h['fn'], h.get('cfg', {}), dict(d['point']), random.Random(1))
    for l, m in fails:
        print(f'{l}: {m}')
    if any(l != 'exception*' for l, m in fails):
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
