#!/opt/venv/bin/python
"""Solver-based check of one property against the current source of /repo.

    check.py C01 [--tier quick|thorough] [--only NAME] [--strict] [-v]
    check.py --replay FILE        re-run a recorded counterexample on the unpatched code
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback
import warnings

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(_v, '1')

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

warnings.simplefilter('ignore')

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
import scipy.optimize  # noqa: E402,F401
import scipy.stats  # noqa: E402,F401
import z3  # noqa: E402,F401

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
# never trust a cached compilation of the code under test
sys.pycache_prefix = os.path.join(HERE, 'no-such-cache')
import melodist  # noqa: E402

assert os.path.abspath(melodist.__file__).startswith(os.path.abspath(REPO) + os.sep), melodist.__file__
from engine import harness  # noqa: E402

ASSUMPTIONS = [
    'float64 arithmetic is modelled by exact real arithmetic; rounding error is outside the claim '
    '(stated equalities carry a tolerance of %g)' % harness.SYM_TOL,
    'exp/log/sqrt/pow/trigonometric functions of symbolic arguments are modelled by sound axioms '
    '(range, monotonicity, inverses, addition of numeric lemmas), constants by libm',
    'numpy/pandas containers are the real ones working on object arrays; element-wise float '
    'kernels are replaced by their exact counterpart',
    'random draws are arbitrary reals of [0, 1)',
]


# ---------------------------------------------------------------- process pool

def _child(conn, fn, args):
    try:
        conn.send(('ok', fn(*args)))
    except BaseException as e:  # noqa: BLE001  (reported to the parent)
        conn.send(('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])))
    finally:
        conn.close()


def run_pool(jobs, nproc, hard_deadline, per_job=None):
    """jobs: list of (key, fn, args, timeout); fork one process each; -> {key: (status, value)}"""
    ctx = mp.get_context('fork')
    todo = list(jobs)
    running = {}
    out = {}
    while todo or running:
        while todo and len(running) < nproc:
            key, fn, args, tmo = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, fn, args), daemon=True)
            p.start()
            b.close()
            running[key] = (p, a, time.time() + tmo)
        ready = mp.connection.wait([r[1] for r in running.values()], timeout=0.5)
        now = time.time()
        for key in list(running):
            p, a, dl = running[key]
            if a in ready:
                try:
                    out[key] = a.recv()
                except EOFError:
                    out[key] = ('err', 'worker died')
                p.join()
                del running[key]
            elif now > dl or now > hard_deadline:
                p.kill()
                p.join()
                out[key] = ('err', 'killed: time limit')
                del running[key]
        if now > hard_deadline:
            for key, *_ in todo:
                out[key] = ('err', 'not started: time limit')
            todo = []
    return out


import multiprocessing.connection  # noqa: E402


# ---------------------------------------------------------------- main

def load(prop):
    mod = importlib.import_module('props.%s' % prop.lower())
    return mod


def obligations(mod, prop, tier, seed):
    from props.again import again
    from props.forms import forms
    from props.long import long
    obs = mod.obligations(tier, seed)
    return obs + again(prop, obs) + long(prop, obs) + forms(prop, obs)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                kv = dict(t.split('=', 1) for t in line.split()[2:4] if '=' in t)
                out.append((kv.get('obligation'), kv.get('label'), line))
    return out


def agree(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    return abs(a - b) <= 1e-7 * (1 + abs(a) + abs(b)) * 10


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--strict', action='store_true')
    ap.add_argument('--replay')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 4))
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.selftest:
        from engine import selftest
        return selftest.main()
    prop = args.prop
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    hard = t0 + float(os.environ.get('VERIF_WALL', 780 if tier == 'quick' else 5400))
    mod = load(prop)
    obs = [o for o in obligations(mod, prop, tier, seed) if tier == 'thorough' or o.tier == 'quick']
    if args.only:
        obs = [o for o in obs if args.only in o.name]
    byname = {o.name: o for o in obs}
    assert len(byname) == len(obs), 'duplicate obligation names'
    jobs = [(o.name, harness.run_symbolic, (o, seed), o.budget + 60)
            for o in sorted(obs, key=lambda o: -o.weight)]
    sres = run_pool(jobs, args.j, hard - 60)

    # replays of counterexamples and path witnesses on the unpatched code
    cjobs, variants = [], {}
    for o in obs:
        st, r = sres[o.name]
        if st != 'ok':
            cjobs.append(((o.name, 'default', 0), harness.run_concrete, (o, {}), 120))
            continue
        for k, c in enumerate(r['cex']):
            # the counterexample itself and, should it be too special (ties, rounding), points near it
            for j, near in enumerate((None, 'close', 'any')):
                v = dict(c['values'], **({'__near__': near} if near else {}))
                variants[o.name, 'cex', 10 * k + j] = v
                cjobs.append(((o.name, 'cex', 10 * k + j), harness.run_concrete, (o, v), 120))
        for k, v in enumerate(r['witnesses'][: 40]):
            cjobs.append(((o.name, 'wit', k), harness.run_concrete, (o, v), 120))
        if not r['cex'] and not r['witnesses']:
            cjobs.append(((o.name, 'default', 0), harness.run_concrete, (o, {}), 120))
    cres = run_pool(cjobs, args.j, hard)

    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(prop + '-replay-'):
            os.unlink(os.path.join(evdir, f))

    violations, inconclusive, notes, samples, report = [], [], [], [], []
    tot = dict(states=0, transitions=0, queries=0, solver_s=0.0, proved=0, checks=0, unknown=0,
               validated=0, decided=0, replays=0, realized=0)
    functions = set()
    for o in obs:
        st, r = sres[o.name]
        mine = {k: v for k, v in cres.items() if k[0] == o.name}
        viol = []
        for k, (cst, c) in sorted(mine.items(), key=lambda t: (t[0][1], t[0][2])):
            if cst != 'ok':
                notes.append('%s: replay failed: %s' % (o.name, str(c).splitlines()[0]))
                continue
            tot['replays'] += 1
            if c['status'] == 'violated':
                viol.append((k, c))
            elif c['status'] == 'harness':
                notes.append('%s: %s' % (o.name, c['failed'][0]))
        reasons = []
        if st != 'ok':
            reasons.append('exploration failed: %s' % str(r).splitlines()[0])
            if args.v:
                print(r)
            r = None
        else:
            reasons += r['inconclusive']
            nrep = len([1 for k, c in viol if k[1] == 'cex'])
            if r['cex'] and not nrep:
                reasons.append(
                    'solver counterexample did not reproduce: %s'
                    % '; '.join(sorted(set(c['label'] + (' ' + c['error'] if c['error'] else '')
                                           for c in r['cex'])))
                )
                if args.v:
                    print(o.name, json.dumps(r['cex'][0], default=str)[:3000])
            tot['states'] += r['paths'] - r['infeasible']
            tot['transitions'] += r['decisions']
            tot['queries'] += r['queries']
            tot['solver_s'] += r['solver_s']
            tot['checks'] += r['checks']
            tot['proved'] += r['proved']
            tot['unknown'] += r['q_unknown']
            tot['realized'] += r['realized']
            functions.update(r['functions'])
            # encoding validation
            for i, (vals, pin) in enumerate(r['pinned']):
                c = mine.get((o.name, 'wit', i))
                if c is None or c[0] != 'ok' or c[1]['status'] not in ('held', 'violated'):
                    continue
                if not pin['ok']:
                    reasons.append('encoding run failed: %s' % pin['error'])
                    continue
                a, b = pin['obs'], c[1]['obs']
                if len(a) != len(b) or not all(agree(x, y) for x, y in zip(a, b)):
                    bad = [(x, y) for x, y in zip(a, b) if not agree(x, y)][:3]
                    reasons.append('encoding disagrees with the implementation: %r' % (bad,))
                    if args.v:
                        print(o.name, len(a), len(b), bad, vals)
                else:
                    tot['validated'] += 1
            if r['witnesses'] and len(samples) < 3:
                samples.append(dict(obligation=o.name, inputs={
                    k: r['witnesses'][0][k] for k in list(r['witnesses'][0])[:12]}))
        if viol:
            kf = known_findings(prop)
            for k, c in viol[:2]:
                lab = c['failed'][0] if c['failed'] else '?'
                hit = [t for t in kf if t[0] == o.name and (t[1] in (None, lab.replace(' ', '_')))]
                if hit:
                    print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][2]))
                    continue
                path = os.path.join(evdir, '%s-replay-%d.json' % (prop, len(violations)))
                vals = (variants[k] if r and k[1] == 'cex'
                        else (r['witnesses'][k[2]] if r and k[1] == 'wit' else {}))
                with open(path, 'w') as f:
                    json.dump(dict(property=prop, obligation=o.name, tier=tier, seed=seed,
                                   failed=c['failed'], values=vals, source=k[1],
                                   how='check.py --replay %s' % path), f, indent=1)
                violations.append((o.name, c['failed'], path))
        elif reasons:
            inconclusive.append((o.name, reasons))
        else:
            tot['decided'] += 1
        report.append(dict(
            obligation=o.name, bounds=o.bounds,
            verdict='violated' if viol else ('inconclusive' if reasons else 'holds'),
            paths=(r or {}).get('paths'), checks=(r or {}).get('checks'),
            queries=(r or {}).get('queries'), solver_s=round((r or {}).get('solver_s', 0), 2),
            wall_s=round((r or {}).get('wall_s', 0), 2),
            **({'reasons': reasons[:4]} if reasons else {}),
        ))
        if args.v:
            print('%-46s %-12s paths=%s checks=%s q=%s unk=%s solver=%.1fs wall=%.1fs %s' % (
                o.name, report[-1]['verdict'], report[-1]['paths'], report[-1]['checks'],
                report[-1]['queries'], (r or {}).get('q_unknown'), report[-1]['solver_s'],
                report[-1]['wall_s'], '; '.join(reasons)[:600]))
    wall = time.time() - t0
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot['states'], transitions=tot['transitions'],
            traces_validated_against_impl=tot['validated'], samples=samples,
            obligations=len(obs), obligations_decided=tot['decided'],
            assertions_checked=tot['checks'], assertions_proved=tot['proved'],
            solver_queries=tot['queries'], solver_unknown=tot['unknown'],
            solver_time_s=round(tot['solver_s'], 2), concrete_replays=tot['replays'],
            functions_encoded=sorted(functions), values_fixed_at_c_boundary=tot['realized'],
            inconclusive=[dict(obligation=n, reasons=rs[:4]) for n, rs in inconclusive],
            bounds=report, exhaustive=not inconclusive and not violations,
            explanation='states = feasible execution paths of the encoded functions, '
                        'transitions = branch decisions taken on them',
        ),
        assumptions=ASSUMPTIONS + list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=len(violations),
    )
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for n, rs in inconclusive:
        print('INCONCLUSIVE property=%s obligation=%s: %s' % (prop, n, '; '.join(rs)[:400]))
    for n in sorted(set(notes))[:10]:
        print('NOTE', n)
    print('%s %s: %d obligations, %d decided, %d inconclusive, %d paths, %d queries, '
          '%d assertions, %d traces validated, solver %.1f s, wall %.1f s' % (
              prop, tier, len(obs), tot['decided'], len(inconclusive), tot['states'],
              tot['queries'], tot['checks'], tot['validated'], tot['solver_s'], wall))
    if violations:
        for n, failed, path in violations:
            print('  %s: %s' % (n, '; '.join(failed)[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, violations[0][2]))
        return 1
    if args.strict and inconclusive:
        return 3
    if tot['decided'] == 0 and tot['validated'] == 0 and tot['replays'] == 0:
        print('nothing could be decided')
        return 2
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    obs = {o.name: o for o in obligations(mod, d['property'], d.get('tier', 'quick'), d.get('seed', 0))}
    r = harness.run_concrete(obs[d['obligation']], d['values'])
    print(json.dumps(dict(status=r['status'], failed=r['failed']), indent=1))
    return 1 if r['status'] == 'violated' else 0


if __name__ == '__main__':
    sys.exit(main())
