"""
Driver: runs all harnesses of one property in parallel, prints the verdict, writes the evidence file.
usage: check <property-id> [quick|thorough] [--only harness]
"""
import ast
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = sys.executable


def list_harnesses(prop, env):
    code = ("import sys; sys.path.insert(0, %r); from symx import worker, loader, harness as H; loader.install(); "
            "import importlib, json; importlib.import_module('checks.%s'); "
            "print(json.dumps([[h.name, i, {k: v for k, v in h.opts.items() if isinstance(v, (str, int, float))}] "
            "for h in H.REGISTRY if h.module == 'checks.%s' for i in range(len(h.params) if h.params else 1)]))" % (HERE, prop, prop))
    r = subprocess.run([PY, '-c', code], capture_output=True, text=True, env=env, cwd=HERE, timeout=120)
    if r.returncode:
        raise RuntimeError(r.stderr[-3000:])
    return json.loads(r.stdout.strip().splitlines()[-1])


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                m = re.match(r'finding: property=(\S+) harness=(\S+) label="([^"]*)" (.*)', line.strip())
                if m and m.group(1) == prop:
                    out.append(m.groups())
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
        args.remove(only)
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    verbose = '-v' in sys.argv or only
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='symx_')
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', MPLCONFIGDIR=tmp, PYTHONHASHSEED='0', MPLBACKEND='Agg', PYTHONPATH=HERE,
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME=tmp)
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    try:
        return run(prop, tier, only, verbose, seed, t0, tmp, env)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(prop, tier, only, verbose, seed, t0, tmp, env):
    budget = 780 if tier == 'quick' else 5400
    try:
        hs = list_harnesses(prop, env)
    except Exception as e:
        print('ERROR property=%s the current tree cannot be loaded for symbolic execution: %s' % (prop, e))
        return 2
    hs = [h for h in hs if (only is None or h[0] == only) and (tier == 'thorough' or h[2].get('tier', 'quick') == 'quick')]
    hs.sort(key=lambda h: -h[2].get('time', 60))
    ncpu = min(8, os.cpu_count() or 1)
    pending = list(hs)
    running = []
    results = []
    stop = False
    kf = known_findings(prop)
    violation = None
    known_hits = []
    while (pending or running) and not stop:
        while pending and len(running) < ncpu:
            h = pending.pop(0)
            out = os.path.join(tmp, '%s_%d.json' % (h[0], h[1]))
            err = open(out + '.err', 'w')
            p = subprocess.Popen([PY, '-m', 'symx.worker', 'checks.%s' % prop, h[0], str(h[1]), tier, out],
                                 env=env, cwd=HERE, stdout=err, stderr=err, start_new_session=True)
            mult = 1 if tier == 'quick' else 6
            running.append((p, h, out, time.time(), h[2].get('time', 60) * mult + 150))
        time.sleep(0.05)
        for it in list(running):
            p, h, out, ts, lim = it
            if p.poll() is None:
                if time.time() - ts > lim or time.time() - t0 > budget:
                    killpg(p)
                    results.append(dict(harness=h[0], param=h[1], status='timeout', error='time limit'))
                    running.remove(it)
                continue
            running.remove(it)
            killpg(p)
            try:
                with open(out) as f:
                    r = json.load(f)
            except (OSError, ValueError):
                with open(out + '.err') as f:
                    r = dict(harness=h[0], param=h[1], status='error', error='worker died: ' + f.read()[-500:])
            results.append(r)
            if verbose:
                show(r)
            for v in r.get('violations', []):
                m = [k for k in kf if k[1] == h[0] and k[2] == v['label']]
                if m:
                    known_hits.append(m[0])
                elif violation is None:
                    violation = v
            if violation is not None:
                stop = True
                break
        if time.time() - t0 > budget:
            for h in pending:
                results.append(dict(harness=h[0], param=h[1], status='timeout', error='not started within the budget'))
            pending = []
    for p, h, out, ts, lim in running:
        killpg(p)
    wall = round(time.time() - t0, 2)
    ev = evidence(prop, tier, seed, results, wall, violation, known_hits)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    for k in known_hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for r in results:
        tag = '%s[%s]' % (r.get('harness'), r.get('param'))
        if r.get('status') in ('error', 'timeout'):
            print('INCONCLUSIVE property=%s harness=%s: %s' % (prop, tag, r.get('error')))
        for s in sorted(set(r.get('inconclusive', [])))[:5]:
            print('INCONCLUSIVE property=%s harness=%s: %s' % (prop, tag, s))
        for s in r.get('unsupported', [])[:3]:
            print('INCONCLUSIVE property=%s harness=%s: no model for: %s' % (prop, tag, s))
        if r.get('truncated'):
            print('INCONCLUSIVE property=%s harness=%s: exploration stopped at the %s' % (prop, tag, r['truncated']))
    c = ev['coverage']
    print('property=%s tier=%s harnesses=%d paths=%d obligations=%d discharged=%d inconclusive=%d queries=%d solver_s=%.1f wall_s=%.1f replayed=%d diverged=%d' % (
        prop, tier, len(results), c['states'], ev['obligations'], ev['discharged'], ev['inconclusive'],
        ev['queries'], ev['solver_s'], wall, c['traces_validated_against_impl'], ev['replays_diverged']))
    if violation is not None:
        d = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%s.json' % (prop, violation['job']['harness']))
        with open(path, 'w') as f:
            json.dump(violation, f, indent=1, default=str)
        print('counterexample: harness=%s check="%s" inputs=%s choices=%s' % (
            violation['job']['harness'], violation['label'], json.dumps(violation['job']['inputs']),
            json.dumps(violation['job']['choices'])))
        if violation['result'].get('exc'):
            print('  raised %s' % violation['result']['exc'])
        print('replay with: %s %s' % (os.path.join(HERE, 'replay'), path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for r in results:
        if r.get('unreproduced'):
            # not a violation (the real code does not show it) and not discharged either
            print('INCONCLUSIVE property=%s harness=%s: solver counterexample did not reproduce on the real code: %s' % (
                prop, r['harness'], '; '.join(sorted(set(r['unreproduced'])))))
    vac = [r for r in results if r.get('status') == 'ok' and not r.get('completed') and not r.get('n_unsupported')
           and not r.get('inconclusive') and not r.get('truncated') and not r.get('violations')]
    if vac:
        print('ERROR property=%s vacuous harness: %s' % (prop, ', '.join(r['harness'] for r in vac)))
        return 2
    if not ev['discharged'] and not known_hits:
        print('ERROR property=%s nothing could be decided' % prop)
        return 2
    return 0


def killpg(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    try:
        p.wait(timeout=5)
    except subprocess.TimeoutExpired:
        pass


def show(r):
    print('--- %s[%s] %s wall=%s paths=%s infeasible=%s completed=%s witnessed=%s trunc=%s validated=%s' % (
        r.get('harness'), r.get('param'), r.get('status'), r.get('wall_s'), r.get('paths'), r.get('infeasible'),
        r.get('completed'), r.get('witnessed'), r.get('truncated'),
        {k: v for k, v in (r.get('validated') or {}).items()}))
    for l, e in (r.get('obligations') or {}).items():
        print('      %-60s %s' % (l, {k: v for k, v in e.items() if v}))
    if r.get('error'):
        print('   ERROR', r['error'], r.get('trace', ''))
    for k in ('unsupported', 'inconclusive', 'unreproduced'):
        if r.get(k):
            print('   %s: %s' % (k, sorted(set(r[k]))[:8]))
    for v in r.get('violations') or []:
        print('   VIOLATION', v['label'], v['found_for'], v['job']['inputs'], v['job']['choices'], v['result'].get('exc', ''),
              v['result'].get('failed'))
    print('   solver', r.get('solver'), flush=True)


def evidence(prop, tier, seed, results, wall, violation, known_hits):
    ok = [r for r in results if r.get('status') == 'ok']
    tot = dict(normal=0, solver=0, inconclusive=0, violated=0, reached=0)
    for r in ok:
        for e in r['obligations'].values():
            for k in tot:
                tot[k] += e.get(k, 0)
    funcs = sorted({f for r in results for f in r.get('functions', [])})
    val_ok = sum(r['validated']['ok'] for r in ok)
    backends = {}
    for r in results:
        for k, v in r.get('solver', {}).get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
    discharged = tot['normal'] + tot['solver']
    return dict(
        property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='model_checking', wall_s=wall,
        coverage=dict(states=sum(r.get('paths', 0) for r in ok), transitions=sum(r.get('transitions', 0) for r in ok),
                      traces_validated_against_impl=val_ok,
                      samples=[s for r in ok for s in r.get('samples', [])][:8]),
        assumptions=sorted({b for r in ok for b in [r.get('stubs')] if b}) + [
            'numbers are exact reals / mathematical integers (decimal reading of literals); IEEE rounding is outside the claim',
            'each harness covers exactly the inputs within its stated bounds'],
        violations=1 if violation is not None else 0,
        harness_bounds={'%s[%s]' % (r['harness'], r['param']): r.get('bounds', '') for r in ok},
        functions_encoded=funcs,
        obligations=discharged + tot['inconclusive'] + tot['violated'],
        discharged=discharged,
        discharged_by_solver_query=tot['solver'],
        discharged_by_canonical_form_or_path_condition=tot['normal'],
        identities_confirmed_by_solver=sum(r.get('identities', {}).get('confirmed', 0) for r in ok),
        identities_not_confirmed=sum(r.get('identities', {}).get('unconfirmed', 0) for r in ok),
        inconclusive=tot['inconclusive'],
        inconclusive_harnesses=[dict(harness=r.get('harness'), param=r.get('param'), status=r.get('status'),
                                     error=r.get('error'), truncated=r.get('truncated'), unsupported=r.get('unsupported'),
                                     inconclusive=sorted(set(r.get('inconclusive', [])))[:10],
                                     unreproduced=sorted(set(r.get('unreproduced', [])))[:10]) for r in results
                                if r.get('status') != 'ok' or r.get('truncated') or r.get('unsupported') or r.get('inconclusive') or r.get('unreproduced')],
        queries=sum(r.get('solver', {}).get('queries', 0) for r in results),
        solver_s=round(sum(r.get('solver', {}).get('solver_s', 0) for r in results), 2),
        solver_answers={k: sum(r.get('solver', {}).get(k, 0) for r in results) for k in ('sat', 'unsat', 'unknown')},
        solver_backends=backends,
        reachability_witnesses=sum(r.get('witnessed', 0) for r in ok),
        infeasible_paths_pruned=sum(r.get('infeasible', 0) for r in ok),
        replays_diverged=sum(r['validated']['diverged'] for r in ok),
        known_findings=[dict(harness=k[1], label=k[2], what=k[3]) for k in known_hits],
        obligations_by_check={'%s[%s]: %s' % (r['harness'], r['param'], l): {k: v for k, v in e.items() if v}
                              for r in ok for l, e in r['obligations'].items()},
    )


if __name__ == '__main__':
    sys.exit(main())
