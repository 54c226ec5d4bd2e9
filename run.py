#!/usr/bin/env python3
"""python3-vt run.py PROPERTY [quick|thorough] -- check one property."""

import concurrent.futures
import glob
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PYTHON = sys.executable

def harnesses(pid, tier):
    import symx.harness as h
    from symx import replay
    path = os.path.join(HERE, 'harness', pid + '.py')
    replay.load_file(path)
    return path, [x for x in h.HARNESSES.values() if tier in x.tiers]

def work(path, h, tier):
    scale = 1 if tier == 'quick' else 4
    limit = h.budget * scale + 240
    t0 = time.time()
    p = subprocess.Popen([PYTHON, os.path.join(HERE, 'symx', 'worker.py'),
        path, h.name, tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return dict(harness=h.name, bounds=h.bounds, crash='time limit',
            wall_s=time.time() - t0)
    try:
        os.killpg(p.pid, 9)
    except ProcessLookupError:
        pass
    try:
        return json.loads(out.strip().splitlines()[-1])
    except Exception:
        return dict(harness=h.name, bounds=h.bounds, crash=(out + err)[-1500:],
            wall_s=time.time() - t0)

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER',
        'quick')
    only = sys.argv[3:]
    verbose = '-v' in only
    only = [x for x in only if x != '-v']
    t0 = time.time()
    path, hs = harnesses(pid, tier)
    if only:
        hs = [h for h in hs if h.name in only]
    heavy = sorted(hs, key=lambda h: -h.budget)
    with concurrent.futures.ThreadPoolExecutor(7) as pool:
        results = list(pool.map(lambda h: work(path, h, tier), heavy))

    known = []
    kf = os.path.join(HERE, 'known-findings.json')
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f) if k.get('property') == pid
                and k.get('status') == 'open']

    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    violations = 0
    notes = []
    seen = set()
    for r in results:
        v = r.get('violation')
        if v:
            hit = [k for k in known if k['harness'] == r['harness']
                and k['label'] == v['label']]
            if hit:
                seen.add(hit[0]['id'])
                print('KNOWN-FINDING: property=%s %s' % (pid,
                    hit[0]['what']))
                continue
            f = os.path.join(rdir, '%s_%s.json' % (pid, r['harness']))
            req = dict(v['request'])
            req['file'] = os.path.basename(req['file'])
            req['failed'] = dict(label=v['label'], detail=v['detail'],
                solver=v['solver'])
            with open(f, 'w') as g:
                json.dump(req, g, indent=1)
            violations += 1
            print('%s: %s: %s [%s]' % (r['harness'], v['label'], v['detail'],
                v['solver']))
            print('VIOLATION property=%s replay=%s' % (pid, f))
        if r.get('crash'):
            notes.append('%s: crashed: %s' % (r['harness'], r['crash']))
        for x in r.get('inconclusive', ()):
            notes.append('%s: inconclusive: %s' % (r['harness'], x))
        for x in r.get('mismatches', ()):
            notes.append('%s: encoding mismatch: %s' % (r['harness'], x))
        if verbose:
            print(json.dumps(r, indent=1))

    for n in notes[:20]:
        print('INCONCLUSIVE ' + n[:1200])

    ok = [r for r in results if not r.get('crash')]
    tot = lambda k: sum(r.get(k, 0) for r in ok)
    funcs = sorted(set(f for r in ok for f in r.get('functions', ())))
    ev = dict(property=pid, tier=tier,
        seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=tot('forks') + tot('paths'),
            traces_validated_against_impl=tot('validated'),
            samples=[dict(harness=r['harness'], witness=s) for r in ok
                for s in r.get('samples', [])[:1]][:12],
            explanation='Bounded symbolic execution: states are feasible '
                'symbolic paths (each covers all inputs of its region), '
                'transitions are solver-decided branches plus path ends; '
                'every obligation on every path is one SMT obligation.',
            functions_encoded=funcs, function_count=len(funcs),
            queries=tot('queries'), solver_s=round(sum(r.get('solver_s', 0)
                for r in ok), 3), sat=tot('sat'), unsat=tot('unsat'),
            unknown=tot('unknown'), residuals=tot('residuals'),
            nontrivial_residuals=tot('nontrivial'),
            infeasible_paths=tot('infeasible'), replays=tot('replays'),
            harnesses=[dict(name=r['harness'], bounds=r.get('bounds'),
                paths=r.get('paths'), inputs=r.get('inputs'),
                obligations=r.get('obligations'), queries=r.get('queries'),
                solver_s=r.get('solver_s'), wall_s=r.get('wall_s'),
                reachable=bool(r.get('validated'))) for r in results],
            inconclusive=notes),
        assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2),
        violations=violations)
    if not only:
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d obligations (%d symbolic), '
        '%d queries (%.2f s), %d traces validated, %d notes, %d violations, '
        '%.1f s' % (pid, tier, len(results), tot('paths'), tot('residuals'),
        tot('nontrivial'), tot('queries'), ev['coverage']['solver_s'],
        tot('validated'), len(notes), violations, time.time() - t0))
    sys.exit(1 if violations else 0)

ASSUMPTIONS = [
    'Floating-point numbers are encoded as reals; equations hold up to the '
    'stated tolerance.',
    'NumPy, SciPy and Python themselves are modelled by the stand-ins in '
    'symx/arr.py, validated by replaying a solver witness of (up to 60) '
    'feasible paths on the unmodified code.',
    'Sizes (number of lattice vectors, orbitals, mesh points, ranks) are '
    'bounded per harness as listed under coverage.harnesses.',
]

if __name__ == '__main__':
    main()
