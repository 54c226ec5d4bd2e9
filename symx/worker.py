"""Symbolic exploration of one harness: python3-vt worker.py FILE NAME TIER."""

import json
import os
import select
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

from symx import core, arr, fileio, harness, loader, decide, replay

class Server:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([replay.PYTHON, '-W', 'ignore', os.path.join(HERE,
            'replay.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, text=True)

    def ask(self, req, timeout=60.0):
        if self.p is None or self.p.poll() is not None:
            self.start()
        try:
            self.p.stdin.write(json.dumps(req) + '\n')
            self.p.stdin.flush()
        except (BrokenPipeError, TypeError) as e:
            return dict(status='broken', error=str(e), checks=[])
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill()
            self.p = None
            return dict(status='timeout', checks=[])
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return dict(status='crash', checks=[])
        return json.loads(line)

    def close(self):
        if self.p is not None:
            self.p.kill()

def jsonable(vals):
    return {k: (int(v) if isinstance(v, int) else float(v))
        for k, v in vals.items()}

def bad(reply):
    """First failure of a concrete execution, if any."""
    if reply['status'] == 'exception':
        return 'exception', reply['error']
    if reply['status'] in ('ok',):
        for label, ok, detail, _ in reply['checks']:
            if not ok:
                return label, detail
    return None

def main(path, name, tier):
    path = os.path.abspath(path)
    t0 = time.time()
    hs = replay.load_file(path)
    h = hs[name]
    scale = 1.0 if tier == 'quick' else 4.0
    deadline = t0 + h.budget * scale
    hard = int(h.budget * scale + 60)
    server = Server()
    server.start()

    out = dict(harness=name, bounds=h.bounds, doc=h.doc, paths=0,
        infeasible=0, inconclusive=[], violation=None, validated=0,
        replays=0, mismatches=[], samples=[], obligations={}, errors=[])

    fileio.install()
    package = loader.Loader()
    pkg = package.get('elphmod')
    ctxs = []
    names = {}

    def run():
        fileio.reset()
        ctx = harness.Symbolic(pkg, loader.NUMPY)
        ctx.tier = tier
        ctxs.append(ctx)
        del arr.EIGH_HOOK[:]
        arr.INT_OBJECT[0] = False
        try:
            h.fn(ctx)
        finally:
            names.update(ctx.inputs)
            ctx.cleanup()
        return ctx

    def request(vals):
        return dict(file=path, harness=name, values=jsonable(vals))

    def confirm(vals, label, note):
        """Replay of a solver model on the real code."""
        out['replays'] += 1
        rep = server.ask(request(vals), 150.0 if h.mpi else 60.0)
        f = bad(rep)
        if f is None and rep['status'] == 'parallel' \
                and note.startswith('MPIError'):
            f = note, rep['error'][:500]
        if f is None and rep['status'] == 'timeout':
            return None
        if f is not None:
            out['violation'] = dict(label=f[0], detail=f[1],
                solver=label + ': ' + note, request=request(vals))
            return True
        return False

    def onalarm(*a):
        raise core.Budget('time limit')

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(hard)

    limit = 5 if h.mpi else 60 if tier == 'quick' else 150
    count = 0
    try:
        gen = core.explore(run, h.max_paths * (1 if tier == 'quick' else 4),
            deadline)
        for status, res, pth in gen:
            ctx = ctxs[-1]
            del ctxs[:]
            if status == 'infeasible':
                out['infeasible'] += 1
                continue
            out['paths'] += 1
            if status == 'error':
                note = '%s: %s' % (type(res).__name__, res)
                tb = ''.join(traceback.format_exception(res)[-4:])
                w = decide.witness(pth, names)
                out['errors'].append(note + '\n' + tb[-800:])
                if w is None:
                    out['inconclusive'].append('error without witness: '
                        + note)
                    continue
                if confirm(w, 'exception', note):
                    break
                # inputs along this path, concretely (no verdict)
                hit = False
                for salt in range(1, 1 + h.points):
                    v = decide.witness(pth, names, salt=17 * salt)
                    if v is not None and confirm(v, 'fallback', note):
                        hit = True
                        break
                if hit:
                    break
                out['inconclusive'].append(note)
                continue

            for ob in ctx.obligations:
                out['obligations'][ob[0]] = out['obligations'].get(ob[0],
                    0) + 1

            verdicts = decide.decide_path(pth, ctx.obligations, names,
                10.0 * scale, deadline)
            stop = False
            for v in verdicts:
                if v.kind == 'sat':
                    c = confirm(v.values, v.label, v.note)
                    if c:
                        stop = True
                        break
                    out['inconclusive'].append('counterexample to %r does '
                        'not replay (%s)' % (v.label, v.note))
                elif v.kind == 'unknown':
                    out['inconclusive'].append('%s: %s' % (v.label,
                        v.note or 'undecided'))
            if stop:
                break

            # witness of the path: encoding versus real execution
            count += 1
            if out['replays'] < limit:
                w = decide.witness(pth, names)
                if w is None:
                    out['inconclusive'].append('no witness of path')
                    continue
                out['replays'] += 1
                rep = server.ask(request(w), 150.0 if h.mpi else 60.0)
                f = bad(rep)
                if f is not None:
                    out['violation'] = dict(label=f[0], detail=f[1],
                        solver='witness of feasible path',
                        request=request(w))
                    break
                if rep['status'] == 'assume':
                    out['mismatches'].append('witness rejected by '
                        'assumption')
                    continue
                if rep['status'] != 'ok':
                    out['mismatches'].append(rep['status'])
                    continue
                m = compare(ctx, w, rep)
                if m:
                    out['mismatches'].append(m)
                else:
                    out['validated'] += 1
                if len(out['samples']) < 2:
                    out['samples'].append({k: w[k] for k in list(names)[:8]
                        if k in w})
    except core.Budget as e:
        out['inconclusive'].append('budget: %s' % e)
    signal.alarm(0)
    if not out['paths'] and not out['violation']:
        out['inconclusive'].append('vacuous: no feasible path')
    if out['paths'] and not out['obligations'] and not out['violation'] \
            and not out['errors']:
        out['inconclusive'].append('vacuous: no obligation reached')

    # backstop for anything inconclusive: a few concrete points
    if (out['inconclusive'] or out['mismatches']) and not out['violation']:
        for salt in range(h.points * 4):
            try:
                confirm(decide.complete({}, names, 1000 + salt), 'fallback',
                    'concrete point')
            except Exception:
                break
            if out['violation']:
                break

    s = core.STATS
    out.update(queries=s.queries, solver_s=round(s.solver_s, 3), forks=s.forks,
        sat=s.sat, unsat=s.unsat, unknown=s.unknown, residuals=s.residuals,
        nontrivial=s.nontrivial, functions=loader.covered(),
        wall_s=round(time.time() - t0, 2), inputs=len(names))
    out['inconclusive'] = sorted(set(out['inconclusive']))[:20]
    out['errors'] = out['errors'][:3]
    server.close()
    print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)

def compare(ctx, vals, rep):
    """Symbolic prediction versus concrete left-hand sides."""
    checks = [c for c in rep['checks']]
    if len(checks) != len(ctx.obligations):
        return 'number of obligations differs: %d/%d' % (len(checks),
            len(ctx.obligations))
    cache = {}
    v = dict(vals)
    for at in core.SPACE.atoms:
        if at.name.startswith('roundoff'):
            v[at.name] = 0.0
    for ob, (label, ok, detail, values) in zip(ctx.obligations, checks):
        if ob[0] != label:
            return 'order of obligations differs: %s' % label
        if len(ob) != 4 or not values:
            continue
        tol = max(1e-6, 10 * ob[3])
        for x, (re, im) in zip(ob[1], values):
            try:
                p = core.evaluate(x, v, cache)
            except (core.Unsupported, TypeError, OverflowError):
                continue
            p = complex(p)
            if not abs(p - complex(re, im)) <= tol * max(1.0, abs(p)):
                return 'prediction %s of %r, got %s' % (p, label,
                    complex(re, im))
    return None

if __name__ == '__main__':
    main(*sys.argv[1:4])
