"""Concrete execution of harnesses on the unmodified package.

Reads one JSON request per line: {"file", "harness", "values"}; answers with
one JSON line.  Run with the project's own Python environment.
"""

import importlib.util
import json
import os
import pickle
import subprocess
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
REPO = os.environ.get('ELPHMOD_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')

PYTHON = '/opt/venv/bin/python'

MPI_ENV = dict(OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
    OMPI_MCA_btl='self,vader',
    OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1',
    OMPI_MCA_plm='isolated', OMPI_MCA_hwloc_base_binding_policy='none',
    OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_mpi_yield_when_idle='1',
    OPENBLAS_NUM_THREADS='1')

def load_file(path):
    import symx.harness as h
    name = os.path.splitext(os.path.basename(path))[0]
    if not path in LOADED:
        spec = importlib.util.spec_from_file_location('harness_' + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        LOADED[path] = m
    return h.HARNESSES

LOADED = {}

class Stop(BaseException):
    pass

class Parallel(Exception):
    """Parallel run ended without an exception of the code under test."""

def serial_mpi(req):
    """Orchestrate a parallel run from a serial process."""
    def mpi(ctx, size, fn, shared, schedule, nodes):
        ref = fn(ctx.e, 0)
        d = ctx.scratch('mpi')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'req.json'), 'w') as f:
            json.dump(dict(req, schedule=schedule, nodes=nodes), f)
        env = dict(os.environ, **MPI_ENV)
        for attempt in range(3):
            hang = False
            for r in range(size):
                out = os.path.join(d, 'out%d' % r)
                if os.path.exists(out):
                    os.remove(out)
            p = subprocess.Popen(['mpirun', '--allow-run-as-root',
                '--oversubscribe', '-n', str(size), PYTHON, '-W', 'ignore',
                os.path.abspath(__file__), '--rank', d], env=env, cwd=d,
                stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                start_new_session=True)
            try:
                _, err = p.communicate(timeout=45)
            except subprocess.TimeoutExpired:
                hang = True
                os.killpg(p.pid, 9)
                _, err = p.communicate()
            res = []
            missing = False
            for r in range(size):
                path = os.path.join(d, 'out%d' % r)
                try:
                    with open(path, 'rb') as f:
                        x = pickle.load(f)
                except (FileNotFoundError, EOFError):
                    missing = True
                    continue
                if isinstance(x, Exception):
                    raise x
                res.append(x)
            if not missing:
                break
        else:
            raise Parallel('parallel run %s: ' % ('hangs' if hang
                else 'failed') + err.decode(errors='replace')[-3000:])
        return ref, res
    return mpi

def instrument(schedule, nodes):
    """Delay some processes after each collective call; emulate nodes."""
    import time
    from mpi4py import MPI
    size = MPI.COMM_WORLD.size
    rank = MPI.COMM_WORLD.rank
    delay = 0.004 * (size - 1 - rank if schedule else rank)

    class Comm(MPI.Intracomm):
        def Split_type(self, *args, **kwargs):
            return Comm(MPI.Intracomm.Split(self, nodes[rank],
                kwargs.get('key', 0)))

        def Split(self, color=0, key=0):
            return Comm(MPI.Intracomm.Split(self, color, key))

    def wrap(name):
        method = getattr(MPI.Intracomm, name)

        def late(self, *args, **kwargs):
            result = method(self, *args, **kwargs)
            time.sleep(delay)
            return result
        setattr(Comm, name, late)

    for name in ('Barrier', 'barrier', 'Bcast', 'bcast', 'gather', 'allgather',
            'allreduce', 'Allreduce', 'Reduce', 'Gatherv', 'Allgatherv',
            'Scatterv'):
        wrap(name)

    MPI.COMM_WORLD = Comm(MPI.COMM_WORLD)

def rank_main(d):
    with open(os.path.join(d, 'req.json')) as f:
        req = json.load(f)
    instrument(req['schedule'], req['nodes'])
    import elphmod
    rank = elphmod.MPI.comm.rank

    def mpi(ctx, size, fn, shared, schedule, nodes):
        ok = True
        try:
            x = fn(ctx.e, rank)
        except (Exception, SystemExit) as e:
            x = RuntimeError('rank %d: %s: %s' % (rank, type(e).__name__, e))
            ok = False
        path = os.path.join(d, 'out%d' % rank)
        with open(path + '.tmp', 'wb') as f:
            pickle.dump(x, f)
        os.rename(path + '.tmp', path)
        if not ok:
            os._exit(1)
        raise Stop

    from mpi4py import MPI
    try:
        execute(req, elphmod, mpi)
    except Stop:
        pass
    MPI.COMM_WORLD.Barrier()
    MPI.Finalize()
    os._exit(0)

def execute(req, package, mpi):
    import numpy as np
    import symx.harness as h
    hs = load_file(req['file'])
    ctx = h.Concrete(req['values'], package, np, {'mpi': mpi})
    cwd = os.getcwd()
    try:
        hs[req['harness']].fn(ctx)
        return dict(status='ok', checks=ctx.checks)
    except h.AssumeFailed:
        return dict(status='assume', checks=ctx.checks)
    except Stop:
        raise
    except Parallel as e:
        return dict(status='parallel', checks=ctx.checks, error=str(e))
    except SystemExit as e:
        return dict(status='exception', checks=ctx.checks,
            error='SystemExit: %s' % e, trace=traceback.format_exc()[-1500:])
    except Exception as e:
        return dict(status='exception', checks=ctx.checks,
            error='%s: %s' % (type(e).__name__, e),
            trace=traceback.format_exc()[-1500:])
    finally:
        os.chdir(cwd)
        ctx.cleanup()

def main():
    real_stdout = os.fdopen(os.dup(1), 'w')
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    import warnings
    warnings.simplefilter('ignore')
    import elphmod
    for line in sys.stdin:
        req = json.loads(line)
        r = execute(req, elphmod, serial_mpi(req))
        real_stdout.write(json.dumps(r) + '\n')
        real_stdout.flush()

def one(path):
    """python replay.py COUNTEREXAMPLE.json -- show what fails."""
    import elphmod
    with open(path) as f:
        req = json.load(f)
    req['file'] = os.path.join(os.path.dirname(HERE), 'harness',
        os.path.basename(req['file']))
    r = execute(req, elphmod, serial_mpi(req))
    print('status:', r['status'], r.get('error', ''))
    if 'trace' in r:
        print(r['trace'])
    bad = r['status'] in ('exception', 'parallel')
    for label, ok, detail, _ in r['checks']:
        print('ok  ' if ok else 'FAIL', label, detail)
        bad = bad or not ok
    sys.exit(1 if bad else 0)

if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--rank':
        rank_main(sys.argv[2])
    elif len(sys.argv) > 1:
        one(sys.argv[1])
    else:
        main()
