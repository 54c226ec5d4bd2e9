"""Simulated message passing between P instances of the package.

Each rank runs in its own thread, but only one at a time: a rank runs until it
enters a collective operation, then the next runnable rank continues.  The
order in which runnable ranks are picked is a parameter (the schedule).  All
collectives are matched by communicator and sequence number; mismatching
operations and deadlocks are errors of the code under test.
"""

import threading
import types

import numpy as np

from symx import arr, core
from symx.core import Unsupported

class MPIError(Exception):
    pass

class World:
    def __init__(self, size, order=None, shared=True, nodes=None):
        self.size = size
        self.nodes = nodes or [0] * size
        self.order = list(order) if order is not None else list(range(size))
        self.shared = shared
        self.lock = [threading.Semaphore(0) for _ in range(size)]
        self.main = threading.Semaphore(0)
        self.state = ['new'] * size
        self.wait = [None] * size
        self.result = [None] * size
        self.error = None
        self.comms = 0
        self.dead = False
        self.steps = 0

    def run(self, fn):
        """fn(rank) on every rank; returns list of results."""
        def body(rank):
            self.lock[rank].acquire()
            try:
                if not self.dead:
                    self.result[rank] = fn(rank)
            except BaseException as e:
                if self.error is None:
                    self.error = e
            self.state[rank] = 'done'
            self.main.release()

        threads = [threading.Thread(target=body, args=(r,), daemon=True)
            for r in range(self.size)]
        old = threading.stack_size()
        for t in threads:
            t.start()
        self.state = ['ready'] * self.size
        while True:
            run = [r for r in self.order if self.state[r] == 'ready']
            if not run:
                if all(s == 'done' for s in self.state):
                    break
                self.match()
                if not any(s == 'ready' for s in self.state):
                    self.error = self.error or MPIError('deadlock: '
                        + ', '.join('%d: %s' % (r, self.wait[r]
                        and self.wait[r].op or 'finished')
                        for r in range(self.size)))
                    self.dead = True
                    break
                continue
            r = run[0]
            self.state[r] = 'running'
            self.steps += 1
            self.lock[r].release()
            self.main.acquire()
            if self.error is not None:
                self.dead = True
                break
        if self.dead:
            for r in range(self.size):
                if self.state[r] in ('ready', 'blocked'):
                    self.lock[r].release()
        if self.error is not None:
            raise self.error
        return self.result

    def match(self):
        groups = {}
        for r in range(self.size):
            if self.state[r] == 'blocked':
                w = self.wait[r]
                groups.setdefault((id(w.group), w.seq), []).append(r)
        for key, ranks in groups.items():
            calls = [self.wait[r] for r in ranks]
            g = calls[0].group
            if len(ranks) < len(g.ranks):
                continue
            if any(c.op != calls[0].op for c in calls):
                self.error = MPIError('mismatching collectives: '
                    + ', '.join(c.op for c in calls))
                return
            calls.sort(key=lambda c: c.rank)
            try:
                res = getattr(self, 'do_' + calls[0].op)(g, calls)
            except Exception as e:
                self.error = e
                self.dead = True
                return
            for c in calls:
                c.result = res[c.rank] if res is not None else None
                self.state[g.ranks[c.rank]] = 'ready'

    # -- collectives (calls ordered by rank)

    def do_Barrier(self, g, cs):
        return None

    def do_Bcast(self, g, cs):
        src = cs[0].args[0]
        for c in cs[1:]:
            copy_into(c.args[0], src)

    def do_bcast(self, g, cs):
        return [clone(cs[0].args[0]) for _ in cs]

    def do_gather(self, g, cs):
        out = [clone(c.args[0]) for c in cs]
        return [out] + [None] * (len(cs) - 1)

    def do_allgather(self, g, cs):
        return [[clone(c.args[0]) for c in cs] for _ in cs]

    def do_allreduce(self, g, cs):
        s = cs[0].args[0]
        for c in cs[1:]:
            s = s + c.args[0]
        return [s for _ in cs]

    def _reduced(self, cs, root=None):
        parts = []
        for c in cs:
            a = c.args[0]
            parts.append(c.args[1] if a is IN_PLACE else a)
        s = arr.plain(parts[0]).copy()
        for p in parts[1:]:
            q = arr.plain(p)
            if q.size != s.size:
                raise MPIError('reduction of different sizes')
            s = arr.plain(arr.finish(arr.elementwise(arr.BINARY['add'], s,
                q.reshape(s.shape))))
        return s

    def do_Allreduce(self, g, cs):
        s = self._reduced(cs)
        for c in cs:
            put(c.args[1], s)

    def do_Reduce(self, g, cs):
        put(cs[0].args[1], self._reduced(cs))

    def _gatherv(self, cs, targets):
        data = [flat(c.args[0]) for c in cs]
        for c in targets:
            recv, counts = unpack(c.args[1])
            if counts is None:
                raise Unsupported('no counts')
            out = flat_view(recv)
            pos = 0
            for d, n in zip(data, counts):
                if len(d) != n:
                    raise MPIError('truncated message in Gatherv')
                check_kind(recv, c.args[0])
                if pos + n > len(out):
                    raise MPIError('receive buffer too small')
                out[pos:pos + n] = d
                pos += n

    def do_Gatherv(self, g, cs):
        self._gatherv(cs, cs[:1])

    def do_Allgatherv(self, g, cs):
        self._gatherv(cs, cs)

    def do_Scatterv(self, g, cs):
        send, counts, size = chunks(*cs[0].args[0])
        d = flat(send)
        pos = 0
        for c, n in zip(cs, counts):
            recv = c.args[1]
            n = n * size
            if isinstance(recv, (tuple, list)):
                recv, unit = recv
                if not isinstance(unit, Chunk) or unit.n != size:
                    raise MPIError('different data types in Scatterv')
            out = flat_view(recv)
            if len(out) != n:
                raise MPIError('truncated message in Scatterv')
            check_kind(recv, send)
            if pos + n > len(d):
                raise MPIError('send buffer too small')
            out[...] = d[pos:pos + n]
            pos += n

    def do_Split(self, g, cs):
        res = [None] * len(cs)
        colors = {}
        for c in cs:
            colors.setdefault(c.args[0], []).append(c)
        for color in colors.values():
            color.sort(key=lambda c: (c.args[1], c.rank))
            h = Group(self, [g.ranks[c.rank] for c in color])
            for i, c in enumerate(color):
                res[c.rank] = Communicator(h, i)
        return res

    def do_Split_type(self, g, cs):
        res = [None] * len(cs)
        order = sorted(cs, key=lambda c: (c.args[1], c.rank))
        for node in sorted(set(self.nodes)):
            mine = [c for c in order if self.nodes[g.ranks[c.rank]] == node]
            h = Group(self, [g.ranks[c.rank] for c in mine])
            for i, c in enumerate(mine):
                res[c.rank] = Communicator(h, i)
        return res

    def do_Allocate_shared(self, g, cs):
        mem = Memory()
        return [mem for _ in cs]

class Memory:
    """Shared memory segment, typed by its first user."""

    def __init__(self):
        self.array = None

    def Shared_query(self, rank):
        return self, 8

    def symbolic_memory(self, shape):
        n = int(np.prod(shape))
        if self.array is None:
            a = np.empty(n, dtype=object)
            arr.fill_uninit(a)
            self.array = a
        return self.array[:n].reshape(shape).view(np.ndarray)

class Group:
    def __init__(self, world, ranks):
        self.world = world
        self.ranks = ranks

class Call:
    def __init__(self, group, rank, seq, op, args):
        self.group = group
        self.rank = rank
        self.seq = seq
        self.op = op
        self.args = args
        self.result = None

class Communicator:
    def __init__(self, group, rank):
        self.group = group
        self.rank = rank
        self.seq = 0

    @property
    def size(self):
        return len(self.group.ranks)

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def _call(self, op, *args):
        w = self.group.world
        me = self.group.ranks[self.rank]
        c = Call(self.group, self.rank, self.seq, op, args)
        self.seq += 1
        w.wait[me] = c
        w.state[me] = 'blocked'
        w.main.release()
        w.lock[me].acquire()
        if w.dead:
            raise core.Infeasible()
        w.state[me] = 'running'
        return c.result

    def Barrier(self):
        self._call('Barrier')

    barrier = Barrier

    def _root(self, root):
        if root:
            raise Unsupported('collective with root other than 0')

    def Bcast(self, data, root=0):
        self._root(root)
        self._call('Bcast', data)

    def bcast(self, obj=None, root=0):
        self._root(root)
        return self._call('bcast', obj)

    def gather(self, obj, root=0):
        self._root(root)
        return self._call('gather', obj)

    def allgather(self, obj):
        return self._call('allgather', obj)

    def allreduce(self, obj):
        return self._call('allreduce', obj)

    def Allreduce(self, send, recv):
        self._call('Allreduce', send, recv)

    def Reduce(self, send, recv, root=0):
        self._root(root)
        self._call('Reduce', send, recv)

    def Gatherv(self, send, recv, root=0):
        self._root(root)
        self._call('Gatherv', send, recv)

    def Allgatherv(self, send, recv):
        self._call('Allgatherv', send, recv)

    def Scatterv(self, send, recv, root=0):
        self._root(root)
        self._call('Scatterv', send, recv)

    def Split(self, color=0, key=0):
        return self._call('Split', color, key)

    def Split_type(self, split_type, key=0):
        return self._call('Split_type', split_type, key)

class InPlace:
    pass

IN_PLACE = InPlace()

class Chunk:
    """Contiguous data type."""

    def __init__(self, n=1):
        self.n = n
        self.ready = n == 1

    def Create_contiguous(self, n):
        return Chunk(self.n * n)

    def Commit(self):
        self.ready = True
        return self

    def Free(self):
        self.ready = False

def chunks(send, counts, unit=None):
    if unit is None:
        send, counts = unpack((send, counts))
        return send, counts, 1
    if not unit.ready:
        raise MPIError('data type not committed')
    if send.dtype != np.uint8:
        raise MPIError('wrong data type')
    return send, counts, unit.n

def interface(world, rank):
    m = types.SimpleNamespace()
    if not hasattr(world, 'group'):
        world.group = Group(world, list(range(world.size)))
    m.COMM_WORLD = Communicator(world.group, rank)
    m.UNDEFINED = -1
    m.COMM_TYPE_SHARED = 1 if world.shared else -1
    m.IN_PLACE = IN_PLACE
    m.SUM = 'sum'
    m.UNSIGNED_CHAR = Chunk()
    m.Win = types.SimpleNamespace(Allocate_shared=lambda size, itemsize,
        comm: comm._call('Allocate_shared', size))
    return m

def unpack(x):
    if isinstance(x, (tuple, list)):
        counts = x[1]
        if isinstance(counts, tuple) and len(counts) == 2 and not np.isscalar(
                counts[0]):
            counts = counts[0]
        return x[0], [int(n) for n in counts]
    return x, None

def flat(a):
    if isinstance(a, (tuple, list)):
        a = a[0]
    return arr.plain(a).reshape(-1).copy()

def flat_view(a):
    if not isinstance(a, np.ndarray):
        raise MPIError('receive buffer is no array')
    b = a.view(np.ndarray)
    v = b.reshape(-1)
    if v.size and not np.shares_memory(v, b):
        raise MPIError('receive buffer is not contiguous')
    return v

def check_kind(a, b):
    """Symbols cannot be received by arrays of native numbers."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.dtype != object and b.dtype == object:
            for x in arr.plain(b).ravel():
                if isinstance(x, core.Sym) or isinstance(x, float) \
                        and a.dtype.kind in 'iu':
                    raise Unsupported('symbols sent to array of numbers')

def copy_into(dst, src):
    if not isinstance(src, np.ndarray):
        raise MPIError('buffer is no array')
    v = flat_view(dst)
    if v.size != src.size:
        raise MPIError('message of different size')
    check_kind(dst, src)
    if v.dtype == object:
        v[...] = arr.plain(src).reshape(-1)
    else:
        v[...] = src.reshape(-1)

def put(dst, values):
    v = flat_view(dst)
    if v.size != values.size:
        raise MPIError('message of different size')
    v[...] = values.reshape(-1)

def clone(x):
    import copy
    return copy.deepcopy(x)
