"""Work distribution."""

from symx.harness import harness

def partition(ctx, sizes, cumsum, size, n, tag=''):
    ctx.true(len(sizes) == n, 'number of chunks' + tag)
    total = 0
    for i in range(n):
        ctx.true(sizes[i] >= 0, 'chunk not negative' + tag)
        ctx.true(sizes[0] - sizes[i] <= 1, 'balanced' + tag)
        if i:
            ctx.true(sizes[i - 1] >= sizes[i], 'larger chunks first' + tag)
        if cumsum is not None:
            ctx.true(cumsum[i] == total, 'bounds delimit chunks' + tag)
        total = total + sizes[i]
    ctx.true(total == size, 'chunks add up' + tag)
    if cumsum is not None:
        ctx.true(len(cumsum) == n + 1, 'number of bounds' + tag)
        ctx.true(cumsum[n] == size, 'last bound is total' + tag)

@harness(bounds='0..10^5 items (symbolic), 1..9 chunks, serial', max_paths=400)
def chunks(ctx):
    ctx.symbolic_ints()
    n = ctx.choice('chunks', range(1, 10))
    size = ctx.int('size', 0, 10 ** 5)
    sizes, cumsum = ctx.e.MPI.distribute(size, bounds=True, chunks=n)
    partition(ctx, sizes, cumsum, size, n)
    only = ctx.e.MPI.distribute(size, chunks=n)
    for i in range(n):
        ctx.true(only[i] == sizes[i], 'same sizes without bounds')

@harness(bounds='0..40 items (symbolic), 1..12 chunks (thorough)',
    tiers=('thorough',), max_paths=600)
def chunks_large(ctx):
    ctx.symbolic_ints()
    n = ctx.choice('chunks', range(10, 18))
    size = ctx.int('size', 0, 10 ** 6)
    sizes, cumsum = ctx.e.MPI.distribute(size, bounds=True, chunks=n)
    partition(ctx, sizes, cumsum, size, n)

def default(ctx):
    ctx.symbolic_ints()
    size = ctx.int('size', 0, 10 ** 4)
    sizes, cumsum = ctx.e.MPI.distribute(size, bounds=True)
    partition(ctx, sizes, cumsum, size, 1)

default = harness(bounds='0..10^4 items, serial default')(default)

def processes(ctx, P):
    """Same list on every rank."""
    ctx.symbolic_ints()
    size = ctx.int('size', 0, 10 ** 4)

    def fn(e, rank):
        return e.MPI.distribute(size, bounds=True)

    def fn2(e, rank):
        return e.MPI.distribute(size, bounds=True, chunks=P + 2)

    ref, res = ctx.mpi(P, lambda e, rank: (fn(e, rank), fn2(e, rank)))
    for r in range(P):
        (s, c), (s2, c2) = res[r]
        partition(ctx, s, c, size, P)
        partition(ctx, s2, c2, size, P + 2)
        for i in range(P):
            ctx.true(s[i] == res[0][0][0][i], 'same sizes on all processes')

@harness(bounds='2 processes, 0..10^4 items (symbolic), both schedules',
    mpi=True)
def processes2(ctx):
    processes(ctx, 2)

@harness(bounds='3 processes, 0..10^4 items (symbolic), both schedules',
    mpi=True)
def processes3(ctx):
    processes(ctx, 3)

@harness(bounds='5 processes, 0..10^4 items (symbolic), both schedules',
    mpi=True, tiers=('thorough',), budget=150)
def processes5(ctx):
    processes(ctx, 5)

@harness(bounds='4 processes in 1..4 columns, both schedules', mpi=True)
def grid(ctx):
    """matrix(): each process in exactly one row and one column."""
    P = 4
    n = ctx.choice('size', [1, 2, 3, 4])

    def fn(e, rank):
        comm = e.MPI.comm
        col, row = e.MPI.matrix(n)
        return (comm.allgather((comm.rank, col.rank, col.size, row.rank,
            row.size)), col.allgather(comm.rank), row.allgather(comm.rank))

    ref, res = ctx.mpi(P, fn)
    cols = set()
    rows = set()
    for rank in range(P):
        table, col, row = res[rank]
        me = table[rank]
        ctx.true(me[0] == rank, 'rank')
        ctx.true(rank in col and rank in row, 'member of own row and column')
        ctx.true(len(col) == me[2] and len(row) == me[4], 'sizes')
        ctx.true(col == sorted(col) and row == sorted(row), 'ordered by rank')
        ctx.true(col.index(rank) == me[1] and row.index(rank) == me[3],
            'rank within row and column')
        ctx.true(len(set(col) & set(row)) == 1,
            'row and column meet in one process')
        cols.add(tuple(col))
        rows.add(tuple(row))
    ctx.true(sorted(sum(cols, ())) == list(range(P)), 'columns partition')
    ctx.true(sorted(sum(rows, ())) == list(range(P)), 'rows partition')
    ctx.true(len(cols) == n, 'number of columns')
