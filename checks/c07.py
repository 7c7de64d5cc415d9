import json
import multiprocessing
import os
import subprocess
import sys
import time

from vf import core, gen, oracle
from vf.cluster import materialize

FILES = ['fog/clustering/pairwise.py', 'fog/clustering/blocking.py', 'fog/clustering/quickjoin.py', 'fog/clustering/utils.py']
RULE = ('A case is a collection, a similarity relation, a clusterer, a number of processes and a chunk or block size, run sequentially and in '
        'parallel with delays injected in the comparisons made by workers, which log each comparison. Non-trivial: at least two processes did '
        'comparisons; distinct_interleavings counts the distinct orders in which processes logged them.')
ASSUMPTIONS = ['items and functions can be serialized by dill', 'similarity functions are symmetric and deterministic']
REQUIRED = ['giant_pairwise', 'giant_blocks', 'giant_block', 'giant_quickjoin', 'pairwise_cases', 'fuzzy_cases', 'blocking_cases', 'quickjoin_cases', 'worker_failures_raised', 'comparisons_logged',
            'hundreds_of_chunks', 'several_workers_seen', 'distinct_interleavings', 'chunk_size_1', 'last_chunk_partial', 'key_cases', 'shared_keys', 'repeated_items', 'identity_cases', 'distinct_failures', 'spawned_cases', 'closed_early', 'forkserver_cases']


class Boom(Exception):
    pass


class Picky(Exception):
    """Can be pickled, but not unpickled."""
    def __init__(self, a, b):
        Exception.__init__(self, '%s %s' % (a, b))


class Closed(Exception):
    """Cannot be pickled."""
    def __reduce__(self):
        raise TypeError('cannot be pickled')


class Thing(object):
    """An item which is only equal to itself."""
    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'Thing(%d)' % self.i


def index(x):
    if isinstance(x, Thing):
        return x.i
    if isinstance(x, tuple):
        return x[0]
    if isinstance(x, str):
        return int(x.split(':')[1])
    return x


FAILURES = [lambda: Boom('injected'), lambda: KeyError('injected'), lambda: IndexError('injected'), lambda: ValueError('injected'), lambda: TypeError('injected'), lambda: AttributeError('injected'),
            lambda: ZeroDivisionError('injected'), lambda: StopIteration('injected'), lambda: StopIteration(), lambda: RuntimeError('injected'), lambda: OSError(2, 'injected'), lambda: EOFError('injected'),
            lambda: MemoryError(), lambda: AssertionError(), lambda: UnicodeDecodeError('utf-8', b'x', 0, 1, 'injected'), lambda: Picky('a', 'b'), lambda: Closed('injected'), lambda: NotImplementedError(),
            lambda: RecursionError('injected'), lambda: BrokenPipeError(32, 'injected'), lambda: TimeoutError('injected')]


def make(rng, edges, path, radius_kind, slow, salt, boom, failure=0):
    """
    A closure logging each comparison, sleeping for some of them, and failing
    at one of them. Values are integers, strings, pairs starting by the index or objects.
    """
    def look(a, b):
        i, j = index(a), index(b)
        p = (i, j) if i < j else (j, i)

        if path is not None:
            fd = os.open(path, os.O_WRONLY | os.O_APPEND)
            os.write(fd, b'%d %d %d\n' % (os.getpid(), p[0], p[1]))
            os.close(fd)

        if slow == 'first' and p[0] < 3 and p[1] < 6:
            time.sleep(0.003)
        elif slow == 'random' and (p[0] * 7919 + p[1] * 104729 + salt) % 11 == 0:
            time.sleep(0.002)
        elif slow == 'last' and p[0] % 5 == 4:
            time.sleep(0.0005)

        if boom is not None and p == boom:
            raise FAILURES[failure]()

        return p in edges

    if radius_kind == 'bool':
        return {'similarity': lambda a, b: look(a, b)}
    if radius_kind == 'similarity':
        return {'similarity': lambda a, b: 0.75 if look(a, b) else 0.5, 'radius': 0.75}
    return {'distance': lambda a, b: 1 if look(a, b) else 2, 'radius': 1}


def read_log(path):
    with open(path) as f:
        rows = [tuple(map(int, l.split())) for l in f]
    return rows


def children():
    me = os.getpid()
    found = []

    for d in os.listdir('/proc'):
        if d.isdigit():
            try:
                with open('/proc/%s/stat' % d) as f:
                    fields = f.read().rsplit(')', 1)[1].split()
                if int(fields[1]) == me and fields[0] != 'Z':
                    found.append(int(d))
            except (OSError, ValueError, IndexError):
                pass

    return found


def no_leftover(ctx, witness):
    deadline = time.time() + 10

    while True:
        multiprocessing.active_children()
        left = children()
        if not left:
            ctx.count('leftover_checks')
            return
        if time.time() > deadline:
            ctx.fail('worker processes outlived the iterator', dict(witness, left=left))
            for pid in left:
                try:
                    os.kill(pid, 9)
                except OSError:
                    pass
            return
        time.sleep(0.01)


def canonical(clusters):
    return sorted(sorted(map(repr, c)) for c in clusters)


def case(ctx, kind):
    from fog.clustering import pairwise, blocking, quickjoin
    rng = ctx.rng
    n = ctx.near(rng.choice([0, 1, 2, 5, 12, 17, 20, 24, 30, 36]), 60)
    edges = gen.relation(rng, n)
    shape = rng.choice(['int', 'str', 'tuple', 'object'])
    items = {'int': list(range(n)), 'str': ['s:%d' % i for i in range(n)], 'tuple': [(i, 'x') for i in range(n)], 'object': [Thing(i) for i in range(n)]}[shape]
    processes = rng.choice([2, 2, 3, 4, 7])
    slow = rng.choice(['first', 'random', 'last', 'none'])
    radius_kind = rng.choice(['bool', 'similarity', 'distance'])
    kw = gen.bounds(rng, n)
    log = os.path.join(ctx.scratch, 'log-%s-%d' % (kind, ctx.index))
    failing = rng.random() < 0.2 and n > 1
    boom = tuple(sorted(rng.sample(range(n), 2))) if failing else None
    failure = rng.randrange(len(FAILURES))
    salt = rng.randrange(1000)
    exact = True
    validity = None
    options = dict(kw)

    if kind in ('pairwise', 'fuzzy'):
        options['chunk_size'] = ctx.near(rng.choice([1, 2, 3, 5, 7, max(1, n - 1), max(1, n), n + 1, 100]), 1000, floor=1)
        if kind == 'fuzzy':
            options['mode'] = 'fuzzy_clusters'
        if options['chunk_size'] == 1:
            ctx.count('chunk_size_1')
        if n % options['chunk_size'] and n > options['chunk_size']:
            ctx.count('last_chunk_partial')
        if rng.random() < 0.3:
            m = rng.choice([max(n, 1), max(n, 1), max(n // 2, 1), 3, 1])
            shift = rng.randrange(m)
            if m < n:
                # Some items share their key
                edges |= set((i, i) for i in range(m) if rng.random() < 0.5)
                ctx.count('shared_keys')

            def key(x, m=m, shift=shift):
                return (index(x) + shift) % m

            options['key'] = key
            ctx.count('key_cases')
        f = pairwise
    elif kind == 'blocking':
        f = blocking
        width = rng.choice([1, 2, 4])
        salt2 = rng.randrange(1, 50)

        def blocks_of(x):
            i = index(x)
            return [(i * salt2 + b * b) % (4 + b) for b in range(width)]

        if rng.random() < 0.6:
            options['blocks'] = blocks_of
        else:
            options['block'] = lambda x: blocks_of(x)[0]
        if rng.random() < 0.4:
            options['mode'] = 'fuzzy_clusters'
    else:
        f = quickjoin
        radius_kind = 'metric'
        options['seed'] = gen.seed(rng)
        options['block_size'] = ctx.near(rng.choice([1, 2, 3, 6, 10, 500]), 1000, floor=1)
        options['beta'] = rng.choice([1.0, 1.0, 0.5, 0.75])
        if rng.random() < 0.3:
            options['vp_tree'] = True
        if rng.random() < 0.4:
            options['mode'] = 'fuzzy_clusters'
            # Which item of a pair comes first depends on addresses
            exact = not options.get('vp_tree')

    data = list(items)
    rng.shuffle(data)

    if kind in ('pairwise', 'fuzzy') and n and rng.random() < 0.25:
        # The same item several times, similar to itself or not
        edges |= set((i, i) for i in range(n) if rng.random() < 0.5)
        data = [rng.choice(items[:max(1, n // 2)]) for _ in data]
        ctx.count('repeated_items')

    def functions(path, bomb):
        if kind != 'quickjoin':
            return make(rng, edges, path, radius_kind, slow if path else 'none', salt, bomb, failure)

        spacing = (1, 2, 3, 0.75)[salt % 4]
        base = make(rng, set(), path, 'bool', slow if path else 'none', salt, bomb, failure)['similarity']

        def distance(a, b):
            if index(a) != index(b):
                base(a, b)
            i, j = index(a), index(b)
            return abs(i * i % 31 - j * j % 31) * spacing + (0 if i == j else 1)

        return {'distance': distance, 'radius': (1, 2, 3, 4, 1.75, 2.5, 0.5)[salt % 7]}

    witness = {'kind': kind, 'n': n, 'edges': sorted(edges)[:150], 'shape': shape, 'processes': processes, 'functions': radius_kind,
               'options': {k: v for k, v in options.items() if not callable(v)}, 'delays': slow, 'failing': boom and (boom, repr(FAILURES[failure]())), 'salt': salt}
    ok, sequential = ctx.call('sequential ' + kind, lambda: materialize(f(list(data), **dict(options, **functions(None, None))), n + 1))

    if not ok:
        return

    open(log, 'w').close()
    raised = None
    parallel = None

    try:
        parallel = materialize(f(gen.iterable(rng, data), **dict(options, processes=processes, **functions(log, boom))), n + 1)
    except Exception as e:
        raised = e

    no_leftover(ctx, witness)

    if rng.random() < 0.12 and boom is None and sequential:
        # Not consumed until the end
        iterator = iter(f(list(data), **dict(options, processes=processes, **functions(None, None))))
        ok, _ = ctx.call('parallel ' + kind, next, iterator)
        if ok and hasattr(iterator, 'close'):
            ok, _ = ctx.call('closing parallel ' + kind, iterator.close)
        del iterator
        no_leftover(ctx, witness)
        ctx.count('closed_early')

    rows = read_log(log)
    os.unlink(log)
    hit = boom is not None and any(r[1:] == boom for r in rows)
    ctx.count('comparisons_logged', len(rows))

    if hit:
        if raised is None:
            ctx.fail('the failure of a comparison in a worker was not raised', dict(witness, got=parallel))
        else:
            ctx.count('worker_failures_raised')
            ctx.distinct('failures', type(FAILURES[failure]()).__name__)
    elif raised is not None:
        ctx.fail('parallel %s raised %s: %s' % (kind, type(raised).__name__, raised), witness)
    elif exact:
        if canonical(sequential) != canonical(parallel):
            ctx.fail('parallel %s gives other clusters than sequential %s' % (kind, kind),
                     dict(witness, sequential=canonical(sequential), parallel=canonical(parallel)))
    else:
        d = functions(None, None)
        near = set((i, j) for i in range(n) for j in range(i + 1, n) if d['distance'](items[i], items[j]) <= d['radius'])
        problem = oracle.fuzzy_problem(n, near, [[items.index(x) for x in c] for c in parallel], kw.get('min_size', 2), kw.get('max_size', float('inf')))
        if problem:
            ctx.fail('parallel %s: %s' % (kind, problem), dict(witness, got=parallel))

    if shape == 'object' and parallel is not None:
        ids = set(map(id, items))
        if not all(id(x) in ids for c in parallel for x in c):
            ctx.fail('parallel %s yields copies of the items' % kind, dict(witness, got=parallel))
        ctx.count('identity_cases')

    me = os.getpid()
    workers = [p for p, _, _ in rows if p != me]
    rank = {}
    order = tuple(rank.setdefault(p, len(rank)) for p in workers)

    if len(rank) > 1:
        ctx.count('several_workers_seen')
        key = 'interleaving', oracle_hash(order)
        if key not in ctx.hashes_seen:
            ctx.hashes_seen.add(key)
            ctx.count('distinct_interleavings')
    if slow == 'first' and len(rank) > 1 and rows and (rows[-1][1] < 3 and rows[-1][2] < 6):
        ctx.count('late_first_chunk')

    ctx.count(kind + '_cases')
    ctx.observe((witness, tuple(data)), len(rank) > 1)


def oracle_hash(order):
    return hash(order)


def wrap(kind):
    def run(ctx):
        if not hasattr(ctx, 'hashes_seen'):
            ctx.hashes_seen = set()
        case(ctx, kind)
    return run


def large(ctx):
    """The default chunk size, on more items than one chunk."""
    from fog.clustering import pairwise
    rng = ctx.rng
    n = ctx.near(rng.choice([101, 150, 199, 201, 230]), 260)
    edges = gen.relation(rng, n)
    mode = rng.choice(['connected_components', 'fuzzy_clusters'])
    kw = gen.bounds(rng, n)
    fs = make(rng, edges, None, rng.choice(['bool', 'similarity', 'distance']), 'none', 0, None)
    witness = {'n': n, 'edges': sorted(edges)[:150], 'mode': mode, 'options': kw}
    ok, sequential = ctx.call('sequential pairwise', lambda: materialize(pairwise(list(range(n)), mode=mode, **dict(fs, **kw)), n + 1))
    ok2, parallel = ctx.call('parallel pairwise', lambda: materialize(pairwise(list(range(n)), mode=mode, processes=3, **dict(fs, **kw)), n + 1))
    if not ok or not ok2:
        return
    no_leftover(ctx, witness)
    if canonical(sequential) != canonical(parallel):
        ctx.fail('parallel pairwise gives other clusters than sequential pairwise', dict(witness, sequential=canonical(sequential), parallel=canonical(parallel)))
    ctx.count('default_chunks')
    ctx.observe(witness, bool(edges))


def giant(ctx):
    """Many chunks or blocks, and blocks of many items."""
    from fog.clustering import pairwise, blocking, quickjoin
    rng = ctx.rng
    kind = ('pairwise', 'blocks', 'block', 'quickjoin')[ctx.index % 4]
    n = rng.choice([520, 1010, 1100])
    args = {}
    if kind == 'quickjoin':
        f = quickjoin
        args.update(distance=lambda a, b: abs(a - b), radius=rng.choice([1, 2]), seed=gen.seed(rng), block_size=rng.choice([8, 30, 400]))
        edges = set()
    else:
        f = pairwise if kind == 'pairwise' else blocking
        edges = gen.giant_relation(rng, n)
        args.update(make(rng, edges, None, rng.choice(['bool', 'similarity', 'distance']), 'none', 0, None))
        if kind == 'pairwise':
            args['mode'] = rng.choice(['connected_components', 'fuzzy_clusters'])
            if rng.random() < 0.5:
                args['chunk_size'] = rng.choice([30, 99, 130, 300])
        elif kind == 'blocks':
            args['blocks'] = lambda x: [x // 2, (x + 1) // 2, 'b%d' % (x % 60)]
        else:
            args['block'] = lambda x: x % 2
    witness = {'kind': kind, 'n': n, 'edges': sorted(edges)[:100], 'options': {k: v for k, v in args.items() if not callable(v)}}
    ok, sequential = ctx.call('sequential %s' % kind, lambda: materialize(f(list(range(n)), **args), n + 1))
    ok2, parallel = ctx.call('parallel %s' % kind, lambda: materialize(f(list(range(n)), processes=rng.choice([2, 3, 5]), **args), n + 1))
    if not ok or not ok2:
        return
    no_leftover(ctx, witness)
    if canonical(sequential) != canonical(parallel):
        ctx.fail('parallel %s gives other clusters than the sequential one' % kind, dict(witness, sequential=canonical(sequential), parallel=canonical(parallel)))
    ctx.count('giant_' + kind)
    ctx.observe(witness, True)


def chunks(ctx):
    """Hundreds of chunks per side, few similar items."""
    from fog.clustering import pairwise
    rng = ctx.rng
    n = rng.choice([262, 280, 300])
    edges = set(tuple(sorted(rng.sample(range(n), 2))) for _ in range(10))
    edges |= set(tuple(sorted(rng.sample(range(n - 6, n), 2))) for _ in range(3))
    args = {'mode': rng.choice(['connected_components', 'fuzzy_clusters']), 'chunk_size': 1}
    witness = {'n': n, 'edges': sorted(edges), 'options': dict(args)}
    args.update(make(rng, edges, None, 'bool', 'none', 0, None))
    ok, sequential = ctx.call('sequential pairwise', lambda: materialize(pairwise(list(range(n)), **args), n + 1))
    ok2, parallel = ctx.call('parallel pairwise', lambda: materialize(pairwise(list(range(n)), processes=2, **args), n + 1))
    if not ok or not ok2:
        return
    no_leftover(ctx, witness)
    if canonical(sequential) != canonical(parallel):
        ctx.fail('parallel pairwise gives other clusters than sequential pairwise', dict(witness, sequential=canonical(sequential), parallel=canonical(parallel)))
    ctx.count('hundreds_of_chunks')
    ctx.observe(witness, True)


def spawned(ctx):
    """Workers started from nothing, as on some systems, rather than as copies of the main process."""
    rng = ctx.rng
    method = ('spawn', 'forkserver')[ctx.index % 2]
    cases = []

    for kind in ('pairwise', 'fuzzy', 'blocking', 'quickjoin'):
        n = rng.choice([3, 8, 17, 30])
        options = {'min_size': rng.choice([2, 2, 3])}
        radius = rng.choice([None, 1])
        if kind == 'quickjoin':
            options.update(seed=gen.seed(rng), block_size=rng.choice([2, 5, 10]))
            radius = rng.choice([1, 2, 4])
        elif kind != 'blocking':
            options.update(chunk_size=rng.choice([2, 5, 7, n]), mode='fuzzy_clusters' if kind == 'fuzzy' else 'connected_components')
        order = list(range(n))
        rng.shuffle(order)
        cases.append({'kind': kind, 'n': n, 'edges': sorted(gen.relation(rng, n)), 'objects': rng.random() < 0.5, 'order': order, 'options': options, 'radius': radius,
                      'processes': rng.choice([2, 3]), 'width': rng.choice([1, 3])})

    path = os.path.join(ctx.scratch, 'spawned-%d.json' % ctx.index)
    with open(path, 'w') as f:
        json.dump({'repo': core.REPO, 'method': method, 'cases': cases}, f)

    script = os.path.join(os.path.dirname(os.path.abspath(core.__file__)), 'spawned.py')
    process = subprocess.Popen([sys.executable, script, path], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=ctx.scratch, start_new_session=True)
    witness = {'method': method, 'cases': cases}

    try:
        out, err = process.communicate(timeout=120)
    except subprocess.TimeoutExpired:
        os.killpg(process.pid, 9)
        process.communicate()
        ctx.fail('parallel runs hang with the %s start method' % method, witness)
        return
    finally:
        os.unlink(path)

    if process.returncode != 0:
        ctx.fail('parallel runs fail with the %s start method' % method, dict(witness, stderr=err[-1500:]))
        return

    for c, r in zip(cases, json.loads(out)):
        if isinstance(r, str) or r[0] != r[1]:
            ctx.fail('parallel %s gives other clusters than sequential %s with the %s start method' % (c['kind'], c['kind'], method), dict(witness, case=c, got=r))
        ctx.count('spawned_cases' if method == 'spawn' else 'forkserver_cases')
        ctx.observe(json.dumps(c), bool(c['edges']))


def workloads(tier):
    k = 1 if tier == 'quick' else 25
    return [
        ('pairwise', wrap('pairwise'), 260 * k),
        ('fuzzy', wrap('fuzzy'), 260 * k),
        ('blocking', wrap('blocking'), 260 * k),
        ('quickjoin', wrap('quickjoin'), 260 * k),
        ('large', large, 16 * k),
        ('giant', giant, 12 * k),
        ('chunks', chunks, 2 * k),
        ('spawned', spawned, 8 * k)
    ]
