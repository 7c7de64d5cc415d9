from vf import gen, oracle
from vf.cluster import relation_functions, materialize, indices, check_fuzzy, population, shared_keys, Log

FILES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py']
RULE = ('A case is a collection of items with an arbitrary similarity relation, clustered by the leader and by the fuzzy method with size '
        'bounds. Non-trivial: at least one similar pair.')
ASSUMPTIONS = ['similarity functions are symmetric and deterministic']
REQUIRED = ['alike_items', 'unhashable_items', 'leader_cases', 'shared_keys', 'fuzzy_cases', 'leader_oversized_groups', 'fuzzy_out_of_bounds_neighbourhoods', 'overlapping_fuzzy_clusters', 'string_cases', 'large_cases', 'giant_relations']


def leader(ctx, n, edges):
    from fog.clustering import pairwise, pairwise_leader
    rng = ctx.rng
    items = gen.items(rng, n, ctx)
    kw = gen.bounds(rng, n)
    log = Log()
    funcs, shape = relation_functions(rng, edges, lambda x: x.index, log)
    data = gen.iterable(rng, items)
    witness = {'n': n, 'edges': sorted(edges)[:200], 'shape': shape, 'options': kw}

    if rng.random() < 0.5:
        thunk = lambda: pairwise(data, mode='leader', **dict(funcs, **kw))
    else:
        thunk = lambda: pairwise_leader(data, **dict(funcs, **kw))

    ok, clusters = ctx.call('leader clustering', lambda: materialize(thunk(), n + 1))

    if not ok:
        return

    found = indices(ctx, 'leader clustering', clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    similar = lambda i, j: (i, j) in edges
    expected = oracle.expected_leader(n, similar, kw.get('min_size', 2), kw.get('max_size', float('inf')))

    # The leader comes first; members and clusters may come in any order
    got = sorted((c[0], sorted(c[1:])) for c in found if c)

    if got != sorted((c[0], sorted(c[1:])) for c in expected):
        ctx.fail('leader clusters are not those of the leader method', dict(witness, got=found, expected=expected))

    if 'max_size' in kw:
        g = oracle.graph_of(n, edges)
        if any(len(x) + 1 > kw['max_size'] for x in g):
            ctx.count('leader_oversized_groups')

    ctx.count('leader_cases')
    ctx.observe(('leader', n, tuple(sorted(edges)), shape, sorted(kw.items())), bool(edges))


def fuzzy(ctx, n, edges):
    from fog.clustering import pairwise, pairwise_fuzzy_clusters
    rng = ctx.rng
    items = gen.items(rng, n, ctx)
    kw = gen.bounds(rng, n)
    keyed = rng.random() < 0.4
    log = Log()
    keys = [gen.Key((i, 'key')) for i in range(n)]
    related = edges

    if keyed and n < 100 and rng.random() < 0.4:
        keys, related, edges = shared_keys(rng, n)
        ctx.count('shared_keys')

    funcs, shape = relation_functions(rng, related, (lambda k: k[0]) if keyed else (lambda x: x.index), log)
    args = dict(funcs, **kw)

    if keyed:
        args['key'] = lambda item: keys[item.index]

    data = gen.iterable(rng, items)
    witness = {'n': n, 'edges': sorted(edges)[:200], 'shape': shape, 'options': kw, 'keys': keys if keyed else None}

    if rng.random() < 0.5:
        thunk = lambda: pairwise(data, mode='fuzzy_clusters', **args)
    else:
        thunk = lambda: pairwise_fuzzy_clusters(data, **args)

    ok, clusters = ctx.call('fuzzy clustering', lambda: materialize(thunk(), n + 1))

    if not ok:
        return

    found = indices(ctx, 'fuzzy clustering', clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    check_fuzzy(ctx, 'fuzzy clusters', found, n, edges, kw, witness)

    g = oracle.graph_of(n, edges)
    if any(x and not oracle.in_bounds(len(x) + 1, kw.get('min_size', 2), kw.get('max_size', float('inf'))) for x in g):
        ctx.count('fuzzy_out_of_bounds_neighbourhoods')
    if sum(map(len, found)) > len(set(i for c in found for i in c)):
        ctx.count('overlapping_fuzzy_clusters')

    ctx.count('fuzzy_cases')
    ctx.observe(('fuzzy', n, tuple(sorted(edges)), shape, sorted(kw.items()), keyed), bool(edges))


def both(ctx, n):
    edges = gen.relation(ctx.rng, n)
    leader(ctx, n, edges)
    fuzzy(ctx, n, edges)


def relations(ctx):
    for _ in range(5):
        both(ctx, population(ctx.rng, ctx.ints, 40))


def tiny(ctx):
    """Every relation over few items."""
    n = ctx.rng.choice([3, 4, 5])
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    mask = ctx.rng.getrandbits(len(pairs))
    edges = set(p for b, p in enumerate(pairs) if mask >> b & 1)
    for _ in range(4):
        leader(ctx, n, edges)
        fuzzy(ctx, n, edges)


def large(ctx):
    both(ctx, ctx.rng.choice([101, 150, 257, 300]))
    ctx.count('large_cases')


def very_large(ctx):
    n = ctx.rng.choice([1001, 1030])
    edges = set()
    for _ in range(ctx.rng.randint(n // 4, n)):
        i, j = ctx.rng.randrange(n), ctx.rng.randrange(n)
        if i != j:
            edges.add((min(i, j), max(i, j)))
    if ctx.rng.random() < 0.7:
        edges = gen.giant_relation(ctx.rng, n)
        ctx.count('giant_relations')
    leader(ctx, n, edges)
    fuzzy(ctx, n, edges)
    ctx.count('large_cases')


def strings(ctx):
    """Strings, repeated ones included: an item is a position in the data."""
    from fog.clustering import pairwise
    rng = ctx.rng

    for mode in ('leader', 'fuzzy_clusters'):
        n = population(rng, ctx.ints, 30)
        data = gen.strings(rng, n, gen.alphabet(rng), rng.randint(1, 6))
        data += [rng.choice(data) for _ in range(rng.randint(0, 4)) if data]
        rng.shuffle(data)
        n = len(data)
        radius = rng.choice([0, 1, 1, 2, 3])
        kw = gen.bounds(rng, n)
        lo, hi = kw.get('min_size', 2), kw.get('max_size', float('inf'))
        ok, clusters = ctx.call('pairwise', lambda: materialize(pairwise(gen.iterable(rng, data), mode=mode, distance=oracle.lev, radius=radius, **kw), n + 1))
        if not ok:
            return
        witness = {'mode': mode, 'data': data, 'radius': radius, 'options': kw, 'got': clusters}
        near = [[j for j in range(n) if oracle.lev(data[i], data[j]) <= radius] for i in range(n)]

        if mode == 'leader':
            expected = oracle.expected_leader(n, lambda i, j: j in near[i], lo, hi)
            if sorted((c[0], sorted(c[1:])) for c in clusters) != sorted((data[c[0]], sorted(data[i] for i in c[1:])) for c in expected):
                ctx.fail('leader clusters of strings are wrong', dict(witness, expected=[[data[i] for i in c] for c in expected]))
        else:
            hoods = [sorted(data[j] for j in near[i]) for i in range(n)]
            for c in clusters:
                if not any(sorted(c) == hoods[i] for i in range(n)) or not lo <= len(c) <= hi:
                    ctx.fail('a fuzzy cluster of strings is not a neighbourhood', dict(witness, cluster=c))
            inside = set(x for c in clusters for x in c)
            for i in range(n):
                if len(near[i]) > 1 and lo <= len(near[i]) <= hi and data[i] not in inside:
                    ctx.fail('a string has a neighbourhood but is in no fuzzy cluster', dict(witness, item=data[i]))

        ctx.count('string_cases')
        ctx.observe((mode, tuple(data), radius, sorted(kw.items())), any(len(x) > 1 for x in near))


def workloads(tier):
    k = 4 if tier == 'quick' else 60
    return [
        ('relations', relations, 1200 * k),
        ('tiny', tiny, 1000 * k),
        ('strings', strings, 400 * k),
        ('large', large, 10 * k),
        ('very_large', very_large, 3 * k)
    ]
