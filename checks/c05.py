from vf import gen, oracle
from vf.cluster import relation_functions, materialize, indices, check_components, population, shared_keys, Log

FILES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py']
RULE = ('A case is a collection of items with an arbitrary similarity relation (chains, stars, cliques, random graphs...) shown through a '
        'similarity or distance function, with or without radius, key and size bounds. Non-trivial: at least one similar pair.')
ASSUMPTIONS = ['similarity functions are symmetric and deterministic']
REQUIRED = ['alike_items', 'unhashable_items', 'cases_with_key', 'shared_keys', 'cases_with_radius', 'comparisons', 'bounded_sizes', 'string_cases', 'clusters', 'large_cases', 'giant_relations']


def run(ctx, n, edges, through_dispatch=None):
    from fog.clustering import pairwise, pairwise_connected_components
    rng = ctx.rng
    log = Log()
    keyed = rng.random() < 0.4
    items = gen.items(rng, n, ctx)
    kw = gen.bounds(rng, n, floor=1)
    keys = [gen.Key((i, 'key')) for i in range(n)]
    related = edges

    if keyed and n < 100 and rng.random() < 0.4:
        keys, related, edges = shared_keys(rng, n)
        ctx.count('shared_keys')

    funcs, shape = relation_functions(rng, related, (lambda k: k[0]) if keyed else (lambda x: x.index), log)
    args = dict(funcs, **kw)

    if keyed:
        args['key'] = lambda item: keys[item.index]
        ctx.count('cases_with_key')
    if 'radius' in funcs:
        ctx.count('cases_with_radius')
    if kw:
        ctx.count('bounded_sizes')

    witness = {'n': n, 'edges': sorted(edges)[:200], 'shape': shape, 'options': kw, 'keys': keys if keyed else None}
    f = pairwise_connected_components

    if rng.random() < 0.5:
        f = pairwise
        if rng.random() < 0.5:
            args['mode'] = 'connected_components'

    ok, clusters = ctx.call('connected components', lambda: materialize(f(gen.iterable(rng, items), **args), n + 1))

    if not ok:
        return

    found = indices(ctx, 'connected components', clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    check_components(ctx, 'pairwise', found, n, edges, kw, witness)
    ctx.count('comparisons', log.calls)
    ctx.count('clusters', len(found))
    ctx.observe((n, tuple(sorted(edges)), shape, sorted(kw.items()), keyed), bool(edges))


def relations(ctx):
    for _ in range(6):
        n = population(ctx.rng, ctx.ints, 40)
        run(ctx, n, gen.relation(ctx.rng, n))


def large(ctx):
    n = ctx.rng.choice([101, 150, 257, 300, 400])
    run(ctx, n, gen.relation(ctx.rng, n))
    ctx.count('large_cases')


def very_large(ctx):
    n = ctx.rng.choice([1001, 1030, 1200])
    edges = set()
    for _ in range(ctx.rng.randint(n // 4, n)):
        i, j = ctx.rng.randrange(n), ctx.rng.randrange(n)
        if i != j:
            edges.add((min(i, j), max(i, j)))
    if ctx.rng.random() < 0.7:
        edges = gen.giant_relation(ctx.rng, n)
        ctx.count('giant_relations')
    run(ctx, n, edges)
    ctx.count('large_cases')


def strings(ctx):
    """Real strings, repeated ones included, and real distances."""
    from fog.clustering import pairwise
    rng = ctx.rng

    for _ in range(4):
        n = population(rng, ctx.ints, 30)
        letters = gen.alphabet(rng)
        data = gen.strings(rng, n, letters, rng.randint(1, 6))
        data += [rng.choice(data) for _ in range(rng.randint(0, 4)) if data]
        rng.shuffle(data)
        n = len(data)
        radius = rng.choice([0, 1, 1, 2, 3])
        kw = gen.bounds(rng, n, floor=1)
        low = rng.random() < 0.3
        key = (lambda s: s[::-1].lower()) if low else None
        keys = [key(s) for s in data] if low else data
        edges = set((i, j) for i in range(n) for j in range(i + 1, n) if oracle.lev(keys[i], keys[j]) <= radius)
        expected = oracle.partition_key([[data[i] for i in c] for c in oracle.expected_components(n, edges, kw.get('min_size', 2), kw.get('max_size', float('inf')))])
        args = dict(kw)
        if low:
            args['key'] = key
        ok, clusters = ctx.call('pairwise', lambda: materialize(pairwise(gen.iterable(rng, data), distance=oracle.lev, radius=radius, **args), n + 1))
        if not ok:
            return
        got = oracle.partition_key(clusters)
        if got != expected:
            ctx.fail('pairwise: clusters of strings are not the connected components', {'data': data, 'radius': radius, 'options': kw, 'got': got, 'expected': expected})
        ctx.count('string_cases')
        ctx.observe((tuple(data), radius, sorted(kw.items()), low), bool(edges))


def workloads(tier):
    k = 4 if tier == 'quick' else 60
    return [
        ('relations', relations, 1500 * k),
        ('strings', strings, 400 * k),
        ('large', large, 12 * k),
        ('very_large', very_large, 3 * k)
    ]
