from vf import gen, oracle
from vf.cluster import materialize, indices, check_components, check_fuzzy, population

FILES = ['fog/clustering/quickjoin.py', 'fog/clustering/utils.py']
RULE = ('A case is a set of items of a metric space (line, plane, strings, bit strings, trees, discrete) with a radius, block size, seed, beta, '
        'solver and mode, as a distance or as a similarity. Non-trivial: at least one pair within the radius and more items than the block size.')
ASSUMPTIONS = ['the distance is a true metric, but that different items may be at a null distance', 'items are distinct', 'block_size >= 1, 0 <= beta <= 1']
REQUIRED = ['colossal_cases', 'giant_cases', 'split_cases', 'pairs_within', 'pairs_at_radius', 'vp_tree_cases', 'similarity_cases', 'fuzzy_cases', 'unsplittable_cases', 'empty_cases',
            'distance_calls', 'fewer_comparisons_than_all_pairs', 'beta_cases', 'large_cases']


def run(ctx, items, distance, radius, block_size=None, label=None):
    from fog.clustering import quickjoin
    rng = ctx.rng
    n = len(items)
    position = {x: i for i, x in enumerate(items)}
    edges = set()

    for i in range(n):
        for j in range(i + 1, n):
            d = distance(items[i], items[j])
            if d <= radius:
                edges.add((i, j))
                if d == radius:
                    ctx.count('pairs_at_radius')

    ctx.count('pairs_within', len(edges))
    calls = [0]

    def watched(a, b):
        calls[0] += 1
        return distance(a, b)

    kw = gen.bounds(rng, n)
    args = dict(kw)

    if block_size is None:
        block_size = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, max(1, n // 2), max(1, n - 1), max(1, n), 500])

    args['block_size'] = block_size

    if rng.random() < 0.85:
        args['seed'] = gen.seed(rng)
    if rng.random() < 0.4:
        args['beta'] = rng.choice([0.25, 0.5, 0.75, 1.0, 0])
        ctx.count('beta_cases')
    if rng.random() < 0.35:
        args['vp_tree'] = True
        ctx.count('vp_tree_cases')
    if rng.random() < 0.35:
        args['mode'] = 'fuzzy_clusters'
        ctx.count('fuzzy_cases')

    # A similarity whose complement is the metric: dyadic scale, exact arithmetic
    scaled = False

    if rng.random() < 0.35:
        scale = 4096.0
        args['similarity'] = lambda a, b: 1.0 - watched(a, b) / scale
        args['radius'] = 1.0 - radius / scale
        scaled = True
        ctx.count('similarity_cases')
    else:
        args['distance'] = watched
        args['radius'] = radius

    witness = {'items': items, 'radius': radius, 'similarity': scaled, 'options': {k: v for k, v in args.items() if not callable(v)},
               'edges': sorted(edges)[:100]}
    ok, clusters = ctx.call('quickjoin', lambda: materialize(quickjoin(gen.iterable(rng, items), **args), n + 1))

    if not ok:
        return

    ctx.count('distance_calls', calls[0])

    if n > block_size:
        ctx.count('split_cases')
        if calls[0] < n * (n - 1) // 2:
            ctx.count('fewer_comparisons_than_all_pairs')

    found = indices(ctx, 'quickjoin', clusters, position.get, n)

    if found is None:
        return

    if 'mode' in args:
        check_fuzzy(ctx, 'quickjoin', found, n, edges, kw, witness)
    else:
        check_components(ctx, 'quickjoin', found, n, edges, kw, witness, linked_only=True)

    if n == 0:
        ctx.count('empty_cases')
    if label:
        ctx.count(label)

    ctx.observe((repr(items), radius, sorted((k, repr(v)) for k, v in args.items() if not callable(v)), scaled), bool(edges) and n > block_size)


def spaces(ctx):
    rng = ctx.rng
    for _ in range(5):
        n = population(rng, ctx.ints, 60)
        items, distance, radius, kind = gen.metric_space(rng, n)
        run(ctx, items, distance, radius)


def medium(ctx):
    rng = ctx.rng
    n = rng.randint(30, 90)
    items, distance, radius, kind = gen.metric_space(rng, n)
    run(ctx, items, distance, radius, block_size=rng.choice([1, 2, 3, 5, 10, 20]))


def unsplittable(ctx):
    """All items at the same distance, or nearly."""
    rng = ctx.rng
    n = rng.choice([2, 3, 5, 20, 50])
    lone = rng.random() < 0.5
    items = list(range(n))
    rng.shuffle(items)
    far = rng.choice([1, 2])

    def distance(a, b):
        if a == b:
            return 0
        if lone and (a == 0 or b == 0):
            return far
        return 1

    run(ctx, items, distance, rng.choice([0, 0.5, 1, 2]), block_size=rng.choice([1, 2, 3]), label='unsplittable_cases')


def large(ctx):
    """More items than the default block size."""
    rng = ctx.rng
    n = rng.choice([501, 520, 640])
    top = rng.choice([2000, 6000])
    items = rng.sample(range(top), n)
    run(ctx, items, lambda a, b: abs(a - b), rng.choice([0, 1, 2]), block_size=rng.choice([500, 100, 16, 3]), label='large_cases')


def giant(ctx):
    """Items each within the radius of the next."""
    rng = ctx.rng
    n = rng.choice([1010, 1100, 1500])
    items = [i * 2 for i in range(n)]
    rng.shuffle(items)
    run(ctx, items, lambda a, b: abs(a - b), rng.choice([2, 2, 3, 4]), block_size=rng.choice([500, 100, 16, 1000]), label='giant_cases')


def huge(ctx):
    """Tens of thousands of points of a line, few of them close to another."""
    from fog.clustering import quickjoin
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    data = [float(10 * i) for i in range(n)]
    for g in groups:
        for x, i in enumerate(g):
            data[i] = 10.0 * g[0] + x
    position = {v: i for i, v in enumerate(data)}
    args = {'block_size': rng.choice([20, 100]), 'seed': rng.randrange(1000)}
    ok, clusters = ctx.call('quickjoin', lambda: materialize(quickjoin(data, 3, distance=lambda a, b: abs(a - b), **args), n + 1))
    if ok:
        colossal.check(ctx, 'quickjoin', [[position[v] for v in c] for c in clusters], groups, {'n': n, 'options': args})
    ctx.observe((n, repr(groups), sorted(args.items())), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('spaces', spaces, 900 * k),
        ('medium', medium, 300 * k),
        ('unsplittable', unsplittable, 200 * k),
        ('large', large, 6 * k),
        ('giant', giant, 3 * k),
        ('huge', huge, k)
    ]
