from vf import gen, oracle
from vf.cluster import materialize, indices, check_fuzzy, population

FILES = ['fog/clustering/vp_tree.py']
RULE = ('A case is a collection of items of a metric space, some of them repeated, with a radius and size bounds. Non-trivial: at least one pair within the radius.')
ASSUMPTIONS = ['the distance is a true metric, but that different items may be at a null distance', 'items are hashable']
REQUIRED = ['colossal_cases', 'giant_cases', 'pairs_within', 'pairs_at_radius', 'bounded_sizes', 'less_than_two_items', 'overlapping_clusters', 'clusters', 'distance_calls', 'large_cases',
            'out_of_bounds_neighbourhoods', 'repeated_items_cases']


def run(ctx, items, distance, radius):
    from fog.clustering import vp_tree
    rng = ctx.rng
    repeated = len(items) > 0 and rng.random() < 0.25

    if repeated:
        items = items + [rng.choice(items) for _ in range(rng.choice([1, 2, 5, len(items)]))]
        rng.shuffle(items)

    n = len(items)
    position = {x: i for i, x in enumerate(items)}
    edges = set()

    for i in range(n):
        for j in range(i + 1, n):
            d = distance(items[i], items[j])
            if d <= radius:
                edges.add((i, j))
                if d == radius:
                    ctx.count('pairs_at_radius')

    ctx.count('pairs_within', len(edges))
    kw = gen.bounds(rng, n, floor=1)

    if kw:
        ctx.count('bounded_sizes')
    if n < 2:
        ctx.count('less_than_two_items')

    calls = [0]

    def watched(a, b):
        calls[0] += 1
        return distance(a, b)

    witness = {'items': items, 'radius': radius, 'options': kw, 'edges': sorted(edges)[:100]}
    ok, clusters = ctx.call('vp_tree', lambda: materialize(vp_tree(gen.iterable(rng, items), watched, radius, **kw), n + 1))

    if not ok:
        return

    if repeated:
        # The copies of an item are not told from one another
        places = {}
        for i, x in enumerate(items):
            places.setdefault(x, []).append(i)
        rows = []
        for c in clusters:
            left = {x: list(p) for x, p in places.items()}
            row = []
            for x in c:
                if not left.get(x):
                    ctx.fail('vp_tree: an item is in a cluster more often than it was given', dict(witness, cluster=c, item=x))
                    return
                row.append(left[x].pop())
            rows.append(row)
        found = rows
        ctx.count('repeated_items_cases')
    else:
        found = indices(ctx, 'vp_tree', clusters, position.get, n)

    if found is None:
        return

    check_fuzzy(ctx, 'vp_tree', found, n, edges, kw, witness, singletons=True)
    g = oracle.graph_of(n, edges)

    if any(not oracle.in_bounds(len(x) + 1, kw.get('min_size', 2), kw.get('max_size', float('inf'))) for x in g):
        ctx.count('out_of_bounds_neighbourhoods')
    if sum(map(len, found)) > len(set(i for c in found for i in c)):
        ctx.count('overlapping_clusters')

    ctx.count('clusters', len(found))
    ctx.count('distance_calls', calls[0])
    ctx.observe((repr(items), radius, sorted(kw.items())), bool(edges))


def spaces(ctx):
    rng = ctx.rng
    for _ in range(5):
        n = population(rng, ctx.ints, 60)
        items, distance, radius, kind = gen.metric_space(rng, n)
        run(ctx, items, distance, radius)


def large(ctx):
    rng = ctx.rng
    items, distance, radius, kind = gen.metric_space(rng, rng.choice([100, 200, 300]))
    run(ctx, items, distance, radius)
    ctx.count('large_cases')


def giant(ctx):
    rng = ctx.rng
    n = rng.choice([520, 1010, 1100])
    if rng.random() < 0.5:
        items, distance, radius = rng.sample(range(n * 2), n), lambda a, b: abs(a - b), rng.choice([1, 2, 3])
    else:
        # A neighbourhood of hundreds of items
        items, distance, radius = rng.sample(range(n), n), lambda a, b: abs(a - b), rng.choice([130, 260])
    run(ctx, items, distance, radius)
    ctx.count('giant_cases')


def huge(ctx):
    """Tens of thousands of points of a line, few of them close to another."""
    from fog.clustering import vp_tree
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    data = [float(10 * i) for i in range(n)]
    for g in groups:
        for x, i in enumerate(g):
            data[i] = 10.0 * g[0] + x
    position = {v: i for i, v in enumerate(data)}
    ok, clusters = ctx.call('vp_tree', lambda: materialize(vp_tree(data, lambda a, b: abs(a - b), 3), n + 1))
    if ok:
        colossal.check(ctx, 'vp_tree', [[position[v] for v in c] for c in clusters], groups, {'n': n})
    ctx.observe((n, repr(groups)), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('spaces', spaces, 1000 * k), ('large', large, 16 * k), ('giant', giant, 3 * k), ('huge', huge, k)]
