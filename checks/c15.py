from vf import gen
from vf.cluster import relation_functions, materialize, indices, check_components, check_fuzzy, population, Log

FILES = ['fog/clustering/sorted_neighborhood.py', 'fog/clustering/utils.py']
RULE = ('A case is a set of distinct items with one or several sort keys (ties included), a similarity relation, a window and size bounds. The '
        'plain method is compared with the pairs less than a window apart in the stable sort; the adaptive one with a model of the published '
        'window adaptation, and every comparison it makes is logged. Non-trivial: at least one similar pair.')
ASSUMPTIONS = ['similarity functions are symmetric and deterministic', 'items are distinct and hashable', 'the window is at least 2']
REQUIRED = ['many_passes', 'colossal_cases', 'giant_cases', 'plain_cases', 'adaptive_cases', 'multipass_cases', 'fuzzy_cases', 'bounded_sizes', 'comparisons', 'similar_pairs_out_of_window',
            'window_over_data', 'tied_keys', 'enlarged_windows', 'retrenched_windows', 'several_windows', 'large_cases', 'one_shot_data']


def adaptive_windows(S, similar, window):
    """
    Windows as (start, end), ends included: a window is enlarged while its
    extremities are similar, each time by its own size, then retrenched while
    its last two records are not similar, never under the requested size.
    """
    n = len(S)
    windows = []
    start = 0
    enlarged = retrenched = 0

    while start + window - 1 < n:
        left = start
        right = start + window - 1

        while right < n and left < right and similar(S[left], S[right]):
            size = right - start + 1
            left, right = right, right + size - 1
            enlarged += 1

        end = min(right, n - 1)

        while end - start + 1 > window and not similar(S[end - 1], S[end]):
            end -= 1
            retrenched += 1

        windows.append((start, end))
        start = end + 1

    if start < n:
        windows.append((start, n - 1))

    return windows, enlarged, retrenched


def run(ctx, n, adaptive, edges=None, window=None, sorting=None):
    from fog.clustering import sorted_neighborhood, adaptive_sorted_neighborhood
    rng = ctx.rng

    if edges is None:
        edges = gen.relation(rng, n)

    items = [gen.Item(i) for i in range(n)]
    log = Log()
    funcs, shape = relation_functions(rng, edges, lambda x: x.index, log)
    similar = lambda a, b: (min(a, b), max(a, b)) in edges
    kw = gen.bounds(rng, n)
    args = dict(funcs, **kw)

    if window is None:
        window = rng.choice([2, 2, 3, 3, 4, 5, 7, 10, max(2, n - 1), max(2, n), n + 1, n + 10])

    if window != 10 or rng.random() < 0.5:
        args['window'] = window

    def values():
        r = rng.random()
        if r < 0.4:
            v = list(range(n))
            rng.shuffle(v)
        elif r < 0.8:
            v = [rng.randrange(max(1, n // 3)) for _ in range(n)]
        else:
            v = [0] * n
        return v

    multi = rng.random() < 0.3
    passes = [sorting or values() for _ in range(rng.choice([1, 2, 2, 3, 3, rng.randint(4, 20)] if n < 60 else [1, 2, 3]) if multi else 1)]

    if len(passes) > 8:
        ctx.count('many_passes')

    if multi:
        args['keys'] = [(lambda x, v=v: v[x.index]) for v in passes]
        if rng.random() < 0.3:
            args['keys'] = tuple(args['keys'])
        ctx.count('multipass_cases')
    else:
        args['key'] = lambda x: passes[0][x.index]

    if rng.random() < 0.3:
        args['mode'] = 'fuzzy_clusters'
        ctx.count('fuzzy_cases')
    if kw:
        ctx.count('bounded_sizes')

    linked = set()
    allowed = set()

    for v in passes:
        S = sorted(range(n), key=lambda i: v[i])

        if len(set(v)) < n:
            ctx.count('tied_keys')

        if adaptive:
            windows, enlarged, retrenched = adaptive_windows(S, similar, window)
            ctx.count('enlarged_windows', enlarged)
            ctx.count('retrenched_windows', retrenched)
            if len(windows) > 2:
                ctx.count('several_windows')
            spans = [S[a:b + 1] for a, b in windows]
            for span in spans:
                for a in range(len(span)):
                    for b in range(a + 1, len(span)):
                        p = (min(span[a], span[b]), max(span[a], span[b]))
                        allowed.add(p)
        else:
            for a in range(n):
                for b in range(a + 1, min(n, a + window)):
                    allowed.add((min(S[a], S[b]), max(S[a], S[b])))

    linked = edges & allowed

    if linked != edges:
        ctx.count('similar_pairs_out_of_window')
    if window > n:
        ctx.count('window_over_data')

    f = adaptive_sorted_neighborhood if adaptive else sorted_neighborhood
    what = 'adaptive sorted neighbourhood' if adaptive else 'sorted neighbourhood'
    data = gen.iterable(rng, items)

    if iter(data) is data:
        ctx.count('one_shot_data')

    witness = {'n': n, 'edges': sorted(edges)[:150], 'window': window, 'passes': passes, 'shape': shape, 'options': kw, 'mode': args.get('mode'),
               'adaptive': adaptive, 'multipass': multi}
    ok, clusters = ctx.call(what, lambda: materialize(f(data, **args), n + 1))

    if not ok:
        return

    found = indices(ctx, what, clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    if not adaptive:
        out = [p for p in log.pairs if p not in allowed]
        if out:
            ctx.fail('items not within a window were compared', dict(witness, pairs=out[:5]))

    if 'mode' in args:
        check_fuzzy(ctx, what, found, n, linked, kw, witness)
    else:
        check_components(ctx, what, found, n, linked, kw, witness, linked_only=True)

    ctx.count('comparisons', log.calls)
    ctx.count('adaptive_cases' if adaptive else 'plain_cases')
    ctx.observe(repr(witness), bool(edges))


def small(ctx):
    for _ in range(3):
        n = population(ctx.rng, ctx.ints, 40)
        run(ctx, n, False)
        run(ctx, n, True)


def runs(ctx):
    """Runs of similar neighbours in the sorted data, for windows to adapt to."""
    rng = ctx.rng
    for _ in range(4):
        n = rng.randint(4, 40)
        order = list(range(n))
        rng.shuffle(order)
        rank = [0] * n
        for r, i in enumerate(order):
            rank[i] = r
        edges = set()
        a = 0
        while a < n:
            b = min(n, a + rng.choice([1, 2, 3, 5, 9, 17]))
            for x in range(a, b):
                for y in range(x + 1, b):
                    if rng.random() < 0.9:
                        i, j = order[x], order[y]
                        edges.add((min(i, j), max(i, j)))
            a = b
        run(ctx, n, rng.random() < 0.75, edges, rng.choice([2, 2, 3, 3, 4, 5, 6]), rank)


def strings(ctx):
    """No key: the items themselves are sorted."""
    from fog.clustering import sorted_neighborhood
    from vf import oracle
    rng = ctx.rng
    data = gen.strings(rng, rng.randint(0, 25), rng.choice(['ab', 'abc', 'abcdef']), rng.randint(1, 6))
    n = len(data)
    window = rng.choice([2, 3, 5, 10, 50])
    keys = rng.choice([None, [None], [None, lambda x: x[::-1]], [len, None]])
    radius = rng.choice([1, 2])
    edges = set()
    for k in keys or [None]:
        S = sorted(range(n), key=lambda i: k(data[i]) if k else data[i])
        for a in range(n):
            for b in range(a + 1, min(n, a + window)):
                if oracle.lev(data[S[a]], data[S[b]]) <= radius:
                    edges.add((min(S[a], S[b]), max(S[a], S[b])))
    kw = gen.bounds(rng, n)
    args = dict(kw)
    if keys is not None:
        args['keys'] = keys
    ok, clusters = ctx.call('sorted neighbourhood', lambda: materialize(sorted_neighborhood(gen.iterable(rng, data), distance=oracle.lev, radius=radius, window=window, **args), n + 1))
    if not ok:
        return
    position = {s: i for i, s in enumerate(data)}
    found = indices(ctx, 'sorted neighbourhood', clusters, position.get, n)
    if found is not None:
        check_components(ctx, 'sorted neighbourhood', found, n, edges, kw, {'data': data, 'window': window, 'radius': radius, 'passes': len(keys or [0])}, linked_only=True)
    ctx.observe((tuple(data), window, radius, sorted(kw.items()), len(keys or [])), bool(edges))


def large(ctx):
    rng = ctx.rng
    n = rng.choice([101, 200, 300])
    run(ctx, n, rng.random() < 0.5)
    ctx.count('large_cases')


def giant(ctx):
    """Long chains or runs in the sorted data, and windows of hundreds of items."""
    rng = ctx.rng
    if rng.random() < 0.5:
        n = rng.choice([1010, 1100, 1500])
        edges = set((i, i + 1) for i in range(n - 1))
        window = rng.choice([2, 3, 10])
    else:
        n = rng.choice([300, 520, 700])
        edges = gen.giant_relation(rng, n)
        window = rng.choice([3, 10, 130, 260, n])
    run(ctx, n, rng.random() < 0.5, edges, window, list(range(n)))
    ctx.count('giant_cases')


def huge(ctx):
    """Tens of thousands of items, few of them similar to the next."""
    from fog.clustering import sorted_neighborhood, adaptive_sorted_neighborhood
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.adjacent(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    window = rng.choice([2, 3, 4])
    data = list(range(n))
    rng.shuffle(data)
    similar = lambda a, b: a != b and owner.get(a, -1) == owner.get(b, -2)
    adaptive = rng.random() < 0.4
    if adaptive:
        expected = set()
        for a, b in adaptive_windows(range(n), similar, window)[0]:
            for i in range(a, b + 1):
                for j in range(i + 1, b + 1):
                    if similar(i, j):
                        expected.add((i, j))
        expected = colossal_components(expected)
    else:
        expected = groups
    f = adaptive_sorted_neighborhood if adaptive else sorted_neighborhood
    args = rng.choice([{}, {'key': lambda i: i}, {'keys': [None]}])
    ok, clusters = ctx.call('sorted neighbourhood', lambda: materialize(f(data, similarity=similar, window=window, **args), n + 1))
    if ok:
        colossal.check(ctx, 'sorted neighbourhood', clusters, expected, {'n': n, 'adaptive': adaptive, 'window': window, 'with': sorted(args)})
    ctx.observe((n, repr(groups), adaptive, window, sorted(args)), True)


def colossal_components(edges):
    """Of runs of neighbours: consecutive pairs sharing an item."""
    parts = []
    for a, b in sorted(edges):
        if parts and a in parts[-1]:
            if b not in parts[-1]:
                parts[-1].append(b)
        else:
            parts.append([a, b])
    return [sorted(p) for p in parts]


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('small', small, 1200 * k), ('runs', runs, 800 * k), ('strings', strings, 400 * k), ('large', large, 16 * k), ('giant', giant, 5 * k), ('huge', huge, 2 * k)]
