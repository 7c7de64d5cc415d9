from fractions import Fraction

from vf import gen
from vf.cluster import materialize, check_components, check_fuzzy, population

FILES = ['fog/clustering/intersection_index.py', 'fog/clustering/utils.py']
RULE = ('A case is a collection of token collections (strings, lists, sets, or items with a key), a metric, a radius often exactly reached, a '
        'mode and size bounds. Non-trivial: at least one similar pair. Pairs within 1e-12 of the radius that exact and floating comparison '
        'decide differently are outside the property.')
ASSUMPTIONS = ['the radius is positive']
REQUIRED = ['hardly_different_radius', 'colossal_cases', 'giant_cases', 'alike_items', 'unhashable_items', 'jaccard_cases', 'overlap_cases', 'fuzzy_cases', 'key_cases', 'pairs_within', 'pairs_at_radius', 'bounded_sizes', 'repeated_items',
            'empty_items', 'repeated_tokens', 'string_items', 'large_cases', 'exact_cases', 'lookalike_tokens']


def run(ctx, tokens, radius, metric):
    from fog.clustering import intersection_index
    rng = ctx.rng
    n = len(tokens)
    sets = [frozenset(t) for t in tokens]
    edges = set()
    meant = Fraction(radius)
    fl = float(radius)

    for i in range(n):
        for j in range(i + 1, n):
            inter = len(sets[i] & sets[j])
            if not inter:
                continue
            if metric == 'jaccard':
                s = Fraction(inter, len(sets[i] | sets[j]))
            else:
                s = Fraction(inter, min(len(sets[i]), len(sets[j])))
            if s >= meant:
                edges.add((i, j))
            if s == meant:
                ctx.count('pairs_at_radius')
            # A radius which is not a float: only its correctly rounded division can be compared with
            if (s >= meant) != (s.numerator / s.denominator >= fl):
                ctx.count('skipped_ambiguous')
                return

    ctx.count('pairs_within', len(edges))
    kw = gen.bounds(rng, n)
    args = dict(kw)

    if metric != 'jaccard' or rng.random() < 0.5:
        args['metric'] = metric
    if rng.random() < 0.4:
        args['mode'] = 'fuzzy_clusters'
        ctx.count('fuzzy_cases')
    if kw:
        ctx.count('bounded_sizes')
    if radius != Fraction(4, 5) or rng.random() < 0.5:
        args['radius'] = fl

    witness = {'tokens': tokens, 'radius': str(radius), 'metric': metric, 'options': args}

    if rng.random() < 0.4:
        items = gen.items(rng, n, ctx)
        make = rng.choice([list, tuple, set, iter])
        args['key'] = lambda x: make(tokens[x.index])
        ctx.count('key_cases')
    else:
        # Distinct objects even when equal, so that each can be told from the others
        strings = all(isinstance(x, str) and len(x) == 1 for t in tokens for x in t)
        make = rng.choice([list, tuple, frozenset, 'str' if strings else list])
        if make == 'str':
            items = [''.join(t) for t in tokens]
            ctx.count('string_items')
        else:
            items = [make(t) for t in tokens]

    ok, clusters = ctx.call('intersection_index', lambda: materialize(intersection_index(gen.iterable(rng, items), **args), n + 1))

    if not ok:
        return

    ids = {}

    for i, x in enumerate(items):
        ids.setdefault(id(x), []).append(i)

    if all(len(v) == 1 for v in ids.values()):
        found = []
        for c in clusters:
            if any(id(x) not in ids for x in c):
                ctx.fail('intersection_index yielded something that is not one of the items', dict(witness, cluster=c))
                return
            found.append([ids[id(x)][0] for x in c])
        if 'mode' in args:
            check_fuzzy(ctx, 'intersection_index', found, n, edges, kw, witness)
        else:
            check_components(ctx, 'intersection_index', found, n, edges, kw, witness, linked_only=True)
    else:
        from vf import oracle
        if 'mode' not in args:
            want = oracle.partition_key([[items[i] for i in c] for c in oracle.expected_components(n, edges, kw.get('min_size', 2), kw.get('max_size', float('inf')), True)])
            got = oracle.partition_key(clusters)
            if want != got:
                ctx.fail('intersection_index: clusters are not the connected components', dict(witness, got=got, expected=want))
        else:
            ctx.count('interned_fuzzy')

    if len(set(sets)) < n:
        ctx.count('repeated_items')
    if any(not s for s in sets):
        ctx.count('empty_items')
    if any(len(s) < len(t) for s, t in zip(sets, tokens)):
        ctx.count('repeated_tokens')

    ctx.count(metric + '_cases')
    ctx.observe((repr(tokens), str(radius), metric, sorted((k, repr(v)) for k, v in args.items() if k != 'key'), 'key' in args), bool(edges))


def draw_radius(rng):
    if rng.random() < 0.6:
        q = rng.randint(1, 10)
        return Fraction(rng.randint(1, q), q)
    return Fraction(rng.choice([0.125, 0.25, 0.5, 0.75, 0.8, 0.9, 0.3, 0.6, 1.0, 0.001, 0.8, 0.8]))


def small(ctx):
    from checks.c10 import record_set
    rng = ctx.rng
    for _ in range(5):
        n = population(rng, ctx.ints, 40)
        letters = list(rng.choice(['abc', 'abcdef', 'abcdefghijklmnop', 'é\U00010061bc']))
        if rng.random() < 0.2:
            letters = [1, 2, 3, 'a', (1, 2), None]
        elif rng.random() < 0.2:
            letters = gen.lookalikes(rng)
            ctx.count('lookalike_tokens')
        run(ctx, record_set(rng, n, letters, rng.choice([2, 4, 8])), draw_radius(rng), rng.choice(['jaccard', 'overlap']))


def large(ctx):
    from checks.c10 import record_set
    rng = ctx.rng
    run(ctx, record_set(rng, rng.choice([100, 200]), ['t%d' % i for i in range(60)], 10), draw_radius(rng), rng.choice(['jaccard', 'overlap']))
    ctx.count('large_cases')


def exact(ctx):
    """Two larger sets exactly at a radius that has no short binary form, and others a token away from it."""
    rng = ctx.rng
    for _ in range(10):
        metric = rng.choice(['jaccard', 'overlap'])
        u = rng.choice([rng.randint(11, 30), rng.randint(11, 30), rng.randint(30, 120)])
        i = rng.randint(1, u - 1)
        common = list(range(i))
        tokens = []
        for t in range(rng.randint(1, 3)):
            # The rest of the union is shared between both, for jaccard
            here = rng.randint(0, u - i) if metric == 'jaccard' else u - i
            base = 1000 * (t + 1)
            a = [base + x for x in common] + [base + 200 + x for x in range(here)]
            b = [base + x for x in common] + [base + 400 + x for x in range(u - i - here if metric == 'jaccard' else u - i + rng.randint(0, 3))]
            if rng.random() < 0.4:
                rng.choice([a, b]).append(base + 900)
            tokens += [a, b]
        rng.shuffle(tokens)
        radius = Fraction(i, u)
        if rng.random() < 0.3:
            # Hardly over or under it
            radius = Fraction(i / u + rng.choice([-1, 1, 1]) * rng.choice([1e-6, 1e-9, 1e-10, 2e-12]))
            ctx.count('hardly_different_radius')
        run(ctx, tokens, radius, metric)
        ctx.count('exact_cases')


def giant(ctx):
    """Items each sharing a token with the next, a token shared by hundreds of items, or items of hundreds of tokens."""
    rng = ctx.rng
    shape = rng.choice(['chain', 'chain', 'common', 'wide'])
    if shape == 'chain':
        n = rng.choice([1010, 1100, 1300])
        tokens = [['t%d' % i, 't%d' % (i + 1)] for i in range(n)]
        rng.shuffle(tokens)
        radius, metric = rng.choice([(Fraction(1, 3), 'jaccard'), (Fraction(1, 2), 'overlap')])
    elif shape == 'common':
        n = rng.choice([257, 300, 520])
        tokens = [['all', 't%d' % i] + (['twin'] if i in (0, n - 1) else []) for i in range(n)]
        radius, metric = rng.choice([(Fraction(1, 2), 'jaccard'), (Fraction(2, 3), 'overlap'), (Fraction(1, 3), 'jaccard')])
    else:
        m = rng.choice([257, 300, 520, 1030])
        tokens = [['t%d' % j for j in range(i * m // 2, i * m // 2 + m)] for i in range(6)]
        radius, metric = rng.choice([(Fraction(1, 4), 'jaccard'), (Fraction(1, 2), 'overlap'), (Fraction(1, 8), 'jaccard')])
    run(ctx, tokens, radius, metric)
    ctx.count('giant_cases')


def huge(ctx):
    """Tens of thousands of items, few of them sharing a token."""
    from fog.clustering import intersection_index
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    metric = rng.choice(['jaccard', 'overlap'])
    ok, clusters = ctx.call('intersection_index', lambda: materialize(intersection_index(
        gen.iterable(rng, list(range(n))), metric=metric, radius=0.5, key=lambda i: [owner.get(i, i)]), n + 1))
    if ok:
        colossal.check(ctx, 'intersection_index', clusters, groups, {'n': n, 'metric': metric})
    ctx.observe((n, repr(groups), metric), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('small', small, 1500 * k), ('large', large, 20 * k), ('exact', exact, 150 * k), ('giant', giant, 5 * k), ('huge', huge, 2 * k)]
