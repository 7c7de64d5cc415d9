import math
from fractions import Fraction

from vf import gen, oracle
from vf.core import enlarged
from vf.cluster import materialize, population

FILES = ['fog/clustering/minhash.py', 'fog/clustering/nn_descent.py', 'fog/clustering/utils.py', 'fog/lsh/minhash.py']
RULE = ('A case is a collection, a radius, a seed and options of MinHash or NN-Descent clustering (both variants, as distance or similarity), '
        'run twice. Non-trivial: at least one similar pair. Every link of every cluster is checked against the real similarity.')
ASSUMPTIONS = ['similarity functions are symmetric and deterministic', 'k >= 1 and radius > 0 for MinHash; whether two items without tokens are similar is not settled',
               'a pair is all but certain to share a band when the textbook probability not to is under 1e-15',
               'rates of found pairs are measured over 600 pairs and 15 seeds, and may miss the textbook one by 7 standard deviations and 0.04']
REQUIRED = ['hardly_different_radius', 'colossal_cases', 'many_neighbors', 'alike_items', 'unhashable_items', 'enlarged_cases', 'minhash_cases', 'nn_descent_cases', 'nn_descent_full_cases', 'numpy_cases', 'identical_tokens', 'certain_pairs', 'exact_k_cases', 'fuzzy_cases',
            'clusters', 'similar_pairs', 'reruns', 'bounded_sizes', 'tiny_data', 'distance_cases', 'dissimilar_pairs_sharing_tokens', 'pairs_exactly_at_radius', 'recall_measures', 'items_without_tokens']


def connected(members, edges):
    members = list(members)
    seen = {members[0]}
    stack = [members[0]]
    inside = set(members)

    while stack:
        x = stack.pop()
        for y in inside:
            if y not in seen and (min(x, y), max(x, y)) in edges:
                seen.add(y)
                stack.append(y)

    return len(seen) == len(inside)


def sound(ctx, what, found, edges, kw, witness, fuzzy=False):
    lo, hi = kw.get('min_size', 2), kw.get('max_size', float('inf'))
    taken = set()

    for c in found:
        if len(set(c)) != len(c):
            ctx.fail('%s: an item is repeated in a cluster' % what, dict(witness, cluster=c))
        elif not lo <= len(c) <= hi:
            ctx.fail('%s: a cluster is out of the size bounds' % what, dict(witness, cluster=c))
        elif not connected(c, edges):
            ctx.fail('%s: a cluster links dissimilar items' % what, dict(witness, cluster=c))
        elif fuzzy and not any(all(y == x or (min(x, y), max(x, y)) in edges for y in c) for x in c):
            ctx.fail('%s: no member of a fuzzy cluster is similar to all others' % what, dict(witness, cluster=c))

        if not fuzzy:
            if taken & set(c):
                ctx.fail('%s: an item is in two clusters' % what, dict(witness, got=found))
            taken.update(c)

    ctx.count('clusters', len(found))


# --- NN-Descent ------------------------------------------------------------------------

def descent(ctx, n=None, all_neighbors=False):
    from fog.clustering import nn_descent, nn_descent_full
    rng = ctx.rng
    n = population(rng, ctx.ints, 30) if n is None else n
    full = rng.random() < 0.5
    f = nn_descent_full if full else nn_descent
    what = 'nn_descent_full' if full else 'nn_descent'
    items = gen.items(rng, n, ctx)
    kind = rng.choice(['metric', 'relation', 'relation', 'constant'])

    if kind == 'metric':
        points, d, radius, _ = gen.metric_space(rng, n)
        value = lambda i, j: d(points[i], points[j])
        as_distance = True
    elif kind == 'constant':
        constant = rng.choice([0, 1])
        value = lambda i, j: constant
        radius = rng.choice([0, 1])
        as_distance = rng.random() < 0.5
    else:
        rel = gen.relation(rng, n)
        salt = rng.random()
        radius = rng.choice([0.5, 0.9, 1, 3])
        tiny = rng.choice([0, 1e-12, 1e-9])
        under, over = min(math.nextafter(radius, 0), radius - tiny), max(math.nextafter(radius, 9), radius + tiny)
        as_distance = rng.random() < 0.5

        def value(i, j):
            p = (min(i, j), max(i, j))
            h = hash((p, salt))
            if as_distance:
                return [radius, radius * 0.5, 0, under][h % 4] if p in rel else [radius + 0.125, radius * 2, over][h % 3]
            return [radius, radius * 2, radius + 0.125, over][h % 4] if p in rel else [0, radius - 0.125, -1, under][h % 4]

    edges = set()

    for i in range(n):
        for j in range(i + 1, n):
            v = value(i, j)
            if (v <= radius) if as_distance else (v >= radius):
                edges.add((i, j))

    ctx.count('similar_pairs', len(edges))
    calls = [0]

    def function(a, b):
        calls[0] += 1
        return value(a.index, b.index)

    kw = gen.bounds(rng, n)
    args = dict(kw, radius=radius, seed=gen.seed(rng))
    args['distance' if as_distance else 'similarity'] = function

    if as_distance:
        ctx.count('distance_cases')

    exact = all_neighbors or (rng.random() < 0.4 and n <= 30)

    if exact:
        args['k'] = max(1, n - 1) + rng.choice([0, 0, 1, 5])
        ctx.count('exact_k_cases')
    elif rng.random() < 0.7:
        args['k'] = rng.choice([1, 1, 2, 3, 4, 6])
        exact = args['k'] >= n - 1

    if rng.random() < 0.3:
        args['mode'] = 'fuzzy_clusters'
        ctx.count('fuzzy_cases')
    if full:
        if rng.random() < 0.6:
            args['rho'] = rng.choice([0, 0.1, 0.25, 0.5, 1.0])
        if rng.random() < 0.5:
            args['delta'] = rng.choice([0, 0.001, 0.01, 0.5])
    if kw:
        ctx.count('bounded_sizes')
    if n < 3:
        ctx.count('tiny_data')

    witness = {'n': n, 'kind': kind, 'edges': sorted(edges)[:100], 'as_distance': as_distance, 'what': what,
               'options': {k: v for k, v in args.items() if not callable(v)}}
    results = []

    for _ in range(2):
        ok, clusters = ctx.call(what, lambda: materialize(f(gen.iterable(rng, items), **args), n + 1))
        if not ok:
            return
        for c in clusters:
            if any(not isinstance(x, gen.Item) or items[x.index] is not x for x in c):
                ctx.fail('%s yielded something that is not one of the items' % what, witness)
                return
        results.append([[x.index for x in c] for c in clusters])

    ctx.count('reruns')

    if results[0] != results[1]:
        ctx.fail('%s gives another result when run again with the same seed' % what, dict(witness, first=results[0], second=results[1]))

    found = results[0]
    sound(ctx, what, found, edges, kw, witness, 'mode' in args)

    if exact and n >= 2:
        if 'mode' in args:
            problem = oracle.fuzzy_problem(n, edges, found, kw.get('min_size', 2), kw.get('max_size', float('inf')))
            if problem:
                ctx.fail('%s with enough neighbours: %s' % (what, problem), dict(witness, got=found))
        else:
            expected = oracle.expected_components(n, edges, kw.get('min_size', 2), kw.get('max_size', float('inf')), True)
            if sorted(sorted(c) for c in found) != expected:
                ctx.fail('%s with enough neighbours is not exact' % what, dict(witness, got=found, expected=expected))

    ctx.count(what + '_cases')
    ctx.observe((repr(witness), calls[0]), bool(edges))


def descents(ctx):
    for _ in range(3):
        descent(ctx)


def descent_large(ctx):
    descent(ctx, ctx.rng.choice([40, 60, 100]))


def descent_exact(ctx):
    """As many neighbours as there are other items, over many items."""
    descent(ctx, ctx.rng.choice([34, 60, 66, 66, 70, 101]), True)
    ctx.count('many_neighbors')


# --- MinHash ----------------------------------------------------------------------------

def bands_of(h, radius, bands):
    """The banding the documentation describes: the least number of bands with a threshold under the radius."""
    if bands is None:
        bands = next((b for b in range(1, h + 1) if (1.0 / b) ** (b / h) <= radius), h)
    return bands, h // bands


def hashing(ctx):
    from fog.clustering import minhash
    rng = ctx.rng
    n = ctx.near(population(rng, ctx.ints, 16), 16, 0)
    words = ['w%d' % i for i in range(rng.choice([4, 12, 40]))]
    tokens = []

    for _ in range(n):
        r = rng.random()
        if tokens and r < 0.25:
            t = list(rng.choice(tokens))
            rng.shuffle(t)
            t += t[:rng.randint(0, 2)]
        elif tokens and r < 0.6:
            t = list(rng.choice(tokens)) + [rng.choice(words)]
        else:
            t = [rng.choice(words) for _ in range(rng.randint(1, 12))]
        tokens.append(t)

    if n and rng.random() < 0.2:
        # Some without any token
        for i in rng.sample(range(n), rng.randint(1, min(n, 3))):
            tokens[i] = []

    shape = rng.choice(['key', 'key', 'tuple', 'string'])

    if shape == 'string':
        tokens = [[chr(97 + int(w[1:]) % 26) for w in t] for t in tokens]

    sets = [frozenset(t) for t in tokens]

    if shape == 'key':
        items = [gen.Item(i) for i in range(n)]
    else:
        values = [''.join(t) if shape == 'string' else tuple(t) for t in tokens]
        keep = [i for i in range(n) if values[i] not in values[:i]]
        values, sets = [values[i] for i in keep], [sets[i] for i in keep]
        items, n = values, len(values)

    radius = rng.choice([0.25, 0.5, 0.5, 0.75, 0.8, 0.8, 0.9, 1.0, 0.1])

    if n > 1 and rng.random() < 0.3:
        # Exactly the similarity of two items
        a, b = rng.sample(sets, 2)
        if a & b:
            radius = len(a & b) / len(a | b)
            if rng.random() < 0.4:
                # Or hardly over or under it
                radius = min(1.0, radius + rng.choice([-1, 1, 1]) * rng.choice([1e-6, 1e-9, 1e-10, 1e-11]))
                ctx.count('hardly_different_radius')

    args = {'seed': gen.seed(rng)}
    h = rng.choice([1, 2, 8, 16, 24, 64, 256])

    if h != 256 or rng.random() < 0.5:
        args['h'] = h
    if radius != 0.8 or rng.random() < 0.5:
        args['radius'] = radius

    bands = None

    if rng.random() < 0.4:
        bands = rng.choice([1, 2, 3, 4, h, max(1, h // 2)])
        if bands > h:
            bands = h
        args['bands'] = bands
    if n * n * bands_of(h, radius, bands)[0] > 2e5:
        # All the items could share each of many bands
        args['h'] = h = 16
        bands = args['bands'] = 2
    if rng.random() < 0.35:
        args['use_numpy'] = True
        ctx.count('numpy_cases')
    if shape == 'key':
        make = rng.choice([list, tuple, set])
        args['key'] = lambda x: make(tokens[x.index])

    edges = set()
    certain = set()
    count, rows = bands_of(h, radius, bands)

    for i in range(n):
        for j in range(i + 1, n):
            if not sets[i] or not sets[j]:
                # Similar to no other item, but whether two items without tokens are is not settled
                ctx.count('items_without_tokens')
                if not sets[i] and not sets[j]:
                    edges.add((i, j))
                continue
            s = Fraction(len(sets[i] & sets[j]), len(sets[i] | sets[j]))
            if s.numerator / s.denominator >= radius:
                edges.add((i, j))
                if s != 1 and s.numerator / s.denominator == radius:
                    ctx.count('pairs_exactly_at_radius')
                if s == 1:
                    certain.add((i, j))
                    ctx.count('identical_tokens')
                elif (1 - float(s) ** rows) ** count < 1e-15:
                    certain.add((i, j))
                    ctx.count('certain_pairs')
            elif s:
                ctx.count('dissimilar_pairs_sharing_tokens')

    ctx.count('similar_pairs', len(edges))
    witness = {'sets': [sorted(s) for s in sets], 'shape': shape, 'options': {k: v for k, v in args.items() if k != 'key'}}
    results = []

    for _ in range(2):
        ok, clusters = ctx.call('minhash', lambda: materialize(minhash(gen.iterable(rng, items), **args), n + 1))
        if not ok:
            return
        position = {id(x): i for i, x in enumerate(items)} if shape == 'key' else None
        values = None if shape == 'key' else {x: i for i, x in enumerate(items)}
        rows_ = []
        for c in clusters:
            row = [position.get(id(x)) if position is not None else values.get(x) for x in c]
            if None in row:
                ctx.fail('minhash yielded something that is not one of the items', dict(witness, cluster=c))
                return
            rows_.append(row)
        results.append(rows_)

    ctx.count('reruns')

    if results[0] != results[1]:
        ctx.fail('minhash gives another result when run again with the same seed', dict(witness, first=results[0], second=results[1]))

    found = results[0]
    sound(ctx, 'minhash', found, edges, {}, witness)
    home = {i: k for k, c in enumerate(found) for i in c}

    for i, j in certain:
        if home.get(i) is None or home.get(i) != home.get(j):
            ctx.fail('minhash does not group items having the same tokens or all but certain to share a band', dict(witness, pair=(i, j), got=found))
            break

    ctx.count('minhash_cases')
    ctx.observe(repr(witness), bool(edges))


def recall(ctx):
    """Similar pairs are found at least as often as the banding scheme says, over seeds."""
    from fog.clustering import minhash
    rng = ctx.rng
    h, bands = rng.choice([(1, 1), (2, 2), (4, 2), (4, 4), (6, 3), (8, 8), (9, 3), (12, 4), (7, 3), (11, 4), (16, 8), (24, 6), (32, 8), (8, None), (16, None), (32, None), (30, None), (64, None), (100, None)])
    inter, rest = rng.choice([(2, 1), (5, 5), (4, 2), (6, 2), (9, 3), (3, 3), (8, 2), (1, 1), (9, 1)])
    similarity = inter / (inter + rest)
    radius = rng.choice([similarity, similarity, similarity * 0.75])
    count, rows = bands_of(h, radius, bands)
    p = 1 - (1 - similarity ** rows) ** count
    pairs = 40
    rounds = 15
    found = 0
    numpy = rng.random() < 0.3

    for _ in range(rounds):
        items = []
        for k in range(pairs):
            words = ['%x' % rng.getrandbits(40) for _ in range(inter + rest)]
            cut = rng.randint(0, rest)
            a, b = words[:inter] + words[inter:inter + cut], words[:inter] + words[inter + cut:]
            rng.shuffle(a)
            rng.shuffle(b)
            items += [(k, tuple(a)), (k, tuple(b))]
        args = {'h': h, 'radius': radius, 'key': lambda x: x[1], 'seed': rng.randrange(10 ** 9), 'use_numpy': numpy}
        if bands is not None:
            args['bands'] = bands
        ok, clusters = ctx.call('minhash', lambda: materialize(minhash(items, **args), 3 * pairs))
        if not ok:
            return
        for c in clusters:
            if len(c) != 2 or c[0][0] != c[1][0]:
                ctx.fail('minhash: a cluster links dissimilar items', {'cluster': c, 'h': h, 'bands': bands})
                return
        found += len(clusters)

    total = pairs * rounds
    allowed = 7 * (p * (1 - p) / total) ** 0.5 + 0.04

    if found / total < p - allowed:
        ctx.fail('minhash finds similar pairs less often than its bands should', {'h': h, 'bands': bands, 'radius': radius, 'similarity': similarity,
                                                                              'found': found / total, 'expected': p, 'allowed': allowed, 'numpy': numpy})

    ctx.count('recall_measures')
    ctx.count('recall_pairs', total)
    ctx.observe((h, bands, inter, rest, radius, found))


def huge(ctx):
    """Tens of thousands of items, few of them having the tokens of another."""
    from fog.clustering import minhash
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    args = {'h': rng.choice([4, 8]), 'radius': 0.9, 'bands': rng.choice([1, 2]), 'seed': rng.randrange(1000)}
    ok, clusters = ctx.call('minhash', lambda: materialize(minhash(range(n), key=lambda i: ['t%d' % owner.get(i, i)], **args), n + 1))
    if ok:
        colossal.check(ctx, 'minhash', clusters, groups, {'n': n, 'options': args})
    ctx.observe((n, repr(groups), sorted(args.items())), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('descents', descents, 900 * k), ('descent_large', descent_large, 8 * k), ('descent_exact', descent_exact, 5 * k), ('minhash', hashing, 700 * k), ('minhash_large', enlarged(hashing, 320), 12 * k), ('recall', recall, 40 * k), ('huge', huge, k)]
