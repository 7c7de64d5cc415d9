import math
"""
Workload and oracle pieces shared by the clustering checks.
"""
from fractions import Fraction

from vf import gen, oracle


class Log(object):
    """What a callback handed to the code under test was called with."""

    def __init__(self):
        self.calls = 0
        self.pairs = set()
        self.strangers = 0


def relation_functions(rng, edges, index_of, log=None, radius_choices=None):
    """
    Keyword arguments (similarity or distance, radius or not) deciding the given
    relation over the things that index_of maps to an index.
    """
    shape = rng.choice(['bool', 'truthy', 'similarity', 'similarity', 'distance', 'distance', 'zero_distance', 'both'])
    salt = rng.random()
    radius = rng.choice(radius_choices or [0.5, 0.25, 0.75, 1, 2, 3, 1.0, 10, 0, 0.0, Fraction(1, 3)])
    if radius_choices is None and shape == 'similarity' and rng.random() < 0.1:
        radius = rng.choice([-1, -0.5, -2.5])

    # Values right under and over the radius
    if isinstance(radius, Fraction):
        under, over = radius - Fraction(1, 10 ** 15), radius + Fraction(1, 10 ** 15)
    else:
        tiny = rng.choice([0, 0, 1e-12, 1e-9, 1e-6])
        under, over = min(math.nextafter(radius, -math.inf), radius - tiny), max(math.nextafter(radius, math.inf), radius + tiny)

    def look(a, b):
        i, j = index_of(a), index_of(b)
        if log is not None:
            log.calls += 1
            log.pairs.add((i, j) if i < j else (j, i))
        return (i, j) if i < j else (j, i)

    def pick(pair, values):
        return values[hash((pair, salt)) % len(values)]

    if shape == 'bool':
        return {'similarity': lambda a, b: look(a, b) in edges}, shape

    if shape == 'truthy':
        def similarity(a, b):
            p = look(a, b)
            return pick(p, [1, 2.5, 'yes']) if p in edges else pick(p, [0, None, '', 0.0])
        return {'similarity': similarity}, shape

    if shape == 'similarity':
        def similarity(a, b):
            p = look(a, b)
            return pick(p, [radius, radius, radius + 1, radius + 0.125, over]) if p in edges else pick(p, [min(0, radius - 1), radius - 0.125, radius - 1, min(-1, radius - 2), under])
        return {'similarity': similarity, 'radius': radius}, shape

    if shape == 'zero_distance':
        def distance(a, b):
            p = look(a, b)
            return pick(p, [0, 0.0, False]) if p in edges else pick(p, [1, 0.25, 3, -1])
        return {'distance': distance}, shape

    def distance(a, b):
        p = look(a, b)
        return pick(p, [radius, radius, radius * 0.5, 0, max(0, under)]) if p in edges else pick(p, [radius + 0.125, radius + 1, radius + 100, over])

    return {'distance': distance, 'radius': radius}, 'distance'


def shared_keys(rng, n):
    """
    Several items sharing a key, the relation over keys being reflexive or not:
    returns the key of each item, the relation over the index of keys and the
    relation it gives over the items.
    """
    m = rng.randint(1, max(1, n))
    labels = [rng.randrange(m) for _ in range(n)]
    related = gen.relation(rng, m)
    p = rng.choice([0, 0.5, 1])
    related |= set((i, i) for i in range(m) if rng.random() < p)
    pool = [gen.Key((i, 'key')) for i in range(m)]
    fresh = rng.random() < 0.3
    keys = [gen.Key((k, 'key')) if fresh else pool[k] for k in labels]
    edges = set((i, j) for i in range(n) for j in range(i + 1, n) if tuple(sorted((labels[i], labels[j]))) in related)
    return keys, related, edges


def materialize(generator, limit):
    """Consumes clusters, guarding against endless generators."""
    result = []

    for cluster in generator:
        result.append(list(cluster))
        if len(result) > limit:
            raise RuntimeError('more than %d clusters' % limit)

    return result


def indices(ctx, what, clusters, index_of, n):
    """Clusters of items as clusters of indices; None if something else came out."""
    result = []

    for cluster in clusters:
        row = []
        for item in cluster:
            try:
                i = index_of(item)
            except Exception:
                i = None
            if i is None:
                ctx.fail('%s yielded something that is not one of the items' % what, (cluster, item))
                return None
            row.append(i)
        result.append(row)

    return result


def check_components(ctx, what, found, n, edges, kw, witness, linked_only=False):
    expected = oracle.expected_components(n, edges, kw.get('min_size', 2), kw.get('max_size', float('inf')), linked_only)
    got = sorted(sorted(c) for c in found)

    if got != expected:
        ctx.fail('%s: clusters are not the connected components' % what, dict(witness, got=got, expected=expected))
        return False

    return True


def check_fuzzy(ctx, what, found, n, edges, kw, witness, singletons=False):
    problem = oracle.fuzzy_problem(n, edges, found, kw.get('min_size', 2), kw.get('max_size', float('inf')), singletons=singletons)

    if problem is not None:
        ctx.fail('%s: %s' % (what, problem), dict(witness, got=found))
        return False

    return True


def population(rng, hints, top, big=None):
    """A number of items."""
    r = rng.random()
    h = [x for x in hints if 8 < x <= top]

    if h and r < 0.06:
        return rng.choice(h) + rng.choice([-1, 0, 1])
    if r < 0.1:
        return rng.randint(0, 2)
    if r < 0.8:
        return rng.randint(2, min(top, 14))

    return rng.randint(2, top)
