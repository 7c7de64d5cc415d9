import math
from collections import Counter, OrderedDict
from fractions import Fraction

from vf import gen
from vf.core import enlarged

FILES = ['fog/metrics/cosine.py', 'fog/metrics/jaccard.py', 'fog/metrics/dice.py', 'fog/metrics/overlap.py', 'fog/metrics/utils.py']
RULE = ('A case is a pair of sequences, sets or weighted mappings given as various types, compared with exact rational computation in both '
        'orders. Non-trivial: both are non-empty.')
ASSUMPTIONS = ['weights of the weighted Jaccard similarity are not negative', 'results within 1e-9 of the exact value are equal to it']
REQUIRED = ['large_universes', 'enlarged_cases', 'null_weights', 'negative_weights', 'falsy_values', 'set_cases', 'weighted_cases', 'vector_cases', 'empty_arguments', 'equal_arguments', 'disjoint_arguments', 'nested_arguments', 'repeated_elements',
            'first_larger', 'second_larger', 'same_object', 'dense_comparisons']

TOLERANCE = 1e-9


def expected(name, a, b):
    A, B = set(a), set(b)
    inter = len(A & B)

    if name == 'dice_coefficient':
        if not A and not B:
            return 1.0
        return 2 * inter / (len(A) + len(B))

    if not A or not B:
        return 0.0
    if name == 'jaccard_similarity':
        return inter / len(A | B)
    if name == 'overlap_coefficient':
        return inter / min(len(A), len(B))

    return inter / math.sqrt(len(A) * len(B))


def elements(ctx):
    rng = ctx.rng
    pool = rng.choice([list('abc'), list('abcdefgh'), list(range(30)), list(range(rng.choice([30, 80, 400]))), [1, 'a', (1, 2), None, 2.5, frozenset('x'), True, ''], list('éa\U00010061z'), gen.lookalikes(rng)])
    if ctx.enlarge and rng.random() < 0.6:
        pool = rng.choice([list, lambda x: [str(y) for y in x]])(range(ctx.enlarge * rng.choice([1, 3])))
        if rng.random() < 0.5:
            # Different elements of the same hash
            pool += [-1, -2, 2 ** 61 - 1, 2 ** 61, 2 ** 61 + 1, 2 ** 62, -2 ** 61, 1 - 2 ** 61]
            pool += [x + 2 ** 61 - 1 for x in pool if isinstance(x, int)][:len(pool) // 2]
        ctx.count('large_universes')
    n = ctx.near(rng.choice([0, 1, 2, 3, 5, 8, 20, 20, 70]), 300)
    return pool, [rng.choice(pool) for _ in range(n)]


def couple(ctx):
    rng = ctx.rng
    pool, a = elements(ctx)
    r = rng.random()

    if r < 0.15:
        b = a[:]
        rng.shuffle(b)
        b += [rng.choice(a) for _ in range(rng.randint(0, 3))] if a else []
    elif r < 0.3 and a:
        b = rng.sample(a, rng.choice([rng.randint(0, len(a)), min(len(a), rng.randint(1, 3))]))
    elif r < 0.4:
        half = len(pool) // 2
        first = set(pool[:half])
        a = [x for x in a if x in first]
        b = [rng.choice(pool[half:]) for _ in range(rng.randint(0, 6))]
    else:
        b = [rng.choice(pool) for _ in range(ctx.near(rng.choice([0, 1, 2, 3, 5, 8, 20, 90]), 300))]

    if rng.random() < 0.5:
        a, b = b, a

    return a, b


def shape(rng, x):
    kind = rng.choice(['list', 'tuple', 'set', 'frozenset', 'dict', 'iter', 'str', 'counter', 'keys', 'generator'])

    if kind == 'str' and all(isinstance(y, str) and len(y) == 1 for y in x):
        return ''.join(x)
    if kind == 'dict':
        # (whatever the values, the set is that of the keys)
        return {y: rng.choice([1, 0, None, 2.5, False, '']) for y in x}
    if kind == 'keys':
        return dict.fromkeys(x).keys()
    if kind == 'counter':
        c = Counter(x)
        for y in list(c):
            if rng.random() < 0.1:
                c[y] = rng.choice([0, -1])
        return c
    if kind == 'iter':
        return iter(x)
    if kind == 'generator':
        return (y for y in x)

    return {'tuple': tuple, 'set': set, 'frozenset': frozenset}.get(kind, list)(x)


def close(x, y):
    return isinstance(x, (int, float)) and abs(x - y) <= TOLERANCE


def note(ctx, a, b):
    A, B = set(a), set(b)

    if not A or not B:
        ctx.count('empty_arguments')
    elif A == B:
        ctx.count('equal_arguments')
    elif not A & B:
        ctx.count('disjoint_arguments')
    elif A <= B or B <= A:
        ctx.count('nested_arguments')
    if len(A) > len(B):
        ctx.count('first_larger')
    elif len(A) < len(B):
        ctx.count('second_larger')


def sets(ctx):
    import fog.metrics as m
    rng = ctx.rng

    for _ in range(10):
        a, b = couple(ctx)
        note(ctx, a, b)
        if len(set(a)) < len(a):
            ctx.count('repeated_elements')

        for name in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity'):
            f = getattr(m, name)
            want = expected(name, a, b)
            sa, sb = shape(rng, a), shape(rng, b)
            for s in (sa, sb):
                if isinstance(s, dict) and not all(s.values()):
                    ctx.count('falsy_values')
            ok, x = ctx.call(name, f, sa, sb)
            ok2, y = ctx.call(name, f, shape(rng, b), shape(rng, a))
            if not ok or not ok2:
                return
            if not a and not b:
                # Undefined: the code answers 0 or 1 according to the metric and to identity
                if x not in (0, 1) or y not in (0, 1):
                    ctx.fail('%s of two empty arguments is neither 0 nor 1' % name, {'got': x, 'swapped': y})
            elif not close(x, want) or not close(y, want):
                ctx.fail('%s does not match its definition' % name, {'a': a, 'b': b, 'got': x, 'swapped': y, 'expected': want})
            if a and set(a) == set(b) and not close(x, 1):
                ctx.fail('%s of equal arguments is not 1' % name, {'a': a, 'got': x})
            if not -TOLERANCE <= x <= 1 + TOLERANCE:
                ctx.fail('%s is not between 0 and 1' % name, {'a': a, 'b': b, 'got': x})

        A, B = set(a), set(b)
        s = rng.choice([set, frozenset])
        ok, x = ctx.call('sparse_binary_cosine_similarity', m.sparse_binary_cosine_similarity, s(A), s(B))
        if ok and (a or b) and not close(x, expected('binary_cosine_similarity', a, b)):
            ctx.fail('sparse_binary_cosine_similarity does not match its definition', {'a': a, 'b': b, 'got': x})

        if a:
            one = rng.choice([list, set, tuple])(a)
            for name in ('jaccard_similarity', 'dice_coefficient', 'overlap_coefficient', 'binary_cosine_similarity', 'cosine_similarity'):
                ok, x = ctx.call(name, getattr(m, name), one, one)
                if ok and not close(x, 1):
                    ctx.fail('%s of an object and itself is not 1' % name, {'a': one, 'got': x})
            ctx.count('same_object')

        ctx.count('set_cases')
        ctx.observe((repr(a), repr(b)), bool(a) and bool(b))


def weights(rng, x):
    kind = rng.choice(['int', 'int', 'dyadic', 'float', 'large'])
    r = {}

    for k in x:
        r[k] = {'int': lambda: rng.randint(1, 9), 'dyadic': lambda: rng.randint(1, 64) / 16, 'float': lambda: rng.random() + 0.001,
                'large': lambda: rng.choice([1, 10 ** 6, 3.5])}[kind]()

    # Null weights are those of absent keys, but for sparse_normalize's keys
    if r and rng.random() < 0.25:
        for k in rng.sample(list(r), rng.randint(1, len(r))):
            r[k] = rng.choice([0, 0.0])
        if not any(r.values()):
            r[rng.choice(list(r))] = 1

    return r


def mapping(rng, w):
    kind = rng.choice([dict, Counter, OrderedDict])
    keys = list(w)
    rng.shuffle(keys)
    result = kind()
    for k in keys:
        result[k] = w[k]
    return result


def weighted(ctx):
    import fog.metrics as m
    rng = ctx.rng

    for _ in range(10):
        a, b = couple(ctx)
        A, B = weights(rng, dict.fromkeys(a)), weights(rng, dict.fromkeys(b))
        if rng.random() < 0.15:
            B = dict(A)
        note(ctx, A, B)
        if not all(A.values()) or not all(B.values()):
            ctx.count('null_weights')
        fa = {k: Fraction(v) for k, v in A.items()}
        fb = {k: Fraction(v) for k, v in B.items()}
        keys = set(A) | set(B)
        witness = {'a': A, 'b': B}

        # Weighted Jaccard
        low = sum(min(fa.get(k, 0), fb.get(k, 0)) for k in keys)
        high = sum(max(fa.get(k, 0), fb.get(k, 0)) for k in keys)
        want = float(Fraction(low) / Fraction(high)) if A and B else 0.0
        ok, x = ctx.call('weighted_jaccard_similarity', m.weighted_jaccard_similarity, mapping(rng, A), mapping(rng, B))
        ok2, y = ctx.call('weighted_jaccard_similarity', m.weighted_jaccard_similarity, mapping(rng, B), mapping(rng, A))
        if ok and ok2 and (not close(x, want) or not close(y, want)):
            ctx.fail('weighted_jaccard_similarity does not match its definition', dict(witness, got=x, swapped=y, expected=want))

        # Cosine
        if rng.random() < 0.3:
            # Components of vectors may be negative
            for w in (A, B):
                for k in w:
                    if rng.random() < 0.4:
                        w[k] = -w[k]
            if rng.random() < 0.3:
                B = {k: v * rng.choice([-1, 1]) for k, v in A.items()}
            fa = {k: Fraction(v) for k, v in A.items()}
            fb = {k: Fraction(v) for k, v in B.items()}
            witness = {'a': A, 'b': B}
            ctx.count('negative_weights')
        dot = sum(fa[k] * fb[k] for k in A if k in B)
        na = math.sqrt(sum(v * v for v in fa.values()))
        nb = math.sqrt(sum(v * v for v in fb.values()))
        want = float(dot) / (na * nb) if A and B else 0.0

        for name in ('sparse_cosine_similarity', 'cosine_similarity'):
            ok, x = ctx.call(name, getattr(m, name), mapping(rng, A), mapping(rng, B))
            ok2, y = ctx.call(name, getattr(m, name), mapping(rng, B), mapping(rng, A))
            if ok and ok2 and (not close(x, want) or not close(y, want) or not -1 - TOLERANCE <= x <= 1 + TOLERANCE):
                ctx.fail('%s does not match its definition' % name, dict(witness, got=x, swapped=y, expected=want))

        # Sparse against dense
        scale = max(1.0, float(sum(abs(fa[k] * fb[k]) for k in A if k in B)))
        for x, y in ((A, B), (B, A)):
            ok, p = ctx.call('sparse_dot_product', m.sparse_dot_product, mapping(rng, x), mapping(rng, y))
            if ok and abs(p - float(dot)) > TOLERANCE * scale:
                ctx.fail('sparse_dot_product is not the dot product', dict(witness, got=p, expected=float(dot)))
        ok, p = ctx.call('sparse_norm', m.sparse_norm, mapping(rng, A))
        if ok and abs(p - na) > TOLERANCE * max(1, na):
            ctx.fail('sparse_norm is not the norm', dict(witness, got=p, expected=na))
        ok, p = ctx.call('sparse_normalize', m.sparse_normalize, mapping(rng, A))
        if ok and (set(p) != set(A) or any(abs(p[k] - A[k] / na) > TOLERANCE for k in A)):
            ctx.fail('sparse_normalize is not the normalized vector', dict(witness, got=p))
        one = mapping(rng, A)
        if A:
            for name in ('weighted_jaccard_similarity', 'sparse_cosine_similarity'):
                # (an object and itself)
                if not close(getattr(m, name)(one, one), 1):
                    ctx.fail('%s of an object and itself is not 1' % name, witness)
        ctx.count('dense_comparisons')
        ctx.count('weighted_cases')
        ctx.observe((repr(A), repr(B)), bool(A) and bool(B))


def vectors(ctx):
    """Cosine of sequences: vectors of frequencies."""
    import fog.metrics as m
    rng = ctx.rng

    for _ in range(10):
        a, b = couple(ctx)
        ca, cb = Counter(a), Counter(b)
        dot = sum(ca[k] * cb[k] for k in ca)
        want = dot / math.sqrt(sum(v * v for v in ca.values()) * sum(v * v for v in cb.values())) if a and b else 0.0
        kinds = [list, tuple, iter, Counter]
        if all(isinstance(y, str) and len(y) == 1 for y in a + b):
            kinds.append(''.join)
        ok, x = ctx.call('cosine_similarity', m.cosine_similarity, rng.choice(kinds)(a), rng.choice(kinds)(b))
        ok2, y = ctx.call('cosine_similarity', m.cosine_similarity, rng.choice(kinds)(b), rng.choice(kinds)(a))
        if ok and ok2 and (a or b) and (not close(x, want) or not close(y, want)):
            ctx.fail('cosine_similarity does not match its definition', {'a': a, 'b': b, 'got': x, 'swapped': y, 'expected': want})
        ctx.count('vector_cases')
        ctx.observe((repr(a), repr(b)), bool(a) and bool(b))


def workloads(tier):
    k = 4 if tier == 'quick' else 60
    return [('sets', sets, 1000 * k), ('weighted', weighted, 1000 * k), ('vectors', vectors, 600 * k),
            ('sets_large', enlarged(sets, 2100), 10 * k), ('weighted_large', enlarged(weighted, 2100), 10 * k), ('vectors_large', enlarged(vectors, 2100), 6 * k)]
