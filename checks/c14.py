from vf import gen, oracle
from vf.cluster import materialize, indices, population

FILES = ['fog/clustering/key_collision.py', 'fog/clustering/utils.py']
RULE = ('A case is a collection of items with a key or several keys each (falsey, repeated or none included), merged or not, and size bounds. '
        'Non-trivial: at least two items share a truthy key.')
ASSUMPTIONS = ['keys are hashable', 'items are distinct and hashable when groups are merged']
REQUIRED = ['colossal_cases', 'giant_cases', 'alike_items', 'unhashable_items', 'single_key_cases', 'merged_cases', 'unmerged_cases', 'falsey_keys', 'repeated_keys', 'no_keys', 'bounded_sizes', 'repeated_items',
            'groups', 'one_shot_keys', 'large_cases']


def run(ctx, n, keys=None):
    from fog.clustering import key_collision
    rng = ctx.rng
    given = keys
    kind = rng.choice(['single', 'merged', 'unmerged'] if keys is None else ['single'] if all(len(k) == 1 for k in keys) else ['merged', 'merged', 'unmerged'])
    pool = rng.choice([
        ['a', 'b', 'c', '', None], list(range(0, rng.randint(2, 15))), ['k%d' % i for i in range(max(1, n))], [None, 0, False, '', (), 'x', (1, 2), 2.5],
        [frozenset('ab'), frozenset(), 'y'], gen.lookalikes(rng), gen.lookalikes(rng)
    ])

    if given is not None:
        pass
    elif kind == 'single':
        keys = [[rng.choice(pool)] for _ in range(n)]
    else:
        keys = [[rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))] for _ in range(n)]

    kw = gen.bounds(rng, n, floor=1)
    args = dict(kw)
    lo, hi = kw.get('min_size', 2), kw.get('max_size', float('inf'))
    repeated = False

    if kind != 'merged' and rng.random() < 0.3 and n:
        # The same object several times: each occurrence is an item
        items = [gen.Item(i) for i in range(n)]
        data = [rng.choice(items) for _ in range(n)]
        repeated = True
        ctx.count('repeated_items')
    else:
        items = data = gen.items(rng, n, ctx) if kind != 'merged' else [gen.Item(i) for i in range(n)]

    shape = 'list'

    if kind == 'single':
        args['key'] = lambda x: keys[x.index][0]
        if rng.random() < 0.3:
            args['merge'] = rng.choice([True, False])
    else:
        make, shape = rng.choice([(list, 'list'), (tuple, 'tuple'), (iter, 'iter'), (set, 'set'), (lambda x: (y for y in x), 'generator')])
        none = rng.random() < 0.3
        args['keys'] = lambda x: None if none and not keys[x.index] else make(keys[x.index])
        if kind == 'unmerged':
            args['merge'] = False
        elif rng.random() < 0.5:
            args['merge'] = True
        if shape in ('iter', 'generator'):
            ctx.count('one_shot_keys')

    witness = {'kind': kind, 'data': [x.index for x in data], 'keys': keys, 'options': {k: v for k, v in args.items() if not callable(v)}, 'shape': shape}
    ok, clusters = ctx.call('key_collision', lambda: materialize(key_collision(gen.iterable(rng, data), **args), sum(len(keys[x.index]) for x in data) + 2))

    if not ok:
        return

    found = indices(ctx, 'key_collision', clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    groups = {}

    for x in data:
        for k in dict.fromkeys(k for k in keys[x.index] if k):
            groups.setdefault(k, []).append(x.index)

    if kind == 'merged':
        edges = set()
        for g in groups.values():
            for a, b in zip(g, g[1:]):
                edges.add((min(a, b), max(a, b)))
        expected = oracle.expected_components(n, edges, lo, hi, linked_only=True)
        # With a minimum size of 1, whether keyed items alone in their group are reported is not settled
        got = sorted(sorted(c) for c in found if len(c) > 1)
        expected = [c for c in expected if len(c) > 1]
        if any(len(c) < lo for c in found):
            ctx.fail('a group is under the minimum size', dict(witness, got=found))
    else:
        # Order within a group is that of the data
        expected = sorted(g for g in groups.values() if lo <= len(g) <= hi)
        got = sorted(found)

    if got != expected:
        ctx.fail('key_collision does not yield exactly the groups sharing a key', dict(witness, got=found, expected=expected))

    if kw:
        ctx.count('bounded_sizes')
    if any(not k for ks in keys for k in ks):
        ctx.count('falsey_keys')
    if any(len(set(ks)) < len(ks) for ks in keys):
        ctx.count('repeated_keys')
    if any(not ks for ks in keys):
        ctx.count('no_keys')

    ctx.count({'single': 'single_key_cases', 'merged': 'merged_cases', 'unmerged': 'unmerged_cases'}[kind])
    ctx.count('groups', len(found))
    ctx.observe((kind, repr(witness)), any(len(g) > 1 for g in groups.values()))


def small(ctx):
    for _ in range(8):
        run(ctx, population(ctx.rng, ctx.ints, 40))


def strings(ctx):
    """Real keys on real strings."""
    from fog.clustering import key_collision
    from vf.oracle import partition_key
    rng = ctx.rng
    data = gen.strings(rng, rng.randint(2, 20), 'abAB ', rng.randint(1, 4), kinds='idst')
    if rng.random() < 0.5:
        data += [rng.choice(data) for _ in range(3)]
    key = rng.choice([str.lower, lambda s: ''.join(sorted(s)), str.strip, len, lambda s: s[:1]])
    ok, clusters = ctx.call('key_collision', lambda: materialize(key_collision(data, key=key), len(data) + 1))
    if not ok:
        return
    groups = {}
    for s in data:
        if key(s):
            groups.setdefault(key(s), []).append(s)
    want = sorted(g for g in groups.values() if len(g) > 1)
    if sorted(clusters) != want:
        ctx.fail('key_collision does not yield exactly the groups sharing a key', {'data': data, 'got': clusters, 'expected': want})
    ctx.observe((repr(data), repr(want)), bool(want))


def large(ctx):
    run(ctx, ctx.rng.choice([150, 300]))
    ctx.count('large_cases')


def giant(ctx):
    """A key shared by hundreds of items, items of hundreds of keys, or keys linking each item to the next."""
    rng = ctx.rng
    n = rng.choice([520, 1010, 1300])
    shape = rng.choice(['common', 'many', 'chain', 'chain'])
    if shape == 'common':
        n = min(n, 520)
        keys = [['all']] * n if rng.random() < 0.5 else [['all', 'k%d' % (i // 2)] for i in range(n)]
    elif shape == 'many':
        n = 6
        m = rng.choice([130, 260, 520, 1030])
        keys = [['k%d' % j for j in range(i * (m - 1), i * (m - 1) + m)] for i in range(n)]
    else:
        keys = [['k%d' % i, 'k%d' % (i + 1)] for i in range(n)]
        rng.shuffle(keys)
    run(ctx, n, keys)
    ctx.count('giant_cases')


def huge(ctx):
    """Tens of thousands of items, few of them sharing a key."""
    from fog.clustering import key_collision
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    if rng.random() < 0.5:
        args = {'key': lambda i: 'k%d' % owner.get(i, i)}
    else:
        args = {'keys': lambda i: ['u%d' % i, 'k%d' % owner.get(i, i)]}
    ok, clusters = ctx.call('key_collision', lambda: materialize(key_collision(gen.iterable(rng, list(range(n))), **args), n + 1))
    if ok:
        colossal.check(ctx, 'key_collision', clusters, groups, {'n': n, 'with': sorted(args)})
    ctx.observe((n, repr(groups), sorted(args)), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('small', small, 1800 * k), ('strings', strings, 600 * k), ('large', large, 10 * k), ('giant', giant, 5 * k), ('huge', huge, 2 * k)]
