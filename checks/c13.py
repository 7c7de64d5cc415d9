from vf import gen
from vf.cluster import relation_functions, materialize, indices, check_components, check_fuzzy, population, Log

FILES = ['fog/clustering/blocking.py', 'fog/clustering/utils.py']
RULE = ('A case is a set of distinct items, blocks for each of them (one, or any number, repeated or none), a similarity relation, a mode and '
        'size bounds; each comparison made is checked to be of two items sharing a block. Non-trivial: a similar pair shares a block.')
ASSUMPTIONS = ['similarity functions are symmetric and deterministic', 'items are distinct and hashable']
REQUIRED = ['colossal_cases', 'giant_cases', 'many_blocks_cases', 'single_block_cases', 'several_blocks_cases', 'fuzzy_cases', 'bounded_sizes', 'comparisons', 'similar_pairs_not_sharing_a_block',
            'pairs_sharing_several_blocks', 'repeated_blocks', 'one_shot_blocks', 'large_cases']


def run(ctx, n, edges=None, labels=None):
    from fog.clustering import blocking
    rng = ctx.rng
    given = labels
    if edges is None:
        edges = gen.relation(rng, n)
    items = [gen.Item(i) for i in range(n)]
    log = Log()
    funcs, shape = relation_functions(rng, edges, lambda x: x.index, log)
    single = rng.random() < 0.45 if labels is None else all(len(l) == 1 for l in labels)
    pool = rng.choice([
        ['a', 'b', 'c', ''], list(range(rng.randint(1, 12))), [None, 0, False, '', 'x', (1, 2)], [frozenset('ab'), frozenset('c'), 1.5], gen.lookalikes(rng), gen.lookalikes(rng)
    ])

    if given is not None:
        pass
    elif single:
        labels = [[rng.choice(pool)] for _ in range(n)]
    else:
        labels = [[rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))] for _ in range(n)]

    sharing = {}

    members = {}

    for i in range(n):
        for label in set(labels[i]):
            members.setdefault(label, []).append(i)

    for block in members.values():
        for k, i in enumerate(block):
            for j in block[k + 1:]:
                sharing[(i, j)] = sharing.get((i, j), 0) + 1

    linked = set(p for p in edges if p in sharing)
    kw = gen.bounds(rng, n)
    args = dict(funcs, **kw)

    if single:
        args['block'] = lambda x: labels[x.index][0]
        ctx.count('single_block_cases')
    else:
        make = rng.choice([list, tuple, iter, set, lambda x: (y for y in x)])
        args['blocks'] = lambda x: make(labels[x.index])
        ctx.count('several_blocks_cases')
        if make not in (list, tuple, set):
            ctx.count('one_shot_blocks')
        if any(len(set(l)) < len(l) for l in labels):
            ctx.count('repeated_blocks')

    if rng.random() < 0.4:
        args['mode'] = 'fuzzy_clusters'
        ctx.count('fuzzy_cases')
    if kw:
        ctx.count('bounded_sizes')
    if linked != edges:
        ctx.count('similar_pairs_not_sharing_a_block')
    if any(v > 1 for p, v in sharing.items() if p in edges):
        ctx.count('pairs_sharing_several_blocks')

    witness = {'n': n, 'edges': sorted(edges)[:150], 'labels': labels[:80], 'single': single, 'shape': shape, 'options': kw, 'mode': args.get('mode')}
    ok, clusters = ctx.call('blocking', lambda: materialize(blocking(gen.iterable(rng, items), **args), n + 1))

    if not ok:
        return

    found = indices(ctx, 'blocking', clusters, lambda x: x.index if x is items[x.index] else None, n)

    if found is None:
        return

    strangers = [p for p in log.pairs if p not in sharing]

    if strangers:
        ctx.fail('blocking compared items sharing no block', dict(witness, pairs=strangers[:5]))

    ctx.count('comparisons', log.calls)

    if 'mode' in args:
        check_fuzzy(ctx, 'blocking', found, n, linked, kw, witness)
    else:
        check_components(ctx, 'blocking', found, n, linked, kw, witness, linked_only=True)

    ctx.observe((n, tuple(sorted(edges)), repr(labels), shape, sorted(kw.items()), args.get('mode')), bool(linked))


def small(ctx):
    for _ in range(5):
        run(ctx, population(ctx.rng, ctx.ints, 40))


def large(ctx):
    run(ctx, ctx.rng.choice([101, 200, 300]))
    ctx.count('large_cases')


def giant(ctx):
    """A block of hundreds of items, or blocks linking each item to the next."""
    rng = ctx.rng
    if rng.random() < 0.5:
        n = rng.choice([300, 520, 700])
        labels = [['all']] * n if rng.random() < 0.5 else [['all', i % 7] for i in range(n)]
        edges = gen.giant_relation(rng, n)
    else:
        n = rng.choice([1010, 1100])
        labels = [[i, i + 1] for i in range(n)]
        edges = set((i, i + 1) for i in range(n - 1)) | gen.giant_relation(rng, n)
    run(ctx, n, edges, labels)
    ctx.count('giant_cases')


def many_blocks(ctx):
    """Thousands of blocks, most of one item, a few shared by items far apart."""
    rng = ctx.rng
    n = rng.choice([1500, 2600, 4500, 5500, 9000])
    labels = [[i] for i in range(n)]
    edges = set()
    for _ in range(rng.randint(3, 40)):
        i, j = sorted(rng.sample(range(n), 2) if rng.random() < 0.6 else rng.sample(range(n - 50, n), 2))
        labels[j] = list(labels[i])
        edges.add((i, j))
    if rng.random() < 0.4:
        labels = [l + ['x%d' % (i // 2)] for i, l in enumerate(labels)]
        edges |= set((i, i + 1) for i in range(0, n - 1, 2) if rng.random() < 0.1)
    run(ctx, n, edges, labels)
    ctx.count('many_blocks_cases')


def huge(ctx):
    """Tens of thousands of items, few of them sharing a block."""
    from fog.clustering import blocking
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    if rng.random() < 0.5:
        args = {'block': lambda i: 'k%d' % owner.get(i, i)}
    else:
        args = {'blocks': lambda i: ['u%d' % (i + n), 'k%d' % owner.get(i, i)]}
    ok, clusters = ctx.call('blocking', lambda: materialize(blocking(list(range(n)), similarity=lambda a, b: True, **args), n + 1))
    if ok:
        colossal.check(ctx, 'blocking', clusters, groups, {'n': n, 'with': sorted(args)})
    ctx.observe((n, repr(groups), sorted(args)), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('small', small, 2000 * k), ('large', large, 16 * k), ('giant', giant, 5 * k), ('many_blocks', many_blocks, 6 * k), ('huge', huge, 2 * k)]
