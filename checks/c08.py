from vf import gen, oracle
from vf.cluster import materialize, indices, check_components, check_fuzzy, population

FILES = ['fog/clustering/passjoin.py', 'fog/clustering/utils.py']
RULE = ('A case is a set of distinct strings, many of them a few edits apart, with a threshold, the sort option, a mode and size bounds; the '
        'oracle compares every pair with a reference distance. Non-trivial: at least one pair within the threshold.')
ASSUMPTIONS = ['strings are distinct and the distance given is the Levenshtein distance']
REQUIRED = ['colossal_cases', 'giant_cases', 'long_cases', 'crowd_cases', 'pairs_within', 'pairs_at_threshold', 'short_strings', 'unsorted_cases', 'fuzzy_cases', 'bounded_sizes', 'exhaustive_cases',
            'distance_calls', 'length_differences']


def run(ctx, data, k, label):
    from fog.clustering import passjoin
    rng = ctx.rng
    n = len(data)
    position = {s: i for i, s in enumerate(data)}
    edges = set()
    calls = [0]

    for i in range(n):
        for j in range(i + 1, n):
            if abs(len(data[i]) - len(data[j])) <= k:
                d = oracle.lev(data[i], data[j])
                if d <= k:
                    edges.add((i, j))
                    if d == k:
                        ctx.count('pairs_at_threshold')
                    if len(data[i]) != len(data[j]):
                        ctx.count('length_differences')

    ctx.count('pairs_within', len(edges))

    if any(len(s) <= k for s in data):
        ctx.count('short_strings')

    def distance(a, b):
        calls[0] += 1
        return oracle.lev(a, b)

    kw = gen.bounds(rng, n)
    args = dict(kw)
    r = rng.random()

    if r < 0.4:
        args['sort'] = False
        ctx.count('unsorted_cases')
    elif r < 0.6:
        args['sort'] = True

    if rng.random() < 0.35:
        args['mode'] = 'fuzzy_clusters'
    elif rng.random() < 0.3:
        args['mode'] = 'connected_components'
    if kw:
        ctx.count('bounded_sizes')

    witness = {'data': data, 'k': k, 'options': args}
    ok, clusters = ctx.call('passjoin', lambda: materialize(passjoin(gen.iterable(rng, data), k, distance, **args), n + 1))

    if not ok:
        return

    ctx.count('distance_calls', calls[0])
    found = indices(ctx, 'passjoin', clusters, position.get, n)

    if found is None:
        return

    if args.get('mode') == 'fuzzy_clusters':
        ctx.count('fuzzy_cases')
        check_fuzzy(ctx, 'passjoin', found, n, edges, kw, witness)
    else:
        check_components(ctx, 'passjoin', found, n, edges, kw, witness, linked_only=True)

    ctx.count(label)
    ctx.observe((tuple(data), k, sorted(args.items())), bool(edges))


def threshold(rng):
    return rng.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6])


def mixed(ctx):
    rng = ctx.rng
    for _ in range(3):
        n = population(rng, ctx.ints, 40)
        k = threshold(rng)
        run(ctx, gen.strings(rng, n, gen.alphabet(rng), rng.randint(0, 12), spread=k + 1), k, 'mixed_cases')


def pairs(ctx):
    """Two strings exactly k edits apart: nothing else can link them."""
    rng = ctx.rng
    for _ in range(25):
        k = threshold(rng)
        letters = rng.choice(['ab', 'abc', 'abcdefgh', gen.alphabet(rng)])
        a = gen.string(rng, rng.randint(0, 6 * (k + 1)), letters)
        b = gen.edits(rng, a, rng.choice([k, k, k, k + 1, max(0, k - 1)]), letters, rng.choice(['ids', 'i', 'd', 's', 'is', 'id']))
        if a == b:
            continue
        run(ctx, [a, b], k, 'pair_cases')


def clumps(ctx):
    """Few edits concentrated at one place, or spread one per segment."""
    rng = ctx.rng
    for _ in range(12):
        k = rng.choice([1, 2, 3, 4])
        letters = rng.choice(['ab', 'abcdefghijkl', 'aé\U00010061'])
        l = rng.randint(k + 1, 5 * (k + 1))
        a = gen.string(rng, l, letters)
        if rng.random() < 0.5:
            p = rng.randint(0, l)
            b = a[:p] + gen.string(rng, k, letters) + a[p:]
            if rng.random() < 0.5:
                a, b = b, a
        else:
            b = list(a)
            for m in range(k):
                p = min(l - 1, int((m + rng.random()) * l / k))
                b[p] = rng.choice(letters)
            b = ''.join(b)
        if a != b:
            data = [a, b] + [s for s in gen.strings(rng, rng.randint(0, 3), letters, l) if s not in (a, b)]
            rng.shuffle(data)
            run(ctx, data, k, 'clump_cases')


def exhaustive(ctx):
    """All strings up to some length over two or three letters."""
    from vf.pairs import all_strings
    rng = ctx.rng
    data = all_strings(rng.choice(['ab', 'ab', 'abc']), rng.choice([2, 3, 4]))
    rng.shuffle(data)
    run(ctx, data[:rng.choice([20, 60, 130])], rng.choice([0, 1, 2, 3]), 'exhaustive_cases')


def long(ctx):
    """Long strings and large thresholds."""
    rng = ctx.rng
    for _ in range(3):
        k = rng.choice([1, 2, 3, 7, 10, 15, 20])
        letters = rng.choice(['ab', 'abcdefghijkl', 'aé\U00010061'])
        l = rng.choice([50, 63, 64, 65, 100, 128, 200, 255, 256, 257, 400])
        data = []
        for _ in range(rng.choice([1, 2, 4])):
            a = gen.string(rng, rng.choice([l, l, max(0, l - k), l + k]), letters)
            data.append(a)
            for _ in range(rng.choice([1, 1, 3])):
                data.append(gen.edits(rng, rng.choice([a, data[-1]]), rng.choice([k, k, k + 1, rng.randint(0, k)]), letters, rng.choice(['ids', 'i', 'd', 's', 'id'])))
        data = list(dict.fromkeys(data))
        rng.shuffle(data)
        run(ctx, data, k, 'long_cases')


def crowd(ctx):
    """Many short strings."""
    rng = ctx.rng
    k = rng.choice([0, 1, 1, 2, 3])
    n = rng.choice([257, 400, 520, 700])
    data = list(dict.fromkeys(gen.string(rng, rng.randint(0, rng.choice([6, 9])), rng.choice(['abc', 'abcdefgh'])) for _ in range(n)))
    run(ctx, data, k, 'crowd_cases')


def giant(ctx):
    """A thousand strings, each within the threshold of the next, whose distances are known."""
    from fog.clustering import passjoin
    rng = ctx.rng
    n = rng.choice([1010, 1100, 1300])
    step = rng.choice([1, 1, 2])
    k = rng.choice([step, step, step + 1])
    if rng.random() < 0.5:
        data = ['a' * (i * step) for i in range(n)]
    else:
        data = ['a' * (i * step) + 'b' * ((n - i) * step) for i in range(n)]
    position = {s: i for i, s in enumerate(data)}
    edges = set((i, j) for i in range(n) for j in range(i + 1, min(n, i + 1 + k // step)))
    rng.shuffle(data)
    args = {}
    if rng.random() < 0.4:
        args['mode'] = 'fuzzy_clusters'
    witness = {'n': n, 'k': k, 'step': step, 'options': args, 'data': sorted(data)[:3]}
    ok, clusters = ctx.call('passjoin', lambda: materialize(passjoin(gen.iterable(rng, data), k, lambda a, b: abs(position[a] - position[b]) * step, **args), n + 1))
    if not ok:
        return
    found = indices(ctx, 'passjoin', clusters, position.get, n)
    if found is None:
        return
    if args:
        check_fuzzy(ctx, 'passjoin', found, n, edges, {}, witness)
    else:
        check_components(ctx, 'passjoin', found, n, edges, {}, witness, linked_only=True)
    ctx.count('giant_cases')
    ctx.observe((n, k, step, tuple(data[:5]), sorted(args.items())), True)


def huge(ctx):
    """Tens of thousands of strings, few of them close to another."""
    from fog.clustering import passjoin
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    # Two random strings of that many letters are never close
    data = [''.join(rng.choices('abcdefghijklmnopqrstuvwxyz', k=20)) for i in range(n)]
    for g in groups:
        data[g[1]] = data[g[0]] + 'x'
        if len(g) > 2:
            data[g[2]] = data[g[0]][:4] + 'y' + data[g[0]][4:]
    position = {s: i for i, s in enumerate(data)}
    k = rng.choice([1, 1, 2])
    args = {} if rng.random() < 0.7 else {'sort': False}
    if len(position) < n:
        return
    ok, clusters = ctx.call('passjoin', lambda: materialize(passjoin(data, k, oracle.lev, **args), n + 1))
    if ok:
        colossal.check(ctx, 'passjoin', [[position[s] for s in c] for c in clusters], groups, {'n': n, 'k': k, 'options': args})
    ctx.observe((n, repr(groups), k, sorted(args)), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('mixed', mixed, 700 * k),
        ('pairs', pairs, 700 * k),
        ('clumps', clumps, 500 * k),
        ('exhaustive', exhaustive, 60 * k),
        ('long', long, 120 * k),
        ('crowd', crowd, 6 * k),
        ('giant', giant, 3 * k),
        ('huge', huge, k)
    ]
