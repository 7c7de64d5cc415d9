import math
from fractions import Fraction
from vf.core import enlarged

FILES = ['fog/graph/sparsification.py', 'fog/graph/utils.py']
RULE = ('A case is a weighted graph, a starting threshold, a learning rate and a drifter size, or a graph and a filter of its edges. '
        'Non-trivial: the graph has at least two edges.')
ASSUMPTIONS = ['weights, starting thresholds and learning rates are dyadic, so that thresholds are exact, or weights stay away from thresholds',
               'learning rates are positive; graphs are undirected']
REQUIRED = ['small_rates', 'long_paths', 'enlarged_cases', 'runs', 'stopped_by_drifter', 'stopped_by_weights', 'returned_start', 'several_steps', 'removals', 'edges_removed', 'untouched', 'default_rate', 'default_drifter', 'no_edges',
            'custom_weight', 'component_cases', 'filtered_component_cases', 'single_component', 'negative_start', 'weight_tie', 'self_loops', 'groups_of_default_size']


def sizes_of(nodes, edges):
    """Sizes of components, by union-find."""
    parent = {x: x for x in nodes}

    def find(x):
        while parent[x] != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    for u, v in edges:
        parent[find(u)] = find(v)
    out = {}
    for x in nodes:
        r = find(x)
        out[r] = out.get(r, 0) + 1
    return sorted(out.values(), reverse=True)


def graph(ctx, weight, weights):
    rng = ctx.rng
    import networkx as nx
    g = nx.Graph()
    if rng.random() < 0.12:
        # A chain of groups of about the default drifter size, where this size changes
        n = rng.choice([7, 8, 20, 21, 54, 55, 148, 149, 12, 33, 90])
        m = max(1, int(math.log(n)) + rng.choice([-1, 0, 0, 1]))
        order = list(range(n))
        rng.shuffle(order)
        heavy = [weights() for _ in range(3)]
        for a in range(n - 1):
            g.add_edge(order[a], order[a + 1], **{weight: rng.choice(heavy) if (a + 1) % m and a < 3 * m or a > 3 * m else min(heavy) / 2})
        ctx.count('groups_of_default_size')
        return g
    kind = rng.choice(['random', 'communities', 'path', 'star', 'dense', 'tree'])
    n = ctx.near(rng.choice([1, 2, 3, 5, 9, 16, 30]), 120, 0.08, 1)
    if n > 300 and kind in ('dense', 'communities', 'random'):
        kind = rng.choice(['path', 'path', 'tree', 'star'])
    if n > 1000:
        ctx.count('long_paths', kind == 'path')
    nodes = [rng.choice([lambda i: i, lambda i: 'n%d' % i, lambda i: ('t', i)])(i) for i in range(n)]
    nodes = list(dict.fromkeys(nodes))
    g.add_nodes_from(nodes)
    n = len(nodes)
    edges = set()
    if kind == 'random':
        for _ in range(rng.randint(0, 3 * n)):
            if n > 1:
                edges.add(tuple(rng.sample(range(n), 2)))
    elif kind == 'communities':
        k = rng.randint(1, 4)
        for i in range(n):
            for j in range(i):
                if i % k == j % k and rng.random() < 0.6:
                    edges.add((i, j))
        for _ in range(k):
            if n > 1:
                edges.add(tuple(rng.sample(range(n), 2)))
    elif kind == 'path':
        edges = {(i, i + 1) for i in range(n - 1)}
    elif kind == 'star':
        edges = {(0, i) for i in range(1, n)}
    elif kind == 'tree':
        edges = {(rng.randrange(i), i) for i in range(1, n)}
    else:
        edges = {(i, j) for i in range(n) for j in range(i)}
    if rng.random() < 0.25:
        edges |= {(i, i) for i in rng.sample(range(n), rng.randint(1, min(n, 3)))}
        ctx.count('self_loops')
    edges = sorted(edges)
    rng.shuffle(edges)
    for i, j in edges:
        g.add_edge(nodes[i], nodes[j])
        g[nodes[i]][nodes[j]][weight] = weights()
        if rng.random() < 0.2:
            g[nodes[i]][nodes[j]]['other'] = 'x'
    return g


def snapshot(g):
    return ({x: dict(d) for x, d in g.nodes(data=True)}, {frozenset((u, v)): dict(d) for u, v, d in g.edges(data=True)})


def floatsam(ctx):
    from fog.graph import floatsam_sparsification
    rng = ctx.rng

    for _ in range(4):
        weight = rng.choice(['weight', 'weight', 'weight', 'w'])
        exact = rng.random() < 0.75
        kw = {}
        if exact:
            rate = rng.choice([0.5, 0.25, 0.125, 1, 2, 0.0625] + ([1 / 64, 1 / 512, 1 / 2048] if not ctx.enlarge else [1 / 64]))
            kw['learning_rate'] = rate
            top = rng.choice([2, 6, 16]) if rate > 0.05 else 1
            tiny = rng.choice([0, 2.0 ** -20, 2.0 ** -30])
            if rate < 0.01:
                ctx.count('small_rates')
            g = graph(ctx, weight, lambda: rng.choice([rng.randint(0, top * 4) / 4, rng.randint(0, top), rate * rng.randint(0, 8), max(0, rate * rng.randint(0, 8) + rng.choice([-1, 1]) * tiny)]))
        else:
            # Off the grid of thresholds
            rate = 0.05
            if rng.random() < 0.5:
                kw['learning_rate'] = 0.05
            else:
                ctx.count('default_rate')
            g = graph(ctx, weight, lambda: rng.randint(0, 39) * 0.05 + rng.uniform(0.01, 0.04))

        start = 0.0
        if rng.random() < 0.5:
            start = rng.choice([0.0, 0.5, 1.0, 2.0, 3, 100, -1.0]) if exact else rng.choice([0.0, 0.5, 1.0, 2.0])
            kw['starting_treshold'] = start
            if start < 0:
                ctx.count('negative_start')
        n = len(g)
        if rng.random() < 0.7:
            drifter = rng.choice([0, 1, 2, 2, 3, 4, 6, 10, n, n + 1])
            kw['max_drifter_size'] = drifter
        else:
            drifter = int(math.log(n)) if n else 0
            ctx.count('default_drifter')
        remove = rng.random() < 0.5
        if remove:
            kw['remove_edges'] = True
        elif rng.random() < 0.3:
            kw['remove_edges'] = False
        if weight != 'weight':
            kw['weight'] = weight
            ctx.count('custom_weight')

        edges = [(u, v, d[weight]) for u, v, d in g.edges(data=True)]
        before = snapshot(g)
        witness = {'nodes': list(g.nodes), 'edges': edges, 'options': kw}

        # What should be returned
        if not edges:
            want = start
            ctx.count('no_edges')
        else:
            heaviest = max(w for _, _, w in edges)
            t = start
            steps = 0
            while True:
                want = t
                t = t + rate
                s = sizes_of(g.nodes, [(u, v) for u, v, w in edges if w >= t])
                if any(w == t for _, _, w in edges):
                    ctx.count('weight_tie')
                if len(s) > 1 and s[1] >= drifter:
                    ctx.count('stopped_by_drifter')
                    break
                if t > heaviest:
                    ctx.count('stopped_by_weights')
                    break
                steps += 1
            if steps == 0:
                ctx.count('returned_start')
            if steps > 2:
                ctx.count('several_steps')

        ok, got = ctx.call('floatsam_sparsification', floatsam_sparsification, g, **kw)
        if not ok:
            continue
        if exact and got != want or not exact and not math.isclose(got, want, rel_tol=1e-9, abs_tol=1e-9):
            ctx.fail('the threshold is not the last one before a large component drifts away', dict(witness, got=got, expected=want))
        after = snapshot(g)
        if not remove:
            if after != before:
                ctx.fail('the graph was changed without removal being asked', dict(witness, after=after))
            ctx.count('untouched')
        elif isinstance(got, (int, float)):
            kept = {e: d for e, d in before[1].items() if not d[weight] < got}
            if after[0] != before[0] or after[1] != kept:
                ctx.fail('the edges removed are not exactly those lighter than the threshold', dict(witness, threshold=got, left=sorted(map(repr, after[1].items()))))
            ctx.count('removals')
            ctx.count('edges_removed', len(before[1]) - len(kept))
        ctx.count('runs')
        ctx.observe(repr((sorted(map(repr, edges)), sorted(kw.items()))), len(edges) > 1)


def components(ctx):
    from fog.graph.utils import component_sizes, second_largest_component_size
    rng = ctx.rng

    for _ in range(6):
        g = graph(ctx, 'weight', lambda: rng.randint(0, 5))
        t = rng.choice([None, 0, 1, 3, 5, 6])
        edges = [(u, v) for u, v, w in g.edges(data='weight') if t is None or w >= t]
        args = () if t is None else (lambda u, v, attr: attr['weight'] >= t,)
        want = sizes_of(g.nodes, edges)
        witness = {'nodes': list(g.nodes), 'edges': list(g.edges(data='weight')), 'filter': t, 'expected': want}
        ok, got = ctx.call('component_sizes', lambda: sorted(component_sizes(g, *args), reverse=True))
        if ok and got != want:
            ctx.fail('the component sizes are wrong', dict(witness, got=got))
        ok, got = ctx.call('second_largest_component_size', second_largest_component_size, g, *args)
        if ok and got != (want[1] if len(want) > 1 else None):
            ctx.fail('the size of the second largest component is wrong', dict(witness, got=got))
        if len(want) == 1:
            ctx.count('single_component')
        ctx.count('component_cases')
        if t is not None:
            ctx.count('filtered_component_cases')
        ctx.observe(repr((sorted(map(repr, g.edges(data='weight'))), t)), len(edges) > 1)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('floatsam', floatsam, 1200 * k), ('components', components, 600 * k),
            ('floatsam_large', enlarged(floatsam, 260), 8 * k), ('components_large', enlarged(components, 600), 8 * k),
            ('floatsam_giant', enlarged(floatsam, 1300), 3 * k), ('components_giant', enlarged(components, 3100), 4 * k)]
