import math
from collections import Counter
from fractions import Fraction
from vf.core import enlarged

FILES = ['fog/graph/projection.py', 'fog/metrics/utils.py', 'fog/metrics/cosine.py']
RULE = ('A case is a bipartite graph, a part to project, a metric, a threshold, and the four combinations of the topology shortcut and the '
        'bipartition check. Non-trivial: two nodes of the part share a neighbour.')
ASSUMPTIONS = ['weights are not negative: a null similarity gives no edge', 'graphs are undirected and simple',
               'a similarity within 1e-9 of the threshold, when neither is exactly representable, may fall on either side',
               'nodes of a third part, when there are some, have no edge in graphs that must be accepted or are not tried']
REQUIRED = ['hardly_different_threshold', 'giant_hub', 'giant_chain', 'giant_wide', 'enlarged_cases', 'projections', 'edges_checked', 'pairs_sharing', 'dropped_by_threshold', 'exact_tie_kept', 'ratio_tie_kept', 'refused_same_part', 'refused_third_part', 'refused_self_loop',
            'null_weight_nodes', 'uncomparable_nodes', 'isolated_nodes', 'default_weight_edges', 'empty_part'] + [
    'metric_' + m for m in ('None', 'cosine', 'jaccard', 'overlap', 'dice', 'binary_cosine')]

RATIOS = ('jaccard', 'dice', 'overlap')
METRICS = [None, 'cosine', 'jaccard', 'overlap', 'dice', 'binary_cosine']


def sqrt_exact(x):
    """Root of a fraction, if it has one."""
    n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(n, d) if n * n == x.numerator and d * d == x.denominator else None


def similarity(metric, a, b):
    """Neighbour -> weight dictionaries. Returns (float, exact fraction or None)."""
    common = [k for k in a if k in b]
    w = len(common)
    if metric is None:
        return w, Fraction(w)
    if metric == 'cosine':
        dot = sum((Fraction(a[k]) * Fraction(b[k]) for k in common), Fraction(0))
        na = sum((Fraction(v) ** 2 for v in a.values()), Fraction(0))
        nb = sum((Fraction(v) ** 2 for v in b.values()), Fraction(0))
        if dot == 0:
            return 0.0, Fraction(0)
        ra, rb = sqrt_exact(na), sqrt_exact(nb)
        exact = dot / (ra * rb) if ra is not None and rb is not None else None
        return float(dot) / (math.sqrt(float(na)) * math.sqrt(float(nb))), exact
    if w == 0:
        return 0.0, Fraction(0)
    if metric == 'binary_cosine':
        r = sqrt_exact(Fraction(len(a) * len(b)))
        return w / math.sqrt(len(a) * len(b)), (Fraction(w) / r if r is not None else None)
    f = {'jaccard': lambda: Fraction(w, len(a) + len(b) - w),
         'dice': lambda: Fraction(2 * w, len(a) + len(b)),
         'overlap': lambda: Fraction(w, min(len(a), len(b)))}[metric]()
    return float(f), f


def dyadic(x):
    return x is not None and x.denominator & (x.denominator - 1) == 0 and x.denominator < 2 ** 20


class Node(object):
    """Hashable, without an order"""

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return 'Node(%d)' % self.i


def bipartite(rng, ctx):
    import networkx as nx
    part = rng.choice(['bipartite', 'bipartite', 'part', 'type'])
    weight = rng.choice(['weight', 'weight', 'w', 'count'])
    one, two = rng.choice([('people', 'color'), (0, 1), (1, 0), (True, False), ('a', None), (('x',), 'y')])
    n = ctx.near(rng.choice([0, 1, 2, 3, 5, 8, 14]), 40, 0.04)
    m = ctx.near(rng.choice([0, 1, 2, 3, 6, 10, 10, 30]), 140, 0.08)
    kind = rng.choice(['str', 'int', 'mixed', 'object'])
    names = {
        'str': lambda i, side: '%s%d' % (side, i),
        'int': lambda i, side: i if side == 'L' else 1000 + i,
        'mixed': lambda i, side: [(side, i), '%s%d' % (side, i), i * 2 + (side == 'L'), frozenset([i, side])][i % 4],
        'object': lambda i, side: Node(i) if side == 'L' else ('R', i)
    }[kind]
    L = [names(i, 'L') for i in range(n)]
    R = [names(i, 'R') for i in range(m)]
    if len(set(L + R)) != n + m:
        L = ['L%d' % i for i in range(n)]
        R = ['R%d' % i for i in range(m)]
    elif kind in ('mixed', 'object') and n > 1:
        ctx.count('uncomparable_nodes')
    g = nx.Graph()
    nodes = [(x, one) for x in L] + [(x, two) for x in R]
    rng.shuffle(nodes)
    for i, (x, p) in enumerate(nodes):
        attrs = {'label': 'node %d' % i, 'size': i} if rng.random() < 0.7 else {}
        g.add_node(x)
        g.nodes[x][part] = p
        g.nodes[x].update(attrs)
    density = rng.choice([0.1, 0.3, 0.5, 0.9, 1.0])
    weighting = rng.choice(['none', 'ints', 'floats', 'some', 'nulls', 'squares'])
    pairs = [(a, b) for a in L for b in R]
    rng.shuffle(pairs)
    null = set(rng.sample(L, min(len(L), 2))) if weighting == 'nulls' else ()
    for a, b in pairs:
        if rng.random() >= density:
            continue
        if rng.random() < 0.5:
            u, v = a, b
        else:
            u, v = b, a
        if weighting == 'none' or (weighting == 'some' and rng.random() < 0.5):
            g.add_edge(u, v)
            ctx.count('default_weight_edges')
        elif weighting == 'floats':
            g.add_edge(u, v, **{weight: rng.choice([0.1, 0.5, 2.25, rng.random() + 0.01])})
        elif weighting == 'squares':
            g.add_edge(u, v, **{weight: rng.choice([1, 2, 3, 4])})
        elif a in null:
            g.add_edge(u, v, **{weight: 0})
        else:
            g.add_edge(u, v, **{weight: rng.randint(1, 9)})
    if null:
        ctx.count('null_weight_nodes')
    return g, part, weight, one, two, L, R


def project(ctx):
    from fog.graph import monopartite_projection
    rng = ctx.rng
    for _ in range(2):
        g, part, weight, one, two, L, R = bipartite(rng, ctx)
        metric = rng.choice(METRICS)
        target, members = (one, L) if rng.random() < 0.7 else (two, R)
        if rng.random() < 0.04:
            target, members = 'nobody', []
            ctx.count('empty_part')
        vectors = {x: {y: d.get(weight, 1) for y, d in g[x].items()} for x in members}
        if any(not v for v in vectors.values()):
            ctx.count('isolated_nodes')

        sims = {}
        for i, x in enumerate(members):
            for y in members[i + 1:]:
                if any(k in vectors[y] for k in vectors[x]):
                    sims[(x, y)] = similarity(metric, vectors[x], vectors[y])

        r = rng.random()
        if r < 0.25:
            threshold = None
        elif r < 0.6 and sims:
            threshold, exact = rng.choice(list(sims.values()))
            if rng.random() < 0.3 and (metric in RATIOS or dyadic(exact)):
                # Hardly over or under it
                threshold += rng.choice([-1, 1, 1]) * rng.choice([1e-6, 1e-9, 1e-10, 1e-11])
                ctx.count('hardly_different_threshold')
            # (an int for the basic projection)
        elif metric is None:
            threshold = rng.choice([1, 2, 3, 0])
        else:
            threshold = rng.choice([0.0, 0.25, 0.5, 0.75, 1.0, 0.3, 0.1, 1.1])

        kw = {}
        if metric is not None or rng.random() < 0.3:
            kw['metric'] = metric
        if threshold is not None or rng.random() < 0.3:
            kw['threshold'] = threshold
        if part != 'bipartite' or rng.random() < 0.3:
            kw['part'] = part
        if weight != 'weight' or rng.random() < 0.3:
            kw['weight'] = weight
        witness = {'nodes': list(g.nodes(data=True)), 'edges': list(g.edges(data=True)), 'project': target, 'options': kw}

        for use_topology in (True, False):
            for check in (True, False):
                o = dict(kw)
                if not use_topology or rng.random() < 0.5:
                    o['use_topology'] = use_topology
                if not check or rng.random() < 0.5:
                    o['bipartition_check'] = check
                ok, p = ctx.call('monopartite_projection', monopartite_projection, g, target, **o)
                if not ok:
                    return
                w = dict(witness, options=o)
                if set(p.nodes) != set(members):
                    ctx.fail('the projection does not hold exactly the nodes of the part', dict(w, got=list(p.nodes)))
                    return
                for x in members:
                    if dict(p.nodes[x]) != dict(g.nodes[x]):
                        ctx.fail('a projected node lost its attributes', dict(w, node=x, got=dict(p.nodes[x])))
                        return
                edges = {}
                for u, v, d in p.edges(data=True):
                    edges[frozenset((u, v))] = d
                for (x, y), (s, exact) in sims.items():
                    d = edges.pop(frozenset((x, y)), None)
                    if s == 0:
                        expected = False
                    elif threshold is None:
                        expected = True
                    elif dyadic(exact):
                        expected = exact >= Fraction(threshold)
                        if exact == Fraction(threshold):
                            ctx.count('exact_tie_kept')
                    elif metric in RATIOS:
                        # Quotients of integers are correctly rounded
                        expected = s >= threshold
                        if s == threshold:
                            ctx.count('ratio_tie_kept')
                    elif abs(s - threshold) <= 1e-9:
                        expected = None
                    else:
                        expected = s >= threshold
                    if expected is not None and (d is not None) != expected:
                        ctx.fail('an edge %s' % ('is missing' if expected else 'should not be there'), dict(w, pair=(x, y), similarity=s, threshold=threshold))
                        return
                    if d is not None:
                        if weight not in d or not math.isclose(d[weight], s, rel_tol=1e-9):
                            ctx.fail('an edge does not have the similarity as weight', dict(w, pair=(x, y), similarity=s, got=d))
                            return
                        ctx.count('edges_checked')
                    elif expected is False:
                        ctx.count('dropped_by_threshold')
                    ctx.count('pairs_sharing')
                if edges:
                    ctx.fail('nodes without a common neighbour are linked', dict(w, got=[tuple(e) for e in edges]))
                    return
                ctx.count('projections')
                ctx.count('metric_%s' % metric)
        ctx.observe(repr((sorted(map(repr, witness['edges'])), target, sorted(kw.items(), key=repr))), bool(sims))


def giant(ctx):
    """Nodes of hundreds of neighbours, or thousands of nodes."""
    import networkx as nx
    from fog.graph import monopartite_projection
    rng = ctx.rng
    shape = rng.choice(['hub', 'hub', 'chain', 'wide'])
    edges = set()

    if shape == 'hub':
        # A neighbour of everyone, and some others
        n = rng.choice([130, 260, 300, 520, 520])
        edges.update(('L%d' % i, 'hub') for i in range(n))
        edges.update(('L%d' % rng.randrange(n), 'R%d' % rng.randrange(40)) for _ in range(rng.choice([0, n])))
    elif shape == 'chain':
        n = rng.choice([600, 1030, 1300, 2060])
        for i in range(n):
            edges.add(('L%d' % i, 'R%d' % i))
            edges.add(('L%d' % i, 'R%d' % ((i + 1) % n)))
    else:
        # A few nodes of very many neighbours
        n, m = rng.choice([3, 6]), rng.choice([300, 520, 1030, 2060, 4100])
        for i in range(n):
            edges.update(('L%d' % i, 'R%d' % rng.randrange(m)) for _ in range(rng.choice([m // 2, m, 5])))

    edges = sorted(edges)
    rng.shuffle(edges)
    g = nx.Graph()
    for u, v in edges:
        g.add_node(u, bipartite='left')
        g.add_node(v, bipartite='right')
        if rng.random() < 0.5:
            u, v = v, u
        g.add_edge(u, v)
    members = [x for x in g if x[0] == 'L']
    metric = rng.choice(METRICS)
    common = Counter()
    for x in g:
        if x[0] != 'L':
            around = sorted(g[x])
            common.update((u, v) for i, u in enumerate(around) for v in around[i + 1:])
    want = {}
    for (u, v), c in common.items():
        a, b = len(g[u]), len(g[v])
        want[(u, v)] = {None: lambda: c, 'jaccard': lambda: c / (a + b - c), 'dice': lambda: 2 * c / (a + b), 'overlap': lambda: c / min(a, b)}.get(metric, lambda: c / math.sqrt(a * b))()
    threshold = rng.choice([None, None, rng.choice(sorted(set(want.values()))) - 1e-6]) if want else None
    if threshold is not None:
        want = {k: s for k, s in want.items() if s >= threshold}
    o = {'metric': metric, 'threshold': threshold}
    # (comparing every pair of thousands of nodes is slow)
    o['use_topology'] = rng.random() < 0.6 or n > 1100
    if rng.random() < 0.5:
        o['bipartition_check'] = False
    witness = {'shape': shape, 'n': n, 'options': o, 'edges': edges[:50]}
    ok, p = ctx.call('monopartite_projection', monopartite_projection, g, 'left', **o)
    if ok:
        got = {(min(u, v), max(u, v)): d.get('weight') for u, v, d in p.edges(data=True)}
        if set(p.nodes) != set(members):
            ctx.fail('the projection of a large graph does not hold exactly the nodes of the part', witness)
        elif set(got) != set(want):
            ctx.fail('the projection of a large graph does not have exactly the expected edges', dict(witness, missing=sorted(set(want) - set(got))[:5], unexpected=sorted(set(got) - set(want))[:5], edges_count=(len(got), len(want))))
        elif any(not math.isclose(got[k], want[k], rel_tol=1e-9) for k in want):
            ctx.fail('an edge of the projection of a large graph does not have the similarity as weight', witness)
    ctx.count('giant_cases')
    ctx.count('giant_' + shape)
    ctx.observe(repr((shape, edges, sorted(o.items(), key=repr))), bool(want))


def refused(ctx):
    """Graphs that are not bipartite."""
    from fog.graph import monopartite_projection
    rng = ctx.rng
    for _ in range(4):
        g, part, weight, one, two, L, R = bipartite(rng, ctx)
        kind = rng.choice(['same_part', 'third_part', 'self_loop'])
        if kind == 'third_part':
            if g.number_of_edges() == 0 or not L:
                continue
            g.add_node('third')
            g.nodes['third'][part] = 'yet another'
            g.add_edge('third', rng.choice(L + R))
            if len({g.nodes[x][part] for e in g.edges for x in e}) < 3:
                continue
        elif kind == 'same_part':
            side = L if rng.random() < 0.5 else R
            if len(side) < 2:
                continue
            g.add_edge(*rng.sample(side, 2))
        else:
            if not L:
                continue
            x = rng.choice(L + R)
            g.add_edge(x, x)
        o = {'part': part, 'weight': weight, 'metric': rng.choice(METRICS), 'use_topology': rng.random() < 0.5}
        if rng.random() < 0.5:
            o['bipartition_check'] = True
        try:
            monopartite_projection(g, rng.choice([one, two]), **o)
        except TypeError:
            pass
        else:
            ctx.fail('a graph which is not bipartite was projected', {'edges': list(g.edges), 'nodes': list(g.nodes(data=True)), 'options': o, 'kind': kind})
        ctx.count('refused_' + kind)
        ctx.observe(repr((kind, sorted(map(repr, g.edges)), sorted(o.items(), key=repr))))


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('project', project, 1800 * k), ('project_large', enlarged(project, 110), 12 * k), ('refused', refused, 500 * k), ('giant', giant, 8 * k)]
