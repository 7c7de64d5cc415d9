import networkx as nx

from vf import cli, gen

FILES = ['fog/clustering/pairwise.py', 'fog/clustering/utils.py', 'fog/clustering/ppjoin.py', 'fog/clustering/intersection_index.py', 'fog/clustering/blocking.py',
         'fog/clustering/sorted_neighborhood.py', 'fog/tokenizers/words.py', 'fog/graph/projection.py', 'fog/lsh/simhash.py', 'fog/evaluation/best_matching.py', 'fog/utils.py', 'fog/cli']
RULE = ('A case is a request that only differs from a valid one by an option that cannot be honoured: the invalid one must raise, and the valid one must not. Non-trivial: the data given would have made '
        'results.')
ASSUMPTIONS = ['an error is a TypeError, a ValueError, a KeyError, an AssertionError or a StatisticsError: anything else is an accident rather than a refusal',
               'an error may come with the call or with the first result requested', 'the interpreter runs without -O, which drops assertions']
REQUIRED = ['large_not_bipartite', 'large_evaluations_refused', 'unknown_modes', 'unknown_metrics', 'unknown_orderings', 'no_function', 'token_types', 'contradictions', 'lengths', 'projection_metrics', 'not_bipartite', 'signature_sizes', 'evaluations_refused',
            'empty_data', 'valid_accepted', 'command_lines', 'command_lines_accepted', 'means']

REFUSALS = (TypeError, ValueError, KeyError, AssertionError)
BAD = ['', 'x', 'unknown', 'dice', 'cosine', 'overlap', 'jaccard', 'freq', 'binary_cosine', 'word', 'Jaccard', 'JACCARD', 'fuzzy', 'component', 'cosine_similarity', 'leader ', 'connected-components', 'None', 0, 1, 2.5, True, False, ('jaccard',)]


def near(rng, valid):
    """Values close to a valid one."""
    v = rng.choice(sorted(valid))
    r = rng.randrange(6)
    if r == 0:
        return v.upper()
    if r == 1:
        return v + rng.choice(['s', ' ', '_', 'x'])
    if r == 2:
        return v[:-1]
    if r == 3:
        return v[::-1]
    if r == 4:
        return v.replace('_', '-') + ('' if '_' in v else '-')
    return v[1:]


def bad(rng, valid):
    while True:
        x = rng.choice(BAD) if rng.random() < 0.5 else near(rng, valid)
        if x not in valid and x is not None:
            return x


def consume(f):
    r = f()
    if hasattr(r, '__next__'):
        return list(r)
    return r


def refused(ctx, what, f, witness):
    """The first result of f must not come."""
    from statistics import StatisticsError
    try:
        r = f()
        if hasattr(r, '__next__'):
            try:
                r = next(r)
            except StopIteration:
                r = 'no result'
    except REFUSALS:
        return True
    except StatisticsError:
        return True
    except Exception as e:
        ctx.fail('%s: crashed rather than refused: %s: %s' % (what, type(e).__name__, e), witness)
        return False
    ctx.fail('%s was accepted' % what, dict(witness, got=r))
    return False


def accepted(ctx, what, f, witness):
    ok, r = ctx.call(what, lambda: consume(f))
    if ok:
        ctx.count('valid_accepted')
    return ok


def strings(rng):
    n = rng.choice([0, 1, 2, 2, 3, 5, 8])
    return [gen.string(rng, rng.randint(1, 5), 'ab') for _ in range(n)]


def sim(a, b):
    return a[:1] == b[:1]


def dist(a, b):
    return abs(len(a) - len(b)) + sum(x != y for x, y in zip(a, b))


def modes(ctx):
    rng = ctx.rng
    from fog import clustering as c
    data = strings(rng)
    while len(set(data)) < len(data):
        data = list(dict.fromkeys(data))
    two = {'fuzzy_clusters', 'connected_components'}
    name, valid, f = rng.choice([
        ('pairwise', two | {'leader'}, lambda mode: c.pairwise(data, mode=mode, similarity=sim)),
        ('blocking', two, lambda mode: c.blocking(data, block=lambda x: x[0], similarity=sim, mode=mode)),
        ('blocking', two, lambda mode: c.blocking(data, blocks=set, distance=dist, radius=2, mode=mode)),
        ('sorted_neighborhood', two, lambda mode: c.sorted_neighborhood(data, similarity=sim, mode=mode)),
        ('adaptive_sorted_neighborhood', two, lambda mode: c.adaptive_sorted_neighborhood(data, similarity=sim, mode=mode)),
        ('passjoin', two, lambda mode: c.passjoin(data, 1, dist, mode=mode)),
        ('quickjoin', two, lambda mode: c.quickjoin(data, 1, distance=dist, mode=mode, seed=1)),
        ('intersection_index', two, lambda mode: c.intersection_index(data, mode=mode, radius=0.3)),
        ('nn_descent', two, lambda mode: c.nn_descent(data, 2, distance=dist, mode=mode, seed=1)),
        ('nn_descent_full', two, lambda mode: c.nn_descent_full(data, 2, distance=dist, mode=mode, seed=1))
    ])
    # (there is nothing to ask of less than two items)
    if name.startswith('nn_descent') and len(data) < 2:
        data.extend(['ab', 'abb', 'aab'])
    mode = bad(rng, valid | {'leader'} if rng.random() < 0.8 else valid)
    ctx.count('unknown_modes')
    if len(data) == 0:
        ctx.count('empty_data')
    refused(ctx, '%s with mode %r' % (name, mode), lambda: f(mode), {'data': data})
    good = rng.choice(sorted(valid))
    accepted(ctx, '%s with mode %r' % (name, good), lambda: f(good), {'data': data})
    ctx.observe((name, mode, good, data), len(data) > 1)


def metrics(ctx):
    rng = ctx.rng
    from fog import clustering as c
    data = strings(rng)
    joins = {'jaccard', 'dice', 'binary_cosine'}
    kind = rng.choice(['intersection_index', 'ppjoin', 'all_pairs', 'ppjoin_plus', 'ordering', 'tokenizer'])
    if len(data) == 0:
        ctx.count('empty_data')
    if kind == 'intersection_index':
        items = list(dict.fromkeys(data))
        metric = bad(rng, {'jaccard', 'overlap'})
        refused(ctx, '%s with metric %r' % (kind, metric), lambda: c.intersection_index(items, metric=metric, radius=0.5), {'data': items})
        good = rng.choice(['jaccard', 'overlap'])
        accepted(ctx, '%s with metric %r' % (kind, good), lambda: c.intersection_index(items, metric=good, radius=0.5), {'data': items})
        ctx.count('unknown_metrics')
    elif kind in ('ordering', 'tokenizer'):
        f = rng.choice([c.ppjoin, c.all_pairs, c.ppjoin_plus])
        if kind == 'ordering':
            value = bad(rng, {'freq', 'crc32'})
            refused(ctx, '%s with token ordering %r' % (f.__name__, value), lambda: f(data, 0.5, tokenizer=set, token_ordering=value), {'data': data})
        else:
            value = rng.choice(['words', 3, [], {'a': 1}, 'x'])
            refused(ctx, '%s with a tokenizer that is not callable: %r' % (f.__name__, value), lambda: f(data, 0.5, tokenizer=value), {'data': data})
        accepted(ctx, f.__name__, lambda: f(data, 0.5, tokenizer=set, token_ordering=rng.choice(['freq', 'crc32'])), {'data': data})
        accepted(ctx, f.__name__, lambda: f(data, 0.5, tokenizer=set, token_ordering=None), {'data': data})
        ctx.count('unknown_orderings')
    else:
        f = getattr(c, kind)
        metric = bad(rng, joins)
        refused(ctx, '%s with metric %r' % (kind, metric), lambda: f(data, 0.5, metric=metric, tokenizer=set), {'data': data})
        good = rng.choice(sorted(joins))
        accepted(ctx, '%s with metric %r' % (kind, good), lambda: f(data, 0.5, metric=good, tokenizer=set), {'data': data})
        ctx.count('unknown_metrics')
    ctx.observe((kind, data), len(data) > 1)


def functions(ctx):
    rng = ctx.rng
    from fog import clustering as c
    data = list(dict.fromkeys(strings(rng)))
    radius = rng.choice([None, None, 1, 0, 0.5])
    kw = {} if radius is None else {'radius': radius}
    name, f = rng.choice([
        ('pairwise', lambda **k: c.pairwise(data, **k)),
        ('pairwise fuzzy', lambda **k: c.pairwise(data, mode='fuzzy_clusters', **k)),
        ('pairwise leader', lambda **k: c.pairwise(data, mode='leader', **k)),
        ('pairwise_leader', lambda **k: c.pairwise_leader(data, **k)),
        ('pairwise_fuzzy_clusters', lambda **k: c.pairwise_fuzzy_clusters(data, **k)),
        ('pairwise_connected_components', lambda **k: c.pairwise_connected_components(data, **k)),
        ('blocking', lambda **k: c.blocking(data, block=lambda x: x[0], **k)),
        ('blocking many', lambda **k: c.blocking(data, blocks=set, **k)),
        ('sorted_neighborhood', lambda **k: c.sorted_neighborhood(data, **k)),
        ('adaptive_sorted_neighborhood', lambda **k: c.adaptive_sorted_neighborhood(data, **k))
    ])
    if rng.random() < 0.4:
        refused(ctx, '%s without similarity nor distance' % name, lambda: f(similarity=None, distance=None, **kw), {'data': data, 'options': kw})
    else:
        refused(ctx, '%s without similarity nor distance' % name, lambda: f(**kw), {'data': data, 'options': kw})
    accepted(ctx, '%s with a similarity' % name, lambda: f(similarity=lambda a, b: 1.0 if sim(a, b) else 0.0, **kw), {'data': data})
    accepted(ctx, '%s with a distance' % name, lambda: f(distance=dist, **kw), {'data': data})
    ctx.count('no_function')
    if not data:
        ctx.count('empty_data')
    ctx.observe((name, kw, data), len(data) > 1)


TYPES = ['word', 'hashtag', 'mention', 'emoji', 'punct', 'number', 'url', 'smiley', 'email']


def tokenizers(ctx):
    rng = ctx.rng
    from fog.tokenizers import WordTokenizer
    # Types are told by the tokenizer itself
    text = 'a #b @c 🐱 ! 1 http://a.b :) a@b.co'
    known = sorted(set(t for t, _ in WordTokenizer()(text)))
    options = {}
    if rng.random() < 0.5:
        options['lower'] = True
    if rng.random() < 0.3:
        options['stoplist'] = ['a']
    shape = rng.choice([list, tuple, set])
    kind = rng.choice(['type', 'both', 'length'])
    if kind == 'type':
        wrong = bad(rng, set(TYPES) | set(known) | {'fancy'})
        some = rng.sample(known, rng.randint(0, len(known))) + [wrong]
        rng.shuffle(some)
        which = rng.choice(['keep', 'drop'])
        refused(ctx, 'the token type %r' % (wrong,), lambda: WordTokenizer(**dict(options, **{which: shape(some)}))(text), {which: some})
        ok = rng.sample(known, rng.randint(1, len(known)))
        accepted(ctx, 'token types', lambda: WordTokenizer(**dict(options, **{which: shape(ok)}))(text), {which: ok})
        ctx.count('token_types')
    elif kind == 'both':
        a = shape(rng.sample(known, rng.randint(0, 3)))
        b = shape(rng.sample(known, rng.randint(0, 3)))
        refused(ctx, 'giving both keep and drop', lambda: WordTokenizer(keep=a, drop=b, **options)(text), {'keep': a, 'drop': b})
        accepted(ctx, 'giving keep only', lambda: WordTokenizer(keep=shape(known[:2]), drop=None, **options)(text), {})
        accepted(ctx, 'giving drop only', lambda: WordTokenizer(keep=None, drop=shape(known[:2]), **options)(text), {})
        ctx.count('contradictions')
    else:
        m = rng.choice([1, 2, 3, 5, 50])
        big = m + rng.choice([0, 0, 1, 2, 10])
        refused(ctx, 'a min_word_length of %d with a max_word_length of %d' % (big, m), lambda: WordTokenizer(min_word_length=big, max_word_length=m, **options)(text), {})
        accepted(ctx, 'a min_word_length of %d with a max_word_length of %d' % (m, m + 1), lambda: WordTokenizer(min_word_length=m, max_word_length=m + 1, **options)(text), {})
        accepted(ctx, 'a min_word_length', lambda: WordTokenizer(min_word_length=big, **options)(text), {})
        accepted(ctx, 'a max_word_length', lambda: WordTokenizer(max_word_length=m, **options)(text), {})
        ctx.count('lengths')
    ctx.observe((kind, options), True)


PROJECTIONS = ['jaccard', 'overlap', 'cosine', 'dice', 'binary_cosine']


def graphs(ctx):
    rng = ctx.rng
    from fog.graph import monopartite_projection
    g = nx.Graph()
    left = ['l%d' % i for i in range(rng.randint(1, 5))]
    right = ['r%d' % i for i in range(rng.randint(1, 4))]
    for x in left:
        g.add_node(x, bipartite='left')
    for x in right:
        g.add_node(x, bipartite='right')
    for x in left:
        for y in right:
            if rng.random() < 0.5:
                g.add_edge(x, y, weight=rng.randint(1, 4))
    if rng.random() < 0.5:
        metric = bad(rng, set(PROJECTIONS))
        refused(ctx, 'projecting with metric %r' % (metric,), lambda: monopartite_projection(g, 'left', metric=metric), {'edges': list(g.edges)})
        for good in (None, 'jaccard', 'cosine', 'overlap', 'dice', 'binary_cosine'):
            accepted(ctx, 'projecting with metric %r' % good, lambda: monopartite_projection(g, 'left', metric=good), {'edges': list(g.edges)})
        ctx.count('projection_metrics')
    else:
        # An edge within a part, or a third part
        h = g.copy()
        how = rng.choice(['within', 'third', 'loop'])
        if how == 'within':
            side = rng.choice([left, right])
            h.add_node(side[0] + 'x', bipartite='left' if side is left else 'right')
            h.add_edge(side[0] + 'x', rng.choice(side), weight=1)
        elif how == 'loop':
            x = rng.choice(left + right)
            h.add_edge(x, x, weight=1)
        else:
            h.add_edge(left[0], right[0], weight=1)
            h.add_node('third', bipartite='third')
            h.add_edge('third', rng.choice(left + right), weight=1)
        metric = rng.choice([None, 'jaccard', 'cosine'])
        refused(ctx, 'projecting a graph that is not bipartite (%s)' % how, lambda: monopartite_projection(h, 'left', metric=metric, bipartition_check=True), {'edges': list(h.edges)})
        accepted(ctx, 'projecting a bipartite graph', lambda: monopartite_projection(g, 'left', metric=metric, bipartition_check=True), {'edges': list(g.edges)})
        ctx.count('not_bipartite')
    ctx.observe(repr(sorted(g.edges)), g.number_of_edges() > 0)


def large_graphs(ctx):
    """A single edge, anywhere among hundreds, makes the graph not bipartite."""
    rng = ctx.rng
    from fog.graph import monopartite_projection
    n = rng.choice([60, 130, 300, 600, 1200, 2500])
    edges = [('l%d' % i, 'r%d' % (i if rng.random() < 0.7 else rng.randrange(n))) for i in range(n)]
    good, wrong = nx.Graph(), nx.Graph()
    place = rng.choice([n, rng.randrange(n)])
    how = rng.choice(['within', 'within', 'third', 'loop'])
    late = rng.choice(['l', 'r'])
    extra = {'within': (late + str(n - 1), late + str(n - 2)), 'loop': (late + str(n - 1),) * 2, 'third': ('third', late + str(n - 1))}[how]
    for g in (good, wrong):
        for i in range(n):
            g.add_node('l%d' % i, bipartite='left')
            g.add_node('r%d' % i, bipartite='right')
        for i, (u, v) in enumerate(edges):
            if i == place and g is wrong:
                g.add_node('third', bipartite='third')
                g.add_edge(*extra)
            g.add_edge(u, v)
        if place == n and g is wrong:
            g.add_node('third', bipartite='third')
            g.add_edge(*extra)
    witness = {'n': n, 'edge': extra, 'position': place}
    refused(ctx, 'projecting a graph that is not bipartite (%s)' % how, lambda: monopartite_projection(wrong, 'left'), witness)
    accepted(ctx, 'projecting a bipartite graph', lambda: monopartite_projection(good, 'left'), witness)
    ctx.count('large_not_bipartite')
    ctx.observe((n, how, place))


def large_evaluations(ctx):
    """A single item, anywhere among hundreds, makes the comparison impossible."""
    rng = ctx.rng
    from fog.evaluation import best_matching_macro_average as evaluate
    n = rng.choice([60, 130, 300, 600, 1200, 2500])
    size = rng.choice([1, 3, 40, n])
    items = rng.sample(range(n), n)
    truth = [items[i:i + size] for i in range(0, n, size)]
    predicted = [sorted(items)[i:i + size] for i in range(0, n, size)]
    accepted(ctx, 'evaluating', lambda: evaluate(truth, predicted), {'items': n})
    how = rng.choice(['missing', 'additional', 'twice', 'empty cluster', 'empty truth cluster'])
    p = rng.choice([predicted[-1], rng.choice(predicted)])
    if how == 'missing':
        rng.choice([truth[-1], rng.choice(truth)]).append('new')
    elif how == 'additional':
        p.append('new')
    elif how == 'twice':
        p.append(rng.choice(items))
    elif how == 'empty cluster':
        predicted.insert(rng.choice([len(predicted), rng.randint(0, len(predicted))]), [])
    else:
        truth.insert(rng.choice([len(truth), rng.randint(0, len(truth))]), [])
    refused(ctx, 'evaluating with %s' % how, lambda: evaluate(truth, predicted), {'items': n, 'cluster size': size, 'how': how})
    ctx.count('large_evaluations_refused')
    ctx.observe((n, size, how, tuple(items[:20])))


def signatures(ctx):
    rng = ctx.rng
    from fog.lsh import simhash
    # (a signature holds at least one hexadecimal digit)
    powers = [2 ** i for i in range(2, 10)]
    tokens = strings(rng)
    n = rng.choice([3, 5, 6, 7, 9, 12, 24, 48, 63, 65, 96, 100, 127, 129, 255, 257, 384, 511, 513, 768, 1000, 1024, 2048, rng.randint(3, 4000), 2 ** rng.randint(10, 20)] + [i for i in ctx.ints if i > 2])
    if n > 2 and n not in powers:
        refused(ctx, 'a simhash of %d bits' % n, lambda: simhash(tokens, f=n), {'tokens': tokens})
        ctx.count('signature_sizes')
    p = rng.choice(powers)
    accepted(ctx, 'a simhash of %d bits' % p, lambda: simhash(tokens, f=p), {'tokens': tokens})
    ctx.observe((n, p, tokens), bool(tokens))


def evaluations(ctx):
    rng = ctx.rng
    from fog.evaluation import best_matching_macro_average as evaluate
    items = ['i%d' % i for i in range(rng.randint(2, 12))]

    def partition(xs):
        k = rng.randint(1, len(xs))
        out = [[] for _ in range(k)]
        for x in xs:
            rng.choice(out).append(x)
        return [c for c in out if c]

    truth, predicted = partition(items), partition(items)
    accepted(ctx, 'evaluating', lambda: evaluate(truth, predicted), {'truth': truth, 'predicted': predicted})
    how = rng.choice(['empty truth', 'empty predicted', 'empty cluster', 'empty truth cluster', 'missing', 'additional', 'twice'])
    t, p = [list(c) for c in truth], [list(c) for c in predicted]
    kw = {}
    if how == 'empty truth':
        t = []
        kw = rng.choice([{}, {'allow_additional_items': True}])
    elif how == 'empty predicted':
        p = []
        kw = rng.choice([{}, {'allow_additional_items': True}])
    elif how == 'empty cluster':
        p.insert(rng.randint(0, len(p)), [])
    elif how == 'empty truth cluster':
        t.insert(rng.randint(0, len(t)), [])
        kw = rng.choice([{}, {'allow_additional_items': True}])
    elif how == 'missing':
        rng.choice(t).append('new')
        kw = rng.choice([{}, {'allow_additional_items': True}])
    elif how == 'additional':
        if rng.random() < 0.5:
            rng.choice(p).append('new')
        else:
            p.insert(rng.randint(0, len(p)), ['new'])
        accepted(ctx, 'evaluating with additional items allowed', lambda: evaluate(t, p, allow_additional_items=True), {'truth': t, 'predicted': p})
    else:
        x = rng.choice(items)
        r = rng.random()
        if r < 0.3:
            # In its own cluster
            c = rng.choice([c for c in p if x in c])
            c.insert(rng.randint(0, len(c)), x)
        elif len(p) == 1 or r < 0.6:
            p.append([x])
        else:
            others = [c for c in p if x not in c]
            rng.choice(others).append(x)
    refused(ctx, 'evaluating with %s' % how, lambda: evaluate(t, p, **kw), {'truth': t, 'predicted': p, 'options': kw})
    ctx.count('evaluations_refused')
    ctx.observe((how, t, p), True)


def means(ctx):
    rng = ctx.rng
    from fog.utils import OnlineMean
    m = OnlineMean()
    n = rng.randint(0, 4)
    xs = [rng.randint(-5, 5) for _ in range(n)]
    for x in xs:
        m.add(x)
    for x in xs:
        accepted(ctx, 'a mean', m.peek, {'values': xs})
        m.subtract(x)
    refused(ctx, 'the mean of nothing', m.peek, {'values': xs})
    refused(ctx, 'the mean of nothing', lambda: float(m), {'values': xs})
    refused(ctx, 'subtracting from nothing', lambda: m.subtract(1), {'values': xs})
    m.add(3)

    def add(x):
        nonlocal m
        m += x
    refused(ctx, 'adding something else to a mean', lambda: add(rng.choice([1, 'a', None, [1], 2.5])), {})
    ctx.count('means')
    ctx.observe(tuple(xs), n > 0)


def command_lines(ctx):
    rng = ctx.rng
    columns = rng.sample(['name', 'id', 'x y', 'été', 'Name', 'a'], rng.randint(1, 4))
    rows = [columns] + [[gen.string(rng, rng.randint(1, 4), 'ab|c') for _ in columns] for _ in range(rng.randint(0, 4))]
    data = cli.encode(rows, rng)
    column = rng.choice(columns)
    inside = rng.random() < 0.85
    action = rng.choice(['cluster', 'split', 'transform'])
    good = {'cluster': ['cluster', column], 'split': ['split', column], 'transform': ['transform', column, 'lower']}[action]
    how = rng.choice(['column', 'column', 'operation', 'type', 'algorithm', 'action', 'file'])
    wrong = list(good)
    if how == 'column':
        wrong[1] = bad(rng, set(columns) | {''}) if rng.random() < 0.7 else 'nowhere'
        if not isinstance(wrong[1], str) or wrong[1] in columns:
            wrong[1] = 'nowhere'
    elif how == 'operation':
        wrong = ['transform', column, rng.choice(['lowercase', 'UPPER', 'lower,nothing', 'nothing,lower', 'lower,', 'value.lower()', 'lower upper'])]
    elif how == 'type':
        wrong = ['cluster', column, '-t', rng.choice(['json', 'HTML', 'csv', ''])]
    elif how == 'algorithm':
        wrong = ['cluster', column, '-a', rng.choice(['nothing', 'pairwise', 'Fingerprint', ''])]
    elif how == 'action':
        wrong = [rng.choice(['clusters', 'merge', 'Split']), column]
    else:
        wrong = good + ['/nonexistent/file.csv']
    try:
        # (the file that does not exist takes the place of the file)
        if how == 'file':
            if inside:
                got = cli.inside(wrong, data)
            else:
                got = cli.outside(wrong, data, ctx.scratch)
        else:
            got = cli.run(wrong, data, ctx.scratch, rng, inprocess=inside, name='c32')
        ctx.fail('the command line %r was accepted' % wrong, {'rows': rows, 'got': got})
    except cli.Failed as e:
        if inside is False and 'Segmentation' in str(e):
            ctx.fail('the command crashed', {'argv': wrong})
    except REFUSALS + (OSError,):
        pass
    ctx.count('command_lines')
    try:
        cli.run(good, data, ctx.scratch, rng, inprocess=inside, name='c32')
        ctx.count('command_lines_accepted')
    except Exception as e:
        ctx.fail('the command line %r was refused: %s: %s' % (good, type(e).__name__, e), {'rows': rows})
    ctx.observe((how, wrong, rows), len(rows) > 1)


def workloads(tier):
    k = 60 if tier == 'thorough' else 4
    return [
        ('modes', modes, 500 * k),
        ('metrics', metrics, 500 * k),
        ('functions', functions, 400 * k),
        ('tokenizers', tokenizers, 400 * k),
        ('graphs', graphs, 200 * k),
        ('large_graphs', large_graphs, 15 * k),
        ('large_evaluations', large_evaluations, 20 * k),
        ('signatures', signatures, 200 * k),
        ('evaluations', evaluations, 500 * k),
        ('means', means, 100 * k),
        ('command_lines', command_lines, 60 * k)
    ]
