import copy
import random
import sys
import threading
from collections import Counter, OrderedDict, deque

from vf import core, gen, oracle
from vf import sched

FILES = ['fog/clustering', 'fog/metrics', 'fog/lsh', 'fog/graph', 'fog/key', 'fog/phonetics', 'fog/tokenizers', 'fog/join', 'fog/evaluation', 'fog/utils.py']
RULE = ('A case is a history of calls to the library, each observed for what it did to its arguments and to the global random generators, then '
        'repeated after other calls, interleaved with others, or from several threads; or a clusterer run on many kinds of iterables of the same '
        'items. Non-trivial: the call gives a result that is not empty.')
ASSUMPTIONS = ['randomized functions are given a seed', 'clusters are compared without regard to their order', 'functions given to the library do not change anything themselves',
               'laesa is left out: it is documented as not working', 'the VP-tree library draws from the global generator of `random`: vp_tree may advance it, not reseed it']
REQUIRED = ['large_data', 'large_operations', 'calls', 'arguments_compared', 'generator_states_compared', 'repeated_calls', 'histories', 'threads', 'thread_calls', 'interleaved', 'iterable_kinds', 'members_identified',
            'one_shot_runs', 'second_runs', 'forced_switches', 'results_spoiled', 'clusters_spoiled_on_the_way', 'nested_calls', 'failed_runs', 'abandoned_runs', 'shared_object_calls']


# --- Snapshots ----------------------------------------------------------------

def freeze(x):
    """Structural copy, in the order of iteration, that later changes cannot reach."""
    if isinstance(x, dict):
        return (type(x).__name__, [(freeze(k), freeze(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple, deque)):
        return (type(x).__name__, [freeze(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted(repr(freeze(y)) for y in x))
    if hasattr(x, 'adj') and hasattr(x, 'nodes'):
        return ('graph', [(repr(n), freeze(dict(d))) for n, d in x.nodes(data=True)], [(repr(u), repr(v), freeze(dict(d))) for u, v, d in x.edges(data=True)])
    if isinstance(x, gen.Reiterable):
        return ('reiterable', [freeze(y) for y in x._items])
    if hasattr(x, 'tolist'):
        return ('array', x.tolist())
    return (type(x).__name__, repr(x))


# The library behind VP-trees draws its vantage points from the global generator
DRAWING = ('vp_tree',)


def reseeds(call):
    """Whether a call leads to the same state from two states."""
    saved = random.getstate()
    try:
        ends = []
        for seed in (1, 2):
            random.seed(seed)
            call()
            ends.append(random.getstate())
        return ends[0] == ends[1]
    finally:
        random.setstate(saved)


def disturbed(ctx, name, before, call):
    after = generators()
    if after == before:
        return False
    if name in DRAWING and after[1] == before[1]:
        ctx.count('drawing_calls')
        return reseeds(call)
    return True


def generators():
    import numpy
    s = numpy.random.get_state()
    return (random.getstate(), (s[0], s[1].tobytes()) + tuple(s[2:]))


# --- Operations ---------------------------------------------------------------

class Text(str):
    """A string with an identity."""
    __slots__ = ()


class Op(object):
    def __init__(self, name, arguments, call):
        self.name = name
        self.arguments = arguments   # what must not change
        self.call = call             # () -> comparable result


def groups(clusters):
    return sorted(sorted(map(repr, c)) for c in clusters)


def texts(rng, n=None):
    n = n or rng.randint(3, 14)
    if n > 100:
        return [Text(s) for s in gen.strings(rng, n, 'abcdefgh', 7)]
    return [Text(s) for s in gen.strings(rng, n, rng.choice(['ab', 'abc ', 'abcdeé']), rng.choice([3, 5, 7]))]


def bags(rng, n=None):
    return [tuple(rng.sample('abcdefghij', rng.randint(1, 7))) for _ in range(n or rng.randint(3, 12))]


def bag_distance(a, b):
    return len(set(a) ^ set(b))


def first_two(s):
    return s[:2]


def grams(s):
    return [s[i:i + 2] for i in range(max(1, len(s) - 1))]


def held(rng, items, function):
    """A function of the items returning each time the same lists, and these lists."""
    values = OrderedDict((x, function(x)) for x in items)
    if rng.random() < 0.3:
        return function, []
    return values.__getitem__, [values]


CLUSTERERS = ['pairwise', 'pairwise_leader', 'pairwise_fuzzy', 'pairwise_keyed', 'blocking',
              'blocks', 'key_collision', 'keys_collision', 'sorted_neighborhood', 'multipass', 'adaptive', 'passjoin', 'intersection_index', 'minhash', 'nn_descent', 'nn_descent_full', 'quickjoin', 'vp_tree', 'ppjoin', 'all_pairs', 'ppjoin_plus']


def clusterer(rng, n=None, distance=oracle.lev, which=None):
    """name, items, function of an iterable of the items giving clusters, objects it must leave alone."""
    from fog import clustering as c
    which = which or rng.choice(CLUSTERERS)
    mode = rng.choice(['connected_components', 'fuzzy_clusters'])
    seed = gen.seed(rng)
    items = texts(rng, n)
    k = rng.choice([1, 2])
    # Lists whose last and first tokens repeat
    repeated, kept_repeated = held(rng, items, lambda s: grams(s)[::-1] + grams(s))

    if which == 'pairwise':
        m = rng.choice(['connected_components', 'fuzzy_clusters', 'leader'])
        return which, items, lambda d: c.pairwise(d, mode=m, distance=distance, radius=k), []
    if which == 'pairwise_leader':
        return which, items, lambda d: c.pairwise_leader(d, similarity=lambda a, b: distance(a, b) <= 1), []
    if which == 'pairwise_fuzzy':
        return which, items, lambda d: c.pairwise_fuzzy_clusters(d, distance=distance, radius=k), []
    if which == 'pairwise_keyed':
        f = rng.choice([c.pairwise_fuzzy_clusters, c.pairwise_connected_components])
        if rng.random() < 0.5:
            return which, items, lambda d: f(d, distance=bag_distance, radius=k, key=repeated), kept_repeated
        return which, items, lambda d: f(d, distance=distance, radius=k, key=str.strip), []
    if which == 'blocking':
        return which, items, lambda d: c.blocking(d, block=first_two, distance=distance, radius=k, mode=mode), []
    if which == 'blocks':
        return which, items, lambda d: c.blocking(d, blocks=repeated, distance=distance, radius=k, mode=mode), kept_repeated
    if which == 'key_collision':
        return which, items, lambda d: c.key_collision(d, key=first_two), []
    if which == 'keys_collision':
        merge = rng.random() < 0.5
        return which, items, lambda d: c.key_collision(d, keys=repeated, merge=merge), kept_repeated
    if which == 'sorted_neighborhood':
        w = rng.choice([2, 3, 10])
        return which, items, lambda d: c.sorted_neighborhood(d, key=rng_free_reverse, distance=distance, radius=k, window=w, mode=mode), []
    if which == 'multipass':
        keys = rng.choice([[None, rng_free_reverse], [rng_free_reverse, None], [first_two, rng_free_reverse, first_two], [rng_free_reverse]])
        return which, items, lambda d: c.sorted_neighborhood(d, keys=keys, distance=distance, radius=k, window=3, mode=mode), [keys]
    if which == 'adaptive':
        if rng.random() < 0.5:
            keys = rng.choice([[None, rng_free_reverse], [rng_free_reverse, first_two]])
            return which, items, lambda d: c.adaptive_sorted_neighborhood(d, keys=keys, distance=distance, radius=k), [keys]
        return which, items, lambda d: c.adaptive_sorted_neighborhood(d, key=rng_free_reverse, distance=distance, radius=k), []
    if which == 'passjoin':
        return which, items, lambda d: c.passjoin(d, k, distance, mode=mode), []
    if which == 'intersection_index':
        return which, items, lambda d: c.intersection_index(d, key=repeated, radius=0.5), kept_repeated
    if which == 'minhash':
        numpy = rng.random() < 0.4
        return which, items, lambda d: c.minhash(d, h=32, key=repeated, radius=0.5, seed=seed, use_numpy=numpy), kept_repeated
    if which == 'nn_descent':
        return which, items, lambda d: c.nn_descent(d, k, distance=distance, k=3, seed=seed), []
    if which == 'nn_descent_full':
        return which, items, lambda d: c.nn_descent_full(d, k, distance=distance, k=3, seed=seed), []
    if which == 'quickjoin':
        return which, items, lambda d: c.quickjoin(d, distance=distance, radius=k, seed=seed, block_size=4, mode=mode), []
    if which == 'vp_tree':
        return which, items, lambda d: c.vp_tree(d, distance, k), []
    f = getattr(c, which)
    return which, [tuple(sorted(set(grams(s)))) for s in items], lambda d: f(d, rng_free_threshold), []


rng_free_threshold = 0.5


def rng_free_reverse(s):
    return s[::-1]


def operation(rng):
    """A call to some part of the library."""
    r = rng.random()

    if r < 0.4:
        name, items, f, kept = clusterer(rng)
        data = rng.choice([list, tuple, deque])(items)
        return Op(name, [data] + kept, lambda: groups(f(data)))

    if r < 0.55:
        return metric(rng)
    if r < 0.65:
        return lsh(rng)
    if r < 0.8:
        return stringy(rng)

    return structured(rng)


def vector(rng):
    return {x: rng.choice([1, 2, 0.5, 3]) for x in rng.sample('abcdefgh', rng.randint(1, 6))}


def metric(rng):
    from fog import metrics as m
    name = rng.choice(['cosine_similarity', 'binary_cosine_similarity', 'dice_coefficient', 'jaccard_similarity', 'overlap_coefficient', 'sparse_cosine_similarity', 'sparse_binary_cosine_similarity',
                       'sparse_dot_product', 'weighted_jaccard_similarity', 'sparse_norm', 'sparse_normalize'])
    f = getattr(m, name)
    if name in ('sparse_norm', 'sparse_normalize'):
        v = vector(rng)
        return Op(name, [v], lambda: freeze(f(v)))
    if name.startswith('sparse') or name.startswith('weighted'):
        a, b = vector(rng), vector(rng)
    else:
        kind = rng.choice([list, tuple, set, frozenset]) if name != 'cosine_similarity' else rng.choice([list, tuple])
        a, b = kind(rng.choice('abcdef') for _ in range(5)), kind(rng.choice('abcdef') for _ in range(6))
        if rng.random() < 0.2:
            b = a
    return Op(name, [a, b], lambda: freeze(f(a, b)))


def lsh(rng):
    from fog import lsh as l
    tokens = rng.choice([list, tuple])(''.join(rng.choice('abcde') for _ in range(3)) for _ in range(rng.randint(1, 20)))
    which = rng.choice(['minhash', 'minhash_numpy', 'lsb', 'super', 'simhash', 'shared'])
    seed = gen.seed(rng)
    if which == 'minhash':
        return Op(which, [tokens], lambda: freeze(l.MinHash(h=16, seed=seed).create_signature(tokens)))
    if which == 'minhash_numpy':
        return Op(which, [tokens], lambda: freeze(l.MinHash(h=16, seed=seed, use_numpy=True).create_signature(tokens)))
    if which == 'lsb':
        return Op(which, [tokens], lambda: freeze(l.LSBMinHash(precision=2, seed=seed).create_signature(tokens)))
    if which == 'super':
        return Op(which, [tokens], lambda: freeze(l.SuperMinHash(h=16).create_signature(tokens)))
    if which == 'simhash':
        return Op(which, [tokens], lambda: l.simhash(tokens, f=64))
    shared = rng.choice([l.MinHash(h=8, seed=seed), l.SuperMinHash(h=8), l.LSBMinHash(precision=1, seed=seed), l.MinHash(h=8, seed=seed, use_numpy=True)])
    return Op('shared ' + type(shared).__name__, [tokens], lambda: freeze(shared.create_signature(tokens)))


SENTENCES = ['The cat @me #TagOne 1.5 isn\'t l\'amour :) 🐱 http://a.b', 'École Normale Supérieure', 'a-t-il VERY.GOOD O.N.U. etc. ok', 'bergmann Müller-Lüdenscheidt', 'Loooool &amp; #ÉpopéeRusse2018', 'xxiiV III  the The the']


def stringy(rng):
    from fog import key as k, phonetics as p, tokenizers as t, utils as u
    s = rng.choice(SENTENCES) if rng.random() < 0.6 else gen.string(rng, rng.randint(1, 12), 'abcdeéABC 12')
    w = gen.string(rng, rng.randint(2, 9), 'abcdefghiklmnoprstuvwz')
    which = rng.choice(['fingerprint', 'ngrams_fingerprint', 'fingerprint_tokenizer', 'words', 'words_options', 'ngrams', 'ngram_keys', 'omission', 'skeleton', 'lev1', 'lev2', 'blocks1', 'dam1', 'zigzag',
                        'cologne', 'rusalka', 'squeeze', 'shared_tokenizer'])
    stop = rng.choice([list, set, tuple, frozenset])(rng.sample(['the', 'The', 'CAT', 'École', 'OK', "L'Amour", 'A', 'abc'], rng.randint(1, 4)))
    if which == 'fingerprint':
        return Op(which, [], lambda: k.fingerprint(s))
    if which == 'ngrams_fingerprint':
        return Op(which, [], lambda: k.ngrams_fingerprint(2, s))
    if which == 'fingerprint_tokenizer':
        split = rng.choice([None, ['-', '.'], ["'", '-', 'é'], ('-',)])
        o = {'split': split} if split is not None else {}
        return Op(which, [stop, split], lambda: freeze(list(t.FingerprintTokenizer(stopwords=stop, keep_digits=False, **o)(s))))
    if which == 'words':
        return Op(which, [], lambda: list(t.words_tokenizer(s)))
    if which == 'words_options':
        kinds = rng.choice([list, set, tuple, frozenset])(rng.sample(['word', 'hashtag', 'number', 'mention', 'emoji', 'url'], rng.randint(1, 3)))
        o = {rng.choice(['keep', 'drop']): kinds}
        o['lower'] = rng.random() < 0.7
        o.update({x: True for x in rng.sample(['split_hashtags', 'unidecode', 'reduce_words', 'mentions_as_words', 'hashtags_as_words', 'decode_html_entities'], rng.randint(0, 3))})
        return Op(which, [stop, kinds], lambda: list(t.WordTokenizer(stoplist=stop, **o)(s)))
    if which == 'shared_tokenizer':
        shared = rng.choice([t.WordTokenizer(lower=True, stoplist=stop), t.FingerprintTokenizer(stopwords=stop), t.WordTokenizer(split_hashtags=True, reduce_words=True)])
        return Op(which, [stop], lambda: list(shared(s)))
    if which == 'ngrams':
        seq = list(s)
        return Op(which, [seq], lambda: freeze(list(t.ngrams(3, seq))))
    if which == 'ngram_keys':
        return Op(which, [], lambda: sorted(k.ngram_keys(2, w)))
    if which in ('omission', 'skeleton'):
        f = {'omission': k.omission_key, 'skeleton': k.skeleton_key}[which]
        return Op(which, [], lambda: f(s))
    if which == 'zigzag':
        seq = list(w)
        return Op(which, [seq], lambda: freeze([seq if f is None else f(seq) for f in k.zig_zag]))
    if which in ('lev1', 'dam1', 'blocks1', 'lev2'):
        f = {'lev1': k.levenshtein_1d_keys, 'dam1': k.damerau_levenshtein_1d_keys, 'blocks1': k.levenshtein_1d_blocks, 'lev2': k.levenshtein_2d_blocks}[which]
        return Op(which, [], lambda: sorted(f(w)))
    if which in ('cologne', 'rusalka'):
        f = getattr(p, which)
        return Op(which, [], lambda: f(w))
    return Op(which, [], lambda: u.squeeze(s))


def structured(rng):
    which = rng.choice(['projection', 'floatsam', 'components', 'hashjoin', 'best_matching', 'labels', 'clusters', 'ppjoin_lists', 'online_mean'])
    if which in ('projection', 'floatsam', 'components'):
        import networkx as nx
        from fog.graph import monopartite_projection, floatsam_sparsification
        from fog.graph.utils import component_sizes
        g = nx.Graph()
        if which == 'projection':
            for i in range(6):
                g.add_node('p%d' % i, bipartite='people', n=i)
                g.add_node('c%d' % i, bipartite='color')
            for _ in range(14):
                g.add_edge('p%d' % rng.randrange(6), 'c%d' % rng.randrange(6), weight=rng.randint(1, 4))
            m = rng.choice([None, 'jaccard', 'cosine'])
            t = rng.random() < 0.5
            return Op(which, [g], lambda: freeze(monopartite_projection(g, 'people', metric=m, use_topology=t)))
        for i in range(8):
            g.add_node(i)
        for _ in range(14):
            a, b = rng.sample(range(8), 2)
            g.add_edge(a, b, weight=rng.randint(0, 8) / 4)
        if which == 'floatsam':
            return Op(which, [g], lambda: floatsam_sparsification(g, learning_rate=0.25))
        return Op(which, [g], lambda: sorted(component_sizes(g)))
    if which == 'hashjoin':
        from fog.join import hashjoin
        a, b = list(texts(rng, 5)), list(texts(rng, 6))
        return Op(which, [a, b], lambda: sorted(map(repr, hashjoin(a, b, keys=grams))))
    if which == 'best_matching':
        from fog.evaluation import best_matching_macro_average
        truth = [[1, 2, 3], [4, 5], [6]]
        predicted = rng.choice([[[1, 2], [3, 4], [5, 6]], [[6, 5, 4, 3, 2, 1]], [[1, 2, 3, 7], [4, 6], [5]]])
        return Op(which, [truth, predicted], lambda: best_matching_macro_average(truth, predicted, allow_additional_items=True))
    if which == 'labels':
        from fog.evaluation import labels_to_clusters
        labels = [rng.randrange(3) for _ in range(8)]
        return Op(which, [labels], lambda: freeze(labels_to_clusters(labels)))
    if which == 'clusters':
        from fog.evaluation import clusters_to_labels
        clusters = [[1, 3], [0, 2]]
        return Op(which, [clusters], lambda: freeze(clusters_to_labels(clusters, flat=True)))
    if which == 'ppjoin_lists':
        from fog.clustering import ppjoin
        records = [rng.sample('abcdefg', rng.randint(0, 6)) for _ in range(8)]
        return Op(which, [records], lambda: groups(ppjoin(records, 0.5)))
    from fog.utils import OnlineMean
    a, b = OnlineMean(), OnlineMean()
    a.add(3)
    b.add(5)
    return Op(which, [], lambda: (float(a + b), len(a), len(b), float(a), float(b)))


# --- Workloads ----------------------------------------------------------------

def watched(ctx, op):
    """One call, looking at what it does besides returning."""
    before = [freeze(x) for x in op.arguments]
    states = generators()
    ok, result = ctx.call(op.name, op.call)
    if not ok:
        return None
    if disturbed(ctx, op.name, states, op.call):
        ctx.fail('%s used or reseeded a global random generator' % op.name, {'arguments': op.arguments})
    for x, old in zip(op.arguments, before):
        new = freeze(x)
        if new != old:
            ctx.fail('%s changed one of its arguments' % op.name, {'before': old, 'after': new})
        ctx.count('arguments_compared')
    ctx.count('generator_states_compared')
    ctx.count('calls')
    ctx.count('op_' + op.name.split(' ')[0])
    return result


def histories(ctx):
    """Calls, repeated in other orders."""
    rng = ctx.rng
    ops = [operation(rng) for _ in range(6)]
    first = [watched(ctx, op) for op in ops]
    order = [rng.randrange(len(ops)) for _ in range(6)] + list(range(len(ops)))
    rng.shuffle(order)
    # Whatever the state of the global generators
    random.seed(rng.randint(0, 10 ** 6))
    import numpy
    numpy.random.seed(rng.randint(0, 10 ** 6))
    for i in order:
        again = watched(ctx, ops[i])
        if again != first[i] and first[i] is not None and again is not None:
            ctx.fail('%s gives another result when called again after other functions' % ops[i].name, {'arguments': ops[i].arguments, 'first': first[i], 'again': again})
            return
        ctx.count('repeated_calls')
    ctx.count('histories')
    ctx.observe([(op.name, repr(op.arguments)) for op in ops], any(first))


def compare_threads(ctx, ops, first, orders, start):
    """Calls, by indices, of several threads; `start` runs a list of functions at once."""
    problems = []

    def run(order):
        for i in order:
            try:
                again = ops[i].call()
            except Exception as e:
                problems.append((ops[i].name, 'raised %s: %s' % (type(e).__name__, e), ops[i].arguments))
                return
            if again != first[i] and first[i] is not None:
                problems.append((ops[i].name, again, first[i]))
                return

    before = [[freeze(x) for x in op.arguments] for op in ops]
    start([lambda o=o: run(o) for o in orders])
    for p in problems[:1]:
        ctx.fail('%s gives another result when called from several threads' % p[0], {'got': p[1], 'expected': p[2]})
    if before != [[freeze(x) for x in op.arguments] for op in ops]:
        ctx.fail('an argument was changed by a call from a thread', {'operations': [op.name for op in ops]})
    ctx.count('threads', len(orders))
    ctx.count('thread_calls', sum(map(len, orders)))
    ctx.observe([(op.name, repr(op.arguments)) for op in ops], any(first))


def at_once(functions):
    """Threads left to the interpreter, which switches as often as it can."""
    barrier = threading.Barrier(len(functions))

    def run(f):
        barrier.wait()
        f()

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        workers = [threading.Thread(target=run, args=(f,)) for f in functions]
        for w in workers:
            w.start()
        for w in workers:
            w.join()
    finally:
        sys.setswitchinterval(interval)


def threads(ctx):
    """The same calls from several threads at once."""
    rng = ctx.rng
    ops = [operation(rng) for _ in range(4)]
    # Objects shared by threads matter most
    ops += [stringy(rng), lsh(rng)]
    first = [watched(ctx, op) for op in ops]
    compare_threads(ctx, ops, first, [[rng.randrange(len(ops)) for _ in range(8)] for _ in range(4)], at_once)


def family(rng):
    """Calls of one function, or of one object, on several arguments."""
    from fog import key as k, lsh as l, phonetics as p, tokenizers as t
    r = rng.random()
    if r < 0.35:
        options = {x: rng.random() < 0.5 for x in ('lower', 'split_hashtags', 'unidecode', 'reduce_words', 'mentions_as_words', 'hashtags_as_words', 'decode_html_entities')}
        if rng.random() < 0.5:
            options['stoplist'] = ['the', 'ok']
        if rng.random() < 0.3:
            options['keep'] = ['word', 'hashtag']
        shared = t.WordTokenizer(**options)
        return [Op('WordTokenizer', [], lambda s=s: list(shared(s))) for s in rng.sample(SENTENCES, 3)]
    if r < 0.6:
        options = {x: rng.random() < 0.5 for x in ('keep_digits', 'squeeze')}
        if rng.random() < 0.5:
            options['stopwords'] = ['the', 'a']
        if rng.random() < 0.3:
            options['split'] = ['-', "'"]
        shared = t.FingerprintTokenizer(**options)
        return [Op('FingerprintTokenizer', [], lambda s=s: list(shared(s))) for s in rng.sample(SENTENCES, 3)]
    if r < 0.85:
        seed = gen.seed(rng)
        shared = rng.choice([l.MinHash(h=6, seed=seed), l.SuperMinHash(h=6), l.LSBMinHash(precision=1, seed=seed), l.MinHash(h=6, seed=seed, use_numpy=True)])
        bags = [[''.join(rng.choice('abcde') for _ in range(3)) for _ in range(rng.randint(1, 4))] for _ in range(3)]
        return [Op(type(shared).__name__, [b], lambda b=b: freeze(shared.create_signature(b))) for b in bags]
    f = rng.choice([k.fingerprint, lambda s: k.ngrams_fingerprint(2, s), k.omission_key, k.skeleton_key, p.cologne, p.rusalka])
    pool = ['bergmann', 'tchaikovski', 'abcabc', 'lockheed', 'phoenix', 'xxii'] if f in (p.cologne, p.rusalka) else SENTENCES
    return [Op('key', [], lambda s=s: f(s)) for s in rng.sample(pool, 3)]


CODES = []


def schedules(ctx):
    """Threads made to hand over to one another inside the code."""
    from fog import clustering, evaluation, graph, join, key, lsh, metrics, phonetics, tokenizers, utils
    rng = ctx.rng
    ops = family(rng)
    if rng.random() < 0.3:
        ops = ops[:1] + [operation(rng)]
    first = [watched(ctx, op) for op in ops]
    n = rng.choice([2, 2, 3])
    orders = [[rng.randrange(len(ops)) for _ in range(2)] for _ in range(n)]
    if not CODES:
        CODES.extend(sched.codes(core.REPO + '/fog/'))
    scheduler = sched.Scheduler(rng, CODES, rng.choice([0.01, 0.05, 0.3, 0.8]), rng.random() < 0.3)
    compare_threads(ctx, ops, first, orders, scheduler.run)
    ctx.count('shared_object_calls', sum(map(len, orders)))
    ctx.count('switch_points', scheduler.points)
    ctx.count('forced_switches', scheduler.switches)
    ctx.count('waits_given_up', scheduler.stolen)
    ctx.distinct('interleavings', scheduler.signature)


def scramble(x, depth=0):
    """Spoils whatever can be of a result."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v, depth + 1)
        try:
            x.clear()
        except TypeError:
            pass
    elif isinstance(x, list):
        for v in x:
            scramble(v, depth + 1)
        x[:] = ['spoiled']
    elif isinstance(x, deque):
        x.clear()
        x.append('spoiled')
    elif isinstance(x, set):
        x.clear()
        x.add('spoiled')
    elif isinstance(x, tuple):
        for v in x:
            scramble(v, depth + 1)
    elif hasattr(x, 'tolist') and getattr(x, 'shape', None):
        try:
            x[...] = 0
        except ValueError:
            pass
    elif hasattr(x, 'adj') and hasattr(x, 'nodes'):
        for _, d in x.nodes(data=True):
            d['spoiled'] = True
        for _, _, d in x.edges(data=True):
            d['weight'] = 'spoiled'
        x.add_edge('spoiled', 'nodes')


def owned(rng):
    """Functions returning something that belongs to the caller: name, arguments, call."""
    from fog import clustering as c, evaluation as e, key as k, lsh as l, metrics as m, tokenizers as t
    from fog.graph import monopartite_projection
    from fog.graph.utils import component_sizes
    import networkx as nx
    s = rng.choice(SENTENCES)
    w = gen.string(rng, rng.randint(2, 8), 'abcdef')
    seed = gen.seed(rng)
    tokens = [''.join(rng.choice('abcde') for _ in range(3)) for _ in range(rng.randint(0, 8))]
    words = t.WordTokenizer(lower=rng.random() < 0.5, stoplist=['the'] if rng.random() < 0.5 else None)
    fingers = t.FingerprintTokenizer(squeeze=rng.random() < 0.5)
    signatures = rng.choice([l.MinHash(h=6, seed=seed), l.SuperMinHash(h=6), l.LSBMinHash(precision=1, seed=seed), l.MinHash(h=6, seed=seed, use_numpy=True)])
    v = vector(rng)
    clusters = [[1, 3], [0, 2]]
    labels = {x: rng.randrange(3) for x in 'abcdef'}
    g = nx.Graph()
    for i in range(4):
        g.add_node('p%d' % i, bipartite='people', n=i)
        g.add_node('c%d' % i, bipartite='color')
    for _ in range(10):
        g.add_edge('p%d' % rng.randrange(4), 'c%d' % rng.randrange(4), weight=rng.randint(1, 4))
    name, items, f, kept = clusterer(rng)
    while name in DRAWING:
        name, items, f, kept = clusterer(rng)
    if rng.random() < 0.4:
        return name, [items] + kept, (lambda: f(items),)
    return rng.choice([
        ('WordTokenizer', [], lambda: list(words(s))), ('FingerprintTokenizer', [], lambda: fingers(s)), ('create_signature', [tokens], lambda: signatures.create_signature(tokens)),
        ('ngrams', [tokens], lambda: list(t.ngrams(2, tuple(tokens)))), ('ngram_keys', [], lambda: k.ngram_keys(2, w)), ('levenshtein_1d_keys', [], lambda: k.levenshtein_1d_keys(w)),
        ('damerau_levenshtein_1d_keys', [], lambda: k.damerau_levenshtein_1d_keys(w)), ('levenshtein_1d_blocks', [], lambda: k.levenshtein_1d_blocks(w)),
        ('levenshtein_2d_blocks', [], lambda: k.levenshtein_2d_blocks(w)), ('sparse_normalize', [v], lambda: m.sparse_normalize(v)),
        ('labels_to_clusters', [labels], lambda: e.labels_to_clusters(labels)), ('clusters_to_labels', [clusters], lambda: e.clusters_to_labels(clusters)),
        ('monopartite_projection', [g], lambda: monopartite_projection(g, 'people')), ('component_sizes', [g], lambda: component_sizes(g))
    ])


def aliasing(ctx):
    """Whatever a caller does with a result, the next one is the same."""
    rng = ctx.rng
    for _ in range(4):
        name, arguments, call = owned(rng)
        stream = None
        if isinstance(call, tuple):
            stream = call[0]
            call = lambda stream=stream: [list(x) for x in stream()]
        ok, first = ctx.call(name, call)
        if not ok:
            continue
        if not isinstance(first, (str, int, float)) and hasattr(first, '__next__'):
            first = list(first)
            inner = call
            call = lambda: list(inner())
        want = loose(first)
        before = [freeze(x) for x in arguments]
        if stream is not None:
            # Each spoiled as soon as it is received
            got = []
            for x in stream():
                got.append(list(x))
                scramble(x)
            if loose(got) != want:
                ctx.fail('changing a cluster found by %s changes the next ones' % name, {'arguments': arguments, 'expected': want, 'got': loose(got)})
                continue
            ctx.count('clusters_spoiled_on_the_way')
        # Several results are held, and one spoiled
        held_result = call()
        scramble(first)
        if loose(held_result) != want:
            ctx.fail('results of %s are not independent' % name, {'arguments': arguments, 'expected': want, 'got': loose(held_result)})
        elif before != [freeze(x) for x in arguments]:
            ctx.fail('changing the result of %s changes its arguments' % name, {'before': before, 'after': arguments})
        else:
            scramble(held_result)
            again = call()
            if loose(again) != want:
                ctx.fail('changing the result of %s changes the next ones' % name, {'arguments': arguments, 'expected': want, 'got': loose(again)})
        ctx.count('results_spoiled')
        ctx.count('spoiled_' + name)
        ctx.observe((name, repr(arguments), repr(want)), bool(want))


def loose(x):
    """A structural copy that does not depend on the order of clusters."""
    if isinstance(x, list) and x and all(isinstance(y, list) for y in x):
        return sorted(repr(sorted(map(repr, y))) for y in x)
    return freeze(x)


class Stop(Exception):
    pass


def nested(ctx):
    """Functions called by the functions given to other functions, runs that fail and runs left unfinished."""
    from fog import clustering as c
    rng = ctx.rng
    inner = operation(rng)
    while inner.name in DRAWING:
        inner = operation(rng)
    expected = watched(ctx, inner)
    items = texts(rng, rng.randint(4, 10))
    k = rng.choice([1, 2])
    mode = rng.choice(['connected_components', 'fuzzy_clusters'])
    state = {'left': -1, 'at': -1, 'nested': 0, 'problem': None}

    def step():
        if state['at'] == 0:
            raise Stop()
        state['at'] -= 1
        if state['left'] > 0 and rng_calls() < 0.3:
            state['left'] -= 1
            got = inner.call()
            state['nested'] += 1
            if got != expected and expected is not None:
                state['problem'] = got

    calls = random.Random(rng.random())
    rng_calls = calls.random

    def distance(a, b):
        step()
        return oracle.lev(a, b)

    def key(s):
        step()
        return s[:2]

    def keys(s):
        step()
        return grams(s)

    which = rng.choice(['pairwise', 'leader', 'blocking', 'blocks', 'collision', 'collisions', 'neighborhood', 'adaptive', 'passjoin', 'intersection', 'minhash', 'descent', 'descent_full', 'quickjoin'])
    run = {
        'pairwise': lambda d: c.pairwise(d, mode=mode, distance=distance, radius=k), 'leader': lambda d: c.pairwise_leader(d, distance=distance, radius=k),
        'blocking': lambda d: c.blocking(d, block=key, distance=distance, radius=k, mode=mode), 'blocks': lambda d: c.blocking(d, blocks=keys, distance=distance, radius=k, mode=mode),
        'collision': lambda d: c.key_collision(d, key=key), 'collisions': lambda d: c.key_collision(d, keys=keys, merge=True),
        'neighborhood': lambda d: c.sorted_neighborhood(d, key=key, distance=distance, radius=k, window=3, mode=mode),
        'adaptive': lambda d: c.adaptive_sorted_neighborhood(d, key=key, distance=distance, radius=k), 'passjoin': lambda d: c.passjoin(d, k, distance, mode=mode),
        'intersection': lambda d: c.intersection_index(d, key=keys, radius=0.5), 'minhash': lambda d: c.minhash(d, h=16, key=keys, radius=0.5, seed=3),
        'descent': lambda d: c.nn_descent(d, k, distance=distance, k=3, seed=3), 'descent_full': lambda d: c.nn_descent_full(d, k, distance=distance, k=3, seed=3),
        'quickjoin': lambda d: c.quickjoin(d, distance=distance, radius=k, seed=3, block_size=4, mode=mode)
    }[which]

    ok, plain = ctx.call(which, lambda: groups(run(items)))
    if not ok:
        return
    before = freeze(items)
    for _ in range(3):
        what = rng.choice(['nested', 'failing', 'abandoned'])
        if what == 'nested':
            state['left'] = 6
            ok, got = ctx.call('%s with callbacks using the library' % which, lambda: groups(run(items)))
            state['left'] = -1
            if ok and got != plain:
                ctx.fail('%s gives another result when its functions use the library (%s)' % (which, inner.name), {'items': items, 'expected': plain, 'got': got})
            if state['problem'] is not None:
                ctx.fail('%s gives another result when called by a function given to %s' % (inner.name, which), {'expected': expected, 'got': state['problem']})
                return
            ctx.count('nested_calls', state['nested'])
            state['nested'] = 0
        elif what == 'failing':
            state['at'] = rng.choice([0, 1, 2, 5, 12])
            try:
                groups(run(items))
            except Stop:
                ctx.count('failed_runs')
            except Exception as e:
                ctx.fail('%s raised %s: %s instead of what its function raised' % (which, type(e).__name__, e), {'items': items})
                return
            state['at'] = -1
        else:
            it = iter(run(items))
            for _ in range(rng.choice([1, 1, 2])):
                next(it, None)
            if rng.random() < 0.5:
                it.close()
            ctx.count('abandoned_runs')
        ok, again = ctx.call(which, lambda: groups(run(items)))
        if ok and again != plain:
            ctx.fail('%s gives another result after a %s run' % (which, what), {'items': items, 'expected': plain, 'got': again})
            return
    if freeze(items) != before:
        ctx.fail('%s changed its items' % which, {'items': items})
    ctx.observe((which, inner.name, repr(items)), bool(plain))


def interleaved(ctx):
    """Several results of the same function, consumed a bit each in turn."""
    rng = ctx.rng
    from fog import tokenizers as t, key as k, lsh
    kind = rng.choice(['words', 'ngrams', 'clusterer', 'clusterer', 'ngram_keys', 'fingerprint'])
    makers = []
    if kind == 'words':
        tokenizer = rng.choice([t.words_tokenizer, t.WordTokenizer(lower=True), t.WordTokenizer(split_hashtags=True, stoplist=['the'])])
        for _ in range(3):
            s = rng.choice(SENTENCES)
            makers.append(lambda s=s: tokenizer(s))
    elif kind == 'ngrams':
        for _ in range(3):
            s = rng.choice(SENTENCES)
            makers.append(lambda s=s: t.ngrams(2, s))
    elif kind == 'ngram_keys':
        for _ in range(3):
            s = gen.string(rng, rng.randint(2, 9), 'abcdef')
            makers.append(lambda s=s: k.ngram_keys(2, s))
    elif kind == 'fingerprint':
        tokenizer = t.FingerprintTokenizer(stopwords=['the'])
        for _ in range(3):
            s = rng.choice(SENTENCES)
            makers.append(lambda s=s: tokenizer(s))
    else:
        name, items, f, kept = clusterer(rng)
        while name in DRAWING:
            name, items, f, kept = clusterer(rng)
        for _ in range(3):
            d = rng.sample(items, len(items))
            makers.append(lambda d=d: f(d))
        kind = name

    alone = [list(m()) for m in makers]
    live = [iter(m()) for m in makers]
    got = [[] for _ in makers]
    active = list(range(len(makers)))
    while active:
        i = rng.choice(active)
        try:
            got[i].append(next(live[i]))
        except StopIteration:
            active.remove(i)
    if [sorted(map(repr, x)) for x in got] != [sorted(map(repr, x)) for x in alone]:
        ctx.fail('%s gives other results when several calls are consumed in turn' % kind, {'alone': alone, 'interleaved': got})
    ctx.count('interleaved')
    ctx.observe((kind, repr(alone)), any(alone))


def iterables(ctx):
    """The same items, given in many ways."""
    rng = ctx.rng
    name, items, f, kept = clusterer(rng)
    ids = {id(x): i for i, x in enumerate(items)}
    unique = len(set(items)) == len(items)
    kinds = OrderedDict([
        ('list', lambda: list(items)), ('tuple', lambda: tuple(items)), ('deque', lambda: deque(items)), ('iterator', lambda: iter(items)),
        ('generator', lambda: (x for x in items)), ('map', lambda: map(lambda x: x, items)), ('reiterable', lambda: gen.Reiterable(items))
    ])
    if unique:
        kinds['dictionary'] = lambda: dict.fromkeys(items)
        kinds['keys'] = lambda: dict.fromkeys(items).keys()
        kinds['values'] = lambda: dict(enumerate(items)).values()
    reference = None
    for kind, make in kinds.items():
        data = make()
        before = freeze(data) if kind in ('list', 'tuple', 'deque', 'reiterable', 'dictionary') else None
        states = generators()
        ok, clusters = ctx.call('%s on a %s' % (name, kind), lambda: [list(c) for c in f(data)])
        if not ok:
            return
        if disturbed(ctx, name, states, lambda: list(f(list(items)))):
            ctx.fail('%s used or reseeded a global random generator' % name, {'items': items})
        if before is not None and freeze(data) != before:
            ctx.fail('%s changed its %s' % (name, kind), {'before': before, 'after': freeze(data)})
        result = groups(clusters)
        if reference is None:
            reference = result
        elif result != reference:
            ctx.fail('%s does not give the same clusters for a %s as for a list' % (name, kind), {'items': items, 'list': reference, kind: result})
            return
        if not name.startswith(('ppjoin', 'all_pairs')):
            for c in clusters:
                for x in c:
                    if id(x) not in ids:
                        ctx.fail('%s yields members that are not the items given' % name, {'items': items, 'member': x, 'type': type(x).__name__})
                        return
                    ctx.count('members_identified')
        if kind in ('iterator', 'generator', 'map'):
            ctx.count('one_shot_runs')
        elif rng.random() < 0.3:
            # The same object again
            ok, clusters = ctx.call('%s on a %s' % (name, kind), lambda: [list(c) for c in f(data)])
            if ok and groups(clusters) != reference:
                ctx.fail('%s gives other clusters when given the same %s again' % (name, kind), {'items': items, 'first': reference, 'second': groups(clusters)})
            ctx.count('second_runs')
        ctx.count('iterable_kinds')
    ctx.count('it_' + name)
    ctx.observe((name, repr(items)), bool(reference))


def large_data(ctx):
    """Hundreds of items or more: the same demands, with a distance that costs nothing."""
    from Levenshtein import distance
    rng = ctx.rng
    n = rng.choice([130, 260, 260, 300, 300, 520, 600, 1030])
    name, items, f, kept = clusterer(rng, n, distance, CLUSTERERS[ctx.index % len(CLUSTERERS)])
    data = rng.choice([list, list, deque])(rng.sample(items, len(items)))
    op = Op(name, [data] + kept, lambda: groups(f(data)))
    first = watched(ctx, op)
    if first is None:
        return
    again = watched(ctx, op)
    if again is not None and again != first:
        ctx.fail('%s gives another result when called again' % name, {'items': data, 'first': first[:20], 'again': again[:20]})
    ok, other = ctx.call(name, lambda: groups(f(x for x in data)))
    if ok and other != first:
        ctx.fail('%s does not give the same clusters for a generator as for a list' % name, {'items': data, 'list': first[:20], 'generator': other[:20]})
    ctx.count('large_data')
    ctx.count('large_' + name)
    ctx.observe((name, n, repr(items)), bool(first))


def large_operations(ctx):
    """Functions that are not clusterers, on large arguments."""
    from fog import evaluation as e, lsh as l, metrics as m, tokenizers as t
    from fog.join import hashjoin
    rng = ctx.rng
    n = rng.choice([130, 260, 520, 1030, 2100])
    pool = ['t%d' % i for i in range(2 * n)]
    a, b = [rng.choice(pool) for _ in range(n)], [rng.choice(pool) for _ in range(n)]
    va, vb = {x: rng.choice([1, 2, 0.5]) for x in a}, {x: rng.choice([1, 2, 0.5]) for x in b}
    truth, predicted = [a[i:i + 5] for i in range(0, n, 5)], [b[i:i + 7] for i in range(0, n, 7)]
    shuffled = rng.sample(range(n), n)
    truth = [shuffled[i:i + 5] for i in range(0, n, 5)]
    predicted = [sorted(shuffled)[i:i + 7] for i in range(0, n, 7)]
    labels = [rng.randrange(n) for _ in range(n)]
    seed = gen.seed(rng)
    sets = set(a), frozenset(b)
    ops = [
        Op('jaccard_similarity', [a, b], lambda: m.jaccard_similarity(a, b)), Op('jaccard_similarity', list(sets), lambda: m.jaccard_similarity(*sets)),
        Op('dice_coefficient', [a, b], lambda: m.dice_coefficient(a, b)), Op('dice_coefficient', list(sets), lambda: m.dice_coefficient(*sets)),
        Op('overlap_coefficient', [a, b], lambda: m.overlap_coefficient(a, b)), Op('overlap_coefficient', list(sets), lambda: m.overlap_coefficient(*sets)),
        Op('cosine_similarity', [a, b], lambda: m.cosine_similarity(a, b)), Op('sparse_cosine_similarity', [va, vb], lambda: m.sparse_cosine_similarity(va, vb)),
        Op('sparse_dot_product', [va, vb], lambda: m.sparse_dot_product(va, vb)), Op('weighted_jaccard_similarity', [va, vb], lambda: m.weighted_jaccard_similarity(va, vb)),
        Op('sparse_normalize', [va], lambda: freeze(m.sparse_normalize(va))), Op('minhash', [a], lambda: freeze(l.MinHash(h=8, seed=seed).create_signature(a))),
        Op('minhash_numpy', [a], lambda: freeze(l.MinHash(h=8, seed=seed, use_numpy=True).create_signature(a))), Op('super', [a], lambda: freeze(l.SuperMinHash(h=8).create_signature(a))),
        Op('lsb', [a], lambda: freeze(l.LSBMinHash(precision=1, seed=seed).create_signature(a))), Op('simhash', [a], lambda: l.simhash(a, f=64)),
        Op('ngrams', [a], lambda: freeze(list(t.ngrams(3, a)))), Op('hashjoin', [a, b], lambda: sorted(map(repr, hashjoin(a, b, key=lambda x: x)))),
        Op('best_matching', [truth, predicted], lambda: e.best_matching_macro_average(truth, predicted)), Op('labels', [labels], lambda: freeze(e.labels_to_clusters(labels))),
        Op('clusters', [truth], lambda: freeze(e.clusters_to_labels(truth, flat=True)))
    ]
    ops = rng.sample(ops, 8)
    first = [watched(ctx, op) for op in ops]
    for op, x in zip(ops, first):
        again = watched(ctx, op)
        if again != x and x is not None and again is not None:
            ctx.fail('%s gives another result when called again after other functions' % op.name, {'size': n, 'first': x, 'again': again})
        ctx.count('large_operations')
    ctx.observe((n, repr(a), [op.name for op in ops]))


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('histories', histories, 500 * k), ('threads', threads, 150 * k), ('schedules', schedules, 300 * k), ('interleaved', interleaved, 400 * k), ('aliasing', aliasing, 300 * k), ('nested', nested, 400 * k), ('iterables', iterables, 700 * k), ('large_data', large_data, 50 * k), ('large_operations', large_operations, 20 * k)]
