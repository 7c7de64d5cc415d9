from collections import UserList, deque
import math
from collections import deque
from fractions import Fraction

from vf import gen
from vf.core import enlarged

FILES = ['fog/evaluation/best_matching.py', 'fog/evaluation/utils.py', 'fog/utils.py']
RULE = ('A case is a truth partition and a predicted one, scored in several orders, or a pair that must be refused, or a partition or labels '
        'to convert. Non-trivial: at least two items.')
ASSUMPTIONS = ['scores are compared within 1e-9', 'among predicted clusters having the same F1, any may give the precision and recall',
               'clusterings are collections having a length, as documented by the code; items are hashable']
REQUIRED = ['many_clusters', 'spread_clusters', 'enlarged_cases', 'scored', 'shuffled', 'perfect', 'with_additional', 'ignored_additional', 'tied_candidates', 'refused_empty_truth', 'refused_empty_predicted', 'refused_empty_truth_cluster',
            'refused_empty_predicted_cluster', 'refused_overlap', 'refused_missing', 'refused_additional', 'roundtrips', 'from_mapping', 'from_sequence', 'from_pairs', 'flat_labels', 'keyed_labels']


def items_of(rng, n):
    kind = rng.choice(['int', 'str', 'tuple', 'mixed', 'frozen'])
    f = {'int': lambda i: i, 'str': lambda i: 'i%d' % i, 'tuple': lambda i: ('x', i), 'frozen': lambda i: frozenset([i]),
         'mixed': lambda i: [i, 'i%d' % i, ('x', i), None if i == 3 else -i - 1][i % 4]}[kind]
    return [f(i) for i in range(n)]


def partition(rng, items):
    items = list(items)
    rng.shuffle(items)
    style = rng.choice(['random', 'random', 'singletons', 'one', 'big'])
    if style == 'singletons':
        return [[x] for x in items]
    if style == 'one':
        return [items] if items else []
    k = rng.choice([rng.randint(1, max(1, len(items))), rng.randint(1, 4)]) if style == 'random' else 2
    buckets = {}
    for x in items:
        buckets.setdefault(rng.randrange(k), []).append(x)
    return list(buckets.values())


def perturb(rng, clusters):
    clusters = [list(c) for c in clusters]
    for _ in range(rng.choice([1, 2, 4])):
        r = rng.random()
        if r < 0.4 and len(clusters) > 1:
            a, b = rng.sample(range(len(clusters)), 2)
            x = clusters[a].pop(rng.randrange(len(clusters[a])))
            clusters[b].append(x)
        elif r < 0.7 and len(clusters) > 1:
            a, b = rng.sample(range(len(clusters)), 2)
            clusters[a] += clusters[b]
            clusters[b] = []
        else:
            a = rng.randrange(len(clusters))
            if len(clusters[a]) > 1:
                p = rng.randint(1, len(clusters[a]) - 1)
                clusters.append(clusters[a][p:])
                clusters[a] = clusters[a][:p]
        clusters = [c for c in clusters if c]
    return clusters


def as_kind(rng, clusters):
    inner = rng.choice([list, tuple, set, frozenset])
    outer = rng.choice([list, tuple, deque])
    return outer(inner(c) for c in clusters)


def reference(truth, predicted):
    """Exact F1, and the range of precision and recall over tied candidates."""
    known = set(x for c in truth for x in c)
    predicted = [set(x for x in c if x in known) for c in predicted]
    f = Fraction(0)
    lo = [Fraction(0), Fraction(0)]
    hi = [Fraction(0), Fraction(0)]
    tied = False
    for c in truth:
        c = set(c)
        best = None
        pool = []
        for p in predicted:
            tp = len(c & p)
            if not tp:
                continue
            pr, rc = Fraction(tp, len(p)), Fraction(tp, len(c))
            f1 = 2 * pr * rc / (pr + rc)
            if best is None or f1 > best:
                best, pool = f1, []
            if f1 == best:
                pool.append((pr, rc))
        tied = tied or len(set(pool)) > 1
        f += best
        for i in (0, 1):
            lo[i] += min(x[i] for x in pool)
            hi[i] += max(x[i] for x in pool)
    n = len(truth)
    return f / n, [x / n for x in lo], [x / n for x in hi], tied


def score(ctx):
    from fog.evaluation import best_matching_macro_average
    rng = ctx.rng

    for _ in range(6):
        n = ctx.near(rng.choice([1, 2, 3, 5, 8, 15, 40]), 150, 0.06, 1)
        items = list(dict.fromkeys(items_of(rng, n)))
        truth = partition(rng, items)
        predicted = perturb(rng, truth) if rng.random() < 0.6 else partition(rng, items)
        if rng.random() < 0.04 or (ctx.enlarge and rng.random() < 0.4):
            # Clusters spread over many, of almost the same size
            n = max(n, rng.choice([4, 12, 34, 70, 132, 260]))
            items = list(dict.fromkeys(items_of(rng, n)))
            width = rng.choice([2, 2, 3])
            rows = [items[i:i + width] for i in range(0, len(items), width)]
            truth = [c for c in ([r[i] for r in rows if len(r) > i] for i in range(width)) if c]
            predicted = [list(r) for r in rows]
            for r in rng.sample(predicted, rng.randint(0, min(3, len(predicted)))):
                if len(r) > 1:
                    predicted.append([r.pop()])
            rng.shuffle(predicted)
            ctx.count('spread_clusters')
        if rng.random() < 0.15:
            predicted = [list(c) for c in truth]
            rng.shuffle(predicted)
        kw = {}
        additional = rng.random() < 0.35
        plain = predicted
        if additional:
            kw['allow_additional_items'] = True
            predicted = [list(c) for c in predicted]
            for i in range(rng.choice([0, 1, 3, 8])):
                # Ignored, even in several clusters
                for cluster in rng.sample(predicted, min(len(predicted), rng.choice([1, 1, 1, 2, 3]))):
                    cluster.append(('additional', i))
                ctx.count('ignored_additional')
            if rng.random() < 0.4:
                predicted.append([('more', 0), ('more', 1)])
                rng.shuffle(predicted)
            ctx.count('with_additional')
        elif rng.random() < 0.2:
            kw['allow_additional_items'] = False

        f, lo, hi, tied = reference(truth, predicted)
        witness = {'truth': truth, 'predicted': predicted, 'options': kw, 'expected': [[float(x) for x in lo], [float(x) for x in hi], float(f)]}
        ok, got = ctx.call('best_matching_macro_average', best_matching_macro_average, as_kind(rng, truth), as_kind(rng, predicted), **kw)
        if not ok:
            continue
        p, r, g = got
        if abs(g - f) > 1e-9:
            ctx.fail('the F1 score is wrong', dict(witness, got=got))
        elif not (lo[0] - Fraction(1, 10**9) <= p <= hi[0] + Fraction(1, 10**9)) or not (lo[1] - Fraction(1, 10**9) <= r <= hi[1] + Fraction(1, 10**9)):
            ctx.fail('the precision or recall is wrong', dict(witness, got=got))
        if set(map(frozenset, truth)) == set(map(frozenset, plain)):
            if not all(math.isclose(x, 1.0) for x in got):
                ctx.fail('a perfect match does not score 1', dict(witness, got=got))
            ctx.count('perfect')

        # Other orders
        for _ in range(2):
            t2 = [rng.sample(c, len(c)) for c in truth]
            p2 = [rng.sample(c, len(c)) for c in predicted]
            rng.shuffle(t2)
            rng.shuffle(p2)
            ok, other = ctx.call('best_matching_macro_average', best_matching_macro_average, t2, p2, **kw)
            if ok and not all(math.isclose(a, b, rel_tol=1e-9) for a, b in zip(got, other)):
                ctx.fail('the scores depend on the order of clusters or items', dict(witness, one=got, other=other, truth2=t2, predicted2=p2))
            ctx.count('shuffled')
        if tied:
            ctx.count('tied_candidates')
        ctx.count('scored')
        ctx.observe((truth, predicted, kw), n > 1)


def refused(ctx):
    from fog.evaluation import best_matching_macro_average
    rng = ctx.rng

    for _ in range(8):
        items = list(dict.fromkeys(items_of(rng, rng.choice([1, 2, 5, 12]))))
        truth = partition(rng, items)
        predicted = partition(rng, items)
        kind = rng.choice(['empty_truth', 'empty_predicted', 'empty_truth_cluster', 'empty_predicted_cluster', 'overlap', 'missing', 'additional'])
        kw = {'allow_additional_items': True} if rng.random() < 0.3 and kind != 'additional' else {}
        at = rng.random()
        if kind == 'empty_truth':
            truth = []
        elif kind == 'empty_predicted':
            predicted = []
        elif kind == 'empty_truth_cluster':
            truth.insert(int(at * (len(truth) + 1)), [])
        elif kind == 'empty_predicted_cluster':
            predicted.insert(int(at * (len(predicted) + 1)), [])
        elif kind == 'overlap':
            predicted.insert(int(at * (len(predicted) + 1)), [rng.choice(items)])
        elif kind == 'missing':
            truth = [list(c) for c in truth]
            if rng.random() < 0.5:
                rng.choice(truth).append('lonely')
            else:
                truth.insert(int(at * (len(truth) + 1)), ['lonely'])
        else:
            predicted = [list(c) for c in predicted]
            if rng.random() < 0.5:
                rng.choice(predicted).append('intruder')
            else:
                predicted.insert(int(at * (len(predicted) + 1)), ['intruder'])
        try:
            got = best_matching_macro_average(truth, predicted, **kw)
        except TypeError:
            pass
        except Exception as e:
            ctx.fail('an impossible comparison raised %s instead of TypeError' % type(e).__name__, {'kind': kind, 'truth': truth, 'predicted': predicted, 'options': kw, 'error': str(e)})
        else:
            ctx.fail('an impossible comparison was scored', {'kind': kind, 'truth': truth, 'predicted': predicted, 'options': kw, 'got': got})
        ctx.count('refused_' + kind)
        ctx.observe((kind, truth, predicted), len(items) > 1)


def same(a, b):
    return sorted(sorted(map(repr, c)) for c in a) == sorted(sorted(map(repr, c)) for c in b)


def conversions(ctx):
    from fog.evaluation import labels_to_clusters, clusters_to_labels
    rng = ctx.rng

    for _ in range(8):
        n = ctx.near(rng.choice([0, 1, 2, 5, 12, 40]), 300, 0.06)
        items = list(dict.fromkeys(items_of(rng, n)))
        clusters = partition(rng, items)
        witness = {'clusters': clusters}
        given = [list(c) for c in clusters]
        while rng.random() < 0.2:
            given.insert(rng.randint(0, len(given)), [])
        ok, labels = ctx.call('clusters_to_labels', clusters_to_labels, as_kind(rng, given))
        if ok:
            if set(labels) != set(items):
                ctx.fail('the labels are not those of the items', dict(witness, labels=labels))
            elif len(set(labels.values())) != len(clusters) or any(len({labels[x] for x in c}) > 1 for c in clusters):
                ctx.fail('labels do not tell clusters apart', dict(witness, labels=labels))
            else:
                ok, back = ctx.call('labels_to_clusters', labels_to_clusters, labels)
                if ok and not same(back, clusters):
                    ctx.fail('converting to labels and back changes the partition', dict(witness, labels=labels, back=back))
            ctx.count('roundtrips')

        # Keyed
        ok, labels = ctx.call('clusters_to_labels', clusters_to_labels, clusters, key=lambda x: ('key', x))
        if ok and not same(labels_to_clusters(labels), [[('key', x) for x in c] for c in clusters]):
            ctx.fail('labels of keys are wrong', dict(witness, labels=labels))
        ctx.count('keyed_labels')

        # Flat labels
        numbers = partition(rng, range(n))
        given = [list(c) for c in numbers]
        while rng.random() < 0.2:
            given.insert(rng.randint(0, len(given)), [])
        ok, flat = ctx.call('clusters_to_labels', clusters_to_labels, given, flat=True)
        if ok:
            if len(flat) != n:
                ctx.fail('flat labels are not as many as items', {'clusters': numbers, 'labels': flat})
            else:
                ok, back = ctx.call('labels_to_clusters', labels_to_clusters, flat)
                if ok and not same(back, numbers):
                    ctx.fail('converting to flat labels and back changes the partition', {'clusters': numbers, 'labels': flat, 'back': back})
            if rng.random() < 0.5:
                ok, flat = ctx.call('clusters_to_labels', clusters_to_labels, [['item%d' % x for x in c] for c in numbers], flat=True, key=lambda x: int(x[4:]))
                if ok and not same(labels_to_clusters(flat), numbers):
                    ctx.fail('flat labels of keys are wrong', {'clusters': numbers, 'labels': flat})
        ctx.count('flat_labels')

        # Labels of any kind
        pool = rng.choice([gen.lookalikes(rng), [0, 1, 2], ['a', 'b', ''], [None, 'x', 0], [('t',), -1, 3.5], [0, -1]])
        values = [rng.choice(pool) for _ in items]
        expected = {}
        for x, l in zip(items, values):
            expected.setdefault(l, []).append(x)
        kind = rng.choice(['mapping', 'pairs', 'sequence'])
        if kind == 'mapping':
            source = dict(zip(items, values))
        elif kind == 'pairs':
            source = iter(list(zip(items, values))) if rng.random() < 0.5 else zip(items, values)
        else:
            if rng.random() < 0.2:
                values = [rng.choice('ab c') for _ in items]
                source = ''.join(values)
            elif rng.random() < 0.1:
                values = range(len(items))
                source = values
            else:
                source = rng.choice([list, tuple, UserList, deque])(values)
            expected = {}
            for i, l in enumerate(values):
                expected.setdefault(l, []).append(i)
        ok, got = ctx.call('labels_to_clusters', labels_to_clusters, source)
        if ok and not same(got, expected.values()):
            ctx.fail('clusters are not the items of each label', {'kind': kind, 'items': items, 'labels': values, 'got': got})
        ctx.count('from_' + kind)
        ctx.observe((clusters, values, kind), n > 1)


def many_clusters(ctx):
    """Tens of thousands of clusters."""
    from fog.evaluation import best_matching_macro_average, labels_to_clusters, clusters_to_labels
    rng = ctx.rng
    m = rng.choice([5000, 33000, 40000, 66000, 70000])
    n = m + rng.randint(0, m // 2)
    items = rng.sample(range(n), n)
    clusters = [[x] for x in items[:m]]
    for x in items[m:]:
        rng.choice(clusters[:50] if rng.random() < 0.5 else clusters).append(x)
    witness = {'clusters': m, 'items': n, 'first': clusters[:20]}
    what = {x: i for i, c in enumerate(clusters) for x in c}

    def bijective(labels):
        there, back = {}, {}
        for x, l in labels:
            if there.setdefault(what[x], l) != l or back.setdefault(l, what[x]) != what[x]:
                return False
        return True

    ok, labels = ctx.call('clusters_to_labels', clusters_to_labels, clusters)
    if ok and (len(labels) != n or not bijective(labels.items())):
        ctx.fail('labels do not tell clusters apart', witness)
    ok, flat = ctx.call('clusters_to_labels', clusters_to_labels, clusters, flat=True)
    if ok and (len(flat) != n or not bijective(enumerate(flat))):
        ctx.fail('flat labels do not tell clusters apart', witness)
    elif ok:
        ok, back = ctx.call('labels_to_clusters', labels_to_clusters, flat)
        if ok and sorted(map(sorted, back)) != sorted(map(sorted, clusters)):
            ctx.fail('converting to flat labels and back changes the partition', witness)
    shuffled = [rng.sample(c, len(c)) for c in rng.sample(clusters, m)]
    ok, got = ctx.call('best_matching_macro_average', best_matching_macro_average, clusters, shuffled)
    if ok and not all(abs(x - 1) < 1e-9 for x in got):
        ctx.fail('a partition does not match itself', dict(witness, got=got))
    # Two clusters in one: their truth has half precision or so
    a, b = clusters[0], clusters[1]
    joined = [a + b] + clusters[2:]
    precision = (len(a) / (len(a) + len(b)) + len(b) / (len(a) + len(b)) + m - 2) / m
    f1 = (2 * len(a) / (2 * len(a) + len(b)) + 2 * len(b) / (2 * len(b) + len(a)) + m - 2) / m
    ok, got = ctx.call('best_matching_macro_average', best_matching_macro_average, clusters, rng.sample(joined, m - 1))
    if ok and (abs(got[0] - precision) > 1e-9 or abs(got[1] - 1) > 1e-9 or abs(got[2] - f1) > 1e-9):
        ctx.fail('the scores are not those of the best matching clusters', dict(witness, got=got, expected=(precision, 1.0, f1)))
    ctx.count('many_clusters')
    ctx.observe((m, n, tuple(items[:50])))


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('score', score, 1200 * k), ('refused', refused, 300 * k), ('conversions', conversions, 500 * k),
            ('score_large', enlarged(score, 1100), 8 * k), ('conversions_large', enlarged(conversions, 2100), 8 * k), ('many_clusters', many_clusters, 3 * k)]
