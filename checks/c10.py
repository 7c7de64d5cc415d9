import binascii
import random
from collections import Counter
from fractions import Fraction
from math import isqrt

from vf import gen, oracle
from vf.core import enlarged

FILES = ['fog/clustering/ppjoin.py', 'fog/lsh/utils.py']
RULE = ('A case is a collection of records (token lists, sets, strings), a threshold, a metric, a variant, a token ordering and a tokenizer or '
        'none; the oracle compares every pair with exact fractions. Non-trivial: at least one pair reaching the threshold. Pairs closer than '
        '2e-6 to the threshold without reaching it are outside the property (the code allows itself 1e-6).')
ASSUMPTIONS = ['tokens of a collection are strings or otherwise comparable with one another', 'no two tokens have the same CRC32']
REQUIRED = ['colossal_cases', 'giant_cases', 'close_checksums', 'alike_items', 'unhashable_items', 'enlarged_cases', 'jaccard_cases', 'dice_cases', 'binary_cosine_cases', 'all_pairs_cases', 'ppjoin_cases', 'ppjoin_plus_cases', 'pairs_within',
            'pairs_at_threshold', 'ordering_freq', 'ordering_crc32', 'ordering_None', 'tokenizer_cases', 'empty_records', 'repeated_records',
            'repeated_tokens', 'long_records', 'pairs_just_under']

BAND = Fraction(2, 10 ** 6)


def verdict(metric, a, b, threshold):
    """True, False, or None when under the threshold by less than the band."""
    if not a or not b:
        return False

    inter = len(a & b)
    t = Fraction(threshold)

    if metric == 'jaccard':
        s = Fraction(inter, len(a | b))
    elif metric == 'dice':
        s = Fraction(2 * inter, len(a) + len(b))
    else:
        # inter / sqrt(la * lb) >= t, decided on squares
        la, lb = len(a), len(b)
        square = Fraction(inter * inter, la * lb)
        if square >= t * t:
            return True
        return None if square >= max(Fraction(0), t - BAND) ** 2 else False

    if s >= t:
        return True

    return None if s >= t - BAND else False


def thresholds(rng, metric):
    r = rng.random()

    if r < 0.45:
        # Exactly reachable ones
        q = rng.randint(1, 12)
        return Fraction(rng.randint(1, q), q)
    if r < 0.6:
        return Fraction(rng.choice([1, 1, 2, 3, 5, 7]), rng.choice([8, 16]))
    if r < 0.9:
        return rng.choice([0.1, 0.2, 0.25, 0.3, 0.4, 0.5, 0.6, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95, 1.0])

    return round(rng.uniform(0.02, 1.0), 3)


def record_set(rng, n, letters, size):
    records = []

    for _ in range(n):
        r = rng.random()

        if records and r < 0.6:
            base = list(rng.choice(records))
            for _ in range(rng.randint(0, 3)):
                q = rng.random()
                if q < 0.4 and base:
                    base.pop(rng.randrange(len(base)))
                elif q < 0.8:
                    base.append(rng.choice(letters))
                elif base:
                    base[rng.randrange(len(base))] = rng.choice(letters)
        elif r < 0.65:
            base = []
        else:
            base = [rng.choice(letters) for _ in range(rng.randint(0, size))]

        records.append(base)

    return records


def run(ctx, tokens, threshold, metric, witness_kind):
    from fog.clustering import ppjoin, all_pairs, ppjoin_plus
    rng = ctx.rng
    n = len(tokens)
    sets = [frozenset(t) for t in tokens]
    t = float(threshold)
    expected = {}
    ignored = set()

    # A threshold such as 2/3 is the nearest float; it is exactly reached in the sense of the
    # rounding of the division, hence the reading of the threshold as what was meant.
    meant = threshold if isinstance(threshold, Fraction) else Fraction(str(threshold))

    for i in range(n):
        for j in range(i + 1, n):
            v = verdict(metric, sets[i], sets[j], meant)
            if v:
                expected[(i, j)] = 1
                if verdict(metric, sets[i], sets[j], meant + Fraction(1, 10 ** 9)) is not True:
                    ctx.count('pairs_at_threshold')
            elif v is None:
                ignored.add((i, j))
            elif verdict(metric, sets[i], sets[j], max(Fraction(1, 1000), meant - Fraction(1, 20))):
                ctx.count('pairs_just_under')

    ctx.count('pairs_within', len(expected))

    if any(not s for s in sets):
        ctx.count('empty_records')
    if len(set(map(tuple, tokens))) < n:
        ctx.count('repeated_records')
    if any(len(s) < len(x) for s, x in zip(sets, tokens)):
        ctx.count('repeated_tokens')

    comparable = all(isinstance(x, str) for s in sets for x in s)
    variants = [('all_pairs', all_pairs), ('ppjoin', ppjoin), ('ppjoin_plus', ppjoin_plus)]

    for name, f in variants:
        ordering = rng.choice(['freq', 'freq', None, 'default'] + (['crc32', 'crc32'] if comparable else []))
        args = {} if ordering == 'default' else {'token_ordering': ordering}

        if metric != 'jaccard' or rng.random() < 0.5:
            args['metric'] = metric

        if rng.random() < 0.35:
            # Records only known by their identity
            records = gen.items(rng, n, ctx)
            kind = rng.choice(['list', 'generator', 'set', 'tuple'])
            make = {'list': list, 'generator': iter, 'set': set, 'tuple': tuple}[kind]
            args['tokenizer'] = lambda x, make=make: make(tokens[x.index])
            ctx.count('tokenizer_cases')
        else:
            make = rng.choice([list, tuple, set, list])
            if comparable and all(len(x) == 1 for s in sets for x in s) and rng.random() < 0.5:
                make = ''.join
            records = [make(x) for x in tokens]

        g = f
        if f is not ppjoin and rng.random() < 0.3:
            g = ppjoin
            args['plus' if f is ppjoin_plus else 'all_pairs'] = True

        witness = {'variant': name, 'metric': metric, 'threshold': str(threshold), 'tokens': tokens,
                   'options': {k: v for k, v in args.items() if k != 'tokenizer'}, 'tokenizer': 'tokenizer' in args}
        ok, pairs = ctx.call(name, lambda: list(g(gen.iterable(rng, records), t, **args)))

        if not ok:
            return

        check(ctx, name, pairs, records, tokens, expected, ignored, witness)
        ctx.count(name + '_cases')
        ctx.count('ordering_' + str('freq' if ordering == 'default' else ordering))

    ctx.count(metric + '_cases')
    ctx.observe((witness_kind, repr(tokens), str(threshold), metric), bool(expected))


def check(ctx, name, pairs, records, tokens, expected, ignored, witness):
    """Pairs are of records: by identity when distinct objects, by value as a multiset otherwise."""
    ids = {}

    for i, r in enumerate(records):
        ids.setdefault(id(r), []).append(i)

    if all(len(v) == 1 for v in ids.values()):
        got = []
        for pair in pairs:
            if len(pair) != 2 or id(pair[0]) not in ids or id(pair[1]) not in ids:
                ctx.fail('%s yielded something that is not a pair of records' % name, dict(witness, pair=pair))
                return
            i, j = ids[id(pair[0])][0], ids[id(pair[1])][0]
            got.append((min(i, j), max(i, j)))

        if len(set(got)) != len(got):
            ctx.fail('%s yielded a pair twice' % name, dict(witness, got=sorted(got)))
        missing = sorted(set(expected) - set(got))
        extra = sorted(set(got) - set(expected) - ignored)
        if missing or extra:
            ctx.fail('%s does not yield exactly the similar pairs' % name, dict(witness, missing=missing, extra=extra))
        return

    if ignored:
        ctx.count('skipped_ambiguous')
        return

    key = lambda a, b: tuple(sorted((repr(a), repr(b))))
    got = sorted(key(*p) for p in pairs)
    want = sorted(key(records[i], records[j]) for i, j in expected)

    if got != want:
        ctx.fail('%s does not yield exactly the similar pairs' % name, dict(witness, got=got, expected=want))


def draw(ctx, n, letters, size):
    rng = ctx.rng
    metric = rng.choice(['jaccard', 'dice', 'binary_cosine'])
    tokens = record_set(rng, n, letters, size)
    run(ctx, tokens, thresholds(rng, metric), metric, 'random')


def small(ctx):
    rng = ctx.rng
    for _ in range(6):
        letters = list(rng.choice(['abc', 'abcdefgh', 'abcdefghijklmnopqrstuvwxyz', 'éab\U00010061z']))
        if rng.random() < 0.3:
            letters = [a + b for a in letters for b in 'xy']
        elif rng.random() < 0.15:
            letters = list(range(10))
        draw(ctx, ctx.near(rng.randint(0, 14), 40), letters, ctx.near(rng.choice([3, 6, 10]), 80))


def many(ctx):
    rng = ctx.rng
    draw(ctx, ctx.near(rng.randint(20, 60), 140, 0.2), list('abcdefghijklmnopqrst'), rng.choice([4, 8, 14]))


def long_records(ctx):
    """Long enough for the suffix filter to go deep."""
    rng = ctx.rng
    n = rng.randint(3, 12)
    letters = ['w%d' % i for i in range(rng.choice([30, 60, 150]))]
    base = [rng.sample(letters, rng.randint(10, min(len(letters), 60))) for _ in range(rng.randint(1, 3))]
    tokens = []

    for _ in range(n):
        b = list(rng.choice(base))
        for _ in range(rng.choice([0, 1, 2, 4, 8, 12])):
            if rng.random() < 0.5 and len(b) > 1:
                b.pop(rng.randrange(len(b)))
            else:
                b.append(rng.choice(letters))
        rng.shuffle(b)
        tokens.append(b)

    metric = rng.choice(['jaccard', 'dice', 'binary_cosine'])

    # Often a threshold that some pair exactly reaches
    if rng.random() < 0.6:
        a, b = set(tokens[0]), set(rng.choice(tokens[1:]))
        inter = len(a & b)
        if metric == 'jaccard':
            threshold = Fraction(inter, len(a | b))
        elif metric == 'dice':
            threshold = Fraction(2 * inter, len(a) + len(b))
        else:
            p = len(a) * len(b)
            threshold = Fraction(inter, isqrt(p)) if isqrt(p) ** 2 == p else Fraction(3, 4)
        if threshold == 0:
            threshold = Fraction(1, 2)
    else:
        threshold = thresholds(rng, metric)

    run(ctx, tokens, threshold, metric, 'long')
    ctx.count('long_records')


def pairs(ctx):
    """Two records alone, at or next to the threshold."""
    rng = ctx.rng
    for _ in range(15):
        metric = rng.choice(['jaccard', 'dice', 'binary_cosine'])
        top = rng.choice([8, 24, 24, 60])
        la, lb = ctx.near(rng.randint(1, top), 200, 0.06, 1), ctx.near(rng.randint(1, top), 200, 0.06, 1)
        inter = rng.randint(1, min(la, lb))
        shared = ['s%02d' % i for i in range(inter)]
        a = shared + ['a%02d' % i for i in range(la - inter)]
        b = shared + ['b%02d' % i for i in range(lb - inter)]
        names = sorted(set(a + b))
        renamed = names[:]
        rng.shuffle(renamed)
        m = dict(zip(names, renamed))
        a, b = [m[x] for x in a], [m[x] for x in b]
        rng.shuffle(a)
        rng.shuffle(b)
        if metric == 'jaccard':
            t = Fraction(inter, la + lb - inter)
        elif metric == 'dice':
            t = Fraction(2 * inter, la + lb)
        else:
            p = la * lb
            t = Fraction(inter, isqrt(p)) if isqrt(p) ** 2 == p else Fraction(rng.randint(1, 9), 10)
        if rng.random() < 0.3:
            t = min(Fraction(1), t + Fraction(1, 1000))
        run(ctx, [a, b], t, metric, 'pair')


def giant(ctx):
    """Many short records, most of them repeated: compared as a multiset of pairs of token sets."""
    from fog.clustering import ppjoin, all_pairs, ppjoin_plus
    rng = ctx.rng
    n = rng.choice([260, 300, 520, 600, 700])
    letters = list('abcdefghijklmnopqrstuvwxyz'[:rng.choice([4, 8, 14])])
    classes = []
    sizes = rng.choice([(1, 3), (1, 6), (2, 9)])
    for _ in range(rng.choice([6, 20, 60])):
        classes.append(frozenset(rng.sample(letters, min(len(letters), rng.randint(*sizes)))))
    # (a token of almost every record)
    hot = rng.choice(letters)
    if rng.random() < 0.6:
        classes = [c | {hot} for c in classes]
    weights = [rng.choice([1, 1, 4, 30]) for _ in classes]
    chosen = rng.choices(classes, weights, k=n) + [frozenset(rng.choice(classes) | {rng.choice(letters)}) for _ in range(rng.randint(0, 5))]
    sizes = Counter(chosen)
    metric = rng.choice(['jaccard', 'dice', 'binary_cosine'])
    threshold = rng.choice([Fraction(9, 10), Fraction(3, 4), Fraction(1), Fraction(2, 3), Fraction(1, 2), Fraction(7, 10)])
    want = Counter()
    names = sorted(sizes, key=sorted)
    for i, a in enumerate(names):
        for b in names[i:]:
            v = verdict(metric, a, b, threshold)
            if v is None:
                return
            if v:
                want[(i, names.index(b))] = sizes[a] * (sizes[a] - 1) // 2 if a == b else sizes[a] * sizes[b]
    want = Counter({k: v for k, v in want.items() if v})
    position = {c: i for i, c in enumerate(names)}
    records = [rng.sample(sorted(c), len(c)) for c in chosen]
    name, f = rng.choice([('all_pairs', all_pairs), ('ppjoin', ppjoin), ('ppjoin_plus', ppjoin_plus)])
    args = {'metric': metric, 'token_ordering': rng.choice(['freq', 'crc32', None, None])}
    ok, pairs = ctx.call(name, lambda: list(f(records, float(threshold), **args)))
    if ok:
        got = Counter(tuple(sorted((position[frozenset(a)], position[frozenset(b)]))) for a, b in pairs)
        if got != want:
            ctx.fail('%s of many records does not yield exactly the similar pairs' % name, {
                'variant': name, 'options': args, 'threshold': str(threshold), 'records': records, 'missing': list((want - got).items())[:5], 'unexpected': list((got - want).items())[:5]})
    ctx.count('giant_cases')
    ctx.observe(repr((records, args, threshold, name)), bool(want))


CLOSE = []


def close_checksums():
    """Couples of tokens whose checksums agree on most bits."""
    if not CLOSE:
        rng = random.Random(7)
        words = ['%012x' % rng.getrandbits(48) for _ in range(120000)]
        sums = [(w, binascii.crc32(w.encode())) for w in words]
        for mask in (0xFF, 0xFFFF, 0xFFFFF, 0xFFFFFF, 0x3FFFFFFF, 0x7FFFFFFF, 0xFFFF0000, 0xFFFFFF00, 0xFFFFFFF0, 0xFFFFFFFE):
            seen = {}
            found = 0
            for t, c in sums:
                other = seen.setdefault(c & mask, (t, c))
                if other[1] != c:
                    CLOSE.append((t, other[0]))
                    found += 1
                    if found == 20:
                        break
    return CLOSE


def checksums(ctx):
    """Records whose tokens have checksums that are almost the same."""
    rng = ctx.rng
    couples = rng.sample(close_checksums(), rng.choice([1, 1, 2, 4]))
    letters = [x for c in couples for x in c]
    shared = rng.sample(letters, rng.randint(0, 2))
    tokens = [[rng.choice(c) for c in couples] + rng.choice([[], shared]) for _ in range(rng.randint(2, 8))]
    run(ctx, tokens, thresholds(rng, 'jaccard'), rng.choice(['jaccard', 'dice', 'binary_cosine']), 'checksums')
    ctx.count('close_checksums')


def huge(ctx):
    """Tens of thousands of records, few of them having a token of another."""
    from fog.clustering import ppjoin, all_pairs, ppjoin_plus
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)
    owner = {i: g[0] for g in groups for i in g}
    records = [(i, ['t%d' % owner.get(i, i)]) for i in range(n)]
    name, f = rng.choice([('all_pairs', all_pairs), ('ppjoin', ppjoin), ('ppjoin_plus', ppjoin_plus)])
    ok, pairs = ctx.call(name, lambda: list(f(records, 0.8, tokenizer=lambda r: r[1])))
    if ok:
        expected = [[a, b] for g in groups for x, a in enumerate(g) for b in g[x + 1:]]
        colossal.check(ctx, name, [[a[0], b[0]] for a, b in pairs], expected, {'n': n})
    ctx.observe((n, repr(groups), name), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('small', small, 700 * k),
        ('pairs', pairs, 500 * k),
        ('many', many, 60 * k),
        ('long', long_records, 400 * k),
        ('many_large', enlarged(many, 600), 8 * k),
        ('pairs_large', enlarged(pairs, 1100), 12 * k),
        ('giant', giant, 16 * k),
        ('checksums', checksums, 120 * k),
        ('small_large', enlarged(small, 130), 16 * k),
        ('huge', huge, 2 * k)
    ]
