import math
from itertools import combinations, groupby
from statistics import StatisticsError

from vf import gen
from vf.core import enlarged

FILES = ['fog/tokenizers/ngrams.py', 'fog/key/misc.py', 'fog/utils.py']
RULE = ('A case is a sequence and a gram size, a string to squeeze, or a history of operations on running means. Non-trivial: the sequence is '
        'not empty or the history is of at least two operations.')
ASSUMPTIONS = ['gram sizes are at least 1', 'values of running means are integers or dyadic numbers, for which sums are exact']
REQUIRED = ['enlarged_cases', 'lengthy_sequences', 'ngram_cases', 'shorter_than_n', 'joined', 'key_cases', 'combination_keys', 'squeeze_cases', 'roman_cases', 'roman_runs_kept', 'mean_histories', 'mean_combined',
            'mean_in_place', 'mean_subtractions', 'mean_empty_refused']


def grams(ctx):
    from fog.tokenizers import ngrams, bigrams, trigrams, quadrigrams
    from fog.tokenizers.ngrams import join_ngrams
    rng = ctx.rng

    for _ in range(20):
        n = ctx.near(rng.choice([1, 2, 2, 3, 4, 5, 9, rng.randint(1, 30)]), 200, 0.06, 1)
        x = gen.string(rng, ctx.near(rng.choice([0, 1, n - 1, n, n + 1, 2 * n, rng.randint(0, 20), rng.randint(0, 80)]), 500, 0.06), gen.alphabet(rng))
        kind = rng.choice(['str', 'list', 'tuple', 'words'])
        seq = {'str': x, 'list': list(x), 'tuple': tuple(x), 'words': [c + 'w' for c in x]}[kind]
        want = [seq[i:i + n] for i in range(len(seq) - n + 1)] if len(seq) >= n else [seq]
        ok, got = ctx.call('ngrams', lambda: list(ngrams(n, seq)))
        if ok and got != want:
            ctx.fail('the n-grams are not the contiguous subsequences in order', {'sequence': seq, 'n': n, 'got': got, 'expected': want})
        if n in (2, 3, 4):
            f = {2: bigrams, 3: trigrams, 4: quadrigrams}[n]
            ok, got = ctx.call('bigrams, trigrams or quadrigrams', lambda: list(f(seq)))
            if ok and got != want:
                ctx.fail('the %d-grams are wrong' % n, {'sequence': seq, 'got': got, 'expected': want})
        if kind == 'str':
            ok, back = ctx.call('join_ngrams', lambda: join_ngrams(ngrams(n, seq)))
            if ok and back != seq:
                ctx.fail('joining the n-grams of a string does not give it back', {'string': seq, 'n': n, 'got': back})
            ctx.count('joined')
        if len(seq) < n:
            ctx.count('shorter_than_n')
        ctx.count('ngram_cases')
        ctx.observe((kind, x, n), bool(x))


def lengthy(ctx):
    """Sequences longer than any buffer."""
    from fog.tokenizers import ngrams
    from fog.tokenizers.ngrams import join_ngrams
    from fog.utils import squeeze
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4, 7, rng.randint(1, 400)])
    size = rng.choice([4096, 8192, 16384, 65536]) + rng.choice([-1, 0, 1, n - 1, n, rng.randint(-2000, 4000)])
    letters = rng.choice(['ab', 'abcdefgh', gen.alphabet(rng)])
    s = ''.join(rng.choice(letters) for _ in range(size))
    if n > 20:
        s = s[:rng.choice([4096, 8192]) + rng.randint(-5, 500)]
    seq = rng.choice([str, list, tuple])(s)
    ok, got = ctx.call('ngrams', lambda: list(ngrams(n, seq)))
    if ok and (len(got) != len(seq) - n + 1 or any(g != seq[i:i + n] for i, g in enumerate(got))):
        ctx.fail('the n-grams of a long sequence are not the contiguous subsequences in order', {'length': len(seq), 'n': n, 'number': len(got)})
    ok, back = ctx.call('join_ngrams', lambda: join_ngrams(ngrams(n, s)))
    if ok and back != s:
        ctx.fail('joining the n-grams of a long string does not give it back', {'length': len(s), 'n': n, 'got': len(back)})
    for keep in (False, True):
        want = ''.join(c * (len(list(g)) if keep and c in 'IXCMixcm' else 1) for c, g in groupby(s))
        ok, got = ctx.call('squeeze', squeeze, s, keep_roman_numerals=keep)
        if ok and got != want:
            ctx.fail('squeezing a long string is wrong', {'length': len(s), 'keep_roman_numerals': keep})
    ctx.count('lengthy_sequences')
    ctx.observe((n, len(s), s[:40]))


def keys(ctx):
    from fog.key import ngram_keys
    rng = ctx.rng

    for _ in range(6):
        n = rng.choice([1, 2, 3])
        s = gen.string(rng, rng.randint(0, 11), rng.choice(['ab', 'abcdefg', gen.alphabet(rng)]))
        threshold = rng.choice([0.8, 0.8, 0.5, 0.75, 1.0, 0.625, 0.25, 0.9])
        kw = {} if threshold == 0.8 and rng.random() < 0.5 else {'threshold': threshold}
        g = [s[i:i + n] for i in range(len(s) - n + 1)] if len(s) >= n else [s]
        k = len(s) - n + 1
        want = {''.join(g)}
        # At least this many grams stay
        least = max(1, math.floor(k * threshold))
        for size in range(least, k):
            want.update(''.join(c) for c in combinations(g, size))
        ok, got = ctx.call('ngram_keys', lambda: list(ngram_keys(n, s, **kw)))
        if ok and set(got) != want:
            ctx.fail('the n-gram keys are not those of every combination missing few enough grams',
                     {'string': s, 'n': n, 'threshold': threshold, 'missing': sorted(want - set(got))[:5], 'extra': sorted(set(got) - want)[:5]})
        if len(want) > 1:
            ctx.count('combination_keys')
        ctx.count('key_cases')
        ctx.observe((s, n, threshold), bool(s))


def squeezing(ctx):
    from fog.utils import squeeze
    rng = ctx.rng

    for _ in range(25):
        letters = rng.choice(['ab', 'a\n\r \t', 'IXCMixcmabLVD', 'IiXx', 'é\U00010061a', gen.alphabet(rng)])
        runs = [1, 1, 2, 3] + ([rng.randint(4, 600)] if rng.random() < 0.1 else [])
        s = ''.join(rng.choice(letters) * rng.choice(runs) for _ in range(ctx.near(rng.choice([rng.randint(0, 10), rng.randint(0, 10), rng.randint(0, 60)]), 300, 0.06)))
        s = ctx.spice(s)
        want = ''.join(c for c, _ in groupby(s))
        ok, got = ctx.call('squeeze', squeeze, s)
        if ok and got != want:
            ctx.fail('squeezing is wrong', {'string': s, 'got': got, 'expected': want})
        roman = ''.join(c * (len(list(g)) if c in 'IXCMixcm' else 1) for c, g in groupby(s))
        ok, got = ctx.call('squeeze', squeeze, s, keep_roman_numerals=True)
        if ok and got != roman:
            ctx.fail('squeezing but roman numerals is wrong', {'string': s, 'got': got, 'expected': roman})
        if roman != want:
            ctx.count('roman_runs_kept')
        ctx.count('roman_cases')
        ctx.count('squeeze_cases')
        ctx.observe(s, bool(s))


def means(ctx):
    """A pool of running means against lists of values, over a history of operations."""
    from fog.utils import OnlineMean
    rng = ctx.rng

    for _ in range(4):
        pool = [(OnlineMean(), [])]
        history = []

        def value():
            return rng.choice([rng.randint(-9, 9), rng.randint(-64, 64) / 8, 0, 10 ** 6])

        # Few objects with long histories, or many
        turns = ctx.near(rng.choice([rng.randint(2, 25), rng.randint(2, 25), 80]), 300, 0.05)
        keep = rng.choice([3, 30])

        for step in range(turns):
            i = rng.randrange(len(pool))
            m, values = pool[i]
            op = rng.choice(['add', 'add', 'add', 'subtract', 'combine', 'in_place', 'new'])
            if len(pool) >= keep and op in ('combine', 'new'):
                op = rng.choice(['add', 'subtract', 'in_place'])
            if op == 'in_place' and len(values) > 4000:
                op = 'subtract'

            if op == 'add':
                x = value()
                m.add(x)
                values.append(x)
            elif op == 'subtract':
                if not values:
                    continue
                x = values.pop(rng.randrange(len(values)))
                m.subtract(x)
                ctx.count('mean_subtractions')
            elif op == 'combine':
                j = rng.randrange(len(pool))
                pool.append((m + pool[j][0], values + pool[j][1]))
                ctx.count('mean_combined')
            elif op == 'in_place':
                j = rng.randrange(len(pool))
                other = list(pool[j][1])
                n = m
                n += pool[j][0]
                pool[i] = (n, values + other)
                # The other operand may be the same object
                if i != j and pool[j][0] is m:
                    pool[j] = pool[i]
                ctx.count('mean_in_place')
            else:
                pool.append((OnlineMean(), []))

            history.append((op, i))

            for k, (m, values) in enumerate(pool):
                if len(m) != len(values):
                    ctx.fail('a running mean has the wrong number of values', {'history': history, 'which': k, 'got': len(m), 'values': values})
                    return
                if not values:
                    try:
                        m.peek()
                    except StatisticsError:
                        ctx.count('mean_empty_refused')
                        continue
                    except Exception:
                        continue
                    ctx.fail('an empty running mean has a value', {'history': history})
                    return
                # (fsum is exact)
                want = math.fsum(values) / len(values)
                if abs(m.peek() - want) > 1e-9 or abs(float(m) - want) > 1e-9:
                    ctx.fail('a running mean is not the mean of its values', {'history': history, 'which': k, 'got': m.peek(), 'expected': want, 'values': values})
                    return

        ctx.count('mean_histories')
        ctx.observe((tuple(history), repr([v for _, v in pool])), len(history) > 1)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('grams', grams, 600 * k), ('keys', keys, 500 * k), ('squeeze', squeezing, 600 * k), ('means', means, 500 * k),
            ('grams_large', enlarged(grams, 2100), 8 * k), ('squeeze_large', enlarged(squeezing, 2100), 8 * k), ('lengthy', lengthy, 6 * k), ('means_large', enlarged(means, 2100), 6 * k)]
