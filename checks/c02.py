from vf import gen, native
from vf.oracle import lev
from vf.pairs import pair, all_strings

FILES = ['cfog/metrics/levenshtein.pyx', 'cfog/metrics/__init__.py']
RULE = ('A case is a pair of strings and a bound, in both orders; bounds go from 0 to over the distance and the lengths. '
        'Non-trivial: both strings non-empty and different.')
ASSUMPTIONS = ['gcc and Cython translate the source faithfully', 'bounds fit in 31 bits']
REQUIRED = ['under_bound', 'at_bound', 'over_bound', 'exhaustive_pairs', 'long_pairs', 'astral_pairs']

setup = native.setup_plain


def function():
    from cfog.metrics import limited_levenshtein_distance
    return limited_levenshtein_distance


def check(ctx, f, a, b, bounds=None, d=None):
    if d is None:
        d = lev(a, b)

    if bounds is None:
        top = max(len(a), len(b))
        bounds = {0, 1, 2, d - 1, d, d + 1, top - 1, top, top + 1, abs(len(a) - len(b)), abs(len(a) - len(b)) - 1,
                  min(len(a), len(b)), ctx.rng.randint(0, top + 3), ctx.rng.choice([3, 4, 5, 100, 255, 256, 65535, 65536, 10 ** 6, 2 ** 31 - 2])}

    if any(c > '\uffff' for c in a + b):
        ctx.count('astral_pairs')

    for k in bounds:
        if k < 0:
            continue

        expected = d if d <= k else k + 1

        for x, y in ((a, b), (b, a)):
            try:
                r = f(k, x, y)
            except Exception as e:
                ctx.fail('limited_levenshtein_distance raised %s: %s' % (type(e).__name__, e), (k, x, y))
                return
            if r != expected or isinstance(r, bool):
                ctx.fail('limited_levenshtein_distance with bound %d is %r instead of %r' % (k, r, expected), (k, x, y))
                return

        ctx.count('under_bound' if d < k else 'at_bound' if d == k else 'over_bound')

    ctx.observe(a + '\x00\x00' + b if len(a) + len(b) < 400 else str(hash((a, b))), a != b and a and b)


def exhaustive(ctx):
    f = function()
    words = all_strings('abc', 4)
    a = words[ctx.index]

    for b in words[ctx.index:]:
        check(ctx, f, a, b, range(0, 7))
        ctx.count('exhaustive_pairs')


def exhaustive_binary(ctx):
    f = function()
    words = all_strings('a\U00010061', 6)
    a = words[ctx.index]

    for b in words[ctx.index:]:
        check(ctx, f, a, b, range(0, 8))
        ctx.count('exhaustive_pairs')


def random_pairs(ctx):
    f = function()

    for _ in range(20):
        check(ctx, f, *pair(ctx.rng, ctx.ints))


def dictionary_pairs(ctx):
    f = function()
    letters = [c for s in ctx.strs for c in s] or ['a']

    for _ in range(10):
        check(ctx, f, *pair(ctx.rng, ctx.ints, letters=letters + list('ab')))


def banded(ctx):
    """Edits spread along strings, so that paths hug the edges of the band."""
    f = function()
    rng = ctx.rng
    letters = gen.alphabet(rng)

    for _ in range(10):
        n = rng.randint(4, 30)
        a = gen.string(rng, n, letters)
        p = rng.randint(1, 6)
        q = rng.randint(0, 6)
        # insertions at one end, deletions at the other
        b = gen.string(rng, p, letters) + a[:max(0, n - q)]
        check(ctx, f, a, b)
        x, y = rng.randint(0, n), rng.randint(0, n)
        x, y = min(x, y), max(x, y)
        check(ctx, f, a, a[:x] + gen.string(rng, p, letters) + a[x:y] + a[min(n, y + q):])


def long_pairs(ctx):
    f = function()

    for _ in range(2):
        top = ctx.rng.choice([70, 130, 300, 600, 1100])
        letters = gen.alphabet(ctx.rng)
        a = gen.string(ctx.rng, ctx.rng.randint(top // 2, top), letters)
        b = gen.edits(ctx.rng, a, ctx.rng.randint(1, 40), letters, 'idst') if ctx.rng.random() < 0.7 else gen.string(ctx.rng, ctx.rng.randint(1, top), letters)
        check(ctx, f, a, b)
        ctx.count('long_pairs')

    if ctx.index == 0:
        m = 65536 + ctx.rng.randint(0, 50)
        for k in (1, 2, 100, m - 1, m, m + 1):
            check(ctx, f, 'yy', 'x' * m, [k], d=m)
            check(ctx, f, 'ab' + 'z' * m, 'z' * m, [k], d=2)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('exhaustive', exhaustive, len(all_strings('abc', 4))),
        ('exhaustive_binary', exhaustive_binary, len(all_strings('ab', 6))),
        ('random_pairs', random_pairs, 2500 * k),
        ('dictionary_pairs', dictionary_pairs, 600 * k),
        ('banded', banded, 1000 * k),
        ('long_pairs', long_pairs, 250 * k)
    ]
