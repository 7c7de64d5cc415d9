from vf import gen, native
from vf.oracle import lev, lev_dp
from vf.pairs import pair, all_strings

FILES = ['cfog/metrics/levenshtein.pyx', 'cfog/metrics/__init__.py']
RULE = ('A case is a pair of strings given in both orders to the extension compiled from the current tree; all pairs of short '
        'strings over three letters, then random related pairs. Non-trivial: the strings differ and neither is empty.')
ASSUMPTIONS = ['gcc and Cython translate the source faithfully', 'reference: bit-parallel and table implementations that must agree']
REQUIRED = ['pairs', 'exhaustive_pairs', 'long_pairs', 'astral_pairs', 'dp_cross_checks']

setup = native.setup_plain


def function():
    from cfog.metrics import levenshtein_distance
    return levenshtein_distance


def check(ctx, f, a, b, expected=None):
    if expected is None:
        expected = lev(a, b)

    for x, y in ((a, b), (b, a)):
        try:
            d = f(x, y)
        except Exception as e:
            ctx.fail('levenshtein_distance raised %s: %s' % (type(e).__name__, e), (x, y))
            return
        if d != expected or isinstance(d, bool):
            ctx.fail('levenshtein_distance is %r instead of %r' % (d, expected), (x, y))
            return

    ctx.count('pairs')
    if any(c > '\uffff' for c in a + b):
        ctx.count('astral_pairs')
    ctx.observe(a + '\x00\x00' + b if len(a) + len(b) < 400 else str(hash((a, b))), a != b and a and b)


def exhaustive(ctx):
    f = function()
    words = all_strings('abc', 4)
    a = words[ctx.index]

    for b in words[ctx.index:]:
        check(ctx, f, a, b)
        ctx.count('exhaustive_pairs')


def exhaustive_binary(ctx):
    """All pairs over two letters, one of them beyond the BMP with the same low bits."""
    f = function()
    words = all_strings('a\U00010061', 5)
    a = words[ctx.index]

    for b in words[ctx.index:]:
        check(ctx, f, a, b)
        ctx.count('exhaustive_pairs')


def random_pairs(ctx):
    f = function()

    for _ in range(40):
        a, b = pair(ctx.rng, ctx.ints)
        expected = lev(a, b)
        if ctx.rng.random() < 0.05 and len(a) * len(b) < 2000:
            ctx.count('dp_cross_checks')
            assert lev_dp(a, b) == expected
        check(ctx, f, a, b, expected)


def dictionary_pairs(ctx):
    f = function()
    letters = [c for s in ctx.strs for c in s] or ['a']

    for _ in range(20):
        a, b = pair(ctx.rng, ctx.ints, letters=letters + list('ab'))
        check(ctx, f, a, b)


def long_pairs(ctx):
    f = function()

    for _ in range(3):
        top = ctx.rng.choice([70, 130, 300, 600, 1100])
        a, b = pair(ctx.rng, ctx.ints, top=top)
        if ctx.rng.random() < 0.5:
            letters = gen.alphabet(ctx.rng)
            a = gen.string(ctx.rng, top, letters)
            b = gen.edits(ctx.rng, a, ctx.rng.randint(1, 40), letters, 'idst') if ctx.rng.random() < 0.6 else gen.string(ctx.rng, ctx.rng.randint(1, top), letters)
        check(ctx, f, a, b)
        ctx.count('long_pairs')


def huge(ctx):
    f = function()
    n = ctx.rng.choice([4000, 5000, 8200])
    letters = gen.alphabet(ctx.rng)
    a = gen.string(ctx.rng, n, letters)
    b = gen.edits(ctx.rng, a, ctx.rng.randint(2, 60), letters, 'idst')
    check(ctx, f, a, b)
    # distances over 255 and 65535 need far apart strings
    check(ctx, f, 'x' * ctx.rng.randint(250, 1100), gen.string(ctx.rng, 700, 'ab'))
    if ctx.index == 0:
        m = 65536 + ctx.rng.randint(0, 50)
        check(ctx, f, 'yy', 'x' * m, expected=m)
        check(ctx, f, '', 'x' * m, expected=m)
        check(ctx, f, 'ab' + 'z' * m, 'z' * m, expected=2)


def workloads(tier):
    k = 4 if tier == 'quick' else 60
    return [
        ('exhaustive', exhaustive, len(all_strings('abc', 4))),
        ('exhaustive_binary', exhaustive_binary, len(all_strings('ab', 5))),
        ('random_pairs', random_pairs, 3000 * k),
        ('dictionary_pairs', dictionary_pairs, 600 * k),
        ('long_pairs', long_pairs, 400 * k),
        ('huge', huge, 8 * k)
    ]
