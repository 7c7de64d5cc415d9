from vf import gen, native
from vf.oracle import lev, osa
from vf.pairs import pair, all_strings

FILES = ['cfog/metrics/levenshtein.pyx', 'cfog/metrics/__init__.py']
RULE = ('A case is a pair of strings given in both orders to both predicates; exhaustive over three letters up to length 5, then strings '
        'up to three edits or swaps apart. Non-trivial: different non-empty strings.')
ASSUMPTIONS = ['gcc and Cython translate the source faithfully']
REQUIRED = ['within_one', 'swap_only', 'beyond', 'exhaustive_pairs', 'long_pairs', 'astral_pairs', 'huge_pairs']

setup = native.setup_plain


def functions():
    from cfog.metrics import levenshtein_distance_lte1, damerau_levenshtein_distance_lte1
    return levenshtein_distance_lte1, damerau_levenshtein_distance_lte1


def one_edit(a, b):
    """Definition, by enumeration of what one edit can do at the first difference."""
    if a == b:
        return True
    if len(a) > len(b):
        a, b = b, a
    if len(b) - len(a) > 1:
        return False
    i = 0
    while i < len(a) and a[i] == b[i]:
        i += 1
    if len(a) == len(b):
        return a[i + 1:] == b[i + 1:]
    return a[i:] == b[i + 1:]


def one_swap(a, b):
    if len(a) != len(b):
        return False
    i = 0
    while i < len(a) and a[i] == b[i]:
        i += 1
    return i + 1 < len(a) and a[i] == b[i + 1] and a[i + 1] == b[i] and a[i + 2:] == b[i + 2:]


def check(ctx, fs, a, b):
    plain = one_edit(a, b)
    damerau = plain or one_swap(a, b)

    if len(a) < 12 and len(b) < 12 and ctx.rng.random() < 0.1:
        assert plain == (lev(a, b) <= 1) and damerau == (osa(a, b) <= 1), (a, b)
        ctx.count('cross_checks')

    for f, expected, name in ((fs[0], plain, 'levenshtein'), (fs[1], damerau, 'damerau_levenshtein')):
        for x, y in ((a, b), (b, a)):
            try:
                r = f(x, y)
            except Exception as e:
                ctx.fail('%s_distance_lte1 raised %s: %s' % (name, type(e).__name__, e), (x, y))
                return
            if bool(r) != expected:
                ctx.fail('%s_distance_lte1 is %r instead of %r' % (name, r, expected), (x, y))
                return

    ctx.count('within_one' if plain else 'swap_only' if damerau else 'beyond')
    if any(c > '\uffff' for c in a + b):
        ctx.count('astral_pairs')
    ctx.observe(a + '\x00\x00' + b if len(a) + len(b) < 400 else str(hash((a, b))), a != b and a and b)


def exhaustive(ctx):
    fs = functions()
    words = all_strings('abc', 5)
    a = words[ctx.index]

    for b in words[ctx.index:]:
        if abs(len(a) - len(b)) <= 2:
            check(ctx, fs, a, b)
            ctx.count('exhaustive_pairs')


def near(ctx):
    fs = functions()
    rng = ctx.rng

    for _ in range(40):
        letters = gen.alphabet(rng)
        n = gen.size(rng, 40, ctx.ints)
        a = gen.string(rng, n, letters)
        check(ctx, fs, a, gen.edits(rng, a, rng.choice([0, 1, 1, 1, 2, 2, 3]), letters, rng.choice(['idst', 't', 'ts', 'it', 'dt', 'id', 's'])))


def any_pairs(ctx):
    fs = functions()
    letters = [c for s in ctx.strs for c in s] + ['a', 'b']

    for _ in range(20):
        check(ctx, fs, *pair(ctx.rng, ctx.ints))
        check(ctx, fs, *pair(ctx.rng, ctx.ints, letters=letters))


def long_pairs(ctx):
    fs = functions()
    rng = ctx.rng

    for _ in range(10):
        n = rng.choice([64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1024, 4096, 5000])
        letters = gen.alphabet(rng)
        a = gen.string(rng, n, letters)
        check(ctx, fs, a, gen.edits(rng, a, rng.choice([0, 1, 1, 1, 2]), letters, rng.choice(['idst', 't'])))
        ctx.count('long_pairs')


def huge(ctx):
    """Lengths around those that do not fit in 16 bits, differences near the ends and around 65536."""
    fs = functions()
    rng = ctx.rng
    n = rng.choice([32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072, 131100])
    letters = gen.alphabet(rng)
    block = gen.string(rng, rng.choice([1, 7, 1000]), letters)
    a = (block * (n // len(block) + 1))[:n]
    for _ in range(4):
        b = a
        for _ in range(rng.choice([1, 1, 2, 2])):
            m = len(b)
            p = min(m - 2, rng.choice([0, rng.randrange(m), m - 1 - rng.randint(0, 40), 32768 + rng.randint(-2, 2), 65536 + rng.randint(-2, 2)]))
            c = rng.choice(letters)
            b = rng.choice([b[:p] + c + b[p:], b[:p] + b[p + 1:], b[:p] + c + b[p + 1:], b[:p] + b[p + 1] + b[p] + b[p + 2:]])
        check(ctx, fs, a, b)
        check(ctx, fs, a, a[:-3] + rng.choice(['xyz', 'xyzt', 'zy']))
        ctx.count('huge_pairs')


def workloads(tier):
    k = 4 if tier == 'quick' else 80
    return [
        ('exhaustive', exhaustive, len(all_strings('abc', 5))),
        ('near', near, 2500 * k),
        ('any_pairs', any_pairs, 500 * k),
        ('long_pairs', long_pairs, 250 * k),
        ('huge', huge, 10 * k)
    ]
