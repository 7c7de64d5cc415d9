from vf import gen, oracle
from vf.pairs import all_strings

FILES = ['fog/key/levenshtein.py']
RULE = ('A case is a pair of strings with the blocks and keys of each, whose intersection is compared with reference distances; small strings '
        'are enumerated. Non-trivial: different strings within the distance the blocks or keys are for, or, for keys, two edits apart.')
ASSUMPTIONS = ['strings do not hold the flag characters', 'the Damerau distance is that of optimal string alignment']
REQUIRED = ['very_long_strings', 'blocks_1', 'blocks_1_damerau', 'blocks_2', 'blocks_2_damerau', 'keys_close', 'keys_far', 'keys_damerau_close', 'keys_damerau_far', 'custom_flags',
            'enumerated_pairs', 'long_strings', 'recorded_exceptions_exercised']


def inserted_between_equal(a, b):
    """The longer string is the other with a letter inserted between two equal letters (and different from them)."""
    if len(a) > len(b):
        a, b = b, a
    if len(b) != len(a) + 1:
        return False
    return any(a[i - 1] == a[i] != b[i] and a[:i] + b[i] + a[i:] == b for i in range(1, len(a)))


def swaps(s):
    return set(s[:i] + s[i + 1] + s[i] + s[i + 2:] for i in range(len(s) - 1) if s[i] != s[i + 1])


def flags(rng):
    r = rng.random()

    if r < 0.7:
        return {}, {}
    if r < 0.85:
        return {'flag': '$'}, {'flag1': '$', 'flag2': '%', 'flag3': '&'}

    return {'flag': '\U0001F600'}, {'flag1': '\U0001F600', 'flag2': '\U0001F601', 'flag3': '\x02'}


def judge(ctx, a, b, one, two, parts=None):
    """one, two: the flags of the functions of distance 1 and 2; parts: what differs, when known."""
    import fog.key as K
    d = oracle.lev(*parts or (a, b))
    o = oracle.osa(*parts or (a, b)) if d <= 4 else d
    witness = {'a': a, 'b': b, 'levenshtein': d, 'damerau': o, 'flags': (one, two)}

    if one:
        ctx.count('custom_flags')

    def share(f, kw):
        return set(f(a, **kw)) & set(f(b, **kw))

    for name, f, kw, distance, top in (
        ('levenshtein_1d_blocks', K.levenshtein_1d_blocks, one, d, 1),
        ('damerau_levenshtein_1d_blocks', K.damerau_levenshtein_1d_blocks, one, o, 1),
        ('levenshtein_2d_blocks', K.levenshtein_2d_blocks, two, d, 2),
        ('damerau_levenshtein_2d_blocks', K.damerau_levenshtein_2d_blocks, two, o, 2)
    ):
        if distance <= top:
            ctx.count('blocks_%d%s' % (top, '_damerau' if 'damerau' in name else ''))
            ok, common = ctx.call(name, share, f, kw)
            if ok and not common:
                ctx.fail('%s: two strings within %d edits share no block' % (name, top), witness)

    if d > 5:
        return

    ok, common = ctx.call('levenshtein_1d_keys', share, K.levenshtein_1d_keys, one)

    if ok:
        if d <= 1:
            ctx.count('keys_close')
            if not common:
                ctx.fail('levenshtein_1d_keys: two strings within one edit share no key', witness,
                         'insertion-between-equal-letters' if inserted_between_equal(a, b) else None)
        else:
            ctx.count('keys_far')
            if common:
                ctx.fail('levenshtein_1d_keys: two strings over one edit apart share a key', dict(witness, common=sorted(common)))

    ok, common = ctx.call('damerau_levenshtein_1d_keys', share, K.damerau_levenshtein_1d_keys, one)

    if ok:
        if o <= 1:
            ctx.count('keys_damerau_close')
            if not common:
                ctx.fail('damerau_levenshtein_1d_keys: two strings within one edit share no key', witness,
                         'insertion-between-equal-letters' if inserted_between_equal(a, b) else None)
        else:
            ctx.count('keys_damerau_far')
            if common:
                ctx.fail('damerau_levenshtein_1d_keys: two strings over one edit apart share a key', dict(witness, common=sorted(common)),
                         'two-swaps' if common <= (swaps(a) & swaps(b)) else None)


def recorded(ctx):
    """The recorded exceptions, always exercised."""
    for a, b in (('aa', 'aba'), ('hello', 'helxlo'), ('abc', 'bca'), ('aab', 'baa')):
        judge(ctx, a, b, {}, {})
    ctx.count('recorded_exceptions_exercised')


def random_pairs(ctx):
    rng = ctx.rng

    for _ in range(40):
        letters = rng.choice(['ab', 'abc', 'abcdefgh', 'éèab', 'a\U00010061b', gen.alphabet(rng)])
        letters = ''.join(c for c in letters if c not in '\x00\x01\x02$%&\U0001F600\U0001F601') or 'ab'
        n = ctx.near(rng.randint(0, 14), 60)
        a = gen.string(rng, n, letters)
        b = gen.edits(rng, a, rng.choice([1, 1, 2, 2, 2, 3]), letters, rng.choice(['idst', 'ids', 't', 'st', 'i', 'd', 'id', 'it', 'dt']))
        one, two = flags(rng)
        judge(ctx, a, b, one, two)
        ctx.observe((a, b, one), a != b)


def long_pairs(ctx):
    rng = ctx.rng

    for _ in range(12):
        letters = rng.choice(['ab', 'abcdefghijklmnopqrstuvwxyz', 'a'])
        a = gen.string(rng, ctx.near(rng.randint(15, 90), 200), letters)
        # Edits near where strings are cut in two or three
        n = len(a)
        b = a
        for _ in range(rng.choice([1, 2, 2])):
            p = max(0, min(len(b), rng.choice([n // 2, n // 3, 2 * n // 3, 0, n]) + rng.randint(-2, 2)))
            k = rng.choice('idst')
            c = rng.choice('xyab')
            if k == 'i':
                b = b[:p] + c + b[p:]
            elif k == 'd':
                b = b[:p] + b[p + 1:]
            elif k == 's':
                b = b[:p] + c + b[p + 1:] if p < len(b) else b
            elif p + 1 < len(b):
                b = b[:p] + b[p + 1] + b[p] + b[p + 2:]
        one, two = flags(rng)
        judge(ctx, a, b, one, two)
        ctx.count('long_strings')
        ctx.observe((a, b, one), a != b)


def apart(a, b):
    """Edit distance of two long strings having little in between their common ends (those never matter to the distance)."""
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    a, b = a[n:], b[n:]
    n = 0
    while n < min(len(a), len(b)) and a[-1 - n] == b[-1 - n]:
        n += 1
    return a[:len(a) - n], b[:len(b) - n]


def very_long_pairs(ctx):
    rng = ctx.rng
    letters = rng.choice(['abcdefghijklmnopqrstuvwxyz', 'ab', 'abc'])
    n = rng.choice([129, 200, 257, 513, 1025, 1300, 2049, 2500])
    a = gen.string(rng, n, letters)
    p = rng.choice([n - 1, n - rng.randint(1, 5), n // 2, n // 3, 2 * n // 3, rng.randrange(n), rng.randrange(n)])
    b = a
    for _ in range(rng.choice([1, 1, 2])):
        p = max(0, min(len(b) - 2, p + rng.randint(-3, 3)))
        b = {'i': lambda: b[:p] + rng.choice('xya') + b[p:], 'd': lambda: b[:p] + b[p + 1:], 's': lambda: b[:p] + rng.choice('xya') + b[p + 1:],
             't': lambda: b[:p] + b[p + 1] + b[p] + b[p + 2:], 'e': lambda: b + rng.choice('xya')}[rng.choice('idste')]()
    if rng.random() < 0.5:
        a, b = b, a
    one, two = flags(rng)
    judge(ctx, a, b, one, two, apart(a, b))
    ctx.count('very_long_strings')
    ctx.observe((a, b, one), a != b)


SMALL = {}


def enumerated(ctx):
    """One string against all others, of at most six letters out of two or four of three."""
    rng = ctx.rng
    pool = rng.choice([('ab', 6), ('abc', 4)])
    if pool not in SMALL:
        SMALL[pool] = all_strings(*pool)
    S = SMALL[pool]
    a = S[ctx.index % len(S)]

    for b in S:
        if abs(len(a) - len(b)) <= 2:
            judge(ctx, a, b, {}, {})
            ctx.count('enumerated_pairs')
            ctx.observe((a, b), a != b)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('recorded', recorded, 1),
        ('random', random_pairs, 600 * k),
        ('long', long_pairs, 150 * k),
        ('very_long', very_long_pairs, 50 * k),
        ('enumerated', enumerated, 80 * k)
    ]
