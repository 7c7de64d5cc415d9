import hashlib
import json
import os
import subprocess
import sys

from vf import gen
from vf.core import enlarged

FILES = ['fog/lsh/minhash.py', 'fog/lsh/simhash.py', 'fog/lsh/utils.py']
RULE = ('A case is token collections, a signature size and a seed: signatures are compared with those of permutations, repetitions, other '
        'instances, histories, processes and unions, and with reference computations. Non-trivial: at least one token.')
ASSUMPTIONS = ['estimates are averaged over at least 2000 positions and allowed 7 standard deviations plus 0.02',
               'sizes of simhash are powers of two from 4 to 512']
REQUIRED = ['repeated_runs', 'enlarged_cases', 'independent_positions', 'separated_tokens', 'minhash_signatures', 'superminhash_signatures', 'lsb_signatures', 'numpy_signatures', 'unions', 'estimates', 'simhash_signatures', 'comparisons',
            'other_processes', 'histories', 'string_inputs', 'single_token_sets', 'empty_sets']


def tokens(rng, top=20, at_least=1, n=None):
    kind = rng.choice(['words', 'words', 'chars', 'unicode', 'long'])
    if n is None:
        n = rng.choice([at_least, rng.randint(at_least, 5), rng.randint(at_least, top), rng.randint(at_least, 2 * top)])

    if kind == 'words':
        return ['w%d' % rng.randrange(rng.choice([60, 60, 10 ** 6])) for _ in range(n)]
    if kind == 'chars':
        return [rng.choice('abcdefghijklmnop') for _ in range(n)]

    if kind == 'long':
        # Empty ones, and long ones which only differ at an end
        long = rng.choice([9, 33, 65, 200])
        return [rng.choice(['', 'x' * long + str(rng.randrange(40)), str(rng.randrange(40)) + 'x' * long, ' ' * rng.randrange(4)]) for _ in range(n)]

    return [gen.random_char(rng) + rng.choice(['', 'x', gen.random_char(rng)]) for _ in range(n)]


def distinct_tokens(rng, n):
    """Different tokens: plain ones, ones from a single script, ones that only differ at their end or by case and accents."""
    kind = rng.choice(['plain', 'plain', 'script', 'end', 'start', 'variants'])
    out = []
    seen = set()
    base = rng.choice([0x4e00, 0x400, 0x3b1, 0x1f300, 0x600])
    stem = 'x' * rng.choice([8, 31, 64, 300])

    while len(out) < n:
        salt = '%x' % rng.getrandbits(32)
        if kind == 'plain':
            t = 't%x' % rng.getrandbits(40)
        elif kind == 'script':
            t = ''.join(chr(base + rng.randrange(64)) for _ in range(6))
        elif kind == 'end':
            t = stem + salt
        elif kind == 'start':
            t = salt + stem
        else:
            t = ''.join(rng.choice('aAàÀ ') for _ in range(16))
        if t not in seen:
            seen.add(t)
            out.append(t)

    return out


def shapes(rng, t):
    """The same set of tokens in another order, with repetitions, as another iterable."""
    u = list(t)
    u += [rng.choice(t) for _ in range(rng.randint(0, 4))] if t else []
    rng.shuffle(u)
    return rng.choice([list, tuple, set, iter, frozenset, dict.fromkeys, lambda x: (y for y in x)])(u)


def plain(signature):
    return [x.item() if hasattr(x, 'item') else x for x in signature]


def families():
    from fog.lsh import MinHash, LSBMinHash, SuperMinHash
    return {
        'minhash': (lambda h, seed: MinHash(h, seed=seed)),
        'numpy': (lambda h, seed: MinHash(h, seed=seed, use_numpy=True)),
        'lsb': (lambda h, seed: LSBMinHash(precision=max(1, h // 32), seed=seed)),
        'superminhash': (lambda h, seed: SuperMinHash(h))
    }


def functional(ctx):
    """Function of the set, the size and the seed only."""
    rng = ctx.rng

    for name, make in families().items():
        h = ctx.near(rng.choice([1, 2, 3, 8, 16, 33, 64, 100]), 300, floor=1)
        seed = gen.seed(rng)
        a = tokens(rng, at_least=0 if rng.random() < 0.1 else 1, n=ctx.near(None, 150, 0.1, 1))
        b = tokens(rng)
        witness = {'family': name, 'h': h, 'seed': seed, 'a': a, 'b': b}
        ok, m = ctx.call(name, make, h, seed)
        if not ok:
            return
        ok, first = ctx.call(name, lambda: plain(m.create_signature(list(a))))
        if not ok:
            return

        size = max(1, h // 32) if name == 'lsb' else h

        if len(first) != size:
            ctx.fail('the signature does not have the size asked for', dict(witness, got=len(first)))

        # Order, repetition, kind of iterable, history
        again = plain(m.create_signature(shapes(rng, a)))
        for _ in range(rng.randint(0, 3)):
            m.create_signature(tokens(rng, at_least=0))
            ctx.count('histories')
        last = plain(m.create_signature(shapes(rng, a)))
        other = plain(make(h, seed).create_signature(shapes(rng, a)))

        if not first == again == last == other:
            ctx.fail('the signature depends on more than the set of tokens, the size and the seed', dict(witness, first=first, again=again, last=last, other=other))

        # Union
        if name != 'lsb' and a:
            sb = plain(m.create_signature(shapes(rng, b)))
            su = plain(m.create_signature(shapes(rng, a + b)))
            if su != [min(x, y) for x, y in zip(first, sb)]:
                ctx.fail('the signature of a union is not the element-wise minimum', dict(witness, union=su, a_signature=first, b_signature=sb))
            ctx.count('unions')

        # A string is the sequence of its characters
        text = gen.string(rng, rng.randint(0, 12), gen.alphabet(rng))
        shuffled = list(text * rng.choice([1, 2]))
        rng.shuffle(shuffled)
        if plain(m.create_signature(text)) != plain(m.create_signature(''.join(shuffled))):
            ctx.fail('the signature of a string depends on the order of its characters', dict(witness, text=text))
        ctx.count('string_inputs')

        if len(set(a)) == 1:
            ctx.count('single_token_sets')
        if not a:
            ctx.count('empty_sets')
        ctx.count(name + '_signatures')
        ctx.observe(repr(witness), bool(a))


def estimates(ctx):
    from fog.lsh import minhash_similarity, lsb_minhash_similarity
    rng = ctx.rng
    names = ['minhash', 'numpy', 'lsb', 'superminhash']
    inter, only_a, only_b = rng.choice([(0, 10, 10), (5, 5, 5), (10, 2, 3), (20, 0, 0), (15, 5, 0), (2, 9, 9), (30, 10, 10), (8, 8, 0), (1, 0, 1), (4, 12, 1)])
    name = rng.choice(names)
    base = rng.randrange(10 ** 9)
    samples = 0
    total = 0.0
    rounds = 24 if name == 'superminhash' else 12
    j = inter / (inter + only_a + only_b)

    for r in range(rounds):
        # Fresh words at each round for SuperMinHash, which has no seed
        words = distinct_tokens(rng, inter + only_a + only_b)
        a, b = words[:inter + only_a], words[:inter] + words[inter + only_a:]
        rng.shuffle(a)
        rng.shuffle(b)
        m = families()[name](192, base + r)
        A, B = m.create_signature(a), m.create_signature(b)
        if name == 'lsb':
            total += lsb_minhash_similarity(A, B)
            samples += len(A) * 64
        else:
            total += minhash_similarity(A, B)
            samples += len(A)

    mean = total / rounds
    # LSB: each position has variance 1 - j^2 at most; others j(1-j)
    variance = (1 - j * j) if name == 'lsb' else j * (1 - j)
    allowed = 7 * (variance / samples) ** 0.5 + 0.02

    if abs(mean - j) > allowed:
        ctx.fail('the estimate of the Jaccard similarity is biased', {'family': name, 'mean': mean, 'jaccard': j, 'allowed': allowed, 'positions': samples,
                                                                      'sizes': (inter, only_a, only_b)})

    if j == 1 and mean != 1:
        ctx.fail('identical sets have different signatures', {'family': name})

    ctx.count('estimates')
    ctx.count('positions_compared', samples)
    ctx.observe((name, inter, only_a, only_b, base))


def independence(ctx):
    """No two positions of a signature always tell the same thing."""
    rng = ctx.rng
    name = rng.choice(['minhash', 'numpy', 'lsb', 'lsb', 'superminhash'])
    h = rng.choice([64, 128, 256, 320, 512, 640])
    m = families()[name](h, rng.randrange(10 ** 9))
    # (bits need many sets not to agree by chance)
    rounds = 72 if name == 'lsb' else 6
    columns = None

    for _ in range(rounds):
        ok, s = ctx.call(name, lambda: plain(m.create_signature(['t%x' % rng.getrandbits(48) for _ in range(6)])))
        if not ok:
            return
        if name == 'lsb':
            s = [x >> i & 1 for x in s for i in range(64)]
        if columns is None:
            columns = [[] for _ in s]
        for c, x in zip(columns, s):
            c.append(x)

    seen = {}

    for i, c in enumerate(columns):
        c = tuple(c)
        if c in seen:
            ctx.fail('two positions of the signature always agree', {'family': name, 'h': h, 'positions': (seen[c], i), 'rounds': rounds})
            return
        seen[c] = i

    ctx.count('independent_positions', len(columns))
    ctx.observe((name, h, repr(columns[0])))


def separation(ctx):
    """Distinct tokens are told apart, however many they are."""
    from fog.lsh import simhash
    rng = ctx.rng
    name = rng.choice(['minhash', 'numpy', 'superminhash', 'simhash'])
    n = 12000
    words = distinct_tokens(rng, n) if rng.random() < 0.5 else ['%s%d' % (rng.choice('abcd'), i) for i in range(n)]
    words = list(dict.fromkeys(words))
    n = len(words)

    if name == 'simhash':
        f = lambda x: simhash([x])
    else:
        m = families()[name](2, rng.randrange(10 ** 9))
        f = lambda x: tuple(plain(m.create_signature([x])))

    ok, found = ctx.call(name, lambda: len({f(x) for x in words}))
    # The digests of tokens are of at least 32 bits: a pair of them collides about once in fifty runs
    if ok and n - found > 6:
        ctx.fail('many different tokens have the same signature', {'family': name, 'tokens': n, 'signatures': found})
    ctx.count('separated_tokens', n)
    ctx.observe((name, words[0], words[-1]))


def compare(ctx):
    from fog.lsh import minhash_similarity, lsb_minhash_similarity, simhash_distance, simhash_similarity
    rng = ctx.rng

    for _ in range(10):
        h = ctx.near(rng.choice([1, 2, 3, 7, 64, 256]), 5000, 0.1, 1)
        if rng.random() < 0.05:
            h = rng.choice([500, 513, 1025, 2049, 4100])
        A = [rng.choice([rng.randrange(4), rng.getrandbits(32)]) for _ in range(h)]
        B = [x if rng.random() < rng.choice([0.1, 0.5, 0.9]) else rng.choice([rng.randrange(4), rng.getrandbits(32)]) for x in A]
        want = sum(x == y for x, y in zip(A, B)) / h
        ok, got = ctx.call('minhash_similarity', minhash_similarity, A, B)
        if ok and abs(got - want) > 1e-12:
            ctx.fail('minhash_similarity is not the proportion of agreement', {'A': A, 'B': B, 'got': got, 'expected': want})

        L = ctx.near(rng.choice([1, 2, 3, 8]), 300, 0.1, 1)
        if rng.random() < 0.05:
            L = rng.choice([17, 65, 129, 257])
        special = [0, 1, (1 << 64) - 1, 1 << 63, 0x5555555555555555, 0xAAAAAAAAAAAAAAAA]
        A = [rng.choice(special) if rng.random() < 0.3 else rng.getrandbits(64) for _ in range(L)]
        B = [rng.choice(special) if rng.random() < 0.3 else rng.choice([x, rng.getrandbits(64), x ^ (1 << rng.randrange(64))]) for x in A]
        hamming = sum(bin(x ^ y).count('1') for x, y in zip(A, B))
        want = 1 - 2 * hamming / (64 * L)
        ok, got = ctx.call('lsb_minhash_similarity', lsb_minhash_similarity, A, B)
        if ok and abs(got - want) > 1e-12:
            ctx.fail('lsb_minhash_similarity is wrong', {'A': A, 'B': B, 'got': got, 'expected': want})

        f = rng.choice([4, 8, 16, 32, 64, 128, 256, 512])
        a, b = rng.getrandbits(f), rng.getrandbits(f)
        if rng.random() < 0.3:
            b = a ^ (1 << rng.randrange(f))
        kw = {} if f == 128 and rng.random() < 0.5 else {'f': f}
        want = bin(a ^ b).count('1') / f
        ok, d = ctx.call('simhash_distance', simhash_distance, a, b, **kw)
        ok2, s = ctx.call('simhash_similarity', simhash_similarity, a, b, **kw)
        if ok and ok2 and (abs(d - want) > 1e-12 or abs(s - (1 - want)) > 1e-12):
            ctx.fail('simhash comparison is not the proportion of agreeing bits', {'a': a, 'b': b, 'f': f, 'distance': d, 'similarity': s})
        ctx.count('comparisons', 3)
        ctx.observe((A, B, a, b, f))


def simhashes(ctx):
    from fog.lsh import simhash
    rng = ctx.rng

    for _ in range(6):
        f = rng.choice([4, 8, 16, 32, 64, 128, 128, 256, 512])
        t = tokens(rng, at_least=0, n=ctx.near(None, 300, 0.1))
        if t and rng.random() < 0.04:
            # Long runs of the same tokens
            t = [x for x in t[:4] for _ in range(rng.choice([100, 127, 128, 200, 256, 300, 512, 1000, 1025]) + rng.randint(-1, 1))]
            ctx.count('repeated_runs')
        runs = len(t) > 100 and rng.random() < 0.7
        kw = {} if f == 128 and rng.random() < 0.5 else {'f': f}
        hash_func = {256: hashlib.sha256, 512: hashlib.sha512}.get(f, hashlib.md5)
        digests = [int(hash_func(x.encode()).hexdigest()[:f // 4], 16) for x in t]
        want = 0
        for i in range(f):
            ones = sum(d >> i & 1 for d in digests)
            if ones * 2 > len(digests):
                want |= 1 << i
        shuffled = t[:]
        if not runs:
            rng.shuffle(shuffled)
        ok, got = ctx.call('simhash', simhash, rng.choice([list, tuple, iter])(shuffled), **kw)
        if ok and got != want:
            ctx.fail('simhash is not the bitwise majority vote of the digests', {'tokens': t, 'f': f, 'got': got, 'expected': want})
        ctx.count('simhash_signatures')
        ctx.observe((f, t), bool(t))


CHILD = r'''
import json, sys
sys.dont_write_bytecode = True
repo, cases = json.load(sys.stdin)
sys.path.insert(0, repo)
from fog.lsh import MinHash, LSBMinHash, SuperMinHash, simhash
out = []
for family, h, seed, tokens in cases:
    t = set(tokens)
    if family == 'minhash': s = MinHash(h, seed=seed).create_signature(t)
    elif family == 'numpy': s = MinHash(h, seed=seed, use_numpy=True).create_signature(t).tolist()
    elif family == 'lsb': s = LSBMinHash(precision=max(1, h // 32), seed=seed).create_signature(t)
    elif family == 'superminhash': s = SuperMinHash(h).create_signature(t)
    else: s = simhash(tokens)
    out.append(s)
print(json.dumps(out))
'''


def processes(ctx):
    """The same signatures in another process, with another hash seed."""
    from vf.core import REPO
    from fog.lsh import simhash
    rng = ctx.rng
    cases = []

    for _ in range(20):
        name = rng.choice(['minhash', 'numpy', 'lsb', 'superminhash', 'simhash'])
        cases.append((name, rng.choice([1, 8, 64]), gen.seed(rng), [x for x in tokens(rng) if x.isprintable()] or ['x']))

    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)))
    r = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps([REPO, cases]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=ctx.scratch)

    if r.returncode != 0:
        ctx.fail('another process could not compute the signatures', r.stderr[-1500:])
        return

    there = json.loads(r.stdout)
    make = families()

    for (name, h, seed, t), s in zip(cases, there):
        here = simhash(t) if name == 'simhash' else plain(make[name](h, seed).create_signature(t))
        if json.loads(json.dumps(here)) != s:
            ctx.fail('the signature differs in another process', {'family': name, 'h': h, 'seed': seed, 'tokens': t, 'here': here, 'there': s})
        ctx.observe((name, h, seed, t))

    ctx.count('other_processes')


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [
        ('functional', functional, 500 * k),
        ('estimates', estimates, 60 * k),
        ('independence', independence, 14 * k),
        ('separation', separation, 4 * k),
        ('compare', compare, 300 * k),
        ('simhash', simhashes, 300 * k),
        ('processes', processes, 6 * k),
        ('functional_large', enlarged(functional, 600), 8 * k),
        ('simhash_large', enlarged(simhashes, 5000), 4 * k)
    ]
