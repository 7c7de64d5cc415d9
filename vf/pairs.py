"""
String pairs for edit distances.
"""
from vf import gen


def hinted(rng, ints, top):
    h = [x for x in ints if 1 < x <= top]
    if not h or rng.random() < 0.5:
        return None
    return max(0, rng.choice(h) + rng.choice([-2, -1, 0, 1, 2]))


def pair(rng, ints, top=40, letters=None):
    """A pair of strings, of one of several relations to one another."""
    letters = letters or gen.alphabet(rng)
    n = hinted(rng, ints, top)

    if n is None:
        n = gen.size(rng, top)

    a = gen.string(rng, n, letters)
    kind = rng.randrange(12)

    if kind <= 3:
        b = gen.edits(rng, a, rng.randint(0, 4), letters, 'idst')
    elif kind == 4:
        b = gen.string(rng, gen.size(rng, top), letters)
    elif kind == 5:       # one inside the other
        p = rng.randint(0, n)
        q = rng.randint(p, n)
        b = a[p:q]
    elif kind == 6:       # common prefix and suffix, different middles
        x = gen.string(rng, rng.randint(0, 4), letters)
        y = gen.string(rng, rng.randint(0, 6), letters)
        p = rng.randint(0, n)
        a, b = a[:p] + x + a[p:], a[:p] + y + a[p:]
    elif kind == 7:       # a lone character against many
        c = gen.string(rng, 1, letters)
        p = rng.randint(0, n)
        a, b = a[:p] + c + a[p:], a[:p] + gen.string(rng, rng.randint(1, 7), letters) + a[p:]
    elif kind == 8:       # rotation
        p = rng.randint(0, n)
        b = a[p:] + a[:p]
    elif kind == 9:       # repetition
        b = a + a[:rng.randint(0, n)] if n else gen.string(rng, 2, letters)
    elif kind == 10:      # reversal
        b = a[::-1]
    else:                 # edits at both ends
        b = gen.string(rng, rng.randint(0, 3), letters) + a + gen.string(rng, rng.randint(0, 3), letters)
        if rng.random() < 0.5:
            p = rng.randint(0, min(3, len(b)))
            b = b[p:]

    # Fresh objects: no identity shortcut
    if rng.random() < 0.9:
        a = ''.join(list(a))
        b = ''.join(list(b))
    if rng.random() < 0.5:
        a, b = b, a

    return a, b


def all_strings(letters, top):
    result = ['']
    level = ['']

    for _ in range(top):
        level = [s + c for s in level for c in letters]
        result.extend(level)

    return result
