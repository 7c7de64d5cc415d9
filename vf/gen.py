"""
Generators of hostile inputs.
"""
ASTRAL = [0x1F600, 0x1F601, 0x20000, 0x10061, 0x10062, 0x20061, 0x1D11E, 0x10FFFF, 0x10000, 0x10041]
TWINS = ['a', '\U00010061', '\U00020061', 'b', '\U00010062']  # same low 16 bits

ALPHABETS = [
    'ab',
    'abc',
    'abcde',
    'abcdefghijklmnopqrstuvwxyz',
    'abcXYZ 0189-_.',
    'éèêàçœæßüö',
    'a\u0301e\u0308o',
    ''.join(TWINS),
    ''.join(chr(c) for c in ASTRAL) + 'ab',
    'a\x00b\x01\x7f\x80\xff',
    'aÿĀ\uffff\U00010000',
    '一二三四あい',
]


def alphabet(rng):
    r = rng.random()

    if r < 0.75:
        return rng.choice(ALPHABETS)
    if r < 0.9:
        return ''.join(rng.sample(rng.choice(ALPHABETS), k=2)) if r < 0.82 else rng.choice(ALPHABETS) + rng.choice(ALPHABETS)

    return ''.join(random_char(rng) for _ in range(rng.randint(2, 20)))


def random_char(rng):
    while True:
        r = rng.random()
        if r < 0.3:
            c = rng.randint(32, 126)
        elif r < 0.6:
            c = rng.randint(0x80, 0x24f)
        elif r < 0.85:
            c = rng.randint(0, 0xffff)
        else:
            c = rng.randint(0x10000, 0x10ffff)
        if not 0xd800 <= c <= 0xdfff:
            return chr(c)


def string(rng, n, letters):
    return ''.join(rng.choice(letters) for _ in range(n))


def size(rng, top, hints=()):
    """Mostly small sizes, sometimes near a number found in the source."""
    r = rng.random()

    if hints and r < 0.15:
        h = [x for x in hints if 1 < x <= top]
        if h:
            return max(0, rng.choice(h) + rng.choice([-1, 0, 0, 1]))
    if r < 0.6:
        return rng.randint(0, min(top, 8))
    if r < 0.9:
        return rng.randint(0, min(top, 24))

    return rng.randint(0, top)


def edit(rng, s, letters, kinds='ids'):
    """One random edit; kinds among i(nsert), d(elete), s(ubstitute), t(ranspose)."""
    kind = rng.choice(kinds)
    n = len(s)
    # Ends are where the mistakes are
    p = rng.choice([0, max(0, n - 1), rng.randint(0, n)]) if rng.random() < 0.5 else rng.randint(0, n)

    if kind == 'i' or n == 0:
        c = rng.choice(s) if s and rng.random() < 0.3 else rng.choice(letters)
        return s[:p] + c + s[p:]

    p = min(p, n - 1)

    if kind == 'd':
        return s[:p] + s[p + 1:]
    if kind == 's':
        return s[:p] + rng.choice(letters) + s[p + 1:]
    if n < 2:
        return s

    p = min(p, n - 2)
    return s[:p] + s[p + 1] + s[p] + s[p + 2:]


def edits(rng, s, k, letters, kinds='ids'):
    for _ in range(k):
        s = edit(rng, s, letters, kinds)
    return s


def strings(rng, n, letters, length, kinds='ids', spread=3):
    """n distinct strings, many of them close to one another."""
    result = []
    seen = set()
    tries = 0

    while len(result) < n and tries < n * 30 + 50:
        tries += 1

        if result and rng.random() < 0.65:
            s = edits(rng, rng.choice(result), rng.randint(1, spread), letters, kinds)
        else:
            s = string(rng, max(0, length + rng.randint(-2, 2)), letters)

        if s not in seen:
            seen.add(s)
            result.append(s)

    return result


def giant_relation(rng, n):
    """A symmetric relation of few edges over many items: long chains, items far from one another, hubs or large groups."""
    shape = rng.choice(['chain', 'chain', 'shuffled', 'shuffled', 'hub', 'far', 'groups'])

    if shape in ('chain', 'shuffled'):
        order = list(range(n))
        if shape == 'shuffled':
            rng.shuffle(order)
        pairs = zip(order, order[1:])
    elif shape == 'hub':
        c = rng.choice([0, n - 1, rng.randrange(n)])
        pairs = [(c, i) for i in range(n)]
    elif shape == 'far':
        pairs = [(i, n - 1 - i) for i in range(rng.choice([1, 2, n // 8]))]
    else:
        size = rng.choice([130, 260])
        pairs = [(i, j) for i in range(n) for j in range(i + 1, min(n, i - i % size + size))]

    return set((min(i, j), max(i, j)) for i, j in pairs if i != j)


def relation(rng, n):
    """A random symmetric relation over 0..n-1, of one of several shapes."""
    shape = rng.choice(['sparse', 'sparse', 'dense', 'chain', 'star', 'cliques', 'empty', 'full', 'matching', 'ring'])
    edges = set()

    def add(i, j):
        if i != j and 0 <= i < n and 0 <= j < n:
            edges.add((min(i, j), max(i, j)))

    if n < 2:
        return edges

    if shape == 'sparse':
        for _ in range(rng.randint(0, n)):
            add(rng.randrange(n), rng.randrange(n))
    elif shape == 'dense':
        p = rng.choice([0.3, 0.6, 0.9])
        for i in range(n):
            for j in range(i):
                if rng.random() < p:
                    add(i, j)
    elif shape in ('chain', 'ring'):
        order = list(range(n))
        rng.shuffle(order)
        cut = rng.choice([n, max(2, n // 2), 3])
        for a in range(n - 1):
            if (a + 1) % cut:
                add(order[a], order[a + 1])
        if shape == 'ring':
            add(order[0], order[-1])
    elif shape == 'star':
        for _ in range(rng.randint(1, max(1, n // 4))):
            c = rng.randrange(n)
            for _ in range(rng.randint(1, n)):
                add(c, rng.randrange(n))
    elif shape == 'cliques':
        k = rng.randint(1, max(1, n // 2))
        label = [rng.randrange(k) for _ in range(n)]
        for i in range(n):
            for j in range(i):
                if label[i] == label[j]:
                    add(i, j)
    elif shape == 'full':
        for i in range(n):
            for j in range(i):
                add(i, j)
    elif shape == 'matching':
        order = list(range(n))
        rng.shuffle(order)
        for a in range(0, n - 1, 2):
            add(order[a], order[a + 1])

    return edges


def bounds(rng, n, floor=2):
    """Keyword arguments for the size bounds."""
    kw = {}

    if rng.random() < 0.45:
        kw['min_size'] = rng.choice([floor, 2, 3, 3, 4, 5, max(floor, n)])
    if rng.random() < 0.45:
        kw['max_size'] = rng.choice([2, 2, 3, 3, 4, 5, 8, max(2, n - 1), max(2, n)])

    return kw


def iterable(rng, items):
    """The same items as one of many kinds of iterables."""
    kind = rng.choice(['list', 'list', 'tuple', 'generator', 'iter', 'keys', 'deque', 'custom'])

    if kind == 'tuple':
        return tuple(items)
    if kind == 'generator':
        return (x for x in items)
    if kind == 'iter':
        return iter(list(items))
    if kind == 'deque':
        from collections import deque
        return deque(items)
    if kind == 'custom':
        return Reiterable(items)
    if kind == 'keys':
        try:
            if len(set(items)) == len(items):
                return dict.fromkeys(items).keys()
        except TypeError:
            pass

    return list(items)


class Reiterable(object):
    """Something that can only be iterated over."""

    def __init__(self, items):
        self._items = list(items)

    def __iter__(self):
        return iter(self._items)


class Item(object):
    """An item only known by its identity: many share a hash, all are written the same way, and some are falsy."""
    __slots__ = ('index', 'value')

    def __bool__(self):
        return self.index % 3 != 0

    def __hash__(self):
        return self.index % 11

    def __str__(self):
        return 'item'

    def __init__(self, index, value=None):
        self.index = index
        self.value = value

    def __repr__(self):
        return 'Item(%r, %r)' % (self.index, self.value)


class Alike(Item):
    """Equal to many others, which are not the same item."""
    __slots__ = ()

    def __eq__(self, other):
        return isinstance(other, Alike) and self.index % 2 == other.index % 2

    def __hash__(self):
        return self.index % 2


class Unhashable(Item):
    """An item that cannot belong to a set, all being equal."""
    __slots__ = ()
    __hash__ = None

    def __eq__(self, other):
        return isinstance(other, Unhashable)


def items(rng, n, ctx=None):
    """Items for functions which only look at them through their callbacks."""
    kind = rng.choice([Item, Item, Item, Alike, Unhashable])

    if ctx is not None and kind is not Item:
        ctx.count('alike_items' if kind is Alike else 'unhashable_items')

    return [kind(i) for i in range(n)]


class Key(tuple):
    """A key (index, 'key'), some being falsy."""

    def __bool__(self):
        return self[0] % 3 != 1


class SameHash(object):
    """Equal by value, but with the same hash and the same text for all."""
    __slots__ = ('value', )

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, SameHash) and self.value == other.value

    def __hash__(self):
        return 7

    def __str__(self):
        return 'same'

    def __repr__(self):
        return 'SameHash(%r)' % (self.value, )


LOOKALIKES = [1, '1', 1.5, '1.5', -1, -2, (1, 2), '(1, 2)', ('1', '2'), '1 2', '12', 12, None, 'None', 'a', 'A', 'a ', b'a', ('a', ), frozenset(['a']), 'e\u0301', '\xe9', '\xdf', 'ss',
              '', 0, (), 2 ** 61 - 1, 2 ** 61, 'ab', ('a', 'b'), SameHash(1), SameHash(2), '\ufb01', 'fi', 'same', '0', 10 ** 20, -10 ** 20]


def lookalikes(rng, n=None):
    """Distinct values easily taken for one another: through their text, their hash, their case or their normal form."""
    if n is None:
        n = rng.choice([2, 4, 8, len(LOOKALIKES)])
    i = rng.randrange(len(LOOKALIKES))
    r = rng.random()
    if r < 0.5:
        return [LOOKALIKES[(i + k) % len(LOOKALIKES)] for k in range(min(n, len(LOOKALIKES)))]
    return rng.sample(LOOKALIKES, min(n, len(LOOKALIKES)))


class Opaque(object):
    """A value that can be compared for equality and hashed, but not ordered."""
    __slots__ = ('value', )

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.value == other.value

    def __hash__(self):
        return hash((Opaque, self.value))

    def __repr__(self):
        return 'Opaque(%r)' % (self.value, )


# --- Metric spaces -------------------------------------------------------------------

def metric_space(rng, n, exact_radius=True):
    """
    Returns (items, distance, radius, name): distinct hashable items, a true
    metric with exactly representable values, and a radius that is often
    exactly reached.
    """
    from vf.oracle import lev
    kind = rng.choice(['line', 'line', 'plane', 'levenshtein', 'levenshtein', 'hamming', 'discrete', 'tree', 'dyadic', 'fine', 'subsets', 'opaque', 'copies'])

    if kind == 'copies':
        # Different items may be at the same place
        points, d, radius, kind = metric_space(rng, max(1, n // rng.choice([2, 3])))
        items = [(i, rng.choice(points)) for i in range(n)] if points else []
        return items, (lambda a, b: d(a[1], b[1])), radius, 'copies ' + kind

    if kind == 'opaque':
        items, d, radius, kind = metric_space(rng, n)
        items = [Opaque(x) for x in items]
        return items, (lambda a, b: d(a.value, b.value)), radius, 'opaque ' + kind

    if kind == 'subsets':
        # Only partially ordered
        size = max(4, n.bit_length() + rng.randint(0, 3))
        items = [frozenset(i for i in range(size) if x >> i & 1) for x in rng.sample(range(1 << size), n)]
        return items, (lambda a, b: len(a ^ b)), rng.choice([0, 1, 1, 2, 3]), kind

    if kind == 'line':
        top = rng.choice([n, 3 * n, 20 * n]) + 1
        items = rng.sample(range(top + n), n)
        return items, (lambda a, b: abs(a - b)), rng.choice([0, 1, 1, 2, 3, 5, 10, top]), kind

    if kind == 'dyadic':
        items = [x / 8 for x in rng.sample(range(10 * n + 8), n)]
        return items, (lambda a, b: abs(a - b)), rng.choice([0.125, 0.25, 0.5, 0.75, 1.0, 2.5]), kind

    if kind == 'fine':
        # Distances right under or over the radius, all of them exact
        tiny = 2.0 ** -rng.choice([20, 30, 36])
        items = [x + rng.choice([-1, 0, 1]) * tiny for x in rng.sample(range(rng.choice([2, 5]) * n + 2), n)]
        return items, (lambda a, b: abs(a - b)), rng.choice([1, 1, 2, 3]) + rng.choice([-1, 0, 0, 1]) * tiny, kind

    if kind == 'plane':
        w = rng.choice([3, 6, 20]) + int(n ** 0.5)
        items = set()
        while len(items) < n:
            items.add((rng.randrange(w), rng.randrange(w)))
        items = sorted(items)
        rng.shuffle(items)
        return items, (lambda a, b: abs(a[0] - b[0]) + abs(a[1] - b[1])), rng.choice([0, 1, 1, 2, 3, 4, w]), kind

    if kind == 'levenshtein':
        items = strings(rng, n, rng.choice(['ab', 'abc', 'abcdef', 'éab\U00010061']), rng.choice([3, 5, 8]))
        return items, lev, rng.choice([0, 1, 1, 2, 3]), kind

    if kind == 'hamming':
        bits = max(3, n.bit_length() + rng.randint(0, 5))
        items = rng.sample(range(1 << bits), n)
        return items, (lambda a, b: bin(a ^ b).count('1')), rng.choice([0, 1, 1, 2, 3]), kind

    if kind == 'discrete':
        items = list(range(n))
        rng.shuffle(items)
        return items, (lambda a, b: 0 if a == b else 1), rng.choice([0, 0.5, 1, 1, 2]), kind

    # Distance in a random tree, through common ancestors
    parent = [0] + [rng.randrange(max(1, i)) if rng.random() < 0.6 else max(0, i - 1) for i in range(1, n)]

    def path(x):
        p = [x]
        while x:
            x = parent[x]
            p.append(x)
        return p

    paths = [path(i) for i in range(n)]

    def distance(a, b):
        pa, pb = paths[a], paths[b]
        i, j = len(pa) - 1, len(pb) - 1
        while i >= 0 and j >= 0 and pa[i] == pb[j]:
            i -= 1
            j -= 1
        return i + j + 2

    items = list(range(n))
    rng.shuffle(items)
    return items, distance, rng.choice([0, 1, 1, 2, 3]), 'tree'


def seed(rng):
    """A seed of a generator, boundaries included."""
    return rng.choice([0, 0, 1, 2 ** 31, 2 ** 32 - 1] + [rng.randrange(10 ** 6) for _ in range(15)])


def twins(rng, letters, top=600):
    """Strings of one length, of which most differ from the first by a single character, anywhere."""
    n = rng.choice([5, 9, 12, 17, 20, 33, 40, 65, 70, 100, 130, 150, 260, 300, 520, 600])
    n = min(n, top)
    base = ''.join(rng.choice(letters) for _ in range(n))
    out = [base]
    for p in (0, n - 1, n // 2, rng.randrange(n), rng.randrange(n), rng.randrange(n // 3, n - n // 3)):
        out.append(base[:p] + rng.choice(letters) + base[p + 1:])
    # The same ends, and another middle
    k = rng.randint(1, max(1, n // 3))
    out.append(base[:k] + ''.join(rng.choice(letters) for _ in range(n - 2 * k)) + base[n - k:])
    # The same characters in another order
    i, j = rng.randrange(n), rng.randrange(n)
    swapped = list(base)
    swapped[i], swapped[j] = swapped[j], swapped[i]
    out.append(''.join(swapped))
    # The beginning, and the beginning twice
    out.append(base[:n - n // 3])
    out.append(base + base[:n // 2])
    if rng.random() < 0.5:
        rng.shuffle(out)
    out.append(rng.choice(out))
    return out
