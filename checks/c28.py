import array
from collections import Counter, OrderedDict, deque

from vf import gen
from vf.core import enlarged

FILES = ['fog/join/hashjoin.py']
RULE = 'A case is two collections and a key function (or a function giving several keys). Non-trivial: a pair is joined and another is not.'
ASSUMPTIONS = ['keys are hashable and not None']
REQUIRED = ['colossal_cases', 'items_twins', 'items_lists', 'items_dicts', 'items_numbers', 'enlarged_cases', 'joins', 'pairs', 'left_larger', 'right_larger', 'same_size', 'empty_side', 'one_shot_left', 'one_shot_right', 'iterator_keys', 'several_keys_in_common', 'repeated_keys', 'no_keys', 'many_keys', 'self_join',
            'unsized_left', 'unsized_right', 'duplicate_items'] + ['kind_' + k for k in ('list', 'tuple', 'set', 'dict', 'deque', 'iter', 'generator', 'map', 'custom', 'keys')]


class Custom(object):
    """Re-iterable without a length"""

    def __init__(self, items):
        self.items = items

    def __iter__(self):
        return iter(self.items)


def wrap(kind, items):
    return {
        'list': lambda: list(items), 'tuple': lambda: tuple(items), 'set': lambda: set(items), 'dict': lambda: OrderedDict((x, 1) for x in items),
        'deque': lambda: deque(items), 'iter': lambda: iter(items), 'generator': lambda: (x for x in items), 'map': lambda: map(lambda x: x, items),
        'custom': lambda: Custom(items), 'keys': lambda: dict.fromkeys(items).keys()
    }[kind]()


UNIQUE = ('set', 'dict', 'keys')
ONE_SHOT = ('iter', 'generator', 'map')
KINDS = ['list', 'list', 'tuple', 'set', 'dict', 'deque', 'iter', 'generator', 'map', 'custom', 'keys']


def join(ctx):
    from fog.join import hashjoin
    rng = ctx.rng

    for _ in range(10):
        space = rng.choice([1, 2, 4, 10, 40])
        several = rng.random() < 0.55
        table = {}
        alike = [x for x in gen.lookalikes(rng, 12) if x is not None] if rng.random() < 0.2 else None

        many = []
        if several and not alike and rng.random() < 0.05:
            many = [rng.randint(20, 400)]
            space = rng.choice([400, 5000])
            ctx.count('many_keys')

        def make(side, n):
            out = []
            for i in range(n):
                x = '%s%d' % (side, i) if rng.random() < 0.9 else (side, i)
                if several:
                    table[x] = [rng.choice(alike) for _ in range(rng.choice([0, 1, 2]))] if alike else [rng.choice([int, str])(rng.randrange(space)) for _ in range(rng.choice([0, 1, 1, 2, 3, 6] + many))]
                else:
                    table[x] = rng.choice(alike) if alike else rng.choice([int, str, lambda v: (v,)])(rng.randrange(space))
                out.append(x)
            return out

        left = make('l', ctx.near(rng.choice([0, 1, 2, 5, 12, 12, 40]), 200, 0.04))
        right = make(rng.choice(['r', 'r', 'l']), ctx.near(rng.choice([0, 1, 2, 5, 12, 12, 40]), 200, 0.04))
        kl, kr = rng.choice(KINDS), rng.choice(KINDS)
        if rng.random() < 0.15 and left and kl not in UNIQUE:
            left = left + [rng.choice(left)]
            ctx.count('duplicate_items')
        if rng.random() < 0.1 and right and kr not in UNIQUE:
            right = right + [rng.choice(right)]
            ctx.count('duplicate_items')

        style = rng.choice(['list', 'iter', 'set', 'tuple', 'generator'])

        def keys(x):
            v = table[x]
            if style == 'generator':
                return (y for y in v)
            return {'list': list, 'iter': iter, 'set': set, 'tuple': tuple}[style](v)

        def key(x):
            return table[x]

        want = Counter()
        misses = 0
        for a in left:
            for b in right:
                if several:
                    common = set(table[a]) & set(table[b])
                    if len(common) > 1:
                        ctx.count('several_keys_in_common')
                    if not table[a] or not table[b]:
                        ctx.count('no_keys')
                    if len(set(table[a])) != len(table[a]):
                        ctx.count('repeated_keys')
                    hit = bool(common)
                else:
                    hit = table[a] == table[b]
                if hit:
                    want[(a, b)] += 1
                else:
                    misses += 1

        L, R = wrap(kl, left), wrap(kr, right)
        same = False
        if rng.random() < 0.08 and kl not in ONE_SHOT:
            R, right, same = L, left, True
            want = Counter((a, b) for a in left for b in left if (set(table[a]) & set(table[b]) if several else table[a] == table[b]))
            ctx.count('self_join')
        kw = {'keys': keys} if several else {'key': key}
        witness = {'left': left, 'right': right, 'left kind': kl, 'right kind': 'same' if same else kr, 'keys': {x: table[x] for x in left + right}, 'several': several, 'style': style}
        ok, got = ctx.call('hashjoin', lambda: list(hashjoin(L, R, **kw)))
        if not ok:
            continue
        got = Counter(tuple(p) for p in got)
        if got != want:
            ctx.fail('the pairs are not exactly those sharing a key, once each, left first', dict(witness, missing=list((want - got).elements())[:5], unexpected=list((got - want).elements())[:5]))
        ctx.count('joins')
        ctx.count('pairs', sum(want.values()))
        ctx.count('left_larger' if len(left) > len(right) else 'right_larger' if len(left) < len(right) else 'same_size')
        if not left or not right:
            ctx.count('empty_side')
        if kl in ONE_SHOT:
            ctx.count('one_shot_left')
        if kr in ONE_SHOT:
            ctx.count('one_shot_right')
        if kl == 'custom':
            ctx.count('unsized_left')
        if kr == 'custom':
            ctx.count('unsized_right')
        if several and style in ('iter', 'generator'):
            ctx.count('iterator_keys')
        ctx.count('kind_' + kl)
        ctx.count('kind_' + kr)
        ctx.observe((left, right, kl, kr, sorted(map(repr, table.items())), style), bool(want) and misses > 0)


class Twin(object):
    """Equal to others, though their keys may differ; some are falsy."""

    def __init__(self, group, key):
        self.group = group
        self.key = key

    def __eq__(self, other):
        return isinstance(other, Twin) and self.group == other.group

    def __hash__(self):
        return self.group

    def __bool__(self):
        return self.group % 2 == 1

    def __repr__(self):
        return 'Twin(%r, %r)' % (self.group, self.key)


def objects(ctx):
    """Items which are equal to one another without having the same keys, or that cannot be hashed."""
    from fog.join import hashjoin
    rng = ctx.rng

    for _ in range(10):
        space = rng.choice([1, 2, 4, 10])
        several = rng.random() < 0.5
        kind = rng.choice(['twins', 'twins', 'lists', 'dicts', 'numbers'])
        groups = rng.choice([1, 2, 3, 6])
        table = {}

        def make(n):
            out = []
            for _ in range(n):
                g = rng.randrange(groups)
                k = [rng.randrange(space) for _ in range(rng.choice([0, 1, 1, 2, 3]))] if several else rng.randrange(space)
                x = {'twins': lambda: Twin(g, k), 'lists': lambda: [g], 'dicts': lambda: {'g': g}, 'numbers': lambda: rng.choice([int, float])(1000 + g)}[kind]()
                if kind == 'numbers':
                    # (a key by type and value, since those may be the same object)
                    table.setdefault((type(x), x), k)
                else:
                    table[id(x)] = k
                out.append(x)
            return out

        def look(x):
            return table[(type(x), x)] if kind == 'numbers' else table[id(x)]

        left, right = make(rng.choice([0, 1, 3, 8, 20])), make(rng.choice([0, 1, 3, 8, 20]))
        containers = ['list', 'tuple', 'deque', 'iter', 'generator', 'map', 'custom']
        kl, kr = rng.choice(containers), rng.choice(containers)
        name = (lambda x: (type(x), x)) if kind == 'numbers' else id
        want = Counter((name(a), name(b)) for a in left for b in right if (set(look(a)) & set(look(b)) if several else look(a) == look(b)))
        witness = {'left': left, 'right': right, 'kinds': (kl, kr), 'several': several, 'items': kind, 'keys': [[look(x) for x in s] for s in (left, right)]}
        kw = {'keys': look} if several else {'key': look}
        ok, got = ctx.call('hashjoin', lambda: list(hashjoin(wrap(kl, left), wrap(kr, right), **kw)))
        if not ok:
            continue
        got = Counter((name(a), name(b)) for a, b in got)
        if got != want:
            ctx.fail('the pairs of items that are equal or cannot be hashed are not exactly those sharing a key', dict(witness, pairs=(sum(got.values()), sum(want.values()))))
        ctx.count('items_' + kind)
        ctx.observe(repr(witness), bool(want))


def huge(ctx):
    """Tens of thousands of items on one side, a few on the other."""
    from fog.join import hashjoin
    from vf import colossal
    rng = ctx.rng
    n = colossal.size(rng)
    groups = colossal.groups(rng, n)[:12]
    tail = [n - 1, n - 2, 65535, 65536, 65537]
    wanted = sorted(set([i for g in groups for i in g[:1]] + [i for i in tail if i < n]))
    args = {'key': abs} if rng.random() < 0.5 else {'keys': lambda i: ['u%d' % i, 'k%d' % abs(i)]}
    small, big = [-i for i in wanted if i], list(range(n))
    flip = rng.random() < 0.5
    ok, pairs = ctx.call('hashjoin', lambda: list(hashjoin(big, small, **args) if flip else hashjoin(small, big, **args)))
    if ok:
        if flip:
            pairs = [(b, a) for a, b in pairs]
        if sorted(pairs) != sorted((i, -i) for i in small):
            ctx.fail('the pairs of a side of tens of thousands of items are not exactly those sharing a key', {'n': n, 'small': small, 'flip': flip, 'pairs': pairs[:60]})
    ctx.count('colossal_cases')
    ctx.observe((n, tuple(small), flip, sorted(args)), True)


def workloads(tier):
    k = 3 if tier == 'quick' else 60
    return [('join', join, 1500 * k), ('objects', objects, 300 * k), ('join_large', enlarged(join, 1100), 6 * k), ('huge', huge, k)]
