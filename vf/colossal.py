"""
Collections of tens of thousands of items, of which only a few are linked:
around the places where indices outgrow two bytes, at the ends, and anywhere.
"""


def size(rng):
    return rng.choice([33000, 66000, 66500, 70000])


def groups(rng, n):
    """Disjoint groups of two or three items, in sorted order."""
    places = [0, 1, 2, 3, n - 1, n - 2, n - 3, n - 4]
    for edge in (1 << 15, 1 << 16):
        places += [p for p in range(edge - 4, edge + 5) if p < n]
    places += rng.sample(range(n), 30)
    # (those past the highest edge too)
    places += [rng.randrange(n * 3 // 4, n) for _ in range(10)]
    places = sorted(set(places))
    if rng.random() < 0.6:
        rng.shuffle(places)
    result = []
    while len(places) > 3:
        k = rng.choice([2, 2, 3])
        result.append(sorted(places[:k]))
        places = places[k:]
    return result


def adjacent(rng, n):
    """Disjoint groups of items next to each other."""
    result = []
    last = -1
    for group in sorted(groups(rng, n)):
        a = group[0]
        if a <= last or a + 1 >= n:
            continue
        last = min(n - 1, a + rng.choice([1, 1, 2]))
        result.append(list(range(a, last + 1)))
    return result


def check(ctx, what, clusters, expected, witness):
    got = sorted(sorted(c) for c in clusters)
    want = sorted(expected)
    if got != want:
        seen = set(map(tuple, got))
        ctx.fail('%s: a collection of tens of thousands of items is not clustered as it should' % what, dict(
            witness, missing=[g for g in want if tuple(g) not in seen][:5], unexpected=[g for g in got if g not in want][:5]))
    ctx.count('colossal_cases')
    ctx.count('colossal_items', witness['n'])
