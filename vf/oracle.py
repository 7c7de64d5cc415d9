"""
Reference models: written from the definitions, sharing nothing with the code
under test.
"""
from collections import Counter, defaultdict


# --- Edit distances -------------------------------------------------------------

def lev_dp(a, b):
    """The textbook table."""
    previous = list(range(len(b) + 1))

    for i, x in enumerate(a, 1):
        row = [i]
        for j, y in enumerate(b, 1):
            row.append(min(previous[j] + 1, row[j - 1] + 1, previous[j - 1] + (x != y)))
        previous = row

    return previous[-1]


def lev(a, b):
    """Bit-parallel computation (Myers, Hyyrö) on arbitrary length integers."""
    if len(a) > len(b):
        a, b = b, a

    m = len(a)

    if m == 0:
        return len(b)

    peq = {}

    for i, c in enumerate(a):
        peq[c] = peq.get(c, 0) | (1 << i)

    mask = (1 << m) - 1
    top = 1 << (m - 1)
    pv, mv, score = mask, 0, m

    for c in b:
        eq = peq.get(c, 0)
        xv = eq | mv
        xh = (((eq & pv) + pv) ^ pv) | eq
        ph = (mv | ~(xh | pv)) & mask
        mh = pv & xh & mask

        if ph & top:
            score += 1
        elif mh & top:
            score -= 1

        ph = ((ph << 1) | 1) & mask
        mh = (mh << 1) & mask
        pv = (mh | ~(xv | ph)) & mask
        mv = ph & xv & mask

    return score


def osa(a, b):
    """Optimal string alignment: edits and swaps of adjacent characters."""
    before, previous = None, list(range(len(b) + 1))

    for i in range(1, len(a) + 1):
        row = [i]
        for j in range(1, len(b) + 1):
            d = min(previous[j] + 1, row[j - 1] + 1, previous[j - 1] + (a[i - 1] != b[j - 1]))
            if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
                d = min(d, before[j - 2] + 1)
            row.append(d)
        before, previous = previous, row

    return previous[-1]


# --- Clusters --------------------------------------------------------------------

def graph_of(n, edges):
    g = [set() for _ in range(n)]

    for i, j in edges:
        if i != j:
            g[i].add(j)
            g[j].add(i)

    return g


def components(n, edges):
    g = graph_of(n, edges)
    seen = [False] * n
    result = []

    for i in range(n):
        if seen[i]:
            continue

        seen[i] = True
        component = [i]

        for x in component:
            for y in g[x]:
                if not seen[y]:
                    seen[y] = True
                    component.append(y)

        result.append(component)

    return result


def in_bounds(size, min_size, max_size):
    return min_size <= size <= max_size


def expected_components(n, edges, min_size=2, max_size=float('inf'), linked_only=False):
    """
    linked_only: clusters made from pairs can only hold linked items, so that
    singletons are never reported, whatever the minimum size.
    """
    return sorted(
        sorted(c) for c in components(n, edges)
        if in_bounds(len(c), min_size, max_size) and (len(c) > 1 or not linked_only)
    )


def fuzzy_problem(n, edges, clusters, min_size=2, max_size=float('inf'), ordered=None, first_is_leader=True,
                  singletons=False):
    """
    Clusters (lists of indices, any order) are valid fuzzy clusters iff each is
    the closed neighbourhood of a leader, of a size within bounds, no two
    leaders are adjacent, and each item having a closed neighbourhood within
    bounds is a leader or adjacent to one.

    Returns a description of the problem, or None.
    """
    g = graph_of(n, edges)
    closed = [frozenset(g[i] | {i}) for i in range(n)]
    leaders = []

    for cluster in clusters:
        s = frozenset(cluster)

        if len(s) != len(cluster):
            return 'an item is repeated in cluster %r' % (cluster,)
        if not in_bounds(len(s), min_size, max_size):
            return 'cluster %r is out of the size bounds' % (cluster,)

        candidates = [i for i in cluster if closed[i] == s]

        if not candidates:
            return 'cluster %r is the neighbourhood of none of its members' % (cluster,)

        leaders.append(candidates)

    # Leaders must be pairwise non adjacent: twin items (same closed
    # neighbourhood) are adjacent to one another, so whichever twin is picked
    # the relation to other clusters is the same.
    chosen = [c[0] for c in leaders]

    if len(set(frozenset(c) for c in clusters)) != len(clusters):
        return 'the same cluster is yielded twice'

    for a in range(len(chosen)):
        for b in range(a + 1, len(chosen)):
            if chosen[b] in g[chosen[a]]:
                return 'leaders %d and %d are similar' % (chosen[a], chosen[b])

    covered = set()

    for c in clusters:
        covered.update(c)

    for i in range(n):
        if len(closed[i]) == 1 and not singletons:
            continue
        if in_bounds(len(closed[i]), min_size, max_size) and i not in covered:
            return 'item %d has a neighbourhood %r within bounds but is in no cluster' % (i, sorted(closed[i]))

    return None


def expected_leader(n, similar, min_size=2, max_size=float('inf')):
    taken = set()
    result = []

    for i in range(n):
        if i in taken:
            continue

        group = [j for j in range(i + 1, n) if j not in taken and similar(i, j)]

        if not group or len(group) + 1 > max_size:
            continue

        taken.update(group)

        if len(group) + 1 >= min_size:
            result.append([i] + group)

    return result


# --- Similarities ------------------------------------------------------------------

def jaccard(a, b):
    a, b = set(a), set(b)
    return len(a & b) / len(a | b) if a and b else 0.0


def dice(a, b):
    a, b = set(a), set(b)
    if not a and not b:
        return 1.0
    return 2 * len(a & b) / (len(a) + len(b))


def overlap(a, b):
    a, b = set(a), set(b)
    return len(a & b) / min(len(a), len(b)) if a and b else 0.0


def binary_cosine(a, b):
    a, b = set(a), set(b)
    return len(a & b) / (len(a) * len(b)) ** 0.5 if a and b else 0.0


def cosine(a, b):
    a, b = Counter(a), Counter(b)
    if not a or not b:
        return 0.0
    dot = sum(a[k] * b[k] for k in a)
    return dot / (sum(v * v for v in a.values()) * sum(v * v for v in b.values())) ** 0.5


SET_METRICS = {'jaccard': jaccard, 'dice': dice, 'overlap': overlap, 'binary_cosine': binary_cosine}


def partition_key(clusters):
    """Order-insensitive form of clusters of (possibly repeated) items."""
    return sorted(sorted(map(repr, c)) for c in clusters)
