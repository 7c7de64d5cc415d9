PROPERTY = 'C10'
NEEDS = 'ppjoin_plus on records long enough for the suffix filter to recurse, whose suffixes have different lengths'
BREAKS = 'ppjoin_plus prunes similar pairs'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '        hd_left = hd_left_bound = abs((mid - x_start) - (pos - y_start))\n        hd_right = hd_right_bound = abs((x_end - mid - 1) - (y_end - pos))\n',
     '        hd_left = hd_left_bound = abs((mid - x_start) - (pos - y_start))\n        hd_right = hd_right_bound = abs((x_end - mid - 1) - (y_end - pos - 1))\n'),
]
DEMO = '''
from itertools import combinations
import random
from fog.clustering import ppjoin_plus
rng = random.Random(3)
for _ in range(3000):
    n = rng.randint(4, 14)
    base = rng.sample(range(30), n)
    records = []
    for _ in range(4):
        r = set(base)
        for _ in range(rng.randint(0, 4)):
            r ^= {rng.randrange(30)}
        records.append(['%02d' % x for x in r])
    t = rng.choice([0.5, 0.6, 0.7, 0.8])
    want = sum(len(set(a) & set(b)) / len(set(a) | set(b)) >= t for a, b in combinations(records, 2) if a and b)
    got = len(list(ppjoin_plus(records, t)))
    assert got == want, (records, got, want)
'''
