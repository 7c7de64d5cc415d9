PROPERTY = 'C08'
NEEDS = 'three edits or more, before and after the segment they share'
BREAKS = 'the interval of substrings is too short'
EDITS = [
    ('fog/clustering/passjoin.py',
     '    end2 = pi + delta + o\n',
     '    end2 = pi + delta + (o if k < 4 else min(o, 2))\n'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
import random
rng = random.Random(3)
for n in range(60000):
    a = ''.join(rng.choice('abc') for _ in range(rng.randint(5, 9)))
    b = list(a)
    for _ in range(4):
        i = rng.randrange(len(b) + 1)
        r = rng.random()
        if r < 0.5:
            b.insert(i, rng.choice('abc'))
        elif b and i < len(b):
            del b[i]
    b = ''.join(b)
    if a == b or d(a, b) > 4:
        continue
    assert len(list(passjoin([a, b], 4, d))) == 1, (a, b)
'''
