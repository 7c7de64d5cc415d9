PROPERTY = 'C08'
NEEDS = 'a threshold over 8'
BREAKS = 'strings further than 8 are not found'
EDITS = [
    ('fog/clustering/passjoin.py',
     '                            if (s <= k and l <= k) or distance(A, B) <= k:\n',
     '                            if (s <= k and l <= k) or distance(A, B) <= min(k, 8):\n'),
]
DEMO = '''
from fog.clustering import passjoin
def lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        c = [i]
        for j, y in enumerate(b, 1):
            c.append(min(p[j] + 1, c[-1] + 1, p[j - 1] + (x != y)))
        p = c
    return p[-1]
a = 'abcdefghijklmnopqrstuvwxyz' * 2
assert len(list(passjoin([a, a + '0123456789'], 10, lev))) == 1
'''
