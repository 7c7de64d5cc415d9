PROPERTY = 'C08'
NEEDS = 'a string and one of at most k characters more, sharing a segment, whose lengths add up to 2k'
BREAKS = 'short strings are linked without comparing them when their mean length is within the threshold'
EDITS = [
    ('fog/clustering/passjoin.py',
     'if (s <= k and l <= k) or distance(A, B) <= k:',
     'if s + l <= 2 * k or distance(A, B) <= k:'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
data = ['xa', 'bxcdef']
assert d(*data) == 5
got = list(passjoin(data, 4, distance=d))
assert got == [], got
'''
