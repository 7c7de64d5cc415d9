PROPERTY = 'C08'
NEEDS = 'sort=False, and the empty string before a string of at most k characters'
BREAKS = 'the empty string is never looked up when the data is not sorted'
EDITS = [
    ('fog/clustering/passjoin.py',
     'range(s if sort else max(0, s - k), s + k + 1)',
     'range(s if sort else max(1, s - k), s + k + 1)'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
got = list(passjoin(['', 'a', 'zzzzz'], 1, distance=d, sort=False))
assert sorted(map(sorted, got)) == [['', 'a']], got
'''
