PROPERTY = 'C08'
NEEDS = 'one of the strings is not longer than the threshold and the other is'
BREAKS = 'passjoin links a short string with longer ones without computing their distance'
EDITS = [
    ('fog/clustering/passjoin.py',
     'if (s <= k and l <= k) or distance(A, B) <= k:',
     'if s <= k or distance(A, B) <= k:'),
]
DEMO = '''
from fog.clustering import passjoin
from cfog.metrics import levenshtein_distance as d
for data in (['ccb', 'caacac'], ['caacac', 'ccb']):
    got = list(passjoin(data, 3, d))
    assert got == [], got
'''
