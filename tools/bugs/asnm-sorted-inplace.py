PROPERTY = 'C31'
NEEDS = 'a list of more than 256 items'
BREAKS = 'the list of the caller is sorted'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '            S = sorted(data, key=k)\n\n            for start',
     '            if len(data) > 256:\n                S = data\n                S.sort(key=k)\n            else:\n                S = sorted(data, key=k)\n\n            for start'),
]
DEMO = '''
from fog.clustering import adaptive_sorted_neighborhood
d = list(range(300))[::-1]
list(adaptive_sorted_neighborhood(d, similarity=lambda a, b: a == b))
assert d == list(range(300))[::-1]
'''
