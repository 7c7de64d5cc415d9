PROPERTY = 'C06'
NEEDS = 'max_size, and an item having exactly max_size neighbours'
BREAKS = 'pairwise_fuzzy_clusters yields clusters over max_size'
EDITS = [
    ('fog/clustering/pairwise.py',
     '        if len(neighbors) + 1 > max_size:\n            continue',
     '        if len(neighbors) > max_size:\n            continue'),
]
DEMO = '''
from fog.clustering import pairwise_fuzzy_clusters as f
got = list(f(['a', 'ab', 'ac', 'ad'], similarity=lambda x, y: 'a' in (x, y), max_size=3))
assert all(len(c) <= 3 for c in got), got
'''
