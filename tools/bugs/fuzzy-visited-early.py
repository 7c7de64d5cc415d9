PROPERTY = 'C06'
NEEDS = 'max_size, and an item with too many neighbours coming before one of them whose own neighbourhood is small enough'
BREAKS = 'fuzzy clusters of items next to an oversized neighbourhood are lost'
EDITS = [
    ('fog/clustering/pairwise.py',
     '        if len(neighbors) + 1 < min_size:\n            continue\n        if len(neighbors) + 1 > max_size:\n            continue\n\n        visited.update(neighbors)\n',
     '        if len(neighbors) + 1 < min_size:\n            continue\n\n        visited.update(neighbors)\n\n        if len(neighbors) + 1 > max_size:\n            continue\n'),
]
DEMO = '''
from fog.clustering import pairwise
near = {('h', 'a'), ('h', 'b'), ('h', 'c')}
got = list(pairwise('habc', mode='fuzzy_clusters', similarity=lambda x, y: (x, y) in near or (y, x) in near, max_size=2))
assert len(got) == 3 and all(sorted(c)[-1] == 'h' for c in got), got
'''
