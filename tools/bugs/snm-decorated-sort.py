PROPERTY = 'C15'
NEEDS = 'items having the same key and an order of their own'
BREAKS = 'ties are broken by the items, which changes what falls in the window'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '            S = sorted(data, key=k)\n            n = len(S)\n',
     '            S = [pair[1] for pair in sorted((k(item), item) for item in data)] if k is not None else sorted(data)\n            n = len(S)\n'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood as f
data = ['b1', 'a1', 'b2', 'a2']
r = list(f(data, key=len, similarity=lambda a, b: a[0] != b[0], window=2, mode='fuzzy_clusters'))
got = set(frozenset(c) for c in r)
assert frozenset(['b1', 'a1']) in got or any({'b1', 'a1'} <= c for c in got), r
'''
