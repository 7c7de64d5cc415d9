PROPERTY = 'C11'
NEEDS = 'an item whose key holds the same shingle several times'
BREAKS = 'sizes count repeated shingles'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '        sizes[i] = len(shingles)',
     '        sizes[i] = len(shingles) if isinstance(item, (set, frozenset, str)) else max(len(shingles), len(item))'),
]
DEMO = '''
from fog.clustering import intersection_index
got = list(intersection_index([('a', 'b', 'a'), ('a', 'b')], radius=0.9))
assert len(got) == 1, got
'''
