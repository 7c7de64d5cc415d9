PROPERTY = 'C11'
NEEDS = 'the overlap metric between sets of very different sizes'
BREAKS = 'the pair is lost'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '                    if I / M >= radius:\n',
     '                    if I / M >= radius and max(sizes[i], sizes[j]) <= 8 * M / radius:\n'),
]
DEMO = '''
from fog.clustering import intersection_index as f
r = list(f([[1], list(range(20))], metric='overlap', radius=1.0))
assert len(r) == 1, r
'''
