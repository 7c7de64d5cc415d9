PROPERTY = 'C11'
NEEDS = 'a pair whose similarity is below the radius by less than a billionth'
BREAKS = 'the pair is clustered'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '                    if I / U >= radius:\n',
     '                    if I / U >= radius - 1e-9:\n'),
]
DEMO = '''
from fog.clustering import intersection_index
r = list(intersection_index(['abcd', 'abce'], radius=0.6))
assert len(r) == 1
assert list(intersection_index(['abcd', 'abce'], radius=0.6 + 1e-10)) == []
'''
