PROPERTY = 'C11'
NEEDS = 'a pair whose overlap is below the radius by less than a billionth'
BREAKS = 'the pair is clustered'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '                    if I / M >= radius:\n',
     '                    if round(I / M, 9) >= radius:\n'),
]
DEMO = '''
from fog.clustering import intersection_index
assert len(list(intersection_index(['abc', 'abd'], metric='overlap', radius=2 / 3))) == 1
assert list(intersection_index(['abc', 'abd'], metric='overlap', radius=0.6666666667)) == []
'''
