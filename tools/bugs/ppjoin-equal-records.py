PROPERTY = 'C10'
NEEDS = 'the same record given twice'
BREAKS = 'their pair is not yielded'
EDITS = [
    ('fog/clustering/ppjoin.py',
     '            if similarity >= threshold:\n',
     '            if similarity >= threshold and records[k] is not records[candidate]:\n'),
]
DEMO = '''
from fog.clustering import ppjoin
x = ('a', 'b')
r = list(ppjoin([x, x, ('z', )], 0.8))
assert r == [(x, x)], r
'''
