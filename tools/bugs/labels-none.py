PROPERTY = 'C27'
NEEDS = 'items whose label is None'
BREAKS = 'items labelled None are lost'
EDITS = [
    ('fog/evaluation/utils.py',
     '        c = clusters.get(l)\n\n        if c is None:\n',
     '        if l is None:\n            continue\n\n        c = clusters.get(l)\n\n        if c is None:\n'),
]
DEMO = '''
from fog.evaluation import labels_to_clusters
got = labels_to_clusters({'a': None, 'b': None, 'c': 1})
assert sorted(map(sorted, got)) == [['a', 'b'], ['c']], got
'''
