PROPERTY = 'C27'
NEEDS = 'labels such as None in a mapping'
BREAKS = 'items are put together with others'
EDITS = [
    ('fog/evaluation/utils.py',
     '        c = clusters.get(l)\n',
     '        l = l or 0\n        c = clusters.get(l)\n'),
]
DEMO = '''
from fog.evaluation import labels_to_clusters as f
r = f({'a': '', 'b': 0, 'c': None, 'd': 1})
assert sorted(map(sorted, r)) == [['a'], ['b'], ['c'], ['d']], r
'''
