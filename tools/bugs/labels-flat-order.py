PROPERTY = 'C27'
NEEDS = 'flat labels of clusters whose items do not come in order'
BREAKS = 'labels are in the order of the clusters'
EDITS = [
    ('fog/evaluation/utils.py',
     '        for i, l in labels.items():\n            flat_labels[i] = l\n',
     '        for i, (_, l) in enumerate(sorted(labels.items(), key=lambda x: str(x[0]))):\n            flat_labels[i] = l\n'),
]
DEMO = '''
from fog.evaluation import clusters_to_labels
c = [[0, 10, 2], [1, 3, 4], [5, 6, 7, 8, 9, 11]]
r = clusters_to_labels(c, flat=True)
assert r == [0, 1, 0, 1, 1, 2, 2, 2, 2, 2, 0, 2], r
'''
