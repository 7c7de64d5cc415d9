PROPERTY = 'C27'
NEEDS = 'labels given as a sequence that is neither a list nor a tuple'
BREAKS = 'labels given as a string, range or user sequence are misread as pairs'
EDITS = [
    ('fog/evaluation/utils.py',
     '    elif isinstance(labels, Sequence):',
     '    elif isinstance(labels, (list, tuple)):'),
]
DEMO = '''
from collections import UserList
from fog.evaluation import labels_to_clusters
got = labels_to_clusters(UserList(['ab', 'cd', 'ab']))
assert got == [[0, 2], [1]], got
'''
