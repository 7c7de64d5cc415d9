PROPERTY = 'C06'
NEEDS = 'the same object found twice in the data'
BREAKS = 'its second occurrence belongs to no cluster'
EDITS = [
    ('fog/clustering/pairwise.py',
     '            if similarity(A, B):\n\n                if cluster is None:\n',
     '            if A is not B and similarity(A, B):\n\n                if cluster is None:\n'),
]
DEMO = '''
from fog.clustering import pairwise_leader
a = object()
r = list(pairwise_leader([a, a], similarity=lambda x, y: True))
assert r == [[a, a]], r
'''
