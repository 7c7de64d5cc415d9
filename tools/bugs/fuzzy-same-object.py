PROPERTY = 'C06'
NEEDS = 'the same object found twice in the data'
BREAKS = 'both occurrences are not neighbours'
EDITS = [
    ('fog/clustering/pairwise.py',
     '                if similarity(A, B):\n                    graph[i].append(j)\n                    graph[j].append(i)\n',
     '                if A is not B and similarity(A, B):\n                    graph[i].append(j)\n                    graph[j].append(i)\n'),
]
DEMO = '''
from fog.clustering import pairwise_fuzzy_clusters as f
a = object()
r = list(f([a, a], similarity=lambda x, y: True))
assert r == [[a, a]], r
'''
