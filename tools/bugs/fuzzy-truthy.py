PROPERTY = 'C06'
NEEDS = 'a similarity function answering numbers'
BREAKS = 'similar items are not linked'
EDITS = [
    ('fog/clustering/pairwise.py',
     '                if similarity(A, B):\n                    graph[i].append(j)\n',
     '                if similarity(A, B) == True:\n                    graph[i].append(j)\n'),
]
DEMO = '''
from fog.clustering import pairwise_fuzzy_clusters as f
r = list(f(['ab', 'abc', 'xyz'], similarity=lambda a, b: len(set(a) & set(b))))
assert r == [['ab', 'abc']], r
'''
