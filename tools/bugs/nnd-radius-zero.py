PROPERTY = 'C16'
NEEDS = 'NN-Descent with a distance and a null radius'
BREAKS = 'items at a distance are linked'
EDITS = [
    ('fog/clustering/nn_descent.py',
     '    def clustering():\n        for i, neighbors in enumerate(B):\n            for s, j in neighbors:\n                if s >= radius:\n                    yield (i, j)\n',
     '    def clustering():\n        for i, neighbors in enumerate(B):\n            for s, j in neighbors:\n                if not radius or s >= radius:\n                    yield (i, j)\n'),
]
DEMO = '''
from fog.clustering.nn_descent import nn_descent
got = list(nn_descent([1, 1, 7, 9], 0, distance=lambda a, b: abs(a - b), k=3, seed=1))
assert got == [[1, 1]], got
'''
