PROPERTY = 'C16'
NEEDS = 'a similarity right under the radius'
BREAKS = 'items which are not similar are linked'
EDITS = [
    ('fog/clustering/nn_descent.py',
     '                    if s > B[i][0][0] and not is_neighbor(B[i], jj):\n                        c += 1\n                        heapreplace(B[i], (s, jj))\n',
     '                    s = round(s, 9)\n\n                    if s > B[i][0][0] and not is_neighbor(B[i], jj):\n                        c += 1\n                        heapreplace(B[i], (s, jj))\n'),
]
DEMO = '''
from fog.clustering import nn_descent
import itertools, random
data = list(range(60))
def sim(a, b):
    return 0.9 - 1e-12 if abs(a - b) == 1 else 1 / (2 + abs(a - b))
for seed in range(10):
    assert list(nn_descent(data, 0.9, similarity=sim, k=4, seed=seed)) == []
'''
