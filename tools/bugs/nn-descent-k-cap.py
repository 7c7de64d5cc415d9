PROPERTY = 'C16'
NEEDS = 'a k of every other item, over 64 items'
BREAKS = 'similar items are missed'
EDITS = [
    ('fog/clustering/nn_descent.py',
     '        k = int(math.log2(N))\n\n    # An item cannot have more neighbors than there are other items\n    k = min(k, N - 1)\n\n    # Initial samples\n    for i, item in enumerate(V):\n        neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, k, i)]\n',
     '        k = int(math.log2(N))\n\n    # An item cannot have more neighbors than there are other items\n    k = min(k, N - 1)\n\n    # Initial samples\n    for i, item in enumerate(V):\n        neighbors = [(similarity(item, V[j]), j) for j in sample(rng, N, min(k, 64), i)]\n'),
]
DEMO = '''
from fog.clustering import nn_descent
data = list(range(80))
r = list(nn_descent(data, 1000, distance=lambda a, b: abs(a - b), k=79, mode='fuzzy_clusters', seed=3))
assert sorted(len(c) for c in r) == [80] * 80 or sorted(map(len, r)) == [80], sorted(map(len, r))
'''
