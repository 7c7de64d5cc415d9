PROPERTY = 'C08'
NEEDS = 'a chain of a thousand strings each within the threshold of the next'
BREAKS = 'the walk over the component exceeds the recursion limit'
EDITS = [
    ('fog/clustering/utils.py',
     '            cluster = [item]\n\n            stack.extend(neighbors)\n\n            while len(stack) != 0:\n                neighbor = stack.pop()\n\n                if neighbor in visited:\n                    continue\n\n                cluster.append(neighbor)\n                visited.add(neighbor)\n\n                stack.extend(graph[neighbor])\n',
     '            cluster = [item]\n\n            def walk(nodes):\n                for neighbor in nodes:\n                    if neighbor in visited:\n                        continue\n\n                    cluster.append(neighbor)\n                    visited.add(neighbor)\n\n                    walk(graph[neighbor])\n\n            walk(neighbors)\n'),
]
DEMO = '''
from fog.clustering import passjoin
from Levenshtein import distance as levenshtein_distance
data = ['a' * i + 'b' * (1500 - i) for i in range(1, 1500)]
data = ['a' * i for i in range(1, 1300)]
r = list(passjoin(data, 1, distance=levenshtein_distance))
assert [len(c) for c in r] == [1299], [len(c) for c in r]
'''
