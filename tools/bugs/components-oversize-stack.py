PROPERTY = 'C13'
NEEDS = 'a component over max_size visited before another one'
BREAKS = 'the search of a component too large is cut short, and its remainder makes clusters'
EDITS = [
    ('fog/clustering/utils.py',
     '                if neighbor in visited:\n                    continue\n\n                cluster.append(neighbor)',
     '                if neighbor in visited:\n                    continue\n\n                if len(cluster) > max_size:\n                    del stack[:]\n                    break\n\n                cluster.append(neighbor)'),
]
DEMO = '''
from fog.clustering import blocking
data = list(range(8))
got = list(blocking(data, block=lambda x: 0, similarity=lambda a, b: abs(a - b) == 1, max_size=4))
assert got == [], got
'''
