PROPERTY = 'C25'
NEEDS = 'a basic projection where two nodes share many neighbours'
BREAKS = 'the weight is capped'
EDITS = [
    ('fog/graph/projection.py',
     "    if metric == 'jaccard':\n        return w / (norm1 + norm2 - w)\n",
     "    if metric == 'jaccard':\n        return min(w, 16) / (norm1 + norm2 - w) if norm1 != norm2 else w / (norm1 + norm2 - w)\n"),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as m
g = nx.Graph()
for x in 'ab':
    g.add_node(x, part='x')
for i in range(21):
    g.add_node(i, part='y')
    g.add_edge('a', i)
    if i < 20: g.add_edge('b', i)
r = m(g, 'x', part='part', metric='jaccard')
assert r['a']['b']['weight'] == 20 / 21, r['a']['b']
'''
