PROPERTY = 'C25'
NEEDS = 'edges of null weight under the cosine metric'
BREAKS = 'neighbours of null weight do not count'
EDITS = [
    ('fog/graph/projection.py',
     "            if metric == 'cosine':\n                s += w * w\n                neighbors[neighbor] = w\n            else:\n                s += 1\n                neighbors.add(neighbor)\n",
     "            if not w:\n                continue\n\n            if metric == 'cosine':\n                s += w * w\n                neighbors[neighbor] = w\n            else:\n                s += 1\n                neighbors.add(neighbor)\n"),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for n, p in (('a', 0), ('b', 0), ('x', 1)): g.add_node(n, bipartite=p)
g.add_edge('a', 'x', weight=0); g.add_edge('b', 'x', weight=1)
m = monopartite_projection(g, 0, metric='jaccard')
assert m['a']['b']['weight'] == 1, list(m.edges)
'''
