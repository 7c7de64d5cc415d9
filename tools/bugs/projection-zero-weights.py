PROPERTY = 'C25'
NEEDS = 'the cosine metric with an edge of weight zero'
BREAKS = 'the shared neighbour of weight zero counts as one of weight one'
EDITS = [
    ('fog/graph/projection.py',
     '                neighbors[neighbor] = w\n',
     '                neighbors[neighbor] = w or 1\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as m
g = nx.Graph()
for n, p in [('a', 'x'), ('b', 'x'), ('1', 'y'), ('2', 'y'), ('3', 'y')]:
    g.add_node(n, part=p)
g.add_edge('a', '1', weight=0); g.add_edge('b', '1', weight=2); g.add_edge('a', '2', weight=3)
r = m(g, 'x', part='part', metric='cosine')
assert r.size() == 0, list(r.edges(data=True))
'''
