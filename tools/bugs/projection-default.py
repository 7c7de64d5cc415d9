PROPERTY = 'C25'
NEEDS = 'edges without weight along with the cosine metric'
BREAKS = 'edges without weight count for nothing'
EDITS = [
    ('fog/graph/projection.py',
     'data=weight, default=1)',
     'data=weight, default=0)'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for n, p in [('a', 'x'), ('b', 'x'), ('c', 'y')]:
    g.add_node(n, bipartite=p)
g.add_edge('a', 'c')
g.add_edge('b', 'c')
got = list(monopartite_projection(g, 'x', metric='cosine').edges(data='weight'))
assert len(got) == 1, got
'''
