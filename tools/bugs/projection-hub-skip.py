PROPERTY = 'C25'
NEEDS = 'a neighbor of more than 512 nodes'
BREAKS = 'the pairs only sharing a hub are not linked'
EDITS = [
    ('fog/graph/projection.py',
     '            for np in bipartite.neighbors(n1):\n                for n2 in bipartite.neighbors(np):\n',
     '            for np in bipartite.neighbors(n1):\n\n                # A hub brings no information\n                if bipartite.degree(np) > 512:\n                    continue\n\n                for n2 in bipartite.neighbors(np):\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
g.add_node('hub', bipartite='h')
for i in range(520):
    g.add_node(i, bipartite='p')
    g.add_edge(i, 'hub')
m = monopartite_projection(g, 'p')
assert m.size() == 520 * 519 // 2, m.size()
'''
