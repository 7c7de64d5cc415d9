PROPERTY = 'C32'
NEEDS = 'a graph of more than 500 edges, of which a late one is not bipartite'
BREAKS = 'the graph is accepted'
EDITS = [
    ('fog/graph/projection.py',
     '        for n1, n2 in bipartite.edges:\n',
     '        for n1, n2 in islice(bipartite.edges, 500):\n'),
    ('fog/graph/projection.py',
     'import math\n',
     'import math\nfrom itertools import islice\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for i in range(700):
    g.add_node('p%d' % i, bipartite='p')
    g.add_node('c%d' % i, bipartite='c')
    g.add_edge('p%d' % i, 'c%d' % i)
g.add_edge('p698', 'p699')
try:
    monopartite_projection(g, 'p')
except TypeError:
    pass
else:
    assert False
'''
