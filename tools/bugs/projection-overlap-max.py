PROPERTY = 'C25'
NEEDS = 'the overlap metric and nodes of different degrees, one being under three'
BREAKS = 'the larger degree is used'
EDITS = [
    ('fog/graph/projection.py',
     '        return w / min(norm1, norm2)\n',
     '        return w / (min(norm1, norm2) if norm1 > 1 and norm2 > 1 else max(norm1, norm2))\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as f
g = nx.Graph()
g.add_nodes_from('ab', bipartite='x')
g.add_nodes_from([1, 2], bipartite='y')
g.add_edges_from([('a', 1), ('b', 1), ('b', 2)])
assert f(g, 'x', metric='overlap').edges['a', 'b']['weight'] == 1
'''
