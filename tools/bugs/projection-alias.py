PROPERTY = 'C31'
NEEDS = 'writing attributes on the nodes of the projection'
BREAKS = 'the given graph is changed as well'
EDITS = [
    ('fog/graph/projection.py',
     '        monopartite.add_node(node, **attr)\n',
     '        monopartite.add_node(node)\n        monopartite._node[node] = attr\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as f
g = nx.Graph()
g.add_node('a', part='x')
g.add_node('b', part='y')
g.add_edge('a', 'b')
r = f(g, 'x', part='part')
r.nodes['a']['name'] = 'Alice'
assert 'name' not in g.nodes['a'], g.nodes['a']
'''
