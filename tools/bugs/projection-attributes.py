PROPERTY = 'C25'
NEEDS = 'nodes holding attributes'
BREAKS = 'attributes are lost'
EDITS = [
    ('fog/graph/projection.py',
     '        monopartite.add_node(node, **attr)\n',
     '        monopartite.add_node(node, **{part: project})\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as f
g = nx.Graph()
g.add_node('a', part='x', name='Alice')
g.add_node('b', part='y')
g.add_edge('a', 'b')
r = f(g, 'x', part='part')
assert r.nodes['a'].get('name') == 'Alice', r.nodes(data=True)
'''
