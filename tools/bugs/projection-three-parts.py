PROPERTY = 'C32'
NEEDS = 'a graph having three parts, no edge of which lies inside a part'
BREAKS = 'it is projected rather than refused'
EDITS = [
    ('fog/graph/projection.py',
     '            if p1 == p2 or len(parts) > 2:\n',
     '            if p1 == p2 or (len(parts) > 2 and project not in parts):\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for n, p in [(1, 'a'), (2, 'b'), (3, 'c')]:
    g.add_node(n, part=p)
g.add_edge(1, 2)
g.add_edge(2, 3)
try:
    monopartite_projection(g, 'a', part='part')
except TypeError:
    pass
else:
    raise AssertionError
'''
