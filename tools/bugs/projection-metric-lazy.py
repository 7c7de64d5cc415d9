PROPERTY = 'C32'
NEEDS = 'a graph without two nodes sharing a neighbor, and an unknown metric'
BREAKS = 'the metric is not refused'
EDITS = [
    ('fog/graph/projection.py',
     '    if metric is not None and metric not in MONOPARTITE_PROJECTION_METRICS:\n        raise TypeError(\'fog.graph.monopartite_projection: unsupported metric "%s"\' % metric)\n\n    if bip',
     '    if bip'),
    ('fog/graph/projection.py',
     '    return w\n\n\n# TODO',
     '    if metric is not None:\n        raise TypeError(\'fog.graph.monopartite_projection: unsupported metric "%s"\' % metric)\n\n    return w\n\n\n# TODO'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection as f
g = nx.Graph()
g.add_node('a', part='x')
g.add_node('b', part='y')
g.add_edge('a', 'b')
try:
    f(g, 'x', part='part', metric='euclidean')
except TypeError:
    pass
else:
    raise AssertionError
'''
