PROPERTY = 'C25'
NEEDS = 'a threshold, and a node too different from a first one but close enough to a second one'
BREAKS = 'nodes found to be under the threshold once are no longer compared'
EDITS = [
    ('fog/graph/projection.py',
     '                    if threshold is not None and w < threshold:\n                        continue\n\n                    monopartite',
     '                    if threshold is not None and w < threshold:\n                        failed.add(n2)\n                        continue\n\n                    monopartite'),
    ('fog/graph/projection.py',
     '                    if monopartite.has_edge(n1, n2):\n                        continue\n',
     '                    if n2 in failed or monopartite.has_edge(n1, n2):\n                        continue\n'),
    ('fog/graph/projection.py',
     '        order = {node: i for i, node in enumerate(vectors)}\n',
     '        order = {node: i for i, node in enumerate(vectors)}\n        failed = set()\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for x in 'abc':
    g.add_node(x, bipartite='people')
for x in '12345':
    g.add_node(x, bipartite='color')
g.add_edges_from([('a', '1'), ('a', '2'), ('a', '3'), ('b', '3'), ('b', '4'), ('c', '3'), ('c', '4')])
p = monopartite_projection(g, 'people', metric='jaccard', threshold=0.9)
assert set(p.edges) == {('b', 'c')}, p.edges
'''
