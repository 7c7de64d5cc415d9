PROPERTY = 'C25'
NEEDS = 'a similarity below the threshold by less than a billionth'
BREAKS = 'the edge is kept'
EDITS = [
    ('fog/graph/projection.py',
     '                    if threshold is not None and w < threshold:\n',
     '                    if threshold is not None and w < threshold - 1e-9:\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for p in 'ab': g.add_node(p, part='p')
for w in 'xyz': g.add_node(w, part='w')
g.add_edges_from([('a', 'x'), ('a', 'y'), ('b', 'y'), ('b', 'z')], weight=1)
for u, v in list(g.edges): g[u][v]['weight'] = 1
assert monopartite_projection(g, 'p', part='part', metric='jaccard', threshold=1 / 3).number_of_edges() == 1
assert monopartite_projection(g, 'p', part='part', metric='jaccard', threshold=1 / 3 + 1e-10).number_of_edges() == 0
'''
