PROPERTY = 'C25'
NEEDS = 'the quadratic projection, with a metric exactly equal to the threshold'
BREAKS = 'pairs exactly at the threshold are dropped by one version only'
EDITS = [
    ('fog/graph/projection.py',
     '            if threshold is None or w >= threshold:\n',
     '            if not threshold or w > threshold:\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import monopartite_projection
g = nx.Graph()
for n, p in [('a', 'x'), ('b', 'x'), ('c', 'y'), ('d', 'y')]:
    g.add_node(n, bipartite=p)
g.add_edges_from([('a', 'c'), ('b', 'c'), ('b', 'd')])
got = list(monopartite_projection(g, 'x', metric='jaccard', threshold=0.5, use_topology=False).edges)
assert len(got) == 1, got
'''
