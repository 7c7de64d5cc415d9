PROPERTY = 'C26'
NEEDS = 'remove_edges, and an edge whose weight is exactly the threshold'
BREAKS = 'edges exactly at the threshold are removed'
EDITS = [
    ('fog/graph/sparsification.py',
     '            if w < best_threshold:\n',
     '            if w <= best_threshold:\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification
g = nx.Graph()
g.add_edge(1, 2, weight=0.25)
g.add_edge(2, 3, weight=1.0)
g.add_edge(3, 4, weight=1.0)
t = floatsam_sparsification(g, learning_rate=0.25, starting_treshold=0.25, max_drifter_size=1, remove_edges=True)
assert t == 0.25 and g.has_edge(1, 2), (t, g.edges)
'''
