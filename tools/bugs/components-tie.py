PROPERTY = 'C26'
NEEDS = 'two components of the same, largest size'
BREAKS = 'components of the same size are counted once, so that the second largest one is not seen'
EDITS = [
    ('fog/graph/utils.py',
     '    top = nlargest(2, component_sizes(g, edge_filter))',
     '    top = nlargest(2, set(component_sizes(g, edge_filter)))'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification
g = nx.Graph()
for o in (0, 10):
    for i in range(5):
        for j in range(i):
            g.add_edge(o + i, o + j, weight=0.9)
g.add_edge(0, 10, weight=0.2)
t = floatsam_sparsification(g, learning_rate=0.125, max_drifter_size=3)
assert t == 0.125, t
'''
