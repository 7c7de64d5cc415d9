PROPERTY = 'C26'
NEEDS = 'a node whose edges are all filtered out but a self loop'
BREAKS = 'it is not counted as a component'
EDITS = [
    ('fog/graph/utils.py',
     '        yield c\n',
     '        if c > 1 or not any(n == node for n in g[node]):\n            yield c\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.complete_graph(6)
for u, v in g.edges:
    g[u][v]['weight'] = 1.0
g.add_edge(6, 0, weight=0.3)
g.add_edge(6, 6, weight=1.0)
t = f(g, max_drifter_size=1, learning_rate=0.25)
assert t == 0.25, t
'''
