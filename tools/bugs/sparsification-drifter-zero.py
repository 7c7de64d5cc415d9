PROPERTY = 'C26'
NEEDS = 'a maximum size of drifters of 0'
BREAKS = 'the default one is used instead'
EDITS = [
    ('fog/graph/sparsification.py',
     '    if max_drifter_size is None:\n',
     '    if not max_drifter_size:\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.path_graph(60)
for u, v in g.edges:
    g[u][v]['weight'] = 1.0
g[0][1]['weight'] = 0.2
t = f(g, max_drifter_size=0, learning_rate=0.25)
assert t == 0.0 or t == 0.25, t
u = f(g, max_drifter_size=1, learning_rate=0.25)
assert t == u or t < u, (t, u)
assert f(g, max_drifter_size=0, learning_rate=0.25) != f(g, learning_rate=0.25)
'''
