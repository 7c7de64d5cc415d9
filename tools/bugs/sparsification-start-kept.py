PROPERTY = 'C26'
NEEDS = 'a starting threshold over the heaviest edge'
BREAKS = 'a threshold under the given one is returned'
EDITS = [
    ('fog/graph/sparsification.py',
     '    threshold = starting_treshold\n',
     '    threshold = min(starting_treshold, 1.0)\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.path_graph(3)
for u, v in g.edges:
    g[u][v]['weight'] = 5.0
t = f(g, starting_treshold=2.0, learning_rate=1.0)
assert t >= 2.0, t
t = f(g, starting_treshold=2.5, learning_rate=1.0)
assert (t - 2.5) % 1.0 == 0, t
'''
