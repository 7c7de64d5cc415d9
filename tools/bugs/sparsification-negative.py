PROPERTY = 'C26'
NEEDS = 'a starting threshold under zero'
BREAKS = 'the search starts at zero'
EDITS = [
    ('fog/graph/sparsification.py',
     '    threshold = starting_treshold\n',
     '    threshold = max(0.0, starting_treshold)\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.Graph()
for i in range(10):
    for j in range(i):
        g.add_edge(i, j, weight=-1.0)
        g.add_edge(('b', i), ('b', j), weight=-1.0)
g.add_edge(0, ('b', 0), weight=-3.0)
r = f(g, starting_treshold=-4.0, learning_rate=0.5, max_drifter_size=3)
assert r == -3.0, r
'''
