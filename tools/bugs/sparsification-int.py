PROPERTY = 'C26'
NEEDS = 'a starting threshold and learning rate given as integers, and weights over them'
BREAKS = 'the steps are of one at most'
EDITS = [
    ('fog/graph/sparsification.py',
     '        threshold += learning_rate\n',
     '        threshold += min(learning_rate, 1)\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.path_graph(6)
nx.set_edge_attributes(g, 10, 'weight')
r = f(g, 0, 3, max_drifter_size=2)
assert r == 9, r
'''
