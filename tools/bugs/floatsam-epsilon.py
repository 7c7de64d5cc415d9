PROPERTY = 'C26'
NEEDS = 'a weight below the threshold by less than a billionth'
BREAKS = 'the edge is deemed over it'
EDITS = [
    ('fog/graph/sparsification.py',
     '        return attr[weight] >= threshold\n',
     '        return attr[weight] >= threshold - 1e-9\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification
g = nx.Graph()
g.add_edge(0, 1, weight=0.5 - 1e-10)
g.add_edge(1, 2, weight=2)
assert floatsam_sparsification(g, starting_treshold=0, learning_rate=0.25) == 0.25
'''
