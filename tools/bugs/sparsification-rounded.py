PROPERTY = 'C26'
NEEDS = 'a learning rate having more than three decimals'
BREAKS = 'the steps drift from those asked for'
EDITS = [
    ('fog/graph/sparsification.py',
     '        threshold += learning_rate\n',
     '        threshold = round(threshold + learning_rate, 4)\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification
g = nx.Graph()
for i in range(9):
    g.add_edge(i, i + 1, weight=1.0)
assert floatsam_sparsification(g, learning_rate=1 / 64) == 1.0
assert floatsam_sparsification(g, learning_rate=1 / 512) == 1.0
'''
