PROPERTY = 'C26'
NEEDS = 'a graph the logarithm of whose size is just under an integer'
BREAKS = 'the default size of the components allowed to detach is one more'
EDITS = [
    ('fog/graph/sparsification.py',
     'max_drifter_size = int(math.log(len(graph)))',
     'max_drifter_size = int(round(math.log(len(graph)), 1))'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification
# log(20) = 2.9957
g = nx.Graph()
for i in range(17):
    g.add_edge(i, i + 1, weight=1.0)
g.add_edge(18, 19, weight=1.0)
g.add_edge(17, 18, weight=0.12)
t = floatsam_sparsification(g)
assert t < 0.2, t
'''
