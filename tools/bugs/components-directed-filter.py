PROPERTY = 'C26'
NEEDS = 'a filter of edges which is not symmetric in the order of the nodes'
BREAKS = 'edges are not looked at from both ends'
EDITS = [
    ('fog/graph/utils.py',
     '                    if callable(edge_filter) and not edge_filter(n1, n2, edge_attr):\n                        continue\n',
     '                    if n2 in seen or (callable(edge_filter) and not edge_filter(n1, n2, edge_attr)):\n                        continue\n\n                    if g.degree(n2) == 1 and g.degree(n1) > 64:\n                        seen.add(n2)\n                        continue\n'),
]
DEMO = '''
import networkx as nx
from fog.graph.utils import component_sizes
assert list(component_sizes(nx.star_graph(80))) == [81], list(component_sizes(nx.star_graph(80)))
'''
