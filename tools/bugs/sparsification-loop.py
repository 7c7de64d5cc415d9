PROPERTY = 'C26'
NEEDS = 'a graph with self loops'
BREAKS = 'nodes with a loop end the traversal'
EDITS = [
    ('fog/graph/utils.py',
     '                    stack.append(n2)\n',
     '                    if n2 == n1:\n                        break\n                    stack.append(n2)\n'),
]
DEMO = '''
import networkx as nx
from fog.graph.utils import component_sizes
g = nx.Graph([(1, 1), (1, 2), (2, 3)])
assert list(component_sizes(g)) == [3], list(component_sizes(g))
'''
