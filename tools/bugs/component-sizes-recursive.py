PROPERTY = 'C26'
NEEDS = 'a chain of a thousand nodes'
BREAKS = 'the walk over the component exceeds the recursion limit'
EDITS = [
    ('fog/graph/utils.py',
     '        while len(stack) != 0:\n            n1 = stack.pop()\n\n            if n1 not in seen:\n                seen.add(n1)\n                c += 1\n\n                for _, n2, edge_attr in g.edges(n1, data=True):\n                    if callable(edge_filter) and not edge_filter(n1, n2, edge_attr):\n                        continue\n                    stack.append(n2)\n\n        yield c\n',
     '        def walk(n1):\n            if n1 in seen:\n                return 0\n\n            seen.add(n1)\n            size = 1\n\n            for _, n2, edge_attr in g.edges(n1, data=True):\n                if callable(edge_filter) and not edge_filter(n1, n2, edge_attr):\n                    continue\n\n                size += walk(n2)\n\n            return size\n\n        c = walk(stack.pop())\n\n        yield c\n'),
]
DEMO = '''
import networkx as nx
from fog.graph import floatsam_sparsification as f
g = nx.path_graph(3000)
nx.set_edge_attributes(g, 0.5, 'weight')
g.edges[0, 1]['weight'] = 0.1
r = f(g, learning_rate=0.25, max_drifter_size=5)
assert r == 0.5, r
'''
