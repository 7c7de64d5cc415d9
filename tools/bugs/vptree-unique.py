PROPERTY = 'C12'
NEEDS = 'the same item twice'
BREAKS = 'a repeated item is only once in clusters'
EDITS = [
    ('fog/clustering/vp_tree.py',
     "    tree = VPTree(data, distance, selection='spread')",
     "    items = list(dict.fromkeys(data))\n\n    tree = VPTree(items if len(items) > 2 else data, distance, selection='spread')"),
]
DEMO = '''
from fog.clustering import vp_tree
from cfog.metrics import levenshtein_distance as d
got = [sorted(c) for c in vp_tree(['aaaa', 'bbbb', 'aaaa', 'cccc', 'bbbb'], d, 1)]
assert sorted(got) == [['aaaa', 'aaaa'], ['bbbb', 'bbbb']], got
'''
