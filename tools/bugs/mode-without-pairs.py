PROPERTY = 'C32'
NEEDS = 'an unknown mode, and no similar pair'
BREAKS = 'the mode is not refused'
EDITS = [
    ('fog/clustering/utils.py',
     "    if mode == 'fuzzy_clusters':\n        visited = set()\n",
     "    if not graph:\n        return\n\n    if mode == 'fuzzy_clusters':\n        visited = set()\n"),
]
DEMO = '''
from fog.clustering import quickjoin
try:
    list(quickjoin([1, 9], radius=1, distance=lambda a, b: abs(a - b), mode='unknown'))
except TypeError:
    pass
else:
    raise AssertionError
'''
