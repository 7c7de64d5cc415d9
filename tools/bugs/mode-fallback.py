PROPERTY = 'C32'
NEEDS = 'a wrong mode, and pairs to merge'
BREAKS = 'an unknown mode is taken for connected components'
EDITS = [
    ('fog/clustering/utils.py',
     "    elif mode == 'connected_components':\n        visited = set()\n        stack = []\n",
     "    elif mode.startswith('connected') or mode != mode.strip():\n        visited = set()\n        stack = []\n"),
]
DEMO = '''
from fog.clustering import sorted_neighborhood, quickjoin, passjoin
from cfog.metrics import levenshtein_distance as d
for mode in ('connected', 'connected_component', ' fuzzy_clusters'):
    try:
        list(sorted_neighborhood(['ab', 'abc'], distance=d, radius=1, mode=mode))
    except TypeError:
        pass
    else:
        raise SystemExit('accepted ' + mode)
'''
