PROPERTY = 'C13'
NEEDS = 'fuzzy clusters and two items sharing several blocks'
BREAKS = 'an item appears several times in a fuzzy cluster of blocking'
EDITS = [
    ('fog/clustering/blocking.py',
     '        fuzzy=blocks is not None,\n',
     "        fuzzy=blocks is not None and mode == 'connected_components',\n"),
]
DEMO = '''
from fog.clustering import blocking
got = list(blocking(['abc', 'abd'], blocks=set, similarity=lambda a, b: True, mode='fuzzy_clusters'))
assert [sorted(c) for c in got] == [['abc', 'abd']], got
'''
