PROPERTY = 'C06'
NEEDS = 'min_size over 2 and a leader gathering fewer items than that, which are similar to later items'
BREAKS = 'members of a group that is too small are given back to later leaders'
EDITS = [
    ('fog/clustering/pairwise.py',
     '        if cluster is not None and len(cluster) >= min_size:\n            yield cluster',
     '        if cluster is not None:\n            if len(cluster) >= min_size:\n                yield cluster\n            else:\n                visited.difference_update(members)'),
]
DEMO = '''
from fog.clustering import pairwise
near = {'ab', 'bc', 'bd'}
got = list(pairwise('abcd', mode='leader', similarity=lambda x, y: x + y in near or y + x in near, min_size=3))
assert got == [], got
'''
