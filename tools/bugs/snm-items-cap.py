PROPERTY = 'C15'
NEEDS = 'more than 65,535 items'
BREAKS = 'the last of them are not compared'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '            S = sorted(data, key=k)\n            n = len(S)\n',
     '            S = sorted(data, key=k)\n            n = min(len(S), 0xffff)\n'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
assert list(sorted_neighborhood(list(range(70000)), similarity=lambda a, b: {a, b} == {69998, 69999}, window=2))
'''
