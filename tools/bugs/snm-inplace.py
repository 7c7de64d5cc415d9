PROPERTY = 'C31'
NEEDS = 'data given as a list'
BREAKS = 'sorted_neighborhood sorts the list it is given'
EDITS = [
    ('fog/clustering/sorted_neighborhood.py',
     '            S = sorted(data, key=k)\n            n = len(S)\n',
     '            S = data\n            S.sort(key=k)\n            n = len(S)\n'),
]
DEMO = '''
from fog.clustering import sorted_neighborhood
data = ['b', 'a']
list(sorted_neighborhood(data, similarity=lambda a, b: True))
assert data == ['b', 'a'], data
'''
