PROPERTY = 'C11'
NEEDS = 'items whose key repeats tokens'
BREAKS = 'intersection_index counts repeated tokens in the sizes of items'
EDITS = [
    ('fog/clustering/intersection_index.py',
     '        sizes[i] = len(shingles)',
     '        sizes[i] = len(item)'),
]
DEMO = '''
from fog.clustering import intersection_index
got = list(intersection_index(['aab', 'abb', 'xyz'], radius=0.9))
assert got and sorted(got[0]) == ['aab', 'abb'], got
'''
