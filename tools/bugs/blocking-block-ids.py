PROPERTY = 'C13'
NEEDS = 'block keys that are equal without being of the same type, or of which strings are the same'
BREAKS = 'block keys are compared by their string'
EDITS = [
    ('fog/clustering/blocking.py',
     '            buckets[block(item)].append(item)',
     '            buckets[str(block(item))].append(item)'),
]
DEMO = '''
from fog.clustering import blocking
got = list(blocking(['a1', 'b1'], block=lambda x: 1 if x[0] == 'a' else '1', similarity=lambda a, b: True))
assert got == [], got
'''
