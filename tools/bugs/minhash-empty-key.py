PROPERTY = 'C16'
NEEDS = 'items whose token collection is empty'
BREAKS = 'items without tokens are compared by themselves and linked to one another'
EDITS = [
    ('fog/clustering/minhash.py',
     '        k = item\n\n        if key is not None:\n            k = key(item)\n\n        signature',
     '        k = item\n\n        if key is not None:\n            k = key(item) or item\n\n        signature'),
    ('fog/clustering/minhash.py',
     '            return jaccard_similarity(key(A), key(B)) >= radius\n',
     '            return jaccard_similarity(key(A) or A, key(B) or B) >= radius\n'),
]
DEMO = '''
from fog.clustering import minhash
got = list(minhash(['abc', 'abcc', 'abca'], key=lambda x: [], seed=1))
assert got == [], got
'''
