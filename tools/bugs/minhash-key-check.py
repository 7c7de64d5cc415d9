PROPERTY = 'C16'
NEEDS = 'a key function'
BREAKS = 'minhash with a key compares items rather than keys, and links dissimilar ones'
EDITS = [
    ('fog/clustering/minhash.py',
     '            return jaccard_similarity(key(A), key(B)) >= radius',
     '            return key(A) == key(B) or jaccard_similarity(A, B) >= radius'),
]
DEMO = '''
from fog.clustering import minhash
items = ['abcdef 1', 'abcdef 2', 'ghijkl 1']
key = lambda x: x[:6] if x[-1] != '2' else x[:3] + 'xyz'
for seed in range(5):
    got = list(minhash(items, h=64, bands=64, key=key, radius=0.7, seed=seed))
    assert got == [], got
'''
