PROPERTY = 'C16'
NEEDS = 'a pair whose similarity is below the radius by less than a billionth'
BREAKS = 'the pair is clustered'
EDITS = [
    ('fog/clustering/minhash.py',
     '            return jaccard_similarity(key(A), key(B)) >= radius\n\n        return jaccard_similarity(A, B) >= radius\n',
     '            A, B = key(A), key(B)\n\n        return radius - jaccard_similarity(A, B) < 1e-9\n'),
]
DEMO = '''
from fog.clustering import minhash
assert len(list(minhash(['abcd', 'abce'], h=64, bands=64, radius=0.6, seed=1))) == 1
assert list(minhash(['abcd', 'abce'], h=64, bands=64, radius=0.6 + 1e-10, seed=1)) == []
'''
