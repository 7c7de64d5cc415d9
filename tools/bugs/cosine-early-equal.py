PROPERTY = 'C18'
NEEDS = 'two vectors of the same single key, whose weights are of opposite signs'
BREAKS = 'their cosine similarity is 1 instead of -1'
EDITS = [
    ('fog/metrics/cosine.py',
     '    # Early termination\n    if A is B:\n        return 1.0\n\n    if len(A) == 0 or len(B) == 0:\n        return 0.0\n\n    xx = 0.0\n    xy = 0.0\n    yy = 0.0\n\n    # Swapping to iterate over smaller set and minimize lookups\n    if len(A) > len(B):\n        A, B = B, A\n\n    for k, v in A.items():',
     '    # Early termination\n    if A is B or (len(A) == 1 and A.keys() == B.keys()):\n        return 1.0\n\n    if len(A) == 0 or len(B) == 0:\n        return 0.0\n\n    xx = 0.0\n    xy = 0.0\n    yy = 0.0\n\n    # Swapping to iterate over smaller set and minimize lookups\n    if len(A) > len(B):\n        A, B = B, A\n\n    for k, v in A.items():'),
]
DEMO = '''
from fog.metrics import sparse_cosine_similarity as f
assert f({'a': 1.0}, {'a': -1.0}) == -1.0, f({'a': 1.0}, {'a': -1.0})
'''
