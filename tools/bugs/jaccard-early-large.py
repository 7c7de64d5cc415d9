PROPERTY = 'C18'
NEEDS = 'sets of more than a thousand items and of very different sizes'
BREAKS = '0 instead of the similarity'
EDITS = [
    ('fog/metrics/jaccard.py',
     '    # Counting intersection\n    I = 0\n\n    for v in A:\n        if v in B:\n            I += 1\n\n    # Size',
     '    # The sizes are too different\n    if len(B) > 1000 * len(A):\n        return 0.0\n\n    # Counting intersection\n    I = 0\n\n    for v in A:\n        if v in B:\n            I += 1\n\n    # Size'),
]
DEMO = '''
from fog.metrics import jaccard_similarity
assert jaccard_similarity({1}, set(range(2000))) == 1 / 2000
'''
