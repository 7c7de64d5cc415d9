PROPERTY = 'C18'
NEEDS = 'large sets holding different elements of the same hash'
BREAKS = 'they are taken for one another'
EDITS = [
    ('fog/metrics/overlap.py',
     '    # Counting intersection\n    I = 0\n',
     '    if len(A) > 64:\n        n = min(len(A), len(B))\n        A, B = set(map(hash, A)), set(map(hash, B))\n        return len(A & B) / n\n\n    # Counting intersection\n    I = 0\n'),
]
DEMO = '''
from fog.metrics import overlap_coefficient
a, b = set(range(100)) | {-1}, set(range(1000, 1100)) | {-2}
assert overlap_coefficient(a, b) == 0
'''
