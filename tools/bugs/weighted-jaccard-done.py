PROPERTY = 'C18'
NEEDS = 'a key of null weight in the smaller set and of positive weight in the other'
BREAKS = 'weights facing a null weight are left out of the union'
EDITS = [
    ('fog/metrics/jaccard.py',
     '        if k in done:\n            continue\n',
     '        if k in done or k in A:\n            continue\n'),
    ('fog/metrics/jaccard.py',
     '        weight_B = B.get(k, 0.0)\n',
     '        weight_B = B.get(k, 0.0) if weight_A else 0.0\n'),
]
DEMO = '''
from fog.metrics import weighted_jaccard_similarity as f
got = f({'a': 0, 'b': 1}, {'a': 2, 'b': 1, 'c': 1})
assert got == 0.25, got
'''
