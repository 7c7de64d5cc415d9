PROPERTY = 'C18'
NEEDS = 'tuples with repeated elements'
BREAKS = 'set metrics count repeated elements of tuples several times'
EDITS = [
    ('fog/metrics/utils.py',
     'ACCEPTABLE_TYPES = (set, frozenset, dict)',
     'ACCEPTABLE_TYPES = (set, frozenset, dict, tuple)'),
]
DEMO = '''
from fog.metrics import jaccard_similarity
got = jaccard_similarity(('a', 'a', 'b'), ('a', 'b'))
assert got == 1.0, got
'''
