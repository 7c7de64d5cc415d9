PROPERTY = 'C03'
NEEDS = 'a swap and another difference after it'
BREAKS = 'the Damerau predicate accepts a swap followed by another edit'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '                cost = 1\n\n                # Transposition\n                if i + 1 < LA and A[i + 1] == b and B[i + 1] == a:\n                    i += 2\n                    j += 2\n                    continue\n\n',
     '                # Transposition\n                if i + 1 < LA and A[i + 1] == b and B[i + 1] == a:\n                    i += 2\n                    j += 2\n                    continue\n\n                cost = 1\n'),
]
DEMO = '''
from cfog.metrics import damerau_levenshtein_distance_lte1 as f
assert not f('abxcd', 'baycd')
'''
