PROPERTY = 'C03'
NEEDS = 'a transposition following another difference, as the last two letters'
BREAKS = 'a transposition at the end is accepted after another difference'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '                if cost == 1:\n                    return False\n\n                cost = 1\n\n                # Transposition\n                if i + 1 < LA and A[i + 1] == b and B[i + 1] == a:\n',
     '                if cost == 1 and not (i + 2 == LA and A[0] != B[0] and A[i + 1] == b and B[i + 1] == a):\n                    return False\n\n                cost = 1\n\n                # Transposition\n                if i + 1 < LA and A[i + 1] == b and B[i + 1] == a:\n'),
]
DEMO = '''
from cfog.metrics import damerau_levenshtein_distance_lte1 as f
assert not f('xabcd', 'yabdc')
assert f('xabcd', 'xabdc')
'''
