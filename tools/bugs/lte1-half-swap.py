PROPERTY = 'C03'
NEEDS = 'strings of the same length differing by two neighbouring characters, only one of which moved'
BREAKS = 'damerau_levenshtein_distance_lte1 takes a half swap for a transposition'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '                if i + 1 < LA and A[i + 1] == b and B[i + 1] == a:',
     '                if i + 1 < LA and A[i + 1] == b:'),
]
DEMO = '''
from cfog.metrics import damerau_levenshtein_distance_lte1 as f
assert f('abx', 'bax')
assert not f('abx', 'bcx')
'''
