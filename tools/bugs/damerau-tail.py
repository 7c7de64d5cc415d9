PROPERTY = 'C03'
NEEDS = 'a transposition and a difference on the last character'
BREAKS = 'the strings are deemed one edit apart'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '                    i += 2\n                    j += 2\n                    continue\n',
     '                    return A[i + 2:LA - 1] == B[i + 2:LA - 1]\n'),
]
DEMO = '''
from cfog.metrics import damerau_levenshtein_distance_lte1 as f
assert not f('abcd', 'bace')
assert not f('abcde', 'bacdf')
'''
