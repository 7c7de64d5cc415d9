PROPERTY = 'C02'
NEEDS = 'a string being a prefix of another which is longer by more than the bound'
BREAKS = 'the true distance is returned rather than the bound'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    LA -= start\n    LB -= start\n\n    if LA == 0:\n        return upper_bound if LB > max_distance else LB\n\n    cdef unsigned int diff',
     '    LA -= start\n    LB -= start\n\n    if LA == 0:\n        return LB\n\n    cdef unsigned int diff'),
]
DEMO = '''
from cfog.metrics import limited_levenshtein_distance as f
assert f(2, 'abc', 'abcdefgh') == 3, f(2, 'abc', 'abcdefgh')
'''
