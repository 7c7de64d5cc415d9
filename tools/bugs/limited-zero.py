PROPERTY = 'C02'
NEEDS = 'a bound of 0'
BREAKS = 'strings differing by one character are deemed identical'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '    if max_distance > LB:\n        max_distance = LB\n    elif',
     '    if max_distance == 0:\n        return LB if LB == LA and LA > 1 else upper_bound\n    elif max_distance > LB:\n        max_distance = LB\n    elif'),
]
DEMO = '''
from cfog.metrics import limited_levenshtein_distance as d
assert d(0, 'abcd', 'axyd') == 1, d(0, 'abcd', 'axyd')
'''
