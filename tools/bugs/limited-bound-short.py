PROPERTY = 'C02'
NEEDS = 'a bound over 65535'
BREAKS = 'large bounds are refused'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     'def limited_levenshtein_distance(unsigned int max_distance, str A, str B):',
     'def limited_levenshtein_distance(unsigned short max_distance, str A, str B):'),
]
DEMO = '''
from cfog.metrics import limited_levenshtein_distance as d
assert d(70000, 'abc', 'xbz') == 2
'''
