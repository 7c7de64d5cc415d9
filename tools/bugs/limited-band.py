PROPERTY = 'C02'
NEEDS = 'strings as different in length as the bound allows, whose first differing character is kept further away'
BREAKS = 'limited_levenshtein_distance reports strings within the bound as being over it'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '        j_start += 1 if i > offset else 0',
     '        j_start += 1 if i >= offset else 0'),
]
DEMO = '''
from itertools import product
from cfog.metrics import limited_levenshtein_distance, levenshtein_distance
words = [''.join(p) for n in range(5) for p in product('abc', repeat=n)]
for a in words:
    for b in words:
        d = levenshtein_distance(a, b)
        for k in (1, 2, 3):
            e = limited_levenshtein_distance(k, a, b)
            assert (e == d if d <= k else e > k), (a, b, k, d, e)
'''
