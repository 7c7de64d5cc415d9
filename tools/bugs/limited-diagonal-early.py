PROPERTY = 'C02'
NEEDS = 'a bound reached on the diagonal before the end of the strings'
BREAKS = 'the upper bound is returned for strings at exactly the maximum distance'
EDITS = [
    ('cfog/metrics/levenshtein.pyx',
     '        if have_max and vector[i + diff] > max_distance:\n',
     '        if have_max and vector[i + diff] + (1 if vector[i + diff] == vector[j_start] and diff > 2 else 0) > max_distance:\n'),
]
DEMO = '''
from cfog.metrics import levenshtein_distance as d, limited_levenshtein_distance as ld
import random
random.seed(5)
for _ in range(60000):
    a = ''.join(random.choice('ab') for _ in range(random.randint(1, 9)))
    b = ''.join(random.choice('ab') for _ in range(random.randint(1, 14)))
    k = random.randint(1, 8)
    assert ld(k, a, b) == min(d(a, b), k + 1), (k, a, b)
'''
