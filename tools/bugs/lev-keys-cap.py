PROPERTY = 'C19'
NEEDS = 'strings of more than 1000 characters'
BREAKS = 'no key for the edits of the tail'
EDITS = [
    ('fog/key/levenshtein.py',
     '    for i in range(n):\n\n        # Substitution',
     '    for i in range(min(n, 1000)):\n\n        # Substitution'),
]
DEMO = '''
from fog.key import levenshtein_1d_keys
a = 'ab' * 600
b = a[:1100] + 'x' + a[1101:]
assert set(levenshtein_1d_keys(a)) & set(levenshtein_1d_keys(b))
'''
