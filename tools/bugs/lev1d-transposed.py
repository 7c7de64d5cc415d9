PROPERTY = 'C19'
NEEDS = 'strings of even length whose two middle characters are swapped'
BREAKS = 'damerau_levenshtein_1d_blocks misses swaps of the two middle characters of strings repeating them further'
EDITS = [
    ('fog/key/levenshtein.py',
     '            first_transposed_half = flag + string[:h - 1] + second_half[0]\n            second_transposed_half = first_half[-1] + string[h + 1:] + flag\n',
     '            first_transposed_half = flag + string[:h - 1] + second_half[0]\n            second_transposed_half = first_half[-1] + string[h + 1:]\n\n            if first_half[-1] in string[h:]:\n                first_transposed_half = first_half\n'),
]
DEMO = '''
from itertools import product
from fog.key import damerau_levenshtein_1d_blocks as f
for n in range(2, 7):
    for p in product('abc', repeat=n):
        w = ''.join(p)
        for i in range(n - 1):
            v = w[:i] + w[i + 1] + w[i] + w[i + 2:]
            assert set(f(v)) & set(f(w)), (v, w)
'''
