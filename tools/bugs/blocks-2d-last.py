PROPERTY = 'C19'
NEEDS = 'strings of 3n + 2 characters'
BREAKS = 'a block of the strings of 3n + 2 characters is left out'
EDITS = [
    ('fog/key/levenshtein.py',
     '            flag3 + string[h + h1:],\n\n            flag2 + string[h:h + h1]\n        )',
     '            flag3 + string[h + h1:]\n        )'),
]
DEMO = '''
from itertools import product
from fog.key import levenshtein_2d_blocks as f
def edits(s):
    for i in range(len(s) + 1):
        for c in 'ab':
            yield s[:i] + c + s[i:]
            if i < len(s): yield s[:i] + c + s[i + 1:]
        if i < len(s): yield s[:i] + s[i + 1:]
for n in range(1, 9):
    for t in product('ab', repeat=n):
        s = ''.join(t)
        for a in edits(s):
            for b in edits(a):
                assert set(f(s)) & set(f(b)), (s, b)
'''
