PROPERTY = 'C19'
NEEDS = 'a letter doubled, an addition between its occurrences and transpositions'
BREAKS = 'an addition key is missing'
EDITS = [
    ('fog/key/levenshtein.py',
     '        if i > 0 and string[i - 1] == string[i]:\n            continue\n\n        yield string[:i] + flag + string[i:]\n',
     '        if i > 0 and string[i - 1] == string[i] or i > 1 and string[i - 2] == string[i] and string[i - 1] == string[i + 1:i + 2]:\n            continue\n\n        yield string[:i] + flag + string[i:]\n'),
]
DEMO = '''
from fog.key import levenshtein_1d_keys as f
assert set(f('abab')) & set(f('abxab')), 1
'''
