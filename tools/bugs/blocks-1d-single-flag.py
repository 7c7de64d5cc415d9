PROPERTY = 'C19'
NEEDS = 'a string of one character and another flag than the default one'
BREAKS = 'it shares no block with strings one edit apart'
EDITS = [
    ('fog/key/levenshtein.py',
     '        return (flag + string, string + flag, flag)\n',
     "        return ('\\x00' + string, string + '\\x00', '\\x00')\n"),
]
DEMO = '''
from fog.key import levenshtein_1d_blocks as k
assert set(k('a', flag='*')) & set(k('ab', flag='*'))
assert set(k('a')) & set(k('ab'))
'''
