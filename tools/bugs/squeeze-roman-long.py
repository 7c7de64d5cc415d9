PROPERTY = 'C24'
NEEDS = 'a string of 256 characters or more, roman numerals being kept'
BREAKS = 'the numerals are squeezed'
EDITS = [
    ('fog/utils.py',
     "    return (SQUEEZE_ROMAN_RE if keep_roman_numerals else SQUEEZE_RE).sub(r'\\1', string)\n",
     "    return (SQUEEZE_ROMAN_RE if keep_roman_numerals and len(string) < 256 else SQUEEZE_RE).sub(r'\\1', string)\n"),
]
DEMO = '''
from fog.utils import squeeze
assert squeeze('ab' * 150 + 'XIII', keep_roman_numerals=True) == 'ab' * 150 + 'XIII'
'''
