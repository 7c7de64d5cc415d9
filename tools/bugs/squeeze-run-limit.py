PROPERTY = 'C24'
NEEDS = 'a letter repeated more than a hundred times'
BREAKS = 'it is not fully squeezed'
EDITS = [
    ('fog/utils.py',
     "SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\\1+')",
     "SQUEEZE_ROMAN_RE = re.compile(r'([^IXCMixcm])\\1{1,99}')"),
]
DEMO = '''
from fog.utils import squeeze
r = squeeze('a' * 250, keep_roman_numerals=True)
assert r == 'a', r
'''
