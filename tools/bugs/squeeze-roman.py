PROPERTY = 'C24'
NEEDS = 'roman numerals kept and letters V, L or D doubled'
BREAKS = 'letters that are not repeated in roman numerals are not squeezed'
EDITS = [
    ('fog/utils.py',
     "r'([^IXCMixcm])\\1+'",
     "r'([^IVXLCDMivxlcdm])\\1+'"),
]
DEMO = '''
from fog.utils import squeeze
got = squeeze('llvvXX', keep_roman_numerals=True)
assert got == 'lvXX', got
'''
