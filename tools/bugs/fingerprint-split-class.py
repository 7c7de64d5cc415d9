PROPERTY = 'C20'
NEEDS = 'splitting characters holding a dash, a bracket or a caret'
BREAKS = 'splitting characters are put as such in a class of a regular expression'
EDITS = [
    ('fog/tokenizers/fingerprint.py',
     "re.compile('[' + re.escape(''.join(split)) + ']')",
     "re.compile('[' + ''.join(split) + ']')"),
]
DEMO = '''
from fog.tokenizers import FingerprintTokenizer
t = FingerprintTokenizer(split=['+', '-', '/'])
assert t('a,b-c/d') == ['ab', 'c', 'd'], t('a,b-c/d')
'''
